"""A simulated Tahoe-LAFS grid, and the HTTP gateway a node uses to reach it."""

from __future__ import annotations

import hashlib
import json
import os
from urllib.parse import unquote, urlsplit

from allmydata.client import _valid_config
from allmydata.node import config_from_string
from tahoe_capabilities import (
    CHKRead,
    NotRecognized,
    SSKDirectoryWrite,
    SSKWrite,
    danger_real_capability_string,
    readable_from_string,
    readonly_directory_from_string,
    writeable_directory_from_string,
)
from treq.client import HTTPClient
from twisted.internet.error import NoRouteError, TCPTimedOutError
from twisted.web.client import ResponseFailed, ResponseNeverReceived
from twisted.python.failure import Failure

from _zkapauthorizer.tahoe import Tahoe

from .http import LOST, REFUSED, SimAgent, SimResponse

GRID_KINDS = ["g-refused", "g-unhappy", "g-error", "g-lost", "g-effect-lost", "g-effect-error", "g-slow", "g-stall", "g-truncated"]

UNHAPPY = ["allmydata.interfaces.NoServersError: placed 0 shares", "allmydata.mutable.common.NotEnoughServersError: ran out of good servers"]


class Grid:
    """
    What is stored: immutable objects and mutable directories.

    :ivar on_change: called after each change to a directory.
    """

    def __init__(self, sim):
        self.sim = sim
        self.objects = {}
        self.dirs = {}
        # read cap and write cap strings -> key in dirs
        self.names = {}
        self.on_change = []

    def put(self, data):
        key = hashlib.sha256(b"chk" + data).digest()
        cap = CHKRead.derive(readkey=key[:16], uri_extension_hash=hashlib.sha256(key).digest(), needed=3, total=10, size=len(data))
        text = danger_real_capability_string(cap)
        self.objects[text] = data
        return text

    def mkdir(self):
        key = self.sim.nonce(48)
        cap = SSKDirectoryWrite(cap_object=SSKWrite.derive(key[:16], key[16:]))
        text = danger_real_capability_string(cap)
        self.dirs[text] = {}
        self.names[text] = text
        self.names[danger_real_capability_string(cap.reader)] = text
        return cap

    def children(self, cap):
        """The children of the directory with the given cap object."""
        return self.dirs[self.names[danger_real_capability_string(cap)]]

    def contents(self, cap):
        return {n: self.objects.get(c) for n, c in self.children(cap).items()}


class Gateway:
    """
    The Tahoe-LAFS node that one process of ours runs inside of.  Changes of
    one directory happen in the order they arrive in.

    :ivar gate: f(what, name) called for every request.
    """

    def __init__(self, grid, proc, swarm, hurry=False):
        self.grid = grid
        self.sim = grid.sim
        self.proc = proc
        self.swarm = swarm
        self.queue = []
        self.busy = False
        self.outage = None
        self.requests = 0
        self.gate = None
        self.made = []
        proc.on_kill.append(self.killed)

    def killed(self):
        # Each of the changes under way either happens or does not.
        while self.queue and self.sim.ch.flag(0.4):
            effect = self.queue.pop(0)[0]
            self.sim.log("landed-in-crash")
            self.sim.count("fault:landed-in-crash")
            effect()
        self.queue = []

    def delay(self):
        d = self.sim.ch.delay(0.1)
        if self.sim.fault("g-slow", self.swarm["g-slow"]):
            d += self.sim.ch.of([5.0, 60.0, 600.0])
        return d

    def route(self, agent, method, uri, headers, body, result):
        sim, swarm = self.sim, self.swarm
        parts = urlsplit(uri.decode("ascii"))
        path = [unquote(p) for p in parts.path.split("/")][1:]
        query = parts.query
        self.requests += 1
        what, name = self.classify(method, path, query)
        sim.log("grid", what, name)
        sim.count("grid-" + what)
        if self.gate is not None:
            self.gate(what, name)

        def reply(code, content, delay=None):
            def send():
                if result.called:
                    return
                if code == 200 and what == "get" and sim.fault("g-truncated", swarm["g-truncated"]):
                    n = sim.ch.pick(max(1, len(content)))
                    result.callback(SimResponse(self.proc, method, uri, code, content, truncate=n))
                elif code == 200 and sim.fault("g-lost-reply", swarm["g-effect-lost"]):
                    result.errback(Failure(ResponseFailed([Failure(LOST())])))
                else:
                    slow = 0.5 if what == "get" and sim.ch.flag(0.2) else 0.0
                    result.callback(SimResponse(self.proc, method, uri, code, content, delay=slow, chunks=3 if slow else 1))

            self.proc.clock.callLater(self.delay() if delay is None else delay, send)

        def fail(exc):
            self.proc.clock.callLater(self.delay(), lambda: result.called or result.errback(exc))

        mutates = what in ("link", "unlink", "mkdir", "upload")
        if self.outage is not None and sim.faults_on:
            if self.outage == "refused":
                return fail(REFUSED())
            if self.outage == "unhappy" and what != "list":
                return reply(500, sim.ch.of(UNHAPPY).encode("ascii"), 7.0)
            if self.outage == "error":
                return reply(500, b"exceptions.SomethingElse: it went wrong", 3.0)
            if self.outage == "lost":
                return fail(ResponseFailed([Failure(LOST())]))
        if sim.fault("g-refused", swarm["g-refused"]):
            return fail(REFUSED())
        if sim.fault("g-unhappy", swarm["g-unhappy"]):
            return reply(500, sim.ch.of(UNHAPPY).encode("ascii"), 7.0)
        if sim.fault("g-error", swarm["g-error"]):
            code, text = sim.ch.of([
                (500, b"allmydata.interfaces.UploadUnhappinessError: shares could be placed on only 1 server"),
                (410, b"NotEnoughSharesError: no shares could be found"),
                (503, b"<html>service unavailable</html>"),
                (400, b"what?"),
                (200 if what == "never" else 502, b"\xff\xfe bad gateway"),
            ])
            return reply(code, text)
        if sim.fault("g-lost", swarm["g-lost"]):
            return fail(sim.ch.of([ResponseFailed([Failure(LOST())]), ResponseNeverReceived([Failure(LOST())]), TCPTimedOutError(), NoRouteError()]))

        answer = []

        def effect():
            answer.append(self.serve(what, path, body))

        def done():
            code, content = answer[0]
            if mutates and code in (200, 201) and sim.fault("g-effect-error", swarm["g-effect-error"]):
                return reply(500, b"exceptions.SomethingElse: it went wrong afterwards")
            reply(code, content)

        lag = self.delay()
        if sim.fault("g-stall", swarm["g-stall"]):
            lag += sim.ch.of([1800.0, 7200.0, 40000.0])
        if what in ("link", "unlink"):
            self.queue.append((effect, done, lag))
            self.pump()
        else:
            def run():
                effect()
                done()

            self.proc.clock.callLater(lag, run)

    def pump(self):
        if self.busy or not self.queue:
            return
        self.busy = True
        effect, done, lag = self.queue[0]

        def run():
            self.busy = False
            self.queue.pop(0)
            effect()
            self.pump()
            done()

        self.proc.clock.callLater(lag, run)

    def classify(self, method, path, query):
        if path[:1] != ["uri"]:
            return "unknown", "/".join(path)
        path = path[1:]
        if method == b"PUT" and not path:
            return "upload", ""
        if method == b"POST" and not path and query == "t=mkdir":
            return "mkdir", ""
        if method == b"GET" and len(path) == 2 and path[1] == "" and query == "t=json":
            return "list", ""
        if method == b"PUT" and len(path) == 2 and query == "t=uri":
            return "link", path[1]
        if method == b"DELETE" and len(path) == 2:
            return "unlink", path[1]
        if method == b"GET" and len(path) == 1:
            return "get", ""
        return "unknown", repr((method, path, query))

    def serve(self, what, path, body):
        grid = self.grid
        if what == "upload":
            return 201, grid.put(body).encode("ascii")
        if what == "mkdir":
            cap = grid.mkdir()
            self.made.append(cap)
            return 200, danger_real_capability_string(cap).encode("ascii")
        if what == "get":
            data = grid.objects.get(path[1])
            if data is None:
                return 410, b"NotEnoughSharesError: no shares could be found"
            return 200, data
        if what not in ("list", "link", "unlink"):
            return 404, b"no such thing"
        if path[1] in grid.objects:
            return 400, b"<title>400 - Files have no children named %r</title>" % (path[-1],)
        if path[1] not in grid.names:
            return 410, b"UnrecoverableFileError: the directory (or mutable file) could not be retrieved"
        children = grid.dirs[grid.names[path[1]]]
        if what == "list":
            out = {}
            for name, cap in children.items():
                if cap in grid.objects:
                    out[name] = ["filenode", {"ro_uri": cap, "size": len(grid.objects[cap]), "mutable": False, "format": "CHK"}]
                elif cap in grid.names:
                    out[name] = ["dirnode", {"ro_uri": self.reader(cap), "mutable": True}]
                else:
                    out[name] = ["filenode", {"ro_uri": cap, "size": readable_from_string(cap).size, "mutable": False}]
            return 200, json.dumps(["dirnode", {"children": out, "mutable": True}]).encode("utf-8")
        if path[1] not in grid.dirs:
            return 500, b"allmydata.mutable.common.NotWriteableError: "
        name = path[2]
        if what == "link":
            children[name] = body.decode("ascii")
        else:
            if name not in children:
                return 404, b"No such child: " + name.encode("utf-8")
            del children[name]
        self.sim.log("grid-changed", what, name)
        for f in grid.on_change:
            f(what, name)
        return 200, b"URI:..."

    def reader(self, cap):
        try:
            return danger_real_capability_string(writeable_directory_from_string(cap).reader)
        except NotRecognized:
            return danger_real_capability_string(readonly_directory_from_string(cap))


def make_basedir(sim, name):
    base = os.path.join(sim.scratch, name)
    os.makedirs(os.path.join(base, "private"), exist_ok=True)
    with open(os.path.join(base, "node.url"), "w") as f:
        f.write("http://127.0.0.1:3456/\n")
    return base


def node_config(basedir, client="shares.needed = 3\nshares.total = 10", plugin=""):
    return config_from_string(
        basedir,
        "tub.port",
        f"""
[node]
nickname = sim
[client]
{client}
[storageclient.plugins.privatestorageio-zkapauthz-v2]
redeemer = dummy
issuer-public-key = aaaaaaaaaaaaaaaa
{plugin}
""",
        _valid_config(),
    )


def client(gateway, config):
    """The real client for the grid."""
    return Tahoe(HTTPClient(SimAgent(gateway.proc, gateway.route)), config)
