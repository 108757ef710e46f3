"""
The grid client: many operations at once against a grid that fails in every
way, from a node that can be killed at any of them.
"""

from __future__ import annotations

import io
import os
from urllib.parse import unquote, urlsplit

from tahoe_capabilities import (
    danger_real_capability_string,
    readable_from_string,
    readonly_directory_from_string,
    writeable_directory_from_string,
)
from treq.client import HTTPClient
from twisted.internet.defer import Deferred
from twisted.python.failure import Failure
from twisted.python.filepath import FilePath

from _zkapauthorizer import tahoe
from _zkapauthorizer.tahoe import NotADirectoryError, NotWriteableError, Tahoe, TahoeAPIError

from ..core import Process, SimCrash, Swarm
from ..disk import DISK_KINDS, SimDisk
from ..grid import GRID_KINDS, UNHAPPY, Gateway, Grid, make_basedir, node_config
from ..http import REFUSED, SimAgent
from . import WorldSpec

KINDS = GRID_KINDS + DISK_KINDS + ["provider"]
NAMES = ["snapshot", "event-stream-000", "event-stream-001", "x y", "100%", "%2f", "a?b=c", "d#e", "\u2603 file", "a+b&c;d=e", "UPPER", "a/b", " x", "upper", ".hidden", "tab\t", "caf\u00e9"]


class Attempt:
    def __init__(self, method, what, path, body):
        self.method = method
        self.what = what
        self.path = path
        self.body = body
        self.outcome = None

    @property
    def refused(self):
        return isinstance(self.outcome, Failure) and self.outcome.check(REFUSED)

    @property
    def reply(self):
        return None if self.outcome is None or isinstance(self.outcome, Failure) else self.outcome

    @property
    def short(self):
        r = self.reply
        return r is not None and r.code not in (200, 201) and any(u.split(":")[0].encode() in r._body for u in UNHAPPY)

    @property
    def vague(self):
        """Not enough servers, in a way which need not be temporary."""
        r = self.reply
        return r is not None and b"UploadUnhappinessError" in r._body

    @property
    def ok(self):
        r = self.reply
        return r is not None and r.code in (200, 201) and (r._truncate is None or not r._body)


class Op:
    """
    :ivar what: the kind of operation
    :ivar want: (what, path, body) that each request has to be
    """

    def __init__(self, world, what, call, want, **info):
        self.world = world
        self.sim = world.sim
        self.what = what
        self.want = want
        self.call = call
        self.info = info
        self.attempts = []
        self.finished = False
        self.provider_failed = False
        self.proc = world.proc
        self.client = Tahoe(HTTPClient(SimAgent(world.proc, self.route)), world.config)

    def start(self):
        self.sim.log("op", self.what, self.info.get("name"))
        self.sim.count("op-" + self.what)

        async def go():
            return await self.call(self.client)

        d = Deferred.fromCoroutine(go())
        self.proc.keep.append(d)
        d.addBoth(self.finish)

    def route(self, agent, method, uri, headers, body, result):
        parts = urlsplit(uri.decode("ascii"))
        path = [unquote(p) for p in parts.path.split("/")][1:]
        what, name = self.world.gateway.classify(method, path, parts.query)
        a = Attempt(method, what, path, body)
        if self.attempts:
            self.retried(self.attempts[-1])
        self.attempts.append(a)
        self.sim.ensure((what, path, body) == self.want, "C28", "wrong-request",
                        lambda: f"{self.what} asks for {what} {[p[:60] for p in path]} {body[:50]!r} ({len(body)}), not {str(self.want)[:150]}")

        def done(r):
            a.outcome = r
            return r

        result.addBoth(done)
        self.world.gateway.route(agent, method, uri, headers, body, result)

    def retried(self, last):
        self.sim.count("retries")
        self.sim.ensure(self.what != "download", "C28", "retried", "a download is retried")
        self.sim.ensure(last.refused or last.short or last.vague, "C28", "retried",
                        lambda: f"{self.what} is repeated after {last.outcome} {last.reply and last.reply.code} {last.reply and last.reply._body[:60]!r}")

    def finish(self, result):
        sim = self.sim
        if not self.proc.alive or sim.stopped:
            return
        if isinstance(result, Failure) and result.check(SimCrash):
            return
        failed = isinstance(result, Failure)
        sim.log("finished", self.what, result.type.__name__ if failed else "ok")
        sim.count("finished-" + ("failed" if failed else "ok"))
        if self.what == "download":
            self.world.look(self, None if failed else self.info["data"])
        self.finished = True
        if failed:
            self.failure(result)
        else:
            self.success(result)

    def failure(self, f):
        sim = self.sim
        text = f"{f.value} {f.value!r}"
        for secret in self.world.secrets:
            sim.ensure(secret not in text, "C28", "leak", f"the failure of {self.what} has a capability in it: {text}")
        if self.provider_failed or getattr(f.value, "injected", False):
            return
        if self.info.get("invalid"):
            sim.ensure(not self.attempts, "C28", "wrong-request", f"{self.what} of something else makes requests")
            return
        sim.ensure(self.attempts, "C28", "made-up-failure", lambda: f"{self.what} failed without a request: {f.getErrorMessage()}")
        last = self.attempts[-1]
        sim.ensure(last.outcome is not None, "C28", "gave-up", lambda: f"{self.what} failed before it was answered: {f.getErrorMessage()}")
        sim.ensure(not last.ok, "C28", "made-up-failure", lambda: f"{self.what} failed with {f.type.__name__} {f.getErrorMessage()[:100]} though the grid did it")
        if self.what != "download":
            sim.ensure(not last.refused and not last.short, "C28", "gave-up", lambda: f"{self.what} failed with {f.getErrorMessage()[:100]} instead of being retried")
        r = last.reply
        if r is None or r._truncate is not None:
            return
        try:
            r._body.decode("utf-8")
        except UnicodeDecodeError:
            return
        if b"NotWriteableError" in r._body and self.what in ("link", "unlink"):
            sim.ensure(f.check(NotWriteableError), "C28", "wrong-failure", f"{self.what} in something not writeable failed with {f.type}")
        elif b"Files have no children named" in r._body and self.what == "unlink":
            sim.ensure(f.check(NotADirectoryError), "C28", "wrong-failure", f"unlinking from a file failed with {f.type}")
        else:
            sim.ensure(f.check(TahoeAPIError) and f.value.status == r.code, "C28", "wrong-failure",
                       lambda: f"{self.what} answered {r.code} failed with {f.type} {f.getErrorMessage()[:80]}")

    def success(self, result):
        sim, grid = self.sim, self.world.grid
        sim.ensure(not self.info.get("invalid"), "C28", "made-up-success", f"{self.what} of something else succeeds")
        sim.ensure(not self.provider_failed, "C28", "made-up-success", "an upload of unreadable data succeeds")
        sim.ensure(self.attempts and self.attempts[-1].ok, "C28", "made-up-success",
                   lambda: f"{self.what} succeeds, the last answer was {self.attempts and self.attempts[-1].outcome}")
        body = self.attempts[-1].reply._body
        if self.what == "upload":
            text = danger_real_capability_string(result)
            sim.ensure(text.encode("ascii") == body and grid.objects[text] == self.info["data"], "C28", "wrong-result", "an upload results in something else's capability")
        elif self.what == "mkdir":
            sim.ensure(danger_real_capability_string(result).encode("ascii") == body, "C28", "wrong-result", "a new directory has another directory's capability")
        elif self.what == "list":
            sim.ensure(self.listing(result) == self.info["seen"][id(self.attempts[-1].reply)], "C28", "wrong-result", lambda: f"listed {self.listing(result)}")

    def listing(self, result):
        out = {}
        for name, e in result.items():
            cap = danger_real_capability_string(e.ro_uri)
            out[name] = ("file", e.size, cap) if isinstance(e, tahoe.FileNode) else ("dir", cap)
        return out


class TahoeWorld:
    def __init__(self, sim):
        self.sim = sim
        sim.max_events = 150000
        self.swarm = Swarm(sim, KINDS)
        self.grid = Grid(sim)
        self.basedir = make_basedir(sim, "tahoe")
        self.config = node_config(self.basedir)
        self.boots = 0
        self.proc = None
        self.ops = []
        # path -> contents it must have, if no download to it is going on
        self.targets = {os.path.join(self.basedir, n): None for n in ("one", "two")}
        self.files = [self.grid.put(d) for d in (b"", b"x", b"some data " * 50, sim.nonce(32) * 700)]
        self.dirs = [self.grid.mkdir() for _ in range(2)]
        inner = danger_real_capability_string(self.dirs[1].reader)
        children = self.grid.children(self.dirs[0])
        for i, n in enumerate(NAMES[:6]):
            if sim.ch.flag(0.5):
                children[n] = [self.files[i % 4], inner, danger_real_capability_string(self.dirs[1])][sim.ch.pick(3)]
        self.served = None

    @property
    def secrets(self):
        got = set(self.grid.objects) | set(self.grid.names)
        return got | {c.split(":")[2] for c in got if not c.startswith("URI:LIT")}

    # -- the process -----------------------------------------------------
    def boot(self):
        self.boots += 1
        self.proc = Process(self.sim, f"node#{self.boots}")
        self.proc.on_kill.append(self.killed)
        self.disk = SimDisk(self.proc, self.basedir, self.swarm, pid=self.boots)
        self.disk.watch = self.watch
        self.gateway = Gateway(self.grid, self.proc, self.swarm)
        self.ops = []
        serve = self.gateway.serve

        def watched(what, path, body):
            code, content = serve(what, path, body)
            if what == "list" and code == 200:
                # What is there at this moment
                self.served = {n: self.entry(c) for n, c in self.grid.dirs[self.grid.names[path[1]]].items()}
                self.listed[content] = self.served
            return code, content

        self.listed = {}
        self.gateway.serve = watched

    def entry(self, cap):
        if cap in self.grid.objects:
            return ("file", len(self.grid.objects[cap]), cap)
        return ("dir", self.gateway.reader(cap))

    def killed(self):
        self.after_crash()
        self.ops = []

    def after_crash(self):
        for path in self.targets:
            got = self.allowed(path)
            self.targets[path] = got

    # -- what is in the files --------------------------------------------
    def content(self, path):
        try:
            fd = os.open(path, os.O_RDONLY)
        except FileNotFoundError:
            return None
        with os.fdopen(fd, "rb") as f:
            return f.read()

    def going(self, path):
        return [op for op in self.ops if op.what == "download" and not op.finished and op.info["path"] == path]

    def allowed(self, path):
        got = self.content(path)
        may = [self.targets[path]] + [op.info["data"] for op in self.going(path)]
        if got not in may and not self.sim.stopped:
            self.sim.violation("C28", "partial-file", f"a download target has {None if got is None else len(got)} bytes, complete is {[m if m is None else len(m) for m in may]}")
        return got

    def watch(self):
        if not self.sim.stopped:
            for path in self.targets:
                self.allowed(path)

    def look(self, op, data):
        """A download to a file has come to an end."""
        path = op.info["path"]
        got = self.allowed(path)
        if data is not None:
            self.sim.ensure(got == data or any(o.info["data"] == got for o in self.going(path) if o is not op), "C28", "wrong-file",
                            f"a downloaded file has {None if got is None else len(got)} bytes, not {len(data)}")
            # Another download that is about to end may have replaced it.
        elif self.going(path) == [op]:
            may = [self.targets[path]]
            if op.attempts and op.attempts[-1].ok:
                # It failed when the file was moved, before or after that.
                may.append(op.info["data"])
            self.sim.ensure(got in may, "C28", "effect-of-failure", "a failed download changes the file")
        if got != self.targets[path]:
            self.targets[path] = got

    # -- operations ------------------------------------------------------------
    def any_dir(self, write=True):
        """(cap object, string) of a directory, perhaps one that cannot be written"""
        ch = self.sim.ch
        d = ch.of(self.dirs)
        k = ch.weighted([8, 2, 1])
        if k == 0 and write:
            return d, danger_real_capability_string(d)
        if k == 2:
            cap = ch.of(self.files)
            return readable_from_string(cap), cap
        return d.reader, danger_real_capability_string(d.reader)

    def new_op(self):
        sim, ch = self.sim, self.sim.ch
        k = ch.weighted([4, 6, 3, 1, 4, 3])
        if k == 0:
            self.upload()
        elif k == 1:
            self.download()
        elif k == 2:
            d, text = self.any_dir(write=False)
            seen = _Seen(self)
            op = Op(self, "list", lambda c: c.list_directory(d), ("list", ["uri", text, ""], b""), invalid=text in self.grid.objects, seen=seen)
            seen.op = op
            self.begin(op)
        elif k == 3:
            self.begin(Op(self, "mkdir", lambda c: c.make_directory(), ("mkdir", ["uri"], b"")))
        elif k == 4:
            d, text = self.any_dir()
            name = ch.of(NAMES)
            target = ch.of(self.files + [danger_real_capability_string(self.dirs[1]), danger_real_capability_string(self.dirs[1].reader)])
            cap = self.cap(target)
            self.begin(Op(self, "link", lambda c: c.link(d, name, cap), ("link", ["uri", text, name], target.encode("ascii")), name=name, dir=text, target=target))
        else:
            d, text = self.any_dir()
            name = ch.of(NAMES)
            self.begin(Op(self, "unlink", lambda c: c.unlink(d, name), ("unlink", ["uri", text, name], b""), name=name))

    def cap(self, text):
        if text in self.grid.objects:
            return readable_from_string(text)
        if text in self.grid.dirs:
            return writeable_directory_from_string(text)
        return readonly_directory_from_string(text)

    def begin(self, op):
        self.ops.append(op)
        op.start()

    def upload(self):
        sim, ch = self.sim, self.sim.ch
        data = ch.of([b"", b"y", b"more data " * 70, sim.nonce(32) * 500])
        path = os.path.join(self.basedir, "source")

        def provide():
            if sim.fault("provider", self.swarm["provider"]):
                op.provider_failed = True
                raise OSError("cannot be read")
            return io.BytesIO(data)

        op = Op(self, "upload", lambda c: c.upload(provide), ("upload", ["uri"], data), data=data)
        self.begin(op)

    def download(self):
        ch = self.sim.ch
        path = ch.of(sorted(self.targets))
        text = ch.of(self.files) if ch.flag(0.9) else None
        if text is None:
            text = danger_real_capability_string(readable_from_string(self.files[2]))[:-1] + "9"
            data = None
        else:
            data = self.grid.objects[text]
        cap = readable_from_string(text)
        self.begin(Op(self, "download", lambda c: c.download(FilePath(path), cap), ("get", ["uri", text], b""), path=path, data=data))

    # -- the run -----------------------------------------------------------------
    def step(self):
        sim, ch = self.sim, self.sim.ch
        if not self.proc.alive:
            sim.run_for(1.0)
            self.boot()
            self.watch()
            return
        k = ch.weighted([10, 12, 2, 1])
        try:
            if k == 0 and sum(not op.finished for op in self.ops) < 6:
                self.new_op()
            elif k <= 1:
                for _ in range(1 + ch.pick(4)):
                    sim.clock.step() if sim.clock.next_time() is not None else None
            elif k == 2:
                self.gateway.outage = None if self.gateway.outage else ch.of(["refused", "unhappy"]) if self.swarm["g-refused"] else None
                sim.run_for(ch.of([0.1, 5.0]))
                self.gateway.outage = None
            elif sim.faults_on and self.swarm["disk-crash"]:
                self.proc.kill("crash")
        except SimCrash:
            pass
        if self.proc.alive:
            self.watch()

    def run(self):
        sim, ch = self.sim, self.sim.ch
        self.boot()
        for _ in range(15 + ch.pick(60)):
            self.step()
        sim.log("healthy")
        sim.faults_on = False
        if not self.proc.alive:
            self.boot()
        for _ in range(3):
            self.new_op()
        for _ in range(20):
            if all(op.finished for op in self.ops):
                break
            sim.run_until(lambda: all(op.finished for op in self.ops), 50000.0)
        for op in self.ops:
            sim.ensure(op.finished, "C28", "stuck", f"{op.what} is still not done long after everything works again")
        self.watch()


class _Seen(dict):
    """What was in the directory when a reply was made."""

    def __init__(self, world):
        self.world = world
        self.op = None

    def __getitem__(self, key):
        return self.world.listed[self.op.attempts[-1].reply._body]


def run(sim):
    TahoeWorld(sim).run()


SPECS = [
    WorldSpec(
        "tahoe", run, ["C28"], quick=1500, thorough=200000,
        real=["tahoe.Tahoe and the operations it is made of", "treq", "files (real ones)"],
        stubs=["Tahoe-LAFS gateway and grid (own model speaking the same HTTP API)", "HTTP agent (requests and replies are objects)", "reactor clock",
               "file operations (real ones, with faults before and after, and buffering)", "process crashes (abandoned object graph)"],
        assumptions=["renaming a file is atomic and what was written to it before is durable", "the process is killed, the machine does not lose power"],
    ),
]
