"""
A whole simulated node: the plugin object itself, wired as it is in a real
node, on a simulated clock, network, file system and database.
"""

from __future__ import annotations

import sys
from urllib.parse import urlsplit

import twisted.web.client
import txaio

import _zkapauthorizer.foolscap  # noqa: F401
from _zkapauthorizer import NAME, _plugin, controller, model, tahoe  # noqa: F401
from _zkapauthorizer._plugin import ZKAPAuthorizer
from _zkapauthorizer.tahoe import get_tahoe_client
from allmydata.client import _valid_config
from allmydata.node import config_from_string

from .core import Process, SimCrash
from .db import SimDB
from .disk import SimDisk
from .grid import Gateway, make_basedir
from .http import Api, SimAgent

TOKEN = b"swordfish-" + b"0" * 22

_RealAgent = twisted.web.client.Agent
_real_now = model.aware_now
_current = []


def _agent(reactor, *a, **kw):
    proc = getattr(reactor, "proc", None)
    if proc is None:
        return _RealAgent(reactor, *a, **kw)
    return SimAgent(proc, proc.node.route)


def _now():
    return _current[-1].now() if _current else _real_now()


def install():
    """Replace what the modules of the plugin reach the world through."""
    for name, module in list(sys.modules.items()):
        if name.startswith("_zkapauthorizer") and ".tests" not in name and module is not None:
            if getattr(module, "Agent", None) is _RealAgent:
                module.Agent = _agent
            if getattr(module, "aware_now", None) is _real_now:
                module.aware_now = _now


class _Loop:
    """The reactor of the websocket library."""

    def callLater(self, delay, f, *a, **kw):
        return _current[-1].clock.callLater(delay, f, *a, **kw)

    def seconds(self):
        return _current[-1].clock.seconds()


class WholeNode:
    """
    A node, which may be started, killed and started again on the same disk.

    :ivar issuer: f(agent, method, uri, headers, body, Deferred), the network
        between the node and the issuer
    """

    def __init__(self, sim, swarm, grid, name="node", redeemer="redeemer = non\nallowed-public-keys = key", issuer=None, disk=True, plugin_config="", client_config=None):
        self.sim = sim
        self.swarm = swarm
        self.grid = grid
        self.name = name
        self.issuer = issuer
        self.disk_faults = disk
        self.redeemer = redeemer
        self.plugin_config = plugin_config
        self.client_config = "shares.needed = 3\nshares.total = 10" if client_config is None else client_config
        self.basedir = make_basedir(sim, name)
        self.private = self.basedir + "/private"
        self.token = TOKEN
        self.write_token()
        self.db = SimDB(sim, name, swarm)
        self.outage = None
        self.incarnation = 0
        self.proc = None
        self.api = None
        self.pid = 100

    def write_token(self):
        with open(self.private + "/api_auth_token", "wb") as f:
            f.write(self.token)

    @property
    def up(self):
        return self.proc is not None and self.proc.alive and self.api is not None

    def config(self):
        return config_from_string(
            self.basedir,
            "tub.port",
            f"""
[node]
nickname = sim
[client]
storage.plugins = {NAME}
{self.client_config}
[storage]
enabled = false
[storageclient.plugins.{NAME}]
{self.redeemer}
{self.plugin_config}
""",
            _valid_config(),
        )

    def route(self, agent, method, uri, headers, body, result):
        if urlsplit(uri.decode("ascii")).hostname == "127.0.0.1":
            return self.gateway.route(agent, method, uri, headers, body, result)
        return self.issuer(agent, method, uri, headers, body, result)

    def boot(self):
        """Start the node.  Raises what starting it raises."""
        install()
        self.incarnation += 1
        proc = self.proc = Process(self.sim, f"{self.name}#{self.incarnation}")
        proc.node = self
        _current[:] = [proc]
        txaio.config.loop = _Loop()
        self.api = None
        # The process id is often the same again, in a container for example.
        if not self.sim.ch.flag(0.4):
            self.pid += 1
        self.disk = SimDisk(proc, self.basedir, self.swarm if self.disk_faults else {}, self.pid) if self.disk_faults else None
        self.gateway = Gateway(self.grid, proc, self.swarm)
        self.gateway.outage = self.outage
        self.sim.log("boot", self.name, self.incarnation)
        try:
            self.plugin = ZKAPAuthorizer(NAME, proc.clock, get_tahoe_client, self.connect)
            self.node_config = self.config()
            self.root = self.plugin.get_client_resource(self.node_config)
            self.store = self.root.store
            self.controller = self.root.controller
        except BaseException:
            if proc.alive:
                proc.kill("boot-failed")
            raise
        self.api = Api(proc, self.root, self.token)

    def connect(self, path, isolation_level=None):
        return self.db.connect(self.proc, isolation_level)

    def try_boot(self):
        """
        Start the node; False if that failed because of an injected fault.
        """
        try:
            self.boot()
        except SimCrash:
            return False
        except Exception as e:
            if not self.blamed(e):
                raise
            self.sim.log("boot-failed", type(e).__name__)
            return False
        return self.up

    def blamed(self, e):
        seen = 0
        while e is not None and seen < 5:
            if getattr(e, "injected", False):
                return True
            e = e.__cause__ or e.__context__ or (e.args[0] if e.args and isinstance(e.args[0], BaseException) else None)
            seen += 1
        return False

    def set_outage(self, what):
        self.outage = what
        if self.up:
            self.gateway.outage = what
        self.sim.log("outage", what)
        if what:
            self.sim.count("fault:outage-" + what)

    def crash(self, why="crash"):
        if self.proc is not None and self.proc.alive:
            self.proc.kill(why)

    def shutdown(self):
        """Stop in an orderly way."""
        if not self.up:
            return
        self.sim.log("shutdown")
        for f, a, kw in self.proc.shutdown_triggers:
            try:
                f(*a, **kw)
            except SimCrash:
                pass
        if self.up:
            self.proc.kill("restart")
