"""
Lease maintenance over months: schedule, restarts, trees that change, servers
that fail; what it renews, what it spends and what it reports.
"""

from __future__ import annotations

import base64
import inspect
import os
import random
from datetime import datetime, timedelta, timezone

from allmydata.client import SecretHolder
from allmydata.immutable.literal import LiteralFileNode
from allmydata.interfaces import IDirectoryNode, IFilesystemNode
from allmydata.storage.server import StorageServer
from allmydata.unknown import UnknownNode
from allmydata.uri import LiteralFileURI
from allmydata.util import base32
from allmydata.util.hashutil import (
    bucket_cancel_secret_hash,
    bucket_renewal_secret_hash,
    file_cancel_secret_hash,
    file_renewal_secret_hash,
)
from foolscap.referenceable import TubRef
from hyperlink import URL
from treq.client import HTTPClient
from twisted.application.service import MultiService
from twisted.internet.defer import Deferred, maybeDeferred
from twisted.internet.task import Clock
from twisted.python.failure import Failure
from twisted.python.filepath import FilePath
from zope.interface import implementer

import _zkapauthorizer._plugin as plugin_module
import _zkapauthorizer.controller as controller_module
from _zkapauthorizer.api import MorePassesRequired, ZKAPAuthorizerStorageClient
from _zkapauthorizer.controller import RistrettoRedeemer
from _zkapauthorizer.foolscap import ShareStat
from _zkapauthorizer.lease_maintenance import (
    LeaseMaintenanceConfig,
    lease_maintenance_service,
    maintain_leases_from_root,
)
from _zkapauthorizer.model import UnblindedToken
from _zkapauthorizer.spending import SpendingController

from ..core import SimCrash, Swarm
from ..db import SimDB, rows
from ..http import SimAgent
from ..issuer import Issuer
from ..node import ClientNode
from ..wire import Connection, install
from . import WorldSpec
from .spend import DAY, PERIOD, Gate, Ledger, Server, ceil_div, look

KINDS = ["cut", "server-error", "garbage", "unreadable", "slow", "client-crash", "server-restart", "db-crash", "db-error", "file-error",
         "clock-jump", "bad-tokens", "stop", "no-server"]
LAST_RUN = "last-lease-maintenance-run"


PARTS = ["lease_maintenance_service", "FilePath", "MAINTENANCE_SERVICE_NAME", "_maybe_attach_service", "_create_maintenance_service"]


class TapeRandom(random.Random):
    """random.Random, with every draw from the tape."""

    def __init__(self, sim):
        self._sim = sim
        random.Random.__init__(self, 0)

    def seed(self, *a, **kw):
        pass

    def random(self):
        n = self._sim.ch.pick(7)
        return [0.5, 0.0, 0.25, 0.75, 0.9999999, 0.1, 0.6][n]

    def getrandbits(self, k):
        return int(self.random() * (1 << k))


class SimFile:
    """A file being written, which a crash may leave incomplete."""

    def __init__(self, path, f):
        self._path, self._f = path, f

    def write(self, data):
        world = self._path.world
        if world.sim.fault("torn-write", world.swarm["client-crash"] / 2):
            self._f.write(data[: len(data) // 2])
            self._f.flush()
            world.node.proc.crash("crash-file")
        if world.sim.fault("file-error", world.swarm["file-error"]):
            raise OSError(28, "No space left on device")
        self._f.write(data)

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._f.close()


class SimPath(FilePath):
    world = None

    def open(self, mode="r"):
        if any(c in mode for c in "wa+x"):
            SimPath.world.node.proc.check()
        f = FilePath.open(self, mode)
        return SimFile(self, f) if any(c in mode for c in "wa+x") else f


SimPath.clonePath = SimPath


class Obj:
    """Something in the user's directory tree."""

    def __init__(self, world, n, kind):
        self.world, self.n, self.kind = world, n, kind
        self.si = b"%016d" % n if kind in ("file", "dir") else None
        # A literal directory is all in its capability, but what is in it is not.
        self.children = {}
        self.node = None


@implementer(IFilesystemNode)
class FileNode:
    def __init__(self, obj):
        self.obj = obj

    def get_storage_index(self):
        return self.obj.si


@implementer(IDirectoryNode)
class DirNode(FileNode):
    def list(self):
        return self.obj.world.list_dir(self.obj)


class Native:
    """What Tahoe-LAFS knows about a storage server."""

    def __init__(self, world, server):
        self.world, self.server = world, server

    def get_storage_server(self):
        return self.world.storage(self.server)

    def get_lease_seed(self):
        return self.server.tubid


class Broker:
    def __init__(self, world):
        self.world = world

    def get_connected_servers(self):
        # Tahoe-LAFS gives a frozenset.
        return [Native(self.world, s) for s in self.world.connected()]


class LeaseServer(Server):
    """A storage server which may fail in ways of its own."""

    def __init__(self, world, n):
        self.views = {}
        self.worth = 0
        Server.__init__(self, world, n)
        self.tubid = bytes([n + 1]) * 20

    def view(self, si):
        """What is stored there; nothing but a renewal changes it."""
        if si not in self.views:
            self.views[si] = look(self.plain, si)
        return self.views[si]

    def everything(self):
        return {si: self.view(si) for si in self.world.sis}

    def serve(self, gate, method, *args):
        world, sim = self.world, self.sim
        run = world.current
        sim.log("serve", self.n, method)
        sim.count("served:" + method)
        if gate.peer is world and run is not None:
            if method == "add_lease" and sim.faults_on and world.cursed == (self.n, args[1]):
                sim.count("fault:bad-object")
                run.failed.add((self.n, args[1]))
                raise ValueError("something about this share is wrong")
            if sim.fault("server-error", world.swarm["server-error"] * (3 if method == "add_lease" else 1)):
                if method == "add_lease":
                    # This object only.
                    run.failed.add((self.n, args[1]))
                else:
                    run.hit(self)
                raise ValueError("the server is out of order")
            if method == "stat_shares" and sim.fault("garbage", world.swarm["garbage"]):
                run.hit(self)
                answer = nonsense(sim.ch, len(args[0]))
                for stats in answer:
                    for stat in filter(None, stats.values()):
                        if isinstance(stat.size, int) and stat.size > 0:
                            run.claimed += ceil_div(stat.size, world.pv)
                return answer
        before = self.view(args[1]) if method == "add_lease" else None
        try:
            result = getattr(self.storage, "remote_" + method)(*args)
        except MorePassesRequired:
            world.refused = True
            raise
        finally:
            if method == "add_lease":
                self.views.pop(args[1], None)
        if method == "add_lease":
            world.check_secrets(self, args)
            world.renewed(self, args[1], before)
        elif method == "stat_shares":
            world.statted(self, args[0])
        return result


def nonsense(ch, n):
    """What no server should say about n storage indexes."""
    how = ch.pick(6)
    if how < 3:
        return [[], [{}] * max(0, n - 1), [{0: None}] * n][how]
    good = [{0: ShareStat(100, 2**31)} for _ in range(n)]
    if n:
        good[ch.pick(n)] = {0: ShareStat(ch.of([100, 100, 100, None, -5, 2**80, b"big", 1.5]),
                                         ch.of([2**31, None, -(2**40), 2**50, 2**90, b"late", -1]))}
    return good


class Run:
    """One maintenance run, from the outside."""

    def __init__(self, world, n):
        self.world, self.n = world, n
        self.start = world.sim.seconds()
        self.proc = world.node.proc
        self.hits = set()
        self.failed = set()
        self.claimed = 0
        self.unreadable = set()
        self.errors0 = world.db_errors()
        self.refused0 = world.refused
        self.before = {s.n: s.everything() for s in world.servers}
        self.connected = list(world.connected())
        self.roots = list(world.roots)
        self.tree_version = world.tree_version
        self.stats = {}
        self.renewals = {}
        self.tokens = world.tokens_left()
        self.moved = set()

    def complete(self, sim):
        """Might everything in this run have been done?"""
        if not all(s.n in self.stats or s.n in self.hits for s in self.connected):
            return False
        world = self.world
        if world.refused or world.tokens_left() < world.need() + 1:
            return True
        for n, got in self.stats.items():
            for si, shares in got.items():
                if n not in self.hits and (n, si) not in self.failed and shares and si not in self.renewals.get(n, ()):
                    if min(max(sh[3], default=0) for sh in shares.values()) - self.start < world.min_left:
                        return False
        return True

    def hit(self, server):
        self.hits.add(server.n)


class Lease:
    publish = False
    clients = ()
    name = "client"

    def __init__(self, sim):
        self.sim = sim
        ch = sim.ch
        install(sim)
        # No vouchers are redeemed here; the years are long without a retry each second.
        interval = getattr(controller_module, "RETRY_INTERVAL", None)
        if interval is not None:
            controller_module.RETRY_INTERVAL = timedelta(days=30)
            sim.at_close.append(lambda: setattr(controller_module, "RETRY_INTERVAL", interval))
        self.swarm = Swarm(sim, KINDS, benign=0.25)
        self.issuer = Issuer(sim, 1, allowed=2, others=0)
        self.ledger = Ledger(sim, self.issuer)
        self.pv = ch.of([10, 64, 1, 1000])
        self.spent_total = 0
        self.voucher_n = 0
        self.refused = False
        self.current = None
        self.run_n = 0
        self.cursed = None
        # The configuration.
        conf = []
        self.mean, self.range, self.min_left = 26 * DAY, 4 * DAY, 0
        if ch.flag(0.85):
            self.mean = ch.of([10 * DAY, DAY, 26 * DAY, 3600, 30 * DAY])
            self.range = ch.of([self.mean // 5, 0, self.mean, 2 * self.mean // 3, 3])
            conf += [f"lease.crawl-interval.mean = {self.mean}", f"lease.crawl-interval.range = {self.range}"]
        if ch.flag(0.8):
            self.min_left = ch.of([5 * DAY, 0, 1, 12 * DAY, 30 * DAY, 31 * DAY, 40 * DAY])
            conf += [f"lease.min-time-remaining = {self.min_left}"]
        conf += [f"pass-value = {self.pv}"]
        # Half of the runs start the service the way the plugin does (if it still has these parts).
        self.full = ch.flag(0.5) and all(hasattr(plugin_module, n) for n in PARTS)
        # The grid.
        self.secrets = SecretHolder(b"l" * 20, b"c" * 20)
        self.sis = []
        self.servers = [LeaseServer(self, i) for i in range(1 + ch.pick(4))]
        self.away = set()
        self.db = SimDB(sim, "node", self.swarm)
        self.node = ClientNode(sim, self.db, None, 1, 100, self.issuer.allowed, full=True, plugin_config="\n".join(conf))
        self.rootcap = os.path.join(self.node.basedir, "private", "rootcap")
        self.last_run_file = os.path.join(self.node.basedir, "private", LAST_RUN)
        SimPath.world = self
        # The tree.
        self.objs = []
        self.tree_version = 0
        self.make_tree()
        self.roots = [self.objs[0]] if ch.flag(0.93) else []
        if self.roots:
            with open(self.rootcap, "w") as f:
                f.write("URI:root")
        # The schedule.
        self.stopped = True
        self.last_ok = []
        self.window = None
        self.reported = None
        self.maybe = []
        self.acceptable = [None]

    # -- what the servers ask of a world ------------------------------------------------
    def check_quote(self, *a):
        pass

    def db_errors(self):
        c = self.sim.counters
        return c["fault:statement-error"] + c["fault:commit-error"] + c["fault:db-error"]

    # -- the tree ----------------------------------------------------------------------
    def make_tree(self):
        ch = self.sim.ch
        big = ch.flag(0.02)
        self.add_object("dir")
        for _ in range(ch.pick(9) if not big else 150):
            self.grow()
        if big:
            self.sim.count("big-tree")

    def add_object(self, kind):
        o = Obj(self, len(self.objs), kind)
        if kind == "file":
            o.node = FileNode(o)
        elif kind in ("dir", "literal-dir"):
            o.node = DirNode(o)
        elif kind == "literal":
            o.node = LiteralFileNode(LiteralFileURI(b"small"))
        else:
            o.node = UnknownNode(None, b"ro.lafs://from_the_future")
        self.objs.append(o)
        if o.si is not None:
            self.sis.append(o.si)
        return o

    def grow(self):
        ch = self.sim.ch
        self.tree_version += 1
        dirs = [o for o in self.objs if o.kind == "dir"]
        d = ch.of(dirs)
        if len(self.objs) > 2 and ch.flag(0.15):
            # Something that is there already: shared, or even a cycle.
            o = ch.of(self.objs)
            if o.kind == "dir":
                self.sim.count("shared-directory")
        else:
            kind = ["file", "dir", "literal", "unknown", "literal-dir"][ch.weighted([55, 25, 10, 5, 5])]
            o = self.add_object(kind)
            if o.si is not None:
                self.place(o)
            if kind == "literal-dir":
                for _ in range(1 + ch.pick(2)):
                    f = self.add_object(["file", "literal"][ch.weighted([3, 1])])
                    o.children[f"n{f.n}"] = f
                    if f.si is not None:
                        self.place(f)
        d.children[f"n{o.n}-{len(d.children)}"] = o

    def place(self, o):
        """Put shares on the servers, unevenly."""
        ch = self.sim.ch
        for s in self.servers:
            if ch.flag(0.3):
                continue
            age = ch.of([0, DAY, 10 * DAY, 20 * DAY, 26 * DAY, 30 * DAY, 31 * DAY, 40 * DAY, 1])
            self.put(s, o.si, 1 + ch.pick(2), age)
            if ch.flag(0.1):
                self.put(s, o.si, 1, ch.of([0, 30 * DAY, 15 * DAY]))

    def put(self, server, si, count, age):
        """Shares with leases of a certain age."""
        ch = self.sim.ch
        clock = Clock()
        clock.advance(self.sim.seconds() - age)
        there = server.view(si)
        old = StorageServer(os.path.join(server.dir, "real"), b"%020d" % server.n, clock=clock)
        size = 0 if ch.flag(0.06) else 1 + ch.pick(3 * self.pv)
        shares = {5 * (len(there) > 0) + ch.pick(4) for _ in range(count)}
        owner = b"%032d" % (7 + ch.pick(2))
        _h, writers = old.allocate_buckets(si, owner, owner, shares, size, renew_leases=False)
        for n in sorted(writers):
            if size:
                writers[n].write(0, b"d" * size)
            writers[n].close()
            server.worth += ceil_div(size, self.pv)
        if ch.flag(0.25):
            # Somebody else has a lease on it as well.
            clock = Clock()
            clock.advance(self.sim.seconds() - ch.of([0, 29 * DAY, 40 * DAY, 15 * DAY, 5 * DAY]))
            other = b"%032d" % 9
            StorageServer(os.path.join(server.dir, "real"), b"%020d" % server.n, clock=clock).add_lease(si, other, other)
            self.sim.count("other-lease")
        server.views.pop(si, None)

    def list_dir(self, obj):
        sim = self.sim
        run = self.current
        proc = self.node.proc
        if not proc.alive:
            raise SimCrash()
        sim.log("list", obj.n)
        d = Deferred()
        proc.keep.append(d)
        fail = False
        if run is not None and sim.fault("unreadable", self.swarm["unreadable"] / 2):
            run.unreadable.add(obj.n)
            fail = True
            if sim.ch.flag(0.3):
                raise RuntimeError("cannot be listed")

        def done():
            if fail:
                d.errback(RuntimeError("not enough good shares"))
            else:
                d.callback({k: (o.node, {}) for k, o in obj.children.items()})

        proc.clock.callLater(sim.ch.delay(0.5), done)
        return d

    def reachable(self, roots, unreadable=()):
        found, stack = [], list(roots)
        seen = set()
        while stack:
            o = stack.pop()
            if o.n in seen:
                continue
            seen.add(o.n)
            found.append(o)
            if o.n not in unreadable:
                stack.extend(o.children.values())
        return {o.si for o in found if o.si is not None}

    # -- connections -----------------------------------------------------------------
    def connected(self):
        return [s for s in self.servers if s.n not in self.away]

    def cut(self, conn, end):
        run = self.current
        if run is None or not self.sim.fault("cut", self.swarm["cut"] / 3):
            return False
        run.hit(conn.server)
        return True

    def storage(self, server):
        conn = self.connections.get(server.n)
        if conn is None or conn.cut or not conn.server_proc.alive:
            scale = 0.3
            if self.sim.fault("slow", self.swarm["slow"]):
                scale = self.sim.ch.of([60.0, 600.0])
            conn = Connection(self.sim, self.node.proc, server.proc, Gate(server, self), scale=scale, fault=self.cut)
            conn.server = server
            conn.ends[0].broker.remote_tubref = TubRef(base32.b2a(server.tubid).decode("ascii"))
            self.connections[server.n] = conn

        def rref():
            if not self.node.proc.alive:
                raise SimCrash()
            return conn.rref

        return ZKAPAuthorizerStorageClient(self.pv, rref, self.controller.get, self.node.proc.clock)

    # -- tokens ----------------------------------------------------------------------
    def fund(self, count, pub):
        self.voucher_n += 1
        voucher = base64.urlsafe_b64encode(b"voucher %024d" % self.voucher_n)
        texts = [self.ledger.mint(pub) for _ in range(count)]
        store = self.node.store
        store.add(voucher, count, 0, lambda: [])
        store.insert_unblinded_tokens_for_voucher(
            voucher, pub, [UnblindedToken(t.encode("ascii")) for t in texts], completed=True, spendable=True)

    def tokens_left(self):
        return len(rows(self.db.dump(), "unblinded-tokens"))

    def need(self):
        """Passes for everything there is, to be on the safe side."""
        return sum(s.worth for s in self.servers)

    def top_up(self):
        faults, self.sim.faults_on = self.sim.faults_on, False
        short = self.need() * 2 + 10 - self.tokens_left()
        if short > 0:
            self.fund(short, self.issuer.allowed[0])
        self.sim.faults_on = faults

    # -- the service -----------------------------------------------------------------
    def boot(self):
        sim, ch = self.sim, self.sim.ch
        errors = self.db_errors()
        try:
            self.node.boot()
        except SimCrash:
            return
        except Exception as e:
            if self.db_errors() == errors:
                sim.violation(sim.target, "cannot-start", f"the node cannot start: {type(e).__name__}: {e}")
            return
        node = self.node
        proc = node.proc
        redeemer = RistrettoRedeemer(HTTPClient(SimAgent(proc, None)), URL.from_text("https://issuer.invalid/"))
        self.controller = SpendingController.for_store(redeemer.tokens_to_passes, node.store)
        self.connections = {}
        self.current = None
        self.stopped = True
        self.client = MultiService()
        self.client.config = node.config()
        self.client.get_storage_broker = lambda: Broker(self)
        self.client._secret_holder = self.secrets
        self.client.create_node_from_uri = lambda cap: self.objs[0].node
        self.client.startService()
        proc.on_kill.append(self.down)
        if node.up:
            self.attach()
        if node.up:
            self.set_window(sim.seconds(), first=True)
            self.check_report("boot")

    def down(self):
        if self.current is not None:
            # It may have been about to complete.
            run = self.current
            low, high = self.met(run)
            if run.complete(self.sim):
                self.maybe.append((0 if self.db_errors() != run.errors0 else low, high, self.sim.seconds()))
        self.current = None
        self.stopped = True
        self.window = None

    def attach(self):
        """Create and start the maintenance service."""
        sim = self.sim
        proc = self.node.proc
        if self.full:
            saved = {}

            def patch(obj, name, value):
                saved[obj, name] = getattr(obj, name)
                setattr(obj, name, value)

            signature = inspect.signature(lease_maintenance_service)

            def service(*a, **kw):
                bound = signature.bind(*a, **kw)
                bound.arguments["maintain_leases"] = self.watched(bound.arguments["maintain_leases"])
                return lease_maintenance_service(*bound.args, **bound.kwargs)

            patch(plugin_module, "lease_maintenance_service", service)
            patch(plugin_module, "FilePath", SimPath)
            patch(random, "Random", lambda *a: TapeRandom(sim))
            try:
                for _ in range(1 + sim.ch.pick(2)):
                    plugin_module._maybe_attach_service(
                        proc.clock, self.client, self.node.store, plugin_module.MAINTENANCE_SERVICE_NAME,
                        plugin_module._create_maintenance_service)
            except SimCrash:
                pass
            finally:
                for (obj, name), value in saved.items():
                    setattr(obj, name, value)
        else:
            config = LeaseMaintenanceConfig.from_node_config(self.client.config)

            def now():
                return datetime.utcfromtimestamp(proc.clock.seconds())

            maintain = maintain_leases_from_root(
                lambda: [o.node for o in self.roots], Broker(self), self.client._secret_holder, config.min_lease_remaining,
                self.node.store.start_lease_maintenance, now)
            service = lease_maintenance_service(self.watched(maintain), proc.clock, SimPath(self.last_run_file), TapeRandom(sim), config)
            service.setServiceParent(self.client)
        self.stopped = False

    def watched(self, maintain):
        """A maintenance operation whose beginnings and ends are noticed."""
        proc = self.node.proc

        async def operation():
            run = self.begin(proc)
            try:
                result = await maintain()
            except Exception as e:
                self.end(run, e)
                raise
            self.end(run, None)
            return result

        return operation

    def set_window(self, t, first=False, late=0.0):
        """When the next run may begin."""
        half = self.range / 2
        lo, hi = self.mean - half, self.mean + half
        if first:
            los, his = [], []
            for last in self.acceptable:
                base = t if last is None else last
                los.append(max(t, base + lo))
                his.append(max(t, base + hi))
            self.window = (min(los), max(his))
        else:
            self.window = (t + lo, t + hi)

    def begin(self, proc):
        sim = self.sim
        if not proc.alive:
            raise SimCrash()
        t = sim.seconds()
        self.run_n += 1
        sim.log("run", self.run_n)
        sim.ensure(not self.stopped, "C16", "ran-after-stop", "maintenance ran after the service was stopped")
        sim.ensure(self.current is None, "C16", "overlap", "a maintenance run began while another one was in progress")
        if self.window is not None:
            lo, hi = self.window
            sim.ensure(t >= lo - 1.5, "C16", "too-early", f"a run began {lo - t:.0f} s before the earliest time configured")
            sim.ensure(t <= hi + 1.5, "C16", "too-late", f"a run began {t - hi:.0f} s after the latest time configured")
        sim.count("runs-begun")
        run = Run(self, self.run_n)
        self.current = run
        return run

    def end(self, run, error):
        sim = self.sim
        if not run.proc.alive or self.current is not run:
            return
        self.current = None
        t = sim.seconds()
        sim.log("run-end", run.n, type(error).__name__ if error else "ok")
        sim.count("runs-failed" if error else "runs-completed")
        trouble = self.db_errors() != run.errors0
        refused = self.refused != run.refused0
        self.refused = False
        if not self.stopped:
            self.set_window(t)
        else:
            self.window = None
        # Once the time is recorded nothing else is acceptable; until then both.
        self.acceptable = self.acceptable + [t]
        proc = run.proc

        def recorded():
            if proc.alive and error is None and not self.file_trouble():
                self.acceptable = [t]

        self.errors_file = sim.counters["fault:file-error"]
        proc.clock.callLater(0.5, recorded)
        self.judge(run, error, trouble, refused)

    def file_trouble(self):
        return self.sim.counters["fault:file-error"] != self.errors_file

    # -- judging a run ---------------------------------------------------------------
    def statted(self, server, sis):
        run = self.current
        if run is None:
            return
        self.sim.count("stats")
        got = run.stats.setdefault(server.n, {})
        for si in sis:
            got[si] = server.view(si)

    def check_secrets(self, server, args):
        """A renewal is of the lease Tahoe-LAFS itself would have made."""
        _passes, si, renew, cancel = args
        want = (bucket_renewal_secret_hash(file_renewal_secret_hash(self.secrets.get_renewal_secret(), si), server.tubid),
                bucket_cancel_secret_hash(file_cancel_secret_hash(self.secrets.get_cancel_secret(), si), server.tubid))
        self.sim.ensure((renew, cancel) == want, "C15", "wrong-secrets", "a renewal is not for the lease this client made on this server")

    def renewed(self, server, si, before):
        """A renewal was paid for and carried out."""
        sim = self.sim
        run = self.current
        sim.count("renewals")
        now = server.proc.clock.seconds()
        if run is None:
            # A run that is over or dead, its request still on the way.
            sim.count("late-renewal")
            return
        left = min((max(sh[3], default=0) for sh in before.values()), default=PERIOD + now) - now
        sim.ensure(si in self.reachable(run.roots) or si in self.reachable(self.roots), "C15", "unreachable-renewed",
                   "passes were spent on a storage index that is not reachable from the root")
        sim.ensure(left < self.min_left, "C15", "spent-needlessly",
                   f"passes were spent on a storage index with {left:.0f} s of lease remaining, the minimum is {self.min_left}")
        run.renewals.setdefault(server.n, set()).add(si)

    def judge(self, run, error, trouble, refused):
        sim = self.sim
        t0, t1 = run.start, sim.seconds()
        faults = bool(run.hits or run.failed or run.unreadable)
        if trouble:
            self.check_end(run, error, trouble)
            return
        stale = run.tree_version != self.tree_version
        must = set() if stale else self.reachable(run.roots, run.unreadable)
        short = self.tokens_left() < self.need() + 1 or refused
        if not faults and not short:
            sim.ensure(error is None, "C15", "run-failed",
                       lambda: f"a run failed although every server responded: {type(error).__name__}: {str(error)[:300]}")
        prop = "C17" if faults else "C15"
        for s in run.connected:
            if s.n in run.hits or s.n in self.away:
                continue
            now = s.everything()
            for si, shares in run.before[s.n].items():
                if si not in must or not shares or (s.n, si) in run.moved or (s.n, si) in run.failed:
                    continue
                exp0 = min(max(sh[3], default=0) for sh in shares.values())
                exp1 = min(max(sh[3], default=0) for sh in now[si].values())
                if exp0 - t0 < self.min_left:
                    sim.count("needed-renewal")
                    if any(n == s.n for n, _si in run.failed):
                        sim.count("needed-beside-failure")
                    if short:
                        continue
                    sim.ensure(exp1 >= int(t0 + PERIOD), prop, "not-renewed",
                               f"after a run ({type(error).__name__ if error else 'ok'}) a reachable share on server {s.n} has "
                               f"{exp1 - t1:.0f} s of lease remaining, the minimum is {self.min_left}")
                elif exp0 - t0 >= self.min_left and exp0 - t1 >= self.min_left:
                    sim.ensure(exp1 == exp0, "C15", "renewed-needlessly", "a share with enough lease time was renewed")
        sim.state(len(run.connected), len(must), len(run.hits), len(run.unreadable), sum(map(len, run.renewals.values())))
        self.check_end(run, error, trouble)

    # -- the report --------------------------------------------------------------------
    def report(self):
        errors = self.db_errors()
        reply = self.node.api.call(b"GET", b"/lease-maintenance")
        if reply is None or not self.node.up:
            return None, False
        if reply.code != 200:
            self.sim.ensure(self.db_errors() != errors, "C18", "no-report", f"the report answers {reply.code}")
            return None, False
        body = reply.json()
        sp = body["spending"]
        if sp is None:
            return None, True
        when = datetime.fromisoformat(sp["when"].replace("Z", "+00:00"))
        if when.tzinfo is None:
            when = when.replace(tzinfo=timezone.utc)
        return (sp["count"], when.timestamp()), True

    def met(self, run):
        """What the shares a run met are worth, at least and at most."""
        low, high = 0, run.claimed
        for s in self.servers:
            for shares in run.stats.get(s.n, {}).values():
                cost = sum(ceil_div(sh[1], self.pv) for sh in shares.values())
                high += cost
                if s.n not in run.hits:
                    low += cost
        return low, high

    def check_report(self, where):
        """The report is of the latest completed run, at any time."""
        sim = self.sim
        if not self.node.up:
            return
        got, ok = self.report()
        if not ok or not self.node.up:
            return
        if self.maybe and got != self.reported:
            # Runs that met a database error, failing servers or a crash when
            # about to complete: completed or not, but if so, rightly reported.
            for (low, high, t) in self.maybe:
                if got is not None and low <= got[0] <= high and abs(got[1] - t) < 1:
                    sim.count("reported-despite-trouble")
                    break
            else:
                sim.violation("C18", "report-wrong", f"{where}: the report is {got}; it was {self.reported}, and might be "
                              f"of {self.maybe} (least count, greatest count, time)")
                return
        else:
            sim.ensure(got == self.reported, "C18", "report-wrong", f"{where}: the report is {got}, should be {self.reported}")
        self.reported = got
        self.maybe = []

    def check_end(self, run, error, trouble):
        """A run has come to its end."""
        sim = self.sim
        t = sim.seconds()
        low, high = self.met(run)
        if trouble or error is not None or run.hits or run.failed or run.unreadable:
            self.maybe.append((0 if trouble else low, high, t))
            self.check_report("run-end")
            return
        if not self.node.up:
            return
        got, ok = self.report()
        if not ok:
            self.maybe.append((low, high, t))
            return
        sim.ensure(got is not None and low == got[0], "C18", "count-wrong",
                   f"after a completed run which met shares worth {low} passes the report is {got}")
        sim.ensure(got is not None and abs(got[1] - t) < 1, "C18", "time-wrong", f"a run completed at {t:.0f} is reported as {got}")
        self.reported = got
        self.maybe = []

    # -- driving -----------------------------------------------------------------------
    def watch(self):
        """Called now and then: nothing is overdue, and the report has not changed."""
        sim = self.sim
        if self.window is not None and self.current is None and self.node.up and not self.stopped:
            sim.ensure(sim.seconds() <= self.window[1] + 2, "C16", "not-run",
                       f"no run has begun {sim.seconds() - self.window[1]:.0f} s after the latest time configured")
        if self.node.up and sim.ch.flag(0.3):
            self.check_report("later" if self.current is None else "in-progress")

    def live(self, seconds):
        sim = self.sim
        end = sim.seconds() + seconds
        while sim.seconds() < end:
            left = end - sim.seconds()
            run = self.current
            if run is None:
                part = left if self.window is None else max(1.0, min(left, self.window[1] + 2.5 - sim.seconds()))
                sim.run_until(lambda: self.current is not None, part)
            else:
                sim.run_until(lambda: self.current is not run, min(left, sim.ch.of([0.05, 0.3, 1.0, 3600.0])))
                self.meddle()
            self.watch()

    def meddle(self):
        """During a run, things happen."""
        sim = self.sim
        if self.current is None or not self.node.up:
            return
        run = self.current
        if sim.fault("client-crash", self.swarm["client-crash"]):
            self.crash()
        elif sim.fault("server-restart", self.swarm["server-restart"]):
            s = sim.ch.of(self.servers)
            run.hit(s)
            s.restart()
        elif sim.fault("stop", self.swarm["stop"]):
            self.stop()

    def stop(self):
        sim = self.sim
        sim.log("stop")
        self.stopped = True
        if self.current is None:
            self.window = None
        try:
            d = self.client.stopService()
        except SimCrash:
            return
        except Exception as e:
            sim.violation("C16", "cannot-stop", f"stopping the service failed: {type(e).__name__}: {e}")
            return
        self.stop_failed = []
        if d is not None:
            maybeDeferred(lambda: d).addErrback(lambda f: self.stop_failed.append(f))
        if self.stop_failed:
            f = self.stop_failed[0]
            f = getattr(f.value, "subFailure", f)
            sim.violation("C16", "cannot-stop", f"stopping the service failed: {f.type.__name__}: {f.getErrorMessage()}")

    def crash(self):
        self.node.crash("client-crash")

    def restart(self):
        sim = self.sim
        if self.node.up:
            self.crash()
        if sim.ch.flag(0.5):
            sim.run_for(sim.ch.of([60.0, DAY, self.mean, 3 * self.mean]))
        self.boot_until_up()

    def boot_until_up(self):
        sim = self.sim
        for _ in range(20):
            if self.node.up:
                return
            if self.db.current is not None:
                pass
            self.boot()
        if not self.node.up:
            faults, sim.faults_on = sim.faults_on, False
            self.boot()
            sim.faults_on = faults

    def step(self):
        sim, ch = self.sim, self.sim.ch
        what = ch.weighted([50, 20, 10, 10, 6])
        if self.swarm["server-error"] and (self.cursed is None or ch.flag(0.2)):
            # One server cannot renew one of its objects.
            s = ch.of(self.servers)
            held = sorted(si for si, shares in s.everything().items() if shares)
            self.cursed = (s.n, ch.of(held)) if held else None
        if not self.node.up:
            self.boot_until_up()
        if what == 0:
            self.live(ch.of([self.mean, self.mean / 3, 2 * self.mean, 3600.0, 6 * DAY]))
        elif what == 1 and self.current is None:
            for _ in range(1 + ch.pick(3)):
                self.grow()
        elif what == 2 and self.current is None:
            # Something is removed from the tree, or new shares appear.
            d = ch.of([o for o in self.objs if o.kind == "dir"])
            if d.children and ch.flag(0.5):
                self.tree_version += 1
                del d.children[ch.of(sorted(d.children))]
            elif self.sis:
                self.put(ch.of(self.servers), ch.of(self.sis), 1, ch.of([0, 20 * DAY, 31 * DAY]))
        elif what == 3:
            self.restart()
        elif what == 4:
            self.live(60.0)
            if self.node.up and self.current is None or ch.flag(0.3):
                self.stop()
                self.live(self.mean)
                self.restart()
        if self.swarm["no-server"]:
            for s in self.servers:
                if self.current is None and sim.fault("no-server", self.swarm["no-server"] / 2):
                    self.away ^= {s.n}
        if self.current is None and sim.fault("clock-jump", self.swarm["clock-jump"]):
            amount = ch.of([3600.0, DAY, 40 * DAY])
            sim.clock.jump(amount)
            if self.window is not None:
                self.window = (self.window[0], max(self.window[1], sim.seconds() + 1))
        if self.current is None and self.node.up and not ch.flag(0.08):
            self.top_up()

    def run(self):
        sim, ch = self.sim, self.sim.ch
        self.db.current = None
        faults, sim.faults_on = sim.faults_on, False
        self.node.boot()
        if self.swarm["bad-tokens"]:
            self.fund(1 + ch.pick(4), self.issuer.allowed[1])
            sim.count("fault:bad-tokens")
        self.top_up()
        self.node.crash("restart")
        sim.faults_on = faults
        self.boot_until_up()
        for _ in range(4 + ch.pick(8)):
            self.step()
        # Without faults, the next run succeeds.
        sim.log("healthy")
        sim.faults_on = False
        self.away = set()
        if not self.node.up or self.stopped:
            self.restart()
        if self.current is not None:
            self.live(10 * DAY)
        self.top_up()
        runs = sim.counters["runs-completed"]
        self.live(2 * (self.mean + self.range) + 3600)
        sim.ensure(sim.counters["runs-completed"] > runs, "C16", "no-run", "no run completed after all faults had stopped")
        self.restart()
        self.check_report("restart")


def run(sim):
    Lease(sim).run()


SPECS = [
    WorldSpec(
        "lease", run, ["C15", "C16", "C17", "C18"], quick=320, thorough=100000,
        real=["lease_maintenance (service, traversal, renewal, configuration)", "_plugin._create_maintenance_service (half of the runs)",
              "_storage_client.ZKAPAuthorizerStorageClient", "_storage_server.ZKAPAuthorizerStorageServer", "spending.SpendingController",
              "model.LeaseMaintenance and VoucherStore", "resource._LeaseMaintenanceResource over twisted.web", "foolscap brokers",
              "allmydata StorageServer, literal and unknown nodes", "sqlite3"],
        stubs=["directory and file nodes", "storage broker", "the byte transport under foolscap", "reactor clock", "random.Random draws"],
        assumptions=["clocks agree and never go back", "a lost connection is eventually noticed by both ends"],
    ),
]
