"""
The whole life of a node: everything at once.  A user redeems vouchers, stores
and renews data with the passes, replicates, and is struck by crashes, faults
and the loss of the whole machine; and every token the issuer ever signed is
accounted for.
"""

from __future__ import annotations

import base64
import json
import random
from datetime import timedelta

from allmydata.client import SecretHolder
from allmydata.util import base32
from foolscap.referenceable import TubRef
from tahoe_capabilities import danger_real_capability_string, writeable_directory_from_string
from twisted.application.service import MultiService
from twisted.internet.defer import maybeDeferred
from twisted.python.failure import Failure

import _zkapauthorizer._plugin as plugin_module
from allmydata.client import _Client
import _zkapauthorizer.controller as controller_module
from _zkapauthorizer.config import REPLICA_RWCAP_BASENAME

from ..core import SimCrash, Swarm
from ..db import rows
from ..grid import GRID_KINDS, Grid
from ..http import LOST, REFUSED, SimResponse
from ..issuer import Issuer, body, parts
from ..private import RequestCheck, WireCheck
from ..whole import WholeNode
from ..wire import Connection, install
from ..ws import WS
from . import WorldSpec
from .lease import Broker, DirNode, FileNode, Obj, TapeRandom
from .replica import recover_now_safely
from .spend import PAID, WAITING, Canary, Gate, Ledger, Op, Server, TracedRef, ceil_div, look

KINDS = ["db-crash", "db-error", "refused", "lost-request", "lost-reply", "late-request", "http-error", "slow", "cut", "lying-server",
         "server-restart", "client-crash", "rebuild", "disowned"] + GRID_KINDS
ROOT_URL = "https://issuer.invalid/"


class LifeIssuer(Issuer):
    """An issuer which remembers every token it signed."""

    def __init__(self, sim, groups, **kw):
        Issuer.__init__(self, sim, groups, **kw)
        self.signed = {}

    def sign(self, tokens, pub, proof_key=None):
        for t in tokens:
            self.signed.setdefault(self.source.by_blinded[t.encode("ascii")], set()).add(pub)
        return Issuer.sign(self, tokens, pub, proof_key)


class LifeLedger(Ledger):
    """Passes are judged by what the issuer signed."""

    def text_of(self, pass_, pub):
        try:
            pre = base64.b64decode(bytes(pass_)[:88])
        except ValueError:
            return None
        if pub not in self.issuer.signed.get(pre, ()):
            return None
        return self.issuer.rederive(pub, pre)

    def valid(self, pass_, message, pub):
        text = self.text_of(pass_, pub)
        return text is not None and self.pass_for(text, message) == bytes(pass_)


class LifeServer(Server):
    def __init__(self, world, n):
        Server.__init__(self, world, n)
        self.tubid = bytes([n + 1]) * 20

    def serve(self, gate, method, *args):
        try:
            return Server.serve(self, gate, method, *args)
        finally:
            entry = self.log[-1]
            for p in entry["spent"]:
                pre = base64.b64decode(bytes(p)[:88])
                self.world.spent[pre] = self.world.spent.get(pre, 0) + 1
            if entry.get("error") is None and not entry.get("refused"):
                for i in entry.get("failed") or ():
                    # It may go unused: the reply does not say that it was bad.
                    self.world.ignored.add(base64.b64decode(bytes(entry["passes"][i])[:88]))


def voucher_number(n):
    return base64.urlsafe_b64encode(b"voucher %03d" % n + b"v" * 21).decode("ascii")


class Life:
    publish = False
    name = "user"

    def __init__(self, sim):
        self.sim = sim
        ch = sim.ch
        sim.max_events = 400000
        sim.also = {"never-redeemed": "C04"}
        install(sim)
        interval = getattr(controller_module, "RETRY_INTERVAL", None)
        if interval is not None:
            controller_module.RETRY_INTERVAL = timedelta(seconds=20)
            sim.at_close.append(lambda: setattr(controller_module, "RETRY_INTERVAL", interval))
        self.swarm = Swarm(sim, KINDS)
        self.pv = ch.of([64, 10, 1, 1000])
        self.tokens = 16 + ch.of([0, 3, 16])
        self.issuer = LifeIssuer(sim, 16)
        self.private = RequestCheck(sim, self.issuer)
        self.said = WireCheck(sim, self.issuer)
        self.ledger = LifeLedger(sim, self.issuer)
        self.spent = {}
        self.ignored = set()
        self.spent_total = 0
        self.clients = [self]
        self.grid = Grid(sim)
        self.grid.on_change.append(self.grid_changed)
        self.machines = 0
        # The user's data.
        self.secrets = SecretHolder(b"l" * 20, b"c" * 20)
        self.objs = []
        self.add_object("dir")
        for _ in range(ch.pick(3)):
            o = self.add_object("file")
            self.objs[0].children[f"n{o.n}"] = o
        self.sis = [o.si for o in self.objs]
        self.servers = [LifeServer(self, i) for i in range(1 + ch.pick(2))]
        self.maintenance = ch.flag(0.5)
        self.closely = ch.flag(0.3)
        mean = ch.of([3600, 600, 20000])
        self.config = "\n".join([
            f"pass-value = {self.pv}", f"lease.crawl-interval.mean = {mean}", "lease.crawl-interval.range = 60",
            f"lease.min-time-remaining = {ch.of([40 * 86400, 86400])}"])
        self.vouchers = []
        self.decoded = {}
        self.lost = set()
        # Which voucher each token was made for
        self.origin = {}
        self.lost_vouchers = set()
        self.op_n = 0
        self.caps = []
        self.node = None
        self.new_machine()

    def add_object(self, kind):
        o = Obj(self, len(self.objs), kind)
        o.node = (DirNode if kind == "dir" else FileNode)(o)
        self.objs.append(o)
        return o

    def new_machine(self):
        """A machine with nothing on its disk."""
        self.machines += 1
        self.node = WholeNode(
            self.sim, self.swarm, self.grid, name=f"machine{self.machines}", disk=False, issuer=self.route, plugin_config=self.config,
            redeemer=f"redeemer = ristretto\nristretto-issuer-root-url = {ROOT_URL}\ndefault-token-count = {self.tokens}\n"
                     f"allowed-public-keys = {','.join(sorted(self.issuer.allowed))}")
        self.node.db.on_commit.append(self.after_commit)
        self.rwcap = None
        self.rebuilding = False
        self.settled = {}
        self.safe = (set(), set())
        self.ops = []
        self.connections = {}
        self.attached = None
        self.outage = None

    # What the servers know their peer by.
    @property
    def up(self):
        return self.node.up

    @property
    def proc(self):
        return self.node.proc

    # -- the issuer -----------------------------------------------------------------
    def route(self, agent, method, uri, headers, data, result):
        sim, swarm, proc = self.sim, self.swarm, agent.proc
        msg = json.loads(data)
        v, c, tokens = msg["redeemVoucher"], msg["redeemCounter"], msg["redeemTokens"]
        sim.log("redeem-request", v[:16], c)
        sim.count("redeem-requests")
        self.private(method, uri, headers, data, msg)
        later = sim.clock.callLater

        def deliver(f, x):
            if proc.alive:
                try:
                    f(x)
                except SimCrash:
                    pass

        def fail(exc):
            deliver(result.errback, Failure(exc))

        def delay():
            return sim.ch.delay(0.2) + (20.0 if sim.fault("slow", swarm["slow"]) else 0.0)

        def serve(answer=True):
            if sim.fault("disowned", swarm["disowned"] / 2):
                self.issuer.current = sim.ch.of(self.issuer.others)
            else:
                self.issuer.current = self.issuer.allowed[0]
            outcome, obj = self.issuer.handle(v, c, tokens)
            sim.log("issuer", outcome)
            sim.count("issuer:" + outcome)
            if outcome == "double-spend":
                sim.ensure(v in self.issuer.elsewhere or v in self.lost_vouchers, "C30", "value-lost-to-double-spend",
                           f"group {c} of a voucher was requested with other tokens than before: the issuer refuses for ever")
            if not answer:
                return
            if sim.fault("lost-reply", swarm["lost-reply"]):
                later(delay() + 1.0, fail, LOST())
                return
            if sim.fault("http-error", swarm["http-error"]):
                code, reply = 502, b"<html>Bad gateway</html>"
            else:
                code, reply = 200 if outcome == "ok" else 400, body(obj)
            later(delay(), lambda: deliver(result.callback, SimResponse(proc, method, uri, code, reply)))

        if sim.fault("refused", swarm["refused"]):
            later(delay(), fail, REFUSED())
        elif sim.fault("lost-request", swarm["lost-request"]):
            later(delay() + 1.0, fail, LOST())
        elif sim.fault("late-request", swarm["late-request"]):
            later(delay(), fail, LOST())
            later(delay() + 2.0, serve, False)
        else:
            later(delay(), serve)

    # -- the accounts ---------------------------------------------------------------
    def pre_of(self, text):
        try:
            return self.decoded[text]
        except KeyError:
            p = self.decoded[text] = base64.b64decode(text)[:64]
            return p

    def after_commit(self):
        if not self.rebuilding:
            self.check("after a commit")

    def places(self, dump):
        """Where each token is: {preimage: [place, ...]}"""
        vs = {r["number"]: r for r in rows(dump, "vouchers")}
        out = {}
        for r in rows(dump, "tokens"):
            v = vs.get(r["voucher"])
            if v is not None and v["state"] == "pending" and r["counter"] >= v["counter"]:
                out.setdefault(self.pre_of(r["text"]), []).append("redeemable")
        for r in rows(dump, "unblinded-tokens"):
            out.setdefault(self.pre_of(r["token"]), []).append("available")
        for r in rows(dump, "invalid-unblinded-tokens"):
            out.setdefault(self.pre_of(r["token"]), []).append("invalid")
        return out

    def check(self, when):
        """Each token is somewhere, and only there."""
        sim = self.sim
        dump = self.node.db.dump()
        for r in rows(dump, "tokens"):
            self.origin[self.pre_of(r["text"])] = r["voucher"]
        places = self.places(dump)
        tally = {"gone": 0, "spent": 0}
        for pre in self.issuer.signed:
            where = places.get(pre, [])
            if len(where) > 1:
                sim.violation("C30", "twice", f"{when}, one token is {' and '.join(where)}")
            elif where:
                tally[where[0]] = tally.get(where[0], 0) + 1
                if where[0] == "available" and pre in self.settled:
                    sim.violation("C30", "back", f"{when}, a token {self.settled[pre]} is available again")
            elif pre in self.spent:
                tally["spent"] += 1
            elif pre in self.lost or pre in self.ignored:
                tally["gone"] += 1
            else:
                sim.violation("C30", "lost", f"{when}, a token the issuer signed is neither redeemable, available, invalid nor spent")
        for r in rows(dump, "unblinded-tokens"):
            pre = self.pre_of(r["token"])
            if not any(self.issuer.rederive(pub, pre) == r["token"] for pub in self.issuer.signed.get(pre, ())):
                sim.violation("C30", "invented", f"{when}, there is a token the issuer never signed")
        sim.state(sorted(tally.items()), self.machines)

    # -- the replica ----------------------------------------------------------------
    def grid_changed(self, what, name):
        if self.closely and not self.rebuilding:
            self.probe()

    def configured(self):
        if self.rwcap is None:
            try:
                with open(self.node.private + "/" + REPLICA_RWCAP_BASENAME, "rb") as f:
                    self.rwcap = writeable_directory_from_string(f.read().decode("ascii"))
            except (FileNotFoundError, ValueError):
                pass
        return self.rwcap

    def recoverable(self):
        """What would be recovered now."""
        cap = self.configured()
        if cap is None:
            return None
        got, _stage, _error = recover_now_safely(self.grid.contents(cap.reader))
        return got[0] if got else None

    def known(self, state):
        """The tokens that appear anywhere in a state."""
        out = {self.pre_of(r["text"]) for r in rows(state, "tokens")}
        for table in ("unblinded-tokens", "invalid-unblinded-tokens"):
            out |= {self.pre_of(r["token"]) for r in rows(state, table)}
        return out

    def probe(self):
        """Note what is safe on the grid; it must stay so."""
        state = self.recoverable() or {}
        have = {r["number"] for r in rows(state, "vouchers")}
        known = self.known(state)
        vouchers, tokens = self.safe
        self.sim.ensure(vouchers <= have, "C30", "replica-lost-value",
                        f"{len(vouchers - have)} vouchers which were in the replica are not any more")
        # Tokens that have been used leave the replica, too.
        lost = {p for p in tokens - known if p not in self.spent and p not in self.ignored}
        self.sim.ensure(not lost, "C30", "replica-lost-value", f"{len(lost)} tokens which were in the replica are not any more")
        self.safe = (vouchers | have, tokens | known)

    # -- the node ---------------------------------------------------------------------
    def boot(self):
        self.connections = {}
        self.ops = []
        self.attached = None
        self.node.outage = self.outage
        if not self.node.try_boot():
            return False
        node = self.node
        if self.maintenance and not self.rebuilding:
            self.attach()
        return node.up

    def attach(self):
        """Lease maintenance, as Tahoe-LAFS would start it."""
        proc = self.node.proc
        client = self.attached = MultiService()
        client.config = self.node.node_config
        client.get_storage_broker = lambda: Broker(self)
        client._secret_holder = self.secrets
        client.create_node_from_uri = lambda cap: self.objs[0].node
        with open(self.node.private + "/rootcap", "w") as f:
            f.write("URI:root")
        client.startService()
        import twisted.internet

        real = random.Random, twisted.internet.reactor, plugin_module.storage_server_plugin
        random.Random = lambda *a: TapeRandom(self.sim)
        twisted.internet.reactor = proc.clock
        plugin_module.storage_server_plugin = self.node.plugin
        try:
            _Client.init_storage(client, [])
        except SimCrash:
            pass
        finally:
            random.Random, twisted.internet.reactor, plugin_module.storage_server_plugin = real

    # What lease maintenance sees.
    def connected(self):
        return self.servers

    def list_dir(self, obj):
        from twisted.internet.defer import succeed

        return succeed({k: (o.node, {}) for k, o in obj.children.items()})

    def cut(self, conn, end):
        return self.sim.fault("cut", self.swarm["cut"] / 3)

    def connect(self, server):
        conn = self.connections.get(server.n)
        if conn is None or conn.cut or not conn.server_proc.alive:
            gate = Gate(server, self)
            conn = Connection(self.sim, self.node.proc, server.proc, gate, scale=0.3, fault=self.cut, tap=self.said)
            conn.gate = gate
            conn.ends[0].broker.remote_tubref = TubRef(base32.b2a(server.tubid).decode("ascii"))
            self.connections[server.n] = conn
        return conn

    def storage(self, server, op=None):
        conn = self.connect(server)
        node = self.node

        def rref():
            if not node.up or node is not self.node:
                raise SimCrash()
            if op is not None:
                return TracedRef(self, conn, op, server, self)
            return Untraced(self, conn)

        announcement = {"ristretto-issuer-root-url": ROOT_URL, "ristretto-public-keys": [server.pub]}
        return node.plugin.get_storage_client(node.node_config, announcement, rref)

    # -- operations -------------------------------------------------------------------
    def sending(self, op, call):
        for p in call["passes"]:
            pre = base64.b64decode(bytes(p)[:88])
            self.sim.ensure(pre not in self.settled, "C30", "presented-after-use", f"a token {self.settled.get(pre)} is presented again")

    def replied(self, op, call):
        pass

    def check_quote(self, call, entry):
        if call is not None:
            call["entry"] = entry

    def secret(self, si, label):
        import hashlib

        return hashlib.sha256(label + si).digest()

    def start(self, kind, server, f):
        sim = self.sim
        self.op_n += 1
        op = Op(self, kind, self.op_n)
        op.proc = self.node.proc
        self.ops.append(op)
        sim.log("op", op.n, kind, server.n)
        sim.count("op:" + kind)
        d = maybeDeferred(f, self.storage(server, op))
        op.proc.keep.append(d)
        op.d = d

        def finish(result):
            if not op.proc.alive or self.node.proc is not op.proc:
                return
            op.done = True
            op.result = result
            failed = isinstance(result, Failure)
            sim.log("op-done", op.n, result.type.__name__ if failed else "ok")
            sim.count("op-failed" if failed else "op-ok")
            if not failed:
                self.learned(op)

        d.addBoth(finish)
        return op

    def learned(self, op):
        """The operation succeeded: its tokens are spent, once and for all."""
        have = {pre for pre, w in self.places(self.node.db.dump()).items() if "available" in w}
        for call in op.calls:
            entry = call.get("entry")
            if call["method"] in PAID and entry is not None and not isinstance(call["reply"], Failure) and call["reply"] is not WAITING:
                for p in entry["spent"]:
                    pre = base64.b64decode(bytes(p)[:88])
                    self.sim.ensure(pre not in have, "C30", "spent-kept",
                                    "an operation succeeded but a token it spent is still available")
                    self.settled[pre] = "spent"

    def write(self, server, si, size):
        secrets = (self.secret(si, b"we"), self.secret(si, b"rs"), self.secret(si, b"cs"))
        data = bytes(i % 251 for i in range(size))
        return self.start("write", server, lambda s: s.slot_testv_and_readv_and_writev(si, secrets, {0: ([], [(0, data)], None)}, []))

    def upload(self, server, si, shares, size):
        canary = Canary()
        op = self.start("allocate", server, lambda s: s.allocate_buckets(
            si, self.secret(si, b"rs"), self.secret(si, b"cs"), shares, size, canary))

        def write(_):
            if not op.proc.alive or not op.done or isinstance(op.result, Failure):
                return
            for n, w in sorted(op.result[1].items()):
                for what, a in (("write", (0, b"d" * size)), ("close", ())):
                    d = w.callRemote(what, *a)
                    d.addErrback(lambda f: self.sim.log("writer-failed", f.type.__name__))
                    op.proc.keep.append(d)

        op.d.addCallback(write)
        return op

    def renew(self, server, si):
        return self.start("add_lease", server, lambda s: s.add_lease(si, self.secret(si, b"rs"), self.secret(si, b"cs")))

    def use(self):
        """The user stores something."""
        ch = self.sim.ch
        if sum(1 for o in self.ops if not o.done) > 3:
            return
        server, o = ch.of(self.servers), ch.of(self.objs)
        size = ch.of([1, self.pv, self.pv + 1, 3 * self.pv])
        if size > 4000:
            size = 4000
        k = ch.weighted([5, 3])
        if k == 1:
            self.renew(server, o.si)
        elif o.kind == "dir":
            self.write(server, o.si, size)
        else:
            self.upload(server, o.si, {ch.pick(4) for _ in range(1 + ch.pick(2))}, size)

    def put(self):
        """The user buys and redeems a voucher."""
        sim, ch = self.sim, self.sim.ch
        if not self.vouchers or (len(self.vouchers) < 4 and ch.flag(0.7)):
            v = voucher_number(len(self.vouchers))
            self.vouchers.append(v)
            self.issuer.secrets.add_text("voucher", v)
            if ch.flag(0.9):
                self.issuer.paid.add(v)
            if ch.flag(0.04):
                self.issuer.elsewhere.add(v)
        else:
            v = ch.of(self.vouchers)
        r = self.node.api.call(b"PUT", b"/voucher", json.dumps({"voucher": v}).encode(), [(b"content-type", b"application/json")])
        sim.log("put", v[:16], r.code if r else None)

    def ask(self):
        """The user asks for replication."""
        self.sim.log("replicate")
        try:
            return self.node.api.send(b"POST", b"/replicate", b"")
        except SimCrash:
            return None

    # -- the end of a machine ----------------------------------------------------------
    def lose(self, strict=False):
        """The machine is gone; another takes its place."""
        sim = self.sim
        sim.log("machine-lost")
        sim.count("fault:machine-lost")
        self.node.crash("machine-lost")
        old = self.node.db.dump()
        cap = self.configured()
        expected = self.recoverable()
        self.probe()
        safe = self.safe
        self.new_machine()
        recovered = None
        if expected is not None:
            # Whether it says so or not, this is what the user has.
            self.caps.append(cap)
            recovered = self.recover(danger_real_capability_string(cap.reader))
        state = recovered or {}
        have = {r["number"] for r in rows(state, "vouchers")}
        had = {r["number"] for r in rows(old, "vouchers")}
        known = self.known(state)
        sim.ensure(safe[0] <= have, "C30", "rebuilt-without", f"{len(safe[0] - have)} vouchers which were in the replica were not recovered")
        gone = {p for p in self.origin if p not in known and p not in self.spent and p not in self.ignored} - self.lost
        sim.ensure(not gone & safe[1], "C30", "rebuilt-without", f"{len(gone & safe[1])} tokens which were in the replica were not recovered")
        if strict:
            sim.ensure(not had - have, "C30", "rebuilt-without",
                       f"{len(had - have)} of {len(had)} vouchers were not recovered though nothing had been wrong for long")
            sim.ensure(not gone, "C30", "rebuilt-without", f"{len(gone)} tokens were not recovered though nothing had been wrong for long")
        self.lost |= gone
        self.lost_vouchers |= had - have | {self.origin[p] for p in gone}
        if gone:
            sim.count("tokens-lost-with-a-machine", len(gone))
        missing = had - have
        sim.log("rebuilt", len(have), len(missing))
        self.check("after rebuilding")

    def recover(self, cap):
        """Recover, however often that takes.  What was recovered."""
        sim = self.sim
        self.rebuilding = True
        try:
            for attempt in range(12):
                if attempt == 8:
                    sim.faults_on = False
                    self.node.set_outage(None)
                if not self.boot():
                    sim.run_for(1.0)
                    continue
                if rows(self.node.db.dump(), "vouchers"):
                    break
                got = []
                ws = WS(self.node.api, b"/recover", on_message=lambda ws, m: got.append(json.loads(m)["stage"]))
                if not self.node.up or not ws.open:
                    continue
                try:
                    ws.send(json.dumps({"recovery-capability": cap}).encode(), 1)
                except SimCrash:
                    continue
                done = lambda: not self.node.up or (got and (got[-1] == "succeeded" or got[-1].endswith("_failed")))  # noqa: E731
                ok = sim.run_until(done, 100000.0)
                sim.log("recovery", ok, got[-1] if got else None)
                sim.count("recovery:" + (got[-1] if got else "nothing"))
                if got and got[-1] == "succeeded":
                    break
                if not sim.faults_on and self.node.up:
                    sim.violation("C30", "cannot-recover", f"recovery fails though nothing is wrong: {got}")
                self.node.crash()
            else:
                sim.violation("C30", "cannot-recover", "recovery never succeeds")
        finally:
            self.rebuilding = False
        sim.faults_on = not self.quiet
        sim.count("rebuilt-from-replica")
        if self.node.up and self.maintenance:
            self.attach()
        return self.node.db.dump()

    # -- the run -----------------------------------------------------------------------
    quiet = False

    def step(self):
        sim, ch, node = self.sim, self.sim.ch, self.node
        if not node.up:
            sim.run_for(ch.of([1.0, 100.0]))
            self.boot()
            return
        k = ch.weighted([14, 8, 16, 5, 3, 2, 1, 1, 4, 2])
        if k == 0:
            for _ in range(1 + ch.pick(12)):
                if not sim.clock.step():
                    break
        elif k == 1:
            self.put()
        elif k == 2:
            self.use()
        elif k == 3:
            if self.configured() is None:
                self.ask()
        elif k == 4:
            sim.run_for(ch.of([30.0, 300.0, 3000.0]))
        elif k == 5:
            if sim.fault("client-crash", self.swarm["client-crash"] * 2):
                node.crash()
        elif k == 6:
            node.shutdown()
        elif k == 7:
            self.outage = ch.of([None, "refused", "unhappy", "error", "lost"])
            node.set_outage(self.outage)
        elif k == 8:
            s = ch.of(self.servers)
            if sim.fault("server-restart", self.swarm["server-restart"]):
                s.restart()
        elif k == 9:
            if self.machines < 4 and sim.fault("rebuild", self.swarm["rebuild"] * 3):
                self.lose()

    def run(self):
        sim, ch = self.sim, self.sim.ch
        self.boot()
        if ch.flag(0.7) and self.up:
            self.ask()
            sim.run_for(60.0)
        for _ in range(10 + ch.pick(50)):
            self.step()
            if ch.flag(0.1):
                self.probe()
        self.settle()
        self.check("when nothing has been wrong for long")
        # Now the machine is lost, with all that is on it.
        self.lose(strict=True)
        self.settle()
        self.check("after the last rebuilding")
        self.spend_all()

    def settle(self):
        """No more faults: all that is under way comes to its end."""
        sim, node = self.sim, self.node
        sim.log("healthy")
        self.quiet = True
        sim.faults_on = False
        self.outage = None
        node.set_outage(None)
        for v in self.vouchers:
            self.issuer.paid.add(v)
        if not node.up and not self.boot():
            sim.violation("C30", "cannot-start", "the node cannot start though nothing is wrong any more")
            return
        # Whatever was stuck gets unstuck.
        sim.run_for(100.0)

        def redeemed():
            return all(r["state"] != "pending" for r in rows(self.node.db.dump(), "vouchers"))

        ok = sim.run_until(redeemed, 3000.0)
        sim.ensure(ok, "C30", "never-redeemed", "vouchers are not redeemed though nothing is wrong any more")
        for i in range(25):
            if self.configured() is None:
                self.ask()
            # An answer from the grid may still take its time.
            sim.run_for(900.0 if i == 0 else 3000.0)
            state = self.recoverable()
            if state is None:
                continue
            dump = self.node.db.dump()
            have = {r["number"] for r in rows(state, "vouchers")}
            tokens = self.known(dump) - set(self.spent)
            if {r["number"] for r in rows(dump, "vouchers")} <= have and tokens <= self.known(state):
                break
        else:
            sim.violation("C30", "not-replicated", "vouchers are not in the replica though nothing is wrong any more")
        stuck = [o for o in self.ops if not o.done]
        sim.ensure(not stuck, "C30", "never-ends", f"{len(stuck)} operations never end")

    def spend_all(self):
        """Everything advertised can really be spent."""
        sim, node = self.sim, self.node
        if self.attached is not None:
            # Nobody else spends now.
            node.shutdown()
            self.maintenance = False
            self.boot()
        dump = node.db.dump()
        spendable = {g["rowid"] for g in rows(dump, "redemption-groups") if g["spendable"]}
        want = sum(1 for t in rows(dump, "unblinded-tokens") if t["redemption-group"] in spendable)
        total = node.store.count_unblinded_tokens()
        sim.ensure(total == want, "C30", "count-wrong", f"{total} tokens are advertised, {want} are available")
        self.servers[0].restart()
        before = sum(self.spent.values())
        n = 0
        while want:
            n += 1
            k = min(want, 7)
            si = b"%016d" % (1000 + n)
            self.sis.append(si)
            op = self.write(self.servers[0], si, self.pv * k)
            sim.run_until(lambda: op.done, 100.0)
            if not op.done or isinstance(op.result, Failure):
                sim.violation("C30", "cannot-spend", f"{want} tokens are available but a write for {k} does not succeed: {op.result!r}")
                return
            want -= k
            sim.ensure(node.store.count_unblinded_tokens() == want, "C30", "count-wrong", "spending does not reduce what is available")
        used = sum(self.spent.values()) - before
        sim.ensure(used == total, "C30", "value-differs", f"{total} tokens bought {used} passes' worth")
        sim.count("tokens-accounted-for", len(self.issuer.signed))
        self.check("at the end")


class Untraced:
    """A remote reference that stops working with its process."""

    def __init__(self, world, conn):
        self.world, self.conn, self.proc = world, conn, world.node.proc

    def __getattr__(self, name):
        return getattr(self.conn.rref, name)


def run(sim):
    Life(sim).run()


SPECS = [
    WorldSpec(
        "life", run, ["C30", "C04"], quick=200, thorough=60000, also={"C33": 0.5},
        real=["_plugin.ZKAPAuthorizer (client resource, storage client, storage server, services)", "controller.PaymentController and RistrettoRedeemer",
              "spending.SpendingController", "_storage_client and _storage_server", "model.VoucherStore", "replicate, recover, tahoe",
              "lease_maintenance", "resource (HTTP API and websockets)", "foolscap brokers, allmydata StorageServer",
              "challenge_bypass_ristretto (native)", "sqlite3 (real engine, real files)"],
        stubs=["the issuer (own, with real keys and signatures)", "Tahoe-LAFS gateway and grid (own model speaking the same HTTP API)",
               "TCP and foolscap transports", "reactor clock", "process crashes (abandoned object graph, copied database files)",
               "the interval between checks of unredeemed vouchers (20 s instead of 1 s)"],
        assumptions=["one machine at a time uses a replica", "the server does not yet refuse passes spent before (issue 41)",
                     "a pass whose reply was lost may be presented again"],
    ),
]
