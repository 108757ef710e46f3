"""
Many clients watch a recovery over websockets, with everything around it
failing: the grid, the database, the disk, the process and the clients.
"""

from __future__ import annotations

import base64
import json
from datetime import timedelta
from functools import partial  # noqa: F401

from tahoe_capabilities import danger_real_capability_string

import _zkapauthorizer.controller as controller_module
from _zkapauthorizer.model import RandomToken, UnblindedToken, VoucherStore
from _zkapauthorizer.replicate import snapshot, with_replication

from ..core import SimCrash, Swarm
from ..db import rows
from ..disk import DISK_KINDS
from ..grid import GRID_KINDS, Grid
from ..whole import WholeNode
from ..ws import WS
from . import WorldSpec
from .replica import recover_now_safely

KINDS = ["db-crash", "db-error", "client"] + DISK_KINDS + GRID_KINDS
LAST = ("succeeded", "download_failed", "import_failed")
ORDER = ["started", "inspect_replica", "downloading", "importing"] 

# How soon after the last update a client must be disconnected
SOON = 10.0


class Client:
    """One client and what it did."""

    def __init__(self, n, ws, cap):
        self.n = n
        self.ws = ws
        self.cap = cap  # the capability it named, or None
        self.bad = False
        self.asked_at = None
        self.left = False

    def stages(self):
        return [json.loads(m) for m in self.ws.messages]


class RecoverWS:
    def __init__(self, sim):
        self.sim = sim
        ch = sim.ch
        sim.max_events = 250000
        # Retrying vouchers, which cannot succeed here, is not what this is about.
        interval = getattr(controller_module, "RETRY_INTERVAL", None)
        if interval is not None:
            controller_module.RETRY_INTERVAL = timedelta(seconds=600)
            sim.at_close.append(lambda: setattr(controller_module, "RETRY_INTERVAL", interval))
        sim.also = {"damaged": "C22", "lost-voucher": "C22"}
        self.swarm = Swarm(sim, KINDS)
        self.grid = Grid(sim)
        self.vouchers = 0
        self.caps = [self.make_replica() for _ in range(2 + ch.pick(2))]
        self.node = WholeNode(sim, self.swarm, self.grid)
        self.accepted = set()
        self.reset()

    def reset(self):
        self.clients = []
        self.first = None
        self.canon = []
        self.before = None
        self.terminal_at = None
        self.fetched = {}
        self.asked = {}

    # -- replicas ---------------------------------------------------------------
    def make_replica(self):
        import sqlite3
        from datetime import datetime, timezone

        sim, ch = self.sim, self.sim.ch
        real = sqlite3.connect(":memory:", isolation_level="IMMEDIATE")
        conn = with_replication(real, True)
        store = VoucherStore.from_connection(1000, lambda: datetime.fromtimestamp(1e9, timezone.utc), conn)
        snap = None
        cap = self.grid.mkdir()
        children = self.grid.children(cap)
        names = []
        for i in range(1 + ch.pick(3)):
            self.vouchers += 1
            v = base64.urlsafe_b64encode(b"replicated %03d" % self.vouchers + b"r" * 18)
            store.add(v, 4, 0, lambda: [RandomToken(base64.b64encode(sim.nonce(96))) for _ in range(2)])
            if ch.flag(0.5):
                store.insert_unblinded_tokens_for_voucher(
                    v, "key", [UnblindedToken(base64.b64encode(sim.nonce(96))) for _ in range(2)], ch.flag(0.4), not ch.flag(0.2))
            if snap is None:
                snap = snapshot(conn)
                children["snapshot"] = self.grid.put(snap)
            else:
                from _zkapauthorizer.replicate import get_events

                e = get_events(conn)
                names.append(f"event-stream-{e.highest_sequence()}")
                children[names[-1]] = self.grid.put(e.to_bytes().read())
        how = ch.weighted([70, 8, 8, 8, 6])
        if how == 1:
            del children["snapshot"]
        elif how == 2:
            children["snapshot"] = self.grid.put(b"\x00garbage")
        elif how == 3 and names:
            children[names[-1]] = self.grid.put(b"\xffgarbage")
        elif how == 4:
            # the snapshot is of something with a dangling reference
            import cbor2

            obj = cbor2.loads(snap)
            obj["statements"].append("INSERT INTO [tokens] ([voucher], [counter], [text]) VALUES ('nobody', 0, 'x')")
            children["snapshot"] = self.grid.put(cbor2.dumps(obj))
        if how:
            sim.count("fault:bad-replica")
        real.close()
        got, stage, error = recover_now_safely(self.grid.contents(cap))
        sim.log("replica", len(children), how, got is not None)
        self.expected = getattr(self, "expected", {})
        self.expected[danger_real_capability_string(cap.reader)] = got[0] if got else None
        return danger_real_capability_string(cap.reader)

    # -- the node -----------------------------------------------------------------
    def boot(self):
        self.reset()
        if not self.node.try_boot():
            return False
        self.node.gateway.gate = self.gate
        self.before = self.node.db.dump()
        return True

    def gate(self, what, name):
        self.fetched[what] = self.fetched.get(what, 0) + 1

    # -- clients ------------------------------------------------------------------
    def connect(self):
        sim = self.sim
        n = len(self.clients)
        ws = WS(self.node.api, b"/recover", on_message=lambda ws, m: self.update(n, m))
        self.clients.append(Client(n, ws, None))
        sim.log("connect", n)
        if self.node.up and not ws.open:
            sim.violation("C23", "not-connected", f"a client with the right token is answered {ws.raw[:60]!r}")

    def ask(self, c):
        """The client names a replica."""
        sim, ch = self.sim, self.sim.ch
        cap = ch.of(self.caps[:1] * 5 + self.caps[1:])
        payload = json.dumps({"recovery-capability": cap}).encode()
        k = ch.weighted([20, 1, 1, 2])
        if k == 1:
            payload = json.dumps({"recovery-capability": cap, "more": 1}).encode()
        elif k == 2:
            payload = b"\xff not json"
        elif k == 3:
            payload = json.dumps(ch.of([
                {"recovery-capability": "URI:DIR2:nonsense"}, {"recovery-capability": None}, {"recovery-capability": [cap]},
                {"recovery-capability": ""}, {"recovery-capability": cap.replace("URI:DIR2-RO", "URI:DIR2-Verifier")}, {}, [cap],
                ["recovery-capability"], cap, 7, None])).encode()
        sim.log("ask", c.n, self.caps.index(cap), k)
        opcode = 1 if k != 2 else 2
        if k:
            c.bad = True
            c.asked_at = sim.seconds()
            c.ws.send(payload, opcode)
            return
        c.asked_at = sim.seconds()
        c.cap = cap
        if self.first is None:
            self.first = cap
            self.before = self.node.db.dump()
            sim.count("recoveries")
        elif cap != self.first:
            sim.count("fault:other-replica")
            c.bad = True
        else:
            sim.count("late-clients" if self.terminal_at else "joining-clients")
        c.ws.send(payload, opcode)

    def update(self, n, message):
        """A client receives an update."""
        sim = self.sim
        c = self.clients[n]
        try:
            state = json.loads(message)
            stage, reason = state["stage"], state["failure-reason"]
        except Exception:
            sim.violation("C23", "not-an-update", f"a client received {message!r}")
            return
        got = c.stages()
        sim.log("update", n, stage)
        if c.bad or c.cap is None:
            sim.violation("C23", "told-others", f"client {n}, which does not take part in the recovery, received {stage}")
        if len(got) > len(self.canon):
            self.canon.append(state)
            self.progress(state)
        else:
            sim.ensure(state == self.canon[len(got) - 1], "C23", "differs",
                       lambda: f"client {n} received {got} where others received {self.canon[: len(got)]}")
        sim.ensure((reason is None) == (not stage.endswith("_failed")), "C23", "reason", f"stage {stage} with reason {reason!r}")

    def progress(self, state):
        sim = self.sim
        stages = [s["stage"] for s in self.canon]
        ended = [s for s in stages if s in LAST]
        sim.ensure(len(ended) <= 1 and (not ended or stages[-1] in LAST), "C23", "after-the-end", f"stages {stages}")
        known = [ORDER.index(s) for s in stages if s in ORDER]
        sim.ensure(all(s in ORDER or s in LAST for s in stages), "C23", "unknown-stage", f"stages {stages}")
        sim.ensure(known == sorted(set(known)), "C23", "disorder", f"stages {stages}")
        sim.ensure("import_failed" not in stages or "inspect_replica" not in stages or "downloading" in stages, "C23", "disorder", f"stages {stages}")
        if not ended:
            return
        self.terminal_at = sim.seconds()
        sim.count("ended-" + stages[-1])
        self.check_outcome(stages[-1], "when the clients are told")

    def check_outcome(self, stage, when):
        sim = self.sim
        now = self.node.db.dump()
        if stage == "succeeded":
            want = self.expected[self.first]
            sim.ensure(want is not None, "C23", "damaged", "recovery from a replica which cannot be recovered succeeded")
            sim.ensure(self.same(now, want), "C23", "damaged", f"recovery succeeded but {when} the store is not that of the replica")
            sim.ensure(not rows(self.before, "vouchers"), "C23", "damaged", "recovery into a node with vouchers succeeded")
        else:
            sim.ensure(self.same(now, self.before), "C23", "damaged", f"recovery failed but {when} the store differs from before")

    def same(self, a, b):
        def without(d):
            d = dict(d)
            d["vouchers"] = [r for r in d.get("vouchers", []) if dict(r)["number"] not in self.asked]
            d["tokens"] = [r for r in d.get("tokens", []) if dict(r)["voucher"] not in self.asked]
            return {k: v for k, v in d.items() if v}

        return without(a) == without(b)

    # -- the run ------------------------------------------------------------------
    def step(self):
        sim, ch, node = self.sim, self.sim.ch, self.node
        if not node.up:
            sim.run_for(1.0)
            self.boot()
            return
        idle = [c for c in self.clients if c.asked_at is None and not c.ws.ended and c.ws.open]
        busy = [c for c in self.clients if c.asked_at is not None and not c.ws.ended and not c.left]
        k = ch.weighted([30, 10 if len(self.clients) < 7 else 0, 14 if idle else 0, 4 if busy and sim.faults_on else 0,
                         2 if sim.faults_on else 0, 3, 1 if busy else 0, 1, 2])
        if k == 0:
            for _ in range(1 + ch.pick(5)):
                if not sim.clock.step():
                    break
        elif k == 1:
            self.connect()
        elif k == 2:
            self.ask(ch.of(idle))
        elif k == 3:
            c = ch.of(busy)
            sim.count("fault:client-left")
            sim.log("leave", c.n)
            c.left = True
            (c.ws.leave if ch.flag(0.5) else c.ws.drop)()
        elif k == 4:
            if ch.flag(0.4):
                node.crash()
        elif k == 5:
            self.put_voucher()
        elif k == 6:
            # A client says the same thing again.
            c = ch.of(busy)
            if c.cap is not None:
                sim.log("again", c.n)
                sim.count("fault:asked-twice")
                c.ws.send(json.dumps({"recovery-capability": c.cap}).encode())
        elif k == 7:
            sim.run_for(ch.of([1.0, 60.0, 1000.0]))
        elif k == 8:
            r = node.api.call(b"GET", b"/voucher")
            if r is not None and r.code == 200:
                sim.count("reads")

    def put_voucher(self):
        sim, ch = self.sim, self.sim.ch
        if not ch.flag(0.5):
            return
        self.vouchers += 1
        v = base64.urlsafe_b64encode(b"meanwhile %03d" % self.vouchers + b"m" * 19).decode("ascii")
        self.asked[v] = True
        sim.log("put-voucher")
        r = self.node.api.call(b"PUT", b"/voucher", json.dumps({"voucher": v}).encode(), [(b"content-type", b"application/json")])
        if r is not None and r.code == 200:
            self.accepted.add(v)
            sim.count("vouchers")
        self.check_vouchers()

    def check_vouchers(self):
        have = {r["number"] for r in rows(self.node.db.dump(), "vouchers")}
        self.sim.ensure(self.accepted <= have, "C23", "lost-voucher", "a voucher accepted around recovery is gone")

    def check_clients(self, at_end):
        sim = self.sim
        for c in self.clients:
            ws = c.ws
            if c.asked_at is None or c.left:
                continue
            if c.bad:
                if sim.seconds() > c.asked_at + SOON:
                    sim.ensure(ws.closed_at is not None, "C23", "not-refused", f"client {c.n}, asking for something else, is still connected")
                    sim.ensure(ws.close is not None and ws.close[0] not in (None, 1000), "C23", "not-refused",
                               f"client {c.n}, asking for something else, was disconnected with {ws.close}")
                continue
            got = c.stages()
            if self.terminal_at is not None and sim.seconds() > max(self.terminal_at, c.asked_at) + SOON:
                sim.ensure(got == self.canon, "C23", "incomplete", lambda: f"client {c.n} received {got} of {self.canon}")
                sim.ensure(ws.closed_at is not None, "C23", "not-disconnected", f"client {c.n} is still connected after {got[-1:]}")
            elif ws.closed_at is not None:
                ended = [s for s in got if s["stage"] in LAST]
                sim.ensure(len(ended) == 1, "C23", "cut-off", f"client {c.n} was disconnected after {got[-1:]}: {ws.close}")
            if at_end:
                sim.ensure(self.terminal_at is not None, "C23", "no-end", f"recovery has not ended: {self.canon[-1:]}")
        if self.terminal_at is not None:
            # Listing may be retried, downloading a file is not.
            n = len(self.grid.dirs[self.grid.names[self.first]])
            sim.ensure(self.fetched.get("get", 0) <= n, "C23", "again", f"{self.fetched.get('get')} downloads of {n} files")

    def run(self):
        sim, ch = self.sim, self.sim.ch
        self.boot()
        for _ in range(15 + ch.pick(60)):
            self.step()
            if self.node.up:
                self.check_clients(False)
                if self.node.up:
                    self.check_vouchers()
        sim.log("healthy")
        sim.faults_on = False
        if not self.node.up and not self.boot():
            sim.violation("C23", "cannot-start", "the node cannot start though nothing is wrong any more")
            return
        if self.first is None or ch.flag(0.3):
            self.connect()
            self.ask(self.clients[-1])
        if self.first is not None and not any(c.cap == self.first and not c.left for c in self.clients):
            # Someone has to watch.
            self.connect()
            self.clients[-1].cap = self.first
            self.clients[-1].asked_at = sim.seconds()
            self.clients[-1].ws.send(json.dumps({"recovery-capability": self.first}).encode())
        sim.run_until(lambda: self.terminal_at is not None, 100000.0)
        sim.run_for(2 * SOON)
        self.check_clients(True)
        if self.canon:
            self.check_outcome(self.canon[-1]["stage"], "at the end")
        self.check_vouchers()
        if self.canon and ch.flag(0.5):
            # It is so after a restart, too.
            self.node.shutdown()
            canon, first, before, asked = self.canon, self.first, self.before, self.asked
            sim.ensure(self.boot(), "C23", "cannot-start", "the node cannot start though nothing is wrong any more")
            self.canon, self.first, self.before, self.asked = canon, first, before, asked
            self.check_outcome(self.canon[-1]["stage"], "after a restart")


def run(sim):
    RecoverWS(sim).run()


SPECS = [
    WorldSpec(
        "recoverws", run, ["C23", "C22"], quick=400, thorough=100000,
        real=["resource.RecoverFactory and RecoverProtocol", "_plugin.ZKAPAuthorizer and the resource tree", "recover", "tahoe.Tahoe (HTTP client)",
              "model.VoucherStore", "autobahn websocket server", "twisted.web", "sqlite3 (real engine, real files)"],
        stubs=["websocket client (own, speaking the wire protocol)", "TCP (in-memory transports)", "Tahoe-LAFS gateway and grid (own model speaking the same HTTP API)",
               "reactor clock", "process ids", "process crashes (abandoned object graph, copied database files)"],
        assumptions=["a TCP connection delivers in order"],
    ),
]
