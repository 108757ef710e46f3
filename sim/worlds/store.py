"""
The store of a client node: histories of its operations, each interrupted at
each point in turn by a crash or an error of the database, compared with an
undisturbed twin.
"""

from __future__ import annotations

import base64

from twisted.internet.defer import Deferred
from twisted.python.failure import Failure

from _zkapauthorizer.model import RandomToken, UnblindedToken, VoucherStore
from _zkapauthorizer.replicate import with_replication

from ..core import Process, SimCrash, Swarm
from ..db import SimDB, dump_conn
from . import WorldSpec

ACTIONS = ["crash", "crash-after", "error", "error-rollback"]


class Twin:
    """A store, and the maintenance activities started with it."""

    def __init__(self, sim, name, replicating):
        self.sim = sim
        self.name = name
        self.replicating = replicating
        self.db = SimDB(sim, name, Swarm(sim, []))
        self.boots = 0
        self.open()

    def open(self):
        self.boots += 1
        self.db.enabled = False
        self.proc = Process(self.sim, f"{self.name}#{self.boots}")
        self.conn = with_replication(self.db.connect(self.proc), self.replicating)
        self.store = VoucherStore.from_connection(1000, self.proc.now, self.conn)
        self.conn.add_mutation_observer(self.observe)
        self.maintenance = {}
        self.db.enabled = True

    def observe(self, cursor, changes):
        """Record the changes along with them, as replication does."""
        for important, sql, many in changes:
            cursor.executemany("INSERT INTO [event-stream] ([statement], [serialized_arguments], [important]) VALUES (?, ?, ?)",
                               [(sql, repr(tuple(args)), important) for args in many])
        return lambda: None

    def contents(self):
        """What is committed."""
        self.db.dump()
        return dump_conn(self.db._reader, skip=())

    def pending(self):
        return self.db.current.real.in_transaction

    def become(self, other):
        """Start over with the database of another store."""
        self.proc.kill("stop")
        self.db.close_reader()
        with open(other.db.path, "rb") as f:
            data = f.read()
        with open(self.db.path, "wb") as f:
            f.write(data)
        self.open()


class StoreWorld:
    def __init__(self, sim):
        self.sim = sim
        replicating = sim.ch.flag(0.6)
        self.b = Twin(sim, "store", replicating)
        self.a = Twin(sim, "twin", replicating)
        self.vouchers = 0
        self.seen = []
        self.tokens = []
        # kind of operation -> points it went through
        self.points = {}
        self.activities = 0

    # -- operations: (kind, f(twin) -> result) --------------------------------------
    def token(self):
        return UnblindedToken(base64.b64encode(self.sim.nonce(96)))

    def choose(self):
        sim, ch = self.sim, self.sim.ch
        k = ch.weighted([6, 8, 2, 7, 6, 4, 3, 2, 3, 2, 1, 1, 1, 1])
        if self.seen and ch.flag(0.8):
            v = ch.of(self.seen)
        else:
            self.vouchers += 1
            v = base64.urlsafe_b64encode(b"voucher %03d" % self.vouchers + b"v" * 21)
            if ch.flag(0.8):
                self.seen.append(v)
        if k == 0:
            counter = ch.pick(3)
            new = [RandomToken(base64.b64encode(sim.nonce(96))) for _ in range(ch.of([1, 2, 5]))]
            fail = ch.flag(0.1)

            def get():
                if fail:
                    raise ValueError("no tokens")
                return list(new)

            return "add", lambda t: t.store.add(v, 16, counter, get)
        if k == 1:
            new = [self.token() for _ in range(1100 if ch.flag(0.004) and len(self.tokens) < 1000 else ch.of([1, 2, 5]))]
            self.tokens += new
            if self.tokens and ch.flag(0.1):
                # Tokens there already are
                new = new + [ch.of(self.tokens)]
            done, spendable = ch.flag(0.5), ch.flag(0.8)
            return "insert", lambda t: t.store.insert_unblinded_tokens_for_voucher(v, "key", new, done, spendable)
        if k == 2:
            return "double-spent", lambda t: t.store.mark_voucher_double_spent(v)
        if k == 3:
            n = 1050 if ch.flag(0.05) and len(self.tokens) > 1050 else ch.of([1, 1, 2, 5, 20])
            return "get-tokens", lambda t: sorted(x.unblinded_token for x in t.store.get_unblinded_tokens(n))
        if k in (4, 5, 6):
            some = ch.shuffled(self.tokens)[: (2000 if ch.flag(0.1) else ch.of([1, 2, 5]))]
            if some and ch.flag(0.05):
                some = some + some[:1]
            if k == 4:
                return "discard", lambda t: t.store.discard_unblinded_tokens(list(some))
            if k == 5:
                return "invalidate", lambda t: t.store.invalidate_unblinded_tokens("reason", list(some))
            return "reset", lambda t: t.store.reset_unblinded_tokens(list(some))
        if k == 7:
            self.activities += 1
            n = self.activities

            def start(t):
                m = t.store.start_lease_maintenance()
                t.maintenance[n] = m

            return "start-maintenance", start
        if k in (8, 9) and self.activities:
            n = 1 + ch.pick(self.activities)
            sizes = [ch.pick(5000) for _ in range(ch.pick(4))]

            def observe(t):
                if n in t.maintenance:
                    t.maintenance[n].observe(sizes)

            def finish(t):
                if n in t.maintenance:
                    t.maintenance.pop(n).finish()

            return ("observe", observe) if k == 8 else ("finish", finish)
        if k == 10:
            return "list", lambda t: sorted((x.to_json() for x in t.store.list()))
        if k == 11:
            return "count", lambda t: (t.store.count_unblinded_tokens(), t.store.count_random_tokens())
        if k == 12:
            return "activity", lambda t: repr(t.store.get_latest_lease_maintenance_activity())
        numbers = [base64.urlsafe_b64encode(b"import %03d" % i + sim.nonce(22)).decode("ascii") for i in range(3)]
        fail = ch.flag(0.3)

        def fill(t):
            async def f(cursor):
                for n in numbers:
                    cursor.execute("INSERT INTO [vouchers] ([number], [created], [expected-tokens]) VALUES (?, ?, ?)", (n, "2020-01-01 00:00:00+00:00", 3))
                if fail:
                    raise ValueError("cannot be imported")

            got = []
            d = Deferred.fromCoroutine(t.store.call_if_empty(f))
            d.addBoth(got.append)
            if isinstance(got[0], Failure):
                got[0].raiseException()
            return got[0]

        return "import", fill

    def call(self, twin, f):
        """('ok', result) or ('failed', exception) or ('crash',)"""
        try:
            return "ok", f(twin)
        except SimCrash:
            return "crash", None
        except Exception as e:
            return "failed", e

    # -- one operation -----------------------------------------------------------------
    def step(self):
        sim, ch = self.sim, self.sim.ch
        kind, f = self.choose()
        before = self.b.contents()
        rounds = 1 + ch.pick(3)
        for _ in range(rounds):
            interrupt = ch.flag(0.75)
            self.b.db.points = 0
            self.b.db.only = None
            if interrupt:
                self.b.db.only = (1 + ch.pick(self.points.get(kind, 6) + 1), ch.of(ACTIONS))
            outcome, result = self.call(self.b, f)
            interrupted = self.b.db.only is not None and self.b.db.points >= self.b.db.only[0]
            if not interrupted:
                self.points[kind] = max(self.points.get(kind, 0), self.b.db.points)
            self.b.db.only = None
            sim.log("op", kind, outcome, interrupted)
            sim.count("op-" + kind)
            sim.state(kind, outcome, interrupted, self.b.db.points)
            if outcome == "crash":
                after = self.after(f)
                self.b.open()
                got = self.b.contents()
                sim.ensure(got in (before, after), "C25", "between",
                           lambda: f"after a crash during {kind} the database is neither as before nor as after it: {self.difference(before, got)}")
                if got == before:
                    self.a.become(self.b)
                    continue
                # The undisturbed one has got to start over, too.
                self.a.become(self.b)
                return
            if outcome == "failed":
                sim.ensure(not self.b.pending(), "C25", "open-transaction", f"{kind} failed and left a transaction open")
                got = self.b.contents()
                sim.ensure(got == before, "C25", "effect-of-failure", lambda: f"{kind} failed with {result!r} but has an effect: {self.difference(before, got)}")
                if not interrupted:
                    # So it fails for the other one.
                    self.agree(kind, outcome, result, f)
                    return
                if kind in ("start-maintenance", "finish", "observe"):
                    # What these objects think now does not matter.
                    self.a.maintenance.clear()
                    self.b.maintenance.clear()
                    return
                continue
            sim.ensure(not self.b.pending(), "C25", "open-transaction", f"{kind} left a transaction open")
            self.agree(kind, outcome, result, f)
            return

    def after(self, f):
        self.call(self.a, f)
        return self.a.contents()

    def agree(self, kind, outcome, result, f):
        sim = self.sim
        other, expected = self.call(self.a, f)
        if outcome == "failed":
            result, expected = type(result).__name__, type(expected).__name__
        sim.ensure((outcome, result) == (other, expected), "C25", "other-result",
                   lambda: f"{kind} results in {outcome} {str(result)[:100]} after failures, without any in {other} {str(expected)[:100]}")
        x, y = self.b.contents(), self.a.contents()
        sim.ensure(x == y, "C25", "other-result", lambda: f"{kind} after failures leads to another state: {self.difference(y, x)}")

    def difference(self, x, y):
        out = []
        for t in sorted(set(x) | set(y)):
            p, q = x.get(t, []), y.get(t, [])
            if p != q:
                out.append((t, "lost", [r for r in p if r not in q][:2], "new", [r for r in q if r not in p][:2]))
        return str(out)[:400]

    def run(self):
        for _ in range(10 + self.sim.ch.pick(50)):
            self.step()
            if self.sim.ch.flag(0.3):
                self.sim.run_for(1.0)


def run(sim):
    StoreWorld(sim).run()


SPECS = [
    WorldSpec(
        "store", run, ["C25"], quick=500, thorough=200000,
        real=["model.VoucherStore and LeaseMaintenance", "replicate.with_replication", "sqlite3 (real engine, real files)"],
        stubs=["clock", "process crashes (copied database files and journals)", "SQLite failures (raised around the real calls, half way through batches)"],
        assumptions=["SQLite's own crash recovery works"],
    ),
]
