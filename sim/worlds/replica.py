"""
Replication onto a simulated grid, and recovery from it, with crashes,
database faults and every kind of grid trouble.
"""

from __future__ import annotations

import base64
import inspect
import sqlite3
from functools import partial

from tahoe_capabilities import danger_real_capability_string
from twisted.internet.defer import Deferred

from _zkapauthorizer._plugin import _CostBasedPolicy, open_store
from _zkapauthorizer.model import NotEmpty, NotEnoughTokens, RandomToken, UnblindedToken, VoucherStore
from _zkapauthorizer.recover import (
    RecoveryStages,
    StatefulRecoverer,
    get_tahoe_lafs_downloader,
    make_canned_downloader,
)
from _zkapauthorizer.replicate import get_tahoe_lafs_direntry_replica, replication_service, with_replication
from _zkapauthorizer.tahoe import ShareEncoding

from ..core import Process, SimCrash, Swarm, hash_of
from ..db import SimDB, dump_conn, rows
from ..grid import GRID_KINDS, Gateway, Grid, client, make_basedir, node_config
from . import WorldSpec

KINDS = ["db-crash", "db-error", "mangled", "busy"] + GRID_KINDS

# How soon a change must be recoverable when nothing is wrong.
PROMPT = 900.0
THRESHOLD = 570000

def KW(clock):
    if "reactor" in inspect.signature(replication_service).parameters:
        return {"reactor": clock}
    return {}


ALSO = {
    "unrecoverable": "C19 C21",
    "not-a-committed-state": "C19",
    "went-back": "C19",
    "forgot-history": "C19 C20",
    "not-replicated": "C19",
    "damaged": "C19",
    "cannot-recover": "C19 C20",
}


def b64(b):
    return base64.b64encode(b).decode("ascii")


class Node:
    """What one incarnation of the node consists of."""


class Replica:
    def __init__(self, sim):
        self.sim = sim
        sim.also = ALSO
        ch = sim.ch
        self.swarm = Swarm(sim, KINDS)
        self.grid = Grid(sim)
        self.grid.on_change.append(self.grid_changed)
        self.policy = (ch.of([1, 1000, 1000000]), ch.of([2, 1, 10]))
        self.generation = 0
        self.bulk = ch.flag(0.08)
        self.vouchers = 0
        self.recovering = None
        self.node = None
        self.fresh()

    def fresh(self):
        """A new machine with an empty disk."""
        self.generation += 1
        n = self.generation
        self.db = SimDB(self.sim, f"node{n}", self.swarm)
        self.db.on_commit.append(self.after_commit)
        self.basedir = make_basedir(self.sim, f"base{n}")
        self.dircap = None
        self.reset_history()
        self.held = []
        self.leases = []
        self.memo = {}

    def reset_history(self):
        # Committed states, in order; what the event log looked like
        self.history = []
        self.last_fp = None
        self.by_fp = {}
        self.at_seq = []
        self.low = 0
        self.gone = 0
        self.snapshot_seen = False
        self.important_at = 0
        self.prev_value = None

    # -- the durable state -------------------------------------------------
    def reader(self):
        self.db.dump()
        return self.db._reader

    def event_rows(self):
        r = self.reader()
        if r is None:
            return (0, 0, 0)
        try:
            lo, hi, n = r.execute("SELECT min([sequence-number]), max([sequence-number]), count(1) FROM [event-stream]").fetchone()
        except sqlite3.OperationalError:
            return (0, 0, 0)
        return (lo or 0, hi or 0, n)

    def sequence(self):
        row = self.reader().execute("SELECT seq FROM sqlite_sequence WHERE name = 'event-stream'").fetchone()
        return row[0] if row else 0

    def after_commit(self):
        if self.recovering is not None:
            self.recovering.committed()
        self.note_commit()

    def note_commit(self):
        sim = self.sim
        d = self.db.dump()
        fp = hash_of(d)
        if fp != self.last_fp:
            self.last_fp = fp
            i = len(self.history)
            self.history.append(d)
            self.by_fp.setdefault(fp, []).append(i)
            value = {r["number"] for r in rows(d, "vouchers")}
            if self.prev_value is not None and value != self.prev_value:
                self.important_at = i
            self.prev_value = value
            sim.state(len(d.get("vouchers", ())), len(d.get("tokens", ())), len(d.get("unblinded-tokens", ())))
        if self.dircap is None:
            return
        try:
            seq = self.sequence()
        except sqlite3.OperationalError:
            return
        if not self.at_seq or self.at_seq[-1][0] != seq:
            self.at_seq.append((seq, len(self.history) - 1))
        lo, hi, n = self.event_rows()
        upto = (lo if n else seq + 1) - 1
        if upto > self.gone:
            self.gone = upto
            self.forgotten(upto)

    def forgotten(self, upto):
        """Local history up to and including this number is gone."""
        sim = self.sim
        need = max([i for s, i in self.at_seq if s <= upto], default=None)
        if need is None:
            return
        if not self.snapshot_seen:
            # The snapshot that is yet to come has it all.
            return
        sim.count("pruned-local-history")
        got = self.probe("pruned")
        ok = got is not None and max(self.by_fp.get(hash_of(got), [-1])) >= need
        if not ok and sim.target in ("C19", "C20", "C21"):
            sim.violation("C21", "forgot-history",
                          f"local history up to change {upto} was discarded but the replica does not have it")

    # -- the replica ---------------------------------------------------------
    def grid_changed(self, what, name):
        if self.dircap is not None:
            self.probe(f"{what} {name}")

    def probe(self, why):
        """
        Recover from the replica as it is right now into an empty database.
        """
        sim = self.sim
        children = self.grid.children(self.dircap)
        if "snapshot" not in children:
            sim.ensure(not self.snapshot_seen, "C20", "unrecoverable", f"after {why}: the replica has no snapshot any more")
            return None
        self.snapshot_seen = True
        key = tuple(sorted(children.items()))
        if key in self.memo:
            return self.memo[key]
        sim.count("probes")
        got, stage, error = recover_now(self.grid.contents(self.dircap))
        sim.ensure(got is not None, "C20", "unrecoverable",
                   lambda: f"after {why}: recovery from {sorted(children)} failed: {stage} {error}")
        if got is None:
            return None
        state, available = got
        self.memo[key] = state
        fp = hash_of(state)
        where = self.by_fp.get(fp)
        if where is None:
            sim.violation("C20", "not-a-committed-state",
                          f"after {why}: the replica {sorted(children)} recovers to a state that never was: "
                          + self.difference(state, self.history[-1]))
            return state
        at = [i for i in where if i >= self.low]
        if not at:
            sim.violation("C20", "went-back",
                          f"after {why}: the replica recovers to committed state {max(where)} but recovered to {self.low} before")
            return state
        self.low = at[0]
        spendable = {g["rowid"] for g in rows(state, "redemption-groups") if g["spendable"]}
        want = sum(1 for t in rows(state, "unblinded-tokens") if t["redemption-group"] in spendable)
        sim.ensure(available == want, "C19", "not-usable",
                   f"after {why}: {want} recovered tokens should be spendable, {available} are")
        sim.log("recoverable", self.low, len(self.history))
        return state

    def difference(self, a, b):
        out = []
        for t in sorted(set(a) | set(b)):
            x, y = a.get(t, []), b.get(t, [])
            if x != y:
                sx, sy = set(map(repr, x)), set(map(repr, y))
                out.append(f"[{t}] {len(x)} vs {len(y)} rows; extra {sorted(sx - sy)[:2]} missing {sorted(sy - sx)[:2]}")
        return "; ".join(out)[:700]

    # -- the node --------------------------------------------------------------
    @property
    def up(self):
        return self.node is not None and self.node.proc.alive

    def start_process(self):
        node = Node()
        node.proc = Process(self.sim, f"node{self.generation}")
        node.gateway = Gateway(self.grid, node.proc, self.swarm)
        node.gateway.outage = self.outage if self.node is not None else None
        node.config = node_config(self.basedir)
        node.tahoe = client(node.gateway, node.config)
        node.service = None
        self.node = node
        return node

    outage = None

    def boot(self):
        sim = self.sim
        sim.log("boot", self.generation)
        node = self.start_process()
        self.held = []
        self.leases = []
        try:
            conn = with_replication(self.db.connect(node.proc), self.dircap is not None)
            node.conn = conn
            node.store = open_store(node.proc.now, conn, node.config)
            self.note_commit()
            if self.dircap is not None:
                self.replicate(node)
        except SimCrash:
            pass
        except Exception as e:
            if not getattr(e, "injected", False):
                raise
            sim.log("boot-failed", str(e))
            node.proc.kill("boot-failed")
        return self.up

    def replicate(self, node):
        size, factor = self.policy
        node.service = replication_service(
            node.conn,
            get_tahoe_lafs_direntry_replica(node.tahoe, self.dircap),
            _CostBasedPolicy(size, ShareEncoding(3, 10), factor),
            **KW(node.proc.clock),
        )
        node.service.startService()

    def setup(self):
        """Replication is set up while the node runs."""
        self.dircap = self.grid.mkdir()
        base = self.sim.ch.of([0, 0, 6, 96, 996, 99996])
        self.sim.log("setup", base)
        if base:
            # As if so many changes had been made, and were all in the snapshot, already.
            self.db.enabled = False
            real = self.db.current.real
            n = real.execute("UPDATE sqlite_sequence SET seq = ? WHERE name = 'event-stream'", (base,)).rowcount
            if not n:
                real.execute("INSERT INTO sqlite_sequence (name, seq) VALUES ('event-stream', ?)", (base,))
            real.commit()
            self.db.enabled = True
        self.note_commit()
        try:
            self.replicate(self.node)
        except SimCrash:
            pass
        except Exception as e:
            if not getattr(e, "injected", False):
                raise
            self.node.proc.kill("boot-failed")

    def stop(self):
        """Shut down in an orderly way."""
        if self.up and self.node.service is not None:
            self.sim.log("stop-service")
            try:
                self.node.service.stopService()
            except SimCrash:
                pass
        if self.up:
            self.node.proc.kill("restart")

    # -- operations ---------------------------------------------------------------
    def attempt(self, what, f):
        """Do something to the store: True if it worked."""
        sim = self.sim
        if not self.up:
            return False
        try:
            f()
        except SimCrash:
            return False
        except NotEnoughTokens:
            return False
        except sqlite3.OperationalError as e:
            if not getattr(e, "injected", False):
                if self.recovering is None:
                    raise
                sim.log("op-refused", what)
                return False
            sim.log("op-failed", what)
            return False
        sim.log("op", what)
        sim.count("ops")
        return True

    def tokens(self, n, cls=RandomToken):
        if n > 50:
            seed = self.sim.nonce(16)
            return [cls(base64.b64encode(seed + i.to_bytes(80, "big"))) for i in range(n)]
        return [cls(base64.b64encode(self.sim.nonce(96))) for _ in range(n)]

    def pending(self):
        return [r for r in rows(self.db.dump(), "vouchers") if r["state"] == "pending"]

    def add_voucher(self, n=None):
        ch = self.sim.ch
        self.vouchers += 1
        v = base64.urlsafe_b64encode(b"voucher %03d" % self.vouchers + b"v" * 21)
        n = 1 + ch.pick(6) if n is None else n
        return self.attempt("add", lambda: self.node.store.add(v, n * 2, 0, lambda: self.tokens(n)))

    def operate(self):
        sim, ch = self.sim, self.sim.ch
        what = ch.weighted([5, 8, 4, 4, 2, 2, 3, 1, 3, 1, 3])
        store = self.node.store
        if what == 0:
            self.add_voucher()
        elif what == 1:
            some = self.pending()
            if not some:
                return self.add_voucher()
            r = ch.of(some)
            n = 1 + ch.pick(8)
            self.attempt("insert", lambda: store.insert_unblinded_tokens_for_voucher(
                r["number"].encode("ascii"), ch.of(["key1", "key2"]), self.tokens(n, UnblindedToken), ch.flag(0.4), not ch.flag(0.15)))
        elif what == 2:
            n = 1 + ch.pick(4)
            got = []
            if self.attempt("get", lambda: got.extend(store.get_unblinded_tokens(n))):
                self.held.append(got)
        elif what in (3, 4, 5):
            if not self.held:
                return
            got = self.held.pop(ch.pick(len(self.held)))
            if what == 3:
                ok = self.attempt("discard", lambda: store.discard_unblinded_tokens(got))
            elif what == 4:
                reason = ch.of(["invalid", "said \u2603 'no'; --"])
                ok = self.attempt("invalidate", lambda: store.invalidate_unblinded_tokens(reason, got))
            else:
                ok = self.attempt("reset", lambda: store.reset_unblinded_tokens(got))
            if not ok:
                self.held.append(got)
        elif what == 6:
            some = self.pending()
            if some:
                r = ch.of(some)
                n = 1 + ch.pick(3)
                self.attempt("more", lambda: store.add(r["number"].encode("ascii"), 7, r["counter"], lambda: self.tokens(n)))
        elif what == 7:
            some = self.pending()
            if some:
                r = ch.of(some)
                self.attempt("double-spend", lambda: store.mark_voucher_double_spent(r["number"].encode("ascii")))
        elif what == 8:
            self.maintain(store)
        elif what == 9:
            # Enough to exceed the size at which unimportant changes are uploaded
            some = self.pending()
            if some and self.bulk:
                self.bulk = False
                r = ch.of(some)
                sim.count("bulk")
                self.attempt("bulk", lambda: store.insert_unblinded_tokens_for_voucher(
                    r["number"].encode("ascii"), "key1", self.tokens(6500, UnblindedToken), ch.flag(0.4), True))
        elif what == 10:
            self.attempt("read", lambda: (store.list(), store.count_unblinded_tokens(), store.get_latest_lease_maintenance_activity()))

    def maintain(self, store):
        ch = self.sim.ch
        if not self.leases or ch.flag(0.3):
            self.attempt("lm-start", lambda: self.leases.append(store.start_lease_maintenance()))
            return
        m = ch.of(self.leases)
        if ch.flag(0.6):
            self.attempt("lm-observe", lambda: m.observe([ch.pick(5) * 1000000]))
        elif self.attempt("lm-finish", lambda: m.finish()):
            self.leases.remove(m)

    # -- the run --------------------------------------------------------------------
    def step(self):
        sim, ch = self.sim, self.sim.ch
        what = ch.weighted([10, 40, 4, 3, 2, 5, 5 if sim.target != "C22" else 12])
        if what == 0:
            sim.run_for(ch.of([1.0, 0.05, 10.0, 120.0, 4000.0]))
        elif what == 1:
            if self.up:
                for _ in range(1 + ch.pick(4)):
                    self.operate()
                    if not self.up:
                        break
        elif what == 2:
            if self.up and sim.faults_on and ch.flag(0.7):
                self.node.proc.kill("crash")
        elif what == 3:
            self.stop()
        elif what == 4:
            self.outage = ch.of([None, "refused", "unhappy", "error", "lost"])
            if self.up:
                self.node.gateway.outage = self.outage
            sim.log("outage", self.outage)
            if self.outage:
                sim.count("fault:outage-" + self.outage)
        elif what == 5:
            jump = ch.of([5.0, 3600.0, 86400.0])
            sim.log("clock-jump", jump)
            sim.count("fault:clock-jump")
            sim.clock.jump(jump)
        elif what == 6:
            if self.dircap is not None and "snapshot" in self.grid.children(self.dircap) and self.generation < 4:
                self.rebuild()
        if not self.up:
            if ch.weighted([1, 2]) == 0:
                self.boot()
        elif self.dircap is None and ch.flag(0.3):
            self.setup()
        sim.run_for(ch.delay(1.0))

    def rebuild(self):
        """The machine is lost; recover onto another one from the replica."""
        sim = self.sim
        if self.up:
            self.node.proc.kill("machine-lost")
        sim.run_for(1.0)
        want = self.probe("the machine was lost")
        source = self.dircap
        if want is None:
            return
        self.outage = None
        r = Recovery(self, source, want)
        ok = r.run()
        self.recovering = None
        if ok:
            sim.count("rebuilt")
        else:
            # Not this time.  Try again with another machine, in better conditions.
            was, sim.faults_on = sim.faults_on, False
            ok = Recovery(self, source, want).run()
            self.recovering = None
            sim.faults_on = was
            sim.ensure(ok, "C22", "cannot-recover", "recovery onto an empty machine fails though nothing is wrong")

    def run(self):
        sim, ch = self.sim, self.sim.ch
        if ch.flag(0.7):
            self.dircap = self.grid.mkdir()
        self.boot()
        for _ in range(6 + ch.pick(26)):
            self.step()
        sim.log("healthy")
        sim.faults_on = False
        self.outage = None
        if self.up:
            self.node.gateway.outage = None
        elif not self.boot():
            sim.violation(sim.target, "cannot-start", "the node cannot start though nothing is wrong any more")
            return
        if self.dircap is None:
            self.setup()
        # Whatever was stuck gets unstuck.
        sim.run_for(60000.0)
        self.check_uploaded("a long time without faults")
        self.check_prompt()
        if ch.flag(0.4):
            self.rebuild()
            self.check_tokens()
            # Life goes on.
            if self.dircap is None:
                self.setup()
            for _ in range(ch.pick(6)):
                self.operate()
                sim.run_for(ch.of([1.0, 0.0, 100.0]))
            self.check_prompt()

    def check_prompt(self):
        sim, ch = self.sim, self.sim.ch
        for _ in range(ch.pick(3)):
            self.operate()
        if not self.add_voucher():
            sim.violation(sim.target, "cannot-use", "the node cannot be used though nothing is wrong any more")
        sim.run_for(PROMPT)
        self.check_uploaded(f"{PROMPT:.0f} s without faults")
        self.check_equal()

    def check_uploaded(self, when):
        sim = self.sim
        self.probe(when)
        sim.ensure(self.snapshot_seen, "C21", "not-replicated", f"there is no snapshot after {when}")
        sim.ensure(self.low >= self.important_at, "C21", "not-replicated",
                   lambda: f"after {when} the replica recovers to state {self.low} of {len(self.history) - 1}, "
                   f"a voucher was added in state {self.important_at}")
        got = self.reader().execute("SELECT count(1), sum(length([statement])), max([important]) FROM [event-stream]").fetchone()
        n, size, important = got
        sim.ensure(not important, "C21", "not-replicated", f"after {when} {n} changes, some of them important, are not uploaded")
        sim.ensure((size or 0) < THRESHOLD, "C21", "not-replicated", f"after {when} {n} changes, {size} bytes, are not uploaded")

    def check_equal(self):
        """There is nothing left to upload."""
        sim = self.sim
        n = self.event_rows()[2]
        sim.ensure(n == 0, "C21", "not-replicated", f"{n} changes are still not uploaded")
        got = self.probe("the end")
        if got is None:
            sim.violation("C19", "unrecoverable", "there is nothing to recover from at the end")
            return
        now = self.db.dump()
        sim.ensure(got == now, "C19", "differs", lambda: "the replica differs from the node: " + self.difference(got, now))
        sim.count("exact-replicas")

    def check_tokens(self):
        """All that is spendable can be had on the rebuilt machine."""
        sim = self.sim
        d = self.db.dump()
        groups = {g["rowid"] for g in rows(d, "redemption-groups") if g["spendable"]}
        bad = {t["token"] for t in rows(d, "invalid-unblinded-tokens")}
        want = {t["token"] for t in rows(d, "unblinded-tokens") if t["redemption-group"] in groups and t["token"] not in bad}
        if not want:
            return
        got = []
        if self.attempt("all", lambda: got.extend(self.node.store.get_unblinded_tokens(len(want)))):
            texts = {t.unblinded_token.decode("ascii") for t in got}
            sim.ensure(texts == want, "C19", "not-usable", "other tokens than the recovered ones are handed out")
        else:
            sim.violation("C19", "not-usable", f"{len(want)} recovered tokens cannot be had")


def recover_now(contents):
    """
    Recover from these files with the real code.  ((state, available), stage, error)
    """
    snapshot = contents["snapshot"]
    events = [v for k, v in contents.items() if k.startswith("event-stream-")]
    real = sqlite3.connect(":memory:", isolation_level="IMMEDIATE")
    conn = with_replication(real, False)
    from datetime import datetime, timezone

    now = lambda: datetime.fromtimestamp(1e9, timezone.utc)  # noqa: E731
    store = VoucherStore.from_connection(1000, now, conn)
    recoverer = StatefulRecoverer()
    d = Deferred.fromCoroutine(store.call_if_empty(partial(recoverer.recover, make_canned_downloader(snapshot, events))))
    failures = []
    d.addErrback(failures.append)
    try:
        stage = recoverer.state().stage
        if failures or stage != RecoveryStages.succeeded:
            return None, stage.name, failures[0].getErrorMessage() if failures else recoverer.state().failure_reason
        try:
            available = store.count_unblinded_tokens()
        except sqlite3.OperationalError as e:
            return None, "unusable", str(e)
        return (dump_conn(real), available), stage.name, None
    finally:
        real.close()


class Recovery:
    """One attempt at recovering onto an empty machine."""

    def __init__(self, world, source, want):
        self.world = world
        self.sim = world.sim
        self.source = source
        self.want = want
        self.ready = False
        self.done = []
        self.stages = []
        self.before = None

    def expected(self):
        return [self.before, self.want]

    def committed(self):
        """Something was committed while recovery was going on."""
        if not self.ready:
            return
        w, sim = self.world, self.sim
        now = w.db.dump()
        if self.same(now, self.before) or self.same(now, self.want):
            return
        sim.violation("C22", "damaged", f"recovery ({self.stages[-1:]}) left behind: " + w.difference(now, self.before))

    def same(self, now, base):
        """Is it this state, give or take the operations done meanwhile?"""
        if now == base:
            return True
        if not self.world_ops:
            return False
        a, b = dict(now), dict(base)
        extra = {"vouchers": "number", "tokens": "voucher"}
        for table, col in extra.items():
            a[table] = [r for r in a.get(table, []) if dict(r).get(col) not in self.world_ops]
            b[table] = [r for r in b.get(table, []) if dict(r).get(col) not in self.world_ops]
        a.pop("lease-maintenance-spending", None)
        b.pop("lease-maintenance-spending", None)
        return a == b

    def run(self):
        w, sim, ch = self.world, self.sim, self.sim.ch
        self.world_ops = {}
        w.fresh()
        w.recovering = self
        sim.log("recover")
        sim.count("recoveries")
        nonempty = sim.faults_on and ch.flag(0.1)
        if ch.flag(0.25):
            # This machine has a replica of its own already.
            sim.count("recovering-while-replicating")
            w.dircap = w.grid.mkdir()
        if not w.boot():
            return self.end(None)
        if nonempty:
            w.add_voucher()
        if not w.up:
            return self.end(None)
        if ch.flag(0.3):
            # It has been used, though not for anything of value.
            for _ in range(ch.pick(40)):
                w.maintain(w.node.store)
                if not w.up:
                    return self.end(None)
            sim.run_for(ch.of([0.0, 10.0, 1000.0]))
            if not w.up:
                return self.end(None)
        w.held = []
        w.leases = []
        store, node = w.node.store, w.node
        self.before = w.db.dump()
        self.ready = True
        empty = not self.before.get("vouchers")
        mangled = self.mangle(node)
        recoverer = StatefulRecoverer(listeners=[lambda s: self.stages.append(s.stage)])
        downloader = get_tahoe_lafs_downloader(node.tahoe)(self.source.reader)
        d = Deferred.fromCoroutine(store.call_if_empty(partial(recoverer.recover, downloader)))
        outcome = []
        d.addCallbacks(lambda r: outcome.append((True, None)), lambda f: outcome.append((False, f.value)))
        node.proc.keep.append(d)
        limit = 200000.0
        busy = ch.pick(2)
        end = sim.seconds() + limit
        while not outcome and node.proc.alive and sim.seconds() < end:
            k = ch.weighted([8, 8 if busy else 0, 1])
            if k == 0:
                if not sim.clock.step():
                    break
            elif k == 1:
                sim.log("busy")
                sim.count("fault:busy")
                for _ in range(1 + ch.pick(3)):
                    if node.proc.alive:
                        self.meddle()
            else:
                sim.run_for(1.0)
                if sim.faults_on and sim.fault("crash", 0.02):
                    node.proc.kill("crash")
        if not node.proc.alive:
            sim.log("recovery-crashed")
            return self.end(None)
        if not outcome:
            sim.violation("C22", "hangs", f"recovery has not ended after {limit:.0f} s: {self.stages[-1:]}")
            return False
        worked, error = outcome[0]
        stage = self.stages[-1] if self.stages else None
        sim.log("recovered", worked, stage.name if stage else None)
        sim.count("recovery-" + (stage.name if stage else "refused") + ("" if worked else "-error"))
        if not empty:
            sim.ensure(isinstance(error, NotEmpty) or getattr(error, "injected", False), "C22", "not-refused",
                       f"recovery into a node with a voucher: {worked} {error!r}")
            return self.end(False)
        if worked and stage is RecoveryStages.succeeded:
            return self.end(True)
        if not sim.faults_on and not mangled:
            sim.violation("C22", "cannot-recover", f"recovery failed without a reason: {stage} {recoverer.state().failure_reason} {error!r}")
        return self.end(False)

    def mangle(self, node):
        """Something is wrong with the data itself."""
        sim, w = self.sim, self.world
        if not sim.fault("mangled", w.swarm["mangled"]):
            return False
        import cbor2

        ch = sim.ch
        names = sorted(self.world.grid.children(self.source))
        name = ch.of(names)
        children = dict(w.grid.children(self.source))
        data = w.grid.objects[children[name]]
        how = ch.pick(7)
        if how == 0:
            new = None
        elif how == 1:
            new = data[: ch.pick(len(data))]
        elif how == 2:
            new = b"\x00\xff garbage"
        elif how == 3:
            new = cbor2.dumps({"version": 99, "statements": [], "events": []})
        else:
            obj = cbor2.loads(data)
            bad = ch.of(["INSERT INTO [nowhere] VALUES (1)", "not sql at all", 7, "INSERT INTO [tokens] ([voucher], [counter], [text]) VALUES ('nobody', 0, 'x')"])
            if "statements" in obj:
                obj["statements"].insert(ch.pick(len(obj["statements"]) + 1), bad)
            else:
                events = [list(e) for e in obj["events"]]
                seq = events[-1][0] + (1 if how == 4 else 0)
                events.insert(ch.pick(len(events) + 1), [seq, bad if isinstance(bad, str) else "SELEKT", [], False])
                obj["events"] = events
            new = cbor2.dumps(obj)
        sim.log("mangled", name, how)
        fake = w.grid.mkdir()
        target = w.grid.children(fake)
        target.update(children)
        if new is None:
            del target[name]
        else:
            target[name] = w.grid.put(new)
        self.source = fake
        self.ready = True
        got, stage, error = recover_now_safely(w.grid.contents(fake))
        if got is not None:
            # Still a replica, of something else.
            self.want = got[0]
        else:
            self.want = self.before
        return True

    def meddle(self):
        """Use the node while it recovers."""
        w, sim, ch = self.world, self.sim, self.sim.ch
        store = w.node.store
        what = ch.pick(4)
        if what == 0:
            w.attempt("read", lambda: (store.list(), store.count_unblinded_tokens()))
        elif what == 1:
            w.vouchers += 1
            v = base64.urlsafe_b64encode(b"voucher %03d" % w.vouchers + b"v" * 21)
            self.world_ops[v.decode("ascii")] = False
            if w.attempt("add", lambda: store.add(v, 2, 0, lambda: w.tokens(2))):
                self.world_ops[v.decode("ascii")] = True
        elif what == 2:
            self.world_ops[None] = False
            w.attempt("lm", lambda: store.start_lease_maintenance())
        elif what == 3:
            w.attempt("get", lambda: store.get_unblinded_tokens(1))

    def end(self, success):
        """
        :param success: True or False as reported; None if that is not known.
        """
        w, sim = self.world, self.sim
        if not self.ready:
            if w.up:
                w.node.proc.kill("restart")
            return False
        now = w.db.dump()
        bases = {True: [self.want], False: [self.before], None: [self.before, self.want]}[success]
        sim.ensure(any(self.same(now, b) for b in bases), "C22", "damaged",
                   lambda: f"recovery ended with {success}, {[s.name for s in self.stages][-1:]}, the store differs: "
                   + w.difference(now, bases[0]))
        self.check_ops(now)
        if success is None and not w.up:
            if not w.boot():
                return False
        # It can be used in any case.
        was, sim.faults_on = sim.faults_on, False
        try:
            ok = w.attempt("list", lambda: w.node.store.list()) and w.attempt("count", lambda: w.node.store.count_unblinded_tokens())
            sim.ensure(ok, "C22", "unusable", "the store cannot be used after recovery ended")
            if ok:
                ops = self.world_ops
                if not success and not (success is None and w.db.dump() == self.want):
                    self.ready = False
                    ok = w.add_voucher()
                    sim.ensure(ok, "C22", "unusable", "the store cannot be used after recovery failed")
                self.world_ops = ops
                d = w.db.dump()
                if ok:
                    w.node.proc.kill("restart")
                    ok = w.boot()
                    sim.ensure(ok and w.db.dump() == d, "C22", "not-durable", "the store is different after a restart")
        finally:
            sim.faults_on = was
        self.check_ops(w.db.dump())
        return success is True

    def check_ops(self, now):
        have = {r["number"] for r in rows(now, "vouchers")}
        for v, worked in self.world_ops.items():
            if worked:
                self.sim.ensure(v in have, "C22", "lost-concurrent", f"voucher {v}, accepted during recovery, is gone")


def recover_now_safely(contents):
    try:
        return recover_now(contents)
    except KeyError:
        return None, "missing", None


def run(sim):
    Replica(sim).run()


SPECS = [
    WorldSpec(
        "replica", run, ["C19", "C20", "C21", "C22"], quick=320, thorough=60000,
        real=["replicate._ReplicationService, get_tahoe_lafs_direntry_replica, with_replication", "recover (StatefulRecoverer, downloader, replay)",
              "tahoe.Tahoe (HTTP client)", "model.VoucherStore", "sqlite3 (real engine, real files)", "_plugin._CostBasedPolicy", "treq"],
        stubs=["Tahoe-LAFS gateway and grid (own model speaking the same HTTP API)", "reactor clock", "process crashes (abandoned object graph, copied database files)"],
        assumptions=["the gateway applies the changes of one directory in the order it receives them",
                     "an object stored on the grid stays retrievable", "SQLite's own crash recovery works"],
    ),
]
