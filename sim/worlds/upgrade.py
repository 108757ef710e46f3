"""
Databases of every earlier version, opened by the current one, by way of
crashes and errors at any point, and then used.
"""

from __future__ import annotations

import base64
import os
import sqlite3
import time
from datetime import datetime, timezone

import cbor2
from functools import partial
from twisted.internet.defer import Deferred
from twisted.python.failure import Failure

from _zkapauthorizer.model import DoubleSpend, NotEnoughTokens, Pending, RandomToken, Redeemed, UnblindedToken, VoucherStore
from _zkapauthorizer.recover import RecoveryStages, StatefulRecoverer, make_canned_downloader
from _zkapauthorizer.replicate import with_replication

from .. import oldschema
from ..core import Process, SimCrash, Swarm
from ..db import SimDB, dump_path
from . import WorldSpec

KINDS = ["db-crash", "db-error"]
NEWEST = max(oldschema.STEPS) + 1
ZONES = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "HST10"]
KEYS = {
    "vouchers": "number", "tokens": "text", "unblinded-tokens": "token", "invalid-unblinded-tokens": "token", "lease-maintenance-spending": "id",
    "redemption-groups": "rowid", "event-stream": "sequence-number",
}
TIMES = {"created", "started", "finished"}


def b64(b):
    return base64.urlsafe_b64encode(b).decode("ascii")


def instant(text, local):
    """A time in the database as seconds since the epoch, in whole seconds."""
    t = datetime.fromisoformat(text)
    if t.tzinfo is None:
        if not local:
            raise ValueError(f"{text} has no time zone")
        return int(time.mktime(t.replace(microsecond=0).timetuple()))
    return int(t.replace(microsecond=0).timestamp())


class UpgradeWorld:
    def __init__(self, sim):
        self.sim = sim
        self.swarm = Swarm(sim, KINDS)
        self.db = SimDB(sim, "db", self.swarm)
        ch = sim.ch
        zone = ch.of(ZONES)
        old = os.environ.get("TZ")

        def restore():
            os.environ.pop("TZ", None) if old is None else os.environ.update(TZ=old)
            time.tzset()

        sim.at_close.append(restore)
        os.environ["TZ"] = zone
        time.tzset()
        self.version = ch.pick(NEWEST + 1)
        self.boots = 0
        self.created = {}
        self.write()
        sim.log("old", self.version, zone, {k: len(v) for k, v in self.before.items()})
        sim.state(self.version, zone, self.shape)

    # -- an older database ---------------------------------------------------
    def when(self, i):
        """What this version wrote for a time, in the middle of the year or of the winter."""
        t = datetime(2020 + i % 3, self.sim.ch.of([1, 7]), 1 + i % 27, 3 + i % 17, i % 60, i % 59, self.sim.ch.of([0, 123456]))
        if self.version >= 8:
            return f"{t.replace(microsecond=0)}+00:00" if self.sim.ch.flag(0.5) else f"{t}+00:00"
        return str(t)

    def write(self):
        sim, ch, v = self.sim, self.sim.ch, self.version
        self.shape = None
        self.before = {}
        self.totals = {}
        if v == 0 and ch.flag(0.5):
            return
        conn = sqlite3.connect(self.db.path)
        oldschema.create(conn, v)
        if v > 0:
            self.fill(conn)
        conn.commit()
        conn.row_factory = sqlite3.Row
        for t in KEYS:
            try:
                self.before[t] = [dict(r) for r in conn.execute(f"SELECT * FROM [{t}]")]
            except sqlite3.OperationalError:
                pass
        conn.close()

    def fill(self, conn):
        sim, ch, v = self.sim, self.sim.ch, self.version
        # In earlier versions the number of tokens is all one knows.
        states = []
        groups = 0
        self.spendable = []
        self.pending = {}
        self.unspendable = []
        n = 0
        for i in range(ch.of([0, 1, 1, 2, 5])):
            number = b64(b"voucher %02d" % i + sim.nonce(22))
            state = ch.of(["pending", "redeemed", "double-spend"])
            # How many groups of it were redeemed
            # There were no groups before tokens had a counter
            done = ch.pick(3) if v >= 4 else 0
            if state == "redeemed":
                done = max(done, 1)
            if state == "double-spend" and ch.flag(0.7):
                done = 0
            states.append((state, done))
            row = {"number": number, "created": self.when(i), "state": state}
            tokens = []
            sequestered = 0
            # Written before an upgrade to 6, when nothing else was redeemed yet
            early = v >= 6 and state == "pending" and not groups and ch.flag(0.3)
            if early:
                lost = [b64(sim.nonce(96)) for _ in range(ch.of([1, 4]))]
                for t in lost:
                    conn.execute("INSERT INTO [unblinded-tokens] ([token], [redemption-group]) VALUES (?, 1)", (t,))
                self.spendable += lost
                tokens += lost
                groups, done = 1, 1
            for g in range(0 if early else done):
                have = [b64(sim.nonce(96)) for _ in range(ch.of([1, 2, 7]))]
                groups += 1
                ok = not (v >= 6 and ch.flag(0.25))
                if v >= 6:
                    conn.execute("INSERT INTO [redemption-groups] ([rowid], [voucher], [spendable], [public-key]) VALUES (?, ?, ?, ?)", (groups, number, ok, "key"))
                for t in have:
                    if ch.flag(0.3):
                        continue  # spent
                    if v >= 6:
                        conn.execute("INSERT INTO [unblinded-tokens] ([token], [redemption-group]) VALUES (?, ?)", (t, groups))
                    else:
                        conn.execute("INSERT INTO [unblinded-tokens] ([token]) VALUES (?)", (t,))
                    (self.spendable if ok else self.unspendable).append(t)
                if ok:
                    tokens += have
                else:
                    sequestered += len(have)
            if done or state != "pending":
                row["finished"] = self.when(i + 7)
                if v >= 8 and ch.flag(0.3):
                    # Written before an upgrade which passed it over
                    row["finished"] = str(datetime(2020, 7, 1 + i, 5, 6, 7, 890))
            if done:
                row["token-count"] = len(tokens)
            if v >= 2 and done:
                row["public-key"] = "key"
            if v >= 3:
                row["counter"] = done
            if v >= 4:
                row["expected-tokens"] = ch.of([16, 100, 32768])
            if v >= 6:
                row["sequestered-count"] = sequestered
            conn.execute(f"INSERT INTO [vouchers] ({', '.join(f'[{k}]' for k in row)}) VALUES ({', '.join('?' for _ in row)})", tuple(row.values()))
            if state != "redeemed":
                blank = [b64(sim.nonce(96)) for _ in range(ch.of([1, 3, 9]))]
                for t in blank:
                    if v >= 4:
                        conn.execute("INSERT INTO [tokens] ([text], [voucher], [counter]) VALUES (?, ?, ?)", (t, number, done))
                    else:
                        conn.execute("INSERT INTO [tokens] ([text], [voucher]) VALUES (?, ?)", (t, number))
                if state == "pending":
                    self.pending[number] = (done, blank, row.get("expected-tokens", 32768))
        for i in range(ch.of([0, 0, 1, 3])):
            finished = self.when(40 + i) if i or ch.flag(0.7) else None
            conn.execute("INSERT INTO [lease-maintenance-spending] ([started], [finished], [count]) VALUES (?, ?, ?)", (self.when(20 + i), finished, 10 + i))
        if v >= 5:
            for i in range(ch.of([0, 0, 2])):
                conn.execute("INSERT INTO [invalid-unblinded-tokens] ([token], [reason]) VALUES (?, ?)", (b64(sim.nonce(96)), "reason"))
        if v >= 7:
            for i in range(ch.of([0, 0, 3])):
                if v >= 9:
                    conn.execute("INSERT INTO [event-stream] ([statement], [important], [serialized_arguments]) VALUES (?, ?, ?)", ("INSERT %d" % i, i == 0, b"\x80"))
                else:
                    conn.execute("INSERT INTO [event-stream] ([statement], [important]) VALUES (?, ?)", ("INSERT %d" % i, i == 0))
        self.shape = (tuple(sorted(states)), groups)

    # -- recovering it ------------------------------------------------------------
    def recover(self):
        """Instead of upgrading the old database, recover its replica."""
        sim = self.sim
        conn = sqlite3.connect(self.db.path)
        statements = [s for s in conn.iterdump() if not s.startswith(('INSERT INTO "sqlite_sequence"', 'INSERT INTO "event-stream"', "DELETE FROM"))]
        conn.close()
        streams = []
        if self.version >= 9 and sim.ch.flag(0.6):
            statements, streams = self.streams(statements)
        os.unlink(self.db.path)
        self.before.pop("event-stream", None)
        for _ in range(6):
            if self.open():
                recoverer = StatefulRecoverer()
                d = Deferred.fromCoroutine(self.store.call_if_empty(
                    partial(recoverer.recover, make_canned_downloader(cbor2.dumps({"version": 1, "statements": statements}), streams))))
                got = []
                d.addBoth(got.append)
                if not self.proc.alive or (isinstance(got[0], Failure) and got[0].check(SimCrash)):
                    sim.faults_on = False
                    self.open()
                    if self.store.list() or not self.before["vouchers"]:
                        return
                    self.proc.kill("crash")
                    continue
                stage = recoverer.state().stage
                if stage == RecoveryStages.succeeded and not isinstance(got[0], Failure):
                    return
                sim.ensure(sum(v for k, v in sim.counters.items() if k.startswith("fault:")), "C26", "cannot-recover",
                           lambda: f"a replica of version {self.version} cannot be recovered: {recoverer.state().failure_reason} {got}")
                self.proc.kill("stop")
            sim.faults_on = False

    def streams(self, statements):
        """Part of what the replica has is in its event streams."""
        ch = self.sim.ch
        order = ["vouchers", "redemption-groups", "tokens", "unblinded-tokens", "invalid-unblinded-tokens", "lease-maintenance-spending"]
        later = order[ch.of([0, 0, 2, 3]):]
        moved, stay = [], []
        for s in statements:
            table = s.split('"')[1] if s.startswith('INSERT INTO "') else None
            if table in later:
                moved.append((later.index(table), s))
            else:
                stay.append(s)
        moved = [s for _, s in sorted(moved, key=lambda m: m[0])]
        seq = ch.of([1, 1, 40])
        streams = []
        while moved:
            n = ch.of([1, 3, 1000])
            part, moved = moved[:n], moved[n:]
            events = tuple((seq + i, s, (), bool(i % 2)) for i, s in enumerate(part))
            seq += len(part)
            streams.append(cbor2.dumps({"version": 1, "events": events}))
        self.sim.count("streams", len(streams))
        # The order of the entries of a directory means nothing.
        for i in range(len(streams) - 1, 0, -1):
            j = ch.pick(i + 1)
            streams[i], streams[j] = streams[j], streams[i]
        return stay, streams

    # -- opening it ------------------------------------------------------------
    def open(self):
        self.boots += 1
        proc = self.proc = Process(self.sim, f"node#{self.boots}")
        try:
            self.store = VoucherStore.from_connection(1000, proc.now, with_replication(self.db.connect(proc), False))
        except SimCrash:
            return False
        except Exception as e:
            injected = self.injected(e)
            proc.kill("failed-to-open")
            self.sim.ensure(injected, "C26", "cannot-open", lambda: f"a database of version {self.version} cannot be opened: {type(e).__name__} {e}")
            return False
        return True

    def injected(self, e):
        seen = 0
        while e is not None and seen < 5:
            if getattr(e, "injected", False):
                return True
            e = e.__cause__ or e.__context__ or (e.args[0] if e.args and isinstance(e.args[0], BaseException) else None)
            seen += 1
        return False

    def compare(self):
        """The database has in it what was there before."""
        sim = self.sim
        now = {t: [dict(r) for r in rs] for t, rs in dump_path(self.db.path, skip={"sqlite_sequence"}).items()}
        for t, key in KEYS.items():
            got = {r.get(key): r for r in now.get(t, [])}
            for old in self.before.get(t, []):
                new = got.get(old[key])
                sim.ensure(new is not None, "C26", "lost", f"{t} has no {old[key]} after the upgrade")
                for col, was in old.items():
                    has = new.get(col)
                    if col in TIMES and was is not None:
                        try:
                            same = has is not None and instant(has, False) == instant(was, True)
                        except ValueError:
                            same = False
                    else:
                        same = has == was
                    sim.ensure(same, "C26", "changed", f"{t} {col} was {was!r} and is {has!r} after the upgrade from {self.version}")
            if t != "redemption-groups":
                sim.ensure(len(now.get(t, [])) == len(self.before.get(t, [])), "C26", "invented", f"{t} has {len(now.get(t, []))} rows after the upgrade, not {len(self.before.get(t, []))}")
        return dump_path(self.db.path, skip=())

    def use(self):
        """What was there is usable."""
        sim, ch, store = self.sim, self.sim.ch, self.store

        def attempt(what, f, *a):
            try:
                return f(*a)
            except Exception as e:
                sim.violation("C26", "unusable", f"after the upgrade from {self.version}, {what} fails: {type(e).__name__} {e}")

        old = {r["number"]: r for r in self.before.get("vouchers", [])}
        got = {v.number.decode("ascii"): v for v in attempt("listing the vouchers", store.list)}
        sim.ensure(set(got) == set(old), "C26", "lost", f"{len(got)} vouchers are listed, there were {len(old)}")
        for number, r in old.items():
            v = got[number]
            sim.ensure(attempt("getting a voucher", store.get, number.encode("ascii")) == v, "C26", "changed", "a voucher is not as it is listed")
            attempt("describing a voucher", v.to_json)
            want = {"pending": Pending, "redeemed": Redeemed, "double-spend": DoubleSpend}[r["state"]]
            sim.ensure(isinstance(v.state, want), "C26", "changed", f"a voucher that was {r['state']} is {v.state}")
            sim.ensure(int(v.created.timestamp()) == instant(r["created"], True), "C26", "changed", f"a voucher created {r['created']} was created {v.created}")
            sim.ensure(v.expected_tokens == r.get("expected-tokens", 32768), "C26", "changed", f"expects {v.expected_tokens}")
            if want is Pending:
                sim.ensure(v.state.counter == r.get("counter", 0), "C26", "changed", f"a voucher's counter was {r.get('counter')} and is {v.state.counter}")
            if want in (Redeemed, DoubleSpend):
                sim.ensure(int(v.state.finished.timestamp()) == instant(r["finished"], True), "C26", "changed", f"finished {r['finished']} is {v.state.finished}")
            if want is Redeemed:
                sim.ensure(v.state.token_count == r["token-count"], "C26", "changed", f"{r['token-count']} tokens are {v.state.token_count}")
        spendable = self.spendable if self.shape is not None else []
        n = attempt("counting the tokens", store.count_unblinded_tokens)
        sim.ensure(n == len(spendable), "C26", "tokens-lost", f"{n} tokens are available after the upgrade from {self.version}, there were {len(spendable)}")
        if spendable:
            try:
                tokens = store.get_unblinded_tokens(len(spendable))
            except NotEnoughTokens:
                sim.violation("C26", "tokens-lost", f"not all of {len(spendable)} tokens can be used")
            got = sorted(t.unblinded_token.decode("ascii") for t in tokens)
            sim.ensure(got == sorted(spendable), "C26", "tokens-lost", "other tokens are available than there were")
            k = ch.pick(len(tokens) + 1)
            if k:
                attempt("spending tokens", store.discard_unblinded_tokens, tokens[:k])
            if k < len(tokens):
                attempt("invalidating tokens", store.invalidate_unblinded_tokens, "bad", tokens[k:])
            sim.ensure(attempt("counting the tokens", store.count_unblinded_tokens) == 0, "C26", "unusable", "spent tokens are still there")
        total = 0
        for number, (counter, blank, expected) in (self.pending.items() if self.shape is not None else []):
            # Redemption of a voucher goes on with the very same tokens.
            def fresh():
                sim.violation("C26", "tokens-lost", "the random tokens of a voucher are gone")

            have = attempt("going on with a redemption", store.add, number.encode("ascii"), expected, counter, fresh)
            sim.ensure(sorted(t.token_value.decode("ascii") for t in have) == sorted(blank), "C26", "tokens-lost", "the random tokens of a voucher are others")
            new = [UnblindedToken(base64.b64encode(sim.nonce(96))) for _ in blank]
            attempt("completing a redemption", store.insert_unblinded_tokens_for_voucher, number.encode("ascii"), "key", new, True, True)
            total += len(new)
            sim.ensure(attempt("counting the tokens", store.count_unblinded_tokens) == total, "C26", "unusable", "new tokens are not available")
        fresh = b64(b"new voucher" + sim.nonce(21)).encode("ascii")
        attempt("adding a voucher", store.add, fresh, 16, 0, lambda: [RandomToken(base64.b64encode(sim.nonce(96)))])
        sim.ensure(attempt("getting a voucher", store.get, fresh).state == Pending(counter=0), "C26", "unusable", "a new voucher is not there")
        activity = attempt("looking up the last maintenance", store.get_latest_lease_maintenance_activity)
        runs = [r for r in self.before.get("lease-maintenance-spending", []) if r["finished"] is not None]
        sim.ensure((activity is None) == (not runs), "C26", "lost", f"{len(runs)} maintenance activities are {activity}")
        if runs:
            last = max(runs, key=lambda r: instant(r["finished"], True))
            sim.ensure((int(activity.started.timestamp()), activity.passes_required, int(activity.finished.timestamp())) ==
                       (instant(last["started"], True), last["count"], instant(last["finished"], True)), "C26", "changed", f"the last maintenance {last} is {activity}")
        m = attempt("recording maintenance", store.start_lease_maintenance)
        attempt("recording maintenance", m.observe, [1000])
        attempt("recording maintenance", m.finish)

    def run(self):
        sim, ch = self.sim, self.sim.ch
        opened = False
        if self.version >= 7 and self.before["vouchers"] and ch.flag(0.4):
            self.recover()
            if self.proc.alive:
                if ch.flag(0.7):
                    sim.faults_on = False
                    self.compare()
                    self.use()
                    return
                self.proc.kill("stop")
        for _ in range(ch.pick(8)):
            sim.run_for(ch.of([0.0, 1.0, 100000.0]))
            opened = self.open()
            if opened:
                # Or it is killed some time after that.
                self.compare()
                self.proc.kill("crash")
        sim.log("healthy")
        sim.faults_on = False
        self.open()
        first = self.compare()
        self.proc.kill("stop")
        for _ in range(2):
            self.open()
            again = dump_path(self.db.path, skip=())
            sim.ensure(again == first, "C26", "not-stable", "opening the database again changes it")
            if ch.flag(0.5):
                break
            self.proc.kill("stop")
        if not self.proc.alive:
            self.open()
        self.use()


def run(sim):
    UpgradeWorld(sim).run()


SPECS = [
    WorldSpec(
        "upgrade", run, ["C26"], quick=3000, thorough=400000,
        real=["model.VoucherStore, initialize_database and schema upgrades", "replicate.with_replication", "recover.StatefulRecoverer", "sqlite3 (real engine, real files)"],
        stubs=["earlier versions of the software (a frozen copy of their schema, own contents)", "clock, time zone (TZ)",
               "process crashes (copied database files and journals)", "SQLite failures (raised around the real calls)"],
        assumptions=["times in old databases are not within a change of the clocks"],
    ),
]
