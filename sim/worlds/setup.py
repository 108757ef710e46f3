"""
Replication is requested again and again, concurrently, while the grid, the
disk, the database and the process fail.
"""

from __future__ import annotations

import base64
import json
import os

from tahoe_capabilities import danger_real_capability_string, writeable_directory_from_string

from _zkapauthorizer.config import REPLICA_RWCAP_BASENAME

from ..core import SimCrash, Swarm
from ..db import rows
from ..disk import DISK_KINDS
from ..grid import GRID_KINDS, Grid
from ..whole import WholeNode
from . import WorldSpec
from .replica import recover_now_safely

KINDS = ["db-crash", "db-error"] + DISK_KINDS + GRID_KINDS


class Asked:
    def __init__(self, n, pending, alone, at):
        self.n = n
        self.pending = pending
        self.alone = alone
        self.at = at
        self.reply = None
        self.lost = False


class Setup:
    def __init__(self, sim):
        self.sim = sim
        sim.max_events = 400000
        self.swarm = Swarm(sim, KINDS)
        self.grid = Grid(sim)
        self.node = WholeNode(sim, self.swarm, self.grid)
        self.requests = []
        self.created = False
        self.vouchers = 0
        self.healthy = float('inf')
        self.configured = None
        self.answered = False
        self.path = os.path.join(self.node.private, REPLICA_RWCAP_BASENAME)

    def boot(self):
        return self.node.try_boot()

    # -- invariants ----------------------------------------------------------------
    def check(self, when):
        sim = self.sim
        try:
            with open(self.path, "rb") as f:
                now = f.read()
        except FileNotFoundError:
            now = None
        if now is not None and self.configured is None:
            try:
                cap = writeable_directory_from_string(now.decode("ascii"))
            except Exception:
                sim.violation("C24", "damaged", f"{when}, the configured replica is {now[:40]!r}")
                return
            sim.ensure(danger_real_capability_string(cap) in self.grid.dirs, "C24", "no-such-replica", f"{when}, the configured replica does not exist")
            self.configured = cap
            sim.log("configured")
            sim.count("configured")
        elif self.configured is not None:
            want = danger_real_capability_string(self.configured).encode()
            sim.ensure(now == want, "C24", "another-replica", f"{when}, the configured replica is another one" if now else f"{when}, no replica is configured any more")
        for r in self.requests:
            if r.reply is None and not r.lost:
                if not self.node.up or r.pending.proc is not self.node.proc:
                    r.lost = True
                    continue
                reply = r.pending.reply()
                if reply is not None:
                    r.reply = reply
                    self.answer(r)

    def answer(self, r):
        sim = self.sim
        sim.log("answer", r.n, r.reply.code)
        sim.count(f"answer-{r.reply.code}")
        for rw in self.grid.dirs:
            sim.ensure(rw.encode() not in r.reply.raw, "C24", "write-cap", "an answer contains the write capability of a directory")
        sim.ensure(r.reply.code in (200, 201, 409, 500, 503), "C24", "bad-answer", f"the request is answered {r.reply.code} {r.reply.body[:80]!r}")
        if r.reply.code >= 500:
            if not sim.faults_on and r.alone and r.at > self.healthy:
                sim.violation("C24", "refused", f"setup is refused though nothing is wrong: {r.reply.body[:200]!r}")
            return
        self.answered = True
        if r.reply.code != 409:
            # It says that this request has set the replica up.
            sim.ensure(not r.already and not self.created, "C24", "set-up-twice",
                       f"the request is answered {r.reply.code} though the replica was set up before")
            self.created = True
        sim.ensure(self.configured is not None, "C24", "not-configured", f"the request is answered {r.reply.code} but no replica is configured")
        try:
            got = r.reply.json()["recovery-capability"]
        except Exception:
            got = None
        want = danger_real_capability_string(self.configured.reader)
        sim.ensure(got == want, "C24", "wrong-cap", lambda: f"the request is answered {r.reply.code} with {str(got)[:30]} which is not the read capability of the replica")

    # -- the run -------------------------------------------------------------------
    def waiting(self):
        return [r for r in self.requests if r.reply is None and not r.lost]

    def ask(self):
        sim = self.sim
        n = len(self.requests)
        sim.log("ask", n)
        alone = not self.waiting()
        already = self.configured is not None
        if not alone:
            sim.count("fault:concurrent-request")
            for r in self.waiting():
                r.alone = False
        try:
            p = self.node.api.send(b"POST", b"/replicate", b"")
        except SimCrash:
            return None
        r = Asked(n, p, alone, sim.seconds())
        r.already = already
        self.requests.append(r)
        return r

    def put_voucher(self):
        sim = self.sim
        self.vouchers += 1
        v = base64.urlsafe_b64encode(b"voucher %03d" % self.vouchers + b"v" * 21).decode("ascii")
        r = self.node.api.call(b"PUT", b"/voucher", json.dumps({"voucher": v}).encode(), [(b"content-type", b"application/json")])
        sim.log("voucher", r.code if r else None)
        return r is not None and r.code == 200

    def step(self):
        sim, ch, node = self.sim, self.sim.ch, self.node
        if not node.up:
            sim.run_for(1.0)
            self.boot()
            return
        k = ch.weighted([20, 8, 3, 2 if sim.faults_on else 0, 1, 2, 1])
        if k == 0:
            for _ in range(1 + ch.pick(6)):
                if not sim.clock.step():
                    break
        elif k == 1:
            if len(self.requests) < 12:
                self.ask()
        elif k == 2:
            self.put_voucher()
        elif k == 3:
            if ch.flag(0.5):
                node.crash()
        elif k == 4:
            node.shutdown()
        elif k == 5:
            node.set_outage(ch.of([None, "refused", "unhappy", "error", "lost"]))
        elif k == 6:
            sim.run_for(ch.of([1.0, 30.0, 300.0]))

    def run(self):
        sim, ch = self.sim, self.sim.ch
        self.boot()
        self.check("after starting")
        for _ in range(15 + ch.pick(60)):
            self.step()
            self.check("while running")
        sim.log("healthy")
        sim.faults_on = False
        self.node.set_outage(None)
        if ch.flag(0.3) and self.node.up:
            self.node.shutdown()
        if not self.node.up and not self.boot():
            sim.violation("C24", "cannot-start", "the node cannot start though nothing is wrong any more")
            return
        self.check("afterwards")
        # Whatever was stuck gets unstuck.
        sim.run_until(lambda: not self.still(), 100000.0)
        self.check("afterwards")
        sim.run_for(1.0)
        self.healthy = sim.seconds() - 0.5
        left = self.waiting()
        sim.ensure(not left, "C24", "no-answer", f"{len(left)} requests are not answered")
        for _ in range(1 + ch.pick(2)):
            r = self.ask()
            sim.run_until(lambda: not self.still(), 1000.0)
            self.check("at the end")
            sim.ensure(r is not None and r.reply is not None, "C24", "no-answer", "a request is not answered")
            sim.ensure(r.reply.code < 500, "C24", "refused", lambda: f"setup is refused though nothing is wrong: {r.reply.body[:200]!r}")
        if ch.flag(0.3):
            self.node.shutdown()
            self.boot()
            self.check("after a restart")
        if not self.put_voucher():
            sim.violation("C24", "unusable", "the node cannot be used though nothing is wrong any more")
        # An answer from the grid may still take its time.
        for _ in range(25):
            sim.run_for(2000.0)
            problem = self.replicated()
            if problem is None:
                break
        self.check("at the end")
        sim.ensure(problem is None, "C24", "not-replicated", f"long after setup {problem}")
        others = [d for d in self.grid.dirs.values() if d is not self.grid.children(self.configured) and d]
        sim.ensure(not others, "C24", "another-replica", "there is something in another directory than that of the replica")

    def replicated(self):
        children = self.grid.contents(self.configured.reader)
        if "snapshot" not in children:
            return "there is nothing in the replica"
        got, stage, error = recover_now_safely(children)
        have = {r["number"] for r in rows(got[0], "vouchers")} if got else set()
        want = {r["number"] for r in rows(self.node.db.dump(), "vouchers")}
        if have != want:
            return f"the replica has {len(have)} of {len(want)} vouchers ({stage} {error})"
        return None

    def still(self):
        self.check("while waiting")
        return self.waiting()


def run(sim):
    Setup(sim).run()


SPECS = [
    WorldSpec(
        "setup", run, ["C24"], quick=450, thorough=100000,
        real=["replicate.setup_tahoe_lafs_replication and the replication service", "resource.ReplicateResource", "_plugin.ZKAPAuthorizer",
              "tahoe.Tahoe (HTTP client)", "twisted.python.lockfile, twisted.web", "sqlite3 (real engine, real files)"],
        stubs=["Tahoe-LAFS gateway and grid (own model speaking the same HTTP API)", "TCP (in-memory transports)", "reactor clock", "process ids",
               "file operations (real ones, with faults before and after)", "process crashes (abandoned object graph, copied database files)"],
        assumptions=["renaming a file is atomic and what was written to it before is durable", "the process is killed, the machine does not lose power"],
    ),
]
