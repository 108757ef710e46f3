"""
The simulator: seeded choices, virtual time, processes that can crash, trace.

One run is fully determined by its choice tape.  In generation mode the tape
is drawn from a PRNG seeded with the run's seed and recorded; in replay mode a
given tape is consumed (choices beyond its end are 0).  Every choice is an
integer for which 0 is the most benign option: no fault, shortest delay, least
work.  That makes tapes both replayable and shrinkable.
"""

from __future__ import annotations

import hashlib
import os
import random
import re
import shutil
import tempfile
from collections import Counter

from twisted.internet.interfaces import IReactorTime
from twisted.internet.task import Clock
from zope.interface import implementer


class SimCrash(BaseException):
    """The simulated process this code runs in has been killed."""


class StopRun(BaseException):
    """The run is over: the property under test has been violated."""


class HarnessError(Exception):
    """The simulator itself is broken or was misused."""


class Budget(HarnessError):
    """A run used more events than it may."""


class Choices:
    def __init__(self, seed=None, tape=None, limit=400000):
        self.replaying = tape is not None
        self.rng = random.Random(seed) if tape is None else None
        self.given = tape
        self.tape = []
        self.limit = limit

    def _next(self, gen, n):
        i = len(self.tape)
        if i >= self.limit:
            raise Budget("choice budget exhausted")
        if self.replaying:
            v = self.given[i] if i < len(self.given) else 0
            if v >= n:
                v = v % n
        else:
            v = gen()
        self.tape.append(v)
        return v

    def pick(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        return self._next(lambda: self.rng.randrange(n), n)

    def of(self, seq):
        return seq[self.pick(len(seq))]

    def weighted(self, weights):
        """An index, chosen with the given integer weights; 0 is benign."""
        total = sum(weights)

        def gen():
            x = self.rng.random() * total
            for i, w in enumerate(weights):
                x -= w
                if x < 0:
                    return i
            return 0

        if len(weights) <= 1:
            return 0
        return self._next(gen, len(weights))

    def flag(self, p):
        """True with probability p; False is benign."""
        if p <= 0:
            return False
        return bool(self._next(lambda: 1 if self.rng.random() < p else 0, 2))

    def delay(self, scale=1.0):
        """A non-negative delay: mostly short, sometimes long."""
        k = self._next(self._gen_delay, len(_DELAYS))
        return _DELAYS[k] * scale

    def _gen_delay(self):
        r = self.rng.random()
        if r < 0.75:
            return self.rng.randrange(0, 8)
        return self.rng.randrange(8, len(_DELAYS))

    def shuffled(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.pick(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


_DELAYS = [0.01, 0.02, 0.03, 0.05, 0.08, 0.13, 0.21, 0.34, 0.7, 1.1, 1.9, 3.7, 9.3, 31.0]


class SimClock(Clock):
    """
    Virtual time.  Due events with equal times run in an order the tape picks.
    """

    def __init__(self, sim, start):
        Clock.__init__(self)
        self.rightNow = start
        self.sim = sim
        self.events = 0

    def _sortCalls(self):
        self.calls.sort(key=lambda c: c.getTime())

    def next_time(self):
        return self.calls[0].getTime() if self.calls else None

    def step(self):
        """Run one event.  Return False if there is none."""
        if not self.calls:
            return False
        t = self.calls[0].getTime()
        k = 1
        while k < len(self.calls) and self.calls[k].getTime() == t:
            k += 1
        i = self.sim.ch.pick(min(k, 4)) if k > 1 else 0
        call = self.calls.pop(i)
        if t > self.rightNow:
            self.rightNow = t
        self.events += 1
        if self.events > self.sim.max_events:
            raise Budget("event budget exhausted")
        call.called = 1
        try:
            call.func(*call.args, **call.kw)
        except SimCrash:
            pass
        if self.sim.stopped:
            # Raised before, and swallowed by something that catches all.
            raise StopRun()
        return True

    def jump(self, amount):
        """
        The clock jumps: everything that became due meanwhile runs late, at
        the new time (a suspended laptop, or a stepped clock).
        """
        self.rightNow += amount


@implementer(IReactorTime)
class ProcessClock:
    """The view of time one incarnation of a process has."""

    def __init__(self, proc):
        self.proc = proc

    def seconds(self):
        return self.proc.sim.clock.seconds() + self.proc.skew

    def callLater(self, delay, f, *a, **kw):
        proc = self.proc
        if not proc.alive:
            raise SimCrash()

        def run():
            if proc.alive:
                f(*a, **kw)

        return proc.sim.clock.callLater(delay, run)

    def getDelayedCalls(self):
        return list(self.proc.sim.clock.getDelayedCalls())

    # Enough of a reactor for the plugin object.
    def callWhenRunning(self, f, *a, **kw):
        f(*a, **kw)

    def addSystemEventTrigger(self, phase, event, f, *a, **kw):
        self.proc.shutdown_triggers.append((f, a, kw))

    def callFromThread(self, f, *a, **kw):
        self.callLater(0, f, *a, **kw)


class Process:
    """One incarnation of a simulated process."""

    def __init__(self, sim, name, skew=0.0):
        self.sim = sim
        self.name = name
        self.skew = skew
        self.alive = True
        self.on_kill = []
        self.shutdown_triggers = []
        # Strong references to everything waiting for a reply, so that the
        # garbage collector never decides anything.
        self.keep = []
        self.clock = ProcessClock(self)
        sim.processes.append(self)

    def check(self):
        if not self.alive:
            raise SimCrash()

    def kill(self, why="crash"):
        """Stop existing.  Only durable state survives."""
        if not self.alive:
            return
        self.alive = False
        self.sim.log("kill", self.name, why)
        self.sim.count("fault:" + why)
        for f in self.on_kill:
            f()

    def crash(self, why="crash"):
        """Kill this process from inside one of its own calls."""
        self.kill(why)
        raise SimCrash()

    def now(self):
        from datetime import datetime, timezone

        return datetime.fromtimestamp(self.clock.seconds(), timezone.utc)


# Paths of scratch directories and addresses of objects, in texts.
_INCIDENTAL = re.compile(r"(/[^\s'\"]*)?zkapsim-\w+|(?<=at )0x[0-9a-fA-F]+")


class Sim:
    """
    One simulated execution.

    :ivar target: the property under test; a violation of it ends the run.
    """

    START = 1_700_000_000.0
    max_events = 60000

    def __init__(self, target, choices, known=()):
        self.target = target
        # kind of violation -> further properties it violates
        self.also = {}
        self.ch = choices
        self.known = known
        self.clock = SimClock(self, self.START)
        self.trace = []
        self.counters = Counter()
        self.processes = []
        self.violations = []
        self.known_hits = []
        self.states = set()
        self.faults_on = True
        self._hash = hashlib.sha256()
        self._shape = hashlib.sha256()
        self._scratch = None
        self.at_close = []
        self.nonces = 0
        self.stopped = False

    # -- bookkeeping -----------------------------------------------------
    @property
    def scratch(self):
        if self._scratch is None:
            base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
            self._scratch = tempfile.mkdtemp(prefix="zkapsim-", dir=base)
        return self._scratch

    def close(self):
        for p in self.processes:
            p.alive = False
            for f in p.on_kill:
                try:
                    f()
                except BaseException:
                    pass
        for f in self.at_close:
            f()
        if self._scratch is not None:
            shutil.rmtree(self._scratch, ignore_errors=True)

    def seconds(self):
        return self.clock.seconds()

    def elapsed(self):
        return self.clock.seconds() - self.START

    def log(self, kind, *info):
        entry = (round(self.elapsed(), 3), kind) + info
        text = repr(entry)
        if "zkapsim-" in text or "at 0x" in text:
            # Where things are is not the same in every execution.
            entry = entry[:2] + tuple(_INCIDENTAL.sub("*", i if isinstance(i, str) else repr(i)) for i in info)
            text = repr(entry)
        self.trace.append(entry)
        self._hash.update(text.encode())
        self._shape.update(kind.encode())

    def count(self, what, n=1):
        self.counters[what] += n

    def state(self, *fingerprint):
        self.states.add(hash_of(fingerprint))

    def digest(self):
        return self._hash.hexdigest()

    def shape(self):
        return self._shape.hexdigest()[:16]

    def violation(self, prop, kind, message):
        """
        Report that something that must hold does not.

        :param prop: The property, or several separated by spaces.
        """
        props = prop.split() + self.also.get(kind, "").split()
        prop = self.target if self.target in props else props[0]
        message = _INCIDENTAL.sub("*", message)
        v = (prop, kind, message)
        self.log("VIOLATION", prop, kind, message)
        for k in self.known:
            if k["property"] in props and k["kind"] == kind:
                self.known_hits.append(v)
                self.stopped = True
                raise StopRun()
        self.violations.append(v)
        if prop == self.target:
            self.stopped = True
            raise StopRun()

    def ensure(self, ok, prop, kind, message):
        if not ok:
            self.violation(prop, kind, message() if callable(message) else message)

    # -- faults -----------------------------------------------------------
    def fault(self, kind, p):
        """Should a fault of this kind be injected here?"""
        if not self.faults_on or p <= 0:
            return False
        if self.ch.flag(p):
            self.count("fault:" + kind)
            self.log("fault", kind)
            return True
        return False

    def nonce(self, n=32):
        """Deterministic pseudo-random bytes, unique in this run."""
        self.nonces += 1
        out = b""
        k = 0
        while len(out) < n:
            out += hashlib.sha256(b"nonce %d %d" % (self.nonces, k)).digest()
            k += 1
        return out[:n]

    # -- running ----------------------------------------------------------
    def run_until(self, pred, max_seconds):
        """Run events until pred() or the given simulated time has passed."""
        end = self.clock.seconds() + max_seconds
        while not pred():
            t = self.clock.next_time()
            if t is None or t > end:
                if end > self.clock.rightNow:
                    self.clock.rightNow = end
                return pred()
            self.clock.step()
        return True

    def run_for(self, seconds):
        self.run_until(lambda: False, seconds)

    def drain(self, max_seconds=3600.0):
        """Run until no events are left (worlds without endless timers)."""
        end = self.clock.seconds() + max_seconds
        while True:
            t = self.clock.next_time()
            if t is None or t > end:
                return
            self.clock.step()


def hash_of(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]


class Swarm:
    """
    Per-run fault configuration.  A fault-free run, or a random subset of the
    kinds at random rates.
    """

    RATES = [0.0, 0.02, 0.06, 0.15, 0.35]

    def __init__(self, sim, kinds, benign=0.15):
        self.rates = {}
        ch = sim.ch
        on = ch.weighted([int(100 * benign), int(100 * (1 - benign))])
        for k in kinds:
            r = 0.0
            if on:
                r = self.RATES[ch.weighted([45, 15, 18, 14, 8])]
            self.rates[k] = r
        sim.log("swarm", tuple(sorted((k, v) for k, v in self.rates.items() if v)))

    def __getitem__(self, k):
        return self.rates.get(k, 0.0)
