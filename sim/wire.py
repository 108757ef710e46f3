"""
Foolscap on a simulated network: the real brokers, serialisation, schemas and
reference tables, over byte pipes the simulator delays and cuts.
"""

from __future__ import annotations

import foolscap.eventual as fe
from foolscap import banana as fbanana
from foolscap import broker as fbroker
from foolscap import referenceable
from foolscap.logging import log as flog
from twisted.internet.error import ConnectionLost
from twisted.internet.interfaces import ITransport
from twisted.python.failure import Failure
from zope.interface import implementer

from .core import SimCrash

# Remote references are never garbage collected here: the collector would
# decide when messages are sent.
referenceable.RemoteReferenceTracker._refLost = lambda self, wref: None
for _m in (fbroker, referenceable, flog):
    pass


fbanana.print = lambda *a: None


class _NoLog:
    """Foolscap's event log reads the clock and costs a lot."""

    def msg(self, *a, **kw):
        return 0

    err = msg


for _name in ("broker", "banana", "call", "referenceable"):
    _mod = __import__("foolscap." + _name, fromlist=["log"])
    if hasattr(_mod, "log"):
        for _l in ("UNUSUAL", "WEIRD", "NOISY", "INFREQUENT", "OPERATIONAL", "BAD", "SCARY", "CURIOUS"):
            setattr(_NoLog, _l, getattr(flog, _l, 0))
        _mod.log = _NoLog()


class _Reactor:
    def __init__(self, sim):
        self.sim = sim

    def callLater(self, delay, f, *a, **kw):
        return self.sim.clock.callLater(delay, f, *a, **kw)


def install(sim):
    """Foolscap's event queue, on simulated time."""
    fe.reactor = _Reactor(sim)
    fe._theSimpleQueue = fe._SimpleCallQueue()


@implementer(ITransport)
class _End:
    """One end of a connection."""

    disconnecting = False

    def __init__(self, conn, proc, scale):
        self.conn = conn
        self.proc = proc
        self.buffer = []
        self.flushing = False
        self.last = 0.0
        self.peer = None
        self.broker = None
        self.lost = False
        self.scale = scale

    def write(self, data):
        if self.conn.cut or not self.proc.alive:
            return
        self.buffer.append(data)
        if not self.flushing:
            self.flushing = True
            sim = self.conn.sim
            at = max(self.last, sim.clock.seconds() + sim.ch.delay(self.scale))
            self.last = at
            sim.clock.callLater(max(0.0, at - sim.clock.seconds()), self.flush)

    def writeSequence(self, seq):
        for d in seq:
            self.write(d)

    def flush(self):
        data, self.buffer = b"".join(self.buffer), []
        self.flushing = False
        conn = self.conn
        if conn.cut:
            return
        if conn.tap is not None and self is conn.ends[0]:
            conn.tap(self, data)
        if conn.fault is not None and conn.fault(conn, self):
            # Cut in the middle of this message, before or after it.
            n = conn.sim.ch.of([0, len(data), len(data) // 2])
            conn.sim.log("cut", self.proc.name, ["before", "after", "middle"][0 if n == 0 else 1 if n == len(data) else 2])
            data = data[:n]
            if data:
                self.peer.receive(data)
            conn.close()
            return
        self.peer.receive(data)

    def receive(self, data):
        if self.proc.alive and not self.lost:
            try:
                self.broker.dataReceived(data)
            except SimCrash:
                pass

    def loseConnection(self, *a):
        self.conn.close()

    abortConnection = loseConnection

    def registerProducer(self, *a):
        pass

    def unregisterProducer(self):
        pass

    def getPeer(self):
        return None

    getHost = getPeer

    def connection_lost(self):
        if self.lost:
            return
        self.lost = True
        if self.proc.alive:
            try:
                self.broker.connectionLost(Failure(ConnectionLost()))
            except SimCrash:
                pass


class _Tub:
    """The bits of a Tub a broker uses when passing references."""

    unsafeTracebacks = False
    _expose_remote_exception_types = True
    debugBanana = False

    def brokerDetached(self, broker, why):
        pass

    def getURLForReference(self, obj):
        return None

    def getOrCreateURLForReference(self, obj):
        return None


class Connection:
    """
    A connection between a client process and a server process.

    :ivar fault: f(connection, end) -> should this flush cut the connection?
    :ivar tap: f(end, data), called with what the client sends.
    """

    def __init__(self, sim, client, server, target, scale=0.3, fault=None, tap=None):
        self.sim = sim
        self.cut = False
        self.fault = fault
        self.tap = tap
        self.client_proc, self.server_proc = client, server
        a, b = _End(self, client, scale), _End(self, server, scale)
        a.peer, b.peer = b, a
        self.ends = (a, b)
        # Brokers take an optional tub; what they use of it is little.
        params = {"banana-decision-version": "3"}
        a.broker, b.broker = fbroker.Broker(None, params), fbroker.Broker(None, params)
        for e in (a, b):
            e.broker.unsafeTracebacks = False
            # As Tahoe-LAFS configures its tubs.
            e.broker._expose_remote_exception_types = False
            e.broker.makeConnection(e)
        tracker = b.broker.getTrackerForMyReference(target.processUniqueID(), target)
        tracker.send()
        iface = target.getInterface()
        there = a.broker.getTrackerForYourReference(tracker.clid, iface.__remote_name__, None)
        self.rref = there.getRef()
        client.keep.append(self)
        server.keep.append(self)
        client.on_kill.append(self.close)
        server.on_kill.append(self.close)

    def close(self):
        """The connection breaks: each end finds out in its own time."""
        if self.cut:
            return
        self.cut = True
        self.sim.count("connections-cut")
        for e in self.ends:
            if e.proc.alive:
                self.sim.clock.callLater(self.sim.ch.delay(1.0), e.connection_lost)
