"""HTTP behind a seam: a client agent and an in-process server connection."""

from __future__ import annotations

from twisted.internet.defer import CancelledError, Deferred, succeed
from twisted.internet.testing import StringTransport
from twisted.internet.error import ConnectionDone, ConnectionLost, ConnectionRefusedError
from twisted.python.failure import Failure
from twisted.web.client import ResponseDone, ResponseFailed, ResponseNeverReceived
from twisted.web.http_headers import Headers
from twisted.web.iweb import IAgent, IBodyProducer, IResponse
from twisted.web.server import Site
from zope.interface import implementer


class _Sink:
    def __init__(self):
        self.data = b""

    def write(self, b):
        self.data += b

    # IConsumer
    def registerProducer(self, p, s):
        pass

    def unregisterProducer(self):
        pass


class _Request:
    def __init__(self, method, uri, headers):
        self.method = method
        self.absoluteURI = uri
        self.headers = headers


@implementer(IResponse)
class SimResponse:
    version = (b"HTTP", 1, 1)
    previousResponse = None

    def __init__(self, proc, method, uri, code, body, headers=None, truncate=None, delay=0.0, chunks=1):
        self.proc = proc
        self.code = code
        self.phrase = b"status"
        self.headers = Headers(headers or {b"content-type": [b"application/json"]})
        self.length = len(body)
        self.request = _Request(method, uri, Headers())
        self._body = body
        self._truncate = truncate
        self._delay = delay
        self._chunks = chunks

    def setPreviousResponse(self, r):
        pass

    def deliverBody(self, protocol):
        transport = StringTransport()
        stopped = []
        transport.loseConnection = lambda: stopped.append(1)
        transport.abortConnection = lambda: stopped.append(1)
        transport.stopProducing = lambda: stopped.append(1)
        protocol.makeConnection(transport)
        body = self._body if self._truncate is None else self._body[: self._truncate]
        n = max(1, self._chunks)
        size = max(1, (len(body) + n - 1) // n)
        parts = [body[i : i + size] for i in range(0, len(body), size)]

        def send():
            if stopped:
                protocol.connectionLost(Failure(ResponseFailed([Failure(ConnectionLost())])))
            elif parts:
                protocol.dataReceived(parts.pop(0))
                self.proc.clock.callLater(self._delay, send)
            elif self._truncate is None:
                protocol.connectionLost(Failure(ResponseDone()))
            else:
                protocol.connectionLost(Failure(ResponseFailed([Failure(ConnectionLost())])))

        if self._delay:
            self.proc.clock.callLater(self._delay, send)
        else:
            while parts and not stopped:
                protocol.dataReceived(parts.pop(0))
            send()


def read_producer(producer):
    """The whole of a request body.  treq's producers finish synchronously or in a cooperator."""
    if producer is None:
        return succeed(b"")
    source = getattr(producer, "_inputFile", None)
    if source is not None:
        # FileBodyProducer would hand this to the global reactor.
        return succeed(source.read())
    sink = _Sink()
    d = producer.startProducing(sink)
    d.addCallback(lambda _: sink.data)
    return d


class ApiReply:
    def __init__(self, code, headers, body, raw):
        self.code = code
        self.headers = headers
        self.body = body
        self.raw = raw

    def json(self):
        import json

        return json.loads(self.body)


class Api:
    """
    Talk to a real twisted.web server for a resource tree over an in-memory
    connection: the bytes that go in and come out are HTTP.
    """

    def __init__(self, proc, resource, token=None):
        self.proc = proc
        self.site = Site(resource, timeout=None, reactor=proc.clock)
        self.site._logDateTime = "-"
        self.token = token

    def send(self, method, path, body=b"", headers=(), token=Ellipsis, prefix=None):
        """
        Send one request, return a list that receives an ApiReply.
        """
        token = self.token if token is Ellipsis else token
        lines = [b"%s %s HTTP/1.1" % (method, path), b"Host: localhost"]
        if token is not None:
            lines.append(b"Authorization: " + (b"tahoe-lafs " if prefix is None else prefix) + token)
        for k, v in headers:
            lines.append(k + b": " + v)
        if body or method in (b"PUT", b"POST"):
            lines.append(b"Content-Length: %d" % (len(body),))
        data = b"\r\n".join(lines) + b"\r\n\r\n" + body
        channel = self.site.buildProtocol(None)
        transport = StringTransport()
        transport.loseConnection = lambda: None
        transport.abortConnection = lambda: None
        transport.getTcpNoDelay = lambda: True
        transport.setTcpNoDelay = lambda v: None
        channel.makeConnection(transport)
        channel.dataReceived(data)
        return Pending(self.proc, transport, method)

    def call(self, method, path, body=b"", headers=(), **kw):
        """A request that is answered synchronously; None if the process died."""
        return self.send(method, path, body, headers, **kw).reply()


class Pending:
    def __init__(self, proc, transport, method):
        self.proc = proc
        self.transport = transport
        self.method = method

    def reply(self):
        raw = self.transport.value()
        if not self.proc.alive:
            return None
        return parse_reply(raw, self.method)


def parse_reply(raw, method=b"GET"):
    head, sep, rest = raw.partition(b"\r\n\r\n")
    if not sep:
        return None
    lines = head.split(b"\r\n")
    code = int(lines[0].split(b" ")[1])
    headers = {}
    for line in lines[1:]:
        k, _, v = line.partition(b":")
        headers[k.strip().lower()] = v.strip()
    if method == b"HEAD" or code in (204, 304):
        body = b""
    elif headers.get(b"transfer-encoding") == b"chunked":
        body = b""
        while True:
            size, sep, rest = rest.partition(b"\r\n")
            if not sep:
                return None
            n = int(size, 16)
            if n == 0:
                break
            body += rest[:n]
            rest = rest[n + 2 :]
    elif b"content-length" in headers:
        n = int(headers[b"content-length"])
        if len(rest) < n:
            return None
        body = rest[:n]
    else:
        body = rest
    return ApiReply(code, headers, body, raw)


@implementer(IAgent)
class SimAgent:
    """
    An HTTP agent whose network is the simulator's.

    :ivar route: f(agent, method, uri, headers, body, Deferred) which arranges
        for the reply.
    """

    def __init__(self, proc, route):
        self.proc = proc
        self.route = route

    def request(self, method, uri, headers=None, bodyProducer=None):
        proc = self.proc
        proc.check()
        # Like a real agent's, a request interrupted while it is outstanding
        # does not fail with just a CancelledError.
        result = Deferred(lambda d: d.errback(ResponseNeverReceived([Failure(CancelledError())])))
        proc.keep.append(result)
        d = read_producer(bodyProducer)
        d.addCallback(lambda body: self.route(self, method, uri, headers, body, result))
        d.addErrback(lambda f: result.errback(f) if not result.called else None)
        return result


REFUSED = ConnectionRefusedError
LOST = ConnectionLost
DONE = ConnectionDone
