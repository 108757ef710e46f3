"""A websocket client that speaks the wire protocol to an in-process server."""

from __future__ import annotations

import base64
import struct

from twisted.internet.address import IPv4Address
from twisted.internet.testing import StringTransport
from twisted.python.failure import Failure

from .http import DONE, LOST, parse_reply

MASK = b"\x11\x22\x33\x44"


class _Transport(StringTransport):
    ws = None
    protocol = None

    def write(self, data):
        self.ws.received(data)

    def writeSequence(self, seq):
        for s in seq:
            self.write(s)

    def loseConnection(self):
        self.ws.server_drops()

    abortConnection = loseConnection

    def getTcpNoDelay(self):
        return True

    def setTcpNoDelay(self, v):
        pass

    def setTcpKeepAlive(self, v):
        pass


class WS:
    """
    :ivar messages: what was received, [(time, bytes)]
    :ivar reply: an HTTP reply received instead of a websocket
    :ivar close: (code, reason) the server closed with, or None
    :ivar ended: the connection is gone
    """

    def __init__(self, api, path, token=Ellipsis, on_message=None):
        self.sim = api.proc.sim
        self.proc = api.proc
        self.messages = []
        self.times = []
        self.buffer = b""
        self.open = False
        self.reply = None
        self.close = None
        self.closed_at = None
        self.ended = False
        self.sent_close = False
        self.on_message = on_message
        self.raw = b""
        token = api.token if token is Ellipsis else token
        self.transport = _Transport(peerAddress=IPv4Address("TCP", "127.0.0.1", 12345), hostAddress=IPv4Address("TCP", "127.0.0.1", 3456))
        self.transport.ws = self
        channel = api.site.buildProtocol(None)
        self.transport.protocol = channel
        channel.makeConnection(self.transport)
        lines = [b"GET " + path + b" HTTP/1.1", b"Host: localhost", b"Upgrade: websocket", b"Connection: Upgrade",
                 b"Sec-WebSocket-Key: " + base64.b64encode(b"0123456789abcdef"), b"Sec-WebSocket-Version: 13"]
        if token is not None:
            lines.append(b"Authorization: tahoe-lafs " + token)
        self.feed(b"\r\n".join(lines) + b"\r\n\r\n")

    def feed(self, data):
        if self.proc.alive and not self.ended:
            self.transport.protocol.dataReceived(data)

    # -- to the server
    def send(self, payload, opcode=1):
        n = len(payload)
        head = bytes([0x80 | opcode])
        if n < 126:
            head += bytes([0x80 | n])
        else:
            head += bytes([0x80 | 126]) + struct.pack(">H", n)
        body = bytes(c ^ MASK[i % 4] for i, c in enumerate(payload))
        self.feed(head + MASK + body)

    def leave(self):
        """Close in an orderly way."""
        if not self.sent_close:
            self.sent_close = True
            self.send(struct.pack(">H", 1000), 8)

    def drop(self):
        """Vanish."""
        if not self.ended:
            self.ended = True
            if self.proc.alive:
                self.transport.protocol.connectionLost(Failure(LOST()))

    # -- from the server
    def server_drops(self):
        if self.ended:
            return
        self.ended = True
        self.closed_at = self.sim.seconds() if self.closed_at is None else self.closed_at
        self.proc.clock.callLater(0.01, lambda: self.transport.protocol.connectionLost(Failure(DONE())))

    def received(self, data):
        if self.ended or not self.proc.alive:
            return
        self.raw += data
        self.buffer += data
        if not self.open:
            head, sep, rest = self.buffer.partition(b"\r\n\r\n")
            if not sep:
                return
            if not head.startswith(b"HTTP/1.1 101"):
                self.reply = parse_reply(self.buffer) or self.reply
                return
            self.open = True
            self.buffer = rest
        while len(self.buffer) >= 2:
            n = self.buffer[1] & 0x7F
            at = 2
            if n == 126:
                if len(self.buffer) < 4:
                    return
                (n,) = struct.unpack(">H", self.buffer[2:4])
                at = 4
            elif n == 127:
                if len(self.buffer) < 10:
                    return
                (n,) = struct.unpack(">Q", self.buffer[2:10])
                at = 10
            if len(self.buffer) < at + n:
                return
            op, payload = self.buffer[0] & 0x0F, self.buffer[at : at + n]
            self.buffer = self.buffer[at + n :]
            self.frame(op, payload)

    def frame(self, op, payload):
        if op in (1, 2):
            self.messages.append(payload)
            self.times.append(self.sim.seconds())
            if self.on_message is not None:
                self.on_message(self, payload)
        elif op == 8:
            code = struct.unpack(">H", payload[:2])[0] if len(payload) >= 2 else None
            self.close = (code, payload[2:])
            self.closed_at = self.sim.seconds()
            if not self.sent_close:
                self.sent_close = True
                # Answer, but not from inside the server's own call.
                self.proc.clock.callLater(0.05, lambda: self.send(payload[:2], 8))
