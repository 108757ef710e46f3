"""
What must not be in what a node sends.

A pass can be connected with its voucher by whoever sees, next to the one, the
other - or anything that belongs to both: the value a pass is made from, the
value that blinded it, the point the issuer's answer is unblinded to.
"""

from __future__ import annotations

import base64
import re

WINDOW = 24
_RUN = re.compile(rb"[A-Za-z0-9+/]{%d,}" % (WINDOW,))
_TO_STD = bytes.maketrans(b"-_", b"+/")


def forms(raw):
    """the beginnings of a value's text forms"""
    yield base64.b64encode(raw)[:WINDOW]
    yield raw.hex().encode("ascii")[:WINDOW]


class Secrets:
    def __init__(self):
        self.of = {}

    def add(self, kind, raw):
        for f in forms(raw):
            self.of[f] = kind

    def add_text(self, kind, text):
        self.of[text.encode("ascii").translate(_TO_STD)[:WINDOW]] = kind

    def find(self, data, forbidden):
        """The kind of the first secret of a forbidden kind in ``data``."""
        of = self.of
        data = data.translate(_TO_STD)
        for m in _RUN.finditer(data):
            run = m.group()
            for i in range(len(run) - WINDOW + 1):
                kind = of.get(run[i:i + WINDOW])
                if kind is not None and kind in forbidden:
                    return kind
        return None


# What neither may see, and what only the issuer, or only a server, may.
TO_ISSUER = frozenset(["pass", "blinding", "point"])
TO_SERVER = frozenset(["voucher", "blinded", "blinding", "point"])


class RequestCheck:
    """Whether requests to the issuer say only what they have to."""

    def __init__(self, sim, issuer):
        self.sim = sim
        self.issuer = issuer
        self.first = None

    def __call__(self, method, uri, headers, data, msg):
        sim, issuer = self.sim, self.issuer
        ensure = sim.ensure
        ensure(set(msg) == {"redeemVoucher", "redeemCounter", "redeemTokens"}, "C33", "more-than-needed",
               lambda: f"a redemption request has the fields {sorted(msg)}")
        head = sorted((k, tuple(v)) for k, v in headers.getAllRawHeaders() if k.lower() != b"content-length") if headers is not None else []
        frame = (bytes(method), bytes(uri), head)
        if self.first is None:
            self.first = frame
        ensure(frame == self.first, "C33", "requests-differ", lambda: f"beside the content, the request {frame} differs from an earlier one, {self.first}")
        for t in msg["redeemTokens"]:
            ensure(t.encode("ascii", "replace") in issuer.source.by_blinded, "C33", "not-blinded",
                   lambda: f"{t!r} was sent for redemption: it is not the blinding of a random token")
        kind = issuer.secrets.find(data, TO_ISSUER)
        ensure(kind is None, "C33", "sent-to-issuer", lambda: f"a redemption request has the {kind} of a token in it: {data[:300]!r}")
        kind = issuer.secrets.find(b" ".join([frame[1]] + [x for _, v in head for x in v]), TO_ISSUER)
        ensure(kind is None, "C33", "sent-to-issuer", lambda: f"the headers of a redemption request have the {kind} of a token in them")
        sim.count("redemption-requests-searched")


class WireCheck:
    """Whether what a node tells servers says anything of its vouchers."""

    def __init__(self, sim, issuer):
        self.sim = sim
        self.issuer = issuer

    def __call__(self, end, data):
        end.tail = tail = getattr(end, "tail", b"")[-200:] + data
        kind = self.issuer.secrets.find(tail, TO_SERVER)
        self.sim.ensure(kind is None, "C33", "sent-to-server", lambda: f"{'a' if kind == 'voucher' else 'the'} {kind} was sent to a server")
        self.sim.count("messages-searched")
