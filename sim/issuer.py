"""A simulated ZKAP issuer: real signatures, a ledger, and every way to fail."""

from __future__ import annotations

import base64
import hashlib
import json

import challenge_bypass_ristretto as cbr

from .private import Secrets


def make_key(n):
    raw = hashlib.sha256(b"signing key %d" % (n,)).digest()
    # A canonical scalar: clear the top bits.
    raw = raw[:31] + b"\x07"
    return cbr.SigningKey.decode_base64(base64.b64encode(raw))


def public(key):
    return cbr.PublicKey.from_signing_key(key).encode_base64().decode("ascii")


class TokenSource:
    """
    Replaces cbr.RandomToken.create: deterministic, unique, remembered.
    """

    def __init__(self, sim):
        self.sim = sim
        self.by_blinded = {}
        self.secrets = Secrets()
        self.made = 0

    def create(self):
        raw = self.sim.nonce(95) + b"\x01"
        token = cbr.RandomToken.decode_base64(base64.b64encode(raw))
        self.made += 1
        blinded = token.blind().encode_base64()
        self.by_blinded[blinded] = raw[:64]
        self.secrets.add("pass", raw[:64])
        self.secrets.add("blinding", raw[64:])
        self.secrets.add_text("blinded", blinded.decode("ascii"))
        return token


_REAL_CREATE = cbr.RandomToken.create


def install_tokens(sim):
    src = TokenSource(sim)
    cbr.RandomToken.create = staticmethod(src.create)
    return src


def parts(unblinded):
    """preimage and point of an unblinded token in its text form"""
    raw = base64.b64decode(unblinded)
    return raw[:64], raw[64:]


class Issuer:
    def __init__(self, sim, groups, allowed=1, others=1):
        self.sim = sim
        self.groups = groups
        self.source = install_tokens(sim)
        self.secrets = self.source.secrets
        self.keys = {}
        self.allowed = []
        self.others = []
        for i in range(allowed + others):
            k = make_key(i)
            p = public(k)
            self.keys[p] = k
            (self.allowed if i < allowed else self.others).append(p)
        self.current = self.allowed[0]
        self.paid = set()
        self.elsewhere = set()
        # (voucher, counter) -> list of blinded tokens
        self.ledger = {}
        # (voucher, counter) -> set of public keys signed with
        self.signed_with = {}
        self._points = {}

    def rederive(self, pub, preimage):
        """The only valid unblinded token for this preimage and key."""
        try:
            return self._points[pub, preimage]
        except KeyError:
            t = cbr.TokenPreimage.decode_base64(base64.b64encode(preimage))
            v = self.keys[pub].rederive_unblinded_token(t).encode_base64().decode("ascii")
            self._points[pub, preimage] = v
            self.secrets.add("point", base64.b64decode(v)[64:])
            return v

    def preimages(self, voucher, counter):
        return [self.source.by_blinded[b.encode("ascii")] for b in self.ledger.get((voucher, counter), [])]

    def handle(self, voucher, counter, tokens):
        """
        Process one redemption, return (outcome, response object).
        """
        if voucher not in self.paid:
            return "unpaid", {"success": False, "reason": "unpaid"}
        if voucher in self.elsewhere:
            return "double-spend", {"success": False, "reason": "double-spend"}
        if not 0 <= counter < self.groups:
            return "bad-counter", {"success": False, "reason": "invalid counter"}
        have = self.ledger.setdefault((voucher, counter), tokens)
        if have != tokens:
            return "double-spend", {"success": False, "reason": "double-spend"}
        self.signed_with.setdefault((voucher, counter), set()).add(self.current)
        return "ok", self.sign(tokens, self.current)

    def sign(self, tokens, pub, proof_key=None):
        key = self.keys[pub]
        blinded = [cbr.BlindedToken.decode_base64(t.encode("ascii")) for t in tokens]
        signed = [key.sign(b) for b in blinded]
        proof = cbr.BatchDLEQProof.create(self.keys[proof_key] if proof_key else key, blinded, signed)
        return {
            "success": True,
            "public-key": pub,
            "signatures": [s.encode_base64().decode("ascii") for s in signed],
            "proof": proof.encode_base64().decode("ascii"),
        }


def body(obj):
    return json.dumps(obj).encode("utf-8")
