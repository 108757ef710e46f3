"""
What the API quotes for some files against what storing them really costs.
"""

from __future__ import annotations

import base64
import json
from collections import Counter

from _zkapauthorizer.api import ZKAPAuthorizerStorageClient
from _zkapauthorizer.controller import RistrettoRedeemer
from _zkapauthorizer.model import UnblindedToken
from _zkapauthorizer.spending import SpendingController
from _zkapauthorizer.storage_common import get_configured_pass_value
from hyperlink import URL
from treq.client import HTTPClient
from twisted.internet.defer import maybeDeferred
from twisted.python.failure import Failure

from ..core import Swarm
from ..db import SimDB, rows
from ..http import SimAgent
from ..issuer import Issuer
from ..node import ClientNode
from ..wire import Connection, install
from . import WorldSpec
from .spend import Canary, Gate, Ledger, Server, ceil_div, look


class Price:
    publish = False
    clients = ()

    def __init__(self, sim):
        self.sim = sim
        ch = sim.ch
        install(sim)
        self.swarm = Swarm(sim, ["bad-tokens", "client-crash", "server-restart"], benign=0.4)
        self.issuer = Issuer(sim, 1, allowed=2, others=0)
        self.ledger = Ledger(sim, self.issuer)
        self.spent_total = 0
        # Configured or default encoding and pass value.
        self.k, self.n = 3, 10
        conf = ""
        if ch.flag(0.8):
            self.k = 1 + ch.pick(5)
            self.n = self.k + ch.pick(6)
            conf = f"shares.needed = {self.k}\nshares.total = {self.n}"
        self.pv = 1024 * 1024
        plugin = ""
        if ch.flag(0.9):
            self.pv = ch.of([10, 1, 64, 1000, 4096])
            plugin = f"pass-value = {self.pv}"
        # A lease is renewed when no more than this is left of it.
        self.min_left = 0
        if ch.flag(0.5):
            self.min_left = ch.of([5 * 86400, 0, 1, 3601, 12 * 86400 + 7, 30 * 86400])
            plugin += f"\nlease.min-time-remaining = {self.min_left}"
        self.sizes = [self.size() for _ in range(1 + ch.pick(4))]
        self.sis = [b"%016d" % i for i in range(len(self.sizes))]
        self.servers = [Server(self, i) for i in range(1 + ch.pick(3))]
        self.db = SimDB(sim, "node", Counter())
        self.node = ClientNode(sim, self.db, None, 1, 100, self.issuer.allowed, full=True,
                               client_config=conf, plugin_config=plugin)
        self.voucher_n = 0

    def size(self):
        ch, pv, k, n = self.sim.ch, self.pv, self.k, self.n
        base = ch.of([k * pv, 0, 1, pv, k * pv - 1, k * pv + 1, n * pv, 2 * k * pv, 3 * k * pv + k - 1, None])
        if base is None:
            base = ch.pick(4 * k * pv)
        return base

    # What the servers ask of a world.
    def check_quote(self, *a):
        pass

    def fund(self, count, pub):
        self.voucher_n += 1
        voucher = base64.urlsafe_b64encode(b"voucher %024d" % self.voucher_n)
        texts = [self.ledger.mint(pub) for _ in range(count)]
        store = self.node.store
        store.add(voucher, count, 0, lambda: [])
        store.insert_unblinded_tokens_for_voucher(
            voucher, pub, [UnblindedToken(t.encode("ascii")) for t in texts], completed=True, spendable=True)

    def boot(self):
        self.node.boot()
        node = self.node
        redeemer = RistrettoRedeemer(HTTPClient(SimAgent(node.proc, None)), URL.from_text("https://issuer.invalid/"))
        self.controller = SpendingController.for_store(redeemer.tokens_to_passes, node.store)
        self.connections = {}

    name = "client"

    def storage(self, server):
        conn = self.connections.get(server.n)
        if conn is None or conn.cut or not conn.server_proc.alive:
            conn = Connection(self.sim, self.node.proc, server.proc, Gate(server, self), scale=0.3)
            self.connections[server.n] = conn
        return ZKAPAuthorizerStorageClient(get_configured_pass_value(self.node.config()), lambda: conn.rref, self.controller.get,
                                           self.node.proc.clock)

    def quote(self, sizes):
        reply = self.node.api.call(
            b"POST", b"/calculate-price", json.dumps({"version": 1, "sizes": sizes}).encode(),
            headers=[(b"Content-Type", b"application/json")])
        self.sim.ensure(reply is not None and reply.code == 200, "C29", "no-quote",
                        lambda: f"no price for {sizes}: {reply and (reply.code, reply.body)}")
        got = reply.json()
        return got["price"], got["period"]

    def run(self):
        sim, ch = self.sim, self.sim.ch
        self.boot()
        price, period = self.quote(self.sizes)
        sim.log("quote", self.k, self.n, self.pv, tuple(self.sizes), price, period)
        need = sum(ceil_div(ceil_div(s, self.k), self.pv) * self.n for s in self.sizes)
        bad = 0
        if self.swarm["bad-tokens"]:
            bad = 1 + ch.pick(5)
            self.fund(bad, self.issuer.allowed[1])
            sim.count("fault:bad-tokens")
        self.fund(need + 3, self.issuer.allowed[0])
        pending = []
        # All the storage operations for all the files, in any order.
        todo = []
        for si, size in zip(self.sis, self.sizes):
            share_size = ceil_div(size, self.k)
            mutable = ch.flag(0.3) and share_size < 20000
            where = {}
            for shnum in range(self.n):
                where.setdefault(ch.pick(len(self.servers)), []).append(shnum)
            for s, shnums in sorted(where.items()):
                todo.append((si, share_size, mutable, self.servers[s], shnums))
        for si, share_size, mutable, server, shnums in ch.shuffled(todo):
            if sim.fault("client-crash", self.swarm["client-crash"]):
                sim.run_for(60.0)
                self.node.crash("client-crash")
                self.boot()
            if sim.fault("server-restart", self.swarm["server-restart"]):
                sim.run_for(60.0)
                server.restart()
            self.store(pending, si, share_size, mutable, server, shnums)
            if ch.flag(0.5):
                sim.run_for(ch.delay(3.0))
        sim.run_for(120.0)
        for what, result in pending:
            sim.ensure(result and not isinstance(result[0], Failure), "C29", "not-stored",
                       lambda: f"{what}: {result[0].type.__name__ + ': ' + result[0].getErrorMessage()[:200] if result else 'never ended'}")
        spent = self.spent_total
        sim.ensure(spent == price, "C29", "quote-wrong",
                   f"{self.sizes} with {self.k} of {self.n} shares at {self.pv} bytes a pass: quoted {price}, cost {spent}")
        dump = self.db.dump()
        left = len(rows(dump, "unblinded-tokens")) + len(rows(dump, "invalid-unblinded-tokens"))
        gone = need + 3 + bad - left
        sim.ensure(gone == price, "C29", "quote-wrong-client", f"quoted {price}, the client spent {gone}")
        again, _ = self.quote(self.sizes)
        sim.ensure(again == price, "C29", "quote-changed", f"quoted {price}, then {again}")
        # What was paid for is one lease period.
        for server in self.servers:
            for si in self.sis:
                for n, (_k, _s, _d, exps) in look(server.plain, si).items():
                    sim.ensure(len(exps) == 1 and sim.START - 1 <= exps[0] - self.min_left - period <= sim.seconds() + 1, "C29", "period-wrong",
                               f"share {n} stored since {sim.START:.0f} has leases {exps}, to be renewed {self.min_left} s before the end; "
                               f"the quote is for a period of {period}")
        sim.state(self.k, self.n, self.pv, tuple(self.sizes))

    def store(self, pending, si, size, mutable, server, shnums):
        sim = self.sim
        storage = self.storage(server)
        secrets = [b"%032d" % i for i in range(3)]
        out = []
        data = b"d" * size
        sim.log("store", "mutable" if mutable else "immutable", server.n, size, tuple(shnums))
        sim.count("op:write" if mutable else "op:allocate")
        if mutable:
            if not size:
                return
            d = maybeDeferred(storage.slot_testv_and_readv_and_writev, si, tuple(secrets),
                              {n: ([], [(0, data)], None) for n in shnums}, [])
        else:
            d = maybeDeferred(storage.allocate_buckets, si, secrets[1], secrets[2], set(shnums), size, Canary())
        self.node.proc.keep.append(d)
        pending.append((f"{'write' if mutable else 'allocate'} {size} x {len(shnums)}", out))

        def done(result):
            out.append(result)
            if not isinstance(result, Failure) and not mutable:
                for n, w in sorted(result[1].items()):
                    if size <= 20000:
                        w.callRemote("write", 0, data).addErrback(lambda f: None)
                        w.callRemote("close").addErrback(lambda f: None)

        d.addBoth(done)


def run(sim):
    Price(sim).run()


SPECS = [
    WorldSpec(
        "price", run, ["C29"], quick=1500, thorough=200000,
        real=["resource._CalculatePrice over twisted.web", "resource.from_configuration", "pricecalculator.PriceCalculator",
              "_storage_client.ZKAPAuthorizerStorageClient", "_storage_server.ZKAPAuthorizerStorageServer",
              "spending.SpendingController", "model.VoucherStore", "foolscap brokers", "allmydata StorageServer"],
        stubs=["the byte transport under foolscap", "reactor clock", "the erasure coding itself: shares of the right size are stored"],
        assumptions=["what Tahoe-LAFS adds to the erasure coded data in a share is not part of the quote"],
    ),
]
