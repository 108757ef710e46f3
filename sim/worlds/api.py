"""
The HTTP API of a busy node: requests with and without the right token, of
every kind and shape, while everything the node does goes on.
"""

from __future__ import annotations

import base64
import json
import os

from tahoe_capabilities import danger_real_capability_string

from ..core import SimCrash, Swarm
from ..db import rows
from ..grid import GRID_KINDS, Grid
from ..whole import WholeNode
from ..ws import WS
from . import WorldSpec

KINDS = ["db-crash", "db-error"] + GRID_KINDS
METHODS = [b"GET", b"PUT", b"POST", b"DELETE", b"HEAD", b"OPTIONS", b"PATCH", b"FROB"]
JSON_TYPE = (b"content-type", b"application/json")

STRANGE = ["A" * 40 + "\u2603" * 4, "A" * 40 + "\xe9\xff\xfe\xdf", "", "x", "A" * 43, "A" * 45, "!" * 44, "A" * 43 + "\n", "\u2603" * 44, "A" * 40 + "====", " " * 44, "A" * 42 + "+/",
           None, 7, [], {}, True, ["A" * 43 + "="], {"number": "A" * 43 + "="}, -1.5]
SIZES = [[], [0], [1], [1, 2, 3], [10**6], [10**18], [0] * 20, [10**40]]
BAD_SIZES = [None, 1, "1", {}, [-1], ["1"], [1.5], [None], [[1]], [1, -1], [float("inf")]]


class ApiWorld:
    def __init__(self, sim):
        self.sim = sim
        sim.max_events = 250000
        self.swarm = Swarm(sim, KINDS)
        self.grid = Grid(sim)
        self.vouchers = 0
        self.tokens = 0
        self.count = sim.ch.of([20, 1, 64])
        groups = max(16, self.count)
        self.node = WholeNode(sim, self.swarm, self.grid, disk=False,
                              redeemer=f"redeemer = dummy\nissuer-public-key = key\nallowed-public-keys = key\ndefault-token-count = {groups}")
        self.expected_tokens = groups
        self.known = []
        self.old = []
        self.baseline = {}
        self.sockets = []
        self.recovering = False
        self.rotate()
        self.caps = [danger_real_capability_string(self.grid.mkdir().reader) for _ in range(2)]

    def rotate(self):
        ch = self.sim.ch
        self.old.append(self.node.token)
        self.tokens += 1
        self.node.token = base64.b64encode(b"token %d" % self.tokens + self.sim.nonce(24)) if ch.flag(0.8) else b"tok%d:with-%%41.signs" % self.tokens
        self.node.write_token()
        if self.node.api is not None:
            self.node.api.token = self.node.token
        self.sim.log("rotate")

    def boot(self):
        self.recovering = False
        self.sockets = []
        return self.node.try_boot()

    # -- without the token ------------------------------------------------------
    def wrong(self):
        """Headers that do not carry the token."""
        ch = self.sim.ch
        t = self.node.token
        k = ch.pick(20)
        flipped = bytes([t[0] ^ 1]) + t[1:]
        last = t[:-1] + bytes([t[-1] ^ 1])
        a = b"authorization"
        got = [
            [],
            [(a, b"tahoe-lafs " + self.old[-1])],
            [(a, b"tahoe-lafs " + t[:-1])],
            [(a, b"tahoe-lafs " + t + b"x")],
            [(a, b"tahoe-lafs " + flipped)],
            [(a, b"tahoe-lafs " + last)],
            [(a, b"tahoe-lafs")],
            [(a, b"tahoe-lafs  " + t)],
            [(a, b"tahoe-lafs " + t.swapcase())] if t.swapcase() != t else [],
            [(a, t)],
            [(a, b"Bearer " + t)],
            [(a, b"Basic " + base64.b64encode(b":" + t))],
            [(a, b"Basic " + base64.b64encode(t + b":" + t))],
            [(a, b"tahoe-lafs:" + t)],
            [(a, b"tahoe-lafs " + base64.b64encode(t))],
            [(a, b"tahoe-lafs \xff\xfe\x00")],
            [(a, b"")],
            [(b"cookie", b"tahoe-lafs=" + t), (b"x-authorization", b"tahoe-lafs " + t)],
            [(a, b"tahoe-lafs " + t + b"," + t)],
            [(a, b"tahoe-lafs None")],
        ][k]
        return k, got

    def facts(self):
        """Everything an unauthorized request must leave alone."""
        sim = self.sim
        files = []
        for base, dirs, names in os.walk(self.node.basedir):
            for n in sorted(names):
                path = os.path.join(base, n)
                if os.path.islink(path):
                    files.append((n, os.readlink(path)))
                    continue
                with open(path, "rb") as f:
                    files.append((n, f.read()))
        return (self.node.db.dump(), self.node.db.current.real.total_changes, self.node.gateway.requests, len(self.grid.dirs),
                sorted(files), len(sim.clock.calls))

    def intrude(self):
        sim, ch, node = self.sim, self.sim.ch, self.node
        method = ch.of(METHODS)
        path = self.path()
        if ch.flag(0.2):
            path += b"?token=" + node.token
        k, headers = self.wrong()
        body = self.body()
        if ch.flag(0.7):
            headers = headers + [JSON_TYPE]
        before = self.facts()
        sim.log("intrude", method.decode(), path.decode("latin-1")[:60], k)
        sim.count("unauthorized-requests")
        if ch.flag(0.1):
            ws = WS(node.api, b"/recover", token=ch.of([None, self.old[-1], node.token + b"x"]))
            reply, what = ws.reply, "a websocket"
            sim.ensure(not ws.open, "C27", "websocket", "a websocket is opened without the token")
            ws.ended = True
        else:
            reply = node.api.call(method, path, body, headers, token=None)
            what = f"{method.decode()} {path.decode('latin-1')[:80]} with credentials {k}"
        if not node.up:
            # The database is not even looked at
            sim.violation("C27", "effect", f"{what} without the token leads to a database access")
            return
        sim.ensure(reply is not None, "C27", "not-refused", f"{what} without the token is not answered")
        sim.ensure(reply.code == 401, "C27", "not-refused", f"{what} without the token is answered {reply.code} {reply.body[:60]!r}")
        after = self.facts()
        for name, x, y in zip(["database", "database", "grid", "grid", "files", "timers"], before, after):
            sim.ensure(x == y, "C27", "effect", lambda: f"{what} without the token changes the {name}: {str(x)[:100]} {str(y)[:100]}")
        seen = (reply.code, reply.body, sorted((h, v) for h, v in reply.headers.items() if h not in (b"date", b"content-length", b"connection")))
        key = method == b"HEAD" and not what.startswith("a websocket")
        if self.baseline.setdefault(key, seen) != seen:
            sim.violation("C27", "reveals", f"{what} without the token is answered {seen}, others {self.baseline[key]}")

    # -- what to ask ---------------------------------------------------------------
    def path(self):
        ch = self.sim.ch
        v = ch.of(self.known) if self.known and ch.flag(0.7) else "A" * 43 + "="
        return ch.of([
            b"/voucher", b"/version", b"/lease-maintenance", b"/calculate-price", b"/replicate", b"/recover",
            b"/voucher/" + v.encode("ascii"), b"/voucher/" + v.encode("ascii") + b"/more", b"/", b"", b"/nothing", b"/voucher/", b"//voucher",
            b"/voucher/%ff%fe", b"/voucher/" + b"%41" * 44, b"/version/x", b"/unblinded-token", b"/%76oucher", b"/../voucher",
            b"/voucher/..%2f..", b"/" + b"x" * 3000, b"/version;a=b", b"/voucher/" + b"A" * 44, b"/voucher/%00",
        ]) or b"/"

    def body(self):
        ch = self.sim.ch
        k = ch.pick(8)
        if k == 0:
            return b""
        if k == 1:
            return json.dumps({"voucher": self.fresh_voucher()}).encode()
        if k == 2:
            return json.dumps({"voucher": ch.of(STRANGE)}).encode()
        if k == 3:
            return json.dumps({"version": 1, "sizes": ch.of(SIZES)}).encode()
        if k == 4:
            return json.dumps({"version": ch.of([1, 2, None, "1", True]), "sizes": ch.of(BAD_SIZES)}).encode()
        if k == 5:
            return json.dumps({"recovery-capability": ch.of(self.caps)}).encode()
        if k == 6:
            return ch.of([b"\xff", b"{", b"null", b"[]", b"7", b'"x"', b'{"voucher": 1, "voucher": 2}', b"NaN", b'{"sizes": 1}', b"[" * ch.of([5000, 100000])])
        return b"x" * 70000

    def fresh_voucher(self):
        self.vouchers += 1
        return base64.urlsafe_b64encode(b"voucher %03d" % self.vouchers + b"v" * 21).decode("ascii")

    # -- with the token -----------------------------------------------------------------
    def ask(self, method, path, body=b"", headers=()):
        """
        A request with the token.  None if it need not be answered.
        """
        sim, node = self.sim, self.node
        was = self.faults()
        try:
            pending = node.api.send(method, path, body, list(headers))
        except SimCrash:
            return None
        if not node.up:
            return None
        r = pending.reply()
        excused = self.faults() != was or self.recovering
        sim.log("ask", method.decode(), path.decode("latin-1")[:60], r.code if r else None)
        sim.count("authorized-requests")
        what = f"{method.decode()} {path.decode('latin-1')[:80]}"
        if r is None:
            sim.ensure(excused, "C32", "not-answered", f"{what} is not answered")
            return None
        sim.ensure(r.code != 401, "C27", "refused", f"{what} with the token is refused")
        if r.code >= 500 and r.code != 501:
            sim.ensure(excused, "C32", "internal-error", lambda: f"{what} {body[:80]!r} is answered {r.code} {r.body[-300:]!r}")
            return None
        return r

    def faults(self):
        return sum(v for k, v in self.sim.counters.items() if k.startswith("fault:") and not k.startswith("fault:outage"))

    def expect(self, r, what, codes):
        if r is not None:
            self.sim.ensure(r.code in codes, "C32", "wrong-answer", lambda: f"{what} is answered {r.code} {r.body[:100]!r}")

    def json(self, r, what):
        sim = self.sim
        sim.ensure(r.headers.get(b"content-type", b"").startswith(b"application/json"), "C32", "wrong-answer", f"{what} is answered with {r.headers.get(b'content-type')}")
        try:
            return r.json()
        except ValueError:
            sim.violation("C32", "wrong-answer", f"{what} is answered with {r.body[:100]!r}")

    def authorized(self):
        sim, ch = self.sim, self.sim.ch
        k = ch.weighted([6, 6, 4, 4, 3, 3, 3, 4, 2, 2])
        [self.submit, self.submit_bad, self.look, self.list, self.version, self.price, self.bad_price, self.anything, self.maintenance, self.resubmit][k]()

    def submit(self):
        v = self.fresh_voucher()
        r = self.ask(b"PUT", b"/voucher", json.dumps({"voucher": v}).encode(), [JSON_TYPE])
        if r is not None:
            self.expect(r, "submitting a voucher", (200,))
            self.known.append(v)
            have = {x["number"] for x in rows(self.node.db.dump(), "vouchers")}
            self.sim.ensure(v in have, "C32 C01", "not-accepted", "an accepted voucher is not in the database")
        else:
            self.settle()

    def settle(self):
        """It is not known which vouchers there are."""
        if self.node.up:
            self.known = [x["number"] for x in rows(self.node.db.dump(), "vouchers")]

    def resubmit(self):
        if not self.known:
            return
        v = self.sim.ch.of(self.known)
        before = self.durable(v)
        r = self.ask(b"PUT", b"/voucher", json.dumps({"voucher": v}).encode(), [JSON_TYPE])
        if r is None:
            return self.settle()
        self.expect(r, "submitting a voucher again", (200,))
        if before["state"] == "redeemed":
            self.sim.ensure(self.durable(v) == before, "C32 C01", "effect", "submitting a redeemed voucher again has an effect")

    def durable(self, v):
        return [x for x in rows(self.node.db.dump(), "vouchers") if x["number"] == v][0]

    def submit_bad(self):
        sim, ch = self.sim, self.sim.ch
        v = ch.of(STRANGE)
        body = ch.of([json.dumps({"voucher": v}).encode(), json.dumps({"voucher": v, "x": 1}).encode(), json.dumps([v]).encode(), json.dumps(v).encode(),
                      b"", b"{", b"\xff\xff", json.dumps({"voucher": "A" * 44, "more": 1}).encode(), b"[" * ch.of([5000, 100000]), b'{"voucher": NaN}'])
        before = self.node.db.dump()
        r = self.ask(b"PUT", b"/voucher", body, [JSON_TYPE])
        if r is None:
            return self.settle()
        self.expect(r, f"submitting {body[:90]!r}", (400,))
        sim.ensure(self.node.db.dump() == before, "C32", "effect", "a request answered as bad has an effect")

    def look(self):
        ch = self.sim.ch
        if self.known and ch.flag(0.7):
            v = ch.of(self.known)
            r = self.ask(b"GET", b"/voucher/" + v.encode("ascii"))
            self.expect(r, "asking for a voucher", (200,))
            if r is not None:
                self.same(self.json(r, "asking for a voucher"), self.durable(v))
        else:
            unknown = base64.urlsafe_b64encode(b"unknown" + b"u" * 25)
            r = self.ask(b"GET", b"/voucher/" + unknown)
            self.expect(r, "asking for an unknown voucher", (404,))
            bad = ch.of([b"x", b"%ff%fe", b"A" * 43, b"!" * 44, b"%E2%98%83" * 44])
            r = self.ask(b"GET", b"/voucher/" + bad)
            self.expect(r, f"asking for voucher {bad[:20]!r}", (400, 404))

    def same(self, got, row):
        sim = self.sim
        sim.ensure(got.get("version") == 1 and got.get("number") == row["number"] and got.get("expected-tokens") == row["expected-tokens"], "C32 C01 C05", "wrong-answer",
                   lambda: f"{got} describes {row}")
        state = got["state"]["name"]
        want = {"redeemed": ("redeemed",), "double-spend": ("double-spend",), "pending": ("pending", "redeeming", "unpaid", "error")}[row["state"]]
        sim.ensure(state in want, "C32 C05", "wrong-answer", f"a voucher is described as {state}, it is {row['state']}")
        keys = {"pending": {"counter"}, "redeeming": {"started", "counter"}, "redeemed": {"finished", "token-count"}, "double-spend": {"finished"},
                "unpaid": {"finished"}, "error": {"finished", "details"}}[state]
        sim.ensure(keys <= set(got["state"]), "C32", "wrong-answer", f"state {got['state']} lacks some of {keys}")

    def list(self):
        r = self.ask(b"GET", b"/voucher")
        self.expect(r, "listing", (200,))
        if r is not None:
            got = {v["number"]: v for v in self.json(r, "listing")["vouchers"]}
            want = {x["number"]: x for x in rows(self.node.db.dump(), "vouchers")}
            self.sim.ensure(set(got) == set(want), "C32 C01 C05", "wrong-answer", f"{len(got)} vouchers are listed, there are {len(want)}")
            for n, v in got.items():
                self.same(v, want[n])

    def version(self):
        r = self.ask(b"GET", b"/version")
        self.expect(r, "asking for the version", (200,))
        if r is not None:
            got = self.json(r, "asking for the version")
            self.sim.ensure(list(got) == ["version"] and isinstance(got["version"], str), "C32", "wrong-answer", f"the version is {got}")

    def price(self):
        sizes = self.sim.ch.of(SIZES)
        r = self.ask(b"POST", b"/calculate-price", json.dumps({"version": 1, "sizes": sizes}).encode(), [JSON_TYPE])
        self.expect(r, f"asking for the price of {str(sizes)[:60]}", (200,))
        if r is not None:
            got = self.json(r, "asking for a price")
            self.sim.ensure(isinstance(got.get("price"), int) and isinstance(got.get("period"), int), "C32", "wrong-answer", f"the price is {got}")

    def bad_price(self):
        ch = self.sim.ch
        good = json.dumps({"version": 1, "sizes": [1]}).encode()
        body, headers = ch.of([
            (json.dumps({"version": 1, "sizes": ch.of(BAD_SIZES)}).encode(), [JSON_TYPE]),
            (json.dumps({"version": ch.of([2, None, "1", [], 0]), "sizes": [1]}).encode(), [JSON_TYPE]),
            (json.dumps({"version": 1}).encode(), [JSON_TYPE]), (json.dumps({"sizes": [1]}).encode(), [JSON_TYPE]),
            (b"", [JSON_TYPE]), (b"{", [JSON_TYPE]), (b"\xff", [JSON_TYPE]), (b"[]", [JSON_TYPE]), (b"7", [JSON_TYPE]), (b"null", [JSON_TYPE]),
            (good, []), (good, [(b"content-type", b"text/plain")]), (b"[" * ch.of([5000, 100000]), [JSON_TYPE]),
        ])
        r = self.ask(b"POST", b"/calculate-price", body, headers)
        self.expect(r, f"asking for the price of {body[:80]!r} {headers[:1]}", (400,))

    def maintenance(self):
        r = self.ask(b"GET", b"/lease-maintenance")
        self.expect(r, "asking about lease maintenance", (200,))
        if r is not None:
            got = self.json(r, "asking about lease maintenance")
            d = self.node.db.dump()
            groups = {g["rowid"] for g in rows(d, "redemption-groups") if g["spendable"]}
            have = sum(1 for t in rows(d, "unblinded-tokens") if t["redemption-group"] in groups)
            total = got.get("total", got.get("spendable"))
            self.sim.ensure(total == have, "C32 C08", "wrong-answer", f"{total} tokens are reported, there are {have}")

    def anything(self):
        """Whatever this is, it does not make the node fail."""
        ch = self.sim.ch
        method = ch.of(METHODS)
        path = self.path()
        if path.strip(b"/") == b"recover" or (path.strip(b"/") == b"replicate" and method == b"POST"):
            # What is not a handshake is answered by the websocket library
            return
        self.ask(method, path, self.body(), [JSON_TYPE] if ch.flag(0.8) else [])
        self.settle()

    # -- the run -------------------------------------------------------------------------
    def step(self):
        sim, ch, node = self.sim, self.sim.ch, self.node
        if not node.up:
            sim.run_for(1.0)
            if self.boot():
                self.settle()
            return
        k = ch.weighted([10, 20, 20, 3, 1, 2, 1, 2])
        if k == 0:
            for _ in range(1 + ch.pick(5)):
                if not sim.clock.step():
                    break
        elif k == 1:
            for _ in range(1 + ch.pick(3)):
                if node.up:
                    self.intrude()
        elif k == 2:
            for _ in range(1 + ch.pick(3)):
                if node.up:
                    self.authorized()
        elif k == 3:
            self.rotate()
        elif k == 4 and sim.faults_on:
            node.crash()
        elif k == 5:
            node.api.send(b"POST", b"/replicate", b"")
        elif k == 6:
            ws = WS(node.api, b"/recover")
            if node.up:
                sim.ensure(ws.open, "C27", "refused", "a websocket is not opened with the token")
                self.sockets.append(ws)
                self.recovering = True
                ws.send(json.dumps({"recovery-capability": ch.of(self.caps)}).encode())
        elif k == 7:
            sim.run_for(ch.of([1.0, 30.0, 400.0]))
        if self.recovering and all(ws.closed_at is not None for ws in self.sockets):
            self.recovering = False
            self.settle()

    def run(self):
        sim, ch = self.sim, self.sim.ch
        if self.boot():
            self.settle()
        for _ in range(10 + ch.pick(40)):
            self.step()
        sim.log("healthy")
        sim.faults_on = False
        if not self.node.up and not self.boot():
            sim.violation(sim.target, "cannot-start", "the node cannot start though nothing is wrong any more")
            return
        self.settle()
        sim.run_for(400.0)
        if self.recovering and all(ws.closed_at is not None for ws in self.sockets):
            self.recovering = False
        self.settle()
        for _ in range(6):
            self.authorized()
            self.intrude()
        self.rotate()
        self.version()
        self.intrude()


def run(sim):
    ApiWorld(sim).run()


SPECS = [
    WorldSpec(
        "api", run, ["C27", "C32"], quick=900, thorough=200000, also={"C01": 0.2, "C05": 0.3, "C08": 0.2},
        real=["private (the guard), resource (all of it)", "_plugin.ZKAPAuthorizer", "controller.PaymentController with DummyRedeemer", "model.VoucherStore",
              "twisted.web server, twisted.cred, autobahn websocket server", "sqlite3 (real engine, real files)"],
        stubs=["HTTP client (raw requests)", "TCP (in-memory transports)", "Tahoe-LAFS gateway and grid", "reactor clock",
               "process crashes (abandoned object graph, copied database files)"],
        assumptions=["the token file is readable"],
    ),
]
