"""
Vouchers, redemption and the voucher API against a simulated issuer, with
crashes, database faults and every kind of network and issuer failure.
"""

from __future__ import annotations

import base64
import json
from datetime import datetime

from twisted.python.failure import Failure

from _zkapauthorizer.model import NotEnoughTokens

from ..core import SimCrash, Swarm
from ..db import SimDB, rows
from ..http import LOST, REFUSED, SimResponse
from ..issuer import Issuer, body, parts
from ..node import ClientNode
from ..private import RequestCheck
from . import WorldSpec

KINDS = [
    "db-crash", "db-error", "refused", "lost-request", "lost-reply", "late-request", "http-error", "not-json",
    "unknown-reason", "bad-proof", "short", "wrong-key-proof", "truncated", "slow", "not-object", "reconfigured",
]


def voucher_number(n):
    return base64.urlsafe_b64encode(b"voucher %03d" % n + b"v" * 21).decode("ascii")


ALSO = {
    "value-lost-to-double-spend": "C02 C04",
    "terminal-state-left": "C05",
    "written-off": "C04 C05",
    "redeemed-early": "C04",
    "not-redeemed": "C04",
    "group-count": "C05",
    "wrong-spendable": "C03",
    "token-count-wrong": "C06",
    "lost": "C04",
}


class Redeem:
    def __init__(self, sim):
        self.sim = sim
        ch = sim.ch
        self.swarm = Swarm(sim, KINDS)
        sim.also = ALSO
        self.full = ch.flag(0.15)
        self.groups = 16 if self.full else ch.of([2, 1, 3, 4])
        self.tokens = self.groups * ch.of([1, 2, 3]) + ch.pick(self.groups)
        if ch.flag(0.04):
            # As many in one group as there are in practice, almost.
            self.tokens = self.groups * (20 + ch.pick(50)) + ch.pick(self.groups)
        self.issuer = Issuer(sim, self.groups)
        self.private = RequestCheck(sim, self.issuer)
        if ch.flag(0.1):
            self.issuer.current = self.issuer.others[0]
        self.db = SimDB(sim, "node", self.swarm)
        self.db.on_commit.append(self.after_commit)
        self.node = ClientNode(sim, self.db, self.route, self.groups, self.tokens, self.issuer.allowed, full=self.full)
        self.vouchers = [voucher_number(i) for i in range(1 + ch.pick(3))]
        # voucher -> what we know must stay true of it
        self.accepted = {}
        self.known = {}
        self.progress = {}
        self.requests = {}
        self.outstanding = {}
        self.outcome = {}
        self.spent = set()
        self.invalid = set()
        self.in_use = set()
        self.finished_tokens = set()
        self.maybe_gone = set()
        self.legit_double = set()
        self.undisturbed_at = 0
        self.outage = False
        self.true_pub = {}
        # Whether the key was in the configuration when the token/group was recorded.
        self.allowed_when = {}
        self.group_ok = {}
        self.prev = None

    # -- the network and the issuer ---------------------------------------
    def route(self, agent, method, uri, headers, data, result):
        sim = self.sim
        proc = agent.proc
        msg = json.loads(data)
        v, c, tokens = msg["redeemVoucher"], msg["redeemCounter"], msg["redeemTokens"]
        sim.log("redeem-request", v[:16], c, len(tokens))
        sim.count("redeem-requests")
        self.private(method, uri, headers, data, msg)
        self.check_request(proc, v, c, tokens)
        self.outstanding[v] = proc
        swarm = self.swarm

        def later(delay, f, *a):
            sim.clock.callLater(delay, f, *a)

        def finish(kind, deliver):
            """The client finds out how its attempt ended."""
            if not proc.alive:
                return
            if self.outstanding.get(v) is proc:
                del self.outstanding[v]
            self.outcome[v] = kind
            sim.log("outcome", v[:16], c, kind)
            sim.count("outcome:" + kind)
            try:
                deliver()
            except SimCrash:
                pass

        def fail(exc):
            finish("error", lambda: result.errback(Failure(exc)))

        def reply(kind, code, data, truncate=None):
            if not proc.alive:
                return
            resp = SimResponse(proc, method, uri, code, data, truncate=truncate)
            if kind == "ok" and truncate is None:
                finish("delivered", lambda: result.callback(resp))
            else:
                finish(kind if truncate is None else "error", lambda: result.callback(resp))

        def serve(answer=True):
            outcome, obj = self.issuer.handle(v, c, tokens)
            sim.log("issuer", outcome)
            if outcome == "double-spend" and v not in self.issuer.elsewhere:
                sim.violation(
                    "C03", "value-lost-to-double-spend",
                    f"voucher {v} group {c}: the node asked with different tokens than before, the issuer refuses for ever",
                )
            if not answer:
                return
            d = delay()
            if sim.fault("lost-reply", swarm["lost-reply"]):
                later(d + 1.0, fail, LOST())
            elif sim.fault("http-error", swarm["http-error"]):
                later(d, reply, "error", 502, b"<html>Bad gateway</html>")
            elif sim.fault("not-json", swarm["not-json"]):
                later(d, reply, "error", 200, b"\xff{not json")
            elif sim.fault("not-object", swarm["not-object"]):
                later(d, reply, "error", 200 if sim.ch.flag(0.7) else 500, self.malformed(obj))
            elif sim.fault("unknown-reason", swarm["unknown-reason"]):
                later(d, reply, "error", 500, body({"success": False, "reason": "the database is on fire"}))
            elif sim.fault("truncated", swarm["truncated"]):
                data = body(obj)
                later(d, reply, "error", 200, data, len(data) // 2)
            elif outcome == "ok" and sim.fault("bad-proof", swarm["bad-proof"]):
                obj["signatures"] = list(reversed(obj["signatures"])) if len(tokens) > 1 else [
                    self.issuer.sign(tokens, self.issuer.others[0])["signatures"][0]]
                later(d, reply, "error", 200, body(obj))
            elif outcome == "ok" and sim.fault("wrong-key-proof", swarm["wrong-key-proof"]):
                other = self.issuer.sign(tokens, self.issuer.others[0])
                other["public-key"] = self.issuer.allowed[0]
                later(d, reply, "error", 200, body(other))
            elif outcome == "ok" and len(tokens) > 1 and sim.fault("short", swarm["short"]):
                later(d, reply, "error", 200, body(self.issuer.sign(tokens[:-1], self.issuer.current)))
            else:
                kind = {"ok": "ok", "unpaid": "unpaid", "double-spend": "double-spend"}.get(outcome, "error")
                if kind == "double-spend":
                    self.legit_double.add(v)
                later(d, reply, kind, 200 if kind == "ok" else 400, body(obj))

        def delay():
            d = sim.ch.delay(0.2)
            if sim.fault("slow", swarm["slow"]):
                d += 20.0
            return d

        if (self.outage and sim.faults_on) or sim.fault("refused", swarm["refused"]):
            later(delay(), fail, REFUSED())
        elif sim.fault("lost-request", swarm["lost-request"]):
            later(delay() + 1.0, fail, LOST())
        elif sim.fault("late-request", swarm["late-request"]):
            # The client gives up on it but the issuer gets it all the same.
            later(delay(), fail, LOST())
            later(delay() + 2.0, serve, False)
        else:
            later(delay(), serve)

    def malformed(self, obj):
        """JSON, but no answer."""
        good = obj if obj.get("success") else {"success": True, "public-key": self.issuer.current, "signatures": [], "proof": "A" * 86 + "=="}
        sigs = good["signatures"]
        return self.sim.ch.of([
            lambda: b'["success"]', lambda: b"[" * 50000, lambda: b"null", lambda: b"7", lambda: b'"double-spend"', lambda: b"{}",
            lambda: body({"success": True}),
            lambda: body({"success": False, "reason": "\ud800 \0 \U0001f4a9"}),
            lambda: body({"success": False, "reason": ["double-spend"]}),
            lambda: body({"success": None, "reason": {"unpaid": True}}),
            lambda: body({"success": False, "reason": "Double-spend"}),
            lambda: body({**good, "public-key": None}),
            lambda: body({**good, "public-key": "\u20ac" * 44}),
            lambda: body({**good, "signatures": None}),
            lambda: body({**good, "signatures": sigs[:-1] + [7]}),
            lambda: body({**good, "signatures": sigs + sigs[:1] if sigs else ["A"]}),
            lambda: body({**good, "signatures": sigs[:1] * len(sigs) if len(sigs) > 1 else []}),
            lambda: body({**good, "proof": 3}),
            lambda: body({k: x for k, x in good.items() if k != "proof"}),
        ])()

    def check_request(self, proc, v, c, tokens):
        sim = self.sim
        before = self.requests.get((v, c))
        if before is None:
            self.requests[v, c] = tokens
        else:
            sim.count("repeated-group-requests")
            sim.ensure(before == tokens, "C02", "different-tokens",
                       f"voucher {v} group {c} was requested with different tokens than before")
        sim.ensure(self.outstanding.get(v) is not proc, "C02", "concurrent-requests",
                   f"a second request for voucher {v} was sent while one was outstanding")
        total = self.known.get(v, {}).get("expected-tokens", self.node.tokens)
        share = total // self.groups + (1 if c < total % self.groups else 0)
        sim.ensure(len(tokens) == share, "C02", "wrong-share",
                   f"voucher {v} group {c} requested with {len(tokens)} tokens instead of {share}")
        sim.ensure(len(set(tokens)) == len(tokens), "C02", "repeated-token", "a token is in one request twice")
        dump = self.db.dump()
        row = next((r for r in rows(dump, "vouchers") if r["number"] == v), None)
        sim.ensure(row is not None, "C02", "request-before-record", f"voucher {v} requested before it was recorded")
        if row is not None:
            sim.ensure(c >= row.get("counter", 0), "C02", "recorded-group-requested",
                       f"voucher {v} group {c} requested though groups up to {row.get('counter')} are recorded")
            stored = [r for r in rows(dump, "tokens") if r["voucher"] == v and r["counter"] == c]
            sim.ensure(len(stored) == len(tokens), "C02", "tokens-not-durable",
                       f"voucher {v} group {c}: sent {len(tokens)} tokens but {len(stored)} are stored")
        for (v2, c2), t2 in self.requests.items():
            if (v2, c2) != (v, c):
                sim.ensure(not set(t2) & set(tokens), "C02 C33", "token-shared-between-groups",
                           f"groups {v}[{c}] and {v2}[{c2}] share tokens")

    # -- the durable state --------------------------------------------------
    def after_commit(self):
        if self.node.proc is None or not self.node.proc.alive:
            return
        self.check_db(self.db.dump())

    def check_db(self, dump):
        sim = self.sim
        vs = {r["number"]: r for r in rows(dump, "vouchers")}
        for v in self.accepted:
            sim.ensure(v in vs, "C01", "lost", f"accepted voucher {v} is not in the database")
        for v, was in self.known.items():
            r = vs.get(v)
            if r is None:
                continue
            for col in ("created", "expected-tokens"):
                sim.ensure(r.get(col) == was[col], "C01", "altered", f"voucher {v}: {col} was {was[col]!r}, is {r.get(col)!r}")
            sim.ensure(r.get("counter", 0) >= was["counter"], "C01", "progress-reversed",
                       f"voucher {v}: counter went from {was['counter']} to {r.get('counter')}")
            if was["state"] != "pending":
                sim.ensure(r["state"] == was["state"], "C01", "terminal-state-left",
                           f"voucher {v} went from {was['state']} to {r['state']}")
                sim.ensure(r.get("finished") == was["finished"], "C05", "finish-time-changed",
                           f"voucher {v}: finished changed from {was['finished']} to {r.get('finished')}")
        for v, r in vs.items():
            self.known[v] = {"created": r.get("created"), "expected-tokens": r.get("expected-tokens"),
                             "counter": r.get("counter", 0), "state": r["state"], "finished": r.get("finished")}
            if r["state"] == "double-spend":
                sim.ensure(v in self.legit_double, "C03", "written-off",
                           f"voucher {v} is recorded as double-spent but the issuer never said so")
            if r["state"] == "redeemed":
                sim.ensure(r["counter"] == self.groups, "C05", "redeemed-early",
                           f"voucher {v} is recorded as redeemed after {r['counter']} of {self.groups} groups")
            else:
                sim.ensure(r["state"] == "double-spend" or r.get("counter", 0) < self.groups, "C05", "not-redeemed",
                           f"voucher {v} has all groups but is {r['state']}")
        self.check_tokens(dump, vs)
        sim.state([(v[:14], r["state"], r.get("counter")) for v, r in sorted(vs.items())],
                  len(dump.get("unblinded-tokens", ())), len(dump.get("tokens", ())),
                  len(dump.get("invalid-unblinded-tokens", ())))

    def check_tokens(self, dump, vs):
        sim = self.sim
        groups = rows(dump, "redemption-groups")
        by_group = {}
        held = {}
        for r in rows(dump, "unblinded-tokens"):
            by_group.setdefault(r["redemption-group"], []).append(r["token"])
        invalid = {r["token"] for r in rows(dump, "invalid-unblinded-tokens")}
        # Every token recorded, wherever it is now.
        gone = set()
        for t in self.finished_tokens | self.maybe_gone | invalid:
            gone.add(parts(t)[0])
        owners = {}
        for g in groups:
            v = g["voucher"]
            held.setdefault(v, []).append(g)
        sim.ensure(set(by_group) <= {g["rowid"] for g in groups}, "C03", "orphan-tokens", "tokens without a redemption group")
        # What key was each token really signed with, whatever group it is in?
        flags = {g["rowid"]: bool(g["spendable"]) for g in groups}
        for gid, toks in by_group.items():
            for t in toks:
                if t not in self.true_pub:
                    pre = parts(t)[0]
                    self.true_pub[t] = next((p for p in self.issuer.keys if self.issuer.rederive(p, pre) == t), None)
                pub = self.true_pub[t]
                if pub is not None:
                    # What was configured when it was received decides.
                    allowed = self.allowed_when.setdefault(t, pub in self.node.allowed)
                    sim.ensure(flags[gid] == allowed, "C06", "wrong-spendable",
                               f"a token signed under key {pub[:8]} (allowed: {allowed}) is recorded as spendable={flags[gid]}")
        for v, r in vs.items():
            gs = sorted(held.get(v, []), key=lambda g: g["rowid"])
            n = r.get("counter", 0)
            sim.ensure(len(gs) == n, "C03", "group-count", f"voucher {v}: {len(gs)} groups recorded, counter is {n}")
            good = seq = 0
            remaining = list(range(n))
            for i, g in enumerate(gs):
                toks = by_group.get(g["rowid"], [])
                pub = g["public-key"]
                # Which of the issuer's groups is this one?  They are recorded in order.
                want = self.issuer.preimages(v, i)
                have = [parts(t)[0] for t in toks]
                sim.ensure(len(set(toks)) == len(toks), "C03", "duplicate", "a token is recorded twice")
                sim.ensure(not set(have) - set(want), "C03", "invented",
                           f"voucher {v} group {i} holds tokens the issuer did not sign for it")
                missing = [p for p in want if p not in set(have) and p not in gone]
                sim.ensure(not missing and len(want) > 0, "C03", "lost-tokens",
                           f"voucher {v} group {i}: {len(missing)} of {len(want)} signed tokens are missing")
                sim.ensure(pub in self.issuer.signed_with.get((v, i), ()), "C03", "wrong-key",
                           f"voucher {v} group {i} is recorded under a key it was not signed with")
                for t in toks:
                    owners[t] = (v, i, pub)
                    if pub in self.issuer.keys:
                        sim.ensure(self.issuer.rederive(pub, parts(t)[0]) == t, "C03", "bad-signature",
                                   f"a token of voucher {v} group {i} does not unblind to the issuer's signature")
                allowed = self.group_ok.setdefault(g["rowid"], pub in self.node.allowed)
                sim.ensure(bool(g["spendable"]) == allowed, "C06", "wrong-spendable",
                           f"group {i} of {v}: spendable={g['spendable']} for key {pub[:8]} (allowed: {allowed})")
                if allowed:
                    good += len(want)
                else:
                    seq += len(want)
            sim.ensure((r.get("token-count") or 0) == good, "C03", "token-count-wrong",
                       f"voucher {v}: token-count {r.get('token-count')} but {good} tokens were received under accepted keys")
            sim.ensure((r.get("sequestered-count") or 0) == seq, "C06", "sequestered-count-wrong",
                       f"voucher {v}: sequestered-count {r.get('sequestered-count')} but {seq} were received under other keys")
            if r["state"] == "redeemed" and "expected-tokens" in r:
                sim.ensure(good + seq == r["expected-tokens"], "C03", "value-wrong",
                           f"voucher {v} is redeemed for {good + seq} tokens, {r['expected-tokens']} were expected")

    # -- API use ---------------------------------------------------------------
    def put(self, v):
        sim, node = self.sim, self.node
        if not node.up:
            return
        faults = sum(n for k, n in sim.counters.items() if k.startswith("fault:"))
        reply = node.api.call(b"PUT", b"/voucher", json.dumps({"voucher": v}).encode(),
                              [(b"Content-Type", b"application/json")])
        faults = sum(n for k, n in sim.counters.items() if k.startswith("fault:")) - faults
        code = None if reply is None else reply.code
        sim.log("put", v[:16], code)
        sim.count("put-replies" if reply else "put-unanswered")
        if reply is not None and code == 200:
            present = any(r["number"] == v for r in rows(self.db.dump(), "vouchers"))
            sim.ensure(present, "C01", "accepted-but-not-recorded",
                       f"voucher {v} was accepted but is not in the database")
            self.accepted.setdefault(v, sim.elapsed())
        elif reply is not None:
            sim.count("put-refused")
            self.sim.ensure(faults, "C01", "refused-without-cause",
                            f"voucher {v} was refused with {code} though nothing is wrong")

    def put_malformed(self):
        sim, node = self.sim, self.node
        if not node.up:
            return
        good = voucher_number(0)
        bad = sim.ch.of([good[:-1], good + "=", "", "not a voucher", 7, None, [good], good[:-4] + "\u20ac\u20ac\u20ac\u20ac",
                         "*" * 44, good[:-3] + "/+="])
        payload = sim.ch.of([{"voucher": bad}, {"voucher": good, "x": 1}, [good], {}, good])
        reply = node.api.call(b"PUT", b"/voucher", json.dumps(payload).encode(), [(b"Content-Type", b"application/json")])
        sim.log("put-malformed", None if reply is None else reply.code)
        if reply is not None and reply.code == 200:
            v = payload["voucher"] if isinstance(payload, dict) else None
            ok = isinstance(v, str) and any(r["number"] == v for r in rows(self.db.dump(), "vouchers"))
            sim.ensure(ok, "C01", "malformed-accepted-but-not-recorded", f"{payload!r} was answered with success but not recorded")
            if ok:
                self.accepted.setdefault(v, sim.elapsed())

    def check_state(self, v, obj):
        """Does what the API says about a voucher match what happened?"""
        sim = self.sim
        st = obj["state"]
        name = st["name"]
        r = next((r for r in rows(self.db.dump(), "vouchers") if r["number"] == v), None)
        if r is None:
            sim.violation("C05", "reported-unknown", f"voucher {v} is reported but not recorded")
            return
        sim.count("seen-state:" + name)
        sim.ensure(obj["number"] == v and obj["expected-tokens"] == r["expected-tokens"], "C05", "wrong-details", f"{obj!r}")
        sim.ensure(_same_time(obj["created"], r["created"]), "C05", "wrong-details", f"created {obj['created']} is not {r['created']}")
        busy = self.outstanding.get(v) is self.node.proc
        if r["state"] == "redeemed":
            sim.ensure(name == "redeemed" and st.get("token-count") == r["token-count"] and _same_time(st["finished"], r["finished"]),
                       "C05", "redeemed-misreported", f"recorded redeemed, reported {st!r}")
        elif r["state"] == "double-spend":
            sim.ensure(name == "double-spend" and v in self.legit_double, "C05", "double-spend-misreported", f"reported {st!r}")
        elif busy:
            sim.ensure(name == "redeeming" and st["counter"] == r["counter"], "C05", "redeeming-misreported",
                       f"a request is outstanding, {r['counter']} groups are recorded, reported {st!r}")
        else:
            last = self.outcome.get(v)
            if last == "unpaid" and not self.disturbed:
                want = ("unpaid",)
            elif last == "unpaid":
                want = ("unpaid", "error", "pending")
            elif last in ("error", "delivered", "double-spend"):
                # delivered but not recorded: an error on our side
                want = ("error",) if not self.disturbed else ("error", "pending")
            else:
                want = ("pending",) if not self.disturbed else ("pending", "error")
            sim.ensure(name in want, "C05", f"misreported-{name}",
                       f"voucher {v}: last attempt ended with {last}, nothing is outstanding, reported {st!r}")
            if name == "pending":
                sim.ensure(st["counter"] == r["counter"], "C05", "wrong-counter", f"{st!r} but {r['counter']} groups recorded")

    def get(self, v):
        sim, node = self.sim, self.node
        if not node.up:
            return
        before = self.db_errors()
        reply = node.api.call(b"GET", b"/voucher/" + v.encode("ascii"))
        if reply is None:
            return
        sim.log("get", v[:16], reply.code)
        if reply.code == 200:
            self.check_state(v, reply.json())
        elif v in self.accepted and self.db_errors() == before:
            sim.violation("C01", "not-retrievable", f"accepted voucher {v}: GET answered {reply.code}")
        if not node.up:
            return
        before = self.db_errors()
        lst = node.api.call(b"GET", b"/voucher")
        if lst is None:
            return
        if lst.code != 200:
            sim.ensure(self.db_errors() != before, "C01", "not-listable", f"GET /voucher answered {lst.code}")
            return
        got = lst.json()["vouchers"]
        names = [o["number"] for o in got]
        sim.ensure(len(set(names)) == len(names), "C05", "listed-twice", f"{names!r}")
        for a in self.accepted:
            sim.ensure(a in names, "C01", "not-listed", f"accepted voucher {a} is not listed")
        for o in got:
            self.check_state(o["number"], o)
            if reply.code == 200 and o["number"] == v:
                sim.ensure(o == reply.json(), "C05", "views-differ", f"{o!r} / {reply.json()!r}")

    @property
    def disturbed(self):
        """Has the database failed since this process started?"""
        return self.db_errors() != self.undisturbed_at

    def db_errors(self):
        c = self.sim.counters
        return c["fault:statement-error"] + c["fault:commit-error"] + c["fault:db-error"]

    # -- using tokens -----------------------------------------------------------
    def spendable(self):
        """Tokens that must be obtainable, by the reference."""
        dump = self.db.dump()
        ok = {g["rowid"] for g in rows(dump, "redemption-groups") if self.group_ok.get(g["rowid"])}
        return {r["token"] for r in rows(dump, "unblinded-tokens") if r["redemption-group"] in ok}

    def spend(self):
        sim, node = self.sim, self.node
        if not node.up:
            return
        store = node.store
        n = 1 + sim.ch.pick(5)
        before = self.db_errors()
        try:
            tokens = store.get_unblinded_tokens(n)
        except NotEnoughTokens:
            sim.log("spend-none", n)
            avail = self.spendable() - self.in_use
            sim.ensure(len(avail) < n, "C08", "tokens-withheld", f"{n} tokens refused though {len(avail)} are available")
            return
        except SimCrash:
            return
        except Exception:
            if node.up:
                sim.ensure(self.db_errors() != before, "C08", "spend-broken", "taking tokens failed")
            return
        texts = [t.unblinded_token.decode("ascii") for t in tokens]
        sim.log("spend", n)
        sim.count("tokens-taken", n)
        for t in texts:
            sim.ensure(t not in self.in_use, "C07", "handed-out-twice", "a token in use was handed out again")
            sim.ensure(t not in self.finished_tokens, "C07", "handed-out-after-use", "a spent or invalid token was handed out")
            sim.ensure(self.allowed_when.get(t), "C06", "disallowed-handed-out",
                       "a token signed under a key that is not allowed was handed out")
        self.in_use.update(texts)
        how = sim.ch.pick(4)
        before = self.db_errors()
        if how in (1, 2):
            # From here on it may have been done, whatever is reported.
            self.maybe_gone.update(texts)
        try:
            if how == 1:
                store.discard_unblinded_tokens(tokens)
                self.finished_tokens.update(texts)
            elif how == 2:
                store.invalidate_unblinded_tokens("rejected", tokens)
                self.finished_tokens.update(texts)
            elif how == 3:
                store.reset_unblinded_tokens(tokens)
                self.in_use.difference_update(texts)
                return
            else:
                return
            self.in_use.difference_update(texts)
        except SimCrash:
            self.after_uncertain_finish(texts)
        except Exception:
            if node.up:
                sim.ensure(self.db_errors() != before, "C08", "finish-broken", "accounting for tokens failed")
            self.after_uncertain_finish(texts)
        finally:
            self.maybe_gone.clear()

    def after_uncertain_finish(self, texts):
        """A crash or error: it either happened or it did not."""
        left = {r["token"] for r in rows(self.db.dump(), "unblinded-tokens")}
        gone = [t for t in texts if t not in left]
        self.sim.ensure(len(gone) in (0, len(texts)), "C25", "half-discarded", "some but not all tokens were discarded")
        self.finished_tokens.update(gone)
        self.in_use.difference_update(gone)

    def check_total(self):
        sim, node = self.sim, self.node
        if not node.up:
            return
        before = self.db_errors()
        reply = node.api.call(b"GET", b"/lease-maintenance")
        if reply is None or reply.code != 200:
            sim.ensure(reply is None or self.db_errors() != before, "C08", "count-unavailable", "GET /lease-maintenance failed")
            return
        want = len(self.spendable() - self.in_use)
        total = reply.json()["total"]
        sim.ensure(total == want, "C08", "count-wrong", f"{total} tokens are advertised, {want} are available")

    # -- running -------------------------------------------------------------------
    def boot(self):
        self.outstanding.clear()
        self.outcome.clear()
        self.in_use.clear()
        before = self.undisturbed_at = self.db_errors()
        if self.sim.fault("reconfigured", self.swarm["reconfigured"]):
            # Vouchers bought from now on are worth another number of tokens.
            self.node.tokens = self.groups + self.sim.ch.pick(3 * self.groups)
        if self.node.incarnation and self.sim.ch.flag(0.12):
            # Another key is allowed from now on.
            self.node.allowed = set(self.issuer.allowed + self.issuer.others)
            self.sim.count("keys-added")
        try:
            self.node.boot()
        except SimCrash:
            return False
        except Exception as e:
            self.sim.log("boot-failed", type(e).__name__)
            if self.db_errors() == before:
                self.sim.violation(self.sim.target, "cannot-start-" + type(e).__name__, f"the node cannot start: {type(e).__name__}: {e}")
            return False
        return self.node.up

    def step(self):
        sim, ch = self.sim, self.sim.ch
        what = ch.weighted([30, 22, 10, 12, 6, 4, 7, 5, 2, 3, 6])
        v = ch.of(self.vouchers)
        if what == 0:
            sim.run_for([0.3, 0.05, 1.0, 2.5, 7.0][ch.pick(5)])
        elif what == 1:
            self.put(v)
        elif what == 2:
            self.get(v)
        elif what == 3:
            if v not in self.issuer.paid:
                sim.log("pay", v[:16])
                self.issuer.paid.add(v)
            else:
                self.put(v)
        elif what == 4:
            if self.node.up:
                self.node.crash()
        elif what == 5:
            self.issuer.current = ch.of(self.issuer.allowed + self.issuer.others)
            sim.log("issuer-key", self.issuer.allowed.index(self.issuer.current) if self.issuer.current in self.issuer.allowed else "other")
        elif what == 6:
            self.spend()
        elif what == 7:
            self.check_total()
        elif what == 8:
            # Redeemed by someone else before we ever got to it.
            if not any((v, c) in self.issuer.ledger for c in range(self.groups)):
                sim.log("redeemed-elsewhere", v[:16])
                self.issuer.paid.add(v)
                self.issuer.elsewhere.add(v)
        elif what == 9:
            self.outage = not self.outage
            sim.log("outage", self.outage)
            if self.outage:
                sim.count("fault:issuer-outage")
        elif what == 10:
            if ch.flag(0.5):
                self.put_malformed()
            else:
                jump = ch.of([5.0, 3600.0, 86400.0])
                sim.log("clock-jump", jump)
                sim.count("fault:clock-jump")
                sim.clock.jump(jump)
        if not self.node.up and ch.weighted([1, 2]) == 0:
            self.boot()

    def run(self):
        sim, ch = self.sim, self.sim.ch
        self.boot()
        if sim.target in ("C01", "C04", "C05") and ch.flag(0.3):
            pass
        else:
            # Get going quickly.
            v = self.vouchers[0]
            self.issuer.paid.add(v)
            if self.node.up:
                self.put(v)
        for _ in range(4 + ch.pick(22)):
            self.step()
        # From here on nothing goes wrong any more.
        sim.log("healthy")
        sim.faults_on = False
        self.outage = False
        if not self.node.up:
            if not self.boot():
                sim.violation(sim.target, "cannot-start", "the node cannot start though nothing is wrong any more")
        self.issuer.paid.update(self.accepted)
        late = ch.flag(0.3)
        if late:
            # A voucher submitted after all the trouble works as well.
            v = ch.of(self.vouchers)
            self.put(v)
            self.issuer.paid.add(v)
        end = sim.seconds()

        def done():
            return all(self.known.get(v, {}).get("state") in ("redeemed", "double-spend") for v in self.accepted)

        ok = sim.run_until(done, 180.0)
        sim.log("settled", ok)
        if not ok:
            stuck = [v for v in self.accepted if self.known.get(v, {}).get("state") == "pending"]
            sim.ensure(not stuck, "C04", "never-completes",
                       f"{len(stuck)} accepted vouchers are still not redeemed {sim.seconds() - end:.0f} s after all faults stopped: "
                       f"{[(v[:16], self.known[v]['counter'], self.outcome.get(v)) for v in stuck]}")
        for v in self.accepted:
            if v not in self.issuer.elsewhere:
                sim.ensure(self.known.get(v, {}).get("state") != "double-spend", "C03", "written-off", f"voucher {v} is written off")
        for v in self.vouchers:
            self.get(v)
        self.check_total()
        # Every available token can really be had.
        if self.node.up:
            n = len(self.spendable() - self.in_use)
            if n:
                got = self.node.store.get_unblinded_tokens(n)
                texts = {t.unblinded_token.decode("ascii") for t in got}
                sim.ensure(len(texts) == n and not texts & self.in_use, "C08", "not-obtainable", "available tokens are not obtainable")
                for t in texts:
                    sim.ensure(self.allowed_when.get(t), "C06", "disallowed-handed-out", "a disallowed token was handed out")
        # And once more from a cold start.
        self.node.crash("restart")
        if not self.boot():
            sim.violation(sim.target, "cannot-start", "the node cannot start though nothing is wrong any more")
        for v in self.vouchers:
            self.get(v)
        self.check_db(self.db.dump())
        sim.count("vouchers-redeemed", sum(1 for k in self.known.values() if k["state"] == "redeemed"))


def _same_time(a, b):
    return a is not None and b is not None and datetime.fromisoformat(a) == datetime.fromisoformat(b)


def run(sim):
    Redeem(sim).run()


SPECS = [
    WorldSpec(
        "redeem", run, ["C01", "C02", "C03", "C04", "C05", "C06"], quick=2400, thorough=200000, also={"C07": 0.15, "C08": 0.2, "C33": 0.5},
        real=["controller.PaymentController", "controller.RistrettoRedeemer", "challenge_bypass_ristretto (native)",
              "model.VoucherStore", "replicate._ReplicationCapableConnection", "sqlite3 (real engine, real files)",
              "resource (voucher and lease-maintenance resources)", "private (token check)", "twisted.web server", "treq"],
        stubs=["issuer (own implementation with real signatures)", "HTTP transport to the issuer", "reactor clock",
               "randomness of blinding tokens", "process crashes (abandoned object graph, copied database files)"],
        assumptions=["a dead TCP connection is eventually reported as an error", "the issuer re-signs the same tokens for the same "
                     "voucher and counter and refuses others", "SQLite's own crash recovery works"],
    ),
]
