"""
Storage clients and servers over real Foolscap on a simulated network:
payment, pricing, leases and data against a reference price model and a plain
storage server.
"""

from __future__ import annotations

import base64
import os
import shutil
from collections import Counter

import challenge_bypass_ristretto as cbr
from allmydata.interfaces import NoSpace, RIBucketWriter
from allmydata.storage.common import storage_index_to_dir
from allmydata.storage.lease import LeaseInfo
from allmydata.storage.immutable import FoolscapBucketWriter, ShareFile
from allmydata.storage.mutable import MutableShareFile
from allmydata.storage.server import StorageServer
from allmydata.storage.shares import get_share_file
from foolscap.api import Referenceable, RemoteException
from foolscap.referenceable import RemoteReference
from hyperlink import URL
from prometheus_client import CollectorRegistry
from treq.client import HTTPClient
from twisted.internet.defer import Deferred, maybeDeferred
from twisted.python.failure import Failure
from twisted.python.filepath import FilePath
from zope.interface import implementer

import _zkapauthorizer._plugin as plugin_module
from _zkapauthorizer._plugin import ZKAPAuthorizer
from _zkapauthorizer.api import MorePassesRequired, ZKAPAuthorizerStorageClient
from _zkapauthorizer.controller import RistrettoRedeemer
from _zkapauthorizer.foolscap import RIPrivacyPassAuthorizedStorageServer
from _zkapauthorizer.model import NotEnoughTokens, UnblindedToken, VoucherStore
from _zkapauthorizer.replicate import with_replication
from _zkapauthorizer.server.spending import RecordingSpender
from _zkapauthorizer.spending import SpendingController

from ..core import HarnessError, Process, SimCrash, Swarm, hash_of
from ..db import SimDB, rows
from ..http import SimAgent
from ..issuer import Issuer, parts
from ..wire import Connection, install
from . import WorldSpec

PERIOD = 31 * 24 * 3600
DAY = 24 * 3600
KINDS = ["lying-server", "cut", "client-crash", "server-restart", "cancel", "db-crash", "db-error", "disk-full", "no-memory", "byzantine",
         "bad-tokens", "clock-jump"]
PAID = {"allocate_buckets", "add_lease", "slot_testv_and_readv_and_writev"}


ALSO = {
    "free-recorded": "C09",
    "refusal-recorded": "C12",
    "refusal-counted": "C12",
    "refusal-changed-state": "C10 C14",
    "read-changed-something": "C13",
    "refused-though-paid": "C13",
    "wrong-required": "C09",
    "served-unpaid": "C09",
    "differs-from-plain": "C09",
    "recorded-count": "C09",
    "upload-changed-existing": "C13",
    "lease-altered": "C10",
    "grew-unasked": "C13",
    "bad-kept": "C07",
    "retry-count": "C09",
    "fails-though-paid": "C13",
    "accepted-not-spent": "C07 C12",
    "used-token-back": "C08",
    "handed-out-twice": "C08",
    "handed-out-after-use": "C08",
    "presented-after-use": "C08",
}


def ceil_div(a, b):
    return -(-a // b)


def message_for(method, si):
    return method.encode() + b" " + base64.b64encode(si)


class Ledger:
    """Every token there is, and what a correct pass made from it looks like."""

    def __init__(self, sim, issuer):
        self.sim = sim
        self.issuer = issuer
        self.by_preimage = {}
        self.passes = {}

    def mint(self, pub):
        pre = self.sim.nonce(64)
        text = self.issuer.rederive(pub, pre)
        self.by_preimage[base64.b64encode(pre)] = (text, pub)
        return text

    def pass_for(self, text, message):
        try:
            return self.passes[text, message]
        except KeyError:
            t = cbr.UnblindedToken.decode_base64(text.encode("ascii"))
            sig = t.derive_verification_key_sha512().sign_sha512(message)
            p = t.preimage().encode_base64() + b" " + sig.encode_base64()
            self.passes[text, message] = p
            return p

    def token_of(self, pass_):
        got = self.by_preimage.get(canon(bytes(pass_)[:88]))
        return None if got is None else got[0]

    def valid(self, pass_, message, pub):
        """Is this pass a correct one under this key for this message?"""
        got = self.by_preimage.get(canon(bytes(pass_)[:88]))
        return got is not None and got[1] == pub and self.pass_for(got[0], message) == canon(pass_)


def canon(text):
    """
    The usual spelling of a pass or preimage: the last letter of base64 text
    carries bits which decoders ignore.
    """
    try:
        return b" ".join(base64.b64encode(base64.b64decode(p, validate=True)) for p in bytes(text).split(b" "))
    except ValueError:
        return bytes(text)


def respelled(pass_, n):
    """The same pass written differently (n from 0 to 3)."""
    letters = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    i = letters.index(pass_[85:86])
    return pass_[:85] + letters[i + n : i + n + 1] + pass_[86:]


def look(server, si):
    """What is stored at a storage index, read without the code under test."""
    out = {}
    d = os.path.join(server.sharedir, storage_index_to_dir(si))
    if not os.path.isdir(d):
        return out
    for name in sorted(os.listdir(d)):
        if not name.isdigit():
            continue
        path = os.path.join(d, name)
        share = get_share_file(path)
        exps = tuple(sorted(int(l.get_expiration_time()) for l in share.get_leases()))
        if isinstance(share, MutableShareFile):
            with open(path, "rb") as f:
                size = share._read_data_length(f)
            (data,) = share.readv([(0, size)])
            kind = "mutable"
        else:
            size = os.path.getsize(path) - 12 - 72 * len(exps)
            data = share.read_share_data(0, size)
            kind = "immutable"
        out[int(name)] = (kind, size, data, exps)
    return out


def write_price(pv, before, tw, now):
    """The price of a mutable write, by the documented rules."""
    price = 0
    for shnum, (_t, datav, _n) in tw.items():
        if not datav:
            continue
        end = max(0, *(o + len(d) for (o, d) in datav))
        if shnum in before:
            _k, size, _d, exps = before[shnum]
            active = any(e > now for e in exps)
            price += ceil_div(max(size, end), pv) - (ceil_div(size, pv) if active else 0)
        else:
            price += ceil_div(end, pv)
    return price


@implementer(RIBucketWriter)
class WriterGate(Referenceable):
    def __init__(self, world, server, si, shnum, real, twin, size):
        self.world, self.server, self.si, self.shnum = world, server, si, shnum
        self.real, self.twin, self.size = real, twin, size

    def _both(self, what, *args):
        return self.server.writer_op(self, what, args)

    def remote_write(self, offset, data):
        return self._both("write", offset, data)

    def remote_close(self):
        return self._both("close")

    def remote_abort(self):
        return self._both("abort")


@implementer(RIPrivacyPassAuthorizedStorageServer)
class Gate(Referenceable):
    """What a client is really connected to: the server, watched."""

    def __init__(self, server, peer):
        self.server = server
        self.peer = peer
        # Requests sent over this connection and not yet arrived, in order.
        self.queue = []

    def remote_get_version(self):
        return self.server.serve(self, "get_version")

    def remote_allocate_buckets(self, *a):
        return self.server.serve(self, "allocate_buckets", *a)

    def remote_add_lease(self, *a):
        return self.server.serve(self, "add_lease", *a)

    def remote_get_buckets(self, *a):
        return self.server.serve(self, "get_buckets", *a)

    def remote_share_sizes(self, *a):
        return self.server.serve(self, "share_sizes", *a)

    def remote_stat_shares(self, *a):
        return self.server.serve(self, "stat_shares", *a)

    def remote_slot_readv(self, *a):
        return self.server.serve(self, "slot_readv", *a)

    def remote_slot_testv_and_readv_and_writev(self, *a):
        return self.server.serve(self, "slot_testv_and_readv_and_writev", *a)

    def remote_advise_corrupt_share(self, *a):
        return self.server.serve(self, "advise_corrupt_share", *a)


class Server:
    """A storage server: the authorizing one under test and its plain twin."""

    def __init__(self, world, n):
        self.world = world
        self.sim = world.sim
        self.n = n
        self.dir = os.path.join(self.sim.scratch, f"server{n}")
        os.makedirs(self.dir)
        self.keyfile = os.path.join(self.dir, "key")
        self.metrics = os.path.join(self.dir, "metrics", "out.prom")
        self.pub = world.issuer.allowed[0]
        with open(self.keyfile, "wb") as f:
            f.write(world.issuer.keys[self.pub].encode_base64())
        self.space = None
        self.paid = {}
        self.version = Counter()
        self.log = []
        self.incarnation = 0
        self.spent_log = []
        self.boot()

    def boot(self):
        self.incarnation += 1
        self.proc = Process(self.sim, f"server{self.n}#{self.incarnation}")

        def plain(name):
            s = StorageServer(os.path.join(self.dir, name), b"%020d" % self.n, clock=self.proc.clock)
            s.get_available_space = lambda: 10**12 if self.space is None else self.space
            return s

        self.plain = plain("real")
        self.twin = plain("twin")
        self.recorder, spender = RecordingSpender.make()
        real_get_spender = plugin_module.get_spender
        real_registry = plugin_module.CollectorRegistry
        made = []

        def make_registry():
            r = CollectorRegistry()
            made.append(r)
            return r

        plugin_module.get_spender = lambda reactor, registry: spender
        plugin_module.CollectorRegistry = make_registry
        try:
            p = ZKAPAuthorizer("privatestorageio-zkapauthz-v2", self.proc.clock, None)
            config = {
                "ristretto-issuer-root-url": "https://issuer.invalid/",
                "ristretto-signing-key-path": self.keyfile,
                "pass-value": str(self.world.pv),
            }
            if self.world.publish:
                config["prometheus-metrics-interval"] = "15"
                config["prometheus-metrics-path"] = self.metrics
            got = []
            p.get_storage_server(config, lambda: self.plain).addCallback(got.append)
            self.storage = got[0].storage_server
        finally:
            plugin_module.get_spender = real_get_spender
            plugin_module.CollectorRegistry = real_registry
        self.registry = made[0]
        self.counted = 0

    def restart(self):
        self.sim.log("server-restart", self.n)
        self.proc.kill("server-restart")
        self.boot()

    def publishable(self, yes):
        """Metrics cannot be written for a while."""
        d = os.path.dirname(self.metrics)
        if yes and os.path.isdir(d + ".away"):
            if os.path.isdir(d):
                shutil.rmtree(d)
            os.rename(d + ".away", d)
        elif not yes and os.path.isdir(d) and not os.path.isdir(d + ".away"):
            os.rename(d, d + ".away")

    def spent(self):
        return list(self.recorder.spent_tokens.get(self.pub.encode("ascii"), []))

    def metric(self):
        return self.registry.get_sample_value("zkapauthorizer_server_spending_successes_sum")

    def everything(self):
        return {si: look(self.plain, si) for si in self.watched()}

    def watched(self):
        return getattr(self.world, "all_sis", self.world.sis)

    # -- serving ---------------------------------------------------------------
    def serve(self, gate, method, *args):
        sim, world = self.sim, self.world
        peer = gate.peer
        call = gate.queue.pop(0) if gate.queue else None
        if call is not None and call["method"] != method:
            raise HarnessError(f"{method} arrived instead of {call['method']}")
        f = getattr(self.storage, "remote_" + method)
        sim.log("serve", self.n, peer.name, method)
        sim.count("served:" + method)
        now = self.proc.clock.seconds()
        before = self.everything()
        spent0, metric0 = self.spent(), self.metric()
        entry = {"method": method, "peer": peer.name, "now": now, "paid": None, "spent": [], "result": None, "passes": []}
        if method in PAID:
            passes, si = list(args[0]), args[1]
            entry["passes"], entry["si"] = passes, si
        elif method == "stat_shares":
            si = args[0][0] if args[0] else None
        elif method == "advise_corrupt_share":
            si = args[1]
        elif args:
            si = args[0]
        else:
            si = None
        sim_spec = None
        if method in PAID:
            sim_spec = self.expect(peer, method, args, before.get(si, {}), now)
            entry.update(sim_spec)
        if si is not None:
            entry["version"] = (self.incarnation, self.version[si], self.active(before.get(si, {}), now))
        self.log.append(entry)
        lie = None
        if method in PAID and entry["passes"] and peer in world.clients and sim.fault("lying-server", world.swarm["lying-server"]):
            # A server which refuses good passes, or claims a higher price.
            lie = [i for i in range(len(passes)) if sim.ch.flag(0.3)]
            entry["failed"] = lie
        world.check_quote(call, entry)
        if lie is not None:
            entry["refused"] = True
            entry["error"] = MorePassesRequired(len(passes) - len(lie), len(passes) + sim.ch.pick(3), frozenset(lie))
            raise entry["error"]
        try:
            result = f(*args)
            error = None
        except Exception as e:
            result, error = None, e
        sim.log("served", method, type(error).__name__ if error else "ok")
        after = self.everything()
        spent1, metric1 = self.spent(), self.metric()
        new_spent = spent1[len(spent0):]
        sim.ensure(spent1[: len(spent0)] == spent0, "C12", "record-rewritten", "the record of spent passes was rewritten")
        entry["spent"] = new_spent
        entry["error"] = error
        changed = [x for x in self.watched() if before[x] != after[x]]
        others = [x for x in changed if x != si]
        sim.ensure(not others, "C10", "other-index-changed", f"{method} changed other storage indexes")
        if changed:
            self.version[si] += 1

        if method not in PAID:
            sim.ensure(not new_spent and metric1 == metric0, "C12", "free-recorded", f"{method} recorded spending")
            sim.ensure(not changed, "C14", "read-changed-something", f"{method} changed shares or leases")
            if error is not None:
                twin_error = self.twin_read(method, args)
                if type(twin_error) is not type(error):
                    sim.violation("C13", "read-fails", f"{method} failed: {type(error).__name__}: {error}")
                sim.count("read-refused")
                raise error
            return self.read(method, args, result)

        valid, failed, price = sim_spec["valid"], sim_spec["failed"], sim_spec["price"]
        if error is None and sim_spec["forbidden"] is None and len(valid) < price:
            sim.violation("C10", "served-unpaid", f"{method} carried out with {len(valid)} valid passes though its price is {price}")
        if isinstance(error, MorePassesRequired):
            sim.count("refused")
            entry["refused"] = True
            sim.ensure(not changed, "C11", "refusal-changed-state", f"a refused {method} changed shares or leases")
            sim.ensure(not new_spent, "C11", "refusal-recorded", f"a refused {method} was recorded as spending")
            sim.ensure(metric1 == metric0, "C11", "refusal-counted", f"a refused {method} was counted as spending")
            sim.ensure(sim_spec["forbidden"] is not None or len(valid) < price, "C09", "refused-though-paid",
                       f"{method} with {len(valid)} valid passes was refused though its price is {price}")
            sim.ensure(error.required_count == price, "C11", "wrong-required",
                       f"the refusal of {method} demands {error.required_count} passes, the price is {price}")
            sim.ensure(error.valid_count == len(valid), "C11", "wrong-valid",
                       f"the refusal of {method} counts {error.valid_count} valid passes, {len(valid)} are")
            sim.ensure(set(error.signature_check_failed) == set(failed), "C11", "wrong-positions",
                       f"the refusal names {sorted(error.signature_check_failed)} as bad, {sorted(failed)} are")
            raise error
        if error is not None:
            sim.ensure(not new_spent and metric1 == metric0, "C12", "failure-recorded", f"a failed {method} recorded spending")
            if len(valid) < price:
                # Not even a proper refusal, but at least:
                sim.ensure(not changed, "C11", "refusal-changed-state", f"an unpaid {method} changed shares or leases")
                if sim_spec["forbidden"] is None:
                    sim.violation("C11", "no-refusal", f"an unpaid {method} failed with {type(error).__name__}: {error} instead of a refusal")
                raise error
        if sim_spec["forbidden"] is not None:
            sim.ensure(error is not None, "C10", "forbidden-served", f"{method} with {sim_spec['forbidden']} was carried out")
            sim.ensure(not changed, "C10", "forbidden-changed", f"{method} with {sim_spec['forbidden']} changed something")
            raise error

        # It was paid for.  The plain server must do the same.
        twin_result, twin_error = self.twin_do(method, args)
        if method == "add_lease" and self.space is not None and NoSpace in (type(error), type(twin_error)):
            # Shares with other leases have other room for one more.
            sim.count("no-space-for-lease")
            if error is not None:
                raise error
        elif (error is None) != (twin_error is None) or (error is not None and type(error) is not type(twin_error)):
            sim.violation("C13", "differs-from-plain",
                          f"{method}: {type(error).__name__ if error else 'success'} ({error}), on the plain server: "
                          f"{type(twin_error).__name__ if twin_error else 'success'}")
        if error is not None:
            raise error
        entry["accepted"] = True
        sim.count("accepted:" + method)
        if method == "allocate_buckets":
            result = self.allocated(entry, args, result, twin_result, before[si], after[si], now)
            cost = ceil_div(args[5], self.world.pv) * len(result[1])
        elif method == "slot_testv_and_readv_and_writev":
            sim.ensure(result == twin_result, "C13", "write-result-differs", f"{result!r} instead of {twin_result!r}")
            self.written(args, before[si], after[si], now, result[0], price, len(valid))
            cost = len(valid)
        else:
            self.leased(before[si], after[si], now)
            cost = len(valid)
        # What was recorded.
        offered = [canon(bytes(p)[:88]) for p in valid]
        recorded = [canon(x) for x in new_spent]
        sim.ensure(len(set(recorded)) == len(recorded), "C12", "recorded-twice", "a pass was recorded as spent twice for one request")
        sim.ensure(set(recorded) <= set(offered), "C12", "recorded-unpresented",
                   "a pass that was not validly presented was recorded as spent")
        sim.ensure(len(new_spent) == cost, "C12", "recorded-count", f"{method}: {len(new_spent)} passes recorded as spent instead of {cost}")
        sim.ensure(metric1 - metric0 == cost, "C12", "metric-wrong", f"{method}: {metric1 - metric0} passes counted instead of {cost}")
        self.counted += cost
        sim.count("passes-spent", cost)
        world.spent_total += cost
        if self.storage is not None:
            sim.state(method, cost, len(after[si]), sorted((s[0], s[1], len(s[3])) for s in after[si].values()))
        return result

    def active(self, shares, now):
        return tuple(sorted((n, s[1]) for n, s in shares.items() if any(e > now for e in s[3])))

    def expect(self, peer, method, args, shares, now):
        world = self.world
        passes, si = list(args[0]), args[1]
        message = message_for(method, si)
        failed = [i for i, p in enumerate(passes) if not world.ledger.valid(p, message, self.pub)]
        valid, seen = [], set()
        for i, p in enumerate(passes):
            if i not in failed and canon(bytes(p)[:88]) not in seen:
                seen.add(canon(bytes(p)[:88]))
                valid.append(p)
        forbidden = None
        pv = world.pv
        if method == "allocate_buckets":
            price = ceil_div(args[5], pv) * len(args[4])
        elif method == "add_lease":
            price = sum(ceil_div(s[1], pv) for s in shares.values())
        else:
            price = write_price(pv, shares, args[3], now)
            if any(n is not None for (_t, _d, n) in args[3].values()):
                forbidden = "new_length"
        return {"valid": valid, "failed": failed, "price": price, "forbidden": forbidden}

    def twin_do(self, method, args):
        try:
            if method == "allocate_buckets":
                return self.twin.allocate_buckets(args[1], args[2], args[3], args[4], args[5], renew_leases=False), None
            if method == "add_lease":
                return self.twin.add_lease(args[1], args[2], args[3]), None
            return self.twin.slot_testv_and_readv_and_writev(args[1], args[2], args[3], args[4], renew_leases=False), None
        except Exception as e:
            return None, e

    def allocated(self, entry, args, result, twin_result, before, after, now):
        sim = self.sim
        _passes, si, _rs, _cs, sharenums, size, canary = args
        already, writers = result
        t_already, t_writers = twin_result
        sim.ensure(set(already) == set(t_already) and set(writers) == set(t_writers), "C13", "allocation-differs",
                   f"allocated {sorted(writers)} (have {sorted(already)}), the plain server: {sorted(t_writers)} ({sorted(t_already)})")
        sim.ensure(before == after, "C14", "allocation-changed-existing", "an allocation changed existing shares or leases")
        out = {}
        for shnum in sorted(writers):
            self.paid[si, shnum] = (size, now)
            out[shnum] = WriterGate(self.world, self, si, shnum, writers[shnum], t_writers[shnum], size)
            canary.notifyOnDisconnect(t_writers[shnum].disconnected)
        return already, out

    def writer_op(self, gate, what, args):
        sim = self.sim
        si, shnum = gate.si, gate.shnum
        before = look(self.plain, si)
        sim.log("writer", what, shnum)

        def do(w):
            try:
                r = getattr(w, "remote_" + what)(*args)
                return r, None
            except AssertionError as e:
                return None, e
            except Exception as e:
                return None, e

        result, error = do(gate.real)
        _t, twin_error = do(FoolscapBucketWriter(gate.twin))
        if (error is None) != (twin_error is None) or (error is not None and type(error) is not type(twin_error)):
            sim.violation("C13", "upload-differs", f"{what}: {type(error).__name__} instead of {type(twin_error).__name__}")
        after = look(self.plain, si)
        if before != after:
            self.version[si] += 1
        new = set(after) - set(before)
        for n in after:
            if n in before:
                if n == shnum and before[n][0] == "mutable":
                    continue  # the plain server replaces it, too
                sim.ensure(before[n] == after[n], "C14", "upload-changed-existing", "an upload changed another share or its leases")
        for n in new:
            kind, size, _d, exps = after[n]
            paid = self.paid.get((si, n))
            sim.ensure(paid is not None and n == shnum and ceil_div(size, self.world.pv) <= ceil_div(paid[0], self.world.pv),
                       "C10", "share-not-paid-for", f"share {n} of {size} bytes appeared, paid for: {paid}")
            sim.ensure(len(exps) == 1 and abs(exps[0] - (paid[1] + PERIOD)) <= 1, "C14", "wrong-lease",
                       f"a new share has leases {exps} instead of one until {paid[1] + PERIOD:.0f}")
            sim.count("uploaded")
        if error is not None:
            raise error
        return result

    def written(self, args, before, after, now, wrote, price, paid):
        sim, pv = self.sim, self.world.pv
        tw = args[3]
        for n in set(before) | set(after):
            b, a = before.get(n), after.get(n)
            datav = tw.get(n, ((), (), None))[1]
            if a is None:
                sim.violation("C13", "share-vanished", f"a write removed share {n}")
                continue
            if b is None:
                sim.ensure(n in tw, "C10", "created-unasked", f"share {n} was created without being written")
                full = [int(now + PERIOD)]
                if datav:
                    sim.ensure(len(a[3]) == 1 and abs(a[3][0] - (now + PERIOD)) <= 1, "C14", "wrong-lease",
                               f"a created share has leases {a[3]} instead of {full}")
                else:
                    sim.ensure(a[1] == 0 and not a[3], "C10", "free-share", "a share was created for nothing")
                continue
            active = any(e > now for e in b[3])
            if active or not datav:
                sim.ensure(a[3] == b[3], "C14", "lease-altered",
                           f"a write changed the leases of share {n}, which had {'an unexpired lease' if active else 'not been written'}: {b[3]} -> {a[3]}")
            elif wrote:
                sim.ensure(a[3] and abs(max(a[3]) - (now + PERIOD)) <= 1, "C14", "not-revived",
                           f"a write to share {n} without unexpired lease left it with {a[3]} at {now:.0f}")
            else:
                sim.ensure(a[3] == b[3] or abs(max(a[3]) - (now + PERIOD)) <= 1, "C14", "lease-altered", f"{b[3]} -> {a[3]}")
            if not datav:
                sim.ensure(a[1] == b[1], "C10", "grew-unasked", f"share {n} changed size without being written")

    def leased(self, before, after, now):
        sim = self.sim
        sim.ensure(set(before) == set(after), "C13", "share-vanished", "a renewal added or removed shares")
        for n, b in before.items():
            a = after[n]
            sim.ensure(a[:3] == b[:3], "C13", "renewal-changed-data", f"a renewal changed share {n}")
            sim.ensure(a[3] and abs(max(a[3]) - (now + PERIOD)) <= 1, "C14", "not-renewed",
                       f"after a paid renewal share {n} has leases {a[3]}, not until {now + PERIOD:.0f}")
            if max(b[3], default=0) > now:
                sim.ensure(max(a[3]) >= max(b[3]), "C14", "shortened", f"a renewal shortened share {n}: {b[3]} -> {a[3]}")

    def twin_read(self, method, args):
        """How this read fails on the plain server, if it does."""
        try:
            if method in ("get_buckets", "slot_readv", "get_version", "advise_corrupt_share"):
                getattr(self.twin, method)(*args)
        except Exception as e:
            return e
        return None

    def read(self, method, args, result):
        """Reads, compared with the plain server."""
        sim = self.sim
        if method == "get_version":
            return result
        if method == "get_buckets":
            mine = {n: r.remote_read(0, 10**6) for n, r in result.items()}
            theirs = {n: r.read(0, 10**6) for n, r in self.twin.get_buckets(args[0]).items()}
            sim.ensure(mine == theirs, "C13", "read-differs", f"get_buckets: {sorted(mine)} / {sorted(theirs)}")
        elif method == "slot_readv":
            theirs = self.twin.slot_readv(*args)
            sim.ensure(result == theirs, "C13", "read-differs", f"slot_readv: {result!r} / {theirs!r}")
        elif method == "share_sizes":
            shares = look(self.plain, args[0])
            want = {n: s[1] for n, s in shares.items() if args[1] is None or n in args[1]}
            sim.ensure(result == want, "C09", "sizes-wrong", f"share_sizes: {result} instead of {want}")
        elif method == "stat_shares":
            for si, got in zip(args[0], result):
                shares = look(self.plain, si)
                want = {n: (s[1], max(s[3], default=0)) for n, s in shares.items()}
                sim.ensure({n: (s.size, s.lease_expiration) for n, s in got.items()} == want, "C09", "stats-wrong",
                           f"stat_shares: wrong, should be {want}")
        return result


class Canary(Referenceable):
    pass


WAITING = object()


class Op:
    def __init__(self, client, kind, n):
        self.client, self.kind, self.n = client, kind, n
        self.calls = []
        self.done = False
        self.cancelled = False
        self.error = None
        self.result = None


class TracedRef(RemoteReference):
    """The client's remote reference, which also notes what an operation does."""

    def __init__(self, world, conn, op, server, client):
        self.tracker = conn.rref.tracker
        self._gate = conn.gate
        self._real, self._op, self._server, self._client, self._world = conn.rref, op, server, client, world

    def callRemote(self, _name, *args, **kwargs):
        call = {"method": _name, "args": args, "passes": list(args[0]) if _name in PAID else [], "server": self._server,
                "reply": WAITING, "op": self._op}
        if not self._client.up or self._client.proc is not self._op.proc:
            raise SimCrash()
        self._world.sending(self._op, call)
        self._op.calls.append(call)
        self._gate.queue.append(call)
        d = self._real.callRemote(_name, *args, **kwargs)
        if d.called and isinstance(d.result, Failure):
            self._gate.queue.remove(call)
        self._client.proc.keep.append(d)
        d.addBoth(self._got, call)
        return d

    def _got(self, result, call):
        if self._client.proc is not self._op.proc or not self._op.proc.alive:
            return result
        call["reply"] = result
        self._world.replied(self._op, call)
        return result


class WatchedStore:
    """The store as the spending controller sees it, with every token followed."""

    def __init__(self, client, store):
        self._client, self._store = client, store

    def __getattr__(self, name):
        return getattr(self._store, name)

    def get_unblinded_tokens(self, n):
        got = self._store.get_unblinded_tokens(n)
        self._client.obtained(got)
        return got

    def discard_unblinded_tokens(self, tokens):
        return self._client.ended("discard", self._store.discard_unblinded_tokens, tokens, tokens)

    def invalidate_unblinded_tokens(self, reason, tokens):
        return self._client.ended("invalidate", self._store.invalidate_unblinded_tokens, tokens, reason, tokens)

    def reset_unblinded_tokens(self, tokens):
        return self._client.ended("reset", self._store.reset_unblinded_tokens, tokens, tokens)


class Client:
    def __init__(self, world, n):
        self.world, self.sim, self.n = world, world.sim, n
        self.name = f"client{n}"
        self.db = SimDB(self.sim, self.name, world.swarm)
        self.incarnation = 0
        self.proc = None
        self.up = False
        self.held = set()
        self.settled = {}
        self.uncertain = set()
        self.ops = []
        self.minted = {}
        self.secrets = {}

    def boot(self):
        self.incarnation += 1
        self.up = False
        self.proc = Process(self.sim, f"{self.name}#{self.incarnation}")
        self.held = set()
        self.uncertain = set()
        self.ops = [o for o in self.ops if False]
        try:
            conn = with_replication(self.db.connect(self.proc), False)
            self.store = VoucherStore.from_connection(self.world.pv, self.proc.now, conn)
        except BaseException:
            if self.proc.alive:
                self.proc.kill("boot-failed")
            raise
        redeemer = RistrettoRedeemer(HTTPClient(SimAgent(self.proc, None)), URL.from_text("https://issuer.invalid/"))

        def tokens_to_passes(message, tokens):
            if self.sim.fault("no-memory", self.world.swarm["no-memory"] / 3):
                raise MemoryError()
            return redeemer.tokens_to_passes(message, tokens)

        self.controller = SpendingController.for_store(tokens_to_passes, WatchedStore(self, self.store))
        self.connections = {}
        self.up = True
        self.proc.on_kill.append(self._down)

    def _down(self):
        self.up = False

    # -- tokens ----------------------------------------------------------------
    def fund(self, count, pub, spendable):
        """A redeemed voucher's worth of tokens."""
        world = self.world
        world.voucher_n += 1
        voucher = base64.urlsafe_b64encode(b"voucher %024d" % world.voucher_n)
        texts = [world.ledger.mint(pub) for _ in range(count)]
        self.store.add(voucher, count, 0, lambda: [])
        self.store.insert_unblinded_tokens_for_voucher(
            voucher, pub, [UnblindedToken(t.encode("ascii")) for t in texts], completed=True, spendable=spendable)
        for t in texts:
            self.minted[t] = (pub, spendable)

    def obtained(self, tokens):
        sim = self.sim
        for t in tokens:
            text = t.unblinded_token.decode("ascii")
            sim.ensure(text not in self.held, "C07", "handed-out-twice", "a token already in an operation was handed out")
            sim.ensure(self.settled.get(text) is None, "C07", "handed-out-after-use",
                       f"a token already {self.settled.get(text)} was handed out again")
            sim.ensure(self.minted[text][1], "C06", "disallowed-handed-out", "a token under a disallowed key was handed out")
            self.held.add(text)

    def ended(self, how, f, tokens, *args):
        texts = [t.unblinded_token.decode("ascii") for t in tokens]
        try:
            f(*args)
        except BaseException:
            self.uncertain.update(texts)
            self.world.account_errors += 1
            raise
        self.held.difference_update(texts)
        return None

    def durable(self):
        dump = self.db.dump()
        spendable = {g["rowid"] for g in rows(dump, "redemption-groups") if g["public-key"] in self.world.issuer.allowed}
        have = {r["token"] for r in rows(dump, "unblinded-tokens")}
        usable = {r["token"] for r in rows(dump, "unblinded-tokens") if r["redemption-group"] in spendable}
        invalid = {r["token"] for r in rows(dump, "invalid-unblinded-tokens")}
        return have, usable, invalid

    # -- connections ------------------------------------------------------------
    def connect(self, server):
        conn = self.connections.get(server.n)
        if conn is None or conn.cut or not conn.server_proc.alive:
            gate = Gate(server, self)
            conn = Connection(self.sim, self.proc, server.proc, gate, scale=0.3, fault=self.world.cut)
            conn.gate = gate
            self.connections[server.n] = conn
        return conn

    def storage_client(self, server, op):
        conn = self.connect(server)
        ref = TracedRef(self.world, conn, op, server, self)
        return ZKAPAuthorizerStorageClient(self.world.pv, lambda: ref, self.controller.get, self.proc.clock)


class Spend:
    def __init__(self, sim):
        self.sim = sim
        ch = sim.ch
        install(sim)
        self.swarm = Swarm(sim, KINDS, benign=0.25)
        sim.also = ALSO
        self.issuer = Issuer(sim, 1, allowed=2, others=1)
        self.ledger = Ledger(sim, self.issuer)
        self.pv = ch.of([10, 64, 1, 1000])
        self.big = self.swarm["bad-tokens"] > 0 and ch.flag(0.04)
        if self.big:
            self.pv = 1
        self.publish = ch.flag(0.3)
        self.voucher_n = 0
        self.spent_total = 0
        self.account_errors = 0
        self.op_n = 0
        self.sis = [b"%016d" % i for i in range(1 + ch.pick(3))]
        # One more only for hostile clients, where shares of both kinds are mixed.
        self.all_sis = self.sis + [b"evil storage idx"]
        self.numbers = [0, 1, 2, 3] if ch.flag(0.7) else ch.of([[0, 9, 10, 255], [3, 17, 100, 254], [1, 11, 12, 99]])
        self.kinds = {si: ["mutable", "immutable"][ch.pick(2)] for si in self.sis}
        self.servers = [Server(self, i) for i in range(1 + ch.pick(2))]
        self.clients = [Client(self, i) for i in range(1 + ch.pick(2))]
        self.quoting = {}
        self.rich = ch.flag(0.8)

    # -- faults --------------------------------------------------------------------
    def cut(self, conn, end):
        return self.sim.fault("cut", self.swarm["cut"] / 2)

    def db_errors(self):
        c = self.sim.counters
        return c["fault:statement-error"] + c["fault:commit-error"] + c["fault:db-error"]

    # -- observing clients ------------------------------------------------------------
    def sending(self, op, call):
        """A client is about to send a request."""
        sim = self.sim
        client = op.client
        for p in call["passes"]:
            text = self.ledger.token_of(p)
            sim.ensure(text is not None and text in client.minted, "C07", "unknown-token", "a pass from no known token was presented")
            if text is None:
                continue
            sim.ensure(client.minted[text][1], "C06", "disallowed-presented", "a pass from a disallowed token was presented")
            sim.ensure(client.settled.get(text) is None, "C07", "presented-after-use",
                       f"a token already {client.settled.get(text)} was presented again")
            for other in client.ops:
                if other is not op and not other.done and text in other.tokens:
                    sim.violation("C07", "in-two-operations", "one token was presented in two operations at once")
            op.tokens.add(text)
        sim.ensure(len(set(map(bytes, call["passes"]))) == len(call["passes"]), "C07", "presented-twice",
                   "one token was presented twice in one request")
        if call["method"] in PAID:
            prev = next((c for c in reversed(op.calls) if c["method"] == call["method"]), None)
            if prev is not None:
                self.check_retry(op, prev, call)
            sim.count("presented", len(call["passes"]))

    def check_retry(self, op, prev, call):
        sim = self.sim
        entry = self.entry_of(prev)
        if entry is None or not entry.get("refused"):
            sim.violation("C11", "retried-unrefused", f"{call['method']} was sent again though it had not been refused")
            return
        sim.count("retried-after-refusal")
        now = list(call["passes"])
        # All the bad ones the refusal could name.
        bad = self.named_bad(entry)
        if bad is None:
            sim.count("refusal-cut-short")
            bad = {i for i, p in enumerate(prev["passes"]) if p not in now}
            sim.ensure(bad and bad <= set(entry["failed"]), "C11", "valid-replaced", "a retry replaced other than rejected passes")
        keep = [p for i, p in enumerate(prev["passes"]) if i not in bad]
        dropped = [p for i, p in enumerate(prev["passes"]) if i in bad]
        sim.ensure(all(p in now for p in keep), "C11", "valid-replaced", "a retry left out passes the server had found valid")
        sim.ensure(not any(p in now for p in dropped), "C11", "bad-kept", "a retry presented rejected passes again")
        sim.ensure(len(now) == len(prev["passes"]), "C11", "retry-count", f"{len(now)} passes in the retry, {len(prev['passes'])} before")
        for p in dropped:
            text = self.ledger.token_of(p)
            op.client.settled[text] = "rejected"

    def named_bad(self, entry):
        """
        The positions a refusal names, or None if Foolscap cuts its text short.
        """
        return set(entry["failed"]) if len(str(entry["error"])) < 950 else None

    def entry_of(self, call):
        """What the server did with this request."""
        return call.get("entry")

    def check_quote(self, call, entry):
        """Link the request to the operation it belongs to, and check the price offered."""
        if call is not None:
            call["entry"] = entry
            if entry["method"] in PAID and not entry["forbidden"]:
                self.check_price(call["op"], call, entry)

    def check_price(self, op, call, entry):
        sim = self.sim
        if call["method"] != "allocate_buckets":
            quote = next((c for c in reversed(op.calls) if c["method"] in ("stat_shares", "share_sizes")), None)
            if quote is None:
                if entry["price"] == 0 and not call["passes"]:
                    return
                if call["method"] == "slot_testv_and_readv_and_writev":
                    sim.ensure(len(call["passes"]) == entry["price"], "C09", "wrong-price",
                               f"{call['method']}: {len(call['passes'])} passes presented, the price is {entry['price']}")
                return
            if quote.get("entry") is None:
                return
            if quote["entry"]["version"] != entry["version"]:
                # Someone else changed it meanwhile, or a lease ran out.
                sim.count("quote-outdated")
                return
        sim.count("price-checked")
        sim.ensure(len(call["passes"]) == entry["price"], "C09", "wrong-price",
                   f"{call['method']}: {len(call['passes'])} passes presented, the price is {entry['price']}")

    def replied(self, op, call):
        pass

    # -- operations ----------------------------------------------------------------------
    def start(self, client, kind, f, server):
        """Run one client operation."""
        self.op_n += 1
        op = Op(client, kind, self.op_n)
        op.tokens = set()
        op.proc = client.proc
        op.errors0 = self.db_errors()
        op.cut = self.sim.counters["connections-cut"]
        client.ops.append(op)
        self.sim.log("op", op.n, client.n, kind, server.n)
        self.sim.count("op:" + kind)
        storage = client.storage_client(server, op)
        d = maybeDeferred(f, storage)
        client.proc.keep.append(d)
        op.d = d

        def finish(result):
            if not op.proc.alive or client.proc is not op.proc:
                return
            op.done = True
            op.result = result
            failed = isinstance(result, Failure)
            self.sim.log("op-done", op.n, result.type.__name__ if failed else "ok")
            self.sim.count("op-failed" if failed else "op-ok")
            self.op_done(op, result)

        d.addBoth(finish)
        return op

    def op_done(self, op, result):
        """The accounts, as soon as the operation has ended."""
        sim, client = self.sim, op.client
        if not client.up:
            return
        have, usable, invalid = client.durable()
        failed = isinstance(result, Failure)
        trouble = self.db_errors() != op.errors0
        last = next((c for c in reversed(op.calls) if c["method"] in PAID), None)
        settled_as = {}
        for call in op.calls:
            entry = self.entry_of(call)
            if call["method"] not in PAID or call["reply"] is WAITING or entry is None:
                continue
            reply = call["reply"]
            if isinstance(reply, Failure):
                if entry.get("refused") and reply.check(RemoteException):
                    named = self.named_bad(entry)
                    for i in entry["failed"] if named is None else named:
                        settled_as[self.ledger.token_of(call["passes"][i])] = "unclear" if named is None else "rejected"
                continue
            spent = {self.ledger.token_of(p) for p in entry["spent"]}
            for t in spent:
                settled_as[t] = "accepted"
            # Bad passes among enough good ones: the reply does not tell.
            for i in entry["failed"]:
                settled_as[self.ledger.token_of(call["passes"][i])] = "ignored"
        if not trouble:
            for t in op.tokens:
                how = settled_as.get(t)
                if how == "accepted":
                    sim.ensure(t not in have and t not in invalid, "C08", "accepted-not-spent",
                               "the server took a pass and said so, but its token is not recorded as spent")
                    client.settled[t] = "accepted"
                elif how == "ignored":
                    sim.count("bad-pass-ignored")
                elif how == "unclear":
                    # Foolscap cut the refusal short: it may have been named.
                    sim.count("rejection-cut-short")
                    sim.ensure((t in invalid) != (t in usable), "C08", "lost-token",
                               "a token whose pass was rejected is neither recorded as invalid nor available")
                    if t in invalid:
                        client.settled[t] = "rejected"
                elif how == "rejected":
                    sim.ensure(t in invalid and t not in have, "C08", "rejected-not-invalid",
                               "the server rejected a pass and said so, but its token is not recorded as invalid")
                    client.settled[t] = "rejected"
                else:
                    props = "C08 C12" if not failed and last is not None else "C08"
                    sim.ensure(t in usable and t not in invalid, props, "lost-token",
                               f"a token of an operation that ended ({'failed' if failed else 'ok'}) without its pass having been taken "
                               "or rejected is not available any more")
                    sim.ensure(t not in client.held, "C08", "still-in-use",
                               "a token of an operation that ended is neither spent nor invalid nor available")
        else:
            for t, how in settled_as.items():
                if t not in have and how not in ("ignored", "unclear"):
                    client.settled[t] = how
        self.check_total(client)
        if failed:
            self.check_failure(op, result)

    def check_failure(self, op, result):
        """An operation with enough passes and no fault succeeds."""
        sim, client = self.sim, op.client
        if self.db_errors() != op.errors0 or op.cancelled or op.cut != sim.counters["connections-cut"]:
            return
        if result.check(NotEnoughTokens, MemoryError):
            return
        for call in op.calls:
            if isinstance(call["reply"], Failure):
                entry = self.entry_of(call)
                if entry is None:
                    return
                if entry.get("refused"):
                    if not entry["failed"]:
                        return  # an outdated quote, judged elsewhere
                    if call is op.calls[-1]:
                        sim.violation("C11", "not-retried",
                                      f"{call['method']} was refused for {len(entry['failed'])} bad passes and not retried: "
                                      f"{result.type.__name__}: {result.getErrorMessage()[:200]}")
                    continue
                return
        sim.violation("C09", "fails-though-paid", f"{op.kind} failed: {result.type.__name__}: {result.getErrorMessage()[:300]}")

    def check_total(self, client):
        sim = self.sim
        if not client.up or client.uncertain:
            return
        before = self.db_errors()
        try:
            total = client.store.count_unblinded_tokens()
        except SimCrash:
            return
        except Exception:
            sim.ensure(self.db_errors() != before, "C08", "count-unavailable", "tokens cannot be counted")
            return
        busy = [o for o in client.ops if not o.done]
        _h, usable, _i = client.durable()
        if not busy:
            sim.ensure(not client.held, "C08", "still-in-use",
                       f"{len(client.held)} tokens are in use though no operation is in progress")
        want = len(usable - client.held)
        sim.ensure(total == want, "C08", "count-wrong", f"{total} tokens are advertised, {want} are available")

    # -- the workload ------------------------------------------------------------------
    def secret(self, client, si, label):
        import hashlib

        return hashlib.sha256(b"%s %s %s" % (label, b"shared" if label == b"we" else client.name.encode(), si)).digest()

    def size(self):
        ch, pv = self.sim.ch, self.pv
        if self.big:
            return 40 + ch.pick(80)
        base = ch.of([pv, 0, 1, pv - 1, pv + 1, 2 * pv, 3 * pv - 1, 5 * pv])
        if base > 3000:
            base = 3000 + base % 7
        return base

    def shares(self):
        ch = self.sim.ch
        return sorted({self.numbers[ch.pick(4)] for _ in range(1 + ch.pick(3))})

    def data(self, n, size):
        return bytes((n * 31 + i * 7) % 251 for i in range(size))

    def upload(self, client, server, si, shares, size, how):
        """Allocate, write and finish (or not) some immutable shares."""
        world = self
        canary = Canary()
        salt = self.kinds_salt(si)

        def f(storage):
            return storage.allocate_buckets(si, world.secret(client, si, b"rs"), world.secret(client, si, b"cs"),
                                            set(shares), size, canary)

        op = self.start(client, "allocate", f, server)

        def write(result):
            if not op.proc.alive or isinstance(result, Failure) or result is None:
                return
            _already, writers = result
            for n, w in sorted(writers.items()):
                self.write_share(client, w, self.data(n + salt, size), how)

        op.d.addCallback(lambda _: write(op.result))
        return op

    def kinds_salt(self, si):
        return self.all_sis.index(si) * 10

    def write_share(self, client, w, data, how):
        ch = self.sim.ch
        keep = client.proc.keep

        def call(what, *a):
            d = w.callRemote(what, *a)
            d.addErrback(lambda f: self.sim.log("writer-failed", what, f.type.__name__))
            keep.append(d)

        half = len(data) // 2
        call("write", 0, data[:half])
        if how == 1:
            return  # never finished
        if how == 2:
            call("abort")
            return
        if how == 3:
            call("write", half, data[half:] + b"more than agreed" * 100)
        call("write", half, data[half:])
        call("close")
        if how == 4:
            call("write", 0, b"x")

    def mutable_write(self, client, server, si, tw, readv, wrong_enabler=False):
        secrets = (self.secret(client, si, b"we") if not wrong_enabler else b"w" * 32,
                   self.secret(client, si, b"rs"), self.secret(client, si, b"cs"))

        def f(storage):
            return storage.slot_testv_and_readv_and_writev(si, secrets, tw, readv)

        op = self.start(client, "write", f, server)
        return op

    def make_tw(self, server, si, shares):
        ch = self.sim.ch
        tw = {}
        there = look(server.plain, si)
        for n in shares:
            how = ch.pick(6)
            size = self.size()
            self.op_n += 1
            data = self.data(self.op_n, size)
            test = []
            if ch.flag(0.25):
                # A test vector, right or wrong.
                cur = there.get(n, ("", 0, b"", ()))[2][:5]
                test = [(0, 5, cur if ch.flag(0.7) else b"wrong")]
            if how == 1:
                writes = [(ch.of([0, 3, self.pv, 2 * self.pv]), data[: ch.of([1, 2, 7])])]
            elif how == 2:
                writes = [(0, data), (size, b"tail")]
                if ch.flag(0.4):
                    writes.reverse()
            elif how == 3:
                writes = []
            elif how == 4:
                writes = [(size, b"far away")]
            else:
                writes = [(0, data)]
            tw[n] = (test, writes, None)
        return tw

    def simple(self, client, server, kind, f):
        op = self.start(client, kind, f, server)
        return op

    def act(self):
        sim, ch = self.sim, self.sim.ch
        client, server, si = ch.of(self.clients), ch.of(self.servers), ch.of(self.sis)
        if not client.up:
            self.boot(client)
            return
        mutable = self.kinds[si] == "mutable"
        what = ch.weighted([30, 12, 10, 6, 5, 2, 3, 8])
        if sum(1 for o in client.ops if not o.done) > 4:
            return
        if what == 0:
            if mutable:
                self.mutable_write(client, server, si, self.make_tw(server, si, self.shares()),
                                   [(0, 20)], wrong_enabler=ch.flag(0.04))
            else:
                self.upload(client, server, si, self.shares(), 1 + self.size() if self.size() == 0 else self.fixed_size(si),
                            ch.weighted([60, 12, 10, 9, 9]))
        elif what == 1:
            self.simple(client, server, "add_lease",
                        lambda s: s.add_lease(si, self.secret(client, si, b"rs"), self.secret(client, si, b"cs")))
        elif what == 2:
            if mutable:
                self.simple(client, server, "readv", lambda s: s.slot_readv(si, [] if ch.flag(0.5) else self.shares(), [(0, 50), (3, 9)]))
            else:
                self.simple(client, server, "get_buckets", lambda s: s.get_buckets(si))
        elif what == 3:
            self.simple(client, server, "stat", lambda s: s.stat_shares(list(self.sis)))
        elif what == 4:
            self.simple(client, server, "version", lambda s: s.get_version())
        elif what == 5:
            self.simple(client, server, "advise", lambda s: s.advise_corrupt_share(b"mutable", si, 0, b"no good"))
        elif what == 6:
            self.other_lease(server, si, ch.of([-25 * DAY, 20 * DAY, -1, DAY, 30 * DAY]))
        elif what == 7:
            slots = [(a, i, there) for a in self.servers for i in self.sis if self.kinds[i] == "mutable"
                     for there in [look(a.plain, i)] if len(there) > 1]
            if not slots:
                if mutable:
                    self.mutable_write(client, server, si, {n: ([], [(0, self.data(n, self.size()))], None) for n in self.numbers[:3]}, [])
                return
            # The leases of some of the shares ended and those of others did not.
            sim.count("mixed-leases")
            server, si, there = ch.of(slots)
            if not ch.flag(0.3):
                self.pass_time(32 * DAY)
                self.other_lease(server, si, ch.of([20 * DAY, DAY]), one=True)
            some = sorted(there) if ch.flag(0.6) else ch.shuffled(sorted(there))[:2]
            if ch.flag(0.5):
                self.attack(server, si, "slot_testv_and_readv_and_writev", sorted(some))
            else:
                self.mutable_write(client, server, si, self.make_tw(server, si, sorted(some)), [(0, 20)])

    def other_lease(self, server, si, remaining, one=False):
        """There is also a lease somebody else took out, at some other time."""
        ch = self.sim.ch
        secret = b"%032d" % ch.pick(3)
        chosen = None if not one and ch.flag(0.5) else self.numbers[ch.pick(4)]
        if one:
            chosen = ch.of(sorted(look(server.plain, si)))
        for storage in (server.plain, server.twin):
            for n, path in sorted(storage.get_shares(si)):
                if chosen is None or n == chosen:
                    get_share_file(path).add_or_renew_lease(
                        10**9, LeaseInfo(1, secret, secret, int(self.sim.seconds()) + remaining, b"n" * 20))
        self.sim.log("other-lease", server.n, self.sis.index(si), remaining)
        self.sim.count("other-lease")

    def fixed_size(self, si):
        """Immutable data has one size per storage index, mostly."""
        ch = self.sim.ch
        if self.big:
            return self.size()
        return [self.pv, 2 * self.pv + 1, 3 * self.pv - 1][self.all_sis.index(si) % 3] if not ch.flag(0.2) else 1 + ch.pick(3 * self.pv)

    # -- hostile clients ---------------------------------------------------------------
    def attack(self, server=None, si=None, method=None, shares=None):
        sim, ch = self.sim, self.sim.ch
        if method is None:
            server, si = ch.of(self.servers), (self.all_sis[-1] if ch.flag(0.2) else ch.of(self.sis))
            method = ch.of(["slot_testv_and_readv_and_writev", "allocate_buckets", "add_lease"])
            if si == self.all_sis[-1] and not look(server.plain, si):
                method = "allocate_buckets"
        sim.count("fault:byzantine-request")
        evil = self.evil
        conn = evil.connect(server)
        shares = self.shares() if shares is None else shares
        size = max(1, self.size()) if not ch.flag(0.04) else ch.of([0, -1, -self.pv - 1])
        secrets = (self.secret(evil, si, b"we"), self.secret(evil, si, b"rs"), self.secret(evil, si, b"cs"))
        there = look(server.plain, si)
        if method == "allocate_buckets":
            args = [si, secrets[1], secrets[2], set(shares), size, Canary()]
            price = ceil_div(size, self.pv) * len(shares)
        elif method == "add_lease":
            args = [si, secrets[1], secrets[2]]
            price = sum(ceil_div(s[1], self.pv) for s in there.values())
        else:
            tw = {n: ([(o, l, b"eq", s) for (o, l, s) in t], w, (ch.of([0, 5, 10**6]) if ch.flag(0.15) else None))
                  for n, (t, w, _x) in self.make_tw(server, si, shares).items()}
            args = [si, secrets, tw, [(0, 10)]]
            if tw and ch.flag(0.15):
                # Something no honest client does.
                n = ch.of(sorted(tw))
                t, w, x = tw[n]
                odd = ch.of([(-1, b"odd"), (-10, b"o"), (-3 * self.pv, b"odd"), (2 * self.pv + 1, b""), (0, b"")])
                tw[n] = (t, [odd] + w if ch.flag(0.5) else w + [odd], x)
            price = write_price(self.pv, there, tw, server.proc.clock.seconds())
        message = message_for(method, si)
        price = min(price, 30)

        def good(n, message=message, pub=server.pub):
            got = [self.ledger.pass_for(self.ledger.mint(pub), message) for _ in range(n)]
            self.shown.append((message, got))
            return got

        how = ch.pick(16) if si != self.all_sis[-1] or method != "allocate_buckets" or ch.flag(0.3) else 14
        sim.log("attack", method, how, price)
        other = message_for("add_lease" if method != "add_lease" else "allocate_buckets", si)
        if how == 0:
            passes = []
        elif how == 1:
            passes = good(max(0, price - 1))
        elif how == 2:
            passes = good(1) * max(1, price)
        elif how == 3:
            passes = good(price, message=other)
        elif how == 4:
            passes = good(price, message=message_for(method, b"%016d" % 77))
        elif how == 5:
            passes = good(price, pub=self.issuer.allowed[1])
        elif how == 6:
            passes = good(max(0, price - 1)) + good(2, pub=self.issuer.others[0])
        elif how == 7:
            passes = [p[:100] + (b"A" if p[100:101] != b"A" else b"B") + p[101:] for p in good(price)]
        elif how == 8:
            passes = [b"x" * 177 for _ in range(price)] if ch.flag(0.5) else [b" " * 177] * max(1, price)
        elif how == 9:
            passes = ch.shuffled(good(max(0, price - 1)) + good(1, message=other) + good(1) * 2)
        elif how == 10:
            # One pass, spelled in as many ways as there are.
            passes = [respelled(p, n) for p in good((price + 3) // 4) for n in range(4)][: max(1, price)]
        elif how == 11:
            # What does not even decode.
            junk = ch.of([b"!" * 88, b"A" * 88, b"A" * 87 + b"=", b"=" * 88, b"\xff" * 88])
            passes = [(junk + p[88:] if n % 2 else p[:89] + junk) for n, p in enumerate(good(price))]
        elif how == 12:
            # The signatures of other passes.
            got = good(price + 1)
            passes = [p[:88] + q[88:] for p, q in zip(got, got[1:])]
        elif how == 13:
            # Passes which were fine for something else.
            passes = [p for m, got in reversed(self.shown) if m != message for p in got][: max(1, price)]
        else:
            passes = good(price + ch.pick(3))
            if passes and ch.flag(0.2):
                passes[0] = respelled(passes[0], 1 + ch.pick(3))
        d = conn.rref.callRemote(method, passes, *args)
        evil.proc.keep.append(d)

        def done(result):
            if isinstance(result, Failure):
                sim.log("attack-failed", result.type.__name__)
                return
            sim.count("attack-paid")
            if method == "allocate_buckets":
                def write(_ignored):
                    for n, w in sorted(result[1].items()):
                        self.write_share(evil, w, self.data(n, size) if ch.flag(0.5) else bytes(size), ch.pick(5))

                if si == self.all_sis[-1] and ch.flag(0.85):
                    # An empty mutable share costs nothing.
                    sim.count("mixed-kinds")
                    tw = {ch.pick(8): ([], [(0, b"")], None)}
                    extra = conn.rref.callRemote("slot_testv_and_readv_and_writev", [], si, secrets, tw, [])
                    evil.proc.keep.append(extra)
                    extra.addBoth(write)
                    evil.proc.clock.callLater(20.0 + ch.pick(100), lambda: self.attack(server, si, "add_lease"))
                else:
                    write(None)

        d.addBoth(done)

    # -- driving -----------------------------------------------------------------------
    def boot(self, client):
        before = self.db_errors()
        try:
            client.boot()
        except SimCrash:
            return
        except Exception as e:
            if self.db_errors() == before:
                self.sim.violation(self.sim.target, "cannot-start", f"the client cannot start: {type(e).__name__}: {e}")
            return
        self.sim.log("client-boot", client.n)
        self.check_total(client)

    def fund(self, client):
        ch = self.sim.ch
        n = ch.of([40, 12, 25, 4]) if self.rich else ch.of([3, 8])
        faults, self.sim.faults_on = self.sim.faults_on, False
        bad = self.swarm["bad-tokens"]
        client.fund(n, self.issuer.allowed[0], True)
        client.fund(2, self.issuer.others[0], False)
        if bad:
            client.fund(1 + ch.pick(6) if not self.big else 250, self.issuer.allowed[1], True)
            if ch.flag(0.5):
                client.fund(6 if not self.big else 250, self.issuer.allowed[0], True)
            self.sim.count("fault:bad-tokens")
        self.sim.faults_on = faults

    def step(self):
        sim, ch = self.sim, self.sim.ch
        self.act()
        if ch.flag(0.6):
            sim.run_for([0.1, 0.5, 2.0, 10.0][ch.pick(4)])
        if self.swarm["byzantine"] and ch.flag(0.25):
            self.attack()
        if sim.fault("client-crash", self.swarm["client-crash"] / 3):
            c = ch.of(self.clients)
            if c.up:
                c.proc.kill("client-crash")
        if sim.fault("server-restart", self.swarm["server-restart"] / 3):
            s = ch.of(self.servers)
            s.restart()
        if self.swarm["cancel"]:
            busy = [o for c in self.clients if c.up for o in c.ops if not o.done]
            if busy and sim.fault("cancel", self.swarm["cancel"]):
                op = ch.of(busy)
                op.cancelled = True
                op.d.cancel()
        if sim.fault("disk-full", self.swarm["disk-full"]):
            s = ch.of(self.servers)
            s.space = ch.of([None, 0, 2 * self.pv, 5 * self.pv])
        if self.publish and sim.fault("metrics-unwritable", self.swarm["disk-full"]):
            s = ch.of(self.servers)
            s.publishable(False)
            sim.run_for(16.0)
        if ch.flag(0.12):
            days = ch.of([1, 15, 30, 31, 32, 62])
            sim.log("days-pass", days)
            # Let everything under way finish first, except when the clock jumps.
            if sim.fault("clock-jump", self.swarm["clock-jump"]):
                sim.clock.jump(days * DAY)
            else:
                sim.run_for(5.0)
                self.pass_time(days * DAY)

    def pass_time(self, seconds):
        """Time passes, without running periodic timers thousands of times."""
        if self.publish:
            self.sim.clock.jump(seconds)
            self.sim.run_for(0)
        else:
            self.sim.run_for(seconds)

    def run(self):
        sim, ch = self.sim, self.sim.ch
        self.shown = []
        self.evil = Client(self, 9)
        self.evil.name = "evil"
        self.evil.proc = Process(sim, "evil")
        self.evil.connections = {}
        self.evil.up = True
        enabled = []
        for c in self.clients:
            c.db.enabled = False
            self.boot(c)
            self.fund(c)
            c.db.enabled = True
        for _ in range(3 + ch.pick(14)):
            self.step()
        # No more faults; everything under way ends.
        sim.log("healthy")
        sim.faults_on = False
        for s in self.servers:
            s.publishable(True)
        sim.run_for(120.0)
        # A client full of bad tokens gets rid of them one refusal at a time.
        for _ in range(20):
            refused = sim.counters["refused"]
            if not any(o for c in self.clients for o in c.ops if c.up and not o.done):
                break
            sim.run_for(120.0)
            if sim.counters["refused"] == refused:
                break
        for c in self.clients:
            if not c.up:
                self.boot(c)
            stuck = [o for o in c.ops if not o.done]
            sim.ensure(not stuck, "C08", "never-ends",
                       f"{len(stuck)} operations ({', '.join(sorted({o.kind for o in stuck}))}) never ended although every request was answered "
                       "or its connection was lost")
            self.check_total(c)
        for s in self.servers:
            s.space = None
            self.check_server(s)
        if ch.flag(0.5):
            s = ch.of(self.servers)
            s.restart()
            self.check_server(s)
        # A last operation each, and all tokens can be had.
        c = ch.of(self.clients)
        if c.up and not c.uncertain:
            _h, usable, _i = c.durable()
            n = len(usable - c.held)
            if n:
                try:
                    got = c.store.get_unblinded_tokens(n)
                except NotEnoughTokens:
                    sim.violation("C08", "not-obtainable", f"{n} available tokens cannot be had")
                    return
                c.obtained(got)
                sim.ensure(c.store.count_unblinded_tokens() == 0, "C08", "count-wrong", "tokens remain after all were taken")
        # After a restart nothing is in use and nothing used comes back.
        if c.up:
            c.proc.kill("restart")
        self.boot(c)
        if c.up:
            _h, usable, _i = c.durable()
            for t in usable:
                sim.ensure(c.settled.get(t) is None, "C07", "used-token-back", f"a token already {c.settled.get(t)} is available again")
            total = c.store.count_unblinded_tokens()
            sim.ensure(total == len(usable), "C08", "count-wrong", f"{total} tokens advertised after a restart, {len(usable)} available")

    def check_server(self, s):
        """All the data, against the plain server; and the published metric."""
        sim = self.sim
        for si in self.all_sis:
            mine, theirs = look(s.plain, si), look(s.twin, si)
            sim.ensure({n: x[:3] for n, x in mine.items()} == {n: x[:3] for n, x in theirs.items()}, "C13", "data-differs",
                       f"shares {sorted(mine)} / plain server {sorted(theirs)}")
        if self.publish and s.counted:
            sim.run_for(16.0)
            with open(s.metrics) as f:
                text = f.read()
            line = next((l for l in text.splitlines() if l.startswith("zkapauthorizer_server_spending_successes_sum")), None)
            sim.ensure(line is not None and float(line.split()[1]) == s.counted, "C12", "metric-not-published",
                       f"published: {line}; {s.counted} passes were spent")


def run(sim):
    Spend(sim).run()


SPECS = [
    WorldSpec(
        "spend", run, ["C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"], quick=900, thorough=100000,
        real=["_storage_client.ZKAPAuthorizerStorageClient", "_storage_server.ZKAPAuthorizerStorageServer",
              "_plugin.ZKAPAuthorizer.get_storage_server", "spending.SpendingController and PassGroup",
              "controller.RistrettoRedeemer.tokens_to_passes", "model.VoucherStore", "server.spending.RecordingSpender",
              "foolscap brokers, serialisation and schemas", "allmydata StorageServer and share files",
              "challenge_bypass_ristretto (native)", "sqlite3 (real engine, real files)", "prometheus_client"],
        stubs=["the byte transport under foolscap", "reactor clock", "foolscap negotiation and distributed garbage collection",
               "free disk space", "tokens put straight into the store"],
        assumptions=["client and server clocks agree", "a lost connection is eventually noticed by both ends",
                     "the server does not yet refuse passes spent before (issue 41)"],
    ),
]
