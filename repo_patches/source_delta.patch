From 080c3431cc6693f2ee5837c991c7f1e99cf5c300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:36 +0000
Subject: [PATCH 01/39] fix: run schema upgrades inside one transaction

An interruption between two statements of a schema upgrade left a partially
upgraded database which could never be opened again.
---
 src/_zkapauthorizer/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/_zkapauthorizer/model.py b/src/_zkapauthorizer/model.py
index 47fa3a1..0fe8d53 100644
--- a/src/_zkapauthorizer/model.py
+++ b/src/_zkapauthorizer/model.py
@@ -160,6 +160,11 @@ def initialize_database(conn: _ReplicationCapableConnection) -> None:
         # schema.
         cursor.execute("PRAGMA foreign_keys = ON", ())
 
+        # SQLite3 DDL is transactional but the Python bindings do not open a
+        # transaction for it.  Open one so that an interrupted upgrade leaves
+        # no partially upgraded schema behind.
+        cursor.execute("BEGIN IMMEDIATE TRANSACTION")
+
         # Upgrade the database to the most recent version of the schema.  That
         # is the only schema the Python code will actually work against.
         actual_version = get_schema_version(cursor)
-- 
2.43.0


From 37e7ddcac5da621d3e2213c1906ab3a4eab25a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:52 +0000
Subject: [PATCH 02/39] fix: do not accept a voucher that could not be recorded

PUT /voucher answered success even if writing the voucher to the database
failed, so a voucher the user was told is accepted could be lost.
---
 src/_zkapauthorizer/resource.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 5a1b892..6df4bbd 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -697,7 +697,18 @@ class _VoucherCollection(Resource):
         self._log.info(
             "Accepting a voucher ({voucher}) for redemption.", voucher=voucher
         )
-        Deferred.fromCoroutine(self._controller.redeem(voucher.encode("ascii")))
+        # If it fails right away then the voucher may not have been recorded.
+        # Do not claim to have accepted it in that case.
+        failures: list[Failure] = []
+        d = Deferred.fromCoroutine(self._controller.redeem(voucher.encode("ascii")))
+        d.addErrback(failures.append)
+        if failures:
+            self._log.failure(
+                "Failed to accept a voucher ({voucher}).", failures[0], voucher=voucher
+            )
+            application_json(request)
+            set_response_code(request, INTERNAL_SERVER_ERROR)
+            return dumps_utf8({"reason": failures[0].getErrorMessage()})
         return b""
 
     def render_GET(self, request: IRequest) -> bytes:
-- 
2.43.0


From 250fd5875175c61bd4a56b88494c77a0359e3e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:52 +0000
Subject: [PATCH 03/39] fix: resume and retry redemption correctly after any
 failure

A voucher whose attempt failed with an unexpected error was never retried,
nor was one whose result or double-spend mark could not be written.  A stale
unpaid mark made redemption restart from group 0 with new tokens, which the
issuer refuses as double-spending.
---
 src/_zkapauthorizer/controller.py | 69 ++++++++++++++++++++++++++-----
 1 file changed, 59 insertions(+), 10 deletions(-)

diff --git a/src/_zkapauthorizer/controller.py b/src/_zkapauthorizer/controller.py
index aa728e2..cf9f8b3 100644
--- a/src/_zkapauthorizer/controller.py
+++ b/src/_zkapauthorizer/controller.py
@@ -850,8 +850,31 @@ class PaymentController(object):
         for voucher in list(self._error.keys()) + list(self._unpaid.keys()):
             if voucher in self._active:
                 continue
-            if self.get_voucher(voucher).state.should_start_redemption():
-                Deferred.fromCoroutine(self.redeem(voucher))
+            try:
+                state = self.get_voucher(voucher).state
+            except KeyError:
+                # It was never persisted.  There is nothing to retry.
+                self._error.pop(voucher, None)
+                self._unpaid.pop(voucher, None)
+            except Exception:
+                # Try again next time.
+                self._log.failure(
+                    "Checking a voucher ({voucher}) for retry failed.",
+                    voucher=voucher,
+                )
+            else:
+                if state.should_start_redemption():
+                    self._start_redemption(voucher)
+
+    def _start_redemption(self, voucher: bytes) -> None:
+        """
+        Start redeeming a voucher in the background.
+        """
+        Deferred.fromCoroutine(self.redeem(voucher)).addErrback(
+            lambda f: self._log.failure(
+                "Redeeming a voucher ({voucher}) failed.", f, voucher=voucher
+            )
+        )
 
     def _check_pending_vouchers(self) -> None:
         """
@@ -865,7 +888,7 @@ class PaymentController(object):
                     "Controller found voucher ({voucher}) at startup that needs redemption.",
                     voucher=voucher.number,
                 )
-                Deferred.fromCoroutine(self.redeem(voucher.number))
+                self._start_redemption(voucher.number)
             else:
                 self._log.info(
                     "Controller found voucher ({voucher}) at startup that does not need redemption.",
@@ -914,6 +937,14 @@ class PaymentController(object):
 
         :param num_tokens: A number of tokens to redeem.
         """
+        try:
+            await self._redeem(voucher, num_tokens)
+        except Exception:
+            # Remember that this did not work so that it will be retried.
+            self._redeem_failure(voucher, Failure())  # type: ignore[no-untyped-call]
+            raise
+
+    async def _redeem(self, voucher: bytes, num_tokens: Optional[int]) -> None:
         # Try to get an existing voucher object for the given number.
         try:
             voucher_obj = self.get_voucher(voucher)
@@ -926,9 +957,11 @@ class PaymentController(object):
                 real_num_tokens = num_tokens
         else:
             real_num_tokens = voucher_obj.expected_tokens
-            # Determine the starting point from the state.
+            # Determine the starting point from the persistent state.  The
+            # transient states do not reflect how many groups have already
+            # been redeemed.
             if voucher_obj.state.should_start_redemption():
-                counter_start = voucher_obj.state.start_at_counter()
+                counter_start = self.store.get(voucher).state.start_at_counter()
             else:
                 self._log.info(
                     "Cannot redeem voucher in state {state}.",
@@ -1040,6 +1073,9 @@ class PaymentController(object):
             completed=(counter + 1 == self.num_redemption_groups),
             spendable=result.public_key in self.allowed_public_keys,
         )
+        # Earlier failures no longer describe this voucher.
+        self._error.pop(voucher, None)
+        self._unpaid.pop(voucher, None)
 
     def _redeem_failure(self, voucher: bytes, reason: Failure) -> None:
         if reason.check(AlreadySpent):  # type: ignore[no-untyped-call]
@@ -1047,12 +1083,16 @@ class PaymentController(object):
                 "Voucher {voucher} reported as already spent during redemption.",
                 voucher=voucher,
             )
-            self.store.mark_voucher_double_spent(voucher)
+            try:
+                self.store.mark_voucher_double_spent(voucher)
+            except Exception:
+                self._final_redeem_error(voucher, Failure())  # type: ignore[no-untyped-call]
         elif reason.check(Unpaid):  # type: ignore[no-untyped-call]
             self._log.error(
                 "Voucher {voucher} reported as not paid for during redemption.",
                 voucher=voucher,
             )
+            self._error.pop(voucher, None)
             self._unpaid[voucher] = self.store.now()
         else:
             self._log.error(
@@ -1060,10 +1100,18 @@ class PaymentController(object):
                 reason=reason.value,
                 voucher=voucher,
             )
-            self._error[voucher] = model_Error(
-                finished=self.store.now(),
-                details=reason.getErrorMessage(),
-            )
+            self._record_error(voucher, reason)
+
+    def _record_error(self, voucher: bytes, reason: Failure) -> None:
+        """
+        Remember that the latest redemption attempt failed so that it can be
+        reported and retried.
+        """
+        self._unpaid.pop(voucher, None)
+        self._error[voucher] = model_Error(
+            finished=self.store.now(),
+            details=reason.getErrorMessage(),
+        )
 
     def _final_redeem_error(self, voucher: bytes, reason: Failure) -> None:
         self._log.failure(
@@ -1071,6 +1119,7 @@ class PaymentController(object):
             reason,
             voucher=voucher,
         )
+        self._record_error(voucher, reason)
 
     def get_voucher(self, number: bytes) -> Voucher:
         return self.incorporate_transient_state(
-- 
2.43.0


From 0329e3d49c8e34df092372f240fe4a078f117624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:14 +0000
Subject: [PATCH 04/39] fix: record change events in the transaction that makes
 the changes

Observers were signalled after the transaction had been committed, in a
second transaction.  If that one failed, an operation reported an error
though its changes were in effect, and those changes were never
replicated.  Mutations of a rolled back transaction were also kept and
reported along with the next one.
---
 src/_zkapauthorizer/replicate.py | 33 ++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 94383f7..005e0c4 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -419,8 +419,10 @@ class _ReplicationCapableConnection:
         """
         Add another observer of changes made through this connection.
 
-        :param fn: An object to call after any transaction with changes is
-            committed on this connection.
+        :param fn: An object to call when any transaction with changes is
+            about to be committed on this connection.  It is called inside
+            that transaction.  The object it returns is called after the
+            transaction has been committed.
         """
         self._observers = self._observers + (fn,)
 
@@ -444,17 +446,24 @@ class _ReplicationCapableConnection:
         exc_value: Optional[BaseException],
         exc_tb: Optional[Any],
     ) -> bool:
-        propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
+        post_txn_fns: list[Callable[[], None]] = []
         if exc_type is None:
-            # There was no exception, signal observers that a change has been
-            # committed.
-            post_txn_fns: list[Callable[[], None]] = []
-            with self._conn:
-                curse = self._conn.cursor()
-                curse.execute("BEGIN IMMEDIATE TRANSACTION")
-                post_txn_fns.extend(self._maybe_signal_observers(curse))
-            for f in post_txn_fns:
-                f()
+            # There was no exception, tell observers about the changes as part
+            # of the transaction making them.  Whatever the observers record
+            # about the changes is committed if and only if the changes are.
+            try:
+                post_txn_fns.extend(self._maybe_signal_observers(self._conn.cursor()))
+                propagate = self._conn.__exit__(None, None, None)
+            except:
+                self._mutations = list()
+                self._conn.rollback()
+                raise
+        else:
+            # The changes are about to be undone.
+            self._mutations = list()
+            propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
+        for f in post_txn_fns:
+            f()
         # Respect the underlying propagation decision.
         return propagate
 
-- 
2.43.0


From c486db322b888d87fe98bc025fa7d17799869598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:25 +0000
Subject: [PATCH 05/39] fix: recognize payment refusals that arrive over
 Foolscap

Tahoe-LAFS nodes run Foolscap with expose-remote-exception-types turned off
so a remote exception arrives as a RemoteException around a CopiedFailure
and never as a MorePassesRequired.  Rejected passes were therefore neither
invalidated nor replaced: the operation failed and presented the same
passes again the next time.
---
 src/_zkapauthorizer/_storage_client.py | 61 ++++++++++++++++++++++++--
 1 file changed, 58 insertions(+), 3 deletions(-)

diff --git a/src/_zkapauthorizer/_storage_client.py b/src/_zkapauthorizer/_storage_client.py
index 19c8ee2..a884f9b 100644
--- a/src/_zkapauthorizer/_storage_client.py
+++ b/src/_zkapauthorizer/_storage_client.py
@@ -20,11 +20,13 @@ This is the client part of a storage access protocol.  The server part is
 implemented in ``_storage_server.py``.
 """
 
+import re
 from functools import partial, wraps
 from typing import Any, Awaitable, Callable, Optional, Protocol, TypeVar
 
 from allmydata.interfaces import IStorageServer
 from attrs import Factory, define, field
+from foolscap.api import RemoteException
 from foolscap.ipb import IRemoteReference
 from foolscap.referenceable import RemoteReference
 from twisted.internet.defer import Deferred
@@ -245,6 +247,56 @@ def with_rref(
     return g
 
 
+_MORE_PASSES_REQUIRED = re.compile(
+    r"MorePassesRequired\(valid_count=(\d+), required_count=(\d+), "
+    r"signature_check_failed=frozenset\((?:\{([0-9, ]*))?"
+)
+
+
+def _load_more_passes_required(text: str) -> Optional[MorePassesRequired]:
+    """
+    Reconstruct a ``MorePassesRequired`` from its string form.
+
+    Foolscap only carries the beginning of the string form of a remote
+    exception.  If the text has been cut off then the positions it still
+    completely includes are in the result.  Some of the passes not included
+    may also have been rejected.
+
+    :return: The exception, or ``None`` if the text does not represent one.
+    """
+    match = _MORE_PASSES_REQUIRED.match(text)
+    if match is None:
+        return None
+    valid_count, required_count, positions = match.groups()
+    indexes = [] if positions is None else positions.split(",")
+    if not text.endswith("}))"):
+        # The last position may be missing some digits.
+        indexes = indexes[:-1]
+    return MorePassesRequired(
+        int(valid_count),
+        int(required_count),
+        frozenset(int(idx) for idx in indexes if idx.strip()),
+    )
+
+
+async def _call_with_payment(rref: IRemoteReference, method: str, *args: Any) -> Any:
+    """
+    Call a remote method which requires payment.
+
+    :raise MorePassesRequired: If this is the reason the server gives for
+        refusing to do what was asked.  Foolscap cannot represent it as the
+        exception it was on the server.
+    """
+    try:
+        return await rref.callRemote(method, *args)  # type: ignore[no-untyped-call]
+    except RemoteException as e:
+        if e.failure.check(MorePassesRequired):
+            more_passes_required = _load_more_passes_required(str(e.failure.value))
+            if more_passes_required is not None:
+                raise more_passes_required from e
+        raise
+
+
 def _encode_passes(group: IPassGroup) -> list[bytes]:
     """
     :param group: A group of passes to encode.
@@ -314,7 +366,8 @@ async def slot_testv_and_readv_and_writev(
     old_tw_vectors: dict[int, ServerTestWriteVector],
     r_vector: ReadVector,
 ) -> tuple[bool, dict[int, list[bytes]]]:
-    unknown = await rref.callRemote(  # type: ignore[no-untyped-call]
+    unknown = await _call_with_payment(
+        rref,
         "slot_testv_and_readv_and_writev",
         _encode_passes(passes),
         storage_index,
@@ -481,7 +534,8 @@ class ZKAPAuthorizerStorageClient(object):
         )
 
         async def call(passes: IPassGroup) -> tuple[set[int], dict[int, Any]]:
-            alreadygot, buckets = await rref.callRemote(  # type: ignore[no-untyped-call]
+            alreadygot, buckets = await _call_with_payment(
+                rref,
                 "allocate_buckets",
                 _encode_passes(passes),
                 storage_index,
@@ -539,7 +593,8 @@ class ZKAPAuthorizerStorageClient(object):
         num_passes = required_passes(self._pass_value, share_sizes)
 
         async def call(passes: IPassGroup) -> None:
-            await rref.callRemote(  # type: ignore[no-untyped-call]
+            await _call_with_payment(
+                rref,
                 "add_lease",
                 _encode_passes(passes),
                 storage_index,
-- 
2.43.0


From 620b42ed6af77b8a708cfe684be6bea3066149ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:25 +0000
Subject: [PATCH 06/39] fix: account for all tokens of a failed operation

If passes could not be made then the tokens for them stayed in use until the
next restart.  If accepted passes could not be recorded as spent then they
went back into circulation.
---
 src/_zkapauthorizer/_storage_client.py | 11 ++++++++---
 src/_zkapauthorizer/spending.py        |  7 ++++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/_zkapauthorizer/_storage_client.py b/src/_zkapauthorizer/_storage_client.py
index a884f9b..9ae56ad 100644
--- a/src/_zkapauthorizer/_storage_client.py
+++ b/src/_zkapauthorizer/_storage_client.py
@@ -174,13 +174,16 @@ async def call_with_passes_with_manual_spend(
                             num_passes - len(pass_group.passes)
                         )
                 else:
-                    on_success(result, pass_group)
                     break
         except:
             # Something went wrong that we can't address with a retry.
             pass_group.reset()
             raise
 
+        # The passes have been accepted.  Even if recording this fails they
+        # must not go back into circulation.
+        on_success(result, pass_group)
+
     # Give the operation's result to the caller.
     return result
 
@@ -515,8 +518,10 @@ class ZKAPAuthorizerStorageClient(object):
             [allocated_size] * len(bucketwriters),
         )
         to_spend, to_reset = pass_group.split(range(actual_passes))
-        to_spend.mark_spent()
-        to_reset.reset()
+        try:
+            to_spend.mark_spent()
+        finally:
+            to_reset.reset()
 
     @with_rref
     async def allocate_buckets(
diff --git a/src/_zkapauthorizer/spending.py b/src/_zkapauthorizer/spending.py
index 0ee7453..bd9a6e6 100644
--- a/src/_zkapauthorizer/spending.py
+++ b/src/_zkapauthorizer/spending.py
@@ -208,7 +208,12 @@ class SpendingController(object):
 
     def get(self, message: bytes, num_passes: int) -> PassGroup:
         unblinded_tokens = self.get_unblinded_tokens(num_passes)
-        passes = self.tokens_to_passes(message, unblinded_tokens)
+        try:
+            passes = self.tokens_to_passes(message, unblinded_tokens)
+        except:
+            # Nobody will ever know about these tokens.
+            self.reset(unblinded_tokens)
+            raise
         GET_PASSES.log(
             message=message.decode("utf-8"),
             count=num_passes,
-- 
2.43.0


From 67d8753e9f6107a562f4cd296d1f607af6c88581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:25 +0000
Subject: [PATCH 07/39] fix: accept a pass only once for each request

A client could pay for any amount of storage by presenting copies of a
single pass.
---
 src/_zkapauthorizer/_storage_server.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/_storage_server.py b/src/_zkapauthorizer/_storage_server.py
index e60b193..2eff4e2 100644
--- a/src/_zkapauthorizer/_storage_server.py
+++ b/src/_zkapauthorizer/_storage_server.py
@@ -170,13 +170,16 @@ class _ValidationResult(object):
         :return: An instance of this class describing the validation result
             for all passes given.
         """
-        valid = []
+        valid: list[bytes] = []
+        seen: set[bytes] = set()
         signature_check_failed = []
         for idx, pass_ in enumerate(passes):
             pass_obj = Pass.from_bytes(pass_)
             if cls._is_invalid_pass(message, pass_obj, signing_key):
                 signature_check_failed.append(idx)
-            else:
+            elif pass_obj.preimage not in seen:
+                # A pass presented more than once only pays once.
+                seen.add(pass_obj.preimage)
                 valid.append(pass_obj.preimage)
         return cls(
             valid=valid,
-- 
2.43.0


From e415ca0daa8a815ec17e6c6226f28b74a02fc5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:25 +0000
Subject: [PATCH 08/39] fix: reject malformed passes like other invalid passes

Presenting a malformed pass failed the whole request with an unrelated
exception.
---
 src/_zkapauthorizer/_storage_server.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/_storage_server.py b/src/_zkapauthorizer/_storage_server.py
index 2eff4e2..66284a3 100644
--- a/src/_zkapauthorizer/_storage_server.py
+++ b/src/_zkapauthorizer/_storage_server.py
@@ -174,7 +174,12 @@ class _ValidationResult(object):
         seen: set[bytes] = set()
         signature_check_failed = []
         for idx, pass_ in enumerate(passes):
-            pass_obj = Pass.from_bytes(pass_)
+            try:
+                pass_obj = Pass.from_bytes(pass_)
+            except (TypeError, ValueError):
+                # It isn't even shaped like a pass.
+                signature_check_failed.append(idx)
+                continue
             if cls._is_invalid_pass(message, pass_obj, signing_key):
                 signature_check_failed.append(idx)
             elif pass_obj.preimage not in seen:
-- 
2.43.0


From 9a9e3ad5451a6f6bfa47e2ef846cb09af87ca539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:40 +0000
Subject: [PATCH 09/39] fix: charge the full size of a share to renew its
 expired lease

A write to a share without an unexpired lease renews the lease on the whole
share but the price only covered the part of the share up to the end of the
written data.
---
 src/_zkapauthorizer/_storage_client.py | 19 ++++++++++-------
 src/_zkapauthorizer/_storage_server.py | 29 +++++++++++++-------------
 src/_zkapauthorizer/storage_common.py  | 12 +++++++++--
 3 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/src/_zkapauthorizer/_storage_client.py b/src/_zkapauthorizer/_storage_client.py
index 9ae56ad..a6a33ac 100644
--- a/src/_zkapauthorizer/_storage_client.py
+++ b/src/_zkapauthorizer/_storage_client.py
@@ -682,23 +682,26 @@ class ZKAPAuthorizerStorageClient(object):
             # of the current size of all of the specified shares (keys of
             # tw_vectors).
             [stats] = await stat_shares(rref, [storage_index])
-            # Filter down to only the shares that have an active lease.  If
-            # we're going to write to any other shares we will have to pay to
-            # renew their leases.
-            now = self._clock.seconds()
+            # The size of any share we're not writing to doesn't matter.
             current_sizes = {
                 sharenum: stat.size
                 for (sharenum, stat) in stats.items()
-                if stat.lease_expiration > now
-                # Also, the size of any share we're not writing to doesn't
-                # matter.
-                and sharenum in write_sharenums
+                if sharenum in write_sharenums
+            }
+            # If we're going to write to any shares which don't have an
+            # active lease we will have to pay to renew their leases.
+            now = self._clock.seconds()
+            expired = {
+                sharenum
+                for sharenum in current_sizes
+                if stats[sharenum].lease_expiration <= now
             }
             # Determine the cost of the new storage for the operation.
             num_passes = get_required_new_passes_for_mutable_write(
                 self._pass_value,
                 current_sizes,
                 old_tw_vectors,
+                expired,
             )
 
         async def call(passes: IPassGroup) -> tuple[bool, dict[int, list[bytes]]]:
diff --git a/src/_zkapauthorizer/_storage_server.py b/src/_zkapauthorizer/_storage_server.py
index 66284a3..52a5b82 100644
--- a/src/_zkapauthorizer/_storage_server.py
+++ b/src/_zkapauthorizer/_storage_server.py
@@ -1058,21 +1058,19 @@ def get_writev_price(
         ),
     )
 
-    # Zero out the size of any share without an unexpired lease.  We will
-    # renew the lease on this share along with the write but the client
-    # must supply the necessary passes to do so.
-    current_sizes.update(
-        {
-            sharenum: 0
-            for sharenum in current_sizes
-            if not share_has_active_leases(
-                storage_server,
-                storage_index,
-                sharenum,
-                now,
-            )
-        }
-    )
+    # Find the shares without an unexpired lease.  We will renew the lease on
+    # these shares along with the write but the client must supply the
+    # necessary passes to do so.
+    expired = {
+        sharenum
+        for sharenum in current_sizes
+        if not share_has_active_leases(
+            storage_server,
+            storage_index,
+            sharenum,
+            now,
+        )
+    }
 
     # Compute the number of passes required to execute the given writev
     # against these existing shares.
@@ -1080,4 +1078,5 @@ def get_writev_price(
         pass_value,
         current_sizes,
         tw_vectors,
+        expired,
     )
diff --git a/src/_zkapauthorizer/storage_common.py b/src/_zkapauthorizer/storage_common.py
index 6d8882a..4a06f8c 100644
--- a/src/_zkapauthorizer/storage_common.py
+++ b/src/_zkapauthorizer/storage_common.py
@@ -17,7 +17,7 @@ Functionality shared between the storage client and server.
 """
 
 from base64 import b64encode
-from typing import Callable, TypedDict, Union, ValuesView, cast
+from typing import Callable, Container, TypedDict, Union, ValuesView, cast
 
 from attrs import define
 from pyutil.mathutil import div_ceil
@@ -273,6 +273,7 @@ def get_required_new_passes_for_mutable_write(
     pass_value: int,
     current_sizes: dict[int, int],
     tw_vectors: dict[int, ServerTestWriteVector],
+    expired: Container[int] = (),
 ) -> int:
     """
     Get the number of new passes required to authorize a given write to a
@@ -284,11 +285,18 @@ def get_required_new_passes_for_mutable_write(
 
     :param tw_vectors: The test-and-write vectors that make up the write.
 
+    :param expired: The numbers of those current shares which have no
+        unexpired lease.  The full size of these has to be paid for.
+
     :return: The number of new passes which must be spent.
     """
     current_passes = required_passes(
         pass_value,
-        current_sizes.values(),
+        [
+            size
+            for (sharenum, size) in current_sizes.items()
+            if sharenum not in expired
+        ],
     )
 
     new_sizes = current_sizes.copy()
-- 
2.43.0


From 7d5bcff38c28017fb5c06ebbb3be537f586f3e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:40 +0000
Subject: [PATCH 10/39] fix: count all passes spent by a mutable write

If a write presented more passes than it needed then all of them were marked
as spent but only the price was counted in the spending metric.
---
 src/_zkapauthorizer/_storage_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/_storage_server.py b/src/_zkapauthorizer/_storage_server.py
index 52a5b82..e79a216 100644
--- a/src/_zkapauthorizer/_storage_server.py
+++ b/src/_zkapauthorizer/_storage_server.py
@@ -625,7 +625,7 @@ class ZKAPAuthorizerStorageServer(Referenceable):
         )
 
         # The operation has fully succeeded.
-        self._metric_spending_successes.observe(required_new_passes)
+        self._metric_spending_successes.observe(len(validation.valid))
 
         # Propagate the result of the operation.
         return result
-- 
2.43.0


From a3283bbf19e778786ef88560402b17aa45eec681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:46 +0000
Subject: [PATCH 11/39] fix: skip nodes without storage index in lease
 maintenance

Literal files and directories and nodes of unknown kinds have no storage
index.  Asking the storage servers about None failed the whole run.
---
 src/_zkapauthorizer/lease_maintenance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index 0746a33..c8350da 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -97,7 +97,11 @@ async def visit_storage_indexes(
     stack = root_nodes[:]
     while stack:
         elem = stack.pop()
-        visit(elem.get_storage_index())
+        storage_index = elem.get_storage_index()
+        # Literal nodes have all of their data in their capability and nothing
+        # on any storage server.
+        if storage_index is not None:
+            visit(storage_index)
         if IDirectoryNode.providedBy(elem):
             children = await elem.list()
             # Produce consistent results by forcing some consistent ordering
-- 
2.43.0


From 9d3fc7215f9384c1b7e929a98f328b03f0d1ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:46 +0000
Subject: [PATCH 12/39] fix: visit each object only once in lease maintenance

Traversal of a directory structure with a cycle in it never ended.
---
 src/_zkapauthorizer/lease_maintenance.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index c8350da..ab30c62 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -94,6 +94,9 @@ async def visit_storage_indexes(
                 )
             )
 
+    # Directories may be linked from several places, even from below themselves.
+    visited: set[bytes] = set()
+
     stack = root_nodes[:]
     while stack:
         elem = stack.pop()
@@ -101,6 +104,9 @@ async def visit_storage_indexes(
         # Literal nodes have all of their data in their capability and nothing
         # on any storage server.
         if storage_index is not None:
+            if storage_index in visited:
+                continue
+            visited.add(storage_index)
             visit(storage_index)
         if IDirectoryNode.providedBy(elem):
             children = await elem.list()
-- 
2.43.0


From 283ed5ad6fff126b883ddb27cc07b4560699a586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:58 +0000
Subject: [PATCH 13/39] fix: give storage clients the lease seed lease
 maintenance asks for

ZKAPAuthorizerStorageClient had no get_lease_seed method so that lease
maintenance failed on the first lease in need of renewal.
---
 src/_zkapauthorizer/_storage_client.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/_zkapauthorizer/_storage_client.py b/src/_zkapauthorizer/_storage_client.py
index a6a33ac..5524ca1 100644
--- a/src/_zkapauthorizer/_storage_client.py
+++ b/src/_zkapauthorizer/_storage_client.py
@@ -25,6 +25,7 @@ from functools import partial, wraps
 from typing import Any, Awaitable, Callable, Optional, Protocol, TypeVar
 
 from allmydata.interfaces import IStorageServer
+from allmydata.util import base32
 from attrs import Factory, define, field
 from foolscap.api import RemoteException
 from foolscap.ipb import IRemoteReference
@@ -469,6 +470,17 @@ class ZKAPAuthorizerStorageClient(object):
             )
         return rref
 
+    def get_lease_seed(self) -> bytes:
+        """
+        Get the seed to use in deriving this server's lease secrets.
+
+        :return: The identifier of the server's tub, as Tahoe-LAFS uses to
+            derive the secrets of the leases it creates on this server.
+        """
+        tub_id = self._rref().getRemoteTubID()  # type: ignore[no-untyped-call]
+        seed: bytes = base32.a2b(tub_id.encode("ascii"))
+        return seed
+
     @with_rref
     async def get_version(self, rref: IRemoteReference) -> dict[bytes, Any]:
         unknown_version = await rref.callRemote(  # type: ignore[no-untyped-call]
-- 
2.43.0


From 095c84b6211cc4ebda8e363f7301fada12175f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:49 +0000
Subject: [PATCH 14/39] fix: continue lease maintenance past failing servers
 and objects

One unreachable server, one refused renewal or one unreadable directory kept
all the remaining leases from being renewed.
---
 src/_zkapauthorizer/lease_maintenance.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index ab30c62..1d757c4 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -109,7 +109,12 @@ async def visit_storage_indexes(
             visited.add(storage_index)
             visit(storage_index)
         if IDirectoryNode.providedBy(elem):
-            children = await elem.list()
+            try:
+                children = await elem.list()
+            except Exception:
+                # Whatever else can be reached still needs its leases.
+                err(Failure(), "Listing a directory for lease maintenance")  # type: ignore[no-untyped-call]
+                continue
             # Produce consistent results by forcing some consistent ordering
             # here.  This will sort by name.
             stable_children = sorted(children.items())
@@ -228,7 +233,13 @@ async def renew_leases_on_server(
     :return: A coroutine which completes after all storage indexes have been
         checked and any leases that need renewal have been renewed.
     """
-    stats = await server.stat_shares(storage_indexes)
+    try:
+        stats = await server.stat_shares(storage_indexes)
+    except Exception:
+        # Leases on the other servers still need attention.
+        err(Failure(), "Checking leases on a storage server")  # type: ignore[no-untyped-call]
+        return
+
     for storage_index, stat_dict in zip(storage_indexes, stats):
         if not stat_dict:
             # The server has no shares for this storage index.
@@ -247,7 +258,11 @@ async def renew_leases_on_server(
         # whether to renew leases at this storage index or not based on that.
         most_endangered = soonest_expiration(stat_dict.values())
         if needs_lease_renew(min_lease_remaining, most_endangered, now):
-            await renew_lease(renewal_secret, cancel_secret, storage_index, server)
+            try:
+                await renew_lease(renewal_secret, cancel_secret, storage_index, server)
+            except Exception:
+                # Other leases still need attention.
+                err(Failure(), "Renewing a lease on a storage server")  # type: ignore[no-untyped-call]
 
 
 def soonest_expiration(stats: Iterable[ShareStat]) -> ShareStat:
-- 
2.43.0


From 7df08d0a4fd69cfb358d16be80a672148392e155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:37 +0000
Subject: [PATCH 15/39] fix: stop lease maintenance for good when its service
 is stopped

Stopping the service during a run failed with AlreadyCalled, and the next run
was scheduled anyway.
---
 src/_zkapauthorizer/lease_maintenance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index 1d757c4..9c1b129 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -394,6 +394,7 @@ class _FuzzyTimerService(Service, Generic[_C]):
         """
         Run the operation once and then schedule it to run again.
         """
+        self._call = None
 
         async def go() -> None:
             try:
@@ -401,7 +402,9 @@ class _FuzzyTimerService(Service, Generic[_C]):
             except:
                 f = Failure()  # type: ignore[no-untyped-call]
                 err(f, f"Fuzzy timer service ({self.name})")  # type: ignore[no-untyped-call]
-            self._schedule()
+            # The service may have been stopped in the mean time.
+            if self.running:
+                self._schedule()
 
         Deferred.fromCoroutine(go())
 
-- 
2.43.0


From 52b9be337f89f2d38cc00876fdb3706089d3890f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 16/39] fix: replay event streams with the cursor recovery
 really uses

---
 src/_zkapauthorizer/recover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 3081636..6fde6aa 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -260,7 +260,7 @@ def recover_event_stream(event_stream: EventStream, cursor: Cursor) -> None:
     """
     for change in event_stream.changes:
         if change.statement not in ("BEGIN TRANSACTION;", "COMMIT;"):
-            cursor.execute(change.statement, change.arguments)
+            cursor.execute(change.statement, tuple(change.arguments))
 
 
 def recover_snapshot(statements: Iterator[str], cursor: Cursor) -> None:
-- 
2.43.0


From 03ef24d06d458936b1db9266fd69ebb7f1567176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 17/39] fix: apply each replicated change exactly once during
 recovery

---
 src/_zkapauthorizer/recover.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 6fde6aa..8c01fe9 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -224,8 +224,34 @@ def recover(
     streams against the given cursor.
     """
     recover_snapshot(statements_from_snapshot(snapshot), cursor)
+    # An interrupted upload or prune can leave behind event streams which
+    # overlap the snapshot or each other.  Apply each change exactly once.
+    applied = _snapshot_sequence(cursor)
     for event_stream in sorted_event_streams(load_event_streams(event_stream_data)):
-        recover_event_stream(event_stream, cursor)
+        changes = [c for c in event_stream.changes if c.sequence > applied]
+        recover_event_stream(EventStream(changes), cursor)
+        applied = max([applied] + [c.sequence for c in changes])
+
+
+def _snapshot_sequence(cursor: Cursor) -> int:
+    """
+    Determine the sequence number of the last change which is included in the
+    snapshot that was just loaded.
+    """
+    cursor.execute(
+        "SELECT [name] FROM [sqlite_master] WHERE [name] = 'sqlite_sequence'", ()
+    )
+    if len(cursor.fetchall()) == 0:
+        return 0
+    cursor.execute(
+        "SELECT [seq] FROM [sqlite_sequence] WHERE [name] = 'event-stream'", ()
+    )
+    rows = cursor.fetchall()
+    if len(rows) == 0:
+        return 0
+    [(seq,)] = rows
+    assert isinstance(seq, int)
+    return seq
 
 
 def sorted_event_streams(event_streams: Iterable[EventStream]) -> list[EventStream]:
-- 
2.43.0


From 8ba7680d016037e4695cce59c4a9a600d2965fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 18/39] fix: do not discard the first change when an empty
 snapshot is uploaded

---
 src/_zkapauthorizer/replicate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 005e0c4..8cd1ca4 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -947,8 +947,9 @@ class _ReplicationService(Service):
         Perform a single snapshot upload, including pruning event-streams
         from the replica that are no longer relevant.
         """
-        # extract sequence-number and snapshot data
-        seqnum = 1
+        # extract sequence-number and snapshot data.  If no event was recorded
+        # yet then none is included in the snapshot.
+        seqnum = 0
         rows = (
             self._connection.cursor()
             .execute(
-- 
2.43.0


From c8e6b51004568e7882b6dd98cba114f692216226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 19/39] fix: do not recover tokens as in use by the recovering
 process

---
 src/_zkapauthorizer/recover.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 8c01fe9..bf7ea72 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -12,6 +12,7 @@ __all__ = [
     "noop_downloader",
 ]
 
+import re
 from collections.abc import Awaitable
 from enum import Enum, auto
 from functools import partial
@@ -280,13 +281,26 @@ def load_event_streams(
             yield EventStream.from_bytes(f)
 
 
+# Match the statements which only change the temporary table which tracks the
+# tokens in use by one particular process.
+_CHANGES_IN_USE = re.compile(
+    r"\s*(?:INSERT(?:\s+OR\s+\w+)?\s+INTO|DELETE\s+FROM)\s+\[in-use\]",
+    re.IGNORECASE,
+)
+
+
 def recover_event_stream(event_stream: EventStream, cursor: Cursor) -> None:
     """
     Replay the changes in an event stream using the given cursor.
     """
     for change in event_stream.changes:
-        if change.statement not in ("BEGIN TRANSACTION;", "COMMIT;"):
-            cursor.execute(change.statement, tuple(change.arguments))
+        if change.statement in ("BEGIN TRANSACTION;", "COMMIT;"):
+            continue
+        if _CHANGES_IN_USE.match(change.statement):
+            # No token is in use by the process performing the recovery just
+            # because it was once in use by the process being recovered.
+            continue
+        cursor.execute(change.statement, tuple(change.arguments))
 
 
 def recover_snapshot(statements: Iterator[str], cursor: Cursor) -> None:
-- 
2.43.0


From b57961a687c9c783d54730bb0c3e68f9011773aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 20/39] fix: keep replicating after a replication job fails

---
 src/_zkapauthorizer/_plugin.py   |  2 +-
 src/_zkapauthorizer/replicate.py | 61 ++++++++++++++++++++++++++------
 2 files changed, 52 insertions(+), 11 deletions(-)

diff --git a/src/_zkapauthorizer/_plugin.py b/src/_zkapauthorizer/_plugin.py
index 667045c..b42e587 100644
--- a/src/_zkapauthorizer/_plugin.py
+++ b/src/_zkapauthorizer/_plugin.py
@@ -232,7 +232,7 @@ class ZKAPAuthorizer(object):
             client.get_config().encoding,
             10,
         )
-        svc = replication_service(replicated_conn, replica, cost)
+        svc = replication_service(replicated_conn, replica, cost, self.reactor)
         svc.setServiceParent(self._service)  # type: ignore[no-untyped-call]
 
     def _get_redeemer(
diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 8cd1ca4..ce3919d 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -94,6 +94,8 @@ from tahoe_capabilities import (
 )
 from twisted.application.service import IService, Service
 from twisted.internet.defer import CancelledError, Deferred, DeferredQueue, succeed
+from twisted.internet.interfaces import IReactorTime
+from twisted.internet.task import deferLater
 from twisted.logger import Logger
 from twisted.python.filepath import FilePath
 from twisted.python.lockfile import FilesystemLock
@@ -132,6 +134,9 @@ class SnapshotPolicy(Protocol):
 
 SNAPSHOT_NAME = "snapshot"
 
+# The number of seconds to wait before doing a failed replication job again.
+_RETRY_INTERVAL = 60.0
+
 
 @frozen
 class Replica:
@@ -839,6 +844,7 @@ class _ReplicationService(Service):
 
     _changes: AccumulatedChanges = AccumulatedChanges.no_changes()
     _jobs: DeferredQueue[ReplicationJob] = field(factory=DeferredQueue)
+    _reactor: Optional[IReactorTime] = None
 
     @property
     def _unreplicated_connection(self) -> _SQLite3Connection:
@@ -916,16 +922,46 @@ class _ReplicationService(Service):
         """
         while True:
             job = await self._jobs.get()
-            if job == ReplicationJob.event_stream:
-                await self._do_one_event_upload()
-            elif job == ReplicationJob.snapshot:
-                await self._do_one_snapshot_upload()
-            elif job == ReplicationJob.consider_snapshot:
-                await self._do_consider_snapshot()
-            elif job == ReplicationJob.startup:
-                await self._do_startup()
-            else:
-                raise Exception("internal error")  # pragma: nocover
+            try:
+                await self._do_one_job(job)
+            except CancelledError:
+                raise
+            except Exception:
+                if not self.running:
+                    # The job was interrupted because we're being stopped.
+                    raise
+                # Nothing else will get replicated if we give up.  Try this
+                # job again later.
+                self._logger.failure(
+                    "replication job {job} failed; it will be retried", job=job
+                )
+                await deferLater(self._get_reactor(), _RETRY_INTERVAL, lambda: None)
+                self.queue_job(job)
+
+    def _get_reactor(self) -> IReactorTime:
+        """
+        Get the reactor to use to wait between retries of failed jobs.
+        """
+        if self._reactor is None:
+            from twisted.internet import reactor
+
+            return cast(IReactorTime, reactor)
+        return self._reactor
+
+    async def _do_one_job(self, job: ReplicationJob) -> None:
+        """
+        Do the work of one job from the queue.
+        """
+        if job == ReplicationJob.event_stream:
+            await self._do_one_event_upload()
+        elif job == ReplicationJob.snapshot:
+            await self._do_one_snapshot_upload()
+        elif job == ReplicationJob.consider_snapshot:
+            await self._do_consider_snapshot()
+        elif job == ReplicationJob.startup:
+            await self._do_startup()
+        else:
+            raise Exception("internal error")  # pragma: nocover
 
     async def _do_startup(self) -> None:
         """
@@ -1119,13 +1155,18 @@ def replication_service(
     replicated_connection: _ReplicationCapableConnection,
     replica: Replica,
     snapshot_policy: SnapshotPolicy,
+    reactor: Optional[IReactorTime] = None,
 ) -> IService:
     """
     Return a service which implements the replication process documented in
     the ``backup-recovery`` design document.
+
+    :param reactor: The reactor to use to schedule retries of failed work or
+        ``None`` to use the global reactor.
     """
     return _ReplicationService(
         connection=replicated_connection,
         replica=replica,
         snapshot_policy=snapshot_policy,
+        reactor=reactor,
     )
-- 
2.43.0


From b09d1e8e5f9cb8153561e22d0cf9d9fc47664fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 21/39] fix: undo the whole import when recovery fails

---
 src/_zkapauthorizer/recover.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index bf7ea72..75257f8 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -135,12 +135,25 @@ class StatefulRecoverer:
             )
             return
 
+        # Undo only what the import did if it fails.  The transaction the
+        # cursor belongs to remains open for whoever started it.
         try:
+            cursor.execute("SAVEPOINT [import]", ())
             recover(snapshot, event_streams, cursor)
+            _check_foreign_keys(cursor)
+            cursor.execute("RELEASE SAVEPOINT [import]", ())
         except Exception as e:
-            self._set_state(
-                RecoveryState(stage=RecoveryStages.import_failed, failure_reason=str(e))
-            )
+            try:
+                # If this is not possible then the exception will cause the
+                # whole transaction to be rolled back.
+                cursor.execute("ROLLBACK TO SAVEPOINT [import]", ())
+                cursor.execute("RELEASE SAVEPOINT [import]", ())
+            finally:
+                self._set_state(
+                    RecoveryState(
+                        stage=RecoveryStages.import_failed, failure_reason=str(e)
+                    )
+                )
             return
 
         self._set_state(RecoveryState(stage=RecoveryStages.succeeded))
@@ -234,6 +247,17 @@ def recover(
         applied = max([applied] + [c.sequence for c in changes])
 
 
+def _check_foreign_keys(cursor: Cursor) -> None:
+    """
+    Verify the foreign key constraints which are not otherwise verified until
+    the current transaction is committed.
+    """
+    cursor.execute("PRAGMA foreign_key_check", ())
+    violations = cursor.fetchall()
+    if len(violations) > 0:
+        raise ValueError(f"{len(violations)} recovered rows violate foreign keys")
+
+
 def _snapshot_sequence(cursor: Cursor) -> int:
     """
     Determine the sequence number of the last change which is included in the
-- 
2.43.0


From e7adbce319bdc196b34d749068c3354af199067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 22/39] fix: do not end a transaction in progress from
 elsewhere

---
 src/_zkapauthorizer/model.py     | 28 ++++++++++++++++------------
 src/_zkapauthorizer/replicate.py | 27 ++++++++++++++++-----------
 2 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/src/_zkapauthorizer/model.py b/src/_zkapauthorizer/model.py
index 0fe8d53..320e4da 100644
--- a/src/_zkapauthorizer/model.py
+++ b/src/_zkapauthorizer/model.py
@@ -230,13 +230,16 @@ def with_cursor_async(
 
     @wraps(f)
     async def with_cursor_async(self: _S, /, *a: _P.args, **kw: _P.kwargs) -> _T:
-        with self._connection:
-            cursor = self._connection.cursor()
-            try:
-                cursor.execute("BEGIN IMMEDIATE TRANSACTION")
+        cursor = self._connection.cursor()
+        try:
+            # Begin before entering the context manager.  If there is already
+            # a transaction open then it belongs to someone else and it must
+            # not be ended by our failure.
+            cursor.execute("BEGIN IMMEDIATE TRANSACTION")
+            with self._connection:
                 result = await f(self, cursor, *a, **kw)
-            finally:
-                cursor.close()
+        finally:
+            cursor.close()
         return result
 
     return with_cursor_async
@@ -254,13 +257,14 @@ def with_cursor(
 
     @wraps(f)
     def with_cursor(self: _S, /, *a: _P.args, **kw: _P.kwargs) -> _T:
-        with self._connection:
-            cursor = self._connection.cursor()
-            try:
-                cursor.execute("BEGIN IMMEDIATE TRANSACTION")
+        cursor = self._connection.cursor()
+        try:
+            # See with_cursor_async.
+            cursor.execute("BEGIN IMMEDIATE TRANSACTION")
+            with self._connection:
                 result = f(self, cursor, *a, **kw)
-            finally:
-                cursor.close()
+        finally:
+            cursor.close()
         return result
 
     # Callable has no attribute wrapped ... yea ... true.
diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index ce3919d..9031ddd 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -721,15 +721,16 @@ def get_events(conn: _SQLite3Connection) -> EventStream:
     """
     Return all events currently in our event-log.
     """
-    with conn:
-        cursor = conn.cursor()
-        cursor.execute(
-            """
-            SELECT [sequence-number], [statement], [serialized_arguments], [important]
-            FROM [event-stream]
-            """
-        )
-        rows = cursor.fetchall()
+    # There is no need for a transaction to do one read.  If there is already a
+    # transaction open then it belongs to someone else and it must not be ended.
+    cursor = conn.cursor()
+    cursor.execute(
+        """
+        SELECT [sequence-number], [statement], [serialized_arguments], [important]
+        FROM [event-stream]
+        """
+    )
+    rows = cursor.fetchall()
     return EventStream(
         changes=[
             Change(seq, stmt, cbor2.loads(arguments), important)
@@ -742,8 +743,11 @@ def prune_events_to(conn: _SQLite3Connection, sequence_number: int) -> None:
     """
     Remove all events <= sequence_number
     """
+    cursor = conn.cursor()
+    # Fail if there is already a transaction open.  It belongs to someone else
+    # and it must not be ended.
+    cursor.execute("BEGIN IMMEDIATE TRANSACTION")
     with conn:
-        cursor = conn.cursor()
         cursor.execute(
             """
             DELETE FROM [event-stream]
@@ -751,7 +755,8 @@ def prune_events_to(conn: _SQLite3Connection, sequence_number: int) -> None:
             """,
             (sequence_number,),
         )
-        cursor.fetchall()
+        # Commit here so that a failure to do so leaves no open transaction.
+        cursor.execute("COMMIT TRANSACTION")
 
 
 @frozen
-- 
2.43.0


From bb939fa7268922a03e5ca4ee79d786e15388e4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 23/39] fix: keep the replica of a node sound when it is
 recovered from another replica

---
 src/_zkapauthorizer/model.py   |  7 +++++--
 src/_zkapauthorizer/recover.py | 32 ++++++++++++++++++++++++++++----
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/_zkapauthorizer/model.py b/src/_zkapauthorizer/model.py
index 320e4da..dfe44f3 100644
--- a/src/_zkapauthorizer/model.py
+++ b/src/_zkapauthorizer/model.py
@@ -377,7 +377,9 @@ class VoucherStore(ConnectionHaver):
 
     @with_cursor_async
     async def call_if_empty(
-        self, cursor: Cursor, f: Callable[[Cursor], Awaitable[_T]]
+        self,
+        cursor: _ReplicationCapableCursor,
+        f: Callable[[Cursor], Awaitable[_T]],
     ) -> _T:
         """
         Transactionally determine that the database is empty and call the given
@@ -393,7 +395,8 @@ class VoucherStore(ConnectionHaver):
         # maintenance spending.
         wrapped = self.list.wrapped  # type: ignore
         if wrapped(self, cursor) == []:
-            return await f(cursor)
+            with cursor.important():
+                return await f(cursor)
         else:
             raise NotEmpty("there is existing local state")
 
diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 75257f8..8c77337 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -237,14 +237,16 @@ def recover(
     Synchronously execute statements from a snapshot and any applicable event
     streams against the given cursor.
     """
+    local_sequence = _event_sequence(cursor)
     recover_snapshot(statements_from_snapshot(snapshot), cursor)
     # An interrupted upload or prune can leave behind event streams which
     # overlap the snapshot or each other.  Apply each change exactly once.
-    applied = _snapshot_sequence(cursor)
+    applied = _event_sequence(cursor)
     for event_stream in sorted_event_streams(load_event_streams(event_stream_data)):
         changes = [c for c in event_stream.changes if c.sequence > applied]
         recover_event_stream(EventStream(changes), cursor)
         applied = max([applied] + [c.sequence for c in changes])
+    _restart_event_stream(max(local_sequence, applied), cursor)
 
 
 def _check_foreign_keys(cursor: Cursor) -> None:
@@ -258,10 +260,32 @@ def _check_foreign_keys(cursor: Cursor) -> None:
         raise ValueError(f"{len(violations)} recovered rows violate foreign keys")
 
 
-def _snapshot_sequence(cursor: Cursor) -> int:
+def _restart_event_stream(sequence: int, cursor: Cursor) -> None:
     """
-    Determine the sequence number of the last change which is included in the
-    snapshot that was just loaded.
+    Forget about the recorded changes which were recovered along with the
+    state they led to.  They belong to the recovered replica and not to any
+    replica there may be of this database.
+
+    :param sequence: The sequence number after which numbering of changes
+        recorded from now on continues.
+    """
+    cursor.execute(
+        "SELECT [name] FROM [sqlite_master] WHERE [name] = 'event-stream'", ()
+    )
+    if len(cursor.fetchall()) == 0:
+        return
+    cursor.execute("DELETE FROM [event-stream]", ())
+    cursor.execute("DELETE FROM [sqlite_sequence] WHERE [name] = 'event-stream'", ())
+    cursor.execute(
+        "INSERT INTO [sqlite_sequence] ([name], [seq]) VALUES ('event-stream', ?)",
+        (sequence,),
+    )
+
+
+def _event_sequence(cursor: Cursor) -> int:
+    """
+    Determine the sequence number of the last change which was recorded in the
+    database.
     """
     cursor.execute(
         "SELECT [name] FROM [sqlite_master] WHERE [name] = 'sqlite_sequence'", ()
-- 
2.43.0


From 6367cb050d2fdfd2023b48c2566e8d5d1178de7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 24/39] fix: report the outcome of recovery once, when it is
 certain, to every client

A client naming another replica was not refused and received the updates of
the recovery in progress, clients which asked after the end were never
disconnected, success was reported before it was committed and could be
followed by failure, and a client which asked twice got everything twice.
---
 src/_zkapauthorizer/resource.py | 47 +++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 6df4bbd..1fcd05a 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -348,9 +348,18 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
         """
         Whenever the state of recovery changes, update all our clients
         """
+        # Recovery has not succeeded until its result has been committed.
+        # That happens after the recoverer is done.
+        if state.stage != RecoveryStages.succeeded:
+            self._send_update(state)
+
+    def _send_update(self, state: RecoveryState) -> None:
+        """
+        Report a state of recovery to all our clients and to those yet to come.
+        """
         update_msg = dumps(state.marshal()).encode("utf8")
         self.sent_updates.append(update_msg)
-        for client in self.clients:
+        for client in list(self.clients):
             client.sendMessage(update_msg, False)
 
     def initiate_recovery(
@@ -367,13 +376,17 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
 
         Otherwise, error.
         """
-        self.clients.append(client)
+        if client in self.clients:
+            # It is already receiving the updates.
+            return
+
         if self.recovering_d is None:
+            self.clients.append(client)
             self.recovering_cap = cap
             self.recovering_d = Deferred.fromCoroutine(self._recover(self.store, cap))
 
             def disconnect_clients() -> None:
-                for client in self.clients:
+                for client in list(self.clients):
                     client.sendClose()
 
             def err(f: Failure) -> None:
@@ -381,22 +394,30 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
                 # One likely reason to get here is the ValueError we
                 # raise about existing local state .. and the
                 # "recoverer" itself can't really handle this (or
-                # other) errors happening before it is called.
-                self.recoverer._set_state(
-                    RecoveryState(
-                        RecoveryStages.import_failed,
-                        f.getErrorMessage(),
+                # other) errors happening before it is called.  If it did
+                # report a failure already then that is the one.
+                if self.recoverer.state().stage not in (
+                    RecoveryStages.download_failed,
+                    RecoveryStages.import_failed,
+                ):
+                    self.recoverer._set_state(
+                        RecoveryState(
+                            RecoveryStages.import_failed,
+                            f.getErrorMessage(),
+                        )
                     )
-                )
                 disconnect_clients()
 
             def happy(_: object) -> None:
+                state = self.recoverer.state()
+                if state.stage == RecoveryStages.succeeded:
+                    self._send_update(state)
                 disconnect_clients()
 
             self.recovering_d.addCallbacks(happy, err)
 
         elif self.recovering_cap != cap:
-            self.sendClose(
+            client.sendClose(
                 code=4000, reason="Ongoing recovery with different capability"
             )
 
@@ -405,8 +426,12 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
             # capability, so be idempotent by acting the same as if this
             # was the first client. That means sending this client all the
             # status updates we've sent so far.
+            self.clients.append(client)
             for update in self.sent_updates:
-                client.sendMessage(update)
+                client.sendMessage(update, False)
+            if self.recovering_d.called:
+                # There are not going to be any more of them.
+                client.sendClose()
 
     def buildProtocol(self, addr: object) -> RecoverProtocol:
         """
-- 
2.43.0


From c378bcdc55ad703ad80c5eca57bb8eed9359fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 25/39] fix: answer with the read-only capability when
 replication is already set up

The answer was an internal server error because the exception carries a
digest of the capability which cannot be parsed.
---
 src/_zkapauthorizer/replicate.py | 10 ++++++++--
 src/_zkapauthorizer/resource.py  |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 9031ddd..4fcdf57 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -277,11 +277,15 @@ class ReplicationAlreadySetup(Exception):
     """
     An attempt was made to setup of replication but it is already set up.
 
-    :ivar cap_str: The read-only capability of the replica that was already
+    :ivar cap_str: A loggable string identifying the replica that was already
         set up.
+
+    :ivar cap: The read-only capability of the replica that was already set
+        up, if it is known.
     """
 
     cap_str: str
+    cap: Optional[DirectoryReadCapability] = field(default=None, eq=False, repr=False)
 
 
 async def fail_setup_replication() -> NoReturn:
@@ -313,7 +317,9 @@ async def setup_tahoe_lafs_replication(client: ITahoeClient) -> DirectoryReadCap
             rwcap_obj = writeable_directory_from_string(
                 config_path.getContent().decode("ascii")  # type: ignore[no-untyped-call]
             )
-            raise ReplicationAlreadySetup(digested_capability_string(rwcap_obj))
+            raise ReplicationAlreadySetup(
+                digested_capability_string(rwcap_obj), rwcap_obj.reader
+            )
 
         # Create a directory with it
         rw_cap = await client.make_directory()
diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 1fcd05a..472c10a 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -243,7 +243,10 @@ class ReplicateResource(Resource):
             cap_obj = await self._setup()
         except ReplicationAlreadySetup as e:
             status = CONFLICT
-            cap_obj = readonly_directory_from_string(e.cap_str)
+            if e.cap is None:
+                cap_obj = readonly_directory_from_string(e.cap_str)
+            else:
+                cap_obj = e.cap
         else:
             status = CREATED
 
-- 
2.43.0


From e737724c1e0994f09be7d131ca74a81b0f82966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:32 +0000
Subject: [PATCH 26/39] fix: allow replication to be set up after a crash
 during setup

The lock left behind names a process identifier which may be in use again, in
a container even by the same node, and then setup was refused for good.
---
 src/_zkapauthorizer/_plugin.py   |  2 ++
 src/_zkapauthorizer/replicate.py | 26 +++++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/_plugin.py b/src/_zkapauthorizer/_plugin.py
index b42e587..be21046 100644
--- a/src/_zkapauthorizer/_plugin.py
+++ b/src/_zkapauthorizer/_plugin.py
@@ -63,6 +63,7 @@ from .model import open_database as _open_database
 from .recover import get_tahoe_lafs_downloader
 from .replicate import (
     _ReplicationCapableConnection,
+    discard_setup_lock,
     get_replica_rwcap,
     get_tahoe_lafs_direntry_replica,
     is_replication_setup,
@@ -205,6 +206,7 @@ class ZKAPAuthorizer(object):
         try:
             store = self._stores[key]
         except KeyError:
+            discard_setup_lock(node_config)
             db_path = FilePath(node_config.get_private_path(CONFIG_DB_NAME))  # type: ignore[no-untyped-call]
             unreplicated_conn = _open_database(partial(self._connect, db_path.path))
             replicated_conn = with_replication(
diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 4fcdf57..b462e98 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -306,7 +306,7 @@ async def setup_tahoe_lafs_replication(client: ITahoeClient) -> DirectoryReadCap
 
     # Take an advisory lock on the configuration path to avoid concurrency
     # shennanigans.
-    config_lock = FilesystemLock(config_path.asTextMode().path + ".lock")  # type: ignore[no-untyped-call]
+    config_lock = FilesystemLock(_setup_lock_path(config_path))  # type: ignore[no-untyped-call]
 
     if not config_lock.lock():  # type: ignore[no-untyped-call]
         raise AlreadySettingUp()
@@ -337,6 +337,30 @@ async def setup_tahoe_lafs_replication(client: ITahoeClient) -> DirectoryReadCap
     return rw_cap.reader
 
 
+def _setup_lock_path(config_path: FilePath) -> str:
+    """
+    :return: The path of the lock which is held while replication is being set
+        up.
+    """
+    lock_path: str = config_path.asTextMode().path + ".lock"
+    return lock_path
+
+
+def discard_setup_lock(config: Config) -> None:
+    """
+    Discard the replication setup lock left behind by an earlier process which
+    died holding it, if there is one.
+
+    The lock identifies its owner only by process identifier and that may be
+    in use again, even by this process.  This must only be called before this
+    process can be setting up replication itself.
+    """
+    config_path = FilePath(config.get_private_path(REPLICA_RWCAP_BASENAME))  # type: ignore[no-untyped-call]
+    lock = FilePath(_setup_lock_path(config_path))  # type: ignore[no-untyped-call]
+    if os.path.lexists(lock.path):
+        lock.remove()  # type: ignore[no-untyped-call]
+
+
 def is_replication_setup(config: Config) -> bool:
     """
     :return: ``True`` if and only if replication has previously been setup for
-- 
2.43.0


From 998840b3642b7bfcb62425498904a712af3e3912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:04 +0000
Subject: [PATCH 27/39] fix: start replicating even if the state left over
 cannot be read at first

If it could not then replication was set up but nothing was replicated until
the node was restarted.
---
 src/_zkapauthorizer/replicate.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index b462e98..0c819b3 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -898,12 +898,6 @@ class _ReplicationService(Service):
         self._connection.add_mutation_observer(self.observed_event)
         self._connection.enable_replication()
 
-        # Reflect whatever state is left over in the database from previous
-        # efforts.
-        self._changes = AccumulatedChanges.from_connection(
-            self._unreplicated_connection
-        )
-
         self.queue_job(ReplicationJob.startup)
 
         # Start the actual work of reacting to changes by uploading them (as
@@ -1007,6 +1001,12 @@ class _ReplicationService(Service):
         or upload an event stream if there are events that warrant immediate
         upload.
         """
+        # Reflect whatever state is left over in the database from previous
+        # efforts.
+        self._changes = AccumulatedChanges.from_connection(
+            self._unreplicated_connection
+        )
+
         if await self.should_upload_snapshot():
             self.queue_snapshot_upload()
         elif self.should_upload_eventstream(self._changes):
-- 
2.43.0


From 08455b6f7ae259b33d678d07e72fda5a930268eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 28/39] fix: answer a voucher path that is not text as a bad
 request

---
 src/_zkapauthorizer/resource.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 472c10a..cb786e4 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -751,7 +751,10 @@ class _VoucherCollection(Resource):
         )
 
     def getChild(self, segment: bytes, request: IRequest) -> IResource:
-        voucher_str = segment.decode("utf-8")
+        try:
+            voucher_str = segment.decode("utf-8")
+        except UnicodeDecodeError:
+            return bad_request()
         if not is_syntactic_voucher(voucher_str):
             return bad_request()
         try:
-- 
2.43.0


From 0faa9e6234c57d57cf4bbcf4ee8fd054f1461531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:55 +0000
Subject: [PATCH 29/39] fix: answer a request for a price that is nested too
 deeply as a bad request

---
 src/_zkapauthorizer/resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index cb786e4..c0fe6d2 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -549,7 +549,7 @@ class _CalculatePrice(Resource):
         payload = request.content.read()
         try:
             body_object = loads(payload)
-        except ValueError:
+        except (ValueError, RecursionError):
             set_response_code(request, BAD_REQUEST)
             return dumps_utf8(
                 {
-- 
2.43.0


From 3ec68e6698f62648059f7eb847be4c48fb457e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 30/39] fix: answer a HEAD request for the replication resource
 with an unsupported method

---
 src/_zkapauthorizer/resource.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index c0fe6d2..71cf23d 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -226,6 +226,8 @@ class ReplicateResource(Resource):
 
     _log: Logger = Logger()
 
+    render_HEAD = render_GET = None
+
     def __attrs_post_init__(self) -> None:
         Resource.__init__(self)  # type: ignore[no-untyped-call]
 
-- 
2.43.0


From 12016bc8379dd249c3dc26c0b6037ab19e15c139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:01 +0000
Subject: [PATCH 31/39] fix: keep a client about to leave from disturbing the
 recovery and the other clients

---
 src/_zkapauthorizer/resource.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 71cf23d..691aa4b 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -27,6 +27,7 @@ from json import dumps
 from typing import Callable, Optional, Union, cast
 
 from attr import Factory, define, field
+from autobahn.exception import Disconnected
 from autobahn.twisted.resource import WebSocketResource
 from autobahn.twisted.websocket import WebSocketServerFactory, WebSocketServerProtocol
 from autobahn.websocket.interfaces import IWebSocketClientAgent
@@ -365,7 +366,12 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
         update_msg = dumps(state.marshal()).encode("utf8")
         self.sent_updates.append(update_msg)
         for client in list(self.clients):
-            client.sendMessage(update_msg, False)
+            try:
+                client.sendMessage(update_msg, False)
+            except Disconnected:
+                # It is about to leave.  That concerns neither the recovery
+                # nor the other clients.
+                pass
 
     def initiate_recovery(
         self, cap: DirectoryReadCapability, client: WebSocketServerProtocol
-- 
2.43.0


From 5e730c15bb554ef3f258d968b32ca4af2c25268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:08 +0000
Subject: [PATCH 32/39] fix: keep capabilities out of the text of Tahoe API
 errors

---
 src/_zkapauthorizer/tahoe.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/_zkapauthorizer/tahoe.py b/src/_zkapauthorizer/tahoe.py
index b5c4a88..81c2065 100644
--- a/src/_zkapauthorizer/tahoe.py
+++ b/src/_zkapauthorizer/tahoe.py
@@ -179,6 +179,11 @@ class TahoeAPIError(Exception):
     status: int
     body: str
 
+    def __attrs_post_init__(self) -> None:
+        # What the base class would otherwise show is what it was created
+        # with, including the capabilities in the original URL.
+        self.args = (self.method, self.url, self.status, self.body)
+
 
 class NotWriteableError(Exception):
     """
-- 
2.43.0


From 427ef49f90ffd92147fd41a61b2f0ef32d3b6cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 33/39] fix: convert the times at which redemption of vouchers
 finished to UTC, too

---
 src/_zkapauthorizer/schema.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/_zkapauthorizer/schema.py b/src/_zkapauthorizer/schema.py
index a4362b5..918945c 100644
--- a/src/_zkapauthorizer/schema.py
+++ b/src/_zkapauthorizer/schema.py
@@ -277,4 +277,13 @@ _UPGRADES = {
         ALTER TABLE [event-stream] ADD COLUMN [serialized_arguments] TEXT DEFAULT X'80'
         """,
     ],
+    9: [
+        # The conversion of naive datetime values to UTC, above, passed over
+        # these ones.  Vouchers which have them cannot be loaded.
+        """
+        UPDATE [vouchers]
+        SET [finished] = datetime([finished], "utc") || "+00:00"
+        WHERE [finished] IS NOT NULL AND [finished] NOT LIKE "%+__:__"
+        """,
+    ],
 }
-- 
2.43.0


From 937f1da2b87de8c1fb1eeae7265756d165501e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:20 +0000
Subject: [PATCH 34/39] fix: keep the tokens of a partially redeemed voucher
 spendable after an upgrade

---
 src/_zkapauthorizer/schema.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/_zkapauthorizer/schema.py b/src/_zkapauthorizer/schema.py
index 918945c..7a2f969 100644
--- a/src/_zkapauthorizer/schema.py
+++ b/src/_zkapauthorizer/schema.py
@@ -285,5 +285,18 @@ _UPGRADES = {
         SET [finished] = datetime([finished], "utc") || "+00:00"
         WHERE [finished] IS NOT NULL AND [finished] NOT LIKE "%+__:__"
         """,
+        # Unblinded tokens from before there were redemption groups belong to
+        # the first one.  If no voucher had been redeemed completely then there
+        # was none and they cannot be spent.
+        """
+        INSERT INTO [redemption-groups] ([rowid], [voucher], [public-key], [spendable])
+            SELECT DISTINCT
+                [redemption-group]
+              , (SELECT MIN([number]) FROM [vouchers] WHERE [counter] > 0)
+              , (SELECT [public-key] FROM [vouchers] WHERE [counter] > 0 ORDER BY [number])
+              , 1
+            FROM [unblinded-tokens]
+            WHERE [redemption-group] NOT IN (SELECT [rowid] FROM [redemption-groups])
+        """,
     ],
 }
-- 
2.43.0


From a9c89f9350f62f1617afdad0e316adecbfbea02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:06 +0000
Subject: [PATCH 35/39] fix: upgrade the schema of a database recovered from an
 older replica

---
 src/_zkapauthorizer/recover.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 8c77337..0b5fde6 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -24,6 +24,7 @@ from attrs import define, field
 from tahoe_capabilities import DirectoryReadCapability
 
 from .replicate import SNAPSHOT_NAME, EventStream, statements_to_snapshot
+from .schema import get_schema_upgrades, get_schema_version, run_schema_upgrades
 from .sql import Cursor, escape_identifier
 from .tahoe import DataProvider, FileNode, ITahoeClient, download_child
 
@@ -247,6 +248,18 @@ def recover(
         recover_event_stream(EventStream(changes), cursor)
         applied = max([applied] + [c.sequence for c in changes])
     _restart_event_stream(max(local_sequence, applied), cursor)
+    _upgrade_schema(cursor)
+
+
+def _upgrade_schema(cursor: Cursor) -> None:
+    """
+    Upgrade the recovered database, if it was replicated by an earlier version
+    of the software.
+    """
+    cursor.execute("SELECT [name] FROM [sqlite_master] WHERE [name] = 'version'", ())
+    if len(cursor.fetchall()) > 0:
+        version = get_schema_version(cursor)
+        run_schema_upgrades(get_schema_upgrades(version), cursor)
 
 
 def _check_foreign_keys(cursor: Cursor) -> None:
-- 
2.43.0


From 2b3c6306fc1faed54be9108456de74f62f41b6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 36/39] fix: redeem recovered vouchers without a restart

---
 src/_zkapauthorizer/controller.py | 17 +++++++++++++++++
 src/_zkapauthorizer/resource.py   | 11 ++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/controller.py b/src/_zkapauthorizer/controller.py
index cf9f8b3..25a2ecb 100644
--- a/src/_zkapauthorizer/controller.py
+++ b/src/_zkapauthorizer/controller.py
@@ -821,6 +821,7 @@ class PaymentController(object):
     _active: dict[bytes, model_Redeeming] = Factory(dict)
 
     _retry_task: Optional[LoopingCall] = None
+    _check_again: bool = False
 
     def __attrs_post_init__(self) -> None:
         """
@@ -846,7 +847,23 @@ class PaymentController(object):
             now=False,
         )
 
+    def check_pending_vouchers_again(self) -> None:
+        """
+        Arrange for the redemption of vouchers which have come into the voucher
+        store by other means than this controller, such as recovery.
+        """
+        self._check_again = True
+
     def _retry_redemption(self) -> None:
+        if self._check_again:
+            try:
+                self._check_pending_vouchers()
+            except Exception:
+                # Try again next time.
+                self._log.failure("Checking for pending vouchers failed.")
+            else:
+                self._check_again = False
+
         for voucher in list(self._error.keys()) + list(self._unpaid.keys()):
             if voucher in self._active:
                 continue
diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 691aa4b..35b2bfd 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -336,6 +336,7 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
 
     store: VoucherStore
     get_downloader: Callable[[DirectoryReadCapability], Downloader]
+    recovered: Callable[[], None] = lambda: None
     recoverer: StatefulRecoverer = field()
     recovering_d: Optional[Deferred[None]] = None
     recovering_cap: Optional[DirectoryReadCapability] = None
@@ -423,6 +424,7 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
                 state = self.recoverer.state()
                 if state.stage == RecoveryStages.succeeded:
                     self._send_update(state)
+                    self.recovered()
                 disconnect_clients()
 
             self.recovering_d.addCallbacks(happy, err)
@@ -494,7 +496,14 @@ def authorizationless_resource_tree(
 
     root.putChild(
         b"recover",
-        WebSocketResource(RecoverFactory(store, get_downloader)),
+        WebSocketResource(
+            RecoverFactory(
+                store,
+                get_downloader,
+                # There may be vouchers to redeem among what was recovered.
+                lambda: controller.check_pending_vouchers_again(),
+            )
+        ),
     )
     root.putChild(
         b"replicate",
-- 
2.43.0


From 9f9ea66d59cdf8e2bd3b3ae70e1fd04f4824e501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:35 +0000
Subject: [PATCH 37/39] fix: count a pass spelled in several ways only once

Base64 decoders ignore the last bits of the last letter.  One pass could be
presented in four spellings and pay four times.
---
 src/_zkapauthorizer/_storage_server.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/_zkapauthorizer/_storage_server.py b/src/_zkapauthorizer/_storage_server.py
index e79a216..3c3e3f0 100644
--- a/src/_zkapauthorizer/_storage_server.py
+++ b/src/_zkapauthorizer/_storage_server.py
@@ -27,6 +27,7 @@ __all__ = [
     "ZKAPAuthorizerStorageServer",
 ]
 
+from base64 import b64decode, b64encode
 from datetime import timedelta
 from errno import ENOENT
 from functools import partial
@@ -182,10 +183,13 @@ class _ValidationResult(object):
                 continue
             if cls._is_invalid_pass(message, pass_obj, signing_key):
                 signature_check_failed.append(idx)
-            elif pass_obj.preimage not in seen:
+                continue
+            # Base64 has more than one spelling for the same preimage.
+            preimage = b64encode(b64decode(pass_obj.preimage))
+            if preimage not in seen:
                 # A pass presented more than once only pays once.
-                seen.add(pass_obj.preimage)
-                valid.append(pass_obj.preimage)
+                seen.add(preimage)
+                valid.append(preimage)
         return cls(
             valid=valid,
             signature_check_failed=signature_check_failed,
-- 
2.43.0


From 11fed0d6b9be362d0c8e1254145ecbdff4312d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:20 +0000
Subject: [PATCH 38/39] fix: find the size of each share according to its own
 kind

A client can put a mutable share next to immutable ones.  The sizes of all of
them were read as if they were of the kind of the first one, which made
listings fail or the price of a renewal arbitrary.
---
 src/_zkapauthorizer/_storage_server.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/_zkapauthorizer/_storage_server.py b/src/_zkapauthorizer/_storage_server.py
index 3c3e3f0..a86991b 100644
--- a/src/_zkapauthorizer/_storage_server.py
+++ b/src/_zkapauthorizer/_storage_server.py
@@ -831,13 +831,13 @@ def get_share_stats(
     :return: A generator of tuples of (int, ShareStat) where the first element
         is a share number and the second element gives stats about that share.
     """
-    stat = None
     for sharenum, sharepath in get_all_share_paths(
         storage_server, storage_index_or_slot
     ):
-        if stat is None:
-            stat = get_stat(sharepath)
         if sharenums is None or sharenum in sharenums:
+            # Nothing stops a client from putting shares of both kinds in one
+            # place.
+            stat = get_stat(sharepath)
             info = stat(storage_server, storage_index_or_slot, sharepath)
             yield sharenum, info
 
-- 
2.43.0


From 8b95ff4a587356e8dab555d6fde71dc2fb1e5bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 39/39] fix: treat nonsensical share statistics as a failure of
 that server

A size or lease expiration time that no share can have ended the whole lease
maintenance run, leaving the other servers' leases to expire.
---
 src/_zkapauthorizer/_storage_client.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/_zkapauthorizer/_storage_client.py b/src/_zkapauthorizer/_storage_client.py
index 5524ca1..e1087bb 100644
--- a/src/_zkapauthorizer/_storage_client.py
+++ b/src/_zkapauthorizer/_storage_client.py
@@ -334,11 +334,31 @@ async def stat_shares(
                     f"expected stat_share to return list of dict of int:ShareStat, instead got item of {type(shnum)}:{type(stat)}"
                 )
 
+            if not _is_sensible_stat(stat):
+                raise ValueError(
+                    f"expected stat_share to return sizes and POSIX timestamps, instead got {stat.size!r} and {stat.lease_expiration!r}"
+                )
+
             known_stats[shnum] = stat
         known.append(known_stats)
     return known
 
 
+def _is_sensible_stat(stat: ShareStat) -> bool:
+    """
+    Determine whether a server could have meant what it says about a share.
+
+    :return: ``True`` if the size can be the size of a file and the lease
+        expiration can be represented in a lease, ``False`` otherwise.
+    """
+    return (
+        isinstance(stat.size, int)
+        and isinstance(stat.lease_expiration, int)
+        and 0 <= stat.size < 2**63
+        and 0 <= stat.lease_expiration < 2**32
+    )
+
+
 async def get_share_sizes(
     rref: IRemoteReference, storage_index: bytes
 ) -> dict[int, int]:
-- 
2.43.0

