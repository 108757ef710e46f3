"""Writes properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
S = "src/_zkapauthorizer/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[S+f for f in files],
            state=[dict(name=n, meaning=m, where=S+w) for n, m, w in state],
            mechanism=[dict(name=n, where=S+w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "An accepted voucher is never lost or altered",
 "Once the API has answered a voucher submission with success, that voucher is listed and retrievable with the same number, creation time and expected token count for ever after, across crashes, restarts, database errors and any later operations. Its recorded progress never moves backwards, and once it is reported redeemed or double-spent it stays so.",
 ["crash_points","fault_sequences","histories"],
 "every crash point between any two database statements or network events, every database failure (full disk, I/O error, busy) at any statement or commit, every history of submissions, redemptions and restarts",
 "The tests submit a voucher once to a healthy in-memory store; no test crashes the node, fails a database statement during submission or restarts from the surviving file.",
 ["resource.py","controller.py","model.py"],
 [("voucher collection PUT","resource.py:_VoucherCollection.render_PUT"),("insert before redeeming","model.py:VoucherStore.add"),("terminal-state guards","model.py:VoucherStore.mark_voucher_double_spent")],
 [("vouchers table","accepted vouchers and their progress","schema.py")],
 ["PUT /voucher","GET /voucher","GET /voucher/<number>"])

prop("C02", "Redemption attempts for one voucher group are idempotent",
 "Every redemption request the node ever sends for a given voucher and redemption group carries exactly the same set of blinded tokens, of exactly that group's share of the voucher's tokens, until that group's result is durably recorded, after which that group is never requested again. No two redemption requests for the same voucher are outstanding at once.",
 ["crash_points","schedules","fault_sequences"],
 "every interleaving of submissions, retries and replies, every crash and restart between persisting, sending, receiving and recording, every lost, delayed or failed reply",
 "Tests redeem with instantly-answering dummy redeemers; none loses a reply, crashes between send and record, or mixes unpaid and error replies across groups.",
 ["controller.py","model.py"],
 [("random tokens persisted per (voucher, group) before the request","model.py:VoucherStore.add"),("resume counter","controller.py:PaymentController.redeem"),("active map","controller.py:PaymentController._perform_redeem")],
 [("tokens table","blinding material of unfinished groups","schema.py")],
 ["requests received by the issuer"])

prop("C03", "Redemption conserves value exactly",
 "The tokens held by a node are exactly those the issuer signed for the groups it has recorded: none is lost, duplicated or invented, each unblinds to the issuer's signature, and the voucher's reported token count equals the number received under accepted keys. A redeemed voucher gave exactly its expected number of tokens. A voucher whose value the issuer is willing to provide is never written off as double-spent.",
 ["crash_points","fault_sequences","histories"],
 "every crash point and database failure during redemption, every sequence of issuer outcomes (paid, unpaid, error, lost reply, duplicate request), any number of vouchers and groups",
 "The tests check token counts after fault-free redemptions with dummy tokens; they never reconcile what a real issuer signed with what the node holds after faults.",
 ["controller.py","model.py"],
 [("group insert transaction","model.py:VoucherStore.insert_unblinded_tokens_for_voucher"),("DLEQ verification and unblinding","controller.py:RistrettoRedeemer.redeemWithCounter"),("token split over groups","controller.py:token_count_for_group")],
 [("unblinded-tokens, redemption-groups","held value","schema.py")],
 ["issuer ledger vs node token store"])

prop("C04", "Redemption completes once faults stop, without a restart",
 "If from some moment on the issuer is reachable and has received payment, and local storage works, every accepted voucher becomes fully redeemed within a bounded time without the node being restarted or the voucher being resubmitted, whatever errors occurred earlier.",
 ["fault_sequences","schedules","crash_points"],
 "every finite sequence of issuer errors, malformed answers, timeouts, unpaid answers, database failures and crashes preceding the healthy period",
 "One test shows an unpaid voucher is attempted again after an hour; no test follows an error with health, or fails the database during recording or during a retry tick.",
 ["controller.py"],
 [("retry loop","controller.py:PaymentController._retry_redemption"),("startup scan","controller.py:PaymentController._check_pending_vouchers"),("failure classification","controller.py:PaymentController._redeem_failure")],
 [], ["GET /voucher/<number> over simulated time"])

prop("C05", "Reported voucher state is truthful",
 "The state reported for a voucher always matches what happened: redeemed only when every group has been recorded, double-spent only when the issuer said so, redeeming only while a request is outstanding, and unpaid or error only when the latest attempt ended that way. The single-voucher and list views agree.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of API reads with redemption progress, issuer outcomes, database failures and restarts",
 "Tests read the state after a single forced outcome; they do not interleave several outcomes across groups and retries.",
 ["resource.py","controller.py","model.py"],
 [("transient state overlay","controller.py:PaymentController.incorporate_transient_state"),("row decoding","model.py:Voucher.from_row")],
 [("_active/_unpaid/_error","transient outcomes","controller.py:PaymentController")],
 ["GET /voucher","GET /voucher/<number>"])

prop("C06", "Tokens from keys that are not allowed are kept but never spent",
 "Tokens signed under an issuer key outside the configured allowed set are stored and counted apart, and no such token is ever turned into a pass or counted as spendable, whatever restarts, later redemptions or changes of other vouchers follow.",
 ["configurations","histories","crash_points"],
 "every mix of allowed and disallowed keys across groups and vouchers, with restarts, crashes and interleaved spending",
 "One test checks counts right after redemption; none spends from a mixed store across restarts and vouchers.",
 ["controller.py","model.py"],
 [("spendable flag at insert","controller.py:PaymentController._redeem_success"),("spendable filter","model.py:VoucherStore.get_unblinded_tokens")],
 [("redemption-groups.spendable","whether the group's tokens may be spent","schema.py")],
 ["passes sent to servers","GET /lease-maintenance total"])

prop("C07", "A token is in at most one operation and never used once finished",
 "At any moment each token belongs to at most one storage operation in progress, and a token whose pass a server accepted as payment, or rejected as invalid, is never presented again by that node, including after restarts once the outcome has been recorded.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of concurrent storage operations over several servers, replies lost or delayed, rejected passes, local database failures, cancellations and restarts",
 "Tests exercise one operation at a time against an in-process server; no two operations overlap and nothing fails half way.",
 ["spending.py","_storage_client.py","model.py"],
 [("in-use table","model.py:VoucherStore.get_unblinded_tokens"),("pass groups","spending.py:PassGroup"),("retry loop","_storage_client.py:call_with_passes_with_manual_spend")],
 [("in-use","tokens handed to a live operation","model.py:initialize_database")],
 ["passes received by storage servers"])

prop("C08", "Every token is accounted for when an operation ends",
 "When a storage operation ends - in success, refusal, error, disconnection or cancellation - each token it took is exactly one of spent, recorded as invalid, or available again, and this matches what the server did with it whenever the reply was received. The advertised available count always equals the tokens really obtainable.",
 ["fault_sequences","schedules","inputs"],
 "every operation kind and size, every point of failure (before sending, in flight, after execution, while recording locally), every mix of valid and rejected passes, and running out of tokens half way through a retry",
 "Tests check fixed spend outcomes; lost replies, mid-retry exhaustion, and database errors while accounting are not generated.",
 ["_storage_client.py","spending.py","model.py"],
 [("manual spend and reset","_storage_client.py:call_with_passes_with_manual_spend"),("partial spend of allocations","_storage_client.py:ZKAPAuthorizerStorageClient._spend_for_allocate_buckets"),("invalidate rejected","_storage_client.py:invalidate_rejected_passes")],
 [("unblinded-tokens, in-use, invalid-unblinded-tokens","partition of tokens","schema.py, model.py")],
 ["store counts","server spent record"])

prop("C09", "Client and server agree on the price of every operation",
 "For any history of uploads, mutable writes, lease expiries and renewals the client presents exactly as many passes as the server requires, which is the sum over affected shares of the share size in units of the pass value rounded up, less what an unexpired lease already covers. Reading, listing and reporting never cost anything, and the operation then succeeds.",
 ["histories","inputs","configurations"],
 "every sequence of immutable allocations (with some shares already present), mutable writes that create, grow, overwrite or fail their tests, lease expiry in between, and pass values",
 "Tests compare prices for single sampled operations; two examples per property cannot reach growth, expiry and partial presence combined.",
 ["_storage_client.py","_storage_server.py","storage_common.py"],
 [("client price","_storage_client.py:ZKAPAuthorizerStorageClient"),("server price","_storage_server.py:get_writev_price"),("pass arithmetic","storage_common.py:required_passes")],
 [], ["number of passes per remote call","server refusals"])

prop("C10", "A server gives no storage or lease without payment in full",
 "Whatever requests any client sends, in any order, no share is created or enlarged beyond a paid price step and no lease is added or renewed unless the same request carried at least the full price in passes that are correctly signed under the server's key and bound to that operation and storage index.",
 ["inputs","histories","schedules"],
 "every request sequence from honest and malicious clients: too few passes, garbage passes, passes bound to another operation or index, passes under another key, mixed valid and invalid, interleaved clients, expired leases, arbitrary test-and-write vectors",
 "Tests send a handful of insufficient or invalid requests to a fresh server; they do not search request histories against a ledger of paid-for storage.",
 ["_storage_server.py","storage_common.py"],
 [("signature validation","_storage_server.py:_ValidationResult.validate_passes"),("quantity checks","_storage_server.py:check_pass_quantity"),("write price","_storage_server.py:get_writev_price")],
 [("share files and their leases","what has been granted","_storage_server.py")],
 ["remote methods of the storage server","share directory"])

prop("C11", "A refused request changes nothing and names the bad passes",
 "When the server refuses a request for lack of payment, no share, lease, size, spent-pass record or success metric changes, and the refusal states exactly the required count, the valid count and the positions of the passes that failed verification. The client then replaces only those passes and retries, keeping the valid ones.",
 ["inputs","histories"],
 "every position and mixture of bad passes, every operation kind, every prior server state",
 "Tests check one error's fields for sampled counts; they do not compare full server state before and after across histories.",
 ["_storage_server.py","_storage_client.py"],
 [("validate before acting","_storage_server.py:ZKAPAuthorizerStorageServer"),("error construction","_storage_server.py:_ValidationResult.raise_for"),("client retry","_storage_client.py:invalidate_rejected_passes")],
 [], ["MorePassesRequired","share directory","spent record"])

prop("C12", "The server's record of spent passes is exact",
 "For every request it accepts the server records as spent distinct passes that were validly presented with that request: for an allocation exactly the price of the shares really allocated, for a write or renewal all that were presented, which is the price. It counts the same number in its published spending metric, and a client that gets the answer discards the same tokens. Nothing is recorded for requests that fail or need no passes.",
 ["histories","schedules","fault_sequences"],
 "every history of allocations with some shares already held, mutable writes, renewals, failures of the backing store, and concurrent clients",
 "Tests look at the metric or spender after one operation; they never reconcile client discards, server records and metrics over a history.",
 ["_storage_server.py","server/spending.py","_storage_client.py"],
 [("mark_as_spent calls","_storage_server.py:ZKAPAuthorizerStorageServer"),("histogram","_storage_server.py:_make_histogram"),("client partial spend","_storage_client.py:_spend_for_allocate_buckets")],
 [("spent_tokens","passes accepted per public key","server/spending.py:_SpendingData")],
 ["ISpender","metrics registry"])

prop("C13", "Paid operations behave like the plain storage server",
 "With enough passes, data written through the authorizing client and server is read back identically, test-and-set writes succeed or fail exactly as on the plain storage server, incomplete uploads leave nothing readable after a disconnect, and completed ones survive a server restart.",
 ["histories","schedules","crash_points"],
 "every history of allocate, write, close, abort, mutable test-and-write, reads and disconnects by several clients, with server restarts",
 "Tests do single round trips; they do not compare interleaved histories with a reference store.",
 ["_storage_server.py","_storage_client.py","foolscap.py"],
 [("delegation to the wrapped server","_storage_server.py"),("disconnect bookkeeping","_storage_server.py:ZKAPAuthorizerStorageServer._bucket_writer_closed"),("vector translation","_storage_client.py:slot_testv_and_readv_and_writev")],
 [], ["reads through the client","share directory"])

prop("C14", "Leases last exactly as paid for",
 "A paid allocation, or a write that creates a share or revives one whose lease has expired, leaves every affected share with a lease of one full period from that moment; a paid renewal extends every share of the index to a full period; and no write to a share with an unexpired lease, no read and no refused request alters any lease.",
 ["histories","schedules"],
 "every ordering of allocations, writes, renewals and clock advances, including writes exactly around expiry, multiple secrets, and partial slots",
 "Tests freeze time and look at one lease; expiry-boundary histories over several shares are not explored.",
 ["_storage_server.py"],
 [("lease on write","_storage_server.py:add_leases_for_writev"),("activity test","_storage_server.py:share_has_active_leases"),("renewal","_storage_server.py:ZKAPAuthorizerStorageServer.remote_add_lease")],
 [("share leases","expiration times in share files","_storage_server.py:get_lease_expiration")],
 ["stat_shares","share files"])

prop("C15", "Lease maintenance renews everything that needs it and only that",
 "A maintenance run that completes while all servers respond leaves every share reachable from the root with more than the configured minimum of lease time remaining, spends passes only on storage indexes that had less, and visits every server and every reachable object even when shares are spread unevenly.",
 ["inputs","histories","schedules","configurations"],
 "every directory graph (including shared and repeated children), share placement, lease age, server reply order, minimum-remaining setting and history of runs",
 "Tests use tiny flat or generated graphs with synchronous servers and one run; they do not combine partial placement, varied ages and delayed replies.",
 ["lease_maintenance.py"],
 [("graph walk","lease_maintenance.py:visit_storage_indexes"),("per-server renewal","lease_maintenance.py:renew_leases_on_server"),("needs-renewal test","lease_maintenance.py:needs_lease_renew")],
 [], ["add_lease calls per server","lease expirations"])

prop("C16", "Lease maintenance keeps running on schedule",
 "Maintenance runs recur for ever at intervals within the configured mean and range, the first after a restart being due relative to the last completed run and immediate if overdue; runs never overlap, a failed run does not end the schedule, and stopping the service ends it.",
 ["schedules","fault_sequences","crash_points","configurations"],
 "every sequence of run durations, failures, restarts, missing last-run record, wall-clock jumps forwards and backwards across restarts, and interval settings",
 "Tests check single intervals with a frozen clock; long histories with failures, slow runs and restarts are not generated.",
 ["lease_maintenance.py"],
 [("timer service","lease_maintenance.py:_FuzzyTimerService"),("initial interval","lease_maintenance.py:calculate_initial_interval"),("last run record","lease_maintenance.py:write_time_to_path")],
 [("last-run file","time the last run ended","lease_maintenance.py")],
 ["times at which runs start"])

prop("C17", "One failing server or object does not stop lease maintenance",
 "When some servers are unreachable, refuse, or fail in the middle of a run, or some object cannot be read, the shares on every other server that could be renewed are still renewed in that run, and so are the other objects on a server where only single renewals fail.",
 ["fault_sequences","schedules"],
 "every choice and timing of failing servers and failing remote calls, before or after other servers have been processed",
 "No test fails one of several servers during a run.",
 ["lease_maintenance.py"],
 [("per-server loop","lease_maintenance.py:renew_leases")],
 [], ["lease expirations on healthy servers"])

prop("C18", "Lease maintenance spending is reported accurately",
 "The reported latest lease-maintenance activity is always that of the most recently completed run, with the number of passes its encountered shares require and its completion time; a run in progress, interrupted or abandoned by a crash is never reported, and reports survive restarts.",
 ["crash_points","schedules","histories"],
 "every crash point during a run, overlapping API reads, several runs and restarts, database failures while recording",
 "Tests record one run in a healthy store.",
 ["model.py","lease_maintenance.py","resource.py"],
 [("activity record","model.py:LeaseMaintenance"),("latest query","model.py:VoucherStore.get_latest_lease_maintenance_activity")],
 [("lease-maintenance-spending","one row per run","schema.py")],
 ["GET /lease-maintenance"])

prop("C19", "A replica recovers to exactly the replicated state",
 "Whenever replication has nothing left to upload, recovering from the replica into an empty node gives exactly the vouchers, tokens, invalid tokens, redemption groups and maintenance history of the original, all of them usable, whatever mix of operations, node restarts, failed and retried uploads and new snapshots produced the replica.",
 ["histories","crash_points","fault_sequences"],
 "every history of database operations, restarts, crashes, snapshot decisions, and upload, link, list or unlink failures (with or without effect)",
 "Tests replay single statements or one short history with a perfect in-memory grid and no restart.",
 ["replicate.py","recover.py","model.py"],
 [("change capture","replicate.py:_ReplicationCapableConnection"),("snapshot and event stream upload","replicate.py:_ReplicationService"),("replay","recover.py:recover")],
 [("event-stream table","changes not yet uploaded","schema.py"),("replica directory","snapshot and event-stream-N","replicate.py")],
 ["recovered database vs original"])

prop("C20", "A replica is recoverable at every instant",
 "Once the first snapshot is in place, at every moment - during uploads, between upload, link and prune, after a crash at any point - recovering from whatever the replica directory holds succeeds and yields some state the original had committed, never a mixture, never missing a change that was in place at an earlier recovery.",
 ["crash_points","schedules","fault_sequences"],
 "every intermediate replica state between individual grid operations, every crash and restart point, delayed or failed grid operations, writes concurrent with uploads",
 "No test recovers from a replica in an intermediate state.",
 ["replicate.py","recover.py"],
 [("upload before prune","replicate.py:_ReplicationService._do_one_snapshot_upload"),("sequence bookkeeping","replicate.py:prune_events_to"),("ordered replay","recover.py:sorted_event_streams")],
 [("sqlite sequence","highest change number covered by a snapshot","replicate.py")],
 ["replica directory contents over time"])

prop("C21", "Value-bearing changes reach the replica promptly",
 "While the grid accepts uploads, each newly accepted voucher together with its blinding tokens is recoverable from the replica within a bounded time without further activity, other changes are uploaded once they exceed the size threshold, and, once the replica's first snapshot is in place, local change history is discarded only after it is recoverable from the replica. A failed upload does not stop later changes from being replicated.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of changes with uploads in flight, upload failures of any kind, and restarts with leftover changes",
 "Tests check that one important change queues one upload with an always-working uploader.",
 ["replicate.py","model.py"],
 [("important marker","replicate.py:_Important"),("job queue","replicate.py:_ReplicationService.wait_for_uploads"),("threshold","replicate.py:_ReplicationService.should_upload_eventstream")],
 [("_changes","accumulated unreplicated changes","replicate.py:_ReplicationService")],
 ["replica directory","event-stream table"])

prop("C22", "Recovery never damages or mixes local state",
 "Recovery is carried out only into a node with no vouchers; if it is refused, or fails at any stage from any fault, the local store is as before and fully usable, and operations attempted while it is in progress either fail cleanly or take effect durably without spoiling it.",
 ["fault_sequences","schedules","crash_points","inputs"],
 "every download failure, truncated or corrupt replica object, database failure during import, crash during recovery, and API operations interleaved with the download",
 "Tests cover a refused recovery and a failing downloader, without checking the store's later usability or interleaving other operations.",
 ["recover.py","model.py","resource.py"],
 [("emptiness check in a transaction","model.py:VoucherStore.call_if_empty"),("import","recover.py:recover_snapshot")],
 [], ["store contents and usability before and after"])

prop("C23", "Recovery progress is reported in order to every client",
 "Every client that asks for the recovery in progress or already finished receives the same ordered sequence of stages ending in success or one failure and is then disconnected; at most one recovery ever runs, and a client naming a different replica is refused without disturbing it.",
 ["schedules","fault_sequences"],
 "every interleaving of client arrivals, disconnections, capabilities and download completions or failures",
 "Tests connect one or two clients with a synchronous recovery; none joins late, leaves early or names another replica at a chosen moment.",
 ["resource.py","recover.py"],
 [("client fan-out","resource.py:RecoverFactory"),("stage machine","recover.py:StatefulRecoverer")],
 [("sent_updates, clients","reported stages","resource.py:RecoverFactory")],
 ["websocket messages and closes"])

prop("C24", "A node has at most one replica and reports it consistently",
 "However often and concurrently replication setup is requested, with failures and restarts in between, at most one replica is ever configured; each successful or already-configured answer carries the read-only capability of that one replica and never its write capability, and after a failure setup can be requested again; from the first such answer on, the node's state is replicated to it.",
 ["schedules","fault_sequences","crash_points"],
 "every interleaving of setup requests, directory creation failures and delays, and restarts at any point",
 "Tests call setup once, or twice in sequence, with an immediate client.",
 ["replicate.py","resource.py","_plugin.py"],
 [("lock and config file","replicate.py:setup_tahoe_lafs_replication"),("already-setup answer","resource.py:ReplicateResource")],
 [("replica-rwcap file","the configured replica","config.py")],
 ["POST /replicate"])

prop("C25", "The store changes all-or-nothing",
 "Each store operation interrupted by a crash or a database error at any point leaves the database exactly as before or exactly as after that operation, never between, and an operation that reported an error has had no effect.",
 ["crash_points","fault_sequences"],
 "every statement and commit boundary of every store operation in every reachable store state",
 "No test interrupts an operation.",
 ["model.py","replicate.py"],
 [("transaction wrapper","model.py:with_cursor"),("commit and rollback","replicate.py:_ReplicationCapableConnection.__exit__")],
 [], ["database contents after interruption"])

prop("C26", "Upgrading an older database preserves its contents",
 "Opening a database written by any earlier schema version, or recovering one from a replica made by an earlier version, even if earlier upgrade attempts crashed or failed at any point, ends at the newest version with every voucher, token and maintenance record intact and usable, and opening again changes nothing.",
 ["crash_points","inputs","configurations"],
 "every schema version and generated contents, every crash or failure point in the upgrade, repeated opens",
 "Tests upgrade healthy databases for some versions without interruption.",
 ["schema.py","model.py"],
 [("upgrade in one transaction","model.py:initialize_database"),("upgrade steps","schema.py:_UPGRADES")],
 [("version table","current schema version","schema.py")],
 ["store API after opening"])

prop("C27", "Only holders of the API token can do or learn anything",
 "Every request to any resource of the API, existing or not, that does not carry the node's current API token is answered as unauthorized, with no effect on the node and nothing revealed; with the token it is served, also after the token has changed.",
 ["inputs","histories","schedules"],
 "every path, method, body and malformed or near-miss credential, interleaved with authorized activity, recovery, redemption and token rotation",
 "Tests try fixed paths with one wrong token.",
 ["private.py","resource.py"],
 [("guard","private.py:create_private_tree"),("token comparison","private.py:Token.equals")],
 [], ["HTTP responses","store contents"])

prop("C28", "Grid file operations are exact, retried safely and never leave partial files",
 "Uploading, downloading, linking, listing and unlinking through the grid client either do exactly what was asked or report failure: for uploads, directory creation, listing, linking and unlinking transient server shortages and refused connections are retried to completion, any other failure is reported, no reported failure reveals a capability used, and a file that exists under the download target name is always complete.",
 ["fault_sequences","crash_points","schedules"],
 "every sequence of HTTP failures, connection failures, truncated or interrupted bodies and crashes during a transfer",
 "Tests use a healthy local grid or fixed stub errors.",
 ["tahoe.py"],
 [("retry decorator","tahoe.py:async_retry"),("temporary file then rename","tahoe.py:download"),("status checks","tahoe.py:upload_bytes")],
 [], ["local files","grid directory contents","raised errors"])

prop("C29", "The quoted price is what storing the files costs",
 "The price the API quotes for a set of file sizes equals the number of passes actually spent when the erasure-coded shares of files of those sizes (the size divided by the needed shares, rounded up, as many shares as the node's encoding has) are stored through the node on servers charging the node's pass value, and what is stored is then paid for the quoted period (until lease maintenance, as configured, pays again).",
 ["inputs","histories","configurations"],
 "every list of sizes, encoding parameters and pass values, compared with spending in simulated uploads",
 "Tests compare the calculator with its own formula; nothing compares the quote to real spending.",
 ["pricecalculator.py","resource.py","storage_common.py"],
 [("calculator","pricecalculator.py:PriceCalculator.calculate"),("shared arithmetic","storage_common.py:required_passes")],
 [], ["POST /calculate-price","passes spent"])

prop("C30", "Value survives the whole life of a node",
 "Over any life of a node - redeeming, uploading, renewing leases, replicating, crashing, restarting, and being rebuilt from its replica - every token the issuer signed is at all times exactly one of still redeemable, available, in an operation in progress, spent at a server, or recorded invalid, except that a token whose operation ended without the node learning its outcome may be available though spent, and that rebuilding a node may undo changes that had not been uploaded; and once faults stop, everything advertised as available can be spent, before and after a rebuild.",
 ["histories","crash_points","schedules","fault_sequences"],
 "every composition of all the system's activities in one simulated deployment of client, issuer, storage servers and grid, with crashes and faults everywhere",
 "No test composes the parts; each is exercised alone.",
 ["_plugin.py","controller.py","spending.py","replicate.py","recover.py","lease_maintenance.py"],
 [("plugin wiring","_plugin.py:ZKAPAuthorizer"),("all of the above","model.py")],
 [], ["issuer ledger, server ledger, node store"])

prop("C31", "Passes cannot be linked to the voucher that bought them",
 "No party, not even the issuer and storage servers colluding, can connect a pass presented to a server with the voucher redeemed for it.",
 ["inputs"], "every computationally bounded observer",
 "It is a cryptographic indistinguishability claim about the distribution of random blinding values.",
 ["controller.py"], [("blinding","controller.py:RistrettoRedeemer.random_tokens_for_voucher")], [], ["issuer and server transcripts"])

prop("C32", "The API answers every authorized request as documented",
 "Whatever the node is doing, every request carrying the token is answered: well-formed requests succeed with the documented content, agreeing with the durable state of the node, malformed or unknown ones are refused as the client's error without any effect, and no request fails with an internal error unless the database or the grid failed underneath it or a recovery is in progress.",
 ["inputs","histories","schedules"],
 "every method, path and body, well-formed or not, sent at any point of redemption, spending, replication, recovery, restart and failure",
 "Tests generate bodies for some resources of an idle node; none sends arbitrary requests to a busy or freshly crashed one.",
 ["resource.py","model.py"],
 [("resources","resource.py:authorizationless_resource_tree"),("documents","model.py:Voucher.to_json_v1")],
 [("voucher rows","what is reported","model.py")], ["HTTP responses","store contents"])

prop("C33", "What a node sends does not connect passes with the voucher that bought them",
 "To redeem a group of a voucher the issuer is told the voucher, the number of the group and blinded tokens, each the blinding of a random token made for that group alone, and nothing else: no request to it has in it what a pass is made from, the factor that blinded it or the unblinded token, and requests differ in nothing but their content. Storage servers are sent passes made for the operation at hand, and never a voucher, a blinded token, a blinding factor or an unblinded token. This holds across retries, failures, crashes, restarts and recovery.",
 ["inputs","histories","fault_sequences","crash_points"],
 "every request to the issuer and every message to a storage server, in every history of redemptions, spending, failures, restarts and recoveries",
 "Tests look at single requests for their effect; none searches everything that is sent for what should not be in it.",
 ["controller.py","_storage_client.py","spending.py"],
 [("redemption requests","controller.py:RistrettoRedeemer.redeemWithCounter"),("messages to servers","_storage_client.py:ZKAPAuthorizerStorageClient"),("pass construction","controller.py:PaymentController")],
 [], ["bytes sent to issuer and servers"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
