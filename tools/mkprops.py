#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": ["src/_zkapauthorizer/" + f for f in files],
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [{"name": a, "where": b} for a, b in mechanism],
                "observe_at": list(observe),
                "hook_needed": hook,
            },
        }
    )


prop(
    "C01",
    "Prices are the exact sum of per-share ceilings",
    "The price of storing shares for one lease period is the sum, over the shares, of each share's size divided by the value of one pass, rounded up; the price quoted for files is that sum over all N erasure-coded shares of each file, a share being 1/k of the file rounded up. "
    "A mutable write costs exactly the price of the shares as they will be after the write minus the price of the shares as they are, where a write never shrinks a share, so the price is never negative.",
    ["inputs", "configurations"],
    "every pass value, share count, file size, current share size and write vector",
    "the tests sample a few sizes; rounding errors show up only at multiples of the pass value or beyond 2**53",
    ["storage_common.py", "pricecalculator.py"],
    [("required_passes", "storage_common.py"), ("get_required_new_passes_for_mutable_write", "storage_common.py"), ("PriceCalculator.calculate", "pricecalculator.py")],
)
prop(
    "C02",
    "Server accepts an immutable upload only when it is fully paid for",
    "An immutable-upload request reaches the storage backend only if it came with at least as many validly signed passes, bound to this operation and storage index, as the price of all the requested shares; otherwise it fails reporting exactly how many passes were valid, how many are required and the positions of those whose signature check failed, and changes nothing. "
    "When it succeeds, exactly the price of the shares actually allocated is taken from the front of the valid passes and recorded as spent, the backend never renews leases on its own, and the spending metric records the same number.",
    ["inputs", "histories"],
    "every number, validity and order of passes, share set, share size, pass value and every backend answer (allocated, already present, no space)",
    "tests use valid passes in the right number plus a few shortfalls; the interaction of invalid passes, already-present shares and rounding is not enumerated",
    ["_storage_server.py", "storage_common.py"],
    [("remote_allocate_buckets", "_storage_server.py"), ("_ValidationResult", "_storage_server.py"), ("check_pass_quantity_for_write", "_storage_server.py")],
    observe=["calls on the wrapped storage server", "spender.mark_as_spent", "spending histogram"],
)
prop(
    "C03",
    "Server renews a lease only when every stored share is paid for",
    "A lease-renewal request reaches the storage backend only if it came with at least as many validly signed passes, bound to this operation and storage index, as the price of all the shares the server holds there at their current sizes; otherwise it fails with exact counts of valid and required passes and positions of the rejected ones, and changes nothing. "
    "When it succeeds, exactly the valid passes are recorded as spent, in order, and the metric agrees.",
    ["inputs"],
    "every set of stored shares and sizes (immutable or mutable), pass value, and number, validity and order of passes",
    "tests exercise single sizes with exactly enough passes",
    ["_storage_server.py"],
    [("remote_add_lease", "_storage_server.py"), ("check_pass_quantity_for_lease", "_storage_server.py"), ("get_share_stats", "_storage_server.py")],
)
prop(
    "C04",
    "Server gates mutable writes by price and grants exactly the leases paid for",
    "A mutable write reaches the storage backend only if it came with enough validly signed passes, bound to this operation and slot, for the price of the write, where a share whose leases have all expired counts as not yet stored; a write that asks for an explicit new length is refused, and a refused write changes nothing. "
    "After a successful write, every written share without an unexpired lease has gained one lease lasting one full lease period from now, no other lease has changed, and exactly the valid passes are recorded as spent.",
    ["inputs", "histories"],
    "every set of existing shares (size, leases, expiry times), write vectors, current time, pass value and pass validity",
    "tests fix the clock and a handful of share states; expiry boundaries, mixtures of leased and unleased shares and growth across a pass boundary are not enumerated",
    ["_storage_server.py", "storage_common.py"],
    [("_slot_testv_and_readv_and_writev", "_storage_server.py"), ("get_writev_price", "_storage_server.py"), ("add_leases_for_writev", "_storage_server.py"), ("share_has_active_leases", "_storage_server.py")],
)
prop(
    "C05",
    "Client and server agree on the price of every operation",
    "For the same shares, sizes, lease expirations, time and pass value, the number of passes the client submits for an upload, lease renewal or mutable write is exactly the number the server requires, so an honest client is neither refused nor overcharged. "
    "Client and server configured alike use the same pass value, and a client refuses to use a server that announces a different issuer or is not a server of this kind.",
    ["inputs", "configurations"],
    "every combination of share sizes, lease expirations relative to now, write vectors, share sets and pass value",
    "the two sides compute the price with separate code; tests compare them on a few sampled states",
    ["_storage_client.py", "_storage_server.py", "storage_common.py"],
    [("ZKAPAuthorizerStorageClient", "_storage_client.py"), ("get_writev_price", "_storage_server.py"), ("IncorrectStorageServerReference", "_storage_client.py")],
)
prop(
    "C06",
    "Client passes are conserved through any sequence of server answers",
    "Whatever a storage server answers and however often a call is retried, every token a storage operation takes out of the wallet ends in exactly one of three places: recorded as spent if the operation succeeded with it, set aside as invalid if the server rejected it, or returned for later use if it was not used; this holds for rejections as they really arrive over Foolscap, too, which sends only the type and the beginning of the text of an exception. "
    "A pass the server rejected is never submitted again, each attempt carries exactly the required number of distinct passes, and an upload spends exactly the price of the shares the server says it newly allocated. "
    "If the wallet cannot supply enough tokens the operation fails and every token goes back.",
    ["fault_sequences", "histories"],
    "every sequence of replies (success, any subset rejected, other failure, wallet shortage) up to the bound and any price",
    "tests script single replies; the bookkeeping across several rejections, shortages and partial allocation is a history property",
    ["_storage_client.py", "spending.py"],
    [("call_with_passes", "_storage_client.py"), ("PassGroup", "spending.py"), ("SpendingController", "spending.py")],
)
prop(
    "C07",
    "A pass authorises exactly one operation on one storage index",
    "The message a pass is bound to differs between any two different requests, where requests differ if their operation or their storage index differs; client and server derive the same message for the same request. "
    "A pass survives its wire encoding unchanged, and a pass signed for one message or by another key, or malformed in any way, is counted as invalid and never as an error that aborts the request.",
    ["inputs"],
    "every pair of operations and storage indexes (symbolic bytes) and every kind of malformed pass",
    "injectivity quantifies over pairs of inputs; tests check equality on samples",
    ["storage_common.py", "_storage_server.py", "_storage_client.py", "model.py"],
    [("_message_maker", "storage_common.py"), ("_is_invalid_pass", "_storage_server.py"), ("Pass", "model.py")],
)
prop(
    "C08",
    "Unspent tokens are handed out once and never lost",
    "Taking tokens from the wallet yields exactly the requested number of distinct tokens that are usable and not already taken, or fails changing nothing exactly when fewer remain; the advertised count of usable tokens always equals how many could be taken. "
    "Returning tokens makes exactly those available again; spending or invalidating tokens removes exactly those for good (keeping invalidated ones on record), and nothing an operation was not asked to touch changes.",
    ["inputs", "histories"],
    "every reachable wallet content (tokens, groups, spendability, in-use marks, spent, invalid) and every request",
    "the tests walk short histories from an empty database; the property is about every state",
    ["model.py", "schema.py"],
    [("VoucherStore.get_unblinded_tokens", "model.py"), ("discard_unblinded_tokens", "model.py"), ("invalidate_unblinded_tokens", "model.py"), ("reset_unblinded_tokens", "model.py"), ("count_unblinded_tokens", "model.py")],
    state=[("unblinded-tokens", "spendable or sequestered tokens", "schema.py"), ("in-use", "temporary table of taken tokens", "model.py"), ("spent / invalid tables", "final states", "schema.py")],
)
prop(
    "C09",
    "Redemption progress in the wallet is exact and atomic",
    "Recording the tokens of one redemption step stores every one of them, under the public key that signed them, and advances the voucher's progress by exactly one step; the voucher becomes redeemed, with a token count equal to the number of spendable tokens ever recorded for it, when and only when the step is the last one. "
    "A voucher that is redeemed or double-spent is never made redeemable again by submitting it or by marking it double-spent, a refused transition changes nothing, and marking a voucher double-spent affects only that voucher. "
    "Asking again for the blinding material of a voucher's step returns the very material first generated for it.",
    ["inputs", "histories"],
    "every voucher state, counter, set of earlier groups and every transition attempted",
    "tests step a voucher through the expected order; illegal orders and mixtures of vouchers are not enumerated",
    ["model.py"],
    [("VoucherStore.add", "model.py"), ("insert_unblinded_tokens_for_voucher", "model.py"), ("mark_voucher_double_spent", "model.py"), ("Voucher state", "model.py")],
)
prop(
    "C10",
    "Redeeming a voucher resumes, never repeats a finished step, and completes",
    "For any sequence of successes, failures, retries and restarts, each step of a voucher's redemption that has succeeded is never attempted again, every step is attempted with the same blinding material each time, steps are attempted in order starting with the first unfinished one, and after the last step succeeds exactly the configured number of tokens has been obtained. "
    "The tokens are split over the steps so that the parts sum to the total and differ by at most one. "
    "A voucher whose attempt at the issuer failed for a transient reason, payment or otherwise, is attempted again later; one that is redeemed or double-spent is not.",
    ["fault_sequences", "histories", "crash_points"],
    "every sequence of redemption outcomes, retry ticks, explicit re-submissions and process restarts up to the bound; every total and number of steps",
    "tests script one failure at a time; combinations (progress, then failure, then retry) are a history property",
    ["controller.py", "model.py"],
    [("PaymentController.redeem", "controller.py"), ("_perform_redeem / _redeem_success / _final_redeem_error", "controller.py"), ("token_count_for_group", "controller.py"), ("LoopingCall retry", "controller.py")],
)
prop(
    "C11",
    "Only tokens from allowed issuers are spendable; others are kept aside",
    "Tokens signed by a public key outside the configured allow-list are recorded but never counted, handed out or spent, and the voucher's progress advances all the same; tokens signed by an allowed key are usable at once. "
    "A response signed by any other key than the one it claims, or whose number of signatures does not match the number of tokens requested, yields no tokens at all.",
    ["inputs", "configurations"],
    "every allow-list, responding key and history of steps with different keys",
    "tests use one key at a time",
    ["controller.py", "model.py"],
    [("PaymentController._redeem_success", "controller.py"), ("insert_unblinded_tokens_for_voucher(spendable)", "model.py"), ("RistrettoRedeemer.redeemWithCounter", "controller.py")],
)
prop(
    "C12",
    "Every lease that will expire too soon is renewed, and no other",
    "A maintenance run asks every connected server about every visited storage index and renews the lease on a server exactly when that server holds a share of it that has no lease or whose soonest-expiring lease will have expired before the configured remaining-time threshold; it never renews where the server holds nothing. "
    "Each storage index is matched with its own statistics whatever the order and number of indexes, and the sizes of all shares found are what is reported as the storage observed.",
    ["inputs", "configurations"],
    "every number of servers and indexes, share statistics, expiration times, current time and threshold",
    "tests sample small states; index/statistics alignment and time boundaries are not enumerated",
    ["lease_maintenance.py"],
    [("renew_leases", "lease_maintenance.py"), ("renew_leases_on_server", "lease_maintenance.py"), ("needs_lease_renew", "lease_maintenance.py"), ("calculate_initial_interval", "lease_maintenance.py")],
)
prop(
    "C13",
    "The maintenance crawl visits everything reachable, once, and terminates",
    "Starting from the root, the crawl visits the storage index of every file and directory reachable through readable directories, whatever the shape of the graph (sharing, cycles, unknown or literal nodes), terminates, and never visits anything unreachable. "
    "Nodes without a storage index are never passed on for maintenance, and a directory that cannot be read makes the run fail rather than be reported as finished.",
    ["inputs"],
    "every directed graph of directory and file nodes up to the bound",
    "tests use small trees; cycles and literal files are not among them",
    ["lease_maintenance.py"],
    [("visit_storage_indexes", "lease_maintenance.py"), ("visit_storage_indexes_from_root", "lease_maintenance.py")],
)
prop(
    "C14",
    "Lease maintenance keeps running on schedule, whatever happens to a run",
    "While the service is running there is always exactly one next run scheduled or one run in progress: a run that succeeds, fails, or fails immediately is followed by another, the delay drawn from the configured interval range. "
    "After a restart the first delay makes up for the time already passed since the last completed run, is never negative, and is drawn from the full range when there was none. "
    "Stopping the service cancels the pending run and lets nothing run or be scheduled afterwards.",
    ["fault_sequences", "schedules", "inputs"],
    "every sequence of outcomes, stop points, last-run times, interval means and ranges and random draws",
    "tests advance a fake clock through one or two successful runs",
    ["lease_maintenance.py"],
    [("_FuzzyTimerService", "lease_maintenance.py"), ("calculate_initial_interval", "lease_maintenance.py"), ("lease_maintenance_service", "lease_maintenance.py")],
)
prop(
    "C15",
    "The record of maintenance spending is exact",
    "The latest-activity report describes the maintenance run with the latest recorded finish time: when it started, when it finished, and as its cost the total price of all shares observed during that run and no other; a run in progress or abandoned is never reported as finished and never disturbs the report. "
    "Before any run has finished there is no report.",
    ["histories", "crash_points"],
    "every history of runs (started, observing any share sizes, finished or abandoned), interleaved with restarts",
    "tests run one maintenance at a time",
    ["model.py"],
    [("LeaseMaintenance.start/observe/finish", "model.py"), ("get_latest_lease_maintenance_activity", "model.py")],
)
prop(
    "C16",
    "Exactly the committed changes are recorded for replication",
    "With replication enabled, the event stream gains exactly the state-changing statements of each transaction that committed, with the values they were executed with and in execution order, and nothing from a transaction that rolled back or failed; with replication disabled it gains nothing. "
    "What is recorded reaches the database together with the changes or not at all; marks of which tokens this process is using are not part of it. A commit that contains an important change triggers an upload of the event stream, after the commit.",
    ["histories", "fault_sequences"],
    "every sequence of transactions with any mix of reads, writes, multi-row writes, failures at any point, importance marks and enabling points",
    "tests commit single transactions; a rollback followed by a commit is a history property",
    ["replicate.py", "sql.py"],
    [("_ReplicationCapableConnection", "replicate.py"), ("_ReplicationCapableCursor", "replicate.py"), ("_ReplicationService.observed_event", "replicate.py"), ("statement_mutates", "sql.py")],
)
prop(
    "C17",
    "The replica can always rebuild the wallet, at every crash point",
    "At every moment, whatever uploads, prunes and crashes have happened in whatever order, the latest snapshot in the grid plus the event streams in the grid and in the local database together contain every recorded change made since that snapshot, each in its place; local events are discarded only once the grid holds them, and uploaded streams only once a snapshot covers them. "
    "A failed upload discards nothing.",
    ["crash_points", "fault_sequences", "schedules"],
    "every interleaving of changes with the steps of an upload or snapshot, and a failure or crash at each step",
    "tests check each step alone and never stop between steps",
    ["replicate.py", "model.py"],
    [("_ReplicationService", "replicate.py"), ("get_events / prune_events_to / add_events", "replicate.py"), ("EventStream", "replicate.py")],
)
prop(
    "C18",
    "Recovery rebuilds exactly the replicated state",
    "Recovering from a replica gives the snapshot's state with every later recorded change applied exactly once, in the order it was recorded; a change the snapshot already contains is not applied again, whatever subset of old streams is still in the grid. "
    "If anything fails, the database is left empty as before and the failure is reported.",
    ["inputs", "fault_sequences", "crash_points"],
    "every set of event streams present (any order, any overlap with the snapshot) and a failure at any step",
    "tests recover from tidy replicas that hold nothing older than the snapshot",
    ["recover.py", "replicate.py"],
    [("recover", "recover.py"), ("recover_snapshot / recover_event_stream", "recover.py"), ("get_tahoe_lafs_downloader", "recover.py")],
)
prop(
    "C19",
    "Recovery runs at most once, only into an empty wallet, and reports truthfully",
    "Recovery is refused, without touching the database, unless the wallet holds no voucher of its own; a second request while or after one runs joins it if it names the same replica and is refused otherwise. "
    "Observers see the stages in order, and the last one they see is success exactly if the replica's state was committed and otherwise a failure naming the step that failed; every observer, however late, learns the outcome and is then disconnected, and one that leaves, at any time, does not affect the recovery. Other operations of the wallet meanwhile cannot end the recovery's transaction.",
    ["schedules", "fault_sequences", "histories"],
    "every sequence of recovery requests, observer arrivals and step outcomes up to the bound",
    "tests drive one request with one outcome",
    ["recover.py", "resource.py", "model.py"],
    [("StatefulRecoverer", "recover.py"), ("RecoverProtocol / RecoverFactory", "resource.py"), ("VoucherStore.call_if_empty", "model.py")],
)
prop(
    "C20",
    "Setting up replication happens once and never discards a replica",
    "However many times and however concurrently replication is set up, at most one set-up at a time asks the grid for a directory, none does once a replica capability is stored, and every caller that succeeds gets the read-only capability of that same stored replica (201 if this call created it, 409 if it existed). "
    "What is stored is always the complete write capability of a directory the grid made, and once stored it is never overwritten or removed. A set-up fails only if the grid or the disk failed or another one is under way, and after a failure or a crash it can be repeated. From a successful set-up on, and after every restart, changes are recorded for replication. What callers are given never allows writing to the replica.",
    ["schedules", "crash_points", "fault_sequences"],
    "every interleaving of concurrent setups and every failure or crash point in one",
    "tests set up once, or twice in sequence",
    ["replicate.py"],
    [("setup_tahoe_lafs_replication", "replicate.py"), ("with_replication", "replicate.py"), ("DirectoryCapability", "tahoe.py")],
)
prop(
    "C21",
    "Stored share sizes and lease expirations are read correctly",
    "The size reported for a stored share is the number of data bytes the storage backend holds for it, for immutable and mutable shares and any number of leases, and its reported expiration is the latest among its leases (or none); it is reported under its own share number, and only for shares asked about. "
    "A file that is not recognisably a share (an unknown header, or too short to tell) is refused rather than mis-measured.",
    ["inputs"],
    "every share file header and length, lease count and lease expiration, and directory content",
    "tests write shares of a few sizes with zero to few leases",
    ["_storage_server.py"],
    [("get_storage_index_share_size", "_storage_server.py"), ("get_slot_share_size", "_storage_server.py"), ("get_lease_expiration", "_storage_server.py"), ("get_share_stats", "_storage_server.py")],
)
prop(
    "C22",
    "The private HTTP API answers only requests carrying the exact API token",
    "A request for any resource of the private API is served only if its authorization is the API token, compared in full; a missing, malformed, shorter, longer or different token of any scheme gets an authorization failure and no effect, at every path. "
    "The unauthenticated health of the resource tree never exposes wallet content.",
    ["inputs"],
    "every presented credential (symbolic bytes up to the bound), scheme and path in the resource tree",
    "tests try random tokens, not neighbours of the right one",
    ["private.py", "resource.py"],
    [("TokenChecker", "private.py"), ("create_private_tree", "private.py"), ("authorizationless_resource_tree", "resource.py")],
)
prop(
    "C23",
    "The HTTP API accepts exactly the well-formed requests and nothing else",
    "Price queries succeed exactly when they carry the right version and a list of non-negative integer sizes, and then return the price of those sizes and the lease period; voucher submissions succeed exactly for a well-formed body with one well-formed voucher. "
    "Everything else gets a client error, never an internal failure, and leaves the wallet unchanged; a submitted voucher is reported back with its true state.",
    ["inputs"],
    "every JSON document of the relevant shapes up to the bound, with symbolic numbers and symbolic voucher characters",
    "tests send a few malformed bodies",
    ["resource.py", "_base64.py", "validators.py"],
    [("_CalculatePrice", "resource.py"), ("_VoucherCollection", "resource.py"), ("is_syntactic_voucher", "resource.py"), ("urlsafe_b64decode", "_base64.py")],
)
prop(
    "C24",
    "Issuer answers are classified correctly and failures lose nothing",
    "An issuer's answer to a redemption step leads to tokens only if it reports success; a report that the voucher is unpaid, already redeemed, or of an unexpected step is recognised as such, and anything else, including malformed answers, is a transient error. "
    "The state shown for the voucher always reflects the most recent outcome, and only an already-redeemed answer marks the voucher double-spent.",
    ["inputs", "fault_sequences"],
    "every issuer answer: status, success flag, reason, field presence and type",
    "tests use the few well-formed answers",
    ["controller.py"],
    [("RistrettoRedeemer.redeemWithCounter", "controller.py"), ("_final_redeem_error", "controller.py"), ("incorporate_transient_state", "controller.py")],
)
prop(
    "C25",
    "Upgrading an old wallet keeps every voucher and every spendable token",
    "Opening a wallet written by any earlier version upgrades it in one step to the current layout with every voucher, its state and counters, and every unspent token kept; tokens that could be spent before can be spent after, and nothing spent, invalid or redeemed before becomes available again. "
    "An upgrade interrupted at any point leaves the old wallet as it was, so that it can be opened later, and opening an up-to-date wallet changes nothing.",
    ["inputs", "crash_points"],
    "every starting version and every content of the old tables up to the bound",
    "tests upgrade one sampled content per version",
    ["schema.py", "model.py"],
    [("get_schema_upgrades", "schema.py"), ("initialize_database / open_database", "model.py")],
)
prop(
    "C26",
    "Snapshots are taken exactly when replay would cost more than a snapshot",
    "After an event stream is uploaded, a new snapshot is taken exactly when the storage price of everything the replica holds (its snapshot and event streams) exceeds the configured multiple of the price of a new snapshot, prices computed the way the grid charges for the shares; otherwise only the event stream is uploaded. "
    "When replication starts and the replica holds no snapshot, one is uploaded; when it holds one, none is uploaded just for starting.",
    ["inputs", "histories"],
    "every set of replica entries and sizes, pass value, share configuration and factor",
    "tests sample a few sizes",
    ["replicate.py", "_plugin.py", "tahoe.py"],
    [("_CostBasedPolicy", "_plugin.py"), ("required_passes_for_data", "tahoe.py"), ("get_tahoe_lafs_direntry_lister", "replicate.py"), ("_ReplicationService._replica_size / should_upload_snapshot", "replicate.py")],
)
prop(
    "C27",
    "Names and contents in a replica come back as they were and never become SQL",
    "A statement built for a table and its columns means the same whatever characters the names have: it names exactly that table and those columns, and nothing of a name becomes SQL. "
    "A snapshot or an event stream that is read back has the same statements, arguments, sequence numbers and importance in the same order; one of an unknown version, or in which something is not a statement or not an SQL value, is refused. "
    "Loading a snapshot removes every table there was except SQLite's own sequence table, executes the table definitions first and every other statement exactly once, unchanged and in order, and never the snapshot's own transaction bounds, whatever the texts contain.",
    ["inputs"],
    "every text up to the bound for names and statements (all characters), every kind of argument, every order of the statements up to the bound",
    "tests sample generic text; quoting and the sorting of statements fail on specific short combinations",
    ["replicate.py", "sql.py", "recover.py"],
    [("escape_identifier, create_table, Insert, Update, Select, Delete", "sql.py"), ("statements_to_snapshot, EventStream.to_bytes / from_bytes, Change", "replicate.py"), ("recover_snapshot, statements_from_snapshot", "recover.py")],
)
prop(
    "C28",
    "Grid requests are retried only when safe and never leak capabilities",
    "An upload, directory creation, listing, link or unlink that fails because the node is unreachable or lacks storage servers is repeated, with the complete data each time, until it has another outcome; any other failure is reported at once and success is returned as the grid stated it. "
    "A download leaves at its target either the complete content or nothing. "
    "The description of the failed request in a reported error never contains the capability it used.",
    ["fault_sequences", "inputs"],
    "every sequence of outcomes (status codes symbolic) up to the bound and every operation",
    "tests sample a few failures",
    ["tahoe.py"],
    [("async_retry", "tahoe.py"), ("TahoeAPIError / _scrub_caps_from_url", "tahoe.py"), ("upload_bytes / download / link / unlink", "tahoe.py")],
)

prop(
    "C29",
    "Storage requests cross both ends unchanged, and reading is free",
    "A request made on the client reaches the wrapped storage server exactly once with the arguments it was made with (test vectors gaining only the equality operator), and what the server answers is what the client returns; version, share, corruption and size queries, reads, and mutable requests without writes are never refused for lack of passes and take and spend none. "
    "Share statistics arrive as they were sent, one for each storage index asked about, in order. "
    "The client asks nothing of a remote object of any other interface, and an answer of a shape the protocol does not allow is an error which spends nothing.",
    ["inputs"],
    "every operation, every argument the remote interface allows, every answer of the wrapped server, every interface name and answer shape",
    "the tests go through an in-memory server with typical arguments; mixing up two arguments of the same type, or dropping one for unusual values, keeps them passing",
    ["_storage_client.py", "_storage_server.py", "foolscap.py"],
    [("ZKAPAuthorizerStorageClient", "_storage_client.py"), ("ZKAPAuthorizerStorageServer", "_storage_server.py"), ("RIPrivacyPassAuthorizedStorageServer / add_arguments / ShareStat", "foolscap.py"), ("with_rref / _rref", "_storage_client.py")],
    observe=["calls on the wrapped storage server", "results of the client's methods"],
)
prop(
    "C30",
    "An interrupted upload is discarded, a finished one never",
    "When the connection an immutable upload was started on is lost, every share of it that was neither finished nor aborted is discarded, so that it can be uploaded again; finished shares, and uploads on other connections, stay as they are. "
    "Once an upload is over the connection is no longer watched for it.",
    ["schedules", "histories"],
    "every interleaving of uploads, finishes, aborts, timeouts, lost connections and the later notice of these, over several connections",
    "tests cover one upload on one connection; mixing up the writers of one call, or of two connections, needs a particular history to show",
    ["_storage_server.py"],
    [("remote_allocate_buckets", "_storage_server.py"), ("_bucket_writer_closed", "_storage_server.py")],
    state=[("_bucket_writer_disconnect_markers", "which connection is watched for which upload", "_storage_server.py")],
    observe=["stored and incoming shares", "callbacks registered on the connection"],
)

prop(
    "C31",
    "Configuration means the same to every part of the system",
    "A configured pass value, encoding, lease setting, token count, list of allowed keys, issuer or signing key governs every part of the client and server alike: the price and period quoted over HTTP, the passes an upload is paid with, the accounting of lease maintenance, the server's prices and its announcement; an option left out takes the same default everywhere. "
    "The services run exactly on nodes whose list of plugins names this one, at most once per node, and a service that cannot be made does not keep the node from starting. "
    "Each node has one wallet, in its own directory; storage servers of another issuer are not dealt with.",
    ["inputs", "histories"],
    "every combination of options present and absent, every number, every order of using the plugin for several nodes",
    "tests sample configurations and look at each part by itself; two parts disagreeing about one number show only with particular values and sizes",
    ["_plugin.py", "config.py", "storage_common.py", "lease_maintenance.py", "resource.py", "controller.py"],
    [("get_configured_pass_value", "storage_common.py"), ("LeaseMaintenanceConfig.from_node_config", "lease_maintenance.py"), ("ZKAPAuthorizer", "_plugin.py"), ("_attach_zkapauthorizer_services", "_plugin.py"), ("RistrettoRedeemer.make", "controller.py")],
    state=[("ZKAPAuthorizer._stores", "the wallets of the nodes of this process", "_plugin.py")],
    observe=["prices and periods quoted", "passes asked for", "services of the node", "database files opened"],
)

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
