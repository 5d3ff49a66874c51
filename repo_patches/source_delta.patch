From fa967dddb7468a90c7416f20faa8592207b4d700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 01/32] fix: count a malformed pass as invalid instead of
 failing the request

One string which does not even have the form of a pass made the whole request
fail with a TypeError or ValueError, so the client was never told which of its
passes was rejected.
---
 src/_zkapauthorizer/_storage_server.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/_storage_server.py b/src/_zkapauthorizer/_storage_server.py
index e60b193..819393d 100644
--- a/src/_zkapauthorizer/_storage_server.py
+++ b/src/_zkapauthorizer/_storage_server.py
@@ -173,7 +173,12 @@ class _ValidationResult(object):
         valid = []
         signature_check_failed = []
         for idx, pass_ in enumerate(passes):
-            pass_obj = Pass.from_bytes(pass_)
+            try:
+                pass_obj = Pass.from_bytes(pass_)
+            except (TypeError, ValueError):
+                # It does not even have the form of a pass.
+                signature_check_failed.append(idx)
+                continue
             if cls._is_invalid_pass(message, pass_obj, signing_key):
                 signature_check_failed.append(idx)
             else:
-- 
2.43.0


From 89b695608816e4b2c5c6126815e392d28923056d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 02/32] fix: record replication events in the transaction that
 makes the changes

The events were written by a second transaction after the first was
committed, so a crash in between lost them from the replica, and the
statements of a transaction which was rolled back were left to be
recorded with the next one.
---
 src/_zkapauthorizer/replicate.py | 33 ++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 94383f7..9730613 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -419,8 +419,10 @@ class _ReplicationCapableConnection:
         """
         Add another observer of changes made through this connection.
 
-        :param fn: An object to call after any transaction with changes is
-            committed on this connection.
+        :param fn: An object to call when any transaction with changes is
+            about to be committed on this connection.  Whatever it writes with
+            the cursor it is given is part of that transaction.  What it
+            returns is called after the transaction is committed.
         """
         self._observers = self._observers + (fn,)
 
@@ -444,17 +446,24 @@ class _ReplicationCapableConnection:
         exc_value: Optional[BaseException],
         exc_tb: Optional[Any],
     ) -> bool:
-        propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
+        post_txn_fns: list[Callable[[], None]] = []
         if exc_type is None:
-            # There was no exception, signal observers that a change has been
-            # committed.
-            post_txn_fns: list[Callable[[], None]] = []
-            with self._conn:
-                curse = self._conn.cursor()
-                curse.execute("BEGIN IMMEDIATE TRANSACTION")
-                post_txn_fns.extend(self._maybe_signal_observers(curse))
-            for f in post_txn_fns:
-                f()
+            # There was no exception, signal observers of the changes about to
+            # be committed.  They record what they need as part of the same
+            # transaction so that the changes and the record of them reach the
+            # database together or not at all.
+            try:
+                post_txn_fns.extend(self._maybe_signal_observers(self._conn.cursor()))
+            except BaseException as e:
+                self._conn.__exit__(type(e), e, e.__traceback__)
+                raise
+        else:
+            # The changes are about to be rolled back so there is nothing to
+            # tell observers about.
+            self._mutations = list()
+        propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
+        for f in post_txn_fns:
+            f()
         # Respect the underlying propagation decision.
         return propagate
 
-- 
2.43.0


From 00f14aa0af2d0cbead35579dea5ba9c85dcf942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 03/32] fix: resume redemption of a voucher after a transient
 failure where it left off

A voucher whose last attempt failed with an error was never retried and one
which had once been reported unpaid was started again from its first group,
with new random tokens, even if some groups had been redeemed since.
---
 src/_zkapauthorizer/controller.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/controller.py b/src/_zkapauthorizer/controller.py
index aa728e2..e09595a 100644
--- a/src/_zkapauthorizer/controller.py
+++ b/src/_zkapauthorizer/controller.py
@@ -928,7 +928,10 @@ class PaymentController(object):
             real_num_tokens = voucher_obj.expected_tokens
             # Determine the starting point from the state.
             if voucher_obj.state.should_start_redemption():
-                counter_start = voucher_obj.state.start_at_counter()
+                # Only the persistent state knows how much of the voucher has
+                # been redeemed.  The transient state that reflects the last
+                # failure does not.
+                counter_start = self.store.get(voucher).state.start_at_counter()
             else:
                 self._log.info(
                     "Cannot redeem voucher in state {state}.",
-- 
2.43.0


From ac693d35242819e4f368f042ce43d241f35981aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 04/32] fix: show the most recent failure of a voucher

A voucher once reported unpaid was shown as unpaid after any later failure.
---
 src/_zkapauthorizer/controller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/_zkapauthorizer/controller.py b/src/_zkapauthorizer/controller.py
index e09595a..6a0faf8 100644
--- a/src/_zkapauthorizer/controller.py
+++ b/src/_zkapauthorizer/controller.py
@@ -1056,6 +1056,7 @@ class PaymentController(object):
                 "Voucher {voucher} reported as not paid for during redemption.",
                 voucher=voucher,
             )
+            self._error.pop(voucher, None)
             self._unpaid[voucher] = self.store.now()
         else:
             self._log.error(
@@ -1063,6 +1064,7 @@ class PaymentController(object):
                 reason=reason.value,
                 voucher=voucher,
             )
+            self._unpaid.pop(voucher, None)
             self._error[voucher] = model_Error(
                 finished=self.store.now(),
                 details=reason.getErrorMessage(),
-- 
2.43.0


From 2e565634edb034d395769e50c84c58ccb96b462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 05/32] fix: stop lease maintenance cleanly while a run is in
 progress

Stopping the service during a run raised AlreadyCalled, left the service
marked as running, and the end of the run scheduled another one.
---
 src/_zkapauthorizer/lease_maintenance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index 0746a33..300e744 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -369,6 +369,8 @@ class _FuzzyTimerService(Service, Generic[_C]):
         """
         Run the operation once and then schedule it to run again.
         """
+        # The scheduled call has happened so there is nothing left to cancel.
+        self._call = None
 
         async def go() -> None:
             try:
@@ -376,7 +378,9 @@ class _FuzzyTimerService(Service, Generic[_C]):
             except:
                 f = Failure()  # type: ignore[no-untyped-call]
                 err(f, f"Fuzzy timer service ({self.name})")  # type: ignore[no-untyped-call]
-            self._schedule()
+            # The service may have been stopped while the operation ran.
+            if self.running:
+                self._schedule()
 
         Deferred.fromCoroutine(go())
 
-- 
2.43.0


From a15e3665fb33be7ccb7396b30ee8409eed624e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 06/32] fix: never schedule lease maintenance for the past

A configured interval range wider than twice the mean gave negative delays,
which the reactor refuses, ending maintenance for good.
---
 src/_zkapauthorizer/lease_maintenance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index 300e744..cfd5d4d 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -427,12 +427,15 @@ def lease_maintenance_service(
     halfrange = interval_range // 2
 
     def sample_interval_distribution() -> timedelta:
-        return timedelta(
+        sample = timedelta(
             seconds=random.uniform(
                 (interval_mean - halfrange).total_seconds(),
                 (interval_mean + halfrange).total_seconds(),
             ),
         )
+        # A range wider than twice the mean reaches below zero but nothing can
+        # be scheduled for the past.
+        return max(sample, timedelta(0))
 
     # Rather than an all-or-nothing last-run time we probably eventually want
     # to have a more comprehensive record of the state when we were last
-- 
2.43.0


From d8f67579e4dafb20865d61c1937931a7a0d6925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 07/32] fix: do not look for leases on nodes without a storage
 index

A literal file anywhere below the root put None among the storage indexes
the storage servers are asked about, which they refuse, so no lease at all
was maintained.
---
 src/_zkapauthorizer/lease_maintenance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index cfd5d4d..a699f8f 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -97,7 +97,11 @@ async def visit_storage_indexes(
     stack = root_nodes[:]
     while stack:
         elem = stack.pop()
-        visit(elem.get_storage_index())
+        storage_index = elem.get_storage_index()
+        # Some nodes - for example, literals - hold their data themselves.
+        # They have no storage index and no leases to maintain.
+        if storage_index is not None:
+            visit(storage_index)
         if IDirectoryNode.providedBy(elem):
             children = await elem.list()
             # Produce consistent results by forcing some consistent ordering
-- 
2.43.0


From 99917d4221d1871470e84b3525dadbe1a02fa6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 08/32] fix: end the maintenance crawl when directories form a
 cycle

---
 src/_zkapauthorizer/lease_maintenance.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index a699f8f..bded94b 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -95,6 +95,9 @@ async def visit_storage_indexes(
             )
 
     stack = root_nodes[:]
+    # Directories can be linked from several places, including from below
+    # themselves.  Listing each of them once is enough.
+    listed: set[StorageIndex] = set()
     while stack:
         elem = stack.pop()
         storage_index = elem.get_storage_index()
@@ -102,7 +105,9 @@ async def visit_storage_indexes(
         # They have no storage index and no leases to maintain.
         if storage_index is not None:
             visit(storage_index)
-        if IDirectoryNode.providedBy(elem):
+        if IDirectoryNode.providedBy(elem) and storage_index not in listed:
+            if storage_index is not None:
+                listed.add(storage_index)
             children = await elem.list()
             # Produce consistent results by forcing some consistent ordering
             # here.  This will sort by name.
-- 
2.43.0


From acd7f6a5bc77902c76c95bd0eecd95e8d2604360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 09/32] fix: keep the first event when it is recorded during a
 snapshot upload

---
 src/_zkapauthorizer/replicate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 9730613..3d03b2f 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -947,8 +947,11 @@ class _ReplicationService(Service):
         Perform a single snapshot upload, including pruning event-streams
         from the replica that are no longer relevant.
         """
-        # extract sequence-number and snapshot data
-        seqnum = 1
+        # extract sequence-number and snapshot data.  If no event was ever
+        # recorded then there is no sequence number and the snapshot covers no
+        # event, not even the first one, which may well be recorded before the
+        # upload is finished.
+        seqnum = 0
         rows = (
             self._connection.cursor()
             .execute(
-- 
2.43.0


From 68bf7804a9211c1aba28e9b520e81bd44afbcc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 10/32] fix: do not apply changes again which are already
 recovered

---
 src/_zkapauthorizer/recover.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 3081636..30ff851 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -224,8 +224,37 @@ def recover(
     streams against the given cursor.
     """
     recover_snapshot(statements_from_snapshot(snapshot), cursor)
+    # There may be changes which the snapshot already contains and changes
+    # which are in more than one event stream, depending on when replication
+    # was interrupted.  Each change must be applied only once.
+    sequence = snapshot_sequence(cursor)
     for event_stream in sorted_event_streams(load_event_streams(event_stream_data)):
-        recover_event_stream(event_stream, cursor)
+        recover_event_stream(
+            EventStream(
+                changes=[c for c in event_stream.changes if c.sequence > sequence]
+            ),
+            cursor,
+        )
+        highest = event_stream.highest_sequence()
+        assert highest is not None
+        sequence = max(sequence, highest)
+
+
+def snapshot_sequence(cursor: Cursor) -> int:
+    """
+    Get the sequence number of the last change which is already part of a
+    snapshot which was just loaded using the given cursor.
+    """
+    cursor.execute("SELECT 1 FROM [sqlite_master] WHERE [name] = 'sqlite_sequence'", ())
+    if cursor.fetchall() == []:
+        return 0
+    cursor.execute("SELECT [seq] FROM [sqlite_sequence] WHERE [name] = 'event-stream'", ())
+    rows = cursor.fetchall()
+    if rows == []:
+        return 0
+    ((sequence,),) = rows
+    assert isinstance(sequence, int)
+    return sequence
 
 
 def sorted_event_streams(event_streams: Iterable[EventStream]) -> list[EventStream]:
-- 
2.43.0


From a029e037ddb4c56ed17eaf3f4dfacf3afde1846d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 11/32] fix: leave nothing behind of a replica that cannot be
 imported

---
 src/_zkapauthorizer/recover.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 30ff851..55d42dc 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -134,9 +134,14 @@ class StatefulRecoverer:
             )
             return
 
+        # If the import fails then none of it may be left behind.
+        cursor.execute("SAVEPOINT [recover]", ())
         try:
             recover(snapshot, event_streams, cursor)
+            cursor.execute("RELEASE [recover]", ())
         except Exception as e:
+            cursor.execute("ROLLBACK TO [recover]", ())
+            cursor.execute("RELEASE [recover]", ())
             self._set_state(
                 RecoveryState(stage=RecoveryStages.import_failed, failure_reason=str(e))
             )
-- 
2.43.0


From dd081ea3abe174fc0b543685e14c310fd409c7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 12/32] fix: do not end the transaction of a recovery in
 progress

---
 src/_zkapauthorizer/model.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/_zkapauthorizer/model.py b/src/_zkapauthorizer/model.py
index 47fa3a1..4ea97d6 100644
--- a/src/_zkapauthorizer/model.py
+++ b/src/_zkapauthorizer/model.py
@@ -225,13 +225,15 @@ def with_cursor_async(
 
     @wraps(f)
     async def with_cursor_async(self: _S, /, *a: _P.args, **kw: _P.kwargs) -> _T:
-        with self._connection:
-            cursor = self._connection.cursor()
-            try:
-                cursor.execute("BEGIN IMMEDIATE TRANSACTION")
+        cursor = self._connection.cursor()
+        try:
+            # If this fails because there is another transaction on the
+            # connection then that one is not ours to roll back.
+            cursor.execute("BEGIN IMMEDIATE TRANSACTION")
+            with self._connection:
                 result = await f(self, cursor, *a, **kw)
-            finally:
-                cursor.close()
+        finally:
+            cursor.close()
         return result
 
     return with_cursor_async
@@ -249,13 +251,15 @@ def with_cursor(
 
     @wraps(f)
     def with_cursor(self: _S, /, *a: _P.args, **kw: _P.kwargs) -> _T:
-        with self._connection:
-            cursor = self._connection.cursor()
-            try:
-                cursor.execute("BEGIN IMMEDIATE TRANSACTION")
+        cursor = self._connection.cursor()
+        try:
+            # If this fails because there is another transaction on the
+            # connection then that one is not ours to roll back.
+            cursor.execute("BEGIN IMMEDIATE TRANSACTION")
+            with self._connection:
                 result = f(self, cursor, *a, **kw)
-            finally:
-                cursor.close()
+        finally:
+            cursor.close()
         return result
 
     # Callable has no attribute wrapped ... yea ... true.
-- 
2.43.0


From 428c9625a1ccf54b696376ac07e3f75e11f571cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:44 +0000
Subject: [PATCH 13/32] fix: do not replicate which tokens are in use

---
 src/_zkapauthorizer/model.py     | 11 +++++++----
 src/_zkapauthorizer/replicate.py |  7 +++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/_zkapauthorizer/model.py b/src/_zkapauthorizer/model.py
index 4ea97d6..6ae90e1 100644
--- a/src/_zkapauthorizer/model.py
+++ b/src/_zkapauthorizer/model.py
@@ -715,7 +715,10 @@ class VoucherStore(ConnectionHaver):
         if len(texts) < count:
             raise NotEnoughTokens()
 
-        cursor.executemany(
+        # Which tokens are in use in this process is not part of the state that
+        # can be recovered.  Replayed, it would even conflict with itself: the
+        # same token may be in use again after a restart.
+        cursor.unreplicated().executemany(
             """
             INSERT INTO [in-use] VALUES (?)
             """,
@@ -784,7 +787,7 @@ class VoucherStore(ConnectionHaver):
                 (token.unblinded_token.decode("ascii"),) for token in unblinded_tokens
             ),
         )
-        cursor.execute(
+        cursor.unreplicated().execute(
             """
             DELETE FROM [in-use]
             WHERE [unblinded-token] IN [to-discard]
@@ -833,7 +836,7 @@ class VoucherStore(ConnectionHaver):
                 for token in unblinded_tokens
             ),
         )
-        cursor.execute(
+        cursor.unreplicated().execute(
             """
             DELETE FROM [in-use]
             WHERE [unblinded-token] IN (SELECT [token] FROM [invalid-unblinded-tokens])
@@ -868,7 +871,7 @@ class VoucherStore(ConnectionHaver):
                 (token.unblinded_token.decode("ascii"),) for token in unblinded_tokens
             ),
         )
-        cursor.execute(
+        cursor.unreplicated().execute(
             """
             DELETE FROM [in-use]
             WHERE [unblinded-token] IN [to-reset]
diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 3d03b2f..b8d7c65 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -554,6 +554,13 @@ class _ReplicationCapableCursor:
             self._connection._mutations.append((self._important, statement, rows))
         return self
 
+    def unreplicated(self) -> _SQLite3Cursor:
+        """
+        Get a cursor for changes which belong to the same transaction but mean
+        nothing outside of this process and so must not be replicated.
+        """
+        return self._cursor
+
     def important(self) -> _Important:
         """
         Create a new context-manager that -- while active -- sets the
-- 
2.43.0


From 08a51ed03ae6c9c081f1589471325d2a05eb98ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 14/32] fix: keep recovering when a client goes away

---
 src/_zkapauthorizer/resource.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 5a1b892..6103b21 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -27,6 +27,7 @@ from json import dumps
 from typing import Callable, Optional, Union, cast
 
 from attr import Factory, define, field
+from autobahn.exception import Disconnected
 from autobahn.twisted.resource import WebSocketResource
 from autobahn.twisted.websocket import WebSocketServerFactory, WebSocketServerProtocol
 from autobahn.websocket.interfaces import IWebSocketClientAgent
@@ -351,7 +352,12 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
         update_msg = dumps(state.marshal()).encode("utf8")
         self.sent_updates.append(update_msg)
         for client in self.clients:
-            client.sendMessage(update_msg, False)
+            try:
+                client.sendMessage(update_msg, False)
+            except Disconnected:
+                # It is about to be removed.  What happens to a client must
+                # not interfere with the recovery.
+                pass
 
     def initiate_recovery(
         self, cap: DirectoryReadCapability, client: WebSocketServerProtocol
-- 
2.43.0


From 7f25b05897ac72152f2ecd4af6282afd588fe401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 15/32] fix: close the connections of clients there is nothing
 more to tell

---
 src/_zkapauthorizer/resource.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 6103b21..9e99cf5 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -373,8 +373,8 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
 
         Otherwise, error.
         """
-        self.clients.append(client)
         if self.recovering_d is None:
+            self.clients.append(client)
             self.recovering_cap = cap
             self.recovering_d = Deferred.fromCoroutine(self._recover(self.store, cap))
 
@@ -402,7 +402,7 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
             self.recovering_d.addCallbacks(happy, err)
 
         elif self.recovering_cap != cap:
-            self.sendClose(
+            client.sendClose(
                 code=4000, reason="Ongoing recovery with different capability"
             )
 
@@ -413,6 +413,11 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
             # status updates we've sent so far.
             for update in self.sent_updates:
                 client.sendMessage(update)
+            if self.recovering_d.called:
+                # There will be no more updates.
+                client.sendClose()
+            else:
+                self.clients.append(client)
 
     def buildProtocol(self, addr: object) -> RecoverProtocol:
         """
-- 
2.43.0


From 7c3f80d7282f864529a069609aea5845b549858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 16/32] fix: apply the changes of a serialized event stream

The arguments of a change read from a serialized stream are a list, which the
replicating cursor refuses, so no replica with an event stream could be
recovered.
---
 src/_zkapauthorizer/recover.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 55d42dc..8d3deb0 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -294,7 +294,8 @@ def recover_event_stream(event_stream: EventStream, cursor: Cursor) -> None:
     """
     for change in event_stream.changes:
         if change.statement not in ("BEGIN TRANSACTION;", "COMMIT;"):
-            cursor.execute(change.statement, change.arguments)
+            # Arguments from a serialized stream are a list.
+            cursor.execute(change.statement, tuple(change.arguments))
 
 
 def recover_snapshot(statements: Iterator[str], cursor: Cursor) -> None:
-- 
2.43.0


From 2225485525cf5498fea71334cea57d032cdde63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 17/32] fix: roll back a transaction that cannot be committed

A commit that fails, because the database is busy for example, leaves the
transaction open and every later operation then failed to begin its own.
---
 src/_zkapauthorizer/replicate.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index b8d7c65..f69fb68 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -461,7 +461,13 @@ class _ReplicationCapableConnection:
             # The changes are about to be rolled back so there is nothing to
             # tell observers about.
             self._mutations = list()
-        propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
+        try:
+            propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
+        except BaseException:
+            # The commit failed but that does not necessarily end the
+            # transaction.
+            self._conn.rollback()
+            raise
         for f in post_txn_fns:
             f()
         # Respect the underlying propagation decision.
-- 
2.43.0


From f42a5b9cd43d89f2f02d1a3d3be4beae305fc856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 18/32] fix: do not end the transaction of a recovery from the
 replication service

---
 src/_zkapauthorizer/replicate.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index f69fb68..5194f9f 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -61,6 +61,7 @@ __all__ = [
 
 import os
 import re
+from contextlib import nullcontext
 from enum import Enum
 from io import BytesIO
 from sqlite3 import Connection as _SQLite3Connection
@@ -729,15 +730,16 @@ def get_events(conn: _SQLite3Connection) -> EventStream:
     """
     Return all events currently in our event-log.
     """
-    with conn:
-        cursor = conn.cursor()
-        cursor.execute(
-            """
-            SELECT [sequence-number], [statement], [serialized_arguments], [important]
-            FROM [event-stream]
-            """
-        )
-        rows = cursor.fetchall()
+    # There is nothing here to commit and if there is a transaction open on the
+    # connection then it is someone else's.
+    cursor = conn.cursor()
+    cursor.execute(
+        """
+        SELECT [sequence-number], [statement], [serialized_arguments], [important]
+        FROM [event-stream]
+        """
+    )
+    rows = cursor.fetchall()
     return EventStream(
         changes=[
             Change(seq, stmt, cbor2.loads(arguments), important)
@@ -750,7 +752,9 @@ def prune_events_to(conn: _SQLite3Connection, sequence_number: int) -> None:
     """
     Remove all events <= sequence_number
     """
-    with conn:
+    # If there is a transaction open on the connection already then it is
+    # someone else's to end.
+    with nullcontext() if conn.in_transaction else conn:
         cursor = conn.cursor()
         cursor.execute(
             """
-- 
2.43.0


From ba3a996bcffb5ecc941ee1f8004df688625e976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 19/32] fix: do not reuse numbers of changes after recovering
 into a replicated database

---
 src/_zkapauthorizer/recover.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 8d3deb0..1ea232c 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -228,6 +228,7 @@ def recover(
     Synchronously execute statements from a snapshot and any applicable event
     streams against the given cursor.
     """
+    used = snapshot_sequence(cursor)
     recover_snapshot(statements_from_snapshot(snapshot), cursor)
     # There may be changes which the snapshot already contains and changes
     # which are in more than one event stream, depending on when replication
@@ -244,6 +245,15 @@ def recover(
         assert highest is not None
         sequence = max(sequence, highest)
 
+    # If this database is being replicated itself then its own replica may
+    # already account for some changes.  Their numbers must not be used again.
+    if snapshot_sequence(cursor) < used:
+        cursor.execute("DELETE FROM [sqlite_sequence] WHERE [name] = 'event-stream'", ())
+        cursor.execute(
+            "INSERT INTO [sqlite_sequence] ([name], [seq]) VALUES ('event-stream', ?)",
+            (used,),
+        )
+
 
 def snapshot_sequence(cursor: Cursor) -> int:
     """
-- 
2.43.0


From 0caf0df2f32678e118b6d6c4e463eebe8e3914e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 20/32] fix: answer with the replica's read capability when
 replication is already set up

---
 src/_zkapauthorizer/_plugin.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/_plugin.py b/src/_zkapauthorizer/_plugin.py
index 667045c..b3f064c 100644
--- a/src/_zkapauthorizer/_plugin.py
+++ b/src/_zkapauthorizer/_plugin.py
@@ -38,7 +38,10 @@ from challenge_bypass_ristretto import PublicKey, SigningKey
 from eliot import start_action
 from foolscap.ipb import IRemoteReference
 from prometheus_client import CollectorRegistry, write_to_textfile
-from tahoe_capabilities import DirectoryReadCapability
+from tahoe_capabilities import (
+    DirectoryReadCapability,
+    danger_real_capability_string,
+)
 from twisted.application.service import IService, MultiService
 from twisted.internet import task
 from twisted.internet.defer import Deferred, succeed
@@ -62,6 +65,7 @@ from .model import VoucherStore, aware_now
 from .model import open_database as _open_database
 from .recover import get_tahoe_lafs_downloader
 from .replicate import (
+    ReplicationAlreadySetup,
     _ReplicationCapableConnection,
     get_replica_rwcap,
     get_tahoe_lafs_direntry_replica,
@@ -326,7 +330,12 @@ class ZKAPAuthorizer(object):
 
         async def setup_replication() -> DirectoryReadCapability:
             # Setup replication
-            replica_ro = await setup_tahoe_lafs_replication(tahoe)
+            try:
+                replica_ro = await setup_tahoe_lafs_replication(tahoe)
+            except ReplicationAlreadySetup:
+                # That only has a digest of the capability.
+                replica_ro = get_replica_rwcap(node_config).reader
+                raise ReplicationAlreadySetup(danger_real_capability_string(replica_ro))
             # And then turn replication on for the database connection already
             # in use.
             self._add_replication_service(store._connection, node_config)
-- 
2.43.0


From 59b9de94bd687d54e8eb8490913e8498e3bf042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 21/32] fix: answer a voucher path that is not UTF-8 with a
 client error

---
 src/_zkapauthorizer/resource.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 9e99cf5..7668099 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -723,7 +723,10 @@ class _VoucherCollection(Resource):
         )
 
     def getChild(self, segment: bytes, request: IRequest) -> IResource:
-        voucher_str = segment.decode("utf-8")
+        try:
+            voucher_str = segment.decode("utf-8")
+        except UnicodeDecodeError:
+            return bad_request()
         if not is_syntactic_voucher(voucher_str):
             return bad_request()
         try:
-- 
2.43.0


From 23f90f3d623e5a7efa1ad78c45f7053b868c0e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 22/32] fix: answer a content-type that is not UTF-8 with a
 client error

---
 src/_zkapauthorizer/resource.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 7668099..772ff0c 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -600,10 +600,10 @@ def wrong_content_type(request: IRequest, required_type: str) -> bool:
         has been generated.  ``False`` otherwise.
     """
     actual_type = request.requestHeaders.getRawHeaders(
-        "content-type",
+        b"content-type",
         [None],
     )[0]
-    if actual_type != required_type:
+    if actual_type != required_type.encode("ascii"):
         set_response_code(request, BAD_REQUEST)
         request.finish()  # type: ignore[no-untyped-call]
         return True
-- 
2.43.0


From 2233629820a7fa14caf85be89c7e4311303e9e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 23/32] fix: treat JSON that is nested too deeply as JSON that
 cannot be parsed

---
 src/_zkapauthorizer/_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/_json.py b/src/_zkapauthorizer/_json.py
index cb540fb..1639dab 100644
--- a/src/_zkapauthorizer/_json.py
+++ b/src/_zkapauthorizer/_json.py
@@ -34,5 +34,5 @@ def loads(data: bytes) -> JSON:
     """
     try:
         return cast(JSON, _loads(data))
-    except ValueError as e:
+    except (ValueError, RecursionError) as e:
         raise ValueError("{!r}: {!r}".format(e, data))
-- 
2.43.0


From 52d2b4c3ece2de26e51a5698702b6aed1ea8fd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 24/32] fix: do not take booleans for numbers in a price query

---
 src/_zkapauthorizer/resource.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 772ff0c..555c9e8 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -558,7 +558,7 @@ class _CalculatePrice(Resource):
                 }
             )
 
-        if version != 1:
+        if isinstance(version, bool) or version != 1:
             set_response_code(request, BAD_REQUEST)
             return dumps_utf8(
                 {
@@ -567,7 +567,8 @@ class _CalculatePrice(Resource):
             )
 
         if not isinstance(sizes, list) or not all(
-            isinstance(size, int) and size >= 0 for size in sizes
+            isinstance(size, int) and not isinstance(size, bool) and size >= 0
+            for size in sizes
         ):
             set_response_code(request, BAD_REQUEST)
             return dumps_utf8(
-- 
2.43.0


From d8a91e8a6b59734d439e3fb150a78b8c3e3a5ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 25/32] fix: do not report a voucher as accepted if it could
 not be stored

---
 src/_zkapauthorizer/resource.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 555c9e8..e894473 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -709,7 +709,18 @@ class _VoucherCollection(Resource):
         self._log.info(
             "Accepting a voucher ({voucher}) for redemption.", voucher=voucher
         )
-        Deferred.fromCoroutine(self._controller.redeem(voucher.encode("ascii")))
+        failures: list[Failure] = []
+
+        def failed(f: Failure) -> None:
+            self._log.failure("Redeeming a voucher failed", f)
+            failures.append(f)
+
+        d = Deferred.fromCoroutine(self._controller.redeem(voucher.encode("ascii")))
+        d.addErrback(failed)
+        if failures:
+            # For example, the database is in use or cannot be written.
+            set_response_code(request, INTERNAL_SERVER_ERROR)
+            return dumps_utf8({"error": failures[0].getErrorMessage()})
         return b""
 
     def render_GET(self, request: IRequest) -> bytes:
-- 
2.43.0


From 97466bd1d2b40eba6e40dbc1a355a10053b1e969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 26/32] fix: let events be pruned through a replicated
 connection, too

The repair of the replication service ending a recovery's transaction asks the
connection whether there is a transaction.
---
 src/_zkapauthorizer/replicate.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 5194f9f..d54eb72 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -434,6 +434,13 @@ class _ReplicationCapableConnection:
         """
         return self._conn.iterdump()
 
+    @property
+    def in_transaction(self) -> bool:
+        """
+        Is there a transaction open on the connection?
+        """
+        return self._conn.in_transaction
+
     def close(self) -> None:
         return self._conn.close()
 
-- 
2.43.0


From e001dc36ea4d47da9445c1a22d3090ee8c495b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 27/32] fix: leave capabilities out of the text of Tahoe API
 errors

The exception's arguments still had the original URL, so its str() - which is
what ends up in logs - revealed the capability which repr() leaves out.
---
 src/_zkapauthorizer/tahoe.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/_zkapauthorizer/tahoe.py b/src/_zkapauthorizer/tahoe.py
index b5c4a88..625a019 100644
--- a/src/_zkapauthorizer/tahoe.py
+++ b/src/_zkapauthorizer/tahoe.py
@@ -179,6 +179,11 @@ class TahoeAPIError(Exception):
     status: int
     body: str
 
+    def __attrs_post_init__(self) -> None:
+        # An exception is formatted using the arguments it was created with.
+        # Leave out the original URL there as well.
+        Exception.__init__(self, self.method, self.url, self.status, self.body)
+
 
 class NotWriteableError(Exception):
     """
-- 
2.43.0


From 238a4f9de67c7f92a0ee3b7baceec6727765fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:47 +0000
Subject: [PATCH 28/32] fix: keep the tokens of partially redeemed vouchers
 spendable in an upgrade

If there was no completely redeemed voucher then no redemption group was made
for the existing unblinded tokens to belong to.
---
 src/_zkapauthorizer/schema.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/schema.py b/src/_zkapauthorizer/schema.py
index a4362b5..228490e 100644
--- a/src/_zkapauthorizer/schema.py
+++ b/src/_zkapauthorizer/schema.py
@@ -186,12 +186,14 @@ _UPGRADES = {
         )
         """,
         """
-        -- Create one redemption group for every existing, redeemed voucher.
+        -- Create one redemption group for every existing voucher which has been
+        -- at least partially redeemed.
         -- These tokens were probably *not* all redeemed in one group but
         -- we've only preserved one public key for them so we can't do much
         -- better than this.
         INSERT INTO [redemption-groups] ([voucher], [public-key], [spendable])
-            SELECT DISTINCT([number]), [public-key], 1 FROM [vouchers] WHERE [state] = "redeemed"
+            SELECT DISTINCT([number]), [public-key], 1 FROM [vouchers]
+            WHERE [state] = "redeemed" OR [counter] > 0
         """,
         """
         -- Give each voucher a count of "sequestered" tokens.  Currently,
-- 
2.43.0


From 5f58c0f8252fe1cca0b6b7a6592fec695915d82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:47 +0000
Subject: [PATCH 29/32] fix: give the finishing times of old vouchers a
 timezone

An upgraded wallet with a redeemed or double-spent voucher could not be read:
these times were still naive.
---
 src/_zkapauthorizer/schema.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/_zkapauthorizer/schema.py b/src/_zkapauthorizer/schema.py
index 228490e..fc57366 100644
--- a/src/_zkapauthorizer/schema.py
+++ b/src/_zkapauthorizer/schema.py
@@ -279,4 +279,13 @@ _UPGRADES = {
         ALTER TABLE [event-stream] ADD COLUMN [serialized_arguments] TEXT DEFAULT X'80'
         """,
     ],
+    9: [
+        # The conversion to UTC in the upgrade of version 7 overlooked this
+        # column.  Values written since then have a timezone marker already.
+        """
+        UPDATE [vouchers]
+        SET [finished] = datetime([finished], "utc") || "+00:00"
+        WHERE [finished] IS NOT NULL AND [finished] NOT LIKE "%+00:00"
+        """,
+    ],
 }
-- 
2.43.0


From 21d7aef2fa527063e5899b5d5dcdf7aaaf895650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:47 +0000
Subject: [PATCH 30/32] fix: upgrade the database in one transaction

An interruption between the first change to the schema and the matching change
to the version left a database which could not be opened anymore.
---
 src/_zkapauthorizer/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/_zkapauthorizer/model.py b/src/_zkapauthorizer/model.py
index 6ae90e1..a481311 100644
--- a/src/_zkapauthorizer/model.py
+++ b/src/_zkapauthorizer/model.py
@@ -160,6 +160,10 @@ def initialize_database(conn: _ReplicationCapableConnection) -> None:
         # schema.
         cursor.execute("PRAGMA foreign_keys = ON", ())
 
+        # SQLite3 would commit each change to the schema by itself.  Either
+        # the whole upgrade happens or none of it.
+        cursor.execute("BEGIN IMMEDIATE TRANSACTION", ())
+
         # Upgrade the database to the most recent version of the schema.  That
         # is the only schema the Python code will actually work against.
         actual_version = get_schema_version(cursor)
-- 
2.43.0


From 5350aafadbbaf23934192928515753f0199d1580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:03 +0000
Subject: [PATCH 31/32] fix: escape quotes in SQL identifiers

escape_identifier put the name between quotes as it was, so a name with a
quote in it was not the identifier in the statement (and what followed the
quote was SQL).
---
 src/_zkapauthorizer/sql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/sql.py b/src/_zkapauthorizer/sql.py
index 42afde4..a9767e2 100644
--- a/src/_zkapauthorizer/sql.py
+++ b/src/_zkapauthorizer/sql.py
@@ -266,7 +266,8 @@ def escape_identifier(string: str) -> str:
     """
     Escape an arbitrary string for use as a SQLite3 identifier.
     """
-    return f"'{string}'"
+    quoted = string.replace("'", "''")
+    return f"'{quoted}'"
 
 
 def column_ddl(name: str, column: Column) -> str:
-- 
2.43.0


From 020ab0c5b8c9daf11c69028c43eed8a74479f0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 32/32] fix: recognise a rejection of passes that arrives over
 Foolscap

Foolscap does not raise the exception of the server in the client but a
RemoteException which holds its type and text, so passes rejected by a real
server were put back and submitted again forever.
---
 src/_zkapauthorizer/_storage_client.py | 40 ++++++++++++++++++++++----
 src/_zkapauthorizer/storage_common.py  | 35 +++++++++++++++++++++-
 2 files changed, 68 insertions(+), 7 deletions(-)

diff --git a/src/_zkapauthorizer/_storage_client.py b/src/_zkapauthorizer/_storage_client.py
index 19c8ee2..88f5012 100644
--- a/src/_zkapauthorizer/_storage_client.py
+++ b/src/_zkapauthorizer/_storage_client.py
@@ -27,6 +27,7 @@ from allmydata.interfaces import IStorageServer
 from attrs import Factory, define, field
 from foolscap.ipb import IRemoteReference
 from foolscap.referenceable import RemoteReference
+from foolscap.tokens import RemoteException
 from twisted.internet.defer import Deferred
 from twisted.internet.interfaces import IReactorTime
 from twisted.python.reflect import namedAny
@@ -254,6 +255,30 @@ def _encode_passes(group: IPassGroup) -> list[bytes]:
     return list(t.pass_bytes for t in group.passes)
 
 
+async def _call_remote_with_passes(
+    rref: IRemoteReference, method: str, passes: IPassGroup, *args: object
+) -> Any:
+    """
+    Call a remote method that requires passes.
+
+    :param passes: The passes to present, as the first argument.
+
+    :raise MorePassesRequired: If the server raised ``MorePassesRequired``.
+        Foolscap does not send exceptions themselves, only their type and
+        text, and raises a ``RemoteException`` that holds these.
+    """
+    try:
+        return await rref.callRemote(  # type: ignore[no-untyped-call]
+            method, _encode_passes(passes), *args
+        )
+    except RemoteException as e:
+        if e.failure.check(MorePassesRequired):
+            more_passes_required = MorePassesRequired.from_text(str(e.failure.value))
+            if more_passes_required is not None:
+                raise more_passes_required from e
+        raise
+
+
 async def stat_shares(
     rref: IRemoteReference, storage_indexes: list[bytes]
 ) -> list[dict[int, ShareStat]]:
@@ -314,9 +339,10 @@ async def slot_testv_and_readv_and_writev(
     old_tw_vectors: dict[int, ServerTestWriteVector],
     r_vector: ReadVector,
 ) -> tuple[bool, dict[int, list[bytes]]]:
-    unknown = await rref.callRemote(  # type: ignore[no-untyped-call]
+    unknown = await _call_remote_with_passes(
+        rref,
         "slot_testv_and_readv_and_writev",
-        _encode_passes(passes),
+        passes,
         storage_index,
         secrets,
         old_tw_vectors,
@@ -481,9 +507,10 @@ class ZKAPAuthorizerStorageClient(object):
         )
 
         async def call(passes: IPassGroup) -> tuple[set[int], dict[int, Any]]:
-            alreadygot, buckets = await rref.callRemote(  # type: ignore[no-untyped-call]
+            alreadygot, buckets = await _call_remote_with_passes(
+                rref,
                 "allocate_buckets",
-                _encode_passes(passes),
+                passes,
                 storage_index,
                 renew_secret,
                 cancel_secret,
@@ -539,9 +566,10 @@ class ZKAPAuthorizerStorageClient(object):
         num_passes = required_passes(self._pass_value, share_sizes)
 
         async def call(passes: IPassGroup) -> None:
-            await rref.callRemote(  # type: ignore[no-untyped-call]
+            await _call_remote_with_passes(
+                rref,
                 "add_lease",
-                _encode_passes(passes),
+                passes,
                 storage_index,
                 renew_secret,
                 cancel_secret,
diff --git a/src/_zkapauthorizer/storage_common.py b/src/_zkapauthorizer/storage_common.py
index 6d8882a..1b97819 100644
--- a/src/_zkapauthorizer/storage_common.py
+++ b/src/_zkapauthorizer/storage_common.py
@@ -16,8 +16,9 @@
 Functionality shared between the storage client and server.
 """
 
+import re
 from base64 import b64encode
-from typing import Callable, TypedDict, Union, ValuesView, cast
+from typing import Callable, Optional, TypedDict, Union, ValuesView, cast
 
 from attrs import define
 from pyutil.mathutil import div_ceil
@@ -46,6 +47,38 @@ class MorePassesRequired(Exception):
     required_count: int
     signature_check_failed: frozenset[int]
 
+    @classmethod
+    def from_text(cls, text: str) -> Optional["MorePassesRequired"]:
+        """
+        Load an exception from the result of calling ``str`` on it.
+
+        :param text: The text.  Foolscap limits the length of the text of an
+            exception so the end of it may be missing.  If it is then the
+            rejected passes that do not completely appear in it are left out
+            of the result.
+
+        :return: The exception or ``None`` if the text does not represent one
+            of these.
+        """
+        match = re.match(
+            r"MorePassesRequired\(valid_count=(\d+), required_count=(\d+), "
+            r"signature_check_failed=frozenset\((?:\{(.*))?",
+            text,
+            re.ASCII | re.DOTALL,
+        )
+        if match is None:
+            return None
+        valid_count, required_count, failed = match.groups()
+        return cls(
+            int(valid_count),
+            int(required_count),
+            frozenset(
+                # An index is complete if it is followed by a delimiter.
+                int(index)
+                for index in re.findall(r"(\d+)[,}]", failed or "", re.ASCII)
+            ),
+        )
+
 
 def _message_maker(label: str) -> Callable[[bytes], bytes]:
     def make_message(storage_index: bytes) -> bytes:
-- 
2.43.0

