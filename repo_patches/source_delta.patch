From 1360c0079bf8f66d9313e3efc79bd6e56bb2cfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:47 +0000
Subject: [PATCH 01/30] fix: roll back any open transaction when a database
 handle is destroyed

The destructor only rolled back when a query had been recorded. A handle destroyed inside an exclusive (or prepared,
blank) transaction kept the commit lock locked forever.
---
 sqlitecluster/SQLite.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index 4b4585b..7b221dd 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -462,7 +462,7 @@ string SQLite::_getJournalQuery(const vector<string>& journalNames, const list<s
 SQLite::~SQLite()
 {
     // First, rollback any incomplete transaction.
-    if (!_uncommittedQuery.empty()) {
+    if (_insideTransaction || !_uncommittedQuery.empty()) {
         SINFO("Rolling back in destructor.");
         rollback();
         SINFO("Rollback in destructor complete.");
-- 
2.43.0


From 54beafeb1495c0b39c981b4f236a977eeeb8e9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:47 +0000
Subject: [PATCH 02/30] fix: never leave the commit lock held when an exclusive
 transaction fails to begin

beginTransaction(EXCLUSIVE) took the commit lock before it checked the state of the handle and before BEGIN. When the
handle was already inside a transaction, or BEGIN failed, the lock stayed held with no transaction to roll back.
---
 sqlitecluster/SQLite.cpp | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index 7b221dd..ccb0e25 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -518,20 +518,6 @@ bool SQLite::beginTransaction(SQLite::TRANSACTION_TYPE type, bool beginOnly)
 {
     _lastTransactionType = type;
     _transactionTimer.start("BEGIN_TRANSACTION");
-    if (type == TRANSACTION_TYPE::EXCLUSIVE) {
-        if (isSyncThread) {
-            // Blocking the sync thread has catastrophic results (forking) and so we either get this quickly, or we fail the transaction.
-            if (!_sharedData.commitLock.try_lock_for(5s)) {
-                SWARN("Failed to acquire commit lock in sync thread exclusive transaction!");
-                STHROW("512 Internal Lock Timeout");
-            }
-        } else {
-            _sharedData.commitLock.lock();
-        }
-        _sharedData._commitLockTimer.start("EXCLUSIVE");
-        _mutexLocked = true;
-    }
-
     // The most likely case for hitting this is that we forgot to roll back a transaction when we were finished with it
     // during the last use of this DB handle. In that case, `_insideTransaction` is likely true, and possibly
     // _uncommittedHash or _uncommittedQuery is set. Rollback should put this DB handle back into a usable state,
@@ -550,6 +536,21 @@ bool SQLite::beginTransaction(SQLite::TRANSACTION_TYPE type, bool beginOnly)
         STHROW("Attempted to begin transaction while in invalid state: _uncommittedQuery not empty");
     }
 
+    // We only take the commit lock once we know the handle is usable, so that none of the failures above can leave it locked.
+    if (type == TRANSACTION_TYPE::EXCLUSIVE) {
+        if (isSyncThread) {
+            // Blocking the sync thread has catastrophic results (forking) and so we either get this quickly, or we fail the transaction.
+            if (!_sharedData.commitLock.try_lock_for(5s)) {
+                SWARN("Failed to acquire commit lock in sync thread exclusive transaction!");
+                STHROW("512 Internal Lock Timeout");
+            }
+        } else {
+            _sharedData.commitLock.lock();
+        }
+        _sharedData._commitLockTimer.start("EXCLUSIVE");
+        _mutexLocked = true;
+    }
+
     // We actively track transaction counts incrementing and decrementing to log the number of active open transactions at any given moment.
     _sharedData.openTransactionCount++;
 
@@ -561,6 +562,16 @@ bool SQLite::beginTransaction(SQLite::TRANSACTION_TYPE type, bool beginOnly)
     string beginQuery = (beginOnly && _hctree) ? "BEGIN" : "BEGIN CONCURRENT";
     _insideTransaction = !SQuery(_db, beginQuery);
 
+    // If we couldn't begin, there will be nothing to roll back, so undo everything that `rollback` would have undone.
+    if (!_insideTransaction) {
+        _sharedData.openTransactionCount--;
+        if (_mutexLocked) {
+            _mutexLocked = false;
+            _sharedData._commitLockTimer.stop();
+            _sharedData.commitLock.unlock();
+        }
+    }
+
     _queryCache.clear();
     _tablesUsed.clear();
     _readQueryCount = 0;
-- 
2.43.0


From de3027c48ac846a342ff2747fa99f635faf82390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:47 +0000
Subject: [PATCH 03/30] fix: don't throw out of commit() while holding the
 commit lock

The slow-commit diagnostics used SQLite::read, which throws once the handle's timeout has passed. At that point the
transaction is already committed and marked as finished, so nothing would release the commit lock.
---
 sqlitecluster/SQLite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index ccb0e25..bcdc5aa 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -1178,7 +1178,8 @@ int SQLite::commit(const string& description, const string& commandName, functio
         // Only check for commits over 100ms.
         if (_commitElapsed > 100'000 && _hctree) {
             SQResult stats;
-            if (read("SELECT * FROM hctstats", stats)) {
+            // Not `read`, which throws on timeout: we are still holding commitLock, and there's no transaction to roll back.
+            if (!SQuery(_db, "SELECT * FROM hctstats", stats)) {
                 for (const auto& row : stats) {
                     SINFO("slow HC-Tree commit", {{"hctstats", SComposeList(row)}});
                 }
-- 
2.43.0


From 42a2948bfe7de957b152fa1a1bed1d3a81f10c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:30 +0000
Subject: [PATCH 04/30] fix: don't leave a handle marked as writing after an
 interrupted write

When a write timed out or was aborted, _checkInterruptErrors threw before _currentlyWriting was cleared, and later reads on
the same handle were denied functions that are only forbidden in writes.
---
 sqlitecluster/SQLite.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index bcdc5aa..7346495 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -916,6 +916,9 @@ bool SQLite::_writeIdempotent(const string& query, const map<string, Parameter>&
     }
 
     _writeElapsed += STimeNow() - before;
+
+    // The query itself is done, and if `_checkInterruptErrors` throws we must not be left looking like we're still writing.
+    _currentlyWriting = false;
     _checkInterruptErrors("SQLite::write"s);
     if (resultCode) {
         _currentlyWriting = false;
-- 
2.43.0


From 8dfc438931fd837b3f210ff2b2a4543cb6118715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:17 +0000
Subject: [PATCH 05/30] fix: treat every non-deterministic SQL function as such
 (read cache, replicated writes)

---
 sqlitecluster/SQLite.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index 7346495..e384442 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -1467,7 +1467,14 @@ int SQLite::_authorize(int actionCode, const char* detail1, const char* detail2,
             !strcmp(detail2, "datetime") ||
             !strcmp(detail2, "julianday") ||
             !strcmp(detail2, "strftime") ||
+            !strcmp(detail2, "unixepoch") ||
+            !strcmp(detail2, "timediff") ||
+            !strcmp(detail2, "current_date") ||
+            !strcmp(detail2, "current_time") ||
+            !strcmp(detail2, "current_timestamp") ||
+            !strcmp(detail2, "randomblob") ||
             !strcmp(detail2, "changes") ||
+            !strcmp(detail2, "total_changes") ||
             !strcmp(detail2, "last_insert_rowid") ||
             !strcmp(detail2, "sqlite_version")
         ) {
@@ -1479,9 +1486,13 @@ int SQLite::_authorize(int actionCode, const char* detail1, const char* detail2,
         // i.e. you can do UPDATE x = DATE('2024-01-01') and its deterministic whereas UPDATE x = DATE('now') is not. It's up to
         // callers to prevent using these functions inappropriately.
         if (!strcmp(detail2, "current_timestamp") ||
+            !strcmp(detail2, "current_date") ||
+            !strcmp(detail2, "current_time") ||
             !strcmp(detail2, "random") ||
+            !strcmp(detail2, "randomblob") ||
             !strcmp(detail2, "last_insert_rowid") ||
             !strcmp(detail2, "changes") ||
+            !strcmp(detail2, "total_changes") ||
             !strcmp(detail2, "sqlite_version")) {
             if (_currentlyWriting) {
                 return SQLITE_DENY;
-- 
2.43.0


From e5d886619a75b173d6ae83890597f017773b67fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:51 +0000
Subject: [PATCH 06/30] fix: roll back when applying a synchronized commit
 fails, and notice failed commits

---
 sqlitecluster/SQLiteNode.cpp | 37 +++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/sqlitecluster/SQLiteNode.cpp b/sqlitecluster/SQLiteNode.cpp
index 94f674c..33e5c24 100644
--- a/sqlitecluster/SQLiteNode.cpp
+++ b/sqlitecluster/SQLiteNode.cpp
@@ -1794,22 +1794,33 @@ void SQLiteNode::_recvSynchronize(SQLitePeer* peer, const SData& message)
         if (!_db.beginTransaction()) {
             STHROW("failed to begin transaction");
         }
-        if (!_db.writeUnmodified(BedrockPlugin_Compression::decompress(commit.content))) {
-            STHROW("failed to write transaction");
-        }
-        string newHash;
-        if (!_db.prepare(nullptr, &newHash)) {
-            STHROW("failed to prepare transaction");
-        }
-        if (newHash != commit["Hash"]) {
+        try {
+            if (!_db.writeUnmodified(BedrockPlugin_Compression::decompress(commit.content))) {
+                STHROW("failed to write transaction");
+            }
+            string newHash;
+            if (!_db.prepare(nullptr, &newHash)) {
+                STHROW("failed to prepare transaction");
+            }
+            if (newHash != commit["Hash"]) {
+                STHROW("potential hash mismatch");
+            }
+
+            // Transaction succeeded, commit and go to the next
+            SDEBUG("Committing current transaction because _recvSynchronize: " << _db.getUncommittedQuery());
+            if (_db.commit(stateName(_state)) != SQLITE_OK) {
+                STHROW("failed to commit transaction");
+            }
+        } catch (const SException& e) {
+            // Don't leave a partial transaction (or the commit lock) behind.
             _db.rollback();
-            STHROW("potential hash mismatch");
+            throw;
+        } catch (const exception& e) {
+            // Let our callers treat this like any other failed synchronization.
+            _db.rollback();
+            STHROW("failed to write transaction: "s + e.what());
         }
 
-        // Transaction succeeded, commit and go to the next
-        SDEBUG("Committing current transaction because _recvSynchronize: " << _db.getUncommittedQuery());
-        _db.commit(stateName(_state));
-
         --commitsRemaining;
     }
 
-- 
2.43.0


From a2e0699c0da2fc44c7b4569f6da2c9ba1ea045b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:02 +0000
Subject: [PATCH 07/30] fix: check for a cluster fork even if we don't have the
 mismatched commit any more

---
 sqlitecluster/SQLiteNode.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlitecluster/SQLiteNode.cpp b/sqlitecluster/SQLiteNode.cpp
index 33e5c24..707899b 100644
--- a/sqlitecluster/SQLiteNode.cpp
+++ b/sqlitecluster/SQLiteNode.cpp
@@ -1242,8 +1242,10 @@ void SQLiteNode::_onMESSAGE(SQLitePeer* peer, const SData& message)
                 _db.getCompressedCommits(commitNum, commitNum, result);
                 peer->forked = true;
 
+                // We may not have the commit our peer mentions (e.g., it's been trimmed from the journal).
+                const string ourHash = result.empty() ? "(unknown)" : result[0][0];
                 SALERT("Hash mismatch. Peer " << peer->name << " and I have forked at commit " << message["hashMismatchNumber"]
-                       << ". I am " << stateName(_state) << " and have hash " << result[0][0] << " for that commit. Peer has hash "
+                       << ". I am " << stateName(_state) << " and have hash " << ourHash << " for that commit. Peer has hash "
                        << message["hashMismatchValue"] << "." << _getLostQuorumLogMessage());
 
                 _dieIfForkedFromCluster();
-- 
2.43.0


From bd4967e7db69a3d3c2d27e350ce23932c66fdfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:40 +0000
Subject: [PATCH 08/30] fix: don't wait forever for BlockWrites when there's no
 database

---
 BedrockServer.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index 26d9ed1..84fd1fb 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -1809,13 +1809,16 @@ void BedrockServer::_control(unique_ptr<BedrockCommand>& command)
     } else if (SIEquals(command->request.methodLine, "BlockWrites")) {
         atomic<bool> locked(false);
         lock_guard lock(__quiesceLock);
+        shared_ptr<SQLitePool> dbPoolCopy = _dbPool;
         if (__quiesceThread) {
             response.methodLine = "400 Already Blocked";
+        } else if (!dbPoolCopy) {
+            // Without a DB there's nothing to block, and we'd wait forever below for it to be locked.
+            response.methodLine = "500 No database";
         } else {
-            __quiesceThread = new thread([&]() {
-                shared_ptr<SQLitePool> dbPoolCopy = _dbPool;
-                if (dbPoolCopy) {
-                    SQLiteScopedHandle dbScope(*_dbPool, _dbPool->getIndex());
+            __quiesceThread = new thread([&locked, dbPoolCopy]() {
+                {
+                    SQLiteScopedHandle dbScope(*dbPoolCopy, dbPoolCopy->getIndex());
                     SQLite& db = dbScope.db();
                     SINFO("[quiesce] Exclusive locking DB");
                     db.exclusiveLockDB();
-- 
2.43.0


From 57836a8c7ec9292a091691d96a6c1f6775f4bd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:05 +0000
Subject: [PATCH 09/30] fix: make _lastSentTransactionID atomic, SYNCHRONIZE
 threads read it without the lock

---
 sqlitecluster/SQLiteNode.cpp | 2 +-
 sqlitecluster/SQLiteNode.h   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqlitecluster/SQLiteNode.cpp b/sqlitecluster/SQLiteNode.cpp
index 707899b..c670061 100644
--- a/sqlitecluster/SQLiteNode.cpp
+++ b/sqlitecluster/SQLiteNode.cpp
@@ -1713,7 +1713,7 @@ void SQLiteNode::_queueSynchronize(const SQLiteNode* const node, SQLitePeer* pee
     // The commitCount can change at any time, and on LEADER, we need to make sure we don't send the same transaction
     // twice, where _lastSentTransactionID only changes in the sync thread. From followers serving SYNCHRONIZE
     // requests, they can always serve their entire DB, there's no point at which they risk double-sending data.
-    uint64_t targetCommit = (_state == SQLiteNodeState::LEADING || _state == SQLiteNodeState::STANDINGDOWN) ? node->_lastSentTransactionID : db.getCommitCount();
+    uint64_t targetCommit = (_state == SQLiteNodeState::LEADING || _state == SQLiteNodeState::STANDINGDOWN) ? node->_lastSentTransactionID.load() : db.getCommitCount();
     if (peerCommitCount == targetCommit) {
         // Already synchronized; nothing to send
         PINFO("Peer is already synchronized");
diff --git a/sqlitecluster/SQLiteNode.h b/sqlitecluster/SQLiteNode.h
index 4784cb0..0785bf9 100644
--- a/sqlitecluster/SQLiteNode.h
+++ b/sqlitecluster/SQLiteNode.h
@@ -290,7 +290,8 @@ private:
 
     // Store the ID of the last transaction that we replicated to peers. Whenever we do an update, we will try and send
     // any new committed transactions to peers, and update this value.
-    uint64_t _lastSentTransactionID;
+    // Atomic because the threads that respond to SYNCHRONIZE messages read it without holding `_stateMutex`.
+    atomic<uint64_t> _lastSentTransactionID;
 
     // Pointer to the peer that is the leader. Null if we're the leader, or if we don't have a leader yet.
     atomic<SQLitePeer*> _leadPeer;
-- 
2.43.0


From 5532ee5b08c9fb064f1963fa962ed26403164f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:52 +0000
Subject: [PATCH 10/30] fix: release the conflict lock before replying,
 handling a failed reply can lock again

---
 BedrockServer.cpp     | 5 +++++
 ConflictLockGuard.cpp | 6 ++++++
 ConflictLockGuard.h   | 3 +++
 3 files changed, 14 insertions(+)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index 84fd1fb..501907d 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -733,6 +733,10 @@ void BedrockServer::runCommand(unique_ptr<BedrockCommand>&& _command, bool isBlo
                         // Roll back the transaction, it'll get re-run wherever this command ends up.
                         core.rollback(command->getMethodName());
                         dbScope.release();
+
+                        // Replying can run another command in this thread (i.e., `handleFailedReply`), which can block on
+                        // a conflict lock itself, so don't hold ours.
+                        conflictLock.release();
                         auto _clusterMessengerCopy = _clusterMessenger;
                         if (_clusterMessengerCopy && _clusterMessengerCopy->runOnPeer(*command, true)) {
                             SINFO("Escalated " << command->request.methodLine << " to leader and complete, responding.");
@@ -826,6 +830,7 @@ void BedrockServer::runCommand(unique_ptr<BedrockCommand>&& _command, bool isBlo
                         if (command->httpsRequests.size()) {
                             SALERT("Server stopped leading while running command with HTTPS requests!");
                             command->response.methodLine = "500 Leader stopped leading";
+                            conflictLock.release();
                             _reply(command);
                             break;
                         } else {
diff --git a/ConflictLockGuard.cpp b/ConflictLockGuard.cpp
index 9a2778e..d099f4e 100644
--- a/ConflictLockGuard.cpp
+++ b/ConflictLockGuard.cpp
@@ -90,6 +90,11 @@ ConflictLockGuard::ConflictLockGuard(uint64_t identifier) : _identifier(identifi
 }
 
 ConflictLockGuard::~ConflictLockGuard()
+{
+    release();
+}
+
+void ConflictLockGuard::release()
 {
     if (_identifier == 0) {
         return;
@@ -101,4 +106,5 @@ ConflictLockGuard::~ConflictLockGuard()
 
     auto mutexCount = mutexCounts.find(_identifier);
     mutexCount->second--;
+    _identifier = 0;
 }
diff --git a/ConflictLockGuard.h b/ConflictLockGuard.h
index 2b4ebda..b34cd41 100644
--- a/ConflictLockGuard.h
+++ b/ConflictLockGuard.h
@@ -10,6 +10,9 @@ public:
     ConflictLockGuard(uint64_t identifier);
     ~ConflictLockGuard();
 
+    // Unlocks before the end of the scope. Does nothing if we're not holding a lock.
+    void release();
+
 private:
 
     // For controlling access to internals.
-- 
2.43.0


From 7854e8df9ad35c9ed8ed822f8cc53af2272c3301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:06 +0000
Subject: [PATCH 11/30] fix: don't crash on HTTP messages with an invalid or
 huge length

A Content-Length that is negative, not a number or doesn't fit an int, and chunk lengths of 0x80000000 and up, made SParseHTTP throw std::length_error or std::invalid_argument (or overflow), which terminates the server as nothing catches it on the network threads.
---
 libstuff/libstuff.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index f7dcca7..f85876a 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -1010,7 +1010,8 @@ int SParseHTTP(const char* buffer, size_t length, string& methodLine, STable& na
                     // If there's a Content-Length (including a Content-Length of 0), we will parse that much data.
                     // Otherwise, we just parse everything that's left, as we have no other reasonable options.
                     bool hasContentLength = nameValueMap.contains("Content-Length");
-                    int contentLength = hasContentLength ? stoll(nameValueMap["Content-Length"]) : 0;
+                    // Anything that isn't a valid length is treated as 0, this is data from the network and can be anything.
+                    int64_t contentLength = hasContentLength ? max<int64_t>(SToInt64(nameValueMap["Content-Length"]), 0) : 0;
                     if (!hasContentLength) {
                         // Since we don't know, just return everything we have.
                         content = string(parseEnd, buffer + length);
@@ -1018,7 +1019,7 @@ int SParseHTTP(const char* buffer, size_t length, string& methodLine, STable& na
                     }
 
                     // There is a content length -- if we don't have enough, then cancel the parse.
-                    if ((int) (length - headerLength) < contentLength) {
+                    if ((int64_t) (length - headerLength) < contentLength) {
                         // Insufficient content
                         methodLine.clear();
                         nameValueMap.clear();
@@ -1055,12 +1056,11 @@ int SParseHTTP(const char* buffer, size_t length, string& methodLine, STable& na
                 if (SREMatch("^[a-fA-F0-9]{1,8}$", hexChunkLength)) {
                     // Get the chunk length.
                     isHeaderOrFooter = false;
-                    int chunkLength = (int) SFromHex(hexChunkLength);
+                    int64_t chunkLength = (int64_t) SFromHex(hexChunkLength);
                     if (chunkLength) {
                         // Verify that we can get the entire chunk.
                         const char* chunkStart = lineEnd + 2; // skipping the \r\n.
-                        const char* chunkEnd = chunkStart + chunkLength;
-                        if (chunkEnd >= inputEnd) {
+                        if (chunkLength >= inputEnd - chunkStart) {
                             // Insufficient content
                             methodLine.clear();
                             nameValueMap.clear();
@@ -1072,7 +1072,7 @@ int SParseHTTP(const char* buffer, size_t length, string& methodLine, STable& na
                         size_t contentLength = content.length();
                         content.resize(contentLength + chunkLength);
                         memcpy(&content[contentLength], chunkStart, chunkLength);
-                        lineEnd = chunkEnd;
+                        lineEnd = chunkStart + chunkLength;
                     } else {
                         lastChunkFound = true;
                     }
-- 
2.43.0


From 02f5c79ec8c9b76bfdfd4da31d2b5ea3448e1cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:19 +0000
Subject: [PATCH 12/30] fix: don't read outside the buffer when trimming HTTP
 lines

A line of only spaces, or a header line without a colon, made SParseHTTP read before the start or past the end of its input while trimming.
---
 libstuff/libstuff.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index f85876a..1fd5d5a 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -895,7 +895,7 @@ STable SParseCommandLine(int argc, char* argv[])
 const char* _SParseHTTP_GetUpToNext(const char* start, const char* lineEnd, char separator, string& out)
 {
     // Trim leading whitespace
-    while (*start == ' ') {
+    while (start < lineEnd && *start == ' ') {
         ++start;
     }
 
@@ -907,7 +907,7 @@ const char* _SParseHTTP_GetUpToNext(const char* start, const char* lineEnd, char
     const char* separatorPos = end;
 
     // Found the separator, trim off any trailing whitespace
-    while (*(end - 1) == ' ') {
+    while (end > start && *(end - 1) == ' ') {
         --end;
     }
 
@@ -927,10 +927,10 @@ const char* _SParseHTTP_GetUpToNext(const char* start, const char* lineEnd, char
 void _SParseHTTP_GetUpToEnd(const char* start, const char* end, string& out)
 {
     // Get everything up to the end of the line, triming leading and trailing whitespace
-    while (*start == ' ') {
+    while (start < end && *start == ' ') {
         ++start;
     }
-    while (*(end - 1) == ' ') {
+    while (end > start && *(end - 1) == ' ') {
         --end;
     }
     int length = (int) (end - start);
@@ -1100,12 +1100,12 @@ int SParseHTTP(const char* buffer, size_t length, string& methodLine, STable& na
                     if (!name.empty()) {
                         // The value is everything up to the end of the line,
                         // triming leading and trailing whitespace.
-                        const char* valueStart = nameEnd + 1;
+                        const char* valueStart = min(nameEnd + 1, lineEnd);
                         const char* valueEnd = lineEnd;
-                        while (*valueStart == ' ') {
+                        while (valueStart < valueEnd && *valueStart == ' ') {
                             ++valueStart;
                         }
-                        while (*(valueEnd - 1) == ' ') {
+                        while (valueEnd > valueStart && *(valueEnd - 1) == ' ') {
                             --valueEnd;
                         }
                         int valueLength = (int) (valueEnd - valueStart);
-- 
2.43.0


From 72bb279b918890be99ad5cbfac7f6fbbb68b84eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:52 +0000
Subject: [PATCH 13/30] fix: do not run a command again after its commit
 succeeded

When a node stopped leading right after a worker's commit went through,
runCommand treated it like a failed commit and retried the command, which
executes (or escalates) its writes a second time.
---
 BedrockServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index 501907d..0113585 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -782,7 +782,7 @@ void BedrockServer::runCommand(unique_ptr<BedrockCommand>&& _command, bool isBlo
                             }
                             commitSuccess = core.commit(*_syncNode, transactionID, transactionHash, command->getMethodName(), enableOnPrepareNotifications, onPrepareHandler, timeToCommit, &command->shouldAbort);
 
-                            if (getState() != SQLiteNodeState::LEADING) {
+                            if (!commitSuccess && getState() != SQLiteNodeState::LEADING) {
                                 SINFO("Stopped leading while trying to commit, will retry.");
 
                                 // Jump back to the top of the main loop but skip the check that would push this to the blocking commit queue.
-- 
2.43.0


From f4eabc80e78e43250312d8fb722b1f75d3aa88a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:36 +0000
Subject: [PATCH 14/30] fix: do not forward a command to a peer if the leader
 has already answered it

A command with escalateImmediately set can be answered by the leader just before the leader is lost. If this node is
SYNCHRONIZING by the time it checks, it sent the command to another peer, and it was run a second time.
---
 BedrockServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index 0113585..f72e5cb 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -574,7 +574,7 @@ void BedrockServer::runCommand(unique_ptr<BedrockCommand>&& _command, bool isBlo
 
     // If we happen to be synchronizing but the command port is open, which is an uncommon but possible scenario (i.e., we were momentarily disconnected from leader and need to catch back
     // up), we will forward commands to any other follower similar to if we were running as a different version from leader.
-    if (getState() == SQLiteNodeState::SYNCHRONIZING) {
+    if (!command->complete && getState() == SQLiteNodeState::SYNCHRONIZING) {
         auto _clusterMessengerCopy = _clusterMessenger;
         bool result = _clusterMessengerCopy->runOnPeer(*command, false);
         if (result) {
-- 
2.43.0


From 7dba9f80875fce6ec14a312abd0da3bf26aa332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:42 +0000
Subject: [PATCH 15/30] fix: do not deadlock or lose the connection when a
 socket thread can't be started

If the thread constructor threw, _acceptSockets called blockCommandPort, which locks _portMutex, while holding _portMutex
itself: the server never accepted another connection. Threads that end wait for the same two locks in the opposite order.
The constructor had also consumed the socket, so the retry ran without one.
---
 BedrockServer.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index f72e5cb..8627129 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -2087,7 +2087,7 @@ void BedrockServer::_acceptSockets()
 
         // Lock _portMutex so suppressing the port does not cause it to be null
         // in the middle of this function.
-        lock_guard<mutex> lock(_portMutex);
+        unique_lock<mutex> lock(_portMutex);
 
         for (auto& p : _portPluginMap) {
             portList.push_back(reference_wrapper<const unique_ptr<Port>>(p.first));
@@ -2138,14 +2138,26 @@ void BedrockServer::_acceptSockets()
                 _outstandingSocketThreads++;
                 thread t;
                 bool threadStarted = false;
+                const bool fromControlPort = port == _controlPort;
+                const bool fromPublicCommandPort = port == _commandPortPublic;
+                const bool fromPrivateCommandPort = port == _commandPortPrivate;
+
+                // The thread constructor consumes its arguments even if it fails, so the socket itself can't be one of them.
+                auto pendingSocket = make_shared<Socket>(move(socket));
                 while (!threadStarted) {
                     try {
-                        t = thread(&BedrockServer::handleSocket, this, move(socket), port == _controlPort, port == _commandPortPublic, port == _commandPortPrivate);
+                        t = thread([this, pendingSocket, fromControlPort, fromPublicCommandPort, fromPrivateCommandPort]() {
+                            handleSocket(move(*pendingSocket), fromControlPort, fromPublicCommandPort, fromPrivateCommandPort);
+                        });
                         threadStarted = true;
                     } catch (const system_error& e) {
                         // We don't care about this lock here from a performance perspective, it only happens when we
                         // are unable to do any work anyway (i.e., we can't start threads).
-                        lock_guard<mutex> lock(_newSocketThreadBlockedMutex);
+                        // `blockCommandPort` and the threads we're waiting for need `_portMutex`, so we can't keep it.
+                        if (lock.owns_lock()) {
+                            lock.unlock();
+                        }
+                        unique_lock<mutex> blockedLock(_newSocketThreadBlockedMutex);
                         if (_outstandingSocketThreads < 100) {
                             // We don't expect this to ever happen - we only seem to get `system_error` here when we
                             // have lots (thousands) of threads running. Because of this, our handling of this in
@@ -2168,6 +2180,8 @@ void BedrockServer::_acceptSockets()
                             blockCommandPort("NOT_ENOUGH_THREADS");
                         }
 
+                        blockedLock.unlock();
+
                         // We just loop until socket threads are unblocked.
                         SINFO("Waiting 1 more second for socket threads to be available.");
                         sleep(1);
@@ -2179,6 +2193,11 @@ void BedrockServer::_acceptSockets()
                     SALERT("Caught system_error in thread detach: " << e.code() << ", message: " << e.what());
                     throw;
                 }
+
+                // If we had to unlock, the ports can have been closed. We'll accept whatever is left next time.
+                if (!lock.owns_lock()) {
+                    return;
+                }
             }
         }
     } catch (const system_error& e) {
-- 
2.43.0


From d0c800448fb31393da50c360c64a9462191b0a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:42 +0000
Subject: [PATCH 16/30] fix: unblock the command port when the number of socket
 threads crosses 50

The count was decremented and then read again: two threads ending at once could both read 49, and the port stayed blocked.
---
 BedrockServer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index 8627129..85ad530 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -2462,8 +2462,8 @@ void BedrockServer::handleSocket(Socket&& socket, bool fromControlPort, bool fro
 
     // At this point out socket is closed and we can clean up.
     // Note that we never return early, we always want to hit this code and decrement our counter and clean up our socket.
-    _outstandingSocketThreads--;
-    SINFO("[performance] Socket thread complete (" << _outstandingSocketThreads << " remaining).");
+    const uint64_t remainingSocketThreads = --_outstandingSocketThreads;
+    SINFO("[performance] Socket thread complete (" << remainingSocketThreads << " remaining).");
 
     // Check to see if we need to unblock creating new socket threads. We do this each time we cross having 50 active
     // threads. We are guaranteed to hit this as the thread count decrements to 0, as _shouldBlockNewSocketThreads is
@@ -2471,7 +2471,7 @@ void BedrockServer::handleSocket(Socket&& socket, bool fromControlPort, bool fro
     // Note that if we were to start blocking the command port for NOT_ENOUGH_THREADS with less than 50 threads, we
     // will never hit this unlock case, but we only ever see this problem with thousands of threads, so we don't have
     // to try and handle that case, and don't need to lock this mutex on every thread's completion then.
-    if (_outstandingSocketThreads == 50) {
+    if (remainingSocketThreads == 50) {
         lock_guard<mutex> lock(_newSocketThreadBlockedMutex);
         if (_shouldBlockNewSocketThreads) {
             _shouldBlockNewSocketThreads = false;
-- 
2.43.0


From b0c9f4b97f49d19f3eba80812395b78848278e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:56 +0000
Subject: [PATCH 17/30] fix: a request that can't be serialized for escalation
 must not end the process

SData::serialize throws when the method line contains control characters,
and nothing between _sendCommandOnSocket and the socket thread catches it.
---
 sqlitecluster/SQLiteClusterMessenger.cpp | 30 +++++++++++++++---------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/sqlitecluster/SQLiteClusterMessenger.cpp b/sqlitecluster/SQLiteClusterMessenger.cpp
index b20cdf2..31eef38 100644
--- a/sqlitecluster/SQLiteClusterMessenger.cpp
+++ b/sqlitecluster/SQLiteClusterMessenger.cpp
@@ -144,18 +144,26 @@ bool SQLiteClusterMessenger::_sendCommandOnSocket(SHTTPSManager::Socket& socket,
     // Note that internally this is stored in microseconds, but over the wire is sent in milliseconds.
     request["timeout"] = to_string((command.timeout() - STimeNow()) / 1000);
 
-    // If the command has https requests, we serialize them to escalate. In this case we also check if the command has data
-    // that needs serialization, and if so, we serialize that as well.
-    if (command.httpsRequests.size()) {
-        request["httpsRequests"] = command.serializeHTTPSRequests();
-    }
-    string serializedData = command.serializeData();
-    if (serializedData.size()) {
-        request["serializedData"] = move(serializedData);
-    }
+    SFastBuffer buf;
+    try {
+        // If the command has https requests, we serialize them to escalate. In this case we also check if the command has data
+        // that needs serialization, and if so, we serialize that as well.
+        if (command.httpsRequests.size()) {
+            request["httpsRequests"] = command.serializeHTTPSRequests();
+        }
+        string serializedData = command.serializeData();
+        if (serializedData.size()) {
+            request["serializedData"] = move(serializedData);
+        }
 
-    request.nameValueMap["ID"] = command.id;
-    SFastBuffer buf(request.serialize());
+        request.nameValueMap["ID"] = command.id;
+        buf = request.serialize();
+    } catch (const exception& e) {
+        // This can't be sent to anyone (i.e., the method line contains control characters), so there's no point in retrying.
+        SWARN("[HTTPESC] Can't serialize '" << command.request.getVerb() << "' for escalation: " << e.what());
+        setErrorResponse(command);
+        return false;
+    }
 
     // We only have one FD to poll.
     pollfd fdspec = {socket.s, POLLOUT, 0};
-- 
2.43.0


From b5ac418c3f1589a8627e38d433cedb3b293e9dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:22 +0000
Subject: [PATCH 18/30] fix: don't escalate a command that has already timed
 out with a wrapped-around timeout

---
 sqlitecluster/SQLiteClusterMessenger.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sqlitecluster/SQLiteClusterMessenger.cpp b/sqlitecluster/SQLiteClusterMessenger.cpp
index 31eef38..392d590 100644
--- a/sqlitecluster/SQLiteClusterMessenger.cpp
+++ b/sqlitecluster/SQLiteClusterMessenger.cpp
@@ -142,7 +142,13 @@ bool SQLiteClusterMessenger::_sendCommandOnSocket(SHTTPSManager::Socket& socket,
 
     // Compute the remaining time left before timeout, and set the timeout for the escalated command to match.
     // Note that internally this is stored in microseconds, but over the wire is sent in milliseconds.
-    request["timeout"] = to_string((command.timeout() - STimeNow()) / 1000);
+    // Both are unsigned, so don't send the wrapped-around difference of a command that's already timed out.
+    const uint64_t now = STimeNow();
+    if (command.timeout() <= now) {
+        SINFO("[HTTPESC] Command timed out before it could be sent.");
+        return false;
+    }
+    request["timeout"] = to_string((command.timeout() - now) / 1000);
 
     SFastBuffer buf;
     try {
-- 
2.43.0


From 8cd4f108d544bc35d4c61034e185cc7f07c7959c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:28 +0000
Subject: [PATCH 19/30] fix: answer a command that can't get a thread to run on

If the thread constructor threw, the command was destroyed without an answer, after the callback it calls on destruction.
---
 BedrockServer.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index 85ad530..b6f33d8 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -2416,11 +2416,22 @@ void BedrockServer::handleSocket(Socket&& socket, bool fromControlPort, bool fro
                             // Running the command in a separate thread allows this thread to poll the client socket and if it is
                             // disconnected, abort the command.
                             atomic<bool>& commandShouldAbortFlag = command->shouldAbort;
-                            thread commandThread(
-                                [&]() {
-                                SInitialize(threadName + "_cmd");
-                                runCommand(move(command));
-                            });
+                            thread commandThread;
+                            try {
+                                commandThread = thread(
+                                    [&]() {
+                                    SInitialize(threadName + "_cmd");
+                                    runCommand(move(command));
+                                });
+                            } catch (const system_error& e) {
+                                // Nobody will run this command, so we answer it. `callback` will be gone before the command is.
+                                SALERT("Can't start a thread to run '" << command->request.methodLine << "': " << e.what());
+                                command->destructionCallback = nullptr;
+                                command->response.methodLine = "500 Internal Server Error";
+                                command->complete = true;
+                                _reply(command);
+                                continue;
+                            }
 
                             // Now that the command is running, we wait for it to complete (if it has a socket, and hasn't finished by the time we get to this point).
                             // When this happens, destructionCallback fires, sets `finished` to true, and we can move on to the next request.
-- 
2.43.0


From ea04f85b4e1672ed6d9dd5da60cd2bd5cbf159f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:52 +0000
Subject: [PATCH 20/30] fix: abandoning future commands also removes their
 entries from the timeout index

---
 BedrockCommandQueue.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/BedrockCommandQueue.cpp b/BedrockCommandQueue.cpp
index a64016b..e3d7f16 100644
--- a/BedrockCommandQueue.cpp
+++ b/BedrockCommandQueue.cpp
@@ -143,6 +143,16 @@ void BedrockCommandQueue::abandonFutureCommands(int msInFuture)
     auto it = _queue.lower_bound(timeLimit);
     size_t numberToErase = distance(it, _queue.end());
     if (numberToErase) {
+        // Each of these commands also has an entry in the timeout index, which has to go with it.
+        for (auto erased = it; erased != _queue.end(); erased++) {
+            auto matchingTimeoutIterators = _lookupByTimeout.equal_range(erased->second.timeout);
+            for (auto timeoutIt = matchingTimeoutIterators.first; timeoutIt != matchingTimeoutIterators.second; timeoutIt++) {
+                if (timeoutIt->second == erased->first) {
+                    _lookupByTimeout.erase(timeoutIt);
+                    break;
+                }
+            }
+        }
         _queue.erase(it, _queue.end());
         SINFO("Erased " << numberToErase << " commands scheduled more than " << msInFuture << "ms in the future.");
     }
-- 
2.43.0


From 939f0def349bd6989ed17298e434ccbc0a6ccc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:20 +0000
Subject: [PATCH 21/30] fix: bind text parameters up to their first NUL, as the
 replicated SQL does

---
 libstuff/libstuff.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index 1fd5d5a..4a8fbbc 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -2923,8 +2923,10 @@ int SQuery(sqlite3* db, const string& sql, SQResult& result, int64_t warnThresho
 
                         case SQliteParameter::Type::Text:
                             // SQLITE_STATIC: the bytes are owned by `params` and stable until SQuery returns.
-                            bindResult = sqlite3_bind_text(preparedStatement, paramIndex, p.stringValue.data(),
-                                                           (int) p.stringValue.size(), SQLITE_STATIC);
+                            // Text ends at its first NUL, as it does in the expanded SQL below: binding the bytes
+                            // after it would store a value here that the replicated query can't reproduce.
+                            bindResult = sqlite3_bind_text(preparedStatement, paramIndex, p.stringValue.c_str(),
+                                                           (int) strlen(p.stringValue.c_str()), SQLITE_STATIC);
                             break;
 
                         case SQliteParameter::Type::Blob:
-- 
2.43.0


From 0b91464b5dafb1ab00fb966d123226d35c186b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:11 +0000
Subject: [PATCH 22/30] fix: don't leak the socket when setting up TLS for it
 fails

---
 libstuff/STCPManager.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/libstuff/STCPManager.cpp b/libstuff/STCPManager.cpp
index 037c16e..79fcacb 100644
--- a/libstuff/STCPManager.cpp
+++ b/libstuff/STCPManager.cpp
@@ -200,15 +200,21 @@ STCPManager::Socket::Socket(const string& host, bool https)
 {
     SASSERT(SHostIsValid(host));
     s = S_socket(host, true, false, false);
+    if (s < 0) {
+        STHROW("Couldn't open socket to " + host);
+    }
+
     if (https) {
-        ssl = new SSSLState(host, s);
+        // The destructor doesn't run if we throw here, so nobody else would close the socket.
+        try {
+            ssl = new SSSLState(host, s);
+        } catch (...) {
+            S_close(&s);
+            throw;
+        }
     } else {
         ssl = nullptr;
     }
-
-    if (s < 0) {
-        STHROW("Couldn't open socket to " + host);
-    }
 }
 
 STCPManager::Socket::Socket(Socket&& from)
-- 
2.43.0


From 0fe7a899636cadd35e8625d2a10f7bb70037c6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:11 +0000
Subject: [PATCH 23/30] fix: close an accepted socket that can't be made
 non-blocking

---
 libstuff/libstuff.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index 4a8fbbc..eed338b 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -2163,6 +2163,7 @@ int S_accept(int port, sockaddr_in& fromAddr, bool isBlocking)
             // Set non-blocking
             int flags = fcntl(s, F_GETFL);
             if ((flags < 0) || fcntl(s, F_SETFL, flags | O_NONBLOCK)) {
+                S_close(&s);
                 STHROW("couldn't set non-blocking");
             }
         }
-- 
2.43.0


From 4dcd91ffdb0a2b3628b69b881db4d98cf02485ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:00 +0000
Subject: [PATCH 24/30] fix: close and unmap the file VMTouch checked

---
 VMTouch.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/VMTouch.cpp b/VMTouch.cpp
index fa28dc7..0ca1b82 100644
--- a/VMTouch.cpp
+++ b/VMTouch.cpp
@@ -176,6 +176,10 @@ void VMTouch::check(const char* path, bool touch, bool verbose)
         }
 
         free(mincore_array);
+        if (munmap(mem, len_of_file)) {
+            SWARN("unable to munmap file " << path << " (" << strerror(errno) << ")");
+        }
+        close(fd);
     } catch (const SException& e) {
         if (mem) {
             if (munmap(mem, len_of_file)) {
-- 
2.43.0


From 8633b514a790f1fa496606fa5bd98db5ac32d68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:52 +0000
Subject: [PATCH 25/30] fix: don't count the proxy tunnel as set up when TLS
 could not be

---
 libstuff/SHTTPSProxySocket.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libstuff/SHTTPSProxySocket.cpp b/libstuff/SHTTPSProxySocket.cpp
index 97d8d9e..065fa51 100644
--- a/libstuff/SHTTPSProxySocket.cpp
+++ b/libstuff/SHTTPSProxySocket.cpp
@@ -103,7 +103,6 @@ bool SHTTPSProxySocket::recv()
                 if (!connectionEstablished.empty()) {
                     // Basic checking that we got back a 200.
                     if (SContains(connectionEstablished.methodLine, " 200 ")) {
-                        proxyNegotiationComplete = true;
                         recvBuffer.clear();
 
                         // We create this here, rather than in the constructor or somewhere that seems more reasonable, because
@@ -115,6 +114,9 @@ bool SHTTPSProxySocket::recv()
                         // stream of packets in a way that really made sense. It's also just sort of strange looking, so we just
                         // wait to start the TLS handshake until the CONNECT message is complete and its response is received.
                         ssl = new SSSLState(hostname, s);
+
+                        // Only now: if setting up TLS throws, there's nothing to send or receive with.
+                        proxyNegotiationComplete = true;
                     } else {
                         SWARN("Proxy server " << proxyAddress << " returned methodLine: " << connectionEstablished.methodLine);
                         close(s);
-- 
2.43.0


From 8bfe72412a205721b042082104d71f094d62842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:05 +0000
Subject: [PATCH 26/30] fix: CancelJob resumes the parent only if it is paused

Cancelling a FAILED or CANCELLED child of a parent that had already been
resumed set the parent from RUNNING (or FAILED) back to QUEUED, so that it
was handed out a second time.
---
 plugins/Jobs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/Jobs.cpp b/plugins/Jobs.cpp
index 5fdd67a..182f350 100644
--- a/plugins/Jobs.cpp
+++ b/plugins/Jobs.cpp
@@ -1359,7 +1359,7 @@ void BedrockJobsCommand::process(SQLite& db)
         }
         if (SToInt64(result[0][0]) == 0) {
             SINFO("Cancelled last QUEUED child, resuming the parent: " << safeParentJobID);
-            if (!db.writeIdempotent("UPDATE jobs SET state='QUEUED' WHERE jobID=" + safeParentJobID + ";")) {
+            if (!db.writeIdempotent("UPDATE jobs SET state='QUEUED' WHERE jobID=" + safeParentJobID + " AND state='PAUSED';")) {
                 STHROW("502 Failed to update job data");
             }
         }
-- 
2.43.0


From 45a80955eec6d8a5753aebba37a699838e7fa906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:05 +0000
Subject: [PATCH 27/30] fix: finish a scheduled job with retryAfter that has no
 originalNextRun

Without originalNextRun in its data (a manual job, or data replaced by
UpdateJob while it ran) the next run was computed from the empty string,
which is NULL, so that the update failed and the job could not be finished.
---
 plugins/Jobs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/Jobs.cpp b/plugins/Jobs.cpp
index 182f350..7935f86 100644
--- a/plugins/Jobs.cpp
+++ b/plugins/Jobs.cpp
@@ -1257,7 +1257,7 @@ void BedrockJobsCommand::process(SQLite& db)
             // Except for jobs with 'retryAfter' + 'repeat' based on `SCHEDULED`. With 'retryAfter', in GetJob we updated 'nextRun'
             // to a failure check interval, eg 5 minutes. To account for this here when finishing the job, we use
             // 'originalNextRun' from the 'data' to get back the originally scheduled time which was 'nextRun' when the job ran.
-            if (!retryAfter.empty() && SToUpper(repeat).find("SCHEDULED") != string::npos) {
+            if (!retryAfter.empty() && !originalDataNextRun.empty() && SToUpper(repeat).find("SCHEDULED") != string::npos) {
                 lastScheduled = originalDataNextRun;
             }
             safeNewNextRun = _constructNextRunDATETIME(db, lastScheduled, lastRun, repeat);
-- 
2.43.0


From a6ea72e0379a2bebb07dfa2f4fdb7a9bad3536b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:05 +0000
Subject: [PATCH 28/30] fix: GetJob returns every job without retryAfter that
 it sets running

A job without retryAfter whose data has a retryAfterCount of 10 or more was
set to RUNNING but left out of the answer, so that nobody would run it.
---
 plugins/Jobs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/Jobs.cpp b/plugins/Jobs.cpp
index 7935f86..eb4174f 100644
--- a/plugins/Jobs.cpp
+++ b/plugins/Jobs.cpp
@@ -936,7 +936,7 @@ void BedrockJobsCommand::process(SQLite& db)
             }
 
             STable jobData = SParseJSONObject(job["data"]);
-            if (SToInt(jobData["retryAfterCount"]) >= 10) {
+            if (result[c][4] != "" && SToInt(jobData["retryAfterCount"]) >= 10) {
                 // We will fail this job, don't return it.
                 continue;
             }
-- 
2.43.0


From 67622b90e0e1090591cd46d4848fb337424c9cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:00 +0000
Subject: [PATCH 29/30] fix: GetJob does not return a job that it just failed

A job whose retryAfter update failed was set to FAILED, but still handed out
to the worker, which then could neither finish nor retry it.
---
 plugins/Jobs.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plugins/Jobs.cpp b/plugins/Jobs.cpp
index eb4174f..a8055ce 100644
--- a/plugins/Jobs.cpp
+++ b/plugins/Jobs.cpp
@@ -954,6 +954,7 @@ void BedrockJobsCommand::process(SQLite& db)
             }
         }
 
+        set<string> failedJobIDs;
         if (!retriableJobs.empty()) {
             for (auto job : retriableJobs) {
                 SDEBUG("Updating job with retryAfter " << job["jobID"]);
@@ -989,15 +990,22 @@ void BedrockJobsCommand::process(SQLite& db)
                 try {
                     if (!db.writeIdempotent(updateQuery)) {
                         _handleFailedRetryAfterQuery(db, job["jobID"]);
+                        failedJobIDs.insert(job["jobID"]);
                         continue;
                     }
                 } catch (const SQLite::constraint_error& e) {
                     _handleFailedRetryAfterQuery(db, job["jobID"]);
+                    failedJobIDs.insert(job["jobID"]);
                     continue;
                 }
             }
         }
 
+        // Don't return the jobs that we just failed
+        jobList.remove_if([&](const string& job) {
+            return failedJobIDs.count(SParseJSONObject(job)["jobID"]);
+        });
+
         // Format the results as is appropriate for what was requested
         if (SIEquals(requestVerb, "GetJob")) {
             // Single response
-- 
2.43.0


From 4febf36c849ba039fb9bc13cf6f4b6edb89ced0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:40 +0000
Subject: [PATCH 30/30] fix: keep the size of the cache right when an entry is
 overwritten

INSERT OR REPLACE fires the delete trigger of the row it replaces only where
recursive_triggers is on, and that is set on one database handle only. On all
others the recorded size grew with each overwrite until every entry was evicted.
---
 plugins/Cache.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plugins/Cache.cpp b/plugins/Cache.cpp
index 1247660..333416a 100644
--- a/plugins/Cache.cpp
+++ b/plugins/Cache.cpp
@@ -288,9 +288,10 @@ void BedrockCacheCommand::process(SQLite& db)
 
         // Insert the new entry
         const string& safeValue = SQ(valueHeader.empty() ? request.content : valueHeader);
-        if (!db.write("INSERT OR REPLACE INTO cache ( name, value ) "
+        if (!db.write("INSERT INTO cache ( name, value ) "
                       "VALUES( " +
-                      SQ(name) + ", " + safeValue + " );")) {
+                      SQ(name) + ", " + safeValue + " ) "
+                                                    "ON CONFLICT(name) DO UPDATE SET value=excluded.value;")) {
             STHROW("502 Query failed (inserting)");
         }
 
-- 
2.43.0

