"""The property table: statement, anchors, and how static analysis decides it."""

def P(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
            "anchors": a, "technique": technique, "level_note": note}


BASE = "Sound for the modelled control flow (explicit throws, may-throw calls, scope-exit destructors) of the current source; trusts clang's resolution and the axioms in sa/core.py; does not execute the program. "

PROPS = [
    P("C01", "The global commit lock is held exactly for the commit section",
      "A database handle owns the process-wide commit lock from an exclusive begin or a successful prepare until the commit succeeds or the transaction is rolled back, and at no other time. "
      "Every other outcome (failed or invalid begin, failed or aborted prepare, exception, destruction of the handle) leaves the lock released, and the handle's own record of ownership always agrees with reality. "
      "A failed commit keeps the lock until the rollback.",
      ["histories", "schedules", "fault_sequences"], "every sequence of begin/prepare/commit/rollback/destroy on a handle, with every call allowed to fail or throw",
      "Tests only drive successful transactions and simple conflicts through a whole server (which cannot even start here without SQLite); no test makes BEGIN fail, aborts a prepare after the lock was acquired, or destroys a handle mid-transaction.",
      ["sqlitecluster/SQLite.cpp", "sqlitecluster/SQLite.h"],
      [("beginTransaction / prepare acquire", "sqlitecluster/SQLite.cpp"), ("commit / rollback release", "sqlitecluster/SQLite.cpp")],
      "path-sensitive lock typestate (inlined CFG with exceptional edges) relating the real lock count to the handle's flag at every exit",
      BASE + "Covers every public method of the handle from every consistent starting state."),
    P("C02", "Journal rows form one gapless chain of numbers and hashes",
      "Every transaction prepared by a handle is journalled, and handed to replication, under the number commit count + 1, with the query it accumulated and with the hash SHA1(last committed hash + query), where count and hash are read while the commit lock is held. "
      "prepare reports success only if that row was written. The shared commit count, last hash and list of committed transactions advance together, once per successful COMMIT, before the commit lock is released, and each committed transaction is handed to the replicator exactly once.",
      ["histories", "schedules", "inputs"], "every interleaving of prepares and commits on any number of handles",
      "Concurrent prepares that read the count or hash before getting the lock still produce a good chain in a single-threaded test.",
      ["sqlitecluster/SQLite.cpp"],
      [("prepare: number, hash, row", "sqlitecluster/SQLite.cpp"), ("SharedData::incrementCommit / popCommittedTransactions", "sqlitecluster/SQLite.cpp")],
      "value-origin (taint) analysis plus path-sensitive ordering of reads, lock acquisition and journal writes",
      BASE),
    P("C03", "Everything a transaction executes is what gets replicated",
      "A write runs only inside a transaction. If it succeeds and changed a row or the schema (or must always be kept), the text that was actually executed, with bound parameters expanded and including a rewritten form, is appended exactly once, in execution order, to the query that is journalled and replicated; a failed write appends nothing. "
      "Every public replicated write goes through that one path with its own query and parameters. Changes of no-op mode inside a transaction are replicated too. The accumulated query is emptied by a successful commit and by a rollback and by nothing else, and unreplicated writes never run inside a transaction or leave their own open.",
      ["inputs", "histories"], "every sequence of writes, rewrites, failures and retries on a handle",
      "Followers replay the text later; a dropped or duplicated statement only shows as a fork much later, on data no unit test writes.",
      ["sqlitecluster/SQLite.cpp", "libstuff/libstuff.cpp"],
      [("SQLite::_writeIdempotent", "sqlitecluster/SQLite.cpp"), ("SQuery expandedSql", "libstuff/libstuff.cpp")],
      "path-sensitive dataflow from executed statements to the replicated query; who-may-write closure over the call graph", BASE),
    P("C04", "The read cache never returns a result the query would not give now",
      "A result enters a handle's read cache only for a successful, parameterless query that ran inside the open transaction and called no function whose value can differ between calls (random, randomblob, date and time functions, changes, total_changes, last_insert_rowid, ...). "
      "It is used only for the same parameterless query text, and the cache is emptied by every begin, write, commit, rollback and authorizer change.",
      ["inputs", "histories"], "every sequence of reads and writes on a handle, every query text",
      "A stale cached row needs the same query twice around a particular write or in a particular transaction; no passing test executes SQL at all.",
      ["sqlitecluster/SQLite.cpp"], [("SQLite::read cache", "sqlitecluster/SQLite.cpp"), ("SQLite::_authorize determinism mark", "sqlitecluster/SQLite.cpp")],
      "must-analysis of facts at cache insertions and hits; must-clear analysis per operation; per-function-name decision of the authorizer", BASE),
    P("C05", "Access control is deny by default and cannot be bypassed",
      "Every handle installs the authorizer callback, which forwards every action to one decision. With a whitelist set, every action other than SELECT, ANALYZE and function calls is denied, except reading schema_version and reading listed columns of listed tables. "
      "A refusal of an installed custom authorizer always stands. Functions whose value differs between nodes (current_timestamp, current_date, current_time, random, randomblob, last_insert_rowid, changes, total_changes, sqlite_version) are refused while a replicated write runs, and the marks saying a write (or its rewritten form) is running are cleared on every way out of the write.",
      ["inputs"], "every action code, table, column and function name; every way out of a write",
      "46 action codes times modes; tests try a handful of queries against one whitelist.",
      ["sqlitecluster/SQLite.cpp"], [("SQLite::_authorize", "sqlitecluster/SQLite.cpp"), ("SQLite::_writeIdempotent marks", "sqlitecluster/SQLite.cpp")],
      "case analysis: one path-sensitive walk of the decision function's control-flow graph per action code and function name", BASE),
    P("C06", "Blocking writes really blocks every write, and always ends",
      "Every statement of a handle that can change the database, including journal trims, rewritten queries and unreplicated writes, runs while the handle holds the shared write lock or the commit lock; exclusiveLockDB takes the commit lock and then the write lock exclusively, exclusiveUnlockDB releases both. "
      "No method waits for the commit lock while holding the write lock or returns with the write lock held. Code that locks the database exclusively releases it on every way out and calls nothing in between that needs those locks; BlockWrites reports success only once the lock is held and never waits for a thread that cannot report.",
      ["schedules", "fault_sequences"], "all interleavings of writers, committers and exclusive lockers",
      "A write outside the lock or a reversed lock order only matters under one interleaving with an exclusive locker.",
      ["sqlitecluster/SQLite.cpp", "BedrockServer.cpp", "sqlitecluster/SQLiteNode.cpp"],
      [("_writeIdempotent / prepare / writeLocalUnreplicated", "sqlitecluster/SQLite.cpp"), ("exclusiveLockDB callers", "sqlitecluster/SQLiteNode.cpp"), ("BlockWrites", "BedrockServer.cpp")],
      "lockset and lock-order analysis over inlined control-flow graphs; typestate of the exclusive lock in its callers", BASE),
    P("C07", "No commit happens once commits have been disabled",
      "COMMIT runs only in a transaction that was prepared, and only after the commit gate was found open; a closed gate makes commit fail without touching the transaction. The gate is moved only by its setter while it holds the commit lock, so after commits were disabled no commit can still be in progress, and a request to move it is never lost. "
      "commit returns COMMIT's own result, the commit count advances only if COMMIT succeeded, no other code commits a handle's transaction, and no caller ignores the result.",
      ["schedules", "histories"], "all interleavings of commits and standing down",
      "A commit slipping past standing down (a fork) needs the gate to close between a test and a COMMIT.",
      ["sqlitecluster/SQLite.cpp", "sqlitecluster/SQLiteNode.cpp", "sqlitecluster/SQLiteCore.cpp"],
      [("SQLite::commit gate", "sqlitecluster/SQLite.cpp"), ("SharedData::setCommitEnabled", "sqlitecluster/SQLite.cpp")],
      "must-fact analysis at COMMIT, lockset at gate writes, call-graph closure of committers", BASE),
    P("C08", "After-commit work runs once per commit, off the lock, and is contained",
      "After every successful COMMIT, and only then, each after-commit callback runs exactly once, after the commit lock was released; an exception from one does not stop the others or escape. The pre-checkpoint callback, if given, runs once after them and before any checkpoint. "
      "A checkpoint runs outside the commit lock, only by the thread that claimed the checkpoint mark, which is cleared on every way out and never by anybody else. The count of open transactions changes exactly as handles open and close transactions.",
      ["schedules", "fault_sequences"], "every outcome of commit and every throwing callback",
      "Tests would need a throwing callback between others, or two commits racing for the checkpoint.",
      ["sqlitecluster/SQLite.cpp"], [("SQLite::commit tail", "sqlitecluster/SQLite.cpp"), ("runAfterCommitCallbacks", "sqlitecluster/SQLite.cpp")],
      "path-sensitive event-order automaton with exceptional edges; claim typestate; counter balance", BASE),
]

PROPS += [
    P("C10", "A node's mutable state is only touched under its state lock",
      "Every access to the node's non-atomic mutable state (port, unauthenticated sockets, state-change count, state timeout, sync peer, replication thread, startup flags, last sent transaction unless atomic) happens while the state lock is held, exclusively if the access modifies it; the replication queue is only touched under the replication lock. "
      "No thread acquires either lock while it already holds it, and no method ends with one of them still locked. Construction, destruction and kill() are exempt.",
      ["schedules"], "every thread that can enter the node: sync thread, workers, replication and SYNCHRONIZE threads, public API callers",
      "A missing lock needs two threads in the same few instructions; the tests build single-threaded nodes.",
      ["sqlitecluster/SQLiteNode.cpp", "sqlitecluster/SQLiteNode.h"], [("state lock rules in the class comment", "sqlitecluster/SQLiteNode.h"), ("_replicateQueue", "sqlitecluster/SQLiteNode.cpp")],
      "interprocedural lockset analysis: lock contexts propagated over the call graph (threads start with none), guarded-by check at every access", BASE),
    P("C40", "Shared data of the server and its libraries is guarded by its mutex",
      "Every access outside construction and destruction to these shared structures happens with their mutex held (exclusively if it modifies them, where the mutex can be shared): command queue and its timeout index, blocking-queue state map and per-identifier state, parked future commands, command ports and block reasons, crash commands, conflict statistics, conflict-lock tables, socket pools, synchronized queues, peers' sockets, sockets' send buffers, handle-pool indices, shared transaction lists, cache LRU, crashed-job patterns, the atomic string.",
      ["schedules"], "every thread and every call path",
      "Unguarded accesses corrupt only when two threads collide.",
      ["BedrockServer.cpp", "BedrockCommandQueue.cpp", "BedrockBlockingCommandQueue.cpp", "BedrockConflictManager.cpp", "ConflictLockGuard.cpp", "libstuff/SSocketPool.cpp", "libstuff/STCPManager.cpp", "sqlitecluster/SQLitePeer.cpp", "sqlitecluster/SQLitePool.cpp", "plugins/Cache.cpp"],
      [("guarded-by table", "sa/rules/locking.py of the checker")],
      "interprocedural lockset analysis against a guarded-by table", BASE),
    P("C41", "Locks are always taken in one order and never left behind",
      "The order in which mutexes (state lock, peer, socket, commit and write locks, queues, pools, conflict locks, ports, ...) are waited for while others are held contains no cycle over the whole program, including through plugin callbacks and replies; a mutex that is not recursive is never waited for by a thread that may hold it; "
      "and no function outside the documented lock/unlock pairs ends, normally or by exception, with a mutex it locked.",
      ["schedules"], "every pair of threads and call paths",
      "A deadlock needs two threads to meet in opposite orders; tests that pass have not met it.",
      ["BedrockServer.cpp", "ConflictLockGuard.cpp", "sqlitecluster/SQLiteNode.cpp", "sqlitecluster/SQLite.cpp", "libstuff/STCPManager.cpp", "libstuff/SSocketPool.cpp"],
      [("all blocking acquisitions", "whole program")],
      "interprocedural lock-order graph with per-path locksets; cycle and self-edge search", BASE + "Locks are distinguished by the field they are declared as, not by instance. "),
    P("C43", "A waiting thread never misses its wake-up",
      "For the command queue, the handle pool, the replication queue, and the socket pool's reaper: every change that lets a waiter proceed (a pushed command, a returned handle, a queued transaction, the exit marks, the first pooled socket) is made under the mutex the waiter waits with and is followed on every path by a notification before the function ends or joins the waiter, and every wait re-checks its condition in a loop or predicate. "
      "A synchronized queue's push makes its pipe readable after the item is in; publishing a slot of the log ring buffer notifies the consumer afterwards.",
      ["schedules"], "every interleaving of waiters and notifiers",
      "A lost wake-up shows only when the change falls between a waiter's test and its wait.",
      ["BedrockCommandQueue.cpp", "sqlitecluster/SQLitePool.cpp", "sqlitecluster/SQLiteNode.cpp", "libstuff/SSocketPool.cpp", "libstuff/SSynchronizedQueue.h", "libstuff/SRingBuffer.h"],
      [("push / notify", "BedrockCommandQueue.cpp"), ("_replicateCV", "sqlitecluster/SQLiteNode.cpp"), ("_poolCV", "libstuff/SSocketPool.cpp")],
      "path-sensitive must-notify-after-change automaton plus lockset at the change", BASE),
]

CASES = "Peers are abstracted to the finite classes their fields can put them in, loops over the peers are summarised per class, and every decision is compared with a specification for every population of up to 3 peers (thorough: 4); loops of an unknown form are reported as undecided. "
NODEF = ["sqlitecluster/SQLiteNode.cpp", "sqlitecluster/SQLiteNode.h", "sqlitecluster/SQLitePeer.cpp"]

PROPS += [
    P("C11", "Leaving leadership turns commits off, then sends everything unsent",
      "Every state change goes through _changeState, which stores the new state, advances the state change count and broadcasts the STATE message once, between one lock and one unlock of the database. "
      "Leaving LEADING or STANDINGDOWN first disables commits, then sends every outstanding transaction, then unsubscribes every peer. Commits stay disabled while SEARCHING and are enabled in every other state. "
      "Leaving FOLLOWING first tells the replication thread to exit, wakes it, joins it and drops what is left of its queue. A node that starts LEADING drops the old list of committed transactions and takes its current commit count as the last one sent. A node that neither subscribes nor follows has no lead peer. A change to the state the node is already in does nothing.",
      ["schedules", "histories"], "all 81 pairs of old and new state, with and without forked peers",
      "A transaction committed between the last send and the state change forks the cluster; it needs a worker's commit to fall into a window of microseconds.",
      NODEF, [("_changeState", "sqlitecluster/SQLiteNode.cpp"), ("_sendOutstandingTransactions", "sqlitecluster/SQLiteNode.cpp")],
      "case exploration of _changeState's control-flow graph for every state pair: event order automaton", BASE),
    P("C12", "Leading needs half of the full peers; nobody leads without approval",
      "A node leads only if it stood up and at least half of all full (non-permafollower) peers are logged in and have approved, no full peer is missing an answer or has denied, and no other peer leads; alone in the cluster it leads at once. It leaves SEARCHING only while half of the full peers are logged in and a logged-in peer that has not forked exists (to SYNCHRONIZING if one has more commits, else WAITING). "
      "A waiting node stands up only with quorum, no leader among the peers, the highest priority of the logged-in full peers, a priority above zero and no missing commits, after forgetting old answers; it subscribes only to a peer that leads. A follower leaves a leader that no longer leads. "
      "A leading node that loses half of its full peers stops leading at once; it stands down when another peer leads or stands up, a waiting peer has a higher priority, or on shutdown, and standing down ends in SEARCHING. Commits are fetched only from a logged-in, unforked peer with more commits. A node that has forked from at least half of the voting cluster terminates. "
      "A majority of followers means at least half of all full peers are subscribed. A priority change is refused if it is negative, reserved, already used by a logged-in peer, or would break quorum.",
      ["histories", "fault_sequences", "configurations"], "every cluster of up to 3 (thorough: 4) peers in every combination of permafollower, logged in, forked, priority, state, commits and standup answer",
      "An off-by-one in quorum arithmetic shows only in particular cluster sizes with particular peers down.",
      NODEF, [("update", "sqlitecluster/SQLiteNode.cpp"), ("_onDisconnect", "sqlitecluster/SQLiteNode.cpp"), ("_dieIfForkedFromCluster", "sqlitecluster/SQLiteNode.cpp"), ("setPriority", "sqlitecluster/SQLiteNode.cpp")],
      "case exploration: peer-class loop summaries composed over all populations, compared with an independent specification of each decision", BASE + CASES),
    P("C13", "A forked peer is marked, shunned and never obeyed",
      "A peer that logs in with a hash that differs from ours for a commit we have is marked as forked, told so, and not logged in; a peer that agrees with us, or has more commits than we do, is not marked. Nothing but PING and PONG is sent to a forked peer and every other message it sends is ignored until it reconnects. "
      "Whenever a peer is marked as forked we check at once whether we have lost the cluster. A node that learns that its leader, or the peer it is synchronizing from, has forked from it drops that peer and goes SEARCHING; other peers' forks leave its leader and state alone.",
      ["histories", "inputs"], "every message method, every population of up to 2 peers, every relation of commit counts and hashes",
      "Tests have no forked clusters: producing one takes two databases with different histories.",
      NODEF, [("_onMESSAGE LOGIN / FORKED", "sqlitecluster/SQLiteNode.cpp"), ("_sendToPeer / _sendToAllPeers", "sqlitecluster/SQLiteNode.cpp")],
      "case exploration of sending and receiving per message method; must-follow automaton for the fork check", BASE + CASES),
    P("C14", "A standup request gets one answer, and only answers to it count",
      "A peer that announces STANDINGUP, by STATE or LOGIN, is answered with exactly one STANDUP_RESPONSE that echoes its StateChangeCount. The answer is deny if we are STANDINGUP, LEADING or STANDINGDOWN, if any other peer is, or if the peer is a permafollower; otherwise approve. When we contend with it, a higher-priority peer makes us give way (STANDINGUP to SEARCHING, LEADING to STANDINGDOWN), and a leader without a majority of subscribed followers goes SEARCHING. "
      "A STANDUP_RESPONSE is recorded only while STANDINGUP and only if it carries our current StateChangeCount; it is recorded as approval exactly if it says approve, else as a denial, and for the peer that sent it.",
      ["histories", "schedules"], "our state, the peer's priority and type, the states of up to two other peers, old and current attempts",
      "Two nodes standing up at once, or an answer that arrives one attempt late, is a race between network messages.",
      NODEF, [("_sendStandupResponse", "sqlitecluster/SQLiteNode.cpp"), ("_onMESSAGE STANDUP_RESPONSE", "sqlitecluster/SQLiteNode.cpp")],
      "case exploration of sender and receiver against a decision table", BASE + CASES),
    P("C15", "A replicated transaction is applied exactly as the leader committed it",
      "A TRANSACTION message, or a COMMIT in a synchronization, is committed only if it is the next commit number, after its unmodified content was written and prepared, and only if the resulting hash is the announced one; if everything checks out it is committed. TRANSACTION is applied only while FOLLOWING and queued in the order received, exactly once, unless the node is about to stop following; synchronized commits are applied only from the sync peer while SYNCHRONIZING or from the leader while SUBSCRIBING. "
      "Nothing more is applied after a commit that failed. A synchronization succeeds only if it applied exactly the promised number of commits; if it fails, no transaction stays open.",
      ["inputs", "histories", "fault_sequences"], "every combination of announced number, hash, failing step, state and sender",
      "A wrong hash, a gap or a failing step in the middle of a synchronization never occurs in a healthy test cluster.",
      NODEF, [("_replicate", "sqlitecluster/SQLiteNode.cpp"), ("_recvSynchronize", "sqlitecluster/SQLiteNode.cpp"), ("_handleBegin/Prepare/CommitTransaction", "sqlitecluster/SQLiteNode.cpp")],
      "case exploration of the apply paths (scenario valuation of every check), value-flow from message content to write, exception-aware transaction typestate", BASE),
    P("C16", "Followers get every commit once and in order",
      "Each committed transaction is broadcast to the subscribed followers exactly once, in commit order, and the last-sent number advances with it; both LEADING and STANDINGDOWN send what is outstanding in every update, and committed transactions are taken off their list only to be sent or when the node does not lead. "
      "A synchronization response holds exactly the commits after the peer's own, consecutively numbered with hash and query, up to the last one sent if we lead (else up to our commit count); a peer with more commits or another hash gets none, and a short read is an error. A peer becomes subscribed only when a LEADING node handles its SUBSCRIBE, after all missing commits were collected and SUBSCRIPTION_APPROVED was sent.",
      ["histories", "schedules"], "every message and state, peers behind by 0 to 3 commits, outstanding lists of 0 to 2 transactions",
      "A duplicated or skipped commit needs a commit to land while a follower subscribes.",
      NODEF, [("_sendOutstandingTransactions", "sqlitecluster/SQLiteNode.cpp"), ("_queueSynchronize", "sqlitecluster/SQLiteNode.cpp"), ("_onMESSAGE SUBSCRIBE", "sqlitecluster/SQLiteNode.cpp")],
      "case exploration with symbolic message contents (headers as tokens)", BASE),
    P("C17", "Cluster messages and state names agree on both sides",
      "Every state's name is understood as that same state by the receiver. Every kind of message a node sends to a peer is handled by _onMESSAGE (RECONNECT, which only logs, excepted), and every sender sets every header without which the receiver refuses the message; everything but PING and PONG carries CommitCount and Hash. Those are recorded for the sender, and so are the priority (0 makes it a permafollower) and state of its LOGIN and STATE messages.",
      ["configurations"], "every send site and every handled method in the program",
      "A missing header makes the receiver drop the connection; tests have no second node.",
      NODEF, [("stateName / stateFromName", "sqlitecluster/SQLiteNode.cpp"), ("message construction", "sqlitecluster/SQLiteNode.cpp")],
      "sender/receiver protocol conformance: header sets per constructed message against presence requirements on the receiving paths", BASE),
    P("C18", "A peer that reconnects starts from a clean session",
      "When a peer's connection closes, its remaining messages are processed without limit, then the peer is reset, then the loss is handled, in this order; a connection error closes the socket. reset() restores every session field (login, priority, state, standup answer, subscription, fork mark, latency, version, commit and hash, ping time) to its value before the first connection and deletes the socket. A peer that has a socket never gets another one: a second login is refused.",
      ["histories", "fault_sequences"], "every result of polling a peer, every session field",
      "A stale subscription or approval from before a reconnect matters only in a real cluster with failing links.",
      ["sqlitecluster/SQLitePeer.cpp", "sqlitecluster/SQLiteNode.cpp"], [("SQLitePeer::reset", "sqlitecluster/SQLitePeer.cpp"), ("SQLiteNode::postPoll", "sqlitecluster/SQLiteNode.cpp")],
      "field coverage of reset() against all fields written anywhere; event-order exploration of postPoll", BASE),
    P("C19", "A bad peer message costs a connection, never the node",
      "Whatever _onMESSAGE refuses makes it send RECONNECT to that peer and shut down its socket, and no exception leaves it. Nothing on the way from a peer's bytes to the database, in the message loop or the replication thread, parses them with a conversion that throws (std::sto*), outside of a handler. Every SYNCHRONIZE thread is counted before it starts and counts itself down exactly once on every way out.",
      ["inputs", "fault_sequences"], "every refusal in _onMESSAGE, every function reachable from it, every exit of a synchronization thread",
      "The tests send no malformed cluster messages.",
      NODEF, [("_onMESSAGE catch", "sqlitecluster/SQLiteNode.cpp"), ("_pendingSynchronizeResponses", "sqlitecluster/SQLiteNode.cpp")],
      "exception-flow exploration from every throw; call-graph closure for throwing conversions; counter balance", BASE),
]

COREF = ["BedrockCore.cpp", "BedrockCore.h"]
PROPS += [
    P("C20", "Command phases run under their limits and leave none behind",
      "Pre-peek, peek and post-process of a plugin's command run on a handle on which writing is denied; process runs writable, with update-noop mode on exactly for mock requests and query rewriting exactly as the plugin asked. Each runs with the time limit of its command and its abort flag set on the handle; process uses the processing limit. "
      "On every way out of a phase - normal, timeout, conflict, plugin error, any exception - read-only mode, time limit, abort flag, noop mode, rewriting and handlers are cleared before the handle goes to somebody else, and no exception escapes; a failure becomes the command's response. Phases are run by the core only.",
      ["inputs", "fault_sequences"], "every phase x plugin outcome (result, exception type, aborted before/after) x command flags",
      "A setting left on a pooled handle shows only in a later, unrelated command that gets that handle.",
      COREF, [("BedrockCore::prePeekCommand/peekCommand/processCommand/postProcessCommand", "BedrockCore.cpp")],
      "case exploration of the four phase functions' exception-aware control-flow graphs; typestate of every handle setting at each exit", BASE),
    P("C21", "A command's transaction is committed, or rolled back, as its result says",
      "peekCommand reports SHOULD_PROCESS exactly when the plugin left the command unfinished, with the transaction still open; otherwise the transaction is rolled back and the command complete. processCommand reports NEEDS_COMMIT exactly when the plugin returned normally and wrote something (or asked to commit empty transactions), with the transaction open and prepared for nothing but commit; otherwise it is rolled back and the command complete. A transaction never begins inside another and is exclusive exactly if asked. "
      "SQLiteCore::commit returns true exactly if the transaction was committed, and otherwise it has been rolled back; it commits only what it prepared, and only if the node still leads after preparing, when it can no longer change its state.",
      ["inputs", "fault_sequences", "schedules"], "every outcome of plugin, begin, prepare and commit x command flags x node state before and after prepare",
      "An open transaction after a failure poisons a later command on the same handle; commit while standing down needs a state change between prepare and commit.",
      COREF + ["sqlitecluster/SQLiteCore.cpp"], [("BedrockCore::peekCommand/processCommand", "BedrockCore.cpp"), ("SQLiteCore::commit", "sqlitecluster/SQLiteCore.cpp")],
      "case exploration with a transaction typestate on exception-aware control-flow graphs", BASE),
    P("C22", "A query stops when its time is up or its caller is gone",
      "Every database handle has the progress handler registered. It interrupts a running statement exactly when the time limit has passed (noting a timeout) or the abort flag is set, and after it interrupted, the call that ran the statement throws: timeout_error exactly for timeouts. Every read and every write checks after the caller's statement, so an interrupted query never looks like a query with no results.",
      ["schedules", "inputs"], "every combination of limit, elapsed time and abort flag; every path through read and write",
      "An interrupted read that returns an incomplete result looks like success; it needs a timeout at the right instant.",
      ["sqlitecluster/SQLite.cpp", "sqlitecluster/SQLite.h"], [("SQLite::_progressHandlerCallback", "sqlitecluster/SQLite.cpp"), ("SQLite::_checkInterruptErrors", "sqlitecluster/SQLite.cpp")],
      "case exploration against a decision table; must-follow dataflow from statement to check", BASE),
]

SRVF = ["BedrockServer.cpp", "BedrockServer.h"]
PROPS += [
    P("C23", "A command runs once, and writes only where it may",
      "A command's phases run only while it is unanswered and still held by the thread; it is never run again after its transaction committed or a peer answered it, and not once its time is up. Status and control commands never reach a plugin. It is processed and committed only if the node was seen LEADING after peek and the database is ready (the database upgrade excepted), and only if process asked for a commit. "
      "Its transaction is settled, committed or rolled back, before it is retried, answered, queued or forwarded or its handle is returned; every commit is announced to waiting readers.",
      ["inputs", "schedules", "histories", "fault_sequences"], "every combination of command flags, phase results, commit results, retries, node states at each read and peer answers in runCommand and sync",
      "Running twice needs a state change between a commit and the check after it; tests run one node that never loses leadership.",
      SRVF + COREF, [("BedrockServer::runCommand", "BedrockServer.cpp"), ("BedrockServer::sync", "BedrockServer.cpp")],
      "case exploration of the command loops (node state re-read nondeterministically at each load) with a typestate over phase, transaction and answer", BASE + CASES),
    P("C24", "Every command is answered exactly once, or kept",
      "Whoever owns a command either answers it exactly once, after it is complete, or moves it into a queue or container that is served, on every way through the code including exceptions; nobody drops it, and nobody touches it after passing it on. A committed command is complete and its answer carries the commit number. Blocked, future-commit, wrong-state, conflicting and not-ready commands are all kept.",
      ["inputs", "schedules", "fault_sequences"], "every path on which a command is owned in the server's loops",
      "A lost command shows as one client waiting for its timeout, after a rare combination of state and conflict.",
      SRVF, [("BedrockServer::runCommand", "BedrockServer.cpp"), ("BedrockServer::sync", "BedrockServer.cpp"), ("BedrockServer::_reply", "BedrockServer.cpp")],
      "ownership typestate (held, queued, answered) in the case exploration of the command loops", BASE + CASES),
    P("C25", "Control commands are for the local host only",
      "A control command runs only if its request came from the local host or through the private command port, SuppressCommandPort, ClearCommandPort, GetCommitHash and CRASH_COMMAND excepted; any other is answered with an error and has no effect. Every request that came from another host over any other port carries that host's address as _source, whatever the sender wrote there, and nothing changes it afterwards. Each connection's thread knows which port it came from.",
      ["inputs", "configurations"], "every control and status method x local or remote source x trusted or untrusted connection",
      "Tests connect from the local host only, where everything is allowed.",
      SRVF, [("BedrockServer::_handleIfStatusOrControlCommand", "BedrockServer.cpp"), ("BedrockServer::buildCommandFromRequest", "BedrockServer.cpp"), ("BedrockServer::_acceptSockets", "BedrockServer.cpp")],
      "case exploration over all method names found in the program; provenance of the connection flags and of _source", BASE),
    P("C26", "A queued command comes out once, when it is due or has timed out",
      "A command put into a command queue enters the queue and the index of timeouts together, under its own scheduled time and timeout, before a waiting thread can see it. What comes out is the first command that has timed out, or else the first one scheduled if its time has come; it leaves both indices, and no other command's entry goes with it. Whoever removes commands in bulk removes their timeouts. A thread that waits has looked at the queue before, and reports a timeout only after a last look. Queue time is started once before a command enters and stopped once after it leaves.",
      ["histories", "inputs", "schedules"], "every sequence of pushes, gets and removals, with any scheduled times and timeouts, equal ones included",
      "Two commands with the same timeout or scheduled time, and a timeout that passes between two looks, are not in the tests.",
      ["BedrockCommandQueue.cpp", "BedrockCommandQueue.h"], [("BedrockCommandQueue::_dequeue", "BedrockCommandQueue.cpp"), ("BedrockCommandQueue::push", "BedrockCommandQueue.cpp"), ("BedrockCommandQueue::get", "BedrockCommandQueue.cpp"), ("BedrockCommandQueue::abandonFutureCommands", "BedrockCommandQueue.cpp")],
      "iterator-provenance typestate: which entry of which index an iterator designates, and which comparisons hold where it is moved from or erased", BASE),
    P("C27", "Rate limits of the blocking queue refuse exactly the offenders",
      "A command enters the blocking commit queue, or leaves it to be run, only if neither its own identifier nor its own method is inside a block. A refusal on entry leaves the command with the caller; a blocked command found in the queue comes out complete with a 503 answer, never lost. A block starts only when the time used inside the window exceeds that dimension's non-zero threshold, lasts the configured duration, and is not extended by later hits; the windowed sum cannot wrap around. The time a command uses on the blocking thread counts for its own identifier and method. Clearing clears both dimensions.",
      ["histories", "inputs", "configurations"], "every sequence of recorded times, thresholds and pushes",
      "The tests of the limiter inject a clock and try a few sums; they do not cover every order of blocks, hits and pushes, or the server's use of it.",
      ["BedrockBlockingCommandQueue.cpp", "BedrockBlockingCommandQueue.h", "BedrockServer.cpp"], [("BedrockBlockingCommandQueue::push / _dequeue", "BedrockBlockingCommandQueue.cpp"), ("BedrockBlockingCommandQueue::_recordAndCheck", "BedrockBlockingCommandQueue.cpp"), ("BedrockServer::worker", "BedrockServer.cpp")],
      "case exploration over both answers of each lookup; guard analysis of every unsigned subtraction and of the write that starts a block", BASE),
    P("C28", "A conflict key is held by one thread, and its lock outlives its users",
      "A guard of a conflict key waits for that key's mutex without holding the control mutex, after being counted as its user, and gives it back exactly once, when it is released or destroyed; the guard of no key does nothing. A mutex is dropped only when nobody is counted for it, from all four indices, which are only used under the control mutex. In the command loop a command that is run again after a conflict holds the key of that conflict while it peeks, processes and commits, and a thread never waits for a second key while holding one.",
      ["schedules", "histories"], "every interleaving of guards of any keys, with any number of keys",
      "Destroying a mutex in use or waiting inside the control mutex needs hundreds of concurrent keys or an unlucky schedule.",
      ["ConflictLockGuard.cpp", "ConflictLockGuard.h", "BedrockServer.cpp"], [("ConflictLockGuard::ConflictLockGuard", "ConflictLockGuard.cpp"), ("ConflictLockGuard::release", "ConflictLockGuard.cpp"), ("BedrockServer::runCommand", "BedrockServer.cpp")],
      "lock and reference-count typestate of constructor, release and destructor; guard liveness in the command loop", BASE),
    P("C29", "Every connection is served by one counted thread",
      "Each accepted connection gets one thread, which is counted before it starts and uncounted exactly once when it ends, whatever happens in it; no exception leaves it. Connections other than control connections are accepted only while the number of threads is below the limit. When threads cannot be created, the flag that stops new ones and the block on the command port change together under their mutex, and the thread whose own decrement reaches a number below that at which blocking can start unblocks both. A connection's thread never ends, or gives up the variables shared with the thread that runs its command, before that thread has ended.",
      ["schedules", "fault_sequences", "histories"], "every interleaving of connections that start, fail to start, throw and end",
      "Failing thread creation with thousands of connections, and two threads ending at the same moment, are out of reach of the tests.",
      SRVF, [("BedrockServer::_acceptSockets", "BedrockServer.cpp"), ("BedrockServer::handleSocket", "BedrockServer.cpp")],
      "counting typestate over all exits, exceptional ones included; lifetime of locals shared with a running thread; pairing of the two blocking effects in one critical section", BASE),
    P("C30", "An escalated command runs at most once and its fate is reported truly",
      "When a command is sent to another node, a failure before the whole request can have been sent leaves it incomplete, so it can be tried again (except one that cannot be serialised); any failure after that answers it with an error that carries nothing of an earlier answer, so it never runs again; nothing is sent twice by one attempt. Success is reported, and the command marked complete, only after a whole answer was read; a command whose client has left ends as 556 Aborted. It is marked escalated only if another node answered it. A connection is reused only after its command was answered and if neither side closes it, under the address it was opened for. Waiting ends when the command times out or its client leaves.",
      ["fault_sequences", "inputs", "schedules"], "every point at which connecting, sending, waiting or receiving can fail",
      "No test breaks the connection between two nodes in the middle of a request or an answer.",
      ["sqlitecluster/SQLiteClusterMessenger.cpp", "sqlitecluster/SQLiteClusterMessenger.h"], [("SQLiteClusterMessenger::_sendCommandOnSocket", "sqlitecluster/SQLiteClusterMessenger.cpp"), ("SQLiteClusterMessenger::runOnPeer", "sqlitecluster/SQLiteClusterMessenger.cpp"), ("SQLiteClusterMessenger::waitForReady", "sqlitecluster/SQLiteClusterMessenger.cpp")],
      "typestate of the request (unsent, possibly sent whole, answered) over all paths of the messenger", BASE),
    P("C53", "A query succeeds only if every one of its statements ran to its end",
      "For every SQL text, parameters and sequence of results sqlite gives: the statements of a query run in order on the handle given, each after all before it succeeded and to its last row; every prepared statement is released exactly once, on every path. Success is reported exactly when all ran to their end, a commit conflict as such. Only a busy failure is tried again, from the first statement and with an empty result. Each parameter is bound, with its own type and whole value, at the index of its own name before the statement runs; each column is read as the type it has, into its own cell. The text returned for replication is sqlite's expansion of exactly the statements that ran, and stores the same values (a text parameter ends at its first NUL in both).",
      ["inputs", "fault_sequences"], "all SQL texts, parameter maps and sequences of sqlite results, three tries",
      "Tests run queries that succeed or fail to parse; none makes a statement in the middle fail, be busy, or run out of memory.",
      ["libstuff/libstuff.cpp", "libstuff/SQliteParameter.h"], [("SQuery", "libstuff/libstuff.cpp")],
      "typestate of the prepared statement, its parameters, rows and expansion over all results of the sqlite calls", BASE),
    P("C56", "TLS connections verify the host they ask for and never carry data in the clear",
      "For every connection to an https address, directly or through a proxy, and every result of the TLS library: the connection is set up for the name of the host that was asked for, with the shared configuration, which always requires a certificate that verifies against the loaded authorities; when any step of the set-up fails the connection is not used. Requests and answers of such a connection are only ever exchanged over TLS: through a proxy nothing but the CONNECT request is sent in the clear, and TLS, for the host behind the proxy, starts exactly when the proxy answered 200. TLS is configured before the server exists and stays so until it is gone.",
      ["inputs", "fault_sequences"], "all results of the TLS calls, all socket kinds and states",
      "The tests need a reachable TLS server to say anything, and none fails a set-up step or looks at the bytes a proxy sees.",
      ["libstuff/SSSLState.cpp", "libstuff/STCPManager.cpp", "libstuff/SHTTPSProxySocket.cpp", "libstuff/SHTTPSManager.cpp", "main.cpp"], [("SSSLState::SSSLState", "libstuff/SSSLState.cpp"), ("SHTTPSProxySocket::recv", "libstuff/SHTTPSProxySocket.cpp")],
      "typestate of the TLS state and configuration over all results of the calls; case analysis of the sockets by whether they have TLS", BASE),
    P("C57", "Every descriptor that is opened is closed exactly once",
      "For every path, including those of failed calls and exceptions: a socket, file or pipe that is opened is closed by the function that opened it, returned, or handed to an object that closes it exactly once when it is destroyed; the last copy of an open descriptor is never overwritten; nothing is closed twice, closed with the function of another kind, or used after it was closed; an object that closed its descriptor forgets the number, and one that was moved from holds nothing.",
      ["inputs", "fault_sequences"], "all functions that open or close, all results of the calls, all exceptions",
      "A leak or a double close shows only when a call fails at the right moment, and then only as a foreign connection that dies or a process that runs out of descriptors.",
      ["libstuff/libstuff.cpp", "libstuff/STCPManager.cpp", "libstuff/SFluentdLogger.cpp", "libstuff/SSSLState.cpp", "libstuff/SSynchronizedQueue.h", "BedrockServer.cpp", "sqlitecluster/SQLite.cpp", "VMTouch.cpp"], [("S_socket", "libstuff/libstuff.cpp"), ("STCPManager::Socket::~Socket", "libstuff/STCPManager.cpp")],
      "ownership typestate of every descriptor over the control-flow graphs of all functions that open or close, with callers of functions that return one", BASE),
    P("C52", "No value changes the statement it is put into",
      "Whatever bytes a client, a job or a row holds, in every statement that Bedrock writes a value appears only as a number or as one complete quoted literal: every quote in it doubled, the literal in a place where a literal starts, never inside another literal. This holds for every statement run by the core and the plugins and for those the MySQL plugin writes for the Query command; the only texts run as given are the query of the Query command, a rewrite handler's, and the leader's journal. Escaping emits every character once, in order, with the escape before each unsafe one, and lists hold only such pieces.",
      ["inputs"], "all values of all request fields, job fields, rows and names",
      "Tests use ordinary names; a statement that can be rewritten by a value works for all of them.",
      ["plugins/Jobs.cpp", "plugins/Cache.cpp", "plugins/DB.cpp", "plugins/MySQL.cpp", "sqlitecluster/SQLite.cpp", "libstuff/libstuff.cpp", "libstuff/libstuff.h"], [("SQ", "libstuff/libstuff.cpp"), ("SQLite::writeIdempotent", "sqlitecluster/SQLite.cpp"), ("BedrockJobsCommand::process", "plugins/Jobs.cpp")],
      "interprocedural evaluation of how each statement's text is composed, with the quoting state of SQL; transducer of the escaping function per class of characters", BASE),
    P("C58", "Jobs are handed out once, in order, and marked",
      "GetJob (at most one) and GetJobs (at most numResults) take, of the jobs that are QUEUED or RUNQUEUED, due, and match the name (and the priority, if asked for; mocked ones only if the request is mocked or asks for them), the first by priority (highest first) and then by next run (earliest first). Of these, one that matches a pattern of jobs to crash, one with retryAfter that was already retried ten times, and one whose retryAfter cannot be applied become FAILED and are not returned; every other one is returned, in that order, and in the same transaction marked: RUNNING, or with retryAfter RUNQUEUED with its next run at now plus retryAfter (or its repeat, if earlier) and, unless manual, its retry count one higher (and its original next run kept, if scheduled); last run is now. Nothing is marked without being returned or returned without being marked; no other job changes. What is returned is the job as it was, its parent's data and exactly its finished and cancelled children. If the answer cannot be sent, exactly the jobs in it are queued again.",
      ["inputs", "fault_sequences"], "all requests over a finite abstraction of the job table (states, priorities, due or not, mocked, retry count, children), all results of reads and writes",
      "A job that is marked and not returned is lost, one returned and not marked runs twice; tests cover a few job tables and no failed writes.",
      ["plugins/Jobs.cpp"], [("BedrockJobsCommand::process", "plugins/Jobs.cpp"), ("BedrockJobsCommand::handleFailedReply", "plugins/Jobs.cpp")],
      "abstract interpretation of the command's source over a finite abstraction of the job table: the SQL text it composes is parsed and its effect on the abstract rows compared with the specified transition on every path", BASE),
    P("C59", "A job's state changes only as its life cycle allows",
      "Whatever the request says: a new job is QUEUED, or PAUSED if its parent is running (RUNNING or RUNQUEUED), and is created under a parent only if that is RUNNING, RUNQUEUED or PAUSED, is not itself a child, and agrees on being mocked; a unique job that exists is not created again. Only a RUNNING or RUNQUEUED job (or a mocked one) is finished or retried, only a RUNNING or RUNQUEUED one failed, and a child is finished or retried only while its parent is PAUSED. Finishing a job with pending children pauses it and queues exactly its paused children; a rescheduled job becomes QUEUED with its next run; a finished child becomes FINISHED, and its parent QUEUED exactly when no child is pending; any other finished job is deleted, with its finished and cancelled children. Only a child without children that is not finished, running or paused is cancelled, and that resumes the parent only if it is PAUSED and no child is pending. A RUNNING or PAUSED job is never deleted on request; updating never changes a state; no request changes a job it does not concern; a request that is refused is refused before anything is committed, and every failed read or write fails the command.",
      ["inputs", "fault_sequences", "histories"], "all requests over a finite abstraction of the job and its family (own, parent's, children's and siblings' states, mocked, repeat, retryAfter), all results of reads and writes",
      "The states of a job, its parent, its children and its siblings combine in far more ways than the tests create, and one wrong transition leaves a job stuck or run twice.",
      ["plugins/Jobs.cpp"], [("BedrockJobsCommand::process", "plugins/Jobs.cpp"), ("BedrockJobsCommand::peek", "plugins/Jobs.cpp"), ("BedrockJobsCommand::_hasPendingChildJobs", "plugins/Jobs.cpp")],
      "abstract interpretation of the command's source over a finite abstraction of the job table: the SQL text it composes is parsed and its effect on the abstract rows compared with the specified transition on every path", BASE),
    P("C60", "The cache stays within its limit and evicts what was used longest ago",
      "WriteCache leaves exactly one entry with the name and the value; entries that match invalidateName are gone; others are removed only to make room, those used longest ago first (any, when none is known), and only while the recorded size and the new value together exceed the limit. The recorded size is always the sum of the lengths of the entries. A request is refused only if its value is missing or larger than the limit, and never aborts the server. ReadCache returns an entry that matches the pattern, with its value, marks it used and changes nothing. The order of use names each entry once, forgets what is taken from it and frees it once. Every write, and every read that reports success, that fails makes the command fail.",
      ["inputs", "histories", "fault_sequences"], "all requests over a finite abstraction of the table, the order of use and the limit; all results of reads and writes; all orders of use of up to three names and every next operation",
      "Tests write a handful of entries; the limit, the triggers and the order of use interact only once the cache is full, and on a handle that did not create it.",
      ["plugins/Cache.cpp", "plugins/Cache.h"], [("BedrockCacheCommand::process", "plugins/Cache.cpp"), ("BedrockPlugin_Cache::upgradeDatabase", "plugins/Cache.cpp"), ("BedrockPlugin_Cache::LRUMap::popLRU", "plugins/Cache.cpp")],
      "abstract interpretation of the commands' source: the SQL they compose and the triggers' text are parsed and their effect on an abstract table compared with the specified transition on every path; the order of use over a heap abstraction", BASE),
    P("C61", "Query never writes on the read path and runs exactly what it was given",
      "A Query whose text is empty, too long, does not end in a semicolon or does not prepare is refused and none of it is run. If all its statements only read, it is run once, as a read, with its parameters, by peek; if any of them may write, nothing of it is run on the read path and process runs the whole text exactly once, as one write, with its parameters. A query that starts with UPDATE or DELETE (in any case) and has no WHERE is refused unless 'nowhere' is true. A mocked request writes nothing. Every failure of the database makes the command fail, and every statement that was prepared to look at it is released exactly once.",
      ["inputs", "fault_sequences"], "all sequences of up to three reading or writing statements, both formats, all results of prepare, read and write; UPDATE and DELETE in both cases, with and without WHERE and 'nowhere'",
      "Tests use single statements that succeed; a statement list that reads last, or a failure in the middle, is never sent.",
      ["plugins/DB.cpp"], [("BedrockDBCommand::peek", "plugins/DB.cpp"), ("BedrockDBCommand::process", "plugins/DB.cpp")],
      "abstract interpretation of the command's source over the read-only flags of its statements and all results of the database", BASE),
    P("C42", "A database handle has one owner at a time and always comes back",
      "The pool gives out a handle only if nobody has it, and from then on nobody else gets it until it is returned; it gives a free one if there is one, makes a new one only while fewer than its limit minus one exist, and waits only if neither is possible, until one comes back. A handle that is returned is free again before those who wait are told, and exactly once, whatever its owner does; a handle that exists is never replaced, one that is used has been made, and each is closed once with the pool. Every handle that is taken is owned by one scope of the same pool, which is never copied, and is not used after it was released.",
      ["schedules", "inputs", "histories"], "all states of pools with limits of 2 to 4 (free, in use, not made) and every next operation; all uses of the pool in the server and the node",
      "Tests never exhaust the pool, and two threads that share a handle fail only when they use it at the same moment.",
      ["sqlitecluster/SQLitePool.cpp", "sqlitecluster/SQLitePool.h", "BedrockServer.cpp", "sqlitecluster/SQLiteNode.cpp"], [("SQLitePool::getIndex", "sqlitecluster/SQLitePool.cpp"), ("SQLitePool::returnToPool", "sqlitecluster/SQLitePool.cpp"), ("SQLiteScopedHandle::release", "sqlitecluster/SQLitePool.cpp")],
      "abstract interpretation of the pool's source over all its small states, with invariants on the free and used sets; ownership and use-after-release on the control-flow graphs of its users", BASE),
    P("C62", "An outgoing HTTPS request ends with a result; no transaction waits for it",
      "A request a command starts goes out once, unchanged (through a proxy without its Connection header), to the host of its address, or ends at once with an error. It ends when its response is complete (a Content-Length, a 204, or the end of the connection), with the status of that response, its bytes taken from the buffer once and its socket closed; it ends with an error or with what has arrived when the connection dies, is idle for too long (5 seconds when the server shuts down), or the command's time is over; until then it stays as it is. A command that waits goes on when each of its requests has a result: if its time is over or its client leaves, the unfinished ones fail and the finished keep theirs. A request that is scheduled is started once, not before its time. A command that processes never waits; one that peeks gives up its transaction while it waits and has one of the same type afterwards. A command that is sent to the leader takes the results of its requests along as they were. The thread of blocking commits starts no request.",
      ["inputs", "schedules", "fault_sequences"], "all combinations of socket state, response (status, length, content), idle time and time limit; commands with up to three requests that end in any order, at any poll or never, started at once or later; leaving clients; all transaction states",
      "Tests wait for servers that answer; a connection that dies in the middle of a response, or a command that times out while one of several requests is under way, is not tried.",
      ["libstuff/SHTTPSManager.cpp", "libstuff/SHTTPSManager.h", "BedrockCommand.cpp", "BedrockServer.cpp"], [("SStandaloneHTTPSManager::postPoll", "libstuff/SHTTPSManager.cpp"), ("BedrockCommand::_waitForHTTPSRequests", "BedrockCommand.cpp"), ("BedrockCommand::deserializeHTTPSRequests", "BedrockCommand.cpp")],
      "abstract interpretation of the manager's and the command's source over all combinations of the connection's state, the response and the clock, with a transition oracle; data flow of the thread's flag on the worker's graph", BASE),
    P("C63", "What is compressed comes back as it was, on every node",
      "compress() and decompress() in SQL, and the same functions for the journal, leave NULL, empty text, text with dictionary 0 and text that is not compressed as it is. What they compress names its dictionary and is made with the same parameters both ways; what they decompress is done with the dictionary the text names and has the length that was written. Every failure is reported (in SQL as an error; the journal's compression ends the server, its decompression hands the text on) and never gives half a result; a call gives one result and gives every buffer and context back once. A dictionary is what the table has under its id, or starting fails; no code changes or removes one. The hash of a transaction is that of its plain text; the journal and the peers get the same bytes, and a node decompresses what it was sent before it runs it.",
      ["inputs", "fault_sequences"], "all combinations of NULL, dictionary ids that are known or not, empty and compressed text, and failing calls of SQLite and zstd; all paths of prepare; all places that run a peer's transaction",
      "Tests compress with dictionaries that exist and memory that is there; a leak, a buffer given back twice or a frame without its size show only when a call fails.",
      ["plugins/Compression.cpp", "plugins/Compression.h", "sqlitecluster/SQLite.cpp", "sqlitecluster/SQLiteNode.cpp"], [("BedrockPlugin_Compression::compress", "plugins/Compression.cpp"), ("BedrockPlugin_Compression::decompress", "plugins/Compression.cpp"), ("SQLite::prepare", "sqlitecluster/SQLite.cpp")],
      "abstract interpretation of the functions' source over all results of the SQLite and zstd calls, with ownership of buffers and contexts; ordering typestate on prepare's control-flow graph and a data-flow rule on the followers' writes", BASE),
]

NOT_APPLICABLE = []
