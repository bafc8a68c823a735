#!/usr/bin/env python3
"""Source of /verif/properties.jsonl.  Run from /verif: python3 tools/mkprops.py"""
import json, os

I = "include/shirakami/interface.h"
CC = "src/concurrency_control/"
IF = CC + "interface/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None,
         hook=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


# ---------------------------------------------------------------- isolation
prop("S01", "Committed transactions of every kind are serializable together",
     "For every concurrent history of short, long and read-only transactions, there is one serial order of the committed ones in which each point read, existence check, missing-key result and range scan returns what the transaction actually observed, its own earlier writes included. Executing the committed transactions in that order also produces exactly the contents the database holds once all of them have finished.",
     ["schedules", "histories", "programs"],
     "all interleavings of up to a handful of transactions of the three kinds over shared storages, with and without write preservation and read areas, and any timing of epoch change, background commit and garbage collection",
     "The repository's tests are hand-written two- or three-transaction interleavings with a fixed expected result; they cannot enumerate the mixes of overtaking long transactions, short transactions and snapshots, and none of them runs in the available build.",
     [IF + "short_tx/termination.cpp", IF + "long_tx/termination.cpp", IF + "long_tx/helper.cpp",
      CC + "read_by.cpp", CC + "ongoing_tx.cpp", CC + "wp_meta.cpp", CC + "include/local_set.h"],
     [("short commit: lock, validate reads and nodes, publish", IF + "short_tx/termination.cpp"),
      ("long commit: boundary wait, forwarding, read upper bound and committed-read checks", IF + "long_tx/termination.cpp"),
      ("read information left for long writers", CC + "read_by.cpp"),
      ("write preserve table", CC + "wp_meta.cpp")],
     ["public data-access and termination calls: statuses, values, commit result", "final contents read back through the public calls"],
     [("version chain", "committed versions of a record ordered newest first", CC + "include/version.h"),
      ("overtaken set", "higher-priority long transactions this one was ordered before", CC + "include/session.h")])

prop("S02", "Short transactions respect real-time order",
     "A committed short transaction takes effect at one moment between its begin and the completion of its commit: it observes every short transaction whose commit had completed before it began, and it never overwrites or misses the effect of such a transaction.",
     ["schedules", "histories"],
     "all interleavings of short transactions on several threads, including preemption inside reads, validation and publication",
     "A stale read needs a preemption inside the read or commit path; tests run the calls from one thread or rely on luck.",
     [IF + "short_tx/search.cpp", IF + "short_tx/termination.cpp", IF + "helper.cpp", CC + "include/tid.h", CC + "record.cpp"],
     [("record read: stable version word, value, version word again", IF + "helper.cpp"),
      ("commit: lock write set, fence, validate, assign version, publish, unlock", IF + "short_tx/termination.cpp")],
     ["read values and commit results with the begin/commit order of calls"])

prop("S03", "Range and absence observations are phantom-free",
     "When a transaction commits, every range it scanned and every key it found missing would give the same answer at its place in the serial order: no other committed transaction ordered between the observation and the commit inserted a key into, or removed one from, what it observed.",
     ["schedules", "histories", "programs"],
     "all interleavings of scanning or absence-reading transactions with inserting and deleting ones, for index layouts from one node to many, including node splits and node removal, both scan implementations",
     "Phantoms depend on which index node the inserted key lands in, on node splits caused by the scanner itself, and on how much of the scan was consumed; the suite has a few fixed layouts.",
     [CC + "include/local_set.h", IF + "scan/open_scan.cpp", IF + "scan/next.cpp", IF + "scan/read_kv_from_scan.cpp",
      IF + "short_tx/search.cpp", IF + "short_tx/termination.cpp", IF + "insert.cpp", IF + "upsert.cpp", CC + "read_by.cpp"],
     [("node version set and its verification", CC + "include/local_set.h"),
      ("own-insert correction of tracked node versions", CC + "include/local_set.h"),
      ("range read information of long transactions", CC + "read_by.cpp")],
     ["scan results, missing-key statuses and commit results"])

prop("S04", "A long transaction reads one fixed committed snapshot",
     "All reads of a long transaction that goes on to commit, point and range, see the same committed state, which contains everything whose commit completed before the long transaction began and nothing that began after it was able to start, apart from its own writes. Re-reading never changes the answer of such a transaction.",
     ["schedules", "histories"],
     "all sequences of short, long and epoch-advance steps around the reads of a long transaction, with versions being overwritten, deleted, re-inserted and garbage collected meanwhile",
     "The version to return depends on epoch boundaries between begin, other commits and reads; tests only advance epochs at fixed points.",
     [IF + "long_tx/search.cpp", IF + "long_tx/helper.cpp", IF + "tx_begin.cpp", IF + "scan/read_kv_from_scan.cpp", IF + "helper.cpp", CC + "include/version.h"],
     [("version selection by valid epoch", IF + "long_tx/helper.cpp"),
      ("start condition of a long transaction", IF + "tx_begin.cpp")],
     ["read results of a long transaction against the order of completed commits"])

prop("S05", "Read-only transactions see one stable consistent snapshot and never fail",
     "Once started, a read-only transaction always completes and commits successfully, and all of its point and range reads come from one state produced by a prefix of the serial order of committed transactions. It never causes another transaction to abort or wait, and a read-only transaction begun after the system has been quiet for long enough sees every committed write.",
     ["schedules", "histories"],
     "all interleavings of read-only transactions with short and long writers and garbage collection",
     "Choosing a safe snapshot while long transactions overtake each other involves timing the suite cannot steer exhaustively.",
     [IF + "read_only_tx/read_only_tx.cpp", IF + "read_only_tx/search.cpp", CC + "epoch.cpp", IF + "tx_begin.cpp", IF + "scan/open_scan.cpp"],
     [("safe snapshot epoch computation", CC + "epoch.cpp"),
      ("snapshot version selection", IF + "read_only_tx/search.cpp")],
     ["read-only read results and commit status; abort/wait results of the other transactions"])

prop("S06", "Commit is all-or-nothing and an abort leaves no trace",
     "Every other transaction and every later read sees either all writes of a transaction or none. A transaction that ends in an abort, by request, by a conflict or by a failed commit, has no visible effect whatever operations it issued: records, range contents, existence answers, sequences and the ability of others to insert, update or delete the same keys are as if it had never run.",
     ["schedules", "histories", "programs"],
     "all operation sequences ended by user abort or by a provoked conflict, in every transaction kind, and concurrent readers preempting a commit at any point",
     "Placeholder records left by inserts, cancelled inserts and reused tombstones interact in many orders; existing tests check a few.",
     [IF + "short_tx/termination.cpp", IF + "long_tx/termination.cpp", IF + "insert.cpp", IF + "upsert.cpp", IF + "delete.cpp", IF + "termination.cpp", CC + "session.cpp"],
     [("cancelling inserted placeholders", IF + "short_tx/termination.cpp"),
      ("abort and clean-up of local sets", CC + "session.cpp")],
     ["public reads after the abort; concurrent reads during a commit"])

prop("S07", "Write preservation and read areas are enforced",
     "A long transaction can write only to storages it declared at begin; an undeclared write is refused without effect. A long transaction with a read area that reads outside it is aborted with the read-area error, and a read inside it is never refused for that reason. A short transaction may not commit a read of, or a delete in, a storage declared by an active, started long transaction.",
     ["programs", "inputs", "schedules"],
     "all combinations of declared storages, read-area positive and negative lists, operation kinds and target storages, before and after the long transaction's start epoch",
     "The combination of lists, operations and start timing is large; the suite samples single cases.",
     [IF + "tx_begin.cpp", CC + "wp.cpp", CC + "wp_meta.cpp", CC + "include/session.h", CC + "session.cpp", IF + "helper.cpp", IF + "long_tx/helper.cpp", CC + "read_plan.cpp"],
     [("write preserve registration", CC + "wp.cpp"), ("read area check", CC + "session.cpp"), ("short commit check against write preserve", IF + "short_tx/termination.cpp")],
     ["operation statuses, abort reason, contents after the operation"])

prop("S08", "The oldest long transaction is never refused for conflicts",
     "A long transaction that has priority over every other active long transaction and stays within its declared areas always commits when asked to, no matter what short and read-only transactions and lower-priority long transactions do meanwhile, and its commit does not wait for any of them. The priority query answers yes for that transaction and no for a long transaction begun after another one that is still active.",
     ["schedules", "histories"],
     "all interleavings of a first long transaction with short, read-only and later long transactions on the same storages",
     "Requires showing that no mix of concurrent work ever makes the priority holder fail; tests show single mixes.",
     [IF + "long_tx/termination.cpp", IF + "long_tx/helper.cpp", CC + "ongoing_tx.cpp", IF + "short_tx/termination.cpp", CC + "transaction_state.cpp"],
     [("commit wait and verification of long transactions", IF + "long_tx/termination.cpp"), ("priority order", CC + "ongoing_tx.cpp")],
     ["commit status and callback of the oldest long transaction, priority query"])

# ---------------------------------------------------------------- API semantics
prop("A01", "Point operations follow the map model including own writes",
     "Within a transaction each insert, update, upsert, delete, lookup and existence check returns the status and value an ordered map with a private overlay would give: reads see the transaction's own latest write or delete, insert refuses existing keys, update and delete refuse missing ones, deleting an own insert cancels it, and after commit the database equals the map with the overlay applied.",
     ["programs", "inputs"],
     "all operation sequences on a small key set in one transaction at a time, across several consecutive transactions of every kind, with any mix of commits and aborts",
     "The number of orders of six operations on the same key, times committed state (absent, live, tombstone, reclaimed), exceeds what examples cover.",
     [IF + "insert.cpp", IF + "update.cpp", IF + "upsert.cpp", IF + "delete.cpp", IF + "search.cpp", IF + "short_tx/search.cpp", IF + "long_tx/search.cpp", CC + "local_set.cpp"],
     [("local write set merge of repeated operations", CC + "local_set.cpp"), ("read own writes", IF + "short_tx/search.cpp")],
     ["statuses and values of the public calls, contents after commit"])

prop("A02", "Range scans return exactly the records in range, in order",
     "Opening a scan and advancing it to the end yields exactly the live records visible to the transaction whose keys lie in the requested range, once each, in ascending key order, for every combination of open, closed and unbounded ends, including keys written or deleted by the same transaction before the scan was opened. A size limit yields a leading part of that sequence, and a right-to-left scan limited to one record yields the last record in range or reports that none was found.",
     ["inputs", "programs"],
     "all contents, ranges, endpoint kinds, limits and directions, empty and inverted ranges, empty keys and keys sharing prefixes, for all transaction kinds and both scan implementations",
     "Endpoint, emptiness and tombstone combinations are too many for examples.",
     [IF + "scan/open_scan.cpp", IF + "scan/next.cpp", IF + "scan/read_kv_from_scan.cpp", IF + "scan/close_scan.cpp", CC + "include/scan.h", "src/index/yakushima/include/interface.h"],
     [("range normalisation and head skipping", IF + "scan/open_scan.cpp"), ("cursor advance", IF + "scan/next.cpp")],
     ["sequence of keys and values and the statuses of the scan calls"])

prop("A03", "Tuning options never change observable results",
     "The same program of transactions gives the same operation statuses, read values, commit outcomes and final contents whichever scan implementation, number of background resolver threads, epoch length, log buffering, locking of read-only termination or garbage-collection reduction is selected, as long as the order of operations and epoch changes is the same.",
     ["configurations", "programs"],
     "all pairs of configurations on the same generated program",
     "The suite runs one configuration; differences between configurations are only visible side by side.",
     [IF + "start_up.cpp", "include/shirakami/database_options.h", CC + "session.cpp", CC + "ongoing_tx.cpp", IF + "scan/open_scan.cpp", IF + "scan/next.cpp", "docs/environment_variables.md"],
     [("option and environment handling", IF + "start_up.cpp"), ("two scan implementations", IF + "scan/open_scan.cpp")],
     ["full transcript of the public calls"])

prop("A04", "Misuse of the interface is refused without side effects",
     "Calls made in the wrong state (any operation, commit or abort before begin or after the end, begin twice, commit or abort again while a commit is pending, leave twice) or with unusable arguments (unknown storage or sequence, over-long key, missing scan handle or one of another session, closed handle closed again, unknown or released state handle, write in a read-only transaction or outside the declared storages, declared storages that do not exist, a name in use) return the documented refusal and never crash or hang. A refused call changes nothing: every other call returns what it would have returned without it, and the contents afterwards are the same.",
     ["programs", "inputs"],
     "all sequences of valid and invalid calls on several sessions",
     "The state space of call sequences is unbounded; tests check one wrong call at a time.",
     [I, IF + "termination.cpp", IF + "tx_begin.cpp", IF + "session_management.cpp", IF + "scan/close_scan.cpp", IF + "search.cpp", CC + "transaction_state.cpp", IF + "read_only_tx/search.cpp"],
     [("state checks at the head of every call", IF + "helper.cpp"), ("scan handle validation", CC + "include/scan.h")],
     ["returned statuses, process survival, contents afterwards"])

prop("A05", "Keys and values are stored byte for byte; oversized keys are refused",
     "Any key of at most 30 KiB and any value, including empty ones and ones with arbitrary bytes, is returned unchanged by lookups and scans, sorts in unsigned byte order and is distinct from every other key. A longer key is refused by every operation with the key-length status and has no effect.",
     ["inputs"],
     "all byte strings as keys and values, with lengths around the limit, empty, with zero bytes and shared prefixes, for each operation",
     "Tests use short printable strings and one oversized key for a few operations.",
     [IF + "helper.cpp", IF + "insert.cpp", IF + "upsert.cpp", IF + "update.cpp", IF + "delete.cpp", IF + "scan/open_scan.cpp", IF + "storage.cpp", CC + "record.cpp"],
     [("key length check", IF + "include/helper.h"), ("record key and value storage", CC + "record.cpp")],
     ["round trip through the public calls"])

prop("A06", "Each commit request reports one truthful outcome exactly once",
     "The completion notification of a commit request is delivered exactly once, before the session can be used for the next transaction, and agrees with what happened: success if and only if the writes are in the database, otherwise an abort reason is given; the immediate return value says truthfully whether the notification was already delivered. After success no failure reason is reported, and after an abort the recorded reason is one that applies to that transaction.",
     ["schedules", "histories"],
     "all commits of all transaction kinds, immediate, waiting and failing, with repeated or concurrent commit and abort requests",
     "Delivery through background threads is timing dependent.",
     [IF + "termination.cpp", IF + "long_tx/termination.cpp", CC + "bg_work/bg_commit.cpp", CC + "session.cpp", "include/shirakami/result_info.h", IF + "api_result.cpp"],
     [("commit callback invocation", CC + "session.cpp"), ("background commit of waiting transactions", CC + "bg_work/bg_commit.cpp")],
     ["callback invocations, return values, result information, contents"])

prop("A07", "Sessions are exclusive, bounded and start clean",
     "At any time each live session token is held by one holder only, exactly the configured number of sessions can be open at once, further requests are refused until one leaves, and a refused or repeated leave is reported. A session handed out again behaves as a fresh one: nothing of its previous holder's transaction, open scans, declared areas or outcome influences it.",
     ["histories", "schedules", "programs"],
     "all sequences and interleavings of enter, use and leave, including leaving with an open or pending transaction",
     "Reuse of a dirty session needs particular previous transactions.",
     [IF + "session_management.cpp", CC + "session_table.cpp", CC + "session.cpp", CC + "include/session.h"],
     [("session acquisition", CC + "session_table.cpp"), ("clean-up at termination", CC + "session.cpp")],
     ["enter/leave statuses and behaviour of the next transaction on the token"])

prop("A08", "Transaction identifiers are well-formed, stable and unique",
     "Every begun transaction has an identifier of the documented form which stays the same until it ends and differs from the identifier of every other transaction of the process; without a transaction the query is refused.",
     ["histories", "schedules"],
     "all sequences and interleavings of begins and ends over all sessions, including session reuse and counter growth",
     "Collisions need many transactions over reused sessions.",
     [IF + "tx_id.cpp", CC + "session.cpp", "include/shirakami/tx_id.h", "include/shirakami/api_tx_id.h", IF + "tx_begin.cpp"],
     [("identifier composition", IF + "tx_id.cpp"), ("counters", CC + "session.cpp")],
     ["identifier query results"])

prop("A09", "Transaction state queries move only along the documented life cycle",
     "A state handle reports waiting-to-start or started while the transaction runs, then waiting for commit approval if the commit is pending, then aborted or the durability states, and never moves backwards, never shows an outcome different from the real one, and stays readable until released even if its session runs other transactions. Releasing or querying an unknown or released handle is refused.",
     ["histories", "schedules"],
     "all transaction lives of all kinds with queries placed anywhere, several handles alive at once",
     "States depend on background progress; tests query at fixed points.",
     [CC + "transaction_state.cpp", "include/shirakami/transaction_state.h", "docs/transaction_state.md", CC + "session.cpp", IF + "termination.cpp"],
     [("state handle table", "include/shirakami/transaction_state.h"), ("state updates at begin, commit and abort", IF + "termination.cpp")],
     ["state query results"])

prop("A10", "Parallel operations inside one transaction behave as if done one by one",
     "Data operations issued by several threads on the same open transaction return results and produce effects equal to some one-at-a-time order of them. The commit after them installs the last write of every key or nothing at all, whether or not other transactions conflict, and no operation crashes or waits for ever.",
     ["schedules", "programs"],
     "all interleavings, at basic-block granularity, of a few operations issued by two or three threads on one transaction",
     "Needs preemption inside the local sets; tests run free threads and hope.",
     ["docs/strand.md", CC + "local_set.cpp", CC + "include/local_set.h", IF + "insert.cpp", IF + "upsert.cpp", IF + "update.cpp", IF + "delete.cpp", IF + "termination.cpp", CC + "include/scan.h"],
     [("locks on local sets", CC + "include/local_set.h"), ("data access versus termination lock", CC + "include/session.h")],
     ["statuses, values, contents after commit"])

prop("A11", "Status and option renderings identify their values",
     "The textual form of every status, option, reason and log operation value is fixed per value and different values have different texts; renderings of byte strings show exactly the given bytes, each printable one as itself and each other one as an escape of fixed length, so that different inputs without the escape character never print alike, and leave the stream's formatting as it was. Lists and options show every element and field, so different option values have different texts.",
     ["inputs"],
     "all enumerators and all byte strings, vectors and option combinations",
     "Tests print a few samples.",
     ["include/shirakami/scheme.h", "include/shirakami/binary_printer.h", "include/shirakami/span_printer.h", "include/shirakami/transaction_options.h", "include/shirakami/database_options.h", "include/shirakami/storage_options.h", "include/shirakami/result_info.h", "include/shirakami/transaction_state.h", "include/shirakami/log_record.h"],
     [("binary printer", "include/shirakami/binary_printer.h"), ("enumerator names", "include/shirakami/scheme.h")],
     ["stream output of the public types"])

# ---------------------------------------------------------------- catalog
prop("D01", "The storage catalog behaves as a map from names to storages",
     "Creating, looking up, listing, deleting and configuring storages agrees with a map from unique names to handles and options: creation refuses a used name or identifier, lookup and listing show exactly the live names, options read back are the last ones set, and every operation on a deleted or unknown storage is refused.",
     ["programs", "histories"],
     "all sequences of catalog operations with arbitrary names, user-chosen and generated identifiers and option payloads, mixed with data transactions",
     "Sequences with deletion and re-creation under the same name or identifier multiply quickly.",
     [IF + "storage.cpp", "src/include/storage.h", "include/shirakami/api_storage.h", "include/shirakami/storage_options.h", CC + "wp.cpp"],
     [("name to handle map and its durable copy", IF + "storage.cpp")],
     ["catalog call statuses and outputs"])

prop("D02", "Storages are separate key spaces and deletion removes everything in them",
     "An operation on one storage never affects what is read from another, whatever keys are used. After a storage is deleted nothing of it is readable again: a storage created later, even under the same name or chosen identifier, starts empty, and generated handles are never reused.",
     ["programs", "histories"],
     "all sequences of data operations over several storages with equal keys, with storages deleted and re-created in between",
     "Cross-storage effects appear only for particular handle and key combinations.",
     [IF + "storage.cpp", "src/include/storage.h", CC + "garbage.cpp", CC + "local_set.cpp", "src/index/yakushima/include/interface.h"],
     [("storage handle as index selector", "src/index/yakushima/include/interface.h"), ("storage removal", IF + "storage.cpp")],
     ["reads and scans on all storages"])

prop("D03", "Sequences keep the newest committed version",
     "A sequence starts at the initial version and value, reading it returns the pair with the highest version among committed updates, an update takes effect only if its transaction commits and never lowers the version, identifiers are never shared by two live sequences, and a deleted or unknown sequence is reported as not found.",
     ["histories", "programs"],
     "all sequences of create, update, read, delete, commit and abort over several sequences and transaction kinds, including several updates in one transaction and out-of-order versions",
     "Out-of-order versions across overtaking transactions are not exercised by the tests.",
     [CC + "sequence.cpp", "src/include/sequence.h", "include/shirakami/api_sequence.h", CC + "session.cpp", "docs/design-sequence-ja.md"],
     [("sequence table and its update at commit", CC + "sequence.cpp"), ("per-transaction sequence set", CC + "local_set.cpp")],
     ["sequence call results"])

# ---------------------------------------------------------------- liveness and housekeeping
prop("L01", "Every request finishes: no deadlock, no lost commit, no stalled epoch",
     "Under every schedule each data access call returns, every commit request is eventually answered once the transactions it may wait for have ended, long and read-only transactions eventually start, epochs keep advancing, and shutdown completes.",
     ["schedules", "fault_sequences"],
     "all interleavings of several threads of mixed transactions with background work, including threads delayed at arbitrary points for long periods",
     "Deadlocks need a specific interleaving of lock acquisitions; a hung test would only time out.",
     [CC + "bg_work/bg_commit.cpp", CC + "ongoing_tx.cpp", CC + "epoch.cpp", IF + "short_tx/termination.cpp", IF + "long_tx/termination.cpp", CC + "wp_lock.cpp", CC + "include/tid.h"],
     [("waiting list of long commits", CC + "bg_work/bg_commit.cpp"), ("record and write-preserve locks", CC + "wp_lock.cpp")],
     ["completion of every call and notification in virtual time"])

prop("L02", "Garbage collection never changes results or touches memory in use",
     "Whenever and however often collection runs, every transaction reads what it would have read without it, keys deleted and re-inserted around a collection stay correct, and no released memory is accessed.",
     ["schedules", "histories"],
     "all placements of collector steps between and inside the operations of short, long and read-only transactions, under an address sanitizer",
     "Collector timing relative to readers cannot be steered in the tests, and the suite is not run with a sanitizer at every placement.",
     [CC + "garbage.cpp", CC + "include/garbage.h", CC + "include/version.h", CC + "record.cpp", CC + "session.cpp", IF + "insert.cpp", IF + "upsert.cpp"],
     [("collector thresholds", CC + "garbage.cpp"), ("unhooking deleted records", CC + "garbage.cpp"), ("placeholder sharing counts", CC + "include/record.h")],
     ["read results, sanitizer reports"])

prop("L03", "Unreachable versions and deleted records are eventually reclaimed",
     "After all transactions have ended and the system has been idle for a bounded number of epochs, deleted records and cancelled inserts are gone from the index and each remaining record keeps no more than a fixed small number of old versions. Repeating the same transactions, storage creations and storage deletions with idle epochs in between does not make the memory in use grow without bound.",
     ["histories", "schedules"],
     "all histories of inserts, updates, deletes and aborts followed by idle epochs",
     "Leaks do not fail functional tests.",
     [CC + "garbage.cpp", CC + "include/garbage.h", IF + "short_tx/termination.cpp", IF + "long_tx/termination.cpp", CC + "epoch.cpp"],
     [("collector loop", CC + "garbage.cpp"), ("placeholder cancellation", IF + "short_tx/termination.cpp")],
     ["number of index entries and version-chain lengths after idle epochs"])

prop("L04", "Valid use never hits an internal error",
     "As long as callers follow the documented rules, no call returns a fatal or internal status, no error is written to the log, and the process never terminates on its own, under any schedule and any mix of operations.",
     ["schedules", "programs"],
     "all valid programs of the other properties, with errors in the log and fatal statuses collected",
     "Tests look at the values they expect and ignore logged errors.",
     [IF + "helper.cpp", CC + "session.cpp", IF + "long_tx/termination.cpp", IF + "short_tx/termination.cpp", CC + "wp_meta.cpp", CC + "garbage.cpp", CC + "epoch.cpp"],
     [("error logging and fatal statuses", CC + "wp_meta.cpp")],
     ["returned statuses, error log, process exit"])

prop("L05", "Start-up and shutdown can be repeated and are idempotent",
     "Starting an already started engine and stopping a stopped one are harmless and reported as documented; after each stop the engine can be started again, a non-durable restart begins empty with all counters and options fresh, and nothing of the earlier run influences the later one. Stopping is safe with open or pending transactions, and a pending commit is answered or dropped without a crash.",
     ["programs", "configurations"],
     "all sequences of start, work, stop with different options and unfinished work at the stop",
     "Tests start and stop once per process.",
     [IF + "start_up.cpp", IF + "shut_down.cpp", CC + "session_table.cpp", CC + "wp.cpp", "src/database/database.cpp", CC + "bg_work/bg_commit.cpp", CC + "read_plan.cpp"],
     [("initialisation order", IF + "start_up.cpp"), ("shutdown order", IF + "shut_down.cpp")],
     ["statuses of start/stop and behaviour of the next run"])

# ---------------------------------------------------------------- durability
prop("R01", "A clean restart restores exactly the committed database",
     "After an orderly shutdown and a restart on the same log, the contents of every storage, the storage names, handles and options and the sequences equal the committed state before the shutdown; deleted records and storages stay deleted and aborted work does not appear. This holds for any number of restarts and any number of recovery threads.",
     ["histories", "configurations", "programs"],
     "all histories of transactions of all kinds, catalog and sequence operations, followed by one or more restarts, with sequential or parallel index rebuilding",
     "The suite restarts after small fixed histories and needs a log store that is not available in this build.",
     ["src/datastore/limestone/datastore.cpp", "src/datastore/limestone/lpwal.cpp", IF + "shut_down.cpp", IF + "start_up.cpp", IF + "storage.cpp", CC + "sequence.cpp"],
     [("log hand-over", "src/datastore/limestone/lpwal.cpp"), ("index rebuild", "src/datastore/limestone/datastore.cpp")],
     ["contents, catalog and sequences after restart"])

prop("R02", "Crash recovery yields a consistent state with everything reported durable",
     "If the process stops at any point, the recovered contents equal the result of executing a subset of the committed transactions that includes every transaction reported durable, is closed under what those transactions observed, and contains each transaction entirely or not at all; nothing written by an aborted or never-committed transaction appears.",
     ["crash_points", "histories", "schedules"],
     "all crash points, at scheduling-step granularity, of concurrent histories of short and long transactions",
     "Needs stopping the engine between any two steps of logging; tests only shut down in order.",
     ["src/datastore/limestone/lpwal.cpp", "src/datastore/limestone/datastore.cpp", IF + "short_tx/termination.cpp", IF + "long_tx/termination.cpp", CC + "epoch.cpp", CC + "include/lpwal.h"],
     [("log session boundaries and epochs", "src/datastore/limestone/lpwal.cpp"), ("commit versus log order", IF + "short_tx/termination.cpp")],
     ["durability notifications before the crash, contents after recovery"])

prop("R03", "Durability is announced only after it is true, in order and eventually",
     "The announced durability boundary never decreases, and when it or a transaction's state says a committed transaction is durable, all log records of that transaction have already been handed over in log sessions that the log store reports as persistent. Every committed transaction is announced durable after a bounded number of further epochs.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of committing sessions, log flushing and epoch switches, with a log store that persists late",
     "The window between commit and log hand-over is a few instructions wide.",
     ["src/datastore/limestone/lpwal.cpp", "src/database/tx_state_notification.cpp", CC + "transaction_state.cpp", CC + "epoch.cpp", IF + "short_tx/termination.cpp", IF + "long_tx/termination.cpp", CC + "include/session.h"],
     [("durability marker of a commit", CC + "include/session.h"), ("marker callbacks", "src/database/tx_state_notification.cpp"), ("log flush daemon", "src/datastore/limestone/lpwal.cpp")],
     ["durability callbacks, commit markers, state handles versus records received by the log store"])

prop("R04", "The log receives every committed change once, with versions in serial order",
     "For each committed transaction the log store receives exactly its effective writes, with operation kind, storage, key, value and large-object references intact, and nothing for aborted, read-only or cancelled work. For each key the log versions order the writes exactly as the serial order does, so that the largest version is the final value.",
     ["histories", "schedules"],
     "all histories of transactions of all kinds, in particular long transactions committing out of order with short ones on the same keys",
     "A wrong version only shows after recovery of a particular overlap.",
     ["src/datastore/limestone/lpwal.cpp", "src/datastore/limestone/limestone_api_helper.cpp", IF + "short_tx/termination.cpp", IF + "long_tx/termination.cpp", CC + "include/lpwal.h", "include/shirakami/log_record.h"],
     [("log record construction at commit", IF + "short_tx/termination.cpp"), ("log version composition", CC + "include/lpwal.h")],
     ["records received by the log store against contents"])

prop("R05", "Identifiers and time keep growing across restarts",
     "After a restart, new generated storage handles and sequence identifiers differ from all that were recovered, writes after the restart win over recovered ones in every later recovery, and the durability boundary continues from the recovered one.",
     ["histories"],
     "all chains of runs with work between restarts, clean or crashed",
     "Needs several restarts with interleaved creation and deletion.",
     ["src/datastore/limestone/datastore.cpp", IF + "start_up.cpp", IF + "storage.cpp", CC + "sequence.cpp"],
     [("counter recovery", "src/datastore/limestone/datastore.cpp"), ("epoch adjustment", IF + "start_up.cpp")],
     ["handles, identifiers, markers and contents over several runs"])

prop("R06", "The log store is never told that a still-readable version is obsolete",
     "The version boundary passed to the log store, below which older large-object versions may be dropped, never decreases and never passes a version that an open or later transaction can still read.",
     ["schedules", "histories"],
     "all interleavings of long, read-only and short transactions with the collector's boundary computation",
     "The boundary is computed in the background while transactions begin.",
     [CC + "garbage.cpp", CC + "include/garbage.h", CC + "epoch.cpp", "src/datastore/limestone/limestone_api_helper.cpp"],
     [("collector thresholds", CC + "garbage.cpp")],
     ["boundary values received by the log store against versions later read"])

# ---------------------------------------------------------------- building blocks
prop("U01", "Version words order by epoch, then order number, and fields do not interfere",
     "Comparing two version words agrees with comparing their epochs, and for words of the same epoch and the same kind of transaction with comparing their order numbers. Setting any field leaves all other fields unchanged for every in-range value, and a value read back is the value set.",
     ["inputs"],
     "all field values including the extremes, in any order of setting",
     "Example tests use a handful of small values.",
     [CC + "include/tid.h", CC + "tid.cpp"],
     [("packed version word", CC + "include/tid.h")],
     ["accessors and comparison of the version word"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
