#!/usr/bin/env python3
# writes /verif/properties.jsonl (kept as a script only so that the text is easy to edit)
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

# ---------------------------------------------------------------- durability
prop("C01", "Write-ahead log returns exactly what was acknowledged",
 "Every record the write-ahead log acknowledged is read back, byte for byte, once, in log-sequence order and from any requested start position, whatever the pattern of log-file rollovers, syncs, live readers and restarts. After a crash that leaves a torn or damaged tail, reading stops with a clean end or a reported error at or after the last intact record and never returns altered, invented or reordered data. New records written after recovery are equally readable and log sequence numbers never go backwards or repeat.",
 ["histories", "crash_points", "inputs"],
 "all append/sync/rollover/gc/reopen histories, all record shapes, every truncation length and byte flip of the log tail, every start lsn",
 "the unit tests never open the WAL; the SQL recover tests only exercise clean shutdown",
 ["amelie/db/wal/wal.c", "amelie/db/wal/wal_cursor.c", "amelie/db/wal/wal_mgr.c", "amelie/db/wal/wal_file.h", "amelie/db/transaction/record.h", "amelie/db/transaction/write_list.h"],
 [("wal_write/wal_open/wal_gc", "amelie/db/wal/wal.c"), ("wal_cursor_open/next", "amelie/db/wal/wal_cursor.c"), ("record crc", "amelie/db/transaction/record.h")],
 ["wal_cursor_next", "state lsn"])

prop("C02", "WAL garbage collection never drops data that is still needed",
 "Deleting old log files removes only files whose every record is below the low-water mark of the checkpoint and of every active log slot, and never the current log; anything at or above that mark stays readable. Slot waiters are woken for every record written after they asked to wait.",
 ["histories"],
 "all interleavings of writes, rollovers, gc calls with any minimum, slot add/remove/advance and readers",
 "no test calls wal gc with slots; replication tests only sample a single subscriber",
 ["amelie/db/wal/wal.c", "amelie/db/wal/wal_slot.h", "amelie/db/wal/wal_cursor.c", "amelie/runtime/lib/id_mgr.h"],
 [("wal_gc, wal_slots", "amelie/db/wal/wal.c"), ("id_mgr_gc_between", "amelie/runtime/lib/id_mgr.h")],
 ["files in <dir>/wal", "wal_cursor_next"])

prop("C03", "Committed data survives a crash; nothing else does",
 "After a process kill or power loss at any moment, restarting from the data directory yields exactly the effect of every transaction acknowledged as durable, in commit order, plus at most whole transactions that were still in flight, never part of a transaction, a duplicated one or an uncommitted one. This holds for DDL, for unsynced-buffer loss when synchronous logging is on, and for crashes in the middle of checkpoints and of recovery itself.",
 ["crash_points", "histories"],
 "all SQL histories over several tables, indexes and partitions, and every kill point during writes, DDL, checkpoint and restart",
 "SQL recovery tests restart after a clean shutdown only",
 ["amelie/db/wal", "amelie/db/part/part_mgr_recover.c", "amelie/db/heap/heap_file.c", "amelie/db/catalog/catalog_file.c", "amelie/db/db", "amelie/runtime/runtime/state.c"],
 [("recovery replay", "amelie/db/db/recover.c"), ("wal write/sync", "amelie/db/wal/wal_mgr.c"), ("atomic rename of snapshot files", "amelie/db/heap/heap_file.c")],
 ["SELECT after restart"])

prop("C04", "Partition snapshot files round-trip and detect damage",
 "A partition written to its snapshot file and loaded again contains exactly the same rows with all indexes rebuilt, its log position and its next identity value preserved, under every compression setting. Writing is atomic: an interrupted write leaves the earlier version in force and its leftovers are removed. A truncated or bit-flipped file is reported as an error when read with checksums enabled, never loaded as different data.",
 ["inputs", "crash_points", "configurations"],
 "all row sets and sizes, delete/free patterns, compression settings, every truncation and byte flip, every interrupted write step",
 "only two LRU heap tests exist; none writes or reads a file",
 ["amelie/db/heap/heap_file.c", "amelie/db/heap/heap.c", "amelie/db/part/part.c", "amelie/db/storage/basefile.h", "amelie/db/storage/encoder.h", "amelie/db/storage/id.h"],
 [("heap_create/heap_open", "amelie/db/heap/heap_file.c"), ("storage volume naming .incomplete", "amelie/db/storage")],
 ["rows of the reopened heap", "directory listing"])

prop("C05", "Row heap never loses, aliases or corrupts a live row",
 "Under any sequence of allocations, frees, frees of old row versions during a snapshot, and iteration, each live row keeps its contents and its address, no two live rows overlap, and iteration yields every live row exactly once and nothing else. Space and row counters equal the true totals. With least-recently-used ordering enabled the eviction order is the order of last use.",
 ["histories"],
 "all allocate/free/touch/snapshot-begin/snapshot-end sequences with any mixture of row sizes",
 "test_heap allocates rows of one size without interleaved frees and snapshots",
 ["amelie/db/heap/heap.c", "amelie/db/heap/heap.h", "amelie/db/heap/page_mgr.h", "amelie/db/heap/heap_iterator.h", "amelie/db/heap/heap_index.c"],
 [("buckets and free lists", "amelie/db/heap/heap.c"), ("snapshot shadow", "amelie/db/heap/heap.c"), ("heap_index LRU", "amelie/db/heap/heap_index.c")],
 ["heap_iterator", "heap metrics"])

prop("C06", "Ordered index behaves as a sorted map",
 "Any history of upsert, replace, delete, lookup, ordered and range iteration (including deletion and replacement under an open iterator) on an ordered index gives the same answers as a sorted map from composite key to row: same membership, same returned previous row, same order, nothing skipped or repeated when seeking to any bound. Merged iteration over several partitions is the sorted merge, and a unique index reports a duplicate exactly when the key exists.",
 ["histories", "inputs"],
 "all operation histories, all composite key types (int, bigint, text, timestamp, uuid, descending/multi-column), all seek bounds",
 "no unit test covers the index code and SQL tests use tens of rows, below page split sizes",
 ["amelie/db/index/tree.c", "amelie/db/index/tree_iterator.h", "amelie/db/index/index_tree.c", "amelie/db/index/index_tree_merge.h", "amelie/db/row/compare.h"],
 [("tree page split/merge", "amelie/db/index/tree.c"), ("seek", "amelie/db/index/tree_iterator.h")],
 ["index_* interface", "iterator_*"])

prop("C07", "Hash index behaves as a map through every resize",
 "Any history of upsert, replace, delete, lookup and full iteration on a hash index gives the same answers as a map from key to row, including while it is incrementally growing and when rows are removed or replaced through an open iterator. Iteration visits each present row exactly once.",
 ["histories", "inputs"],
 "all operation histories with adversarial key collisions, sizes across several growth steps",
 "no unit test covers the index code; SQL tests stay below the first resize",
 ["amelie/db/index/hash.h", "amelie/db/index/hash_store.h", "amelie/db/index/hash_iterator.h", "amelie/db/index/index_hash.c", "amelie/db/index/index_hash_merge.h"],
 [("incremental rehash", "amelie/db/index/hash.h"), ("delete/backshift", "amelie/db/index/hash_store.h")],
 ["index_* interface", "iterator_*"])

prop("C08", "Object files return every row written, in key order",
 "Rows written to an object file, in any number of regions and branches, with any compression and region size, are read back complete, unaltered and in key order from the start and from any seek position, before and after reopening the file. Merging several branches yields the sorted merge in which each key appears once with its newest version. Corruption and truncation of the file are reported, not returned as data.",
 ["inputs", "configurations", "histories"],
 "all row sets, region sizes, compressions, branch stacks, seek keys and damaged bytes",
 "no unit test covers the object code",
 ["amelie/db/object/writer.c", "amelie/db/object/object.c", "amelie/db/object/region_writer.h", "amelie/db/object/region_iterator.h", "amelie/db/object/meta.h", "amelie/db/object/branch_iterator.h", "amelie/db/object/merge_iterator.h", "amelie/db/object/mapping.h"],
 [("writer_start/add/stop", "amelie/db/object/writer.c"), ("meta_iterator/region_iterator seek", "amelie/db/object"), ("merge_iterator", "amelie/db/object/merge_iterator.h")],
 ["branch_iterator", "merge_iterator"])

prop("C09", "A transaction applies completely or not at all",
 "After any transaction of inserts, upserts, updates and deletes on a table with several indexes, abort restores rows, every index and heap contents exactly as before the transaction began, and commit leaves every index describing exactly the same row set, the one obtained by applying the operations in order. A statement that fails on a unique constraint is reported and leaves the transaction's earlier work undoable.",
 ["histories"],
 "all operation sequences within and across transactions, with commits, aborts and constraint failures anywhere",
 "no unit test covers transactions over partitions; SQL tests sample a few fixed aborts",
 ["amelie/db/part/part_op.c", "amelie/db/transaction/log.h", "amelie/db/transaction/tr.h", "amelie/db/transaction/write_log.h", "amelie/db/index/index.h", "amelie/db/transaction/commit.c"],
 [("undo log", "amelie/db/transaction/log.h"), ("part_insert/upsert/update/delete", "amelie/db/part/part_op.c")],
 ["index iterators of all indexes", "heap iterator", "replicated log records"])

prop("C10", "Row encoding preserves every column value and key order",
 "A row built from column values of any types, nulls and sizes yields back exactly those values for every column, and copying or key-extraction preserves them. Comparison of rows by a key is a strict total order that equals column-by-column comparison of the decoded values, and rows with equal keys always have the same partition hash.",
 ["inputs"],
 "all schemas, all values of every type including nulls, empty and boundary-size variable columns",
 "unit tests never build rows with columns; SQL tests sample a few shapes below the width-change boundaries",
 ["amelie/db/row/row.h", "amelie/db/row/compare.h", "amelie/db/row/key.h", "amelie/db/row/keys.h", "amelie/db/row/columns.h", "amelie/db/row/column.h", "amelie/runtime/lib/hash.h"],
 [("row header offset width selection", "amelie/db/row/row.h"), ("compare", "amelie/db/row/compare.h")],
 ["row_column", "row_copy", "compare", "row hash"])

prop("C11", "Partition mapping sends every key to exactly one partition",
 "For any number of partitions, every possible row is routed to exactly one partition, the same one for every lookup, insert or restart that uses an equal key, and the partitions together cover the whole hash range without overlap. Adding, removing or reloading partitions keeps that true.",
 ["inputs", "configurations"],
 "all partition counts, all hash ranges, all keys",
 "not covered by a unit test; SQL tests use a handful of keys and partition counts",
 ["amelie/db/part/part_mapping.h", "amelie/db/part/part_mgr.c", "amelie/db/part/part_mgr_config.h", "amelie/db/part/part_arg.h", "amelie/db/object/mapping.h"],
 [("part_mapping_add/remove/get", "amelie/db/part/part_mapping.h"), ("deploy ranges", "amelie/db/part/part_mgr.c")],
 ["part_mapping_map"])

prop("C12", "Catalog changes are all-or-nothing and survive restart",
 "Any sequence of create, drop, rename, alter, with aborts anywhere, leaves the catalog equal to a model of the committed statements: the right objects exist with the right definitions, errors are raised exactly for missing or duplicate names or dependent objects, and an aborted change leaves no trace. Saving the catalog and loading it again gives an identical catalog.",
 ["histories", "crash_points"],
 "all DDL histories over databases, storages, tables, columns, indexes, tiers and functions, each committed or aborted",
 "no unit test touches the catalog; SQL tests check single fixed statements",
 ["amelie/db/catalog", "amelie/db/transaction/relation_mgr.c", "amelie/db/transaction/log.h"],
 [("ddl ops with log handles", "amelie/db/catalog/*_op.h, table_mgr_alter.c, cascade.c"), ("catalog_file write/read", "amelie/db/catalog/catalog_file.c")],
 ["catalog dump", "relation lists"])

prop("C13", "Definitions and settings round-trip through their stored form",
 "Writing any definition (columns, constraints, keys, indexes, tables, partitions, tiers, storages, databases, users, functions) or any set of configuration and state options and reading it back yields an equal definition, including after copying it. Malformed or unknown input is reported as an error and leaves the previous settings in force.",
 ["inputs", "configurations"],
 "all combinations of definition fields and option values, all malformed documents",
 "config tests only set a few options once",
 ["amelie/db/row/column.h", "amelie/db/row/columns.h", "amelie/db/row/keys.h", "amelie/db/row/constraints.h", "amelie/db/index/index_config.h", "amelie/db/catalog/table_config.h", "amelie/db/catalog/udf_config.h", "amelie/db/tier/tier_config.h", "amelie/db/part/part_mgr_config.h", "amelie/db/storage/storage_config.h", "amelie/runtime/runtime/opts.c", "amelie/runtime/runtime/config.c", "amelie/runtime/runtime/state.c"],
 [("*_config_write/read/copy", "amelie/db"), ("opts_set_json", "amelie/runtime/runtime/opts.c")],
 ["*_config_write output", "opts_list"])

# ---------------------------------------------------------------- data types
prop("C14", "JSON text parsing and printing are mutual inverses",
 "Every valid JSON document is accepted and produces the value it denotes (numbers, escapes, surrogate pairs, nesting, ordering), every malformed or over-deep document is rejected with an error, and no input crashes. Printing any value, compact or formatted, gives valid JSON that parses back to the same value.",
 ["inputs"],
 "all byte strings and all values",
 "no unit test covers JSON; SQL tests sample literals",
 ["amelie/runtime/json/json_parser.c", "amelie/runtime/json/json_export.c", "amelie/runtime/json/escape.h", "amelie/runtime/lib/utf8.h"],
 [("json_parse", "amelie/runtime/json/json_parser.c"), ("json_export", "amelie/runtime/json/json_export.c")],
 ["json_parse / json_export_as"])

prop("C15", "Binary JSON encoding, navigation, mutation and ordering are exact",
 "Encoding any value and decoding it gives the same value and exactly the bytes reserved for it; skipping, path lookup, setting, removing and appending match the same operation on an in-memory document. Comparison is a total order consistent with equality of the decoded values.",
 ["inputs"],
 "all values of all types and nesting, all paths, all pairs and triples of values",
 "no unit test covers the encoding",
 ["amelie/runtime/json/encode.h", "amelie/runtime/json/decode.h", "amelie/runtime/json/json_op.h", "amelie/runtime/json/json_compare.h"],
 [("encode_*/json_size_*", "amelie/runtime/json/encode.h"), ("unpack_*", "amelie/runtime/json/decode.h"), ("json_compare", "amelie/runtime/json/json_compare.h")],
 ["encoded bytes"])

prop("C16", "Date, timestamp and interval arithmetic is calendar-correct",
 "Parsing and printing dates, timestamps (with any supported timezone or offset) and intervals round-trip, malformed texts are rejected, a time of the day or a date beyond the calendar is normalized (00:00:70 is 00:01:10), and add, subtract, truncate, extract and compare agree with the proleptic Gregorian calendar over the supported range.",
 ["inputs"],
 "all dates, timestamps, intervals, timezones and texts",
 "no unit test; SQL tests sample literals",
 ["amelie/runtime/lib/date.c", "amelie/runtime/lib/timestamp.c", "amelie/runtime/lib/interval.c", "amelie/runtime/lib/timezone.c", "amelie/runtime/lib/timezone_mgr.c"],
 [("timestamp_set/get/add/trunc", "amelie/runtime/lib/timestamp.c"), ("date_*", "amelie/runtime/lib/date.c"), ("interval_*", "amelie/runtime/lib/interval.c")],
 ["date/timestamp/interval functions"])

prop("C17", "Text codecs and checksums are exact and total",
 "Base64, base64url, UUID and UTF-8 encoders and decoders are inverses on valid input, agree with their standards, and reject or safely handle every invalid input. Checksums agree with the reference definition for every buffer, alignment and split, on every CPU path.",
 ["inputs"],
 "all byte strings, lengths, alignments and chunkings",
 "no unit test covers them",
 ["amelie/runtime/lib/base64.c", "amelie/runtime/lib/base64url.c", "amelie/runtime/lib/uuid.c", "amelie/runtime/lib/utf8.h", "amelie/runtime/lib/crc.c", "amelie/runtime/lib/hash.h"],
 [("base64_encode/decode", "amelie/runtime/lib/base64.c"), ("crc32 hw/sw", "amelie/runtime/lib/crc.c")],
 ["function results"])

prop("C18", "Structures shared by threads stay exact under every interleaving",
 "Whatever threads use them at once and however they interleave: generated identity and sequence values are never handed out twice and never repeat an explicitly stored one, followed counters (lsn, psn) never move back, generated UUIDs and random values are distinct, additions are never lost, caches of buffers and codecs never give one object to two users and free it exactly when its last user is done, id lists show every snapshot consistently, and every request put to a queue is executed once, in the order of its sender, with its result seen by the waiter, whose timed wait ends neither early nor without an answer that is there.",
 ["inputs", "schedules"],
 "all numbers of threads, operation sequences and interleavings at single memory accesses",
 "unit tests use these structures from one thread; interleavings of single memory accesses cannot be sampled by them",
 ["amelie/db/row/sequence.h", "amelie/runtime/runtime/opt.h", "amelie/runtime/lib/random.c", "amelie/runtime/lib/uuid.h", "amelie/runtime/lib/id_mgr.h", "amelie/runtime/lib/codec_cache.h", "amelie/runtime/base/buf_cache.h", "amelie/runtime/base/buf_mgr.h", "amelie/runtime/base/spinlock.h", "amelie/runtime/base/atomic.h", "amelie/runtime/base/cond_var.h", "amelie/server/client/request.h", "amelie/server/client/request_queue.h", "amelie/db/transaction/limit.h"],
 [("sequence_next/sequence_sync", "amelie/db/row/sequence.h"), ("opt_int_follow", "amelie/runtime/runtime/opt.h"), ("random_generate", "amelie/runtime/lib/random.c"), ("buf_cache_pop/push, buf_free", "amelie/runtime/base/buf_cache.h"), ("request_wait/request_complete", "amelie/server/client/request.h")],
 ["values returned to each thread", "final counts"])

# ---------------------------------------------------------------- runtime
prop("C20", "Core containers behave as their abstract data types",
 "Buffers, arenas, lists, red-black trees, hash tables, id managers, rings and vectors behave like the sequence, map, set or queue they implement under every sequence of operations, never returning stale, duplicate or lost elements. Formatted output and string parsing of numbers are exact, and overflow is reported.",
 ["histories", "inputs"],
 "all operation histories and sizes",
 "buf and arena tests cover a few fixed writes; the others are not tested",
 ["amelie/runtime/base/buf.h", "amelie/runtime/base/arena.h", "amelie/runtime/base/str.h", "amelie/runtime/base/list.h", "amelie/runtime/base/ring.h", "amelie/runtime/base/fmt.h", "amelie/runtime/base/overflow.h", "amelie/runtime/lib/rbtree.c", "amelie/runtime/lib/hash_table.h", "amelie/runtime/lib/id_mgr.h", "amelie/runtime/lib/vector.c", "amelie/runtime/lib/avg.h"],
 [("rbtree", "amelie/runtime/lib/rbtree.c"), ("ring", "amelie/runtime/base/ring.h"), ("str_toint", "amelie/runtime/base/str.h")],
 ["container contents"])

prop("C21", "Coroutines, events and timers never lose a wakeup",
 "A coroutine waiting on an event, condition, timer, channel or another coroutine resumes exactly when it was signalled, timed out or cancelled, with the matching result; no signal is lost or delivered twice and no timer fires early or out of order. Errors and deferred cleanups run exactly once in reverse order, whatever path leaves a scope.",
 ["schedules", "histories"],
 "all programs of create, wait, signal, sleep, cancel, join, throw over many coroutines and tasks",
 "unit tests have one fixed program per feature",
 ["amelie/runtime/base/coroutine.h", "amelie/runtime/base/coroutine_mgr.h", "amelie/runtime/base/event.h", "amelie/runtime/base/cond.h", "amelie/runtime/base/timer_mgr.c", "amelie/runtime/base/bus.h", "amelie/runtime/base/mailbox.h", "amelie/runtime/base/ipc.h", "amelie/runtime/base/rpc.h", "amelie/runtime/base/exception.h", "amelie/runtime/base/defer.h", "amelie/runtime/base/task.c"],
 [("event_signal/wait", "amelie/runtime/base/event.h"), ("timer_mgr", "amelie/runtime/base/timer_mgr.c"), ("bus", "amelie/runtime/base/bus.h")],
 ["order and result of resumptions"])

prop("C22", "Relation locks are compatible, fair and always released",
 "Two holders of a relation's lock always have compatible modes, the first waiter in line is granted as soon as every conflicting holder has released and is never overtaken by a later waiter, and a lock set is obtained without deadlock whatever order statements name relations. A cancelled waiter holds and blocks nothing; when everything is released no relation stays locked and no waiter stays asleep.",
 ["schedules"],
 "all programs of lock/unlock by mode over several relations from many coroutines and tasks",
 "test_lock* use at most a few coroutines in a fixed order",
 ["amelie/runtime/runtime/lock_mgr.h", "amelie/runtime/runtime/lock.h", "amelie/runtime/runtime/lock_id.h", "amelie/runtime/runtime/lockable_mgr.h", "amelie/runtime/runtime/relation.h", "amelie/runtime/runtime/access.h"],
 [("lock_mgr_lock/unlock", "amelie/runtime/runtime/lock_mgr.h")],
 ["held modes", "waiter list"])

prop("C23", "Message passing between threads is reliable and ordered",
 "Every message sent between tasks is received exactly once and in per-sender order, remote calls return the callee's result or error to the right caller exactly once, and background jobs run once each. This holds for any number of senders, receivers, sizes and interleavings.",
 ["schedules"],
 "all programs of senders and receivers over several OS threads",
 "unit tests use one producer and one consumer",
 ["amelie/runtime/base/mailbox.h", "amelie/runtime/base/bus.h", "amelie/runtime/base/ipc.h", "amelie/runtime/base/rpc.h", "amelie/runtime/base/ring.h", "amelie/runtime/lib/job_mgr.c", "amelie/runtime/lib/job_worker.c", "amelie/runtime/base/notify.c"],
 [("bus/mailbox", "amelie/runtime/base"), ("job_mgr", "amelie/runtime/lib/job_mgr.c")],
 ["received messages"])

prop("C24", "Stream codecs and page encoding are lossless",
 "Compressing and decompressing (and any encoder pipeline built from them) returns the original bytes for every input, chunk list and level, cached codecs carry no state between uses, and cut or wrong-size input is reported as an error rather than returned as data. Damaged input never writes outside its destination.",
 ["inputs", "configurations"],
 "all byte strings, chunkings, algorithms, reuse patterns and corruptions",
 "not covered by unit tests",
 ["amelie/runtime/lib/codec_compression.c", "amelie/runtime/lib/codec_cache.h", "amelie/runtime/lib/codec.h", "amelie/db/storage/encoder.h"],
 [("codec encode/decode", "amelie/runtime/lib/codec_compression.c"), ("encoder", "amelie/db/storage/encoder.h")],
 ["decoded bytes"])

prop("C25", "Scripts and import files split into whole statements and rows",
 "Splitting a script into statements and an import file into rows gives the same pieces, in order, with none lost, merged, cut or repeated, however the text arrives (by line, in blocks, all at once, any readahead size) and whatever quotes, comments, nested blocks, blank lines and limits it contains.",
 ["inputs", "configurations"],
 "all scripts and import files, arrival chunkings, batch row and size limits",
 "the test runner feeds scripts one line at a time and no unit test covers either splitter",
 ["amelie/runtime/lib/separator.h", "amelie/runtime/lib/load.c", "amelie/runtime/os/readahead.h"],
 [("separator_read", "separator.h"), ("load", "load.c")],
 ["list of statements", "batches"])

# ---------------------------------------------------------------- network
prop("C30", "HTTP requests are framed correctly however they arrive",
 "For every valid HTTP request or reply and every split of its bytes into reads, the parsed method, path, headers and body are the same and the next pipelined message starts at the right byte. Malformed, oversized or truncated input is rejected with an error, without crash, hang or reading another message's bytes.",
 ["inputs", "schedules"],
 "all requests, header sets, body sizes, split points and malformed byte strings",
 "HTTP SQL tests send whole well-formed requests",
 ["amelie/server/http/http.c", "amelie/runtime/os/readahead.h", "amelie/runtime/os/tcp.c", "amelie/server/client/client.c"],
 [("http_read/http_read_content", "amelie/server/http/http.c"), ("readahead", "amelie/runtime/os/readahead.h")],
 ["parsed request"])

prop("C31", "URIs and endpoints are interpreted faithfully",
 "Parsing any connection URI or request endpoint yields exactly the user, password, hosts, ports, path and arguments it denotes after percent-decoding, printing and parsing again is the identity, and malformed text is rejected with an error.",
 ["inputs"],
 "all byte strings built from URI components and mutations",
 "not covered by unit tests",
 ["amelie/server/http/uri.c", "amelie/server/http/uri.h", "amelie/server/http/endpoint.c", "amelie/server/http/endpoint.h"],
 [("uri_parse", "amelie/server/http/uri.c"), ("endpoint_parse", "amelie/server/http/endpoint.c")],
 ["parsed fields"])

prop("C32", "Only a valid, unexpired token of an existing user is accepted",
 "A request is authenticated exactly when its token is well formed, carries a correct signature under that user's secret, and is not past its expiry; every altered, forged, expired or foreign token and unknown or revoked user is refused. Repeated use, caching and user replacement never change the verdict.",
 ["inputs", "histories"],
 "all tokens, single-bit alterations, clock positions, user create/drop/revoke histories",
 "auth SQL tests use a few fixed tokens",
 ["amelie/server/auth/auth.c", "amelie/server/auth/auth_cache.c", "amelie/server/auth/jwt.c", "amelie/server/auth/jwt_decode.c", "amelie/server/auth/jwt_encode.c", "amelie/server/user/user_mgr.c", "amelie/server/user/user_cache.h"],
 [("auth", "amelie/server/auth/auth.c"), ("jwt_decode", "amelie/server/auth/jwt_decode.c")],
 ["auth verdict"])

prop("C33", "The user registry is a consistent persistent map",
 "Creating, altering (revoking) and dropping users behaves like a map from name to definition, failing exactly on duplicates and missing names, and the registry restored from its stored form equals the one saved, for every history.",
 ["histories"],
 "all histories of user management statements with restarts",
 "SQL tests sample a few statements",
 ["amelie/server/user/user_mgr.c", "amelie/server/user/user_cache.h", "amelie/server/user/user_config.h", "amelie/server/user/user.h"],
 [("user_mgr_create/drop/alter", "amelie/server/user/user_mgr.c")],
 ["user list"])

# ---------------------------------------------------------------- whole system
prop("C40", "Query results do not depend on partitioning or physical layout",
 "A query returns the same result as a reference evaluation of its meaning over the current table contents, whatever the number of partitions, backends and frontends, the index used, and whether rows were just written, checkpointed or recovered.",
 ["programs", "configurations", "histories"],
 "all schemas, data, queries from the supported SQL grammar and all physical configurations",
 "SQL tests compare fixed queries against fixed expected output",
 ["amelie/compiler", "amelie/vm", "amelie/system", "amelie/db"],
 [("planner and VM", "amelie/compiler, amelie/vm"), ("index merge", "amelie/db/index")],
 ["result sets"])

prop("C41", "Write statements and constraints have their SQL meaning, atomically",
 "Insert, upsert, update, delete and multi-statement transactions leave the tables in the state a reference evaluation gives; a statement or transaction that fails changes nothing, and constraint violations are reported exactly when they occur.",
 ["programs", "histories"],
 "all DML programs over generated schemas, with errors anywhere",
 "SQL tests check fixed cases",
 ["amelie/vm/executor", "amelie/vm/vm", "amelie/db/part/part_op.c", "amelie/db/transaction"],
 [("executor commit/abort", "amelie/vm/executor"), ("part_op", "amelie/db/part/part_op.c")],
 ["tables after each statement"])

prop("C42", "Concurrent transactions are serializable",
 "The results returned to concurrent clients and the final database state are those of some serial order of the committed transactions that respects real-time order; no committed update is lost and no aborted one is visible.",
 ["schedules", "histories"],
 "all concurrent client histories over shared rows",
 "SQL tests are single-session",
 ["amelie/vm/executor", "amelie/db/transaction/commit.c", "amelie/db/transaction/consensus.h", "amelie/runtime/runtime/lock_mgr.h"],
 [("commit/consensus", "amelie/db/transaction"), ("executor", "amelie/vm/executor")],
 ["client results"])

prop("C43", "Server survives any client bytes and SQL text",
 "No HTTP request and no SQL text, valid or not, crashes, hangs or corrupts the server: each gets a result or an error and later requests are answered correctly with the stored data intact.",
 ["inputs", "programs"],
 "all byte strings sent over a connection and all SQL texts",
 "tests send only well formed requests",
 ["amelie/compiler", "amelie/vm", "amelie/server", "amelie/system"],
 [("parser errors", "amelie/compiler"), ("session error handling", "amelie/system/session")],
 ["server liveness and contents after fuzzed requests"])
prop("C44", "Scalar operators and functions compute their defined value",
 "For every argument value (nulls, extremes and columns or constants alike) a scalar operator or function gives the value of its definition and reports an error exactly where it is undefined: 64-bit arithmetic that reports overflow and division by zero, character-based UTF-8 string functions, LIKE, digests, regular expressions of the first match, null handling, JSON access, set, unset, put, remove, push and pop on a copy that leaves the stored value alone.",
 ["inputs", "programs"],
 "all expressions over all column values and constants",
 "SQL tests evaluate a few constants for each function",
 ["amelie/vm/func", "amelie/vm/vm/vm.c", "amelie/vm/value/like.c", "amelie/vm/value/update.c", "amelie/vm/value/json_array.h", "amelie/compiler"],
 [("operators", "amelie/vm/vm/vm.c"), ("function library", "amelie/vm/func"), ("JSON updates", "amelie/vm/value/update.c")],
 ["value or error of each expression for each row"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
