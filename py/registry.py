# property -> harnesses.  quick/thorough: (cases per worker, seconds cap per worker)
# controlled scheduler (h/sched.h)
SCHED = dict(cflags=["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"],
             ldflags=["-Wl,--wrap=" + f for f in "pthread_create pthread_join pthread_mutex_lock pthread_mutex_unlock pthread_cond_wait "
                      "pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast epoll_wait usleep sched_yield clock_gettime gettimeofday".split()])
CHECKS = {
 "C14": dict(
  harness=[dict(name="json_text", src="h/json_text.c", quick=(14000, 60), thorough=(200000, 700))],
  rule="a case is one generated document (rendered with random whitespace and escapes), one mutated document, "
       "one token soup or one deep nesting; non-trivial: a valid document with two or more levels, or a text whose "
       "verdict the strict reference reader decides (valid or malformed)",
 ),
 "C15": dict(
  harness=[dict(name="json_bin", src="h/json_bin.c", quick=(110000, 60), thorough=(600000, 700))],
  rule="a case encodes generated documents and checks sizes, decoding, navigation, path lookup, keyed decoding or the "
       "order of three related documents; non-trivial: a container round-trip, a path that exists, a complete keyed "
       "decode, or a comparison of different containers",
 ),
 "C17": dict(
  harness=[dict(name="codecs_text", src="h/codecs_text.c", quick=(400000, 60), thorough=(2000000, 700))],
  rule="a case encodes/decodes generated bytes with base64/base64url, a uuid, a UTF-8 text (and a damaged form of each), "
       "or checks checksums and hashes against bitwise references over alignments and chunkings; non-trivial: padding needed, "
       "multi-byte characters, or more than 8 bytes",
 ),
 "C16": dict(
  harness=[dict(name="datetime", src="h/datetime.c", quick=(130000, 60), thorough=(1000000, 700))],
  rule="a case is one date/timestamp/interval text (valid, out of range or damaged), one arithmetic, truncate or extract step, "
       "one timezone conversion (system zones against libc, half of them near an offset transition) or one generated timezone file; "
       "non-trivial: the reference accepts the text, the result is in range, or the conversion was made",
 ),
 "C06": dict(
  harness=[dict(name="index_tree", src="h/index_tree.c", quick=(4000, 60), thorough=(100000, 700))],
  rule="a case is a history of upserts, replaces, deletes, lookups, bulk runs and range scans (replacing and deleting under the iterator) "
       "on one index with 1-3 key columns of any key type and page sizes 2..512, or a merge over up to 6 indexes; "
       "non-trivial: more than two rows were present",
 ),
 "C07": dict(
  harness=[dict(name="index_hash", src="h/index_hash.c", quick=(4000, 60), thorough=(100000, 700))],
  rule="a case is a history of upserts, replaces, deletes, lookups, bulk runs and full scans (replacing and deleting under the iterator) "
       "on one index with 1-3 key columns of any key type through several resizes, or a merge over up to 6 indexes; "
       "non-trivial: more than two rows were present",
 ),
 "C05": dict(
  harness=[dict(name="heap", src="h/heap.c", quick=(2500, 60), thorough=(60000, 700))],
  rule="a case is a history of allocations, frees, updates, uses (lru) and snapshots (shadow heap, delayed frees, moving rows back) with sizes "
       "around every bucket border up to and above the page size, or a sorted index of the live rows; non-trivial: more than three rows and some freed",
 ),
 "C04": dict(
  harness=[dict(name="heap_file", src="h/heap_file.c", quick=(600, 60), thorough=(20000, 700))],
  rule="a case is a history of rows written through a partition manager (1-4 partitions, 1-2 volumes, any compression), saved, interrupted or failed "
       "writes and restarts, or one saved file damaged in a dozen ways; non-trivial: more than two rows after a restart, or more than three damaged files refused",
 ),
 "C08": dict(
  harness=[dict(name="objects", src="h/objects.c", quick=(700, 60), thorough=(20000, 700))],
  rule="a case is an object file written in one to seven branches (generated keys of 1-2 columns, region sizes from 1 byte to 1 MB, any compression, "
       "crc on or off) read by scan, seek and merge before and after reopening and after interrupted branches, one file damaged in a dozen ways, or a "
       "mapping over objects of disjoint ranges; non-trivial: more than two rows, three refused files or three objects",
 ),
 "C09": dict(
  harness=[dict(name="part_op", src="h/part_op.c", quick=(1500, 60), thorough=(40000, 700))],
  rule="a case is a history of transactions (insert, upsert, update, delete, changes under a scan, replay operations, unique violations, log limits) on "
       "one partition with a primary and up to three unique secondary indexes (hash or tree, any key type), committed, aborted or prepared in groups, "
       "with heap snapshots in between and the write log replayed onto a second partition; non-trivial: a transaction made more than one operation",
 ),
 "C01": dict(
  harness=[dict(name="wal", src="h/wal.c", quick=(1500, 60), thorough=(40000, 700),
                ldflags=["-Wl,--wrap=fdatasync", "-Wl,--wrap=fsync"]),
           dict(name="wal_sched", src="h/wal_threads.c", quick=(300, 40), thorough=(20000, 500), hflags=["-DWAL_SCHED=1"],
                cflags=SCHED["cflags"], ldflags=SCHED["ldflags"] + ["-Wl,--wrap=" + f for f in "fdatasync fsync writev open lstat".split()]),
           dict(name="wal_threads", src="h/wal_threads.c", quick=(60, 14), thorough=(4000, 600), schedule=True,
                ldflags=["-Wl,--wrap=" + f for f in "fdatasync fsync writev open lstat".split()])],
  rule="a case is a history of writes, rollovers, cursor reads from any position, live cursors, failed writes, gc, slots, restarts, truncations and "
       "crashes with a torn or damaged tail; non-trivial: more than three records over more than one log file at the end",
 ),
 "C02": dict(
  harness=[dict(name="wal_gc", src="h/wal.c", quick=(1500, 60), thorough=(40000, 700), hflags=["-DWAL_GC=1"],
                ldflags=["-Wl,--wrap=fdatasync", "-Wl,--wrap=fsync"]),
           dict(name="wal_sched_gc", src="h/wal_threads.c", quick=(300, 40), thorough=(20000, 500), hflags=["-DWAL_SCHED=1"],
                cflags=SCHED["cflags"], ldflags=SCHED["ldflags"] + ["-Wl,--wrap=" + f for f in "fdatasync fsync writev open lstat".split()]),
           dict(name="wal_threads_gc", src="h/wal_threads.c", quick=(60, 14), thorough=(4000, 600), schedule=True,
                ldflags=["-Wl,--wrap=" + f for f in "fdatasync fsync writev open lstat".split()])],
  rule="a case is a history of writes, slots (added, advanced, removed, attached), gc with any minimum, snapshots, live cursors and restarts over many small "
       "log files; non-trivial: more than three records over more than one log file at the end",
 ),
 "C10": dict(
  harness=[dict(name="row", src="h/row.c", quick=(20000, 60), thorough=(400000, 700))],
  rule="a case is 2-8 rows of a generated schema (1-64 columns of every type, 1-3 key columns at any position, nulls, sizes around the borders of the "
       "8/16/32 bit formats) built in memory, in a heap and in a buffer, copied, hashed and compared; non-trivial: more than two rows of more than one column",
 ),
 "C11": dict(
  harness=[dict(name="mapping", src="h/mapping.c", quick=(150, 60), thorough=(6000, 700))],
  rule="a case creates 1-8192 partitions over 1-3 volumes for 1-3 key columns of any key type, checks the ownership of all 8192 slots, routes 5-60 generated "
       "keys against an independent hash, takes partitions out and back, and restarts; non-trivial: the keys meet more than one partition",
 ),
 "C20": dict(
  harness=[dict(name="containers", src="h/containers.c", quick=(30000, 60), thorough=(800000, 700))],
  rule="a case is an operation history on one container (buffer, cached buffers, arena, red-black tree, hash table, id manager, ring, list, histogram) against "
       "a plain array model, or one string, number, checked arithmetic or vector operation against an independent evaluation; non-trivial: the container held "
       "several elements, a page, chain or bound was crossed, or the text contained what is looked for",
 ),
 "C24": dict(
  harness=[dict(name="stream_codec", src="h/stream_codec.c", quick=(1500, 60), thorough=(40000, 700))],
  rule="a case encodes generated data (0-500 KB, any compressibility) in generated chunks with codecs taken from and returned to the cache, some after abandoned "
       "encodings, decodes it with the library and with another codec, and with wrong sizes, cut and damaged data; or the same through the storage encoder; "
       "non-trivial: more than one chunk and more than 100 bytes",
 ),
 "C25": dict(
  harness=[dict(name="script", src="h/script.c", quick=(4000, 60), thorough=(400000, 700))],
  rule="a case is a generated script of up to 11 statements (nested blocks, case expressions, strings, comments, names containing keywords) arriving by line, by "
       "several lines or at once, or a generated import file read in batches with any row and size limits and readahead; non-trivial: more than two statements or batches",
 ),
 "C32": dict(
  harness=[dict(name="auth", src="h/auth.c", quick=(4000, 60), thorough=(200000, 700))],
  rule="a case is a history of user changes, clock moves and tokens (signed with right and wrong secrets, made by the library, malformed, expired, altered in any "
       "byte, recombined from other tokens, repeated) put to one authenticator with its cache; non-trivial: more than one token had to be accepted",
 ),
 "C33": dict(
  harness=[dict(name="users", src="h/auth.c", quick=(700, 60), thorough=(40000, 700), hflags=["-DUSERS=1"],
                ldflags=["-Wl,--wrap=" + f for f in "write rename unlink ftruncate open".split()])],
  rule="a case is a history of creating, altering and dropping users with copies synced as the frontends do, restarts from the state file and kills at every file "
       "operation of a save; non-trivial: more than two changes and a restart",
 ),
 "C30": dict(
  harness=[dict(name="http", src="h/http.c", quick=(6000, 60), thorough=(300000, 700),
                ldflags=["-Wl,--wrap=" + f for f in "read recv write writev".split()])],
  rule="a case is a stream of 1-5 generated http messages arriving in generated pieces (1 byte to everything), cut or limited anywhere; or a malformed stream read "
       "twice in different pieces; or messages written by the library through partial writes and read back; non-trivial: more than one message read, or one refused",
 ),
 "C31": dict(
  harness=[dict(name="uri", src="h/uri.c", quick=(20000, 60), thorough=(800000, 700))],
  rule="a case is a uri or http endpoint built from generated components (percent encoding varied), parsed, exported, copied, stored, read back and reset; a malformed "
       "one that must be refused; or a mutated one; non-trivial: a path and arguments are present",
 ),
 "C12": dict(
  harness=[dict(name="catalog", src="h/catalog.c", quick=(400, 60), thorough=(20000, 700),
                ldflags=["-Wl,--wrap=" + f for f in "write rename unlink open".split()])],
  rule="a case is a history of catalog statements of every kind (storages, databases, tables, columns, indexes, tiers, functions; names in any letter case, missing, "
       "duplicate or depended upon; unusable storages), committed or aborted, with restarts, kills at every file operation of storing the catalog and replay of the log; "
       "non-trivial: more than five committed statements and restarts",
 ),
 "C21": dict(
  harness=[dict(name="coro", src="h/coro.c", quick=(20000, 60), thorough=(300000, 700),
                ldflags=["-Wl,--wrap=clock_gettime", "-Wl,--wrap=epoll_wait"])],
  rule="a case is a set of generated coroutine programs on a virtual clock (waits with and without timeouts on local, attached and nested events, signals, sleeps, "
       "mailboxes, creation, joins, cancels, postponed cancels, busy time), or a history of timers, or programs of nested scopes with cleanups, errors and switches in between; "
       "non-trivial: more than 8 switches, more than 3 timers fired, or more than 2 cleanups over more than 8 steps",
 ),
 "C22": dict(
  harness=[dict(name="locks", src="h/locks.c", quick=(15000, 60), thorough=(300000, 700),
                ldflags=["-Wl,--wrap=clock_gettime", "-Wl,--wrap=epoll_wait"])],
  rule="a case is a set of generated coroutine programs locking 1-5 relations (access lists in any order, every mode, locks taken again, locks by name, releases in any order, "
       "cancels before, in and after the wait) compared after every step with a model of holders and queues; non-trivial: more than two waits and a grant after a wait",
 ),
 "C23": dict(
  harness=[dict(name="tasks", src="h/tasks.c", quick=(4000, 60), thorough=(20000, 700), **SCHED)],
  rule="a case is a set of 1-5 tasks on their own threads with up to 6 client coroutines each (messages, remote calls and sets of calls with results and errors, background "
       "jobs, events signalled by other threads, locks, full queues, cancels, early exits) run under a generated schedule that switches threads at single memory accesses; "
       "non-trivial: more than one task, more than four interactions and more than four preemptions",
 ),
 "C18": dict(
  harness=[dict(name="shared", src="h/shared.c", quick=(4000, 60), thorough=(200000, 700), cflags=SCHED["cflags"] + ["-fno-inline"], ldflags=SCHED["ldflags"])],
  rule="a case is 1-5 threads with up to 48 generated operations each on shared sequences, options, random generators, buffer and codec caches, id lists, limits, breakpoints "
       "and request queues, run under a generated schedule that switches threads at single memory accesses and calls; non-trivial: more than one thread, more than 8 operations "
       "and more than 3 preemptions",
 ),
 "C13": dict(
  harness=[dict(name="config", src="h/config.c", quick=(20000, 60), thorough=(800000, 700))],
  rule="a case is a generated definition (table, function, storage, database, user, tier, volume, column or index) written, read, copied, printed as text, read back and read "
       "from a changed or malformed document; or a history of setting options by documents and arguments (valid, wrong, unknown), listing, copying, saving and opening; or a listen "
       "address; non-trivial: a definition of more than 60 bytes with a changed document, more than two settings, or a listen address with more than two fields",
 ),
 "C03": dict(
  harness=[dict(name="crash", src="h/crash.c", quick=(100000, 50), thorough=(1000000, 700), full=True, schedule=True, workers=6,
                ldflags=["-Wl,--wrap=" + f for f in "open write writev pwrite pwritev rename unlink mkdir rmdir fsync fdatasync ftruncate".split()])],
  rule="a case is a child process which runs the whole database over a scratch directory with generated settings (backends, log sync mode, log file size, compression, checkpoint), up to "
       "three sessions which write disjoint key ranges of two tables at once (statements, blocks, failing ones, DDL, truncate, checkpoint, shutdown), and a kill at the N-th file "
       "operation, of the process or of the power (unsynced tails of files are cut at a generated place), also during the start after an earlier kill; after each restart the contents are compared with the "
       "model, which allows every statement in flight to have happened or not; non-trivial: at least one kill and more than three acknowledged statements",
  assumptions=["db/service is replaced by a shim (verif/overlay/service): checkpoint and refresh order is the shim's", "created, renamed and removed directory entries survive a power loss: only file contents are lost"],
 ),
"C42": dict(
  harness=[dict(name="conc", src="h/conc.c", quick=(100000, 45), thorough=(1000000, 700), full=True, schedule=True, workers=6,
                ldflags=["-Wl,--wrap=" + f for f in "write writev pwrite read fsync fdatasync".split()])],
  rule="a case is a database with generated settings and two partitioned tables of six rows, and up to four rounds in which two to five sessions execute generated sequences of statements and "
       "transactions over the same rows at once (increments, appends, upserts, deletes, copies between tables, writes which depend on reads, loops, aborts, reads of both tables; truncate, drop and create "
       "table; delays in system calls; failing log writes), restarts and checkpoints between rounds; a serial order of the acknowledged operations which respects real time and explains all results and "
       "the final contents is searched for; non-trivial: more than three overlapping pairs of transactions",
  assumptions=["db/service is replaced by a shim (verif/overlay/service): the tree at this commit does not compile with its own, therefore checkpoint and index creation are not executed at the same time as transactions",
               "a failed transaction needs no reason when it overlaps with another failed one or with DDL"],
 ),
"C43": dict(
  harness=[dict(name="fuzz", src="h/fuzz.c", quick=(100000, 45), thorough=(1000000, 700), full=True, schedule=True, workers=6,
                ldflags=["-Wl,--wrap=" + f for f in "fsync fdatasync".split()])],
  rule="a case is up to four requests to a database with two scratch tables, a function and a table which no request names: SQL from a grammar over all statements, types, operators and functions of the "
       "dialect, the same with tokens and bytes mutated, soups of tokens, deep and long texts, over a session or HTTP, and whole, cut, split and damaged HTTP requests and imports over the socket; no crash, "
       "sanitizer report or hang, every reply is a whole result or error, a failed request changes no table, the other table keeps its contents, a new connection is served, and a restart "
       "finds the same tables; non-trivial: a request was answered",
  assumptions=["endless loops by their meaning (WHILE), sleeps and the administration of the server (databases, storages, users, backup, replication) are left out of the texts",
               "db/service is replaced by a shim (verif/overlay/service)", "a C string ends SQL texts sent over a session: zero bytes are sent over HTTP only"],
 ),
"C40": dict(
  harness=[dict(name="query", src="h/sql.c", quick=(100000, 45), thorough=(1000000, 600), full=True, schedule=True, workers=6, hflags=["-DQUERIES"])],
  rule="a case is a database in its own directory with generated settings (backends, frontends, log, compression), tables with generated columns, keys, indexes and partition "
       "counts, filled by generated statements, checkpointed, reopened and altered in between, and queries from the whole grammar (joins, subqueries, CTE, aggregates, HAVING, "
       "DISTINCT, ORDER BY, LIMIT, index hints, derived tables, FOR loops) whose results are compared with a reference evaluation over the model of the contents; "
       "non-trivial: more than three operations and more than two rows stored at the end",
  assumptions=["db/service is replaced by a shim (verif/overlay/service): the tree at this commit does not compile with its own", "numbers are compared with the precision of the JSON output"],
 ),
 "C41": dict(
  harness=[dict(name="dml", src="h/sql.c", quick=(100000, 45), thorough=(1000000, 600), full=True, schedule=True, workers=6)],
  rule="a case is a database as for C40 and a history of INSERT, upsert, UPDATE, DELETE (with RETURNING, SELECT sources, subqueries), blocks of several statements, errors "
       "anywhere in them, DDL, checkpoints and restarts; after every statement its result and from time to time every table through every index are compared with the model; "
       "non-trivial: more than three operations and more than two rows stored at the end",
  assumptions=["db/service is replaced by a shim (verif/overlay/service): the tree at this commit does not compile with its own"],
 ),
"C44": dict(
  harness=[dict(name="func", src="h/func.c", quick=(100000, 40), thorough=(1000000, 600), full=True, workers=6)],
  rule="a case is a table of a column of each scalar type with random rows (nulls, extremes, UTF-8 text, nested JSON) and expressions of operators and functions over its columns and over "
       "constants, as the result of a query and in its condition; the value of each row, or the error, is that of a reference evaluator; non-trivial: more than three expressions gave the values expected for all rows",
  assumptions=["db/service is replaced by a shim (verif/overlay/service)", "reals are compared with the precision of the JSON output", "empty matches of regexp_replace are not generated"],
 ),
}
