prop("C21", "Reads by key return the latest write wherever it is stored",
     "A point read returns the value (and, as a record, the key, value and sequence number) of the last write of that key, and not-found if the key was never written or was deleted last, after every sequence of writes, deletions, log syncs, log rotations, flushes into the tables, compactions between levels and close-reopen cycles.",
     ["histories", "inputs"], "every sequence of operations within the bounds over symbolic keys and values", "a test follows one history; which level, log file or table shadows which depends on the order of writes, flushes and compactions",
     ["src/jungle.cc", "src/log_mgr.cc", "src/table_mgr.cc", "src/table_file.cc", "src/memtable.cc", "src/table_compaction.cc"],
     [("log section before tables, newest table first", "src/jungle.cc"), ("bloom filters and lookup boosters", "src/table_file.cc"), ("compaction keeps the newest version", "src/table_compaction.cc")],
     note="operation sequences within the stated length over two symbolic one-byte keys (plus common prefix) or fixed keys with the real hash; ForestDB is replaced by a model of its documented API")
prop("C22", "Key iteration visits exactly the live keys in order, both ways",
     "A key iterator, unbounded or between two inclusive bounds, visits exactly the live keys, each once, with its latest record, in ascending order forward and descending order backward, wherever the records are stored. A seek stands on the exact key or on the nearest live key in the requested direction, and the direction may change at any point.",
     ["histories", "inputs"], "every distribution of live, overwritten and deleted keys over the storage places, every seek key and range within the bounds", "tests walk a full range of regular keys in one direction; the merge of several sources fails only for particular distributions and turns",
     ["src/iterator.cc", "src/log_iterator.cc", "src/table_iterator.cc", "src/table_file_iterator.cc", "src/memtable_iterator.cc"],
     [("merge window and cursor rules", "src/iterator.cc"), ("per-source clamping and range bounds", "src/memtable_iterator.cc")],
     note="two or three symbolic keys over two or three storage places, one seek, a full walk and a full walk back; where a move past the end or a seek without a match leaves the cursor (on the outermost record or beyond it) is not specified")
prop("C23", "Reads and iteration by sequence number return exactly what was written",
     "Each write gets the next sequence number. Reading by number returns exactly the record written with it while it is in the log section. A sequence iterator, unbounded or between inclusive bounds, visits in ascending order records with exactly their number, key, value and kind, including every record of the log section and the latest flushed insertion of each key; walking back visits the same ones, and a seek stands on the exact number or the nearest one in the requested direction.",
     ["histories", "inputs"], "every operation sequence, bounds and sought number within the stated limits", "tests iterate one regular history; seek directions, bounds between numbers and merges of log and tables need particular combinations",
     ["src/iterator.cc", "src/log_iterator.cc", "src/table_iterator.cc", "src/memtable_iterator.cc", "src/log_mgr.cc", "src/memtable.cc"],
     [("seekSN clamping", "src/memtable_iterator.cc"), ("merge by sequence number", "src/iterator.cc"), ("file lookup by number", "src/log_manifest.cc")],
     note="operation sequences within the stated length over two fixed keys with symbolic values; ForestDB is replaced by a model of its documented API")
prop("C24", "A snapshot keeps showing the state at the moment it was opened",
     "Point reads, record reads, key iteration in both directions, seeks and sequence iteration on a snapshot show exactly the state of the database at the moment the snapshot was opened, whatever is written, deleted, flushed or compacted afterwards, and the database itself keeps showing its current state.",
     ["histories"], "every program of operations before and after opening the snapshot within the bounds", "tests open snapshots in one or two situations; which storage place serves a version depends on flushes and compactions on both sides of the snapshot",
     ["src/jungle.cc", "src/log_mgr.cc", "src/table_mgr.cc", "src/table_file.cc", "src/memtable.cc", "src/iterator.cc"],
     [("file and table lists pinned by the snapshot", "src/jungle.cc"), ("version visibility by sequence number", "src/memtable.cc"), ("table snapshot handles", "src/table_file.cc")],
     note="operation sequences within the stated length over two fixed keys with symbolic values; ForestDB is replaced by a model of its documented API, including its snapshots")
prop("C25", "A crash at any moment leaves a prefix of the history with all synced data",
     "If the process dies at any moment, the database opens again and shows the state after some prefix of the writes that contains every write synced, flushed or closed before; point reads and iteration agree on it. The same holds after a power failure for writes synced with fsync. Afterwards the database keeps working: new writes get fresh sequence numbers and survive reopening, flushing and compaction.",
     ["crash_points", "histories"], "every program of operations within the bounds, crashing before every file-system operation of it, with every modelled subset of unsynced data surviving", "a test can copy files at a few chosen moments; the losing moments are between two particular file operations of a flush, a rotation, a manifest update or a compaction",
     ["src/log_mgr.cc", "src/log_file.cc", "src/log_manifest.cc", "src/memtable.cc", "src/table_manifest.cc", "src/table_mgr.cc", "src/jungle.cc", "src/internal_helper.cc"],
     [("log manifest update and recovery", "src/log_manifest.cc"), ("log replay", "src/memtable.cc"), ("table manifest update", "src/table_manifest.cc"), ("removal of flushed log files", "src/log_mgr.cc")],
     note="two fixed keys, programs within the stated length; crash between file-system operations (a process death inside one write is not modelled here); ForestDB is replaced by a model whose commits are atomic; a crash during the very first creation of the database is outside; after a power failure, flushes are of fsynced logs (flushing logs that were only synced without fsync makes tables outrun the logs; Jungle documents callFsync for it)")
prop("C28", "A nearest-key search finds the closest existing key on the asked side",
     "A nearest search (greater or smaller, with or without equality) returns the latest record of an existing key on the asked side of the given key, at least as close as every live key there, wherever the records are stored; a removed key may be returned only as a removed record. It reports not-found only if no live key lies on that side. On a snapshot, the same holds for the state of the snapshot.",
     ["histories", "inputs"], "every distribution of live, overwritten and removed keys over the storage places, every sought key and option within the bounds", "tests search regular keys with one key pattern; the nearest key of each storage place must be shadowed, flushed or invisible in particular combinations",
     ["src/jungle.cc", "src/log_mgr.cc", "src/memtable.cc", "src/table_mgr.cc", "src/table_manifest.cc", "src/table_file.cc"],
     [("choice between log and tables", "src/jungle.cc"), ("choice among log files", "src/log_mgr.cc"), ("search in the memtable", "src/memtable.cc"), ("table selection", "src/table_manifest.cc")],
     note="two or three symbolic keys over two or three storage places, one search; ForestDB is replaced by a model of its documented API")
prop("C29", "A prefix search reports every live key with the prefix, latest record first",
     "A prefix search calls back only with records that were written under keys with the prefix. Unless the callback stops it, every live key with the prefix is reported, and the first record reported for a key is its latest one (a removal if it was removed). It stops when told to and its status tells whether anything was reported. On a snapshot, the same holds for the state of the snapshot.",
     ["histories", "inputs"], "every distribution of live, overwritten and removed keys over the storage places, every prefix and stopping point within the bounds", "tests search prefixes of disjoint keys; wrong records appear only for particular combinations of overwrites, removals, snapshots and flushes",
     ["src/jungle.cc", "src/log_mgr.cc", "src/log_iterator.cc", "src/table_mgr.cc", "src/table_manifest.cc", "src/table_file.cc"],
     [("log section before tables", "src/jungle.cc"), ("walk over the log section", "src/log_mgr.cc"), ("walk over a table", "src/table_file.cc")],
     note="two symbolic or three fixed keys over two or three storage places, one search; older versions of a key may be reported after the latest one; ForestDB is replaced by a model of its documented API")

prop("C30", "A batch becomes visible all at once or not at all",
     "The records of a record batch, and of a global batch over several databases, are visible to no read, iterator, snapshot or flush before the batch is complete, and all of them are visible to every read after it. A batch with an invalid sequence number is rejected and leaves nothing behind.",
     ["histories", "schedules"], "every batch and prepared database within the bounds, with every one of the listed operations running between the application of the records and the completion of the batch", "tests look at a batch after it returned; what a flush or snapshot in the middle of it sees needs a particular moment",
     ["src/log_mgr.cc", "src/global_batch.cc", "src/jungle.cc", "src/log_iterator.cc", "src/memtable.cc"],
     [("visible sequence number barrier", "src/log_mgr.cc"), ("two-phase global batch", "src/global_batch.cc")],
     note="the moment in the middle is the debug callback before the barrier is lifted; batches of up to three records, two keys; atomicity of a batch across a crash is not claimed; ForestDB is replaced by a model of its documented API")
prop("C31", "Discarding unsynced records rolls the state back exactly",
     "After discardDirty(n), with n beyond the last synced number, reads, snapshots and iteration show exactly the state before write n, and so they do after later writes, syncs, flushes, compactions and reopening.",
     ["histories"], "every sequence of unsynced writes, discard point and following operations within the bounds", "the one test of it iterates by number only; what stays behind in the indexes shows only in other reads and later flushes",
     ["src/memtable.cc", "src/log_mgr.cc", "src/log_file.cc", "src/jungle.cc"],
     [("removal from both indexes", "src/memtable.cc"), ("range of log files", "src/log_mgr.cc")],
     note="two fixed keys, up to three discarded records; ForestDB is replaced by a model of its documented API")
prop("C32", "A listed checkpoint opens and shows the state at its number",
     "A checkpoint taken at sequence number n is listed as long as its records are in the log section, also after closing and reopening. Every listed checkpoint was taken, can be opened as a snapshot, and then shows exactly the state after write n, wherever the records have moved since. Other numbers are refused.",
     ["histories"], "every program of operations between checkpoints and their use within the bounds", "tests compare the list of checkpoints in a few situations; reading one that moved into tables needs a particular sequence of flushes, compactions and reopenings",
     ["src/jungle.cc", "src/log_mgr.cc", "src/memtable.cc", "src/table_mgr.cc", "src/table_file.cc", "src/table_set_batch.cc"],
     [("checkpoint markers in the log", "src/memtable.cc"), ("checkpoint commits in tables", "src/table_file.cc"), ("snapshot of a checkpoint", "src/jungle.cc")],
     note="programs of up to four operations, two fixed keys, one or two level-0 partitions; ForestDB is replaced by a model of its documented API, including its snapshots")
prop("C33", "With a custom comparison, order and equality of keys are its own",
     "With a custom comparison function, point reads, key iteration in both directions, ranges, seeks and nearest searches behave as they do by default, with the order of keys given by that function; keys that it considers equal are one key.",
     ["inputs", "histories"], "every distribution of live, overwritten and removed symbolic keys over the storage places, every sought key, range and option within the bounds", "tests use one comparison and full iterations; each bound check has its own comparison",
     ["src/memtable.cc", "src/memtable_iterator.cc", "src/log_iterator.cc", "src/table_iterator.cc", "src/iterator.cc", "src/log_mgr.cc", "src/table_mgr.cc", "src/jungle.cc"],
     [("comparison in the memtable", "src/memtable.cc"), ("bounds of memtable iterators", "src/memtable_iterator.cc"), ("merge order", "src/iterator.cc")],
     note="reverse byte order over two or three symbolic one-byte keys, and a comparison of a part of the key; ForestDB is replaced by a model of its documented API")
prop("C34", "Compression never changes what is read",
     "Whatever the compression callbacks do with each record (decline, cancel, fail, shrink or expand it), every read, iteration and recovery from the log or the tables returns the original value, the callbacks get buffers of the documented sizes, and no memory outside the buffers is touched.",
     ["inputs", "histories"], "every combination of callback outcomes, value sizes, write-buffer sizes and operation sequences within the bounds", "tests use one well-behaved compressor on values of one size",
     ["src/memtable.cc", "src/table_file.cc", "src/table_file_iterator.cc"],
     [("compression into the log", "src/memtable.cc"), ("compression into tables", "src/table_file.cc")],
     note="three writes, two or three further operations, values of 0 to 120 bytes; ForestDB is replaced by a model of its documented API")
prop("C35", "A log-only database serves exactly the records not yet purged",
     "In a database with only the log section, every record with a number above the last purged one is returned by its number, by its key when it is the latest, by iteration and by snapshots, with or without limits on memory and file age; a rollback removes exactly the records after its number, now and after reopening.",
     ["histories", "inputs"], "every program of operations, every purge and rollback number, every value within the bounds", "tests purge and roll back at fixed numbers; what an unloaded or reclaimed file serves needs a particular sequence",
     ["src/log_mgr.cc", "src/log_manifest.cc", "src/log_manifest.h", "src/log_file.cc", "src/log_iterator.cc", "src/log_reclaimer.cc", "src/jungle.cc"],
     [("loading and purging of memtables", "src/log_manifest.h"), ("rollback", "src/log_mgr.cc"), ("reclaimer", "src/log_reclaimer.cc")],
     note="programs of four operations (three with a TTL) after two writes, two fixed keys; crashes in this mode are not covered")

prop("C27", "Moving tables between levels changes nothing that is read",
     "Splitting, merging and moving tables between levels and compacting them in place never loses, revives or changes a record: gets, scans, open snapshots and checkpoints read the same before and after, also after reopening and after a crash at any point of the move.",
     ["histories", "crash_points", "inputs"], "every program of table operations, every crash point and every value within the bounds", "tests merge fixed data sets once; which table is the older one, still referred to by a snapshot or half moved at a crash needs a particular sequence",
     ["src/table_mgr.cc", "src/table_split.cc", "src/table_compaction.cc", "src/table_compact_condition.cc", "src/table_manifest.cc", "src/table_file.cc", "src/jungle.cc"],
     [("split and merge", "src/table_split.cc"), ("in-place compaction", "src/table_compaction.cc"), ("table manifest", "src/table_manifest.cc")],
     note="two fixed keys and up to two moves; ForestDB replaced by a model, so the moves' decisions by table size see the model's sizes")

prop("C36", "A log-only database survives crashes",
     "After a crash of a database with only the log section, everything synced is served by number, key and iteration and nothing purged durably comes back in its place; records that survive are a prefix of what was written, and the database accepts and keeps writes again.",
     ["crash_points", "histories", "inputs"], "every crash point of every program within the bounds, process kill and power loss", "tests restart cleanly; a crash between the manifest, the log files and the reclaimer leaves states no test builds",
     ["src/log_mgr.cc", "src/log_manifest.cc", "src/log_file.cc", "src/log_reclaimer.cc", "src/memtable.cc", "src/jungle.cc"],
     [("recovery of the log files", "src/log_manifest.cc"), ("loading of a log file", "src/log_file.cc")],
     note="programs of two or three operations after two writes; metadata operations survive a power loss in order, data not synced may be lost")

prop("C37", "A read-only handle changes no file and reads the same state",
     "A database opened read-only serves exactly what a normal handle would serve, refuses every mutating call, and leaves every file of the database exactly as it was, also when the writer was killed before, and when the writer continues afterwards nothing is missing.",
     ["histories", "crash_points", "inputs"], "every program, crash point and mutating call within the bounds", "tests open one prepared database read-only and only read",
     ["src/jungle.cc", "src/log_mgr.cc", "src/log_file.cc", "src/log_manifest.cc", "src/table_mgr.cc", "src/table_file.cc"],
     [("handle checks", "src/jungle.cc"), ("read-only open of the log section", "src/log_mgr.cc")],
     note="two fixed keys, programs of up to three operations")

prop("C13", "Helpers are exact and backups keep exactly the bytes of a file",
     "The string, number, timer and random-choice helpers give the documented result for every input. A backup of a file, whole or incremental, and a file restored from it equal the source at that time; if a step fails, that is reported, and a crash leaves the backup or the file intact as far as it was synced.",
     ["inputs", "fault_sequences", "crash_points"], "every input, file content, offset, crash point and single failing file operation within the bounds", "tests back up one small file without faults and call the helpers on a few strings",
     ["src/internal_helper.cc", "src/internal_helper.h"],
     [("BackupRestore", "src/internal_helper.cc"), ("HexDump, RndGen, StrHelper, Timer", "src/internal_helper.h")],
     note="strings of up to 6 characters, files of up to 6 bytes; the file system is a model with volatile and durable content")
prop("C14", "A lookup booster never hides the current record of a key",
     "With lookup boosters in the tables, in whatever state, every get returns what it returns without them, after any sequence of writes, flushes, compactions and reopenings; a booster entry is never a mixture of two insertions, also under concurrent use, and a stored newer sequence number is not replaced by an older one.",
     ["histories", "inputs", "schedules"], "every sequence of insertions and lookups, every interleaving and every program within the bounds", "boosters are off in tests by default; a colliding hash or an interleaving of insertions needs luck",
     ["src/table_lookup_booster.cc", "src/table_lookup_booster.h", "src/table_file.cc", "src/table_mgr.cc"],
     [("slots and locks", "src/table_lookup_booster.cc"), ("use in reads", "src/table_file.cc")],
     note="boosters of up to three slots, two fixed keys; a hit by a record older than the slot's former content is not covered; ForestDB replaced by a model")
prop("C16", "Key samples are keys of the database in order and spread as asked",
     "Sampling returns only keys that exist in the asked range of the database, in order and without duplicates, at most as many as asked, whatever mixture of log section and tables holds them, and leaves the database unchanged.",
     ["histories", "inputs"], "every program and sampling parameters within the bounds", "tests check the number of samples of one data set",
     ["src/sampler.cc", "src/jungle.cc"], [("sampling", "src/sampler.cc")],
     note="up to a few fixed keys; ForestDB replaced by a model")
prop("C18", "Background workers neither lose nor repeat a task and always stop",
     "Under every interleaving a task given to the thread pool is executed exactly once at or after its time unless it was cancelled first, cancelling tells truthfully whether it prevented the execution, shutdown waits for running tasks and ends, and an awaiter waits until it is invoked or its time is over, also with spurious wake-ups.",
     ["schedules", "histories"], "every schedule with the stated number of preemptions, timeouts and spurious wake-ups at every wait", "lost wake-ups and races of cancellation with execution need a particular interleaving",
     ["src/simple_thread_pool.h", "src/event_awaiter.h", "src/worker_mgr.cc", "src/worker_mgr.h"],
     [("thread pool", "src/simple_thread_pool.h"), ("awaiter", "src/event_awaiter.h"), ("worker registry", "src/worker_mgr.cc")],
     note="two or three threads, sequentially consistent interleavings with bounded preemptions")
prop("C19", "The atomic shared pointer is linearizable and frees each object once",
     "Under every interleaving of loads, stores, exchanges, compare-exchanges and copies of atomic shared pointers, each operation finishes and behaves as if done at one moment, no object is freed while a pointer refers to it, and every object is freed exactly once when the last pointer is gone.",
     ["schedules", "histories"], "every schedule with the stated number of preemptions of two threads", "use-after-free and lost references need a preemption between two particular instructions",
     ["src/ashared_ptr.h"], [("reference counting and lock", "src/ashared_ptr.h")],
     note="two threads, sequentially consistent interleavings with bounded preemptions")

prop("C38", "Every database of a group keeps its own records, whatever its name",
    "Databases opened through a group, including the default one, are separate: each returns exactly what was written to it, in any order of opening, for names of any length and content, after close and reopen of one or all of them, and after a crash or a failing file operation everything acknowledged as durable is there and every one of them opens again; a call that fails because a file operation failed says so.",
    ["histories", "crash_points", "fault_sequences", "inputs"], "every program, name, crash point and single failing file operation within the bounds", "tests open a few databases with short fixed names, without crashes or faults",
    ["src/db_group.cc", "src/db_manifest.cc", "src/jungle.cc", "src/log_mgr.cc", "src/table_mgr.cc", "src/table_set_batch.cc"],
    [("DBGroup", "src/db_group.cc"), ("the group manifest", "src/db_manifest.cc"), ("creation of a database", "src/jungle.cc"), ("reporting a failed table commit", "src/table_set_batch.cc")],
    note="three databases, programs of two operations; ForestDB is a model")

prop("C39", "Records of every size keep their content",
    "Keys, metadata and values of any length, empty, around the sizes of the internal buffers and beyond a page, are returned unchanged by point reads, iterators and sequence reads, from the log section, from tables, after compaction and after reopening.",
    ["inputs", "histories"], "every combination of the lengths around each internal limit within the bounds", "tests use keys and values of a few bytes, and metadata hardly at all",
    ["src/log_file.cc", "src/memtable.cc", "src/table_file.cc", "src/table_file_iterator.cc", "src/table_compaction.cc", "src/internal_helper.h"],
    [("MemTable::flush", "src/memtable.cc"), ("TableFile::setSingle", "src/table_file.cc")],
    note="the lengths are those around the limits in the code (local buffers, page, read buffer), the content is fixed per length; ForestDB is a model")

prop("C40", "A failed operation loses nothing and can be repeated",
    "When an I/O operation inside a sync, flush or level-0 compaction fails, once or until further notice, reads still return every record written; once the fault is gone the operation or a sync can be repeated, and what it acknowledges survives a process crash; even without that, the database opens after a crash with a prefix of the writes that contains everything synced before, and works on.",
    ["fault_sequences", "histories"], "every position of the fault in the operation, both durations and kinds, and every continuation", "no test makes a file operation fail; the damage needs a fault at one particular write followed by a later success",
    ["src/log_file.cc", "src/log_mgr.cc", "src/log_manifest.cc", "src/table_compaction.cc", "src/table_manifest.cc", "src/internal_helper.cc", "src/table_file.cc"],
    [("writing of log records", "src/log_file.cc"), ("L0 compaction", "src/table_compaction.cc"), ("table manifest", "src/table_manifest.cc"), ("backup of manifests", "src/internal_helper.cc")],
    note="one faulty operation per history, 2 fixed keys; faults of Jungle's own file operations, not inside ForestDB, which is a model; process crash, not power failure; higher-level compaction under faults is outside")

prop("C41", "Reads, writes, flushes and compactions may run at the same time",
    "When two threads use a database at the same time, one reading, writing, flushing, compacting or taking a checkpoint while the other does any of these, both finish, a write that returned is seen by every read that starts later, iteration and snapshots return every record written before they began and nothing that was never written, and after both are done, and again after reopening, exactly the latest records are there.",
    ["schedules", "histories"], "every pair of operations and every interleaving with the stated number of preemptions", "tests hit a few interleavings by chance; losing a record needs a preemption between two particular steps of a flush or compaction",
    ["src/table_compaction.cc", "src/table_split.cc", "src/table_manifest.cc", "src/table_mgr.cc", "src/table_iterator.cc", "src/log_mgr.cc", "src/log_manifest.cc", "src/memtable.cc", "src/flusher.cc"],
    [("table locks and removal", "src/table_compaction.cc"), ("sync of the newest log file", "src/log_mgr.cc"), ("finding tables", "src/table_mgr.cc"), ("flush of the log section", "src/log_mgr.cc")],
    note="two threads with one operation each, sequentially consistent interleavings with a bounded number of preemptions; ForestDB is a model")

prop("C15", "Latency statistics count every value exactly once",
    "A histogram counts every value in the one bin whose bounds contain it, and its total, sum, average and maximum are exact, also after merging and copying; percentile estimates are monotonic, never above the maximum and in the bin of the value asked for; a collector used by several threads loses no value and mixes up no names, and nested timed scopes are counted under the names of their stack, however long.",
    ["inputs", "schedules"], "every value, stack of names and schedule within the bounds", "nothing tests these classes; the concurrent registration of a name needs a particular interleaving",
    ["src/histogram.h", "src/latency_collector.h"], [("histogram", "src/histogram.h"), ("collector", "src/latency_collector.h")],
    note="few values per histogram (bits beyond the leading one partly fixed), two threads with one preemption")

prop("C17", "Limits derived from the configuration follow its documentation",
    "The size limit of a table is that of level 0 or 1 or, deeper, the limit of the level above times its ratio (the last one given, or 10, for levels without one); the number of parallel writers is the one given, and otherwise at least one and enough to share the writers among the jobs; idle-time compaction happens only within the hours given and only without traffic in the time window.",
    ["configurations", "inputs"], "every combination of the parameters within the bounds", "tests use one configuration",
    ["src/db_config.cc", "src/db_mgr.cc", "include/libjungle/db_config.h"], [("DBConfig", "src/db_config.cc"), ("DBMgr::determineIdleStatus", "src/db_mgr.cc")],
    note="sizes, ratios and hours out of representative sets; the clock and the time zone are stand-ins")

prop("C26", "A damaged log file or manifest is noticed and recovered from",
    "When one byte of a log file or of a manifest is changed, or the file is cut short, the database still opens; the manifest is taken from its backup and nothing is lost, and of the log the records before the damage are returned and nothing that was never written; records written after the recovery survive the next reopen.",
    ["inputs", "histories"], "every position and every byte value within the bounds", "tests damage a few fixed positions",
    ["src/memtable.cc", "src/log_file.cc", "src/log_manifest.cc", "src/table_manifest.cc", "src/log_mgr.cc", "src/table_mgr.cc"],
    [("MemTable::loadRecord", "src/memtable.cc"), ("LogManifest::load", "src/log_manifest.cc"), ("TableManifest::load", "src/table_manifest.cc"), ("backup of the manifests", "src/log_mgr.cc")],
    note="one damaged byte or one cut; the word of flags before each record is under no checksum and excluded, and the content of a log file is dropped as a whole when a record of it fails its checksum; a log file in the middle that was cut is tolerated as it is; table files are not damaged, since ForestDB is a model")
