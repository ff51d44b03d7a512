"""The properties: one dictionary each; tools/gen.py writes properties.jsonl and MANIFEST.json from them."""
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech="", note="", level="model_checking", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                  mech=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b) for a, b in state],
                  observe=list(observe), tech=tech, note=note, level=level, na=na))


SCH = ("TLA+ spec checked exhaustively by TLC at small bounds; every spec transition replayed into the real code; histories of the real code under a "
       "controlled scheduler (random, PCT, bounded-preemption DFS, spurious wake-ups) validated by TLC against the spec")
SCHN = ("Model checking of the specification is exhaustive at the stated bounds; conformance covers every schedule explored by a scheduler that serialises the "
        "real threads and owns every pthread operation (and instrumented memory accesses of the unit). Sequentially consistent interleavings only; "
        "sampled beyond the DFS bound. Trusts the interposed pthread layer (harness/vsched.cc), TLC and g++.")
SEQ = ("TLA+ spec explored exhaustively by TLC at small bounds, every transition replayed into the real code (transition tour), long random histories of the real "
       "code validated by TLC against the same spec")
SEQN = ("Exhaustive on the specification within its bounds, and every one of its transitions is executed on the real code; random histories beyond the bounds. "
        "Trusts the harness encoding of calls and results, TLC and g++.")

prop("Q01", "Bounded queue is a linearizable FIFO; close and errors propagate; no lost wake",
     "Elements pushed into an eckit::Queue come out once each, in an order consistent with some sequential FIFO execution of the calls, never exceeding the maximum size, under any number of producers and consumers. "
     "push/emplace return only when there is room (at once if the maximum is raised), pop returns elements until the queue is closed and empty and only then reports the end, and an interrupt with an exception is rethrown by every blocked or later push/pop. "
     "No call stays blocked when its condition holds.",
     "schedules histories", "every interleaving of any number of threads calling push, emplace, pop, resize, close, interrupt, empty, checkInterrupt on one queue",
     "Tests run one producer and one consumer under the operating system's schedule; they cannot enumerate interleavings, nor show the absence of a lost wake-up.",
     "src/eckit/container/Queue.h", [("monitor: one mutex, condition variables ready and done", "src/eckit/container/Queue.h:push,pop,close,interrupt,resize")],
     [("queue_", "elements in FIFO order"), ("closed_", "no more elements will be pushed"), ("interrupt_", "exception to rethrow")],
     ["return values and exceptions of push, emplace, pop, empty, closed"], SCH, SCHN)

prop("T01", "Thread pool runs each task exactly once; wait and destruction mean completion",
     "Every task given to an eckit::ThreadPool, singly or as a list, from any thread or from within a task, is executed exactly once by at most the configured number of workers and then destroyed. "
     "wait() returns only when no task pushed before is outstanding, in every thread that waits; the errors of failed tasks are reported once, by waitForThreads(); resize changes the number of workers and loses no task. "
     "waitForThreads() and the destructor return only when all workers have ended, and none of these calls blocks for ever.",
     "schedules histories", "every interleaving of pushers, waiters, resizers, failing and spawning tasks with the pool's workers",
     "The unit test pushes sleeping tasks and joins; the accounting (count, active, tasks, errors) goes wrong only in particular interleavings.",
     "src/eckit/thread/ThreadPool.cc src/eckit/thread/ThreadPool.h src/eckit/thread/ThreadControler.cc src/eckit/thread/Thread.cc",
     [("ready_/done_/active_ monitors with counters", "src/eckit/thread/ThreadPool.cc"), ("start handshake", "src/eckit/thread/ThreadControler.cc")],
     [("queue_", "tasks not yet taken"), ("tasks_", "tasks pushed and not ended"), ("count_", "workers alive")], ["task execution and destruction, call returns, exceptions"], SCH, SCHN)

prop("R01", "Producer/consumer pipeline hands each payload over once, in order, within slots",
     "eckit::ProducerConsumer passes every payload produced to the consumer exactly once and in production order, never holding more payloads than its slots, never overwriting one that is not yet consumed. "
     "If the producer or the consumer throws, both sides stop and execute() rethrows the error to its caller, and execute() never hangs.",
     "schedules fault_sequences", "every interleaving of the two threads, slot counts, lengths, and every position at which production or consumption fails",
     "No unit test covers failures at every position nor the interleavings of slot hand-over.",
     "src/eckit/runtime/ProducerConsumer.h", [("slot array with per-slot condition", "src/eckit/runtime/ProducerConsumer.h:execute")], [],
     ["produce/consume calls with their payload, result of execute"], SCH, SCHN)

prop("A01", "Asynchronous handle: writes arrive once, in order, or an error is reported",
     "Bytes written through eckit::AsyncHandle reach the wrapped handle exactly once and in order, flush() and close() return only when everything written before has been written, and buffered data does not exceed the configured limit except for one over-size write. "
     "If the wrapped handle fails or writes short, a later write, flush or close reports it with its reason. No call, including the destructor, hangs.",
     "schedules fault_sequences", "every interleaving of the caller with the writer thread, every write size sequence, every failing write",
     "The unit test writes a file once under one schedule with no failure.",
     "src/eckit/io/AsyncHandle.cc src/eckit/io/AsyncHandle.h", [("writer thread with used/buffers under one condition", "src/eckit/io/AsyncHandle.cc")],
     [("buffers_", "pairs of length and bytes still to write"), ("used_", "bytes buffered"), ("error_", "a write failed")], ["calls received by the wrapped handle; results of the caller's calls"], SCH, SCHN)

prop("A02", "Data transfers deliver exactly the source's bytes or report failure",
     "DataHandle::saveInto, DataHandle::copyTo (bounded or not) and the double-buffered copy deliver to the target exactly the bytes of the source (up to the requested maximum), in order, and return their number; a read or write error, a short write or a mismatch with a known estimate is reported. "
     "After a restart request from either side, with an offset not beyond what was read, the bytes from that offset on are delivered again in order, each request restarts at its own offset, and the whole length is returned. No schedule makes a double-buffered copy hang or use freed memory.",
     "schedules inputs fault_sequences", "every source length, chunking, estimate, buffer size and count, every sequence of failures and restart requests, every interleaving of the reader and the writer of the double buffer",
     "Tests copy small files without failures; restarts and errors at particular chunks under particular schedules are never exercised.",
     "src/eckit/io/DataHandle.cc src/eckit/io/DblBuffer.cc src/eckit/io/DblBuffer.h", [("copy loops", "src/eckit/io/DataHandle.cc:saveInto,copyTo"), ("reader/writer over a ring of buffers with full/length per slot", "src/eckit/io/DblBuffer.cc")],
     [], ["reads and writes seen by the two handles; result of the transfer"], SCH, SCHN)

prop("F01", "File pool: one user per file, bounded idle handles, no lost write or wake-up",
     "A file of an eckit::FilePool is checked out by at most one user at a time, a second checkout waits until it is checked in and then always proceeds, and checkouts of different files do not wait for each other. "
     "Idle open handles never exceed the capacity and are evicted least recently used first, removal and destruction close them, and the reported sizes and usage are exact. "
     "Data written through checked-out handles is in the file, in order, once handles are closed.",
     "schedules histories", "every interleaving of checkouts, checkins, removals and resizes by several threads over several files and capacities",
     "The unit test is single-threaded with a few operations.",
     "src/eckit/io/FilePool.cc src/eckit/io/FilePool.h src/eckit/container/CacheLRU.h", [("monitor over usage map and LRU cache", "src/eckit/io/FilePool.cc:checkout,checkin")],
     [("usage_", "files in use"), ("cache_", "idle handles, most recent first")], ["call results, sizes, file contents"], SCH, SCHN)

prop("K01", "LRU and expiring caches match their models for every history",
     "eckit::CacheLRU holds at most its capacity, evicts the least recently inserted-or-accessed entry, calls the purge function exactly once for each entry evicted, removed or cleared (not for one extracted or replaced), and insert, access, extract, remove, exists, clear, capacity return what a recency list would. "
     "eckit::Cache fetches exactly the latest value inserted or updated under a key that has not been expired, cleared or purged since; insert leaves a valid entry unchanged and says so, update always replaces.",
     "histories inputs", "every sequence of operations over every key set and capacity", "Tests run one fixed sequence per container.",
     "src/eckit/container/CacheLRU.h src/eckit/container/CacheLRU.cc src/eckit/container/Cache.h", [("list + map of iterators", "src/eckit/container/CacheLRU.cc"), ("map of timed values", "src/eckit/container/Cache.h")],
     [], ["results of every call, purge callbacks"], SEQ, SEQN)

prop("O01", "In-memory containers match their abstract meaning for every history",
     "DenseMap and DenseSet behave as a map and a set (the last insertion of a key wins in DenseMap, iteration is in key order without duplicates once sorted), Trie as a map from strings to values, CircularBuffer as a bounded FIFO of bytes that grows up to its limit and reports overflow, and Recycler as a persistent stack. "
     "BloomFilter never denies an inserted element.",
     "histories inputs", "every sequence of operations over every key set, sort state, buffer size and wrap position", "Tests run one fixed sequence per container.",
     "src/eckit/container/DenseMap.h src/eckit/container/DenseSet.h src/eckit/container/Trie.cc src/eckit/io/CircularBuffer.cc src/eckit/container/BloomFilter.h src/eckit/container/Recycler.h",
     [("sorted vector with lower_bound", "src/eckit/container/DenseMap.h"), ("ring with head/tail", "src/eckit/io/CircularBuffer.cc")], [], ["results of every call"], SEQ, SEQN)

prop("X01", "Transaction log keeps every active transaction across crashes; ids never clash",
     "A transaction begun in an eckit::TxnLog and not ended is reported by recover() and find(), once, with its latest content, after a crash (or torn write) of the process at any point of any call, and no ended one is; an interrupted call leaves the state before it or after it. "
     "Identifiers are fresh and increasing, among concurrent processes too and when the counter file is lost (beyond every active transaction). Transactions ended with backup are found among the old ones, with their content, in the order they ended.",
     "crash_points histories schedules", "every crash point of every call in every history of begin, update, end, recover, find; every interleaving of several processes using one log",
     "No test uses TxnLog; crash points and concurrent processes cannot be sampled by running to completion.",
     "src/eckit/transaction/TxnLog.cc src/eckit/transaction/TxnLog.h src/eckit/container/MappedArray.cc src/eckit/os/Semaphore.cc",
     [("one file per transaction, replaced by rename", "src/eckit/transaction/TxnLog.cc"), ("counter in a memory-mapped array under a semaphore", "src/eckit/container/MappedArray.cc")],
     [("next", "last identifier issued"), ("files named by identifier", "active transactions"), ("done/<day>", "ended transactions")], ["results of begin, update, end, exists, find, recover, before and after a crash"],
     "TLA+ spec with crash steps checked by TLC; every spec transition replayed into the real code; the real calls are crashed (before, after or inside each file-system call, trapped with seccomp) and the surviving state validated by TLC; concurrent simulated processes under a controlled scheduler validated against the same spec",
     SCHN + " Crashes are process crashes at system-call granularity with torn writes to transaction files; loss of completed writes (power failure) and torn appends to the day's backup are not modelled.")

prop("X02", "File cache: complete entries only, one creator at a time, bounded total size",
     "eckit::CacheManager::getOrCreate returns a path and value of an entry whose content is complete, from the first root that has it, after a crash at any point of any earlier creation and under any number of concurrent processes. "
     "With its lockers no two creators for one key run at the same time and an entry that exists is not created again; a failing creator leaves no entry. "
     "With a maximum size, after each creation the entries total at most the maximum (or only the new one is left), the least recently requested having been removed first.",
     "crash_points histories schedules", "every history of requests, failing creators, crashes, pre-existing entries and read-only roots; every interleaving of several processes",
     "The unit test creates one entry in one process, with no size limit, no crash and no failure.",
     "src/eckit/container/CacheManager.h src/eckit/container/CacheManager.cc src/eckit/io/FileLock.cc src/eckit/container/BTree.h",
     [("stage to a unique name, then rename", "src/eckit/container/CacheManager.h:stage,commit"), ("index in a B-tree, total and last use", "src/eckit/container/CacheManager.cc:touch,rescanCache"), ("lock file", "src/eckit/io/FileLock.cc")],
     [("cache-manager.btree", "size, count and time of last request by entry")], ["results of getOrCreate, creators run, files present"],
     "TLA+ spec with crash steps checked by TLC; every spec transition replayed into the real code; crash injection at every file-system call; concurrent simulated processes under a controlled scheduler; all recorded histories validated by TLC",
     SCHN + " Crashes are explored without a maximum size (the index is not crash safe). One root when a maximum size is set.")

prop("L01", "Locks exclude each other between threads and processes; none is lost or stuck",
     "eckit::Mutex, StaticMutex, Semaphore and FileLock (removing its file or not) have at most one owner at any time, among threads or processes, are re-entrant as documented, and a lock that becomes free is obtained by a waiter; FileLocker ranges conflict exactly when they overlap and one is exclusive. "
     "tryLock succeeds exactly when the lock is free. SharedInt never gives out more than its limit and loses no unit. Once constructs one value whatever the threads, ThreadSingleton one per thread, destroyed with it.",
     "schedules", "every interleaving of lock, tryLock, unlock, creation and removal by any number of threads and processes",
     "Tests lock and unlock in one thread.",
     "src/eckit/thread/Mutex.cc src/eckit/thread/StaticMutex.cc src/eckit/os/Semaphore.cc src/eckit/os/SharedInt.cc src/eckit/io/FileLock.cc src/eckit/io/FileLocker.cc src/eckit/thread/Once.h src/eckit/thread/ThreadSingleton.h",
     [("pthread mutex, System V semaphores with level, fcntl locks", "src/eckit/os/Semaphore.cc"), ("unlink and re-open", "src/eckit/io/FileLock.cc")], [("level_", "re-entrance depth")], ["returns of lock, tryLock, unlock, a counter incremented under the lock"], SCH,
     SCHN + " System V semaphores, fcntl locks and processes are simulated within one process (harness/vproc.cc). Concurrent changes of a SharedInt limit are excluded (the code re-applies its value until it sticks).")

prop("M01", "FAM list: a sequence shared by clients; insertions are atomic, none is lost",
     "eckit::FamList behaves as a deque of byte strings for every history of one client: pushFront, pushBack, popFront, popBack, erase, front, back, size, iteration both ways, reopening. "
     "With several clients inserting at the same time, on either end, every inserted element is found exactly once by later iterations in both directions, each client's insertions keep their order, "
     "and a reader sees, in order and none twice, every element inserted before it started (and before any insertion still under way began). Opening a list others are using changes nothing.",
     "histories schedules", "every history of one client; every interleaving of the remote memory operations of several clients inserting and reading",
     "Tests exercise one client; an interleaving between two atomic operations of an insertion cannot be provoked by a test.",
     "src/eckit/io/fam/FamList.cc src/eckit/io/fam/FamList.h src/eckit/io/fam/FamListIterator.cc",
     [("Harris-style list in fabric-attached memory, compare-and-swap of the neighbours' links", "src/eckit/io/fam/FamList.cc:pushFront,pushBack"), ("marked offsets", "src/eckit/io/fam/FamList.cc:erase")],
     [("head/tail sentinels, next/prev/size words", "the sequence")], ["results of every call and iteration"], SCH,
     SCHN + " The FAM server is a mock of this kit with one scheduling point per remote operation (sequentially consistent). Removals concurrent with another change are explored as fixed scenarios; most are known findings.")

prop("M02", "FAM map: a map shared by clients, latest value of a key first, no insertion lost",
     "eckit::FamMap behaves as a map for every history of one client: insert keeps the old value, insertOrAssign and forceInsert give the new one, find, contains, count, erase, clear, merge, size and iteration agree with it, also after reopening. "
     "With several clients inserting and looking up at the same time each call takes effect atomically, no insertion is lost (including those that create a bucket), and lock() excludes other clients.",
     "histories schedules", "every history of one client over keys that collide or not; every interleaving of the remote memory operations of several clients",
     "Tests exercise one client with few keys; bucket creation races cannot be provoked by a test.",
     "src/eckit/io/fam/FamMap.h src/eckit/io/fam/FamMap.cc src/eckit/io/fam/FamMapIterator.h src/eckit/io/fam/FamMapEntry.h",
     [("table of lists, buckets created by compare-and-swap", "src/eckit/io/fam/FamMap.cc"), ("insertOrAssign inserts before it erases", "src/eckit/io/fam/FamMap.h")],
     [("table, count word", "the map")], ["results of every call"], SCH,
     SCHN + " The FAM server is a mock of this kit with one scheduling point per remote operation. insert of one key by two clients at once is excluded (documented); removals concurrent with another change of the same bucket are fixed scenarios, most of them known findings.")

prop("H01", "A readable data handle, however composed, is a cursor over the bytes it denotes",
     "Reading through any composition of eckit data handles (memory, file, mapped, pooled, part, multi, buffered, peeking, seekable, statistics, shared, stdio wrappers) returns exactly the bytes that composition denotes, in order, whatever the sizes of the reads. "
     "position, seek, skip, rewind, restart, size and estimate agree with it; clones, handles sent through a stream and compressed part lists denote the same bytes; compare is equality. A source that fails is reported as failing, not as ending, and one that reads short loses nothing.",
     "inputs histories fault_sequences", "every composition of handles, every sequence of operations and read sizes, short-reading and failing sources",
     "Tests read a few handles of one kind to the end; compositions, zero-length parts, short and failing reads inside them are never combined.",
     "src/eckit/io/DataHandle.cc src/eckit/io/MultiHandle.cc src/eckit/io/PartHandle.cc src/eckit/io/PartFileHandle.cc src/eckit/io/BufferedHandle.cc src/eckit/io/PeekHandle.cc src/eckit/io/SeekableHandle.cc src/eckit/io/FOpenDataHandle.cc src/eckit/io/MMappedFileHandle.cc src/eckit/io/MemoryHandle.cc src/eckit/io/FileHandle.cc src/eckit/io/SharedHandle.cc src/eckit/io/StatsHandle.cc src/eckit/io/EmptyHandle.cc src/eckit/io/RawFileHandle.cc src/eckit/io/FileDescHandle.cc",
     [("DataHandle interface, decorators and sequences", "src/eckit/io/DataHandle.h"), ("cookie stdio", "src/eckit/io/FOpenDataHandle.cc")],
     [("position", "the next byte"), ("buffers and look-ahead", "bytes read underneath and not yet returned")], ["bytes, counts, positions and errors returned"], SEQ,
     SEQN + " Handles over sockets, FTP and HTTP are not covered.")

prop("H02", "A writable data handle, however composed, delivers what was written or says not",
     "After a successful close (or flush) of any composition of writable data handles (file, raw, descriptor, asynchronous, memory fixed or growing, buffered, tee, sequence with lengths, statistics, shared, stdio and iostream wrappers) every underlying target holds exactly the bytes written, in their places after any seeks. "
     "If a target fails, writes short or fails when closed, some call up to and including close reports it; no error ends the process.",
     "inputs histories fault_sequences", "every composition of handles, every sequence of writes, seeks, flushes and reopenings, every capacity at which a target fails and way of failing",
     "Tests write through one handle without failures.",
     "src/eckit/io/BufferedHandle.cc src/eckit/io/MultiHandle.cc src/eckit/io/TeeHandle.cc src/eckit/io/MemoryHandle.cc src/eckit/io/AIOHandle.cc src/eckit/io/FileHandle.cc src/eckit/io/FOpenDataHandle.cc src/eckit/io/HandleBuf.cc src/eckit/io/RawFileHandle.cc src/eckit/io/FileDescHandle.cc src/eckit/io/StatsHandle.cc src/eckit/io/SharedHandle.cc",
     [("DataHandle interface, decorators and sequences", "src/eckit/io/DataHandle.h"), ("asynchronous slots", "src/eckit/io/AIOHandle.cc")],
     [("buffer and its fill", "bytes accepted and not delivered"), ("written_, current_", "where a sequence of handles is")], ["counts and errors returned, contents of the targets"], SEQ, SEQN)

prop("H03", "Readers of pooled files are independent cursors, in one thread or in many",
     "Each eckit::PooledFile, PooledHandle and PooledFileDescriptor on a path is a cursor of its own over the file: reads return the bytes at its position whatever other readers of the same path do, opening starts at the beginning, closing or destroying one reader does not affect the others, "
     "and a failed open leaves a reader that can be opened later. This holds for readers used by different threads, and for readers destroyed by another thread than the one that created them.",
     "histories schedules", "every interleaving of operations of several readers of the same and of different files, in one thread and in several",
     "Tests use two readers alternately in one thread.",
     "src/eckit/io/PooledFile.cc src/eckit/io/PooledHandle.cc src/eckit/io/PooledFileDescriptor.cc",
     [("process-wide pool of FILE with a position per reader", "src/eckit/io/PooledFile.cc"), ("per-thread pool of handles", "src/eckit/io/PooledHandle.cc")], [("statuses_", "position of each reader")],
     ["bytes and positions returned"], SCH, SCHN)

prop("B01", "Persistent B-tree is an ordered map; what was flushed survives the process",
     "An eckit::BTree is a map from keys to values ordered by key: after any history of insertions and replacements, get returns the last value set for a key and nothing for others, range(a, b) exactly the pairs with a <= key <= b in key order, count their number, whatever the depth of the tree. "
     "Reopened, for reading or writing, at whatever offset in its file, it is as it was when closed; if the process dies, nothing set before the last flush is lost. flock and lock by a writer exclude every other process, those by a reader exclude writers.",
     "histories crash_points", "every sequence of set, get, range, flush, close, reopen and of process deaths, over every page size, key and value type and number of levels",
     "The unit test inserts random keys once in one page size; range boundaries between pages, replaced values, read-only use and deaths between flushes are not tested.",
     "src/eckit/container/BTree.cc src/eckit/container/BTree.h src/eckit/io/PooledFileDescriptor.cc",
     [("B+ tree of fixed-size pages, leaves linked", "src/eckit/container/BTree.cc:insert,splitRoot,search,next"), ("pages cached until flush", "src/eckit/container/BTree.cc:savePage,newPage,flush")],
     [("cache_", "pages by number, dirty ones to be written")], ["results of set, get, range, count; locks seen by another process; contents after a death"], SEQ, SEQN)

prop("S01", "Typed streams give back what was written; cut or misread ones are reported",
     "What is written to an eckit::Stream, over whatever medium (memory, growing memory, file, handle, std streams, pipe), is read back with the same types and values in the same order, objects nested in objects included, and after rewinding again; bytesWritten is the exact size. "
     "An exception written by one side is thrown by the other when it reads next. Reading another type than was written, or from a stream cut at any byte, is an error and never yields a value that was not written; the end is told apart from an error. Writing what does not fit is an error.",
     "inputs histories fault_sequences", "every sequence of typed items, every medium, every reader (typed reads, object iteration, reanimation) and every place at which the stream may be cut",
     "Two tests write one object to a file and back; types at their limits, empty items, truncation, short reads and the other media are not tested.",
     "src/eckit/serialisation/Stream.cc src/eckit/serialisation/ReanimatorBase.cc src/eckit/serialisation/MemoryStream.cc src/eckit/serialisation/FileStream.cc src/eckit/serialisation/HandleStream.h",
     [("tag before every item, one tag of look-ahead", "src/eckit/serialisation/Stream.cc:nextTag,readTag,endObjectFound"), ("class name to factory", "src/eckit/serialisation/ReanimatorBase.cc:reanimate")],
     [("lastTag_", "tag looked at and not consumed")], ["values read, errors, bytesWritten"], SEQ, SEQN)

prop("P01", "Paths stand for the place they spell, and act on the file system as documented",
     "An eckit::PathName built, joined, appended to, or taken apart (dirName, baseName, extension, fullName, relativePath), in whatever spelling ('.', '..', repeated and trailing '/', names that start with '~' or '.'), stands for the place that its spelling says: relative paths stay relative, absolute ones absolute, two ways to the same place lexically are tidied alike. "
     "Its operations (touch, mkdir, unlink, rmdir, rename, link, copy, truncate, empty, reserve, handles for reading and writing) change the tree of files as POSIX says and nothing else, or report an error; exists, isDir, size, sameAs, children, childrenRecursive, match (with patterns, recursive or not) and unique tell what is there, each entry once.",
     "inputs histories", "every string as a path and every sequence of operations on trees of files, directories and hard links",
     "Tests tidy some forty spellings, and list one tree.",
     "src/eckit/filesystem/LocalPathName.cc src/eckit/filesystem/PathName.cc src/eckit/filesystem/BasePathNameT.cc src/eckit/filesystem/StdDir.cc src/eckit/utils/Regex.cc",
     [("token stack for '..'", "src/eckit/filesystem/LocalPathName.cc:tidy_path_tokens"), ("listing and matching", "src/eckit/filesystem/LocalPathName.cc:match,children")],
     [("path_", "the spelling; the place is derived from it")], ["strings returned, errors, the directory tree"], SEQ, SEQN + " Symbolic links, permissions and ~ expansion are not modelled.")

prop("V01", "Values and configurations are values: no aliasing, reads change nothing",
     "Whatever is done with eckit::Value (copying, assigning, taking elements out of lists and maps and putting them into others, appending, removing, sending through a Stream), a value that a variable holds changes only by an operation on that variable: copies never show each other's changes, and reading through a const reference changes nothing. "
     "An element last set is what is found, ordered maps keep the order of insertion; comparison is one total order over all values; equal values hash alike; conversions are exact or refused. "
     "The same holds of LocalConfiguration, whose names are paths: set makes what is missing on the way; has, get in all types and forms (with and without default), remove, keys, sub-configurations, lists of them and merging agree with what was set last, and a configuration set into another (or itself) is a copy.",
     "inputs histories", "every sequence of operations on any number of values or configurations that have been copied from one another",
     "Tests set and get a few names, and copy once.",
     "src/eckit/value/Value.cc src/eckit/value/Value.h src/eckit/value/Content.cc src/eckit/value/MapContent.cc src/eckit/value/OrderedMapContent.cc src/eckit/value/ListContent.cc src/eckit/value/NumberContent.cc src/eckit/value/BoolContent.cc src/eckit/value/StringContent.cc src/eckit/value/DoubleContent.cc src/eckit/config/LocalConfiguration.cc src/eckit/config/Configuration.cc",
     [("copy on write", "src/eckit/value/Value.cc:Value::update"), ("set along a path", "src/eckit/config/LocalConfiguration.cc:setValue"), ("order of insertion", "src/eckit/value/OrderedMapContent.cc:element")],
     [("content_", "shared by copies until one is changed"), ("keys_", "the order of insertion")], ["trees read back from every variable, results, exceptions"], SEQ, SEQN + " Dates and times as values, and references held across copies, are not modelled.")

prop("J01", "JSON texts are read as what they stand for, and what is written is read back",
     "JSONParser reads a text as the value that JSON gives it (nested lists and objects in order, a repeated name keeping its last value, integers of up to 18 digits exactly, reals, strings with every escape, \\u escapes of four digits and surrogate pairs giving UTF-8), whatever white space stands between the tokens, and refuses a text that is not JSON, such as one with space inside a number or literal, or anything after the value. YAMLParser reads a JSON text alike. "
     "What eckit::JSON writes, through its own operations, from a Value or from a Configuration, in every formatting and with any characters in its strings, is a JSON text of that value, and read back by either parser it is the same value.",
     "inputs", "every sequence of bytes as a text, every value, every formatting",
     "Tests parse a dozen texts and compare a few written ones with literals.",
     "src/eckit/parser/ObjectParser.cc src/eckit/parser/StreamParser.cc src/eckit/parser/JSONParser.cc src/eckit/parser/YAMLParser.cc src/eckit/log/JSON.cc",
     [("recursive descent over a stream with one character of look-ahead", "src/eckit/parser/ObjectParser.cc:parseJSON"), ("separators from a stack", "src/eckit/log/JSON.cc:sep")],
     [("sep_", "what goes before the next item, by depth"), ("in_", "what is left of the text")], ["values read, errors, texts written"], SEQ, SEQN + " Texts with NUL or control characters inside strings, integers of more than 18 and reals of more than 15 digits are left open; YAML beyond JSON is not modelled.")

prop("D02", "Dates, times of day and their arithmetic follow the Gregorian calendar",
     "Date, Time, DateTime, Second and Hour agree with the Gregorian calendar and a 24 hour clock over the whole range: year, month and day to day number and back, day of the week and of the year, leap years; adding days or (fractions of) seconds, negative ones too, and taking differences are arithmetic on the count of seconds, and comparison is its order; rounding, printing, ISO format, strftime formats and reading back lose nothing. "
     "A text is read as the date or time it spells in the accepted forms (yyyymmdd, yyyy-mm-dd, yyyy-ddd, hh, hhmm, hh:mm:ss, 1d2h3m4s, decimal hours, with sign where extended) and anything that spells no date or time of day, such as 30 February, 24:00 or 1h30, is refused. Three numbers and two dots are a SemanticVersion, and nothing else is.",
     "inputs", "every date from the year 100, every time and difference, every text over the relevant characters up to a length",
     "Tests convert a few dozen dates and times.",
     "src/eckit/types/Date.cc src/eckit/types/Date.h src/eckit/types/Time.cc src/eckit/types/DateTime.cc src/eckit/types/Hour.cc src/eckit/types/SemanticVersion.cc src/eckit/types/Types.cc",
     [("Julian day number", "src/eckit/types/Date.cc:dateToJulian,julianToDate"), ("format of a time told from its characters", "src/eckit/types/Time.cc:checkTimeFormat"), ("carry into the date", "src/eckit/types/DateTime.cc:DateTime::operator+")],
     [("julian_", "the day"), ("seconds_", "within the day")], ["numbers and texts returned, errors"], SEQ, SEQN + " Dates with signs or other non-digits in their parts are left open; so are ClimateDate, VerifyingDate and TimeInterval.")

prop("N02", "Fractions are exact rational numbers",
     "eckit::Fraction holds the rational number it was made from (two integers, an integer, a decimal text or 'a/b'), in lowest terms with a positive denominator; arithmetic among fractions and integers, in every form of the operators, comparison, absolute value, inverse, integral and decimal part are exact as long as the terms of the result fit, and otherwise approximate or refused, never overflowed; division by zero is refused; printing and reading, conversion to double and back, and a Stream give the same fraction.",
     "inputs histories", "every pair of fractions over a range, and every sequence of operations on them",
     "Tests add and compare a dozen fractions.",
     "src/eckit/types/Fraction.cc src/eckit/types/Fraction.h",
     [("reduction to lowest terms", "src/eckit/types/Fraction.cc:gcd"), ("cross multiplication with overflow check", "src/eckit/types/Fraction.h"), ("continued fractions", "src/eckit/types/Fraction.cc:Fraction::Fraction(double)")],
     [("top_", ""), ("bottom_", "positive")], ["terms, comparisons, texts, errors"], SEQ, SEQN + " Results whose terms do not fit 64 bits (computed in double precision) are left open.")

prop("N03", "Sparse matrices and tensors are what they stand for, whatever is done to them",
     "An eckit::linalg::SparseMatrix built from triplets or rows stands for that matrix, and copying, moving, swapping, transposing, pruning, reducing to some rows, making it the identity, widening it, changing an entry through an iterator, saving to and loading from a file, a stream or a buffer each make the matrix they describe and leave every other matrix and buffer as it was; an operation that is refused leaves the matrix as it was. Iteration, whole or by row, gives each entry once with its row and column. Products with vectors, matrices and diagonals, sparse and dense, are those of the matrices. "
     "A Tensor's element is found where its indices, shape and layout say, also after reshaping, changing layout, copying, moving and sending through a Stream; sizes and strides are right beyond 2^32.",
     "inputs histories", "every sequence of operations on any number of matrices, tensors and buffers, over all shapes and patterns of entries (empty rows, stored zeros, unsorted columns)",
     "Tests use one or two fixed matrices.",
     "src/eckit/linalg/SparseMatrix.cc src/eckit/linalg/SparseMatrix.h src/eckit/linalg/Tensor.h src/eckit/linalg/Matrix.cc src/eckit/linalg/Vector.cc src/eckit/linalg/sparse/LinearAlgebraGeneric.cc src/eckit/linalg/dense/LinearAlgebraGeneric.cc src/eckit/linalg/allocator/StandardAllocator.cc src/eckit/linalg/allocator/BufferAllocator.cc",
     [("compressed rows", "src/eckit/linalg/SparseMatrix.cc:transpose,prune,rowReduction"), ("memory owned or borrowed", "src/eckit/linalg/allocator/BufferAllocator.cc"), ("strides", "src/eckit/linalg/Tensor.h:strides")],
     [("outer_", "where each row starts"), ("inner_", "column of each entry"), ("owner_", "of the memory")], ["entries by rows and by iteration, products, errors"], SEQ, SEQN + " Entries are small integers (rounding is not modelled); repeated entries and matrices without entries are left open.")

prop("C02", "A codec record read back gives what was written, or fails",
     "Items set in an eckit::codec::RecordWriter (scalars, strings, arrays of any length, compressed or not, links to items of other records, keys set more than once), written to a new or existing file, through a path, stream or handle, several records to the same one, files in other directories linked by absolute or relative paths: reading a key gives, exactly, the item set last under it, through RecordReader (any number of requests) or RecordItemReader, links followed. A read from a record damaged by any flip, overwrite or cut of its bytes, or whose writing was interrupted anywhere, gives the same or fails, and does not affect other records in the file.",
     "inputs histories crashpoints", "every collection of items and history of writes; every byte of the record damaged, every point at which the process vanishes", "Tests read a few intact records.",
     "src/eckit/codec/RecordWriter.cc src/eckit/codec/RecordWriter.h src/eckit/codec/RecordReader.cc src/eckit/codec/RecordReader.h src/eckit/codec/RecordItemReader.cc src/eckit/codec/Record.cc src/eckit/codec/ReadRequest.cc src/eckit/codec/Data.cc src/eckit/codec/Metadata.cc src/eckit/codec/detail/Checksum.cc src/eckit/codec/FileStream.cc src/eckit/codec/types/scalar.cc src/eckit/codec/types/array/ArrayMetadata.cc src/eckit/utils/Compressor.cc",
     [("sections written, then header and index", "src/eckit/codec/RecordWriter.cc:write"), ("section markers and checksums verified", "src/eckit/codec/Record.cc:read"), ("data checksum", "src/eckit/codec/ReadRequest.cc:checksum"), ("links", "src/eckit/codec/RecordItemReader.cc:read")],
     [("keys_", "items of the writer"), ("encoders_", ""), ("info_", "sections and compression"), ("requests_", "of the reader")], ["what reads give of intact, damaged and incomplete files", "keys, sizes and estimates"], SEQ, SEQN + " Damage is sampled; the record head's time and version are not protected and not judged.")

prop("G01", "Searches in a k-d tree find the nearest points, whatever its history",
     "An eckit::KDTree in memory or mapped from a file, made at once, by inserting points one after the other, or both, with any points (also alike or in line), before and after being searched, iterated or reopened: nearestNeighbour, kNearestNeighbours and findInSphere return the points at the smallest distances (all those within the radius), in order of distance, each with its own payload, and iteration and visit give every point once.",
     "inputs histories", "every sequence of insertions and searches, all positions of a small grid as points and as places searched for",
     "Tests search one tree of points built at once.",
     "src/eckit/container/KDTree.h src/eckit/container/kdtree/KDNode.cc src/eckit/container/kdtree/KDNode.h src/eckit/container/sptree/SPTree.h src/eckit/container/sptree/SPNode.cc src/eckit/container/sptree/SPNodeQueue.h src/eckit/container/sptree/SPIterator.h src/eckit/container/KDMapped.h src/eckit/container/KDMapped.cc src/eckit/container/KDMemory.h",
     [("split by axis, prune by distance to the plane", "src/eckit/container/kdtree/KDNode.cc:nearestNeighbourX,kNearestNeighboursX,findInSphereX"), ("bounded queue", "src/eckit/container/sptree/SPNodeQueue.h"), ("links for iteration", "src/eckit/container/sptree/SPIterator.h")],
     [("left_", ""), ("right_", ""), ("next_", "for iteration")], ["payloads and points found, distances, what iteration gives"], SEQ, SEQN + " Coordinates are small integers; filling a mapped tree beyond its capacity is left open.")

prop("Q02", "A SELECT gives the rows its text says, every time it is executed",
     "For an eckit::sql statement over one or two tables with any rows (values missing, equal, texts): the result is that of the definition: the combinations of rows on which the condition is true (with missing values neither true nor false), the expressions evaluated on them, DISTINCT giving each row once, ORDER BY ordering them with ties as they came, aggregates giving one row for each group of equal other expressions. The same statement executed again gives the same.",
     "inputs histories", "every statement of the supported grammar up to a depth, over every small content of the tables, executed several times", "Tests run a few dozen statements over one fixed table.",
     "src/eckit/sql/SQLSelect.cc src/eckit/sql/SelectOneTable.cc src/eckit/sql/SQLDistinctOutput.cc src/eckit/sql/SQLOrderOutput.cc src/eckit/sql/sqly.y src/eckit/sql/sqll.l src/eckit/sql/expression/SQLExpression.cc src/eckit/sql/expression/OrderByExpressions.cc src/eckit/sql/expression/function/FunctionExpression.cc src/eckit/sql/expression/function/DoubleFunctions.cc src/eckit/sql/expression/function/FunctionAND.cc src/eckit/sql/expression/function/FunctionAVG.cc",
     [("condition split by table and pushed down", "src/eckit/sql/SQLSelect.cc:prepareExecute"), ("nested cursors", "src/eckit/sql/SQLSelect.cc:processNextTableRow"), ("groups by values of the others", "src/eckit/sql/SQLSelect.cc:postExecute,writeOutput"), ("simplification of AND", "src/eckit/sql/expression/function/FunctionAND.cc:simplify")],
     [("simplifiedWhere_", "what is left of the condition"), ("aggregatedResults_", "groups"), ("cursors_", "")], ["rows delivered, in order, and errors, of each execution"], SEQ, SEQN + " Texts of up to 8 characters, integers and halves as numbers; bit columns, MATCH and subqueries are left open.")

prop("E01", "What is logged reaches every target once, complete and in order",
     "For any history of text written to eckit::Channels (of any length, in any pieces, with or without ends of line, with manipulators and indentation) and of changes of their targets (set or added streams, files, callbacks, other channels, prefixes, tees, reset), each receiver is given exactly the text written while it was a target of the channel, once, in order, at the latest when the channel is flushed or its targets change; callbacks get the complete lines; every line that is not empty has the prefixes and indentation in force.",
     "inputs histories", "every sequence of writes, flushes and changes of targets over two channels", "Tests print and look at the output of a few lines.",
     "src/eckit/log/Channel.cc src/eckit/log/ChannelBuffer.cc src/eckit/log/LineBasedTarget.cc src/eckit/log/WrapperTarget.cc src/eckit/log/PrefixTarget.cc src/eckit/log/IndentTarget.cc src/eckit/log/TeeTarget.cc src/eckit/log/CallbackTarget.cc src/eckit/log/OStreamTarget.cc src/eckit/log/FileTarget.cc",
     [("buffer passed on when full or flushed", "src/eckit/log/ChannelBuffer.cc:overflow,dumpBuffer"), ("cut in lines", "src/eckit/log/LineBasedTarget.cc:write"), ("prefix at the start of a line", "src/eckit/log/WrapperTarget.cc:write")],
     [("buffer_", "of the channel"), ("target_", "reference counted, may be shared"), ("position_", "of the unfinished line")], ["text received by each stream, file and callback"], SEQ, SEQN + " UserChannel is left open.")

prop("U01", "What is encoded is decoded to what it was",
     "BitIO (any widths, padded or not), Base64 and its URL form, RLE and DIFF encoding (any values, any limits of loop, depth and time), every eckit::Compressor available (any sizes, repeated use of the same buffers) and HyperCube (any dimensions): decoding an encoded value gives the value, encodings are those of their definitions where there is one, and a text or buffer which is not an encoding is refused or decoded as something else, without reading or writing outside of the buffers.",
     "inputs", "every value up to a size, every limit, the deadline of the RLE encoder passing at each reading of the clock", "Tests encode a handful of values.",
     "src/eckit/io/BitIO.cc src/eckit/io/Base64.cc src/eckit/utils/RLE.cc src/eckit/utils/RLE.h src/eckit/utils/Compressor.cc src/eckit/utils/SnappyCompressor.cc src/eckit/utils/LZ4Compressor.cc src/eckit/utils/BZip2Compressor.cc src/eckit/utils/HyperCube.cc src/eckit/utils/HyperCube.h",
     [("bits taken from the left", "src/eckit/io/BitIO.cc:write,read"), ("blocks repeated, within a deadline", "src/eckit/utils/RLE.cc:RLEencode2timeout"), ("6 bits to a character", "src/eckit/io/Base64.cc")],
     [("buffer_", "bits not yet written"), ("used_", "")], ["codes, decoded values, errors"], SEQ, SEQN + " Codes of compressors are not judged, only what they decode to.")

prop("U02", "A digest is that of the bytes added, whatever was asked before",
     "For every eckit::Hash available (MD4, MD5, SHA1, xxHash, none) and any history of adding bytes in any pieces (numbers, strings, blocks), resetting, and asking for the digest, its text or its number at any point, also several times: the digest is that of the algorithm over all bytes added since the hash was made or reset, however often and in whichever form it is asked for (with MD4, MD5 and SHA1, text is only added after a digest was asked for once the hash is reset); compute gives the digest of its argument and leaves the object's own bytes as they were.",
     "inputs histories", "every sequence of operations over several hashes, pieces of all lengths around the block sizes", "Tests compute a few digests, each once.",
     "src/eckit/utils/Hash.cc src/eckit/utils/Hash.h src/eckit/utils/MD4.cc src/eckit/utils/MD5.cc src/eckit/utils/SHA1.cc src/eckit/utils/xxHashing.cc",
     [("context of the algorithm", "src/eckit/utils/MD5.cc:add"), ("cached digest", "src/eckit/utils/Hash.h:digest_")],
     [("s_", "context"), ("digest_", "cached text")], ["digests in each of their forms"], SEQ, SEQN)
