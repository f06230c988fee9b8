#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
        "mechanism": [dict(name=a, where=b) for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "A cache lookup returns exactly the current mapping of its key",
 "After any sequence of cache operations, looking up a key returns the value of the latest insertion of that key if that entry has not since been erased, pruned or evicted, and finds nothing otherwise; keys are distinguished by their complete bytes. An insertion makes its value visible at once and hides the previous one, operations on one key never change the mapping of another (except by capacity eviction), and a cache of capacity zero retains nothing.",
 ["histories", "inputs"], "all operation sequences over all keys (any length and bytes, colliding hashes included), charges and capacities, with any pattern of held handles",
 "The tests run a dozen fixed scripts over 4-byte integer keys; they never reach hash collisions, removals from the middle of a bucket chain, growth of the table with pinned entries, or variable-length keys.",
 ["util/cache.cc", "include/lsmdb/cache.h", "util/hash.cc"],
 [("hash table lookup/insert/remove/resize", "util/cache.cc:HandleTable"), ("shard Insert/Lookup/Erase", "util/cache.cc:LRUCache")],
 [("table", "key to current entry, per partition", "util/cache.cc")], ["Lookup", "Insert", "Erase", "Prune", "Value"])
prop("C02", "Each cache entry is destroyed exactly once and never while in use",
 "The deleter given with an inserted entry is called exactly once, with the key and value of that insertion, as soon as the cache no longer maps the key to the entry and every handle to it has been released, and never before. Until its handle is released a client can read the entry's value unchanged, whatever happens to the mapping; destroying the cache destroys every remaining entry.",
 ["histories", "inputs"], "all operation sequences with any number of handles per entry, held across replacement, erasure, eviction and pruning, up to destruction of the cache",
 "Tests check a few deleter lists for one or two handles; double deletion, missed deletion or early deletion needs particular orders of replace/evict/release with several handles.",
 ["util/cache.cc", "include/lsmdb/cache.h"],
 [("reference counting", "util/cache.cc:LRUCache::Ref/Unref"), ("FinishErase", "util/cache.cc:LRUCache::FinishErase"), ("destructor", "util/cache.cc:LRUCache::~LRUCache")],
 [("refs", "handles outstanding plus the cache's own reference", "util/cache.cc:LRUHandle")], ["deleter callback", "Value"])
prop("C03", "The cache evicts only idle entries, oldest first, and accounts charges",
 "Within one partition of the cache (capacity divided evenly, rounded up, over 16 partitions chosen by the top bits of the key's hash), an entry is evicted only when an insertion makes the charges of the mapped entries exceed the partition's capacity; then only entries without outstanding handles go, least recently used (last released) first, and eviction stops as soon as the rest fits or nothing idle remains. The reported total charge always equals the sum of the charges of all mapped entries, and pruning removes exactly the mapped entries without outstanding handles.",
 ["histories", "inputs", "configurations"], "all operation sequences, charges (0 to more than the capacity) and capacities",
 "The tests check that one hot key survives and that the total stays within 110% of the capacity; exact order, exact moment and exact accounting are not checked at all (TotalCharge has no test).",
 ["util/cache.cc"],
 [("LRU lists", "util/cache.cc:LRU_Append/LRU_Remove"), ("eviction loop", "util/cache.cc:LRUCache::Insert"), ("usage", "util/cache.cc:usage_"), ("sharding", "util/cache.cc:ShardedLRUCache")],
 [("lru", "idle mapped entries, oldest first", "util/cache.cc:lru_"), ("usage", "sum of charges of mapped entries", "util/cache.cc:usage_")], ["TotalCharge", "deleter callback", "Lookup", "Prune"])
prop("C04", "Concurrent use of the cache is linearizable, race-free and deadlock-free",
 "Under every interleaving of threads calling the cache, the results and deleter calls observed are those of executing the operations one at a time in an order consistent with real time (pruning and the total charge one partition at a time); no two threads make conflicting unsynchronized memory accesses and no call blocks forever. Ids handed out by the cache are never repeated, across all threads.",
 ["schedules", "histories"], "all thread interleavings at memory-access granularity of all small programs of Insert/Lookup/Release/Erase/Prune/TotalCharge/NewId",
 "No test starts a second thread.",
 ["util/cache.cc", "util/mutexlock.h", "port/port_stdcxx.h"],
 [("per-partition mutex", "util/cache.cc:LRUCache::mutex_"), ("id mutex", "util/cache.cc:ShardedLRUCache::id_mutex_")],
 [], ["call and return of every Cache operation", "deleter callback"])
prop("C05", "The skip list is an ordered set with exact positioning and stepping",
 "For any insertion order of distinct keys under any total order, membership answers yes exactly for the inserted keys; seeking lands on the first key not less than the target (or becomes invalid), seeking to first or last lands on the least or greatest key, and stepping forward or backward moves to the exact successor or predecessor or makes the iterator invalid at the ends. Full iteration therefore visits every inserted key exactly once in order, also after further insertions made while an iterator is in use.",
 ["histories", "inputs"], "all sequences of insertions and iterator operations, all key types and comparators, all tower heights",
 "The skip list's test file contains no test: not one line of it is executed.",
 ["db/skiplist.h", "util/arena.cc", "util/random.h"],
 [("FindGreaterOrEqual/FindLessThan/FindLast", "db/skiplist.h"), ("Insert", "db/skiplist.h")],
 [("levels", "one sorted singly linked list per level", "db/skiplist.h:Node::next_")], ["Contains", "Iterator"])
prop("C06", "Skip list readers run unlocked beside the single writer and stay exact",
 "While one thread inserts and any number of threads read without locks, every read (membership, seek, step) returns what the ordered set contained at some moment during that read: a key whose insertion completed earlier is never missed, no absent key is ever seen, and iteration stays strictly ordered. Readers only ever touch nodes whose contents were completely initialized and published before, i.e. there is no unsynchronized conflicting access.",
 ["schedules", "histories"], "all interleavings of the writer's and readers' memory accesses, under the C++ memory model's happens-before",
 "No test exists; the failure modes are publication order and memory ordering, which x86 tests would not show even if there were threads.",
 ["db/skiplist.h", "util/arena.h"],
 [("release store / acquire load", "db/skiplist.h:Node::Next/SetNext"), ("bottom-up linking", "db/skiplist.h:Insert"), ("relaxed max height", "db/skiplist.h:max_height_")],
 [], ["Insert", "Contains", "Iterator"])
prop("C07", "Arena blocks are disjoint, aligned, stable and fully accounted",
 "Every allocation returns a region of at least the requested size that lies in memory owned by the arena, overlaps no other region handed out, keeps its contents until the arena is destroyed, and is aligned to 8 bytes when aligned allocation was requested. The reported memory usage always equals the memory obtained so far plus one pointer per block, and a request of at most a quarter block never takes new memory while the current block still has room for it; larger requests that do not fit get their own block and leave the current block in use.",
 ["histories", "inputs"], "all sequences of plain and aligned allocations of any size",
 "One pseudo-random script of 100000 allocations; alignment residues, exact fits and the quarter-block boundary are hit by chance and accounting is only bounded by 10%.",
 ["util/arena.cc", "util/arena.h"],
 [("bump pointer", "util/arena.h:Allocate"), ("fallback and blocks", "util/arena.cc")],
 [("remaining", "free bytes in the current block", "util/arena.h")], ["Allocate", "AllocateAligned", "MemoryUsage"])
prop("C08", "The in-memory file system's names behave like one atomic map",
 "Creating, opening for append, removing, renaming, testing, sizing and listing files in the in-memory environment behave as operations on a map from names to files: a successful create or append-open makes the name exist, create empties it, append-open keeps its contents, rename moves the contents and replaces the target (renaming a file to itself keeps it), remove removes exactly that name, and the listing of a directory is exactly the remainders of the names below it. Operations on missing names fail, report NotFound when opening for reading, and change nothing.",
 ["histories", "inputs"], "all sequences of namespace operations over all names, including names that are prefixes of each other",
 "One straight-line script over two names; append-open of a missing file, self-rename, rename over an open target and prefix names are untested.",
 ["helpers/memenv/memenv.cc", "include/lsmdb/env.h"],
 [("file_map_", "helpers/memenv/memenv.cc:InMemoryEnv")], [("file map", "name to file", "helpers/memenv/memenv.cc:file_map_")], ["Env interface of NewMemEnv"])
prop("C09", "In-memory files return exactly the bytes appended, through any handle",
 "Any read of an in-memory file returns exactly the bytes appended so far (since the last truncating open) in the requested range, clipped at the end of the file, regardless of how the appends and reads were split; sequential readers advance by exactly what they read or skip and stop at the end. Handles stay usable and keep seeing the same file after it is removed, renamed or replaced, and its memory is released only when the last handle and the last name are gone.",
 ["histories", "inputs"], "all append/read/skip splits and sizes around the storage block size, and all orders of opening, removing, renaming, truncating and closing",
 "Three fixed scripts; block boundaries are crossed by one 300 KiB write only, handles surviving removal or rename are untested.",
 ["helpers/memenv/memenv.cc"],
 [("block list", "helpers/memenv/memenv.cc:FileState"), ("reference count", "helpers/memenv/memenv.cc:FileState::Ref/Unref")], [("content", "byte sequence per file", "helpers/memenv/memenv.cc:blocks_,size_")], ["Read", "Skip", "Append", "GetFileSize"])
prop("C10", "The in-memory environment is safe and atomic under concurrent threads",
 "Under every interleaving of threads using one in-memory environment and its files (a sequential reader and a writer each used by one thread), every operation takes effect atomically in an order consistent with real time: a concurrent append is seen completely or not at all, a file is freed only after its last user, and a sequential reader never leaves the file's range by skipping. There is no conflicting unsynchronized access and no deadlock.",
 ["schedules", "histories"], "all thread interleavings at memory-access granularity of small programs over shared names, files and handles",
 "All in-memory environment tests are single-threaded.",
 ["helpers/memenv/memenv.cc"],
 [("map mutex", "helpers/memenv/memenv.cc:mutex_"), ("per-file mutexes", "helpers/memenv/memenv.cc:refs_mutex_,blocks_mutex_")], [], ["call and return of every operation"])
prop("C11", "Buffered file writing delivers every byte once, in order, or reports an error",
 "Whatever sizes are appended and however the system splits, interrupts or fails the underlying writes, until a failure has been reported what has reached the file is always a prefix of the appended byte stream, and when flush, sync or close reports success with no failure reported before, the file holds the whole stream (after the previous contents for an append-opened file). An interrupted write is retried, any other failure is reported by the operation during which it happened, and destroying the file object writes out what was buffered and closes its descriptor exactly once.",
 ["inputs", "fault_sequences", "histories"], "all sequences of appends of all sizes around the 64 KiB buffer, flushes, syncs, closes, and all outcomes (short, EINTR, error) of each system call",
 "There is no test of the POSIX environment's writable file.",
 ["util/env_posix.cc"],
 [("buffering", "util/env_posix.cc:PosixWritableFile::Append"), ("write loop", "util/env_posix.cc:WriteUnbuffered"), ("Close/Flush", "util/env_posix.cc")], [("buffer", "bytes accepted but not yet written", "util/env_posix.cc:buf_,pos_")], ["write/close system calls", "returned Status"])
prop("C12", "Data acknowledged by a sync survives a crash, directory before manifest",
 "When sync returns success every byte appended before it has been handed to the system and then flushed to the device by a data sync of that file, so no crash afterwards can lose it. For a manifest file (base name starting with MANIFEST) sync first makes its directory durable, before any byte still buffered is handed to the system; a failure of any of these steps is reported and stops the remaining ones.",
 ["crash_points", "fault_sequences", "inputs"], "a crash after every system call, all file names and directories, all failures of each call",
 "No test syncs a POSIX file, and none can crash the machine.",
 ["util/env_posix.cc", "util/env.cc"],
 [("Sync", "util/env_posix.cc:PosixWritableFile::Sync"), ("SyncDirIfManifest", "util/env_posix.cc"), ("Dirname/IsManifest", "util/env_posix.cc")], [("durable", "contents that survive a crash", "kernel (modelled)")], ["open/write/fsync/fdatasync/close system calls", "returned Status"])
prop("C13", "At most one holder of a file lock, across threads and processes",
 "At any time at most one successful lock of a given file name is outstanding among all threads and processes using the POSIX environment, in every interleaving of lock, failing lock, unlock and process exit. A lock attempt that fails returns an error at once with a null lock, leaves the current holder's lock in force and leaks nothing; after unlock or exit of the holder the lock can be taken again.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of the system calls of several threads and processes locking the same names",
 "The only lock test is of the in-memory no-op lock.",
 ["util/env_posix.cc"],
 [("PosixLockTable", "util/env_posix.cc"), ("fcntl record lock", "util/env_posix.cc:LockOrUnlock"), ("LockFile/UnlockFile", "util/env_posix.cc:PosixEnv")], [("table", "names locked by this process", "util/env_posix.cc:locked_files_"), ("kernel lock", "owner process of the record lock", "kernel")], ["LockFile/UnlockFile results", "open/fcntl/close system calls"])
prop("C14", "Scheduled background work runs exactly once, in order, with its argument",
 "Every function passed to the environment's scheduling call is eventually executed exactly once with the argument it was scheduled with, however many threads schedule at the same time and whatever wakeups occur; items scheduled one after the other start in that order, and no internal lock is held while they run, so they may schedule more work. A thread started explicitly runs its function exactly once with its argument.",
 ["schedules", "histories"], "all interleavings of scheduling threads with the worker, including spurious wakeups and work that schedules work",
 "No test schedules anything.",
 ["util/env_posix.cc", "port/port_stdcxx.h"],
 [("queue, mutex and condition variable", "util/env_posix.cc:Schedule/BackgroundThreadMain"), ("lazy worker start", "util/env_posix.cc:Schedule")], [("queue", "items not yet started", "util/env_posix.cc:background_work_queue_")], ["execution of scheduled functions"])
prop("C15", "Read-only file resources stay within their limits and are always returned",
 "Files open for random access never hold more memory maps than the map limit or more descriptors than the descriptor limit, in every order and interleaving of opens, failing opens and closes; a file opened beyond both limits holds neither and still reads the same bytes. Closing a file, or failing to open one, returns exactly what it had taken, so that the full limits are available again afterwards and no descriptor or mapping leaks.",
 ["histories", "schedules", "fault_sequences", "configurations"], "all sequences and interleavings of opens/closes, every failure of open/stat/mmap, all limit settings including zero",
 "No test opens a POSIX file for random access.",
 ["util/env_posix.cc", "util/env_posix_test_helper.h"],
 [("Limiter", "util/env_posix.cc"), ("NewRandomAccessFile", "util/env_posix.cc:PosixEnv"), ("destructors", "util/env_posix.cc:PosixRandomAccessFile,PosixMmapReadableFile")], [("available", "resources left", "util/env_posix.cc:acquires_allowed_")], ["open/close/mmap/munmap system calls"])
prop("C16", "Reading a POSIX file returns exactly its bytes or an error",
 "A successful sequential read returns the next bytes of the file (at most as many as asked, none only at its end), retrying interrupted calls, and skipping moves forward by exactly the amount asked or to the end of the file, never backward or beyond. A random read that succeeds returns exactly the bytes at the requested offset, clipped at the end of the file, for every backing (mapped, descriptor held, reopened per read) and every offset and length up to the largest; a read entirely inside the file succeeds unless the system fails it, and system failures are reported.",
 ["inputs", "fault_sequences", "configurations"], "all files (empty included), offsets, lengths, splits, backings, and system call outcomes",
 "No test reads a POSIX file.",
 ["util/env_posix.cc"],
 [("PosixSequentialFile", "util/env_posix.cc"), ("PosixRandomAccessFile", "util/env_posix.cc"), ("PosixMmapReadableFile", "util/env_posix.cc")], [], ["Read", "Skip"])
prop("C17", "POSIX namespace operations do what they say and classify errors",
 "Creating, opening, testing, sizing, listing, removing and renaming files and directories in the POSIX environment changes exactly the named object and reports success only when the change happened; opening for write truncates, opening for append preserves, rename replaces the target; a symbolic link stands for its target except when it is itself removed, renamed or in the way of a new directory. Every failure leaves the namespace unchanged, stores a null result where one is returned, reports NotFound exactly when the system says the object does not exist and an I/O error otherwise, and names the object concerned in its message.",
 ["histories", "fault_sequences", "inputs"], "all operation sequences over files and directories and all system call failures",
 "No test touches the POSIX environment's namespace.",
 ["util/env_posix.cc", "include/lsmdb/env.h"],
 [("PosixEnv", "util/env_posix.cc"), ("PosixError", "util/env_posix.cc")], [("namespace", "files and directories under a scratch root", "kernel")], ["Env interface", "returned Status"])
prop("C18", "Whole-file helpers write or read everything, or report the failure and clean up",
 "Writing a string to a file succeeds only if creating, appending, syncing (when requested, before closing) and closing all succeeded, and then the file contains exactly the string; at the first failing step that step's error is returned, the remaining steps are skipped, the file object is destroyed and the partial file is removed. Reading a file to a string replaces the string's contents and succeeds only if it then equals the whole file however the reads are split; an error of opening or of any read is returned and the file object is destroyed exactly once.",
 ["inputs", "fault_sequences"], "all contents and sizes, all splits of the reads, a failure at every step",
 "One test writes 13 bytes successfully; no failure is ever injected.",
 ["util/env.cc", "include/lsmdb/env.h"],
 [("DoWriteStringToFile", "util/env.cc"), ("ReadFileToString", "util/env.cc")], [], ["calls made on the Env and its files", "returned Status"])
prop("C19", "Each log call appends exactly one complete line",
 "Each call to the POSIX logger appends to its file exactly one record: the local date and time and thread id, one space, the complete formatted message whatever its length, and exactly one newline added if the message did not end in one; the record has reached the file when the call returns, earlier contents are kept, and records of concurrent calls are never mixed. Logging to a null logger does nothing.",
 ["inputs", "schedules"], "all message lengths and contents (in particular around the internal buffer size) and all interleavings of concurrent calls",
 "No test creates a logger.",
 ["util/posix_logger.h", "util/env_posix.cc", "util/env.cc"],
 [("two-pass formatting", "util/posix_logger.h:Logv"), ("append open", "util/env_posix.cc:NewLogger"), ("Log", "util/env.cc")], [], ["contents of the log file"])
prop("C20", "Binary encodings round-trip, are canonical and reject malformed input",
 "Encoding then decoding any 32- or 64-bit number (fixed width, little-endian, or variable length in base 128, least significant group first, with the minimal number of bytes) or any length-prefixed string returns the same value, advances exactly past it and leaves the rest of the input intact, and the computed length equals the encoded length. Decoding a truncated input or one with no terminating byte within the maximal length fails, without reading outside the given bounds and, when the input is a slice whose number cannot be read, without consuming it.",
 ["inputs"], "all numbers, strings and byte sequences, followed by any other bytes, cut at any point",
 "There is no coding test in the repository (the functions are only used incidentally by the cache test).",
 ["util/coding.cc", "util/coding.h"],
 [("Put*/Get*", "util/coding.cc"), ("Encode*/Decode*", "util/coding.h")], [], ["Put*, Get*, Encode*, Decode*, VarintLength"])
prop("C21", "Decimal and escaped text forms are exact",
 "Formatting a 64-bit number yields its decimal digits without padding and appends to what is already there; parsing consumes exactly the leading decimal digits, returns their value, and fails without digits or when the value does not fit in 64 bits, for every input bytes. Escaping copies every printable ASCII character unchanged and writes every other byte as \\x with exactly two lower-case hexadecimal digits.",
 ["inputs"], "all numbers, all digit strings of any length with any following bytes, all byte strings",
 "Tests enumerate about 300 numbers near the limits and never call the escaping functions.",
 ["util/logging.cc"],
 [("AppendNumberTo/ConsumeDecimalNumber", "util/logging.cc"), ("AppendEscapedStringTo", "util/logging.cc")], [], ["NumberToString, ConsumeDecimalNumber, EscapeString"])
prop("C22", "Slices compare as unsigned byte strings in a total order",
 "Comparing slices is the lexicographic order of their bytes taken as unsigned values, a proper prefix being smaller; equality and inequality agree with it, prefix testing is true exactly when the first slice begins with all bytes of the second, and embedded zero bytes and empty slices are ordinary. Removing a prefix, clearing, copying and converting to a string keep exactly the remaining bytes.",
 ["inputs"], "all pairs and triples of byte strings, including empty ones, embedded zeros and bytes above 127",
 "No test compares slices except through equality with short literals.",
 ["include/lsmdb/slice.h"],
 [("compare/operator==/starts_with", "include/lsmdb/slice.h")], [], ["Slice"])
prop("C23", "A status keeps its code and message through copy, move and assignment",
 "A status made with a code and one or two message parts reports exactly that code by its predicates and prints the code's name followed by the parts (joined by a colon and space when the second is not empty); success prints OK. Copies are equal to and independent of their source, moves transfer the value, and assignment from any status, itself included, gives the target the source's former value without leaking or freeing twice.",
 ["inputs", "histories"], "all codes, message bytes and sequences of construct, copy, move, assign, self-assign and destroy on any number of status objects",
 "One test moves two statuses; copy construction, copy assignment, two-part messages and most codes are untested.",
 ["include/lsmdb/status.h", "util/status.cc"],
 [("state_ ownership", "include/lsmdb/status.h"), ("CopyState/ToString", "util/status.cc")], [("state", "code and message", "include/lsmdb/status.h:state_")], ["ok, Is*, ToString"])
prop("C24", "The hash is a fixed function of bytes, length and seed",
 "The hash of any byte string under any seed is the value defined by its published definition (32-bit little-endian words, multiply by 0xc6a4a793, xor-shift by 16, tail of one to three unsigned bytes, xor-shift by 24), independent of alignment, of bytes after the end and of character signedness, so that persisted or shared hash values never change.",
 ["inputs"], "all byte strings of every length modulo 4 and all seeds, at every alignment",
 "Six vectors; wrong tails for other lengths, high bytes or seeds can agree on them.",
 ["util/hash.cc"],
 [("Hash", "util/hash.cc")], [], ["Hash"])
prop("C25", "The random generator follows its exact full-period sequence within range",
 "From any seed (reduced to 31 bits, with 0 and 2^31-1 replaced by 1) the generator's outputs are exactly the successive values of 16807*x mod (2^31-1), hence always in [1, 2^31-2] and never stuck; a bounded draw is that value modulo the bound, a one-in-n draw is true exactly when the value is divisible by n, and a skewed draw lies in [0, 2^max-1].",
 ["inputs", "histories"], "all 32-bit seeds and all numbers of draws",
 "The generator has no test of its own.",
 ["util/random.h"],
 [("Random::Next", "util/random.h")], [("seed", "current state", "util/random.h:seed_")], ["Next, Uniform, OneIn, Skewed"])
prop("C26", "A wrapping environment forwards every call unchanged, exactly once",
 "Every operation of an environment wrapper that is not overridden calls the same operation of the wrapped environment exactly once with the same arguments and returns its result and outputs unchanged; the in-memory environment forwards all non-file operations (scheduling, threads, time, sleeping) this way and none of its file operations. An environment that does not support appending says so for the default append-open.",
 ["inputs", "histories"], "all operations, arguments, results and target environments",
 "Only the constructors of wrappers are exercised; no test observes forwarding.",
 ["include/lsmdb/env.h", "helpers/memenv/memenv.cc", "util/env.cc"],
 [("EnvWapper", "include/lsmdb/env.h"), ("InMemoryEnv", "helpers/memenv/memenv.cc")], [], ["calls received by the target environment"])
prop("C27", "Mutex, scoped lock and condition variable give exclusion without lost wakeups",
 "At most one thread is between acquiring and releasing a given mutex, a scoped lock holds it exactly for its own lifetime, waiting on a condition variable atomically releases its mutex and holds it again on return, a signal given while a thread waits wakes at least one waiter and signal-all wakes all of them. Hence code that rechecks its condition in a loop never blocks forever once the condition holds and was signalled.",
 ["schedules"], "all interleavings of several threads locking, waiting and signalling, including spurious wakeups",
 "No test uses the synchronization wrappers from two threads.",
 ["port/port_stdcxx.h", "util/mutexlock.h"],
 [("Mutex/CondVar", "port/port_stdcxx.h"), ("MutexLock", "util/mutexlock.h")], [], ["Lock, Unlock, Wait, Signal, SignalAll"])

prop("C28", "Threads may use the POSIX environment at the same time",
 "Threads using the default environment concurrently never disturb each other: all of them get the same environment, also when several use it first; each operation on names (exists, size, remove, rename, create or remove directory, open in each mode) takes effect as if at one moment between its call and return; a listing contains every name present throughout and none never present; one random-access file read by many threads returns to each exactly the bytes at the offset it asked for, whichever way the file is held; an open file stays the file that was opened, with its own size, when its name is renamed over or removed in between or afterwards (as long as a mapping or descriptor permit was left for it); and no data is accessed unsynchronized.",
 ["schedules", "inputs"], "all interleavings, at system calls and memory accesses, of any threads using one POSIX environment",
 "Every environment test is single-threaded apart from scheduling; races between an open and a rename last microseconds.",
 ["util/env_posix.cc", "include/lsmdb/env.h"],
 [("NewRandomAccessFile", "util/env_posix.cc"), ("PosixRandomAccessFile::Read", "util/env_posix.cc"), ("SingletonEnv", "util/env_posix.cc")],
 [("names and files", "the directory", "util/env_posix.cc")], ["calls and results of environment and file operations"])

prop("C29", "Programs the process starts never inherit the environment's descriptors",
 "At every moment, every descriptor the POSIX environment has open (files opened in any mode, the directory opened during a sync, the file reopened during a read, locks, loggers, listings) is marked close-on-exec from the instant it exists, so a program started at that moment by any thread receives none of them and cannot keep a file alive, hold its lock or write to it. Operations leave no descriptor behind beyond those of the objects still open, also when they fail.",
 ["schedules", "fault_sequences", "histories"], "all sequences of operations, failures of system calls, and moments at which a program is started",
 "No test starts a program or looks at descriptor flags.",
 ["util/env_posix.cc"],
 [("kOpenBaseFlags", "util/env_posix.cc"), ("PosixEnv", "util/env_posix.cc")], [("descriptor table", "open descriptors and their flags", "kernel")], ["descriptors given to started programs"])
prop("C30", "Time, sleeping and the test directory behave as promised",
 "NowMicros returns the system's time of day in microseconds without losing or wrapping any part of it; SleepForMicroseconds returns only after at least the requested time has passed, also when signals arrive, and then without undue delay; the test directory is the one named by TEST_TMPDIR when that is not empty and otherwise one that is always the same for a user and different for different users, and it exists when it is returned.",
 ["inputs", "schedules", "histories"], "all clock values, sleep lengths, arrival times of signals, environments and user numbers",
 "No test calls these services on the POSIX environment with checked results.",
 ["util/env_posix.cc", "include/lsmdb/env.h"],
 [("NowMicros", "util/env_posix.cc"), ("SleepForMicroseconds", "util/env_posix.cc"), ("GetTestDirectory", "util/env_posix.cc")], [], ["NowMicros, SleepForMicroseconds, GetTestDirectory"])

prop("C31", "Different objects and immutable values need no synchronization",
 "Threads that work on different objects (skip lists, arenas, random generators, caches, in-memory environments, statuses, slices, files of the default environment), call functions that take no object (text forms of numbers and strings, encodings, hashing), or use const methods of one shared Slice or Status that nobody changes, need no synchronization of their own: every answer is the one the thread would get if it were alone, no object is affected by what is done with another, and no data is accessed unsynchronized.",
 ["schedules", "inputs"], "all interleavings of threads using different objects, functions, or const methods of the same immutable values",
 "All tests of these parts are single-threaded; slice.h promises unsynchronized const use, the rest is what every caller assumes. A hidden shared buffer, cache or generator gives right answers in every sequential run.",
 ["include/lsmdb/slice.h", "include/lsmdb/status.h", "util/status.cc", "util/coding.cc", "util/logging.cc", "util/hash.cc", "util/random.h", "util/arena.cc", "db/skiplist.h", "util/cache.cc", "util/env.cc", "helpers/memenv/memenv.cc"],
 [("Status::ToString", "util/status.cc"), ("AppendNumberTo, AppendEscapedStringTo", "util/logging.cc"), ("PutVarint64", "util/coding.cc"), ("SkipList::RandomHeight", "db/skiplist.h"), ("DoWriteStringToFile, ReadFileToString", "util/env.cc")], [], ["results of all calls"])
prop("C32", "An arena's memory usage may be read while another thread allocates",
 "While one thread allocates from an arena, directly or by inserting into a skip list, other threads may call MemoryUsage without synchronization: nothing is accessed unsynchronized; every answer lies between the usage the asking thread already knows of (its own earlier answers, and all allocations that happened before its call) and the usage after the allocation that is going on; the answers of one thread never decrease; and after each allocation the usage covers at least all bytes handed out.",
 ["schedules", "inputs"], "all interleavings and weak-memory behaviours of one allocating thread and any number of readers, all sizes",
 "No test reads the usage from a second thread; on x86 the tests would not show an unsynchronized counter.",
 ["util/arena.h", "util/arena.cc"],
 [("Arena::MemoryUsage", "util/arena.h"), ("Arena::AllocateNewBlock", "util/arena.cc")], [("memory_usage_", "the usage counter", "util/arena.h")], ["MemoryUsage"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
