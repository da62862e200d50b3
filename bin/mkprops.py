#!/usr/bin/env python3
"""Source of properties.jsonl (run once after editing; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe=None, hook=None):
    a = {"files": files, "mechanism": mechanism}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("P01", "Point lookups return exactly what the history of writes implies",
  "After any sequence of inserts, deletes and updates issued by one client, a lookup of any key returns the value implied by that sequence: the last insert or delete wins, and updates are folded onto it oldest first through the application's merge callbacks, with a key whose oldest surviving message is an update resolved by the final-merge callback. This holds no matter how the writes are spread over the in-memory buffer and the on-disk tree, and whichever flushes, compactions, node splits or deferred background work have or have not happened.",
  ["histories", "configurations"],
  "For every operation history within the bounds, every placement of buffer rotations and deferred tasks in it, and every tuning configuration explored",
  "A wrong answer needs a particular key to sit at particular levels of the tree at the moment of a flush, split or compaction; tests sample a handful of insertion orders and mostly with inserts only.",
  ["src/splinterdb.c", "src/trunk.c", "src/memtable.c", "src/btree.c", "src/routing_filter.c", "src/merge.c", "src/data_internal.c"],
  "buffered tree of branches: lookup walks memtables newest first, then each trunk node's bundles, branches and filters, merging until a definitive message is found")
p("P02", "Range iteration is exact and ordered, forwards and backwards",
  "An iterator opened at any start key, or without one, is positioned on the smallest live key not below it, and stepping forwards or backwards in any mixture visits exactly the live keys in key order, each once, with the value a lookup would return. Keys whose last operation was a delete never show up, validity and can-step queries are truthful at both ends, and the iterator stays usable after running off either end.",
  ["histories", "inputs", "configurations"],
  "For every database state within the bounds, every start key and every sequence of forward and backward steps up to the stated depth",
  "Errors hide at boundaries between tree nodes, between chunks of the scan, at tombstones and at direction reversals; the number of combinations of state, start key and step pattern is far beyond a test list.",
  ["src/splinterdb.c", "src/trunk.c", "src/merge.c", "src/btree.c"],
  "range iterator over a snapshot of memtables and the branches on one root-to-leaf path, re-initialised leaf by leaf, merged newest first")
p("P03", "A clean close followed by open loses and changes nothing",
  "When a database is closed and opened again, any number of times and at any point of a history, every later lookup, iteration and write behaves as if the close had not happened: all writes whose calls returned before the close are there, none is duplicated, undone or reordered, and space used by live data is never handed out again.",
  ["histories", "configurations"],
  "For every operation history within the bounds and every position of close and reopen in it",
  "What must survive depends on which structures were dirty, half compacted or queued when close was called; tests reopen at a couple of fixed points.",
  ["src/splinterdb.c", "src/trunk.c", "src/clockcache.c", "src/rc_allocator.c", "src/task.c"],
  "unmount: memtables are flushed into the tree, tasks drained, caches flushed, super block and allocator reference counts written")
p("P04", "Concurrent operations are linearizable per key",
  "When several threads insert, delete, update and look up concurrently, the results of all calls are explained by one total order of the operations on each key that respects real time: a lookup that starts after a write returned sees it or something newer, no value appears that was not written, no write is lost or applied twice. This holds while buffers rotate and flushes, compactions and splits run in other threads.",
  ["schedules"],
  "For every thread interleaving at synchronisation accesses within the deviation bound, for every concurrent program in the explored set",
  "Races need a preemption at one specific instruction pair, for example between publishing a rotated buffer and a reader picking its snapshot; test runs see a few schedules.",
  ["src/trunk.c", "src/memtable.c", "src/btree.c", "src/clockcache.c", "src/splinterdb.c"],
  "per-page read/claim/write locks, memtable generation lock, copy-on-write trunk nodes, b-tree latch coupling")
p("P05", "Iterators stay consistent while writers and compactions run",
  "An iterator that is open while other threads write and the tree is reorganised still returns strictly ascending keys, returns every key that was live and untouched during its whole lifetime exactly once with its value, and never returns a key or value that was not current at some time during the iteration. It never reads storage that has been recycled for something else.",
  ["schedules"],
  "For every interleaving within the deviation bound of an iterating thread with writing and background threads",
  "The hazard is an extent or page being freed or reused between two steps of the iterator, which needs one precise schedule.",
  ["src/trunk.c", "src/memtable.c", "src/btree.c", "src/mini_allocator.c", "src/rc_allocator.c"],
  "iterator holds memtable references and branch reference counts taken on a root-to-leaf snapshot")
p("P06", "Every operation finishes: no deadlock, livelock or lost wake-up",
  "Every call into the library completes as long as the device answers and there is free space: there is no schedule of application and background threads in which calls wait for each other forever, no wake-up is lost, and close always finishes with all background work done.",
  ["schedules"],
  "For every interleaving within the deviation bound, for every concurrent program and background-thread configuration explored",
  "Deadlocks and lost wake-ups appear in one schedule among millions; a test that does not hit it simply passes.",
  ["src/task.c", "src/clockcache.c", "src/memtable.c", "src/trunk.c", "src/platform_linux/laio.c"],
  "lock ordering, try-lock with back-off on claims, condition variable hand-off in the task system, completion polling in the I/O layer")
p("P07", "Background tasks run exactly once and are drained on request",
  "Every unit of background work handed to the task system is executed exactly once, in whatever mix of background workers and application threads helping out; when a caller asks the system to become idle, that call returns only after all work queued before it has finished, and shutting down leaves no worker running and no work behind.",
  ["schedules", "configurations"],
  "For every interleaving within the deviation bound of producers, helpers, workers and the drain or shutdown call, for 0 to 2 workers",
  "Lost or duplicated work needs a particular overlap of enqueue, dequeue, wake-up and shutdown.",
  ["src/task.c"],
  "task groups with a mutex-protected queue, condition variable, outstanding-task counters and a stop flag")
p("P08", "The page cache never serves stale, torn or lost page contents",
  "Whoever gets a page sees the bytes that the last writer of that page left, no matter how often it was evicted, written back, prefetched or fetched again in between, and in whatever order the device completes its requests. While one thread holds a page for writing no other thread reads or writes it, a page's bytes do not change while they are being written to the device, and after a flush the device holds the latest contents of every page.",
  ["schedules", "histories"],
  "For every interleaving within the deviation bound, every completion order explored, and every sequence of cache operations up to the stated depth with a cache smaller than the working set",
  "Stale data needs an eviction or write-back to overlap a get, a claim or a dirtying write at one instruction.",
  ["src/clockcache.c", "src/cache.h", "src/platform_linux/laio.c"],
  "entry status flags changed by compare-and-swap, per-thread read reference counts, clock hand eviction and batched write-back")
p("P09", "Allocated extents are exclusive and reference counted exactly",
  "The extent allocator never hands out storage that is still in use, gives storage back for reuse exactly when its last reference is dropped, counts what is in use exactly, reports exhaustion as an error and not by reusing live storage, and keeps all of this across a clean remount. This holds under any interleaving of threads.",
  ["schedules", "histories"],
  "For every sequence of allocate, reference, release and remount operations up to the stated depth on a small device, and every interleaving of short concurrent sequences within the deviation bound",
  "Double allocation needs two threads to race for the same extent, or a particular fill pattern with wrap-around; its effect shows up much later as foreign data.",
  ["src/rc_allocator.c", "src/mini_allocator.c", "src/allocator.h"],
  "array of atomic reference counts with a moving hint, persisted at unmount")
p("P10", "Storage is reclaimed: no leak of extents, memory or handles",
  "Storage holding superseded or deleted data becomes reusable: replaying a bounded workload over and over never needs more than a bounded amount of space, iterators and lookups do not pin storage after they are released, and every piece of storage in use is accounted for by the live tree. Closing a database releases all memory, threads, files and I/O contexts it took.",
  ["histories", "configurations"],
  "For every history of writes, deletes, iterators, reopen and close within the bounds",
  "A leak of one reference per rare structural event passes every functional test and exhausts the device weeks later.",
  ["src/trunk.c", "src/memtable.c", "src/mini_allocator.c", "src/rc_allocator.c", "src/routing_filter.c", "src/splinterdb.c"],
  "reference counts on branches, filters and memtables dropped by compaction, space reclamation and iterator release")
p("P11", "The write log replays exactly the logged writes in order",
  "Reading back a log returns, in the order of the sequence numbers they were logged with (and so in the order they were applied to each key), exactly the writes on the log's finished pages, each once and unchanged, whichever threads wrote them and however they were spread over pages, and whatever was cleaned or evicted in between; entries of an older log or of an unfinished page never show up. If some of the log's pages did not reach the device or only in part, what is returned is exactly the entries of the pages before the first such page, in the order in which the log used its pages.",
  ["histories", "crash_points", "schedules"],
  "For every sequence of appends within the bounds, every subset of written log pages around a crash within the bounds, and every interleaving of short concurrent appends within the deviation bound",
  "Page and extent boundaries, generations and per-thread buffers combine; tests write one large uniform log and read it back once.",
  ["src/shard_log.c", "src/log.h"],
  "per-thread log pages with magic, checksum and generation, merged and sorted by generation on read")
p("P12", "Filters never hide a key that is present",
  "For every set of keys, including keys with colliding hashes, and for every order in which sets of keys are added, a filter built over them reports every branch that holds a key; asking it in the synchronous or asynchronous way gives the same answer.",
  ["inputs", "histories"],
  "For every assignment of keys from a small hash domain to up to three successive filter generations within the bounds, plus size sweeps across encoding boundaries",
  "False negatives depend on hash collisions, on remainder-width and bucket-count boundaries and on previous filter contents; random keys almost never collide.",
  ["src/routing_filter.c", "src/PackedArray.c"],
  "quotient-style filter with per-index encoded bucket counts, rebuilt by merging the old filter's fingerprints")
p("P13", "After a crash, open either refuses or serves correct data",
  "Whatever subset of the most recent device writes reached stable storage when the process died, and whether or not the last one was torn, opening the database afterwards either fails with an error or yields a database in which every lookup and iteration returns a state that existed at a clean close. It never crashes, never hangs and never serves a mixture.",
  ["crash_points", "histories"],
  "For every prefix, every single dropped write and every torn last write of the device-write sequence of a set of histories including create, reopen and close",
  "There is one crash image per write and tearing pattern; tests never stop the process between two writes.",
  ["src/splinterdb.c", "src/trunk.c", "src/rc_allocator.c", "src/platform_linux/laio.c"],
  "super block with checksum and clean-unmount flag, written around mount and unmount")
p("P14", "Bad configurations and wrong files are refused cleanly",
  "Creating or opening a database with parameters that do not make sense, that do not match the file, or on a device that fails while it is being set up returns an error; it never crashes, never corrupts an existing database, and gives back every resource it took. Valid configurations at the limits of their ranges work.",
  ["configurations", "fault_sequences"],
  "For every combination of boundary values of the configuration parameters within the explored grid, and every single failing system call or allocation during create, open and close",
  "The cross product of parameters and failing calls is too large for a list of examples, and error paths are hardly ever executed.",
  ["src/splinterdb.c", "src/trunk.c", "src/clockcache.c", "src/rc_allocator.c", "src/platform_linux/laio.c", "src/platform_linux/platform.c", "src/shmem.c"],
  "configuration validation and staged construction with unwinding")
p("P15", "Device errors are never taken for success",
  "If the device reports an error or transfers less than asked for, the library either returns an error, retries until it succeeds, or stops the process; it never returns wrong or missing data as if nothing had happened and never reports a later clean state built on data that was not written.",
  ["fault_sequences"],
  "For every single device request failing or being cut short, at every position of a set of histories that read, write, evict, flush and reopen",
  "A fault has to hit one particular request of thousands; tests run on a perfect disk.",
  ["src/platform_linux/laio.c", "src/clockcache.c", "src/trunk.c", "src/rc_allocator.c"],
  "status returned by synchronous I/O and completion callbacks of asynchronous I/O")
p("P16", "Reader-writer locks exclude and admit correctly",
  "While a thread holds one of the library's batch or distributed locks exclusively no other thread holds it in any mode, at most one thread holds a claim, readers may overlap each other and a claim, try operations fail only when there is a conflict, and every waiting thread gets its turn once the conflicting holders release.",
  ["schedules"],
  "For every interleaving within the deviation bound of up to three threads using the locks in every mode",
  "Exclusion failures need two threads inside a window of a few instructions.",
  ["src/platform_linux/platform.c", "src/platform_linux/platform_inline.h", "src/platform_linux/platform.h"],
  "per-thread reader counters with a claim and write flag, mutexes and spin locks")
p("P17", "Thread registration gives each live thread its own identity",
  "Every registered thread has an identity no other live thread of the database has, identities of finished threads can be used again, registration beyond the limit is refused instead of sharing one, and this holds when threads register and leave concurrently, for worker threads as well as application threads.",
  ["schedules", "histories"],
  "For every sequence of register and deregister steps up to the stated depth and every interleaving of concurrent registrations within the deviation bound",
  "Shared identities silently break every per-thread structure; hitting one requires an exact overlap of two registrations.",
  ["src/task.c", "src/splinterdb.c", "src/platform_linux/platform_inline.h"],
  "bitmap of thread ids updated by compare-and-swap plus per-thread scratch slots")
p("P18", "Shared-memory heap blocks never overlap and stay intact",
  "Blocks handed out by the shared-memory heap lie inside the segment, satisfy the requested size and alignment, never overlap another live block, keep their contents until freed, including across resizing, and freed large blocks become available again; running out is reported as failure. The database behaves the same with and without the shared-memory heap.",
  ["histories", "schedules", "configurations"],
  "For every sequence of allocate, resize and free operations of boundary sizes up to the stated depth, and every interleaving of short concurrent sequences within the deviation bound",
  "Overlap needs a particular order of frees and allocations of nearly equal sizes, or a race for the same recycled fragment.",
  ["src/platform_linux/shmem.c", "src/platform_linux/platform_inline.h"],
  "bump allocation from the segment plus a spin-lock protected table of recyclable large fragments")
p("P19", "Lookup results are exact for every buffer and value size",
  "A lookup result object gives back the complete value with its exact length for every legal key and value size, whether the caller supplied a buffer that is too small, exactly fitting or large, or none, and when one object is reused for many lookups in any order; a miss after a hit reports not-found. Keys and values of every size up to the documented limits are stored and returned intact, and larger ones are refused without harm to the database.",
  ["inputs", "histories"],
  "For every combination of buffer size, previous content and value size at the boundaries, every sequence of reuse up to the stated depth, and every key and value length in the swept range",
  "Size-dependent faults show up at single lengths: node encoding limits, inline buffer sizes, page capacity.",
  ["src/splinterdb.c", "src/data_internal.h", "src/data_internal.c", "src/util.h", "src/util.c", "src/btree.c"],
  "writable buffer that starts in the caller's memory and grows, page-size dependent entry limits")
p("P20", "B-trees store exactly what was inserted, under concurrency too",
  "A single b-tree, in its in-memory growing form and in its packed form, answers lookups and iterations in both directions within any key bounds exactly according to the messages inserted into it, with sizes and counts that match, for every insertion order and entry-size pattern, and with threads inserting and reading concurrently.",
  ["histories", "inputs", "schedules"],
  "For every insertion sequence within the bounds over keys and entry sizes that force leaf and index splits, and every interleaving within the deviation bound of concurrent inserts and reads",
  "Splits depend on the exact fill of a page and the position of the new entry; races depend on a reader meeting a split half way.",
  ["src/btree.c", "src/btree.h", "src/btree_private.h", "src/mini_allocator.c"],
  "page-local table of entry offsets, pre-emptive splitting on the way down, defragmentation, packing into extents, generation checks on leaves")
p("P21", "Merging sorted inputs yields each key once with newest-first meaning",
  "Merging any number of sorted inputs yields, going forwards or backwards and after any reversal, each key once in order, carrying the newest definitive message with newer updates applied in age order; in the final mode deleted keys disappear and updates become values, in the intermediate mode nothing that could still matter to older data is dropped, and in raw mode everything is passed through.",
  ["inputs", "histories"],
  "For every assignment of absent, insert, update and delete messages to a few keys in up to three or four inputs, every mode, and every step pattern up to the stated depth",
  "The result depends on the age order of every combination of message types per key and on reversals in the middle of duplicates.",
  ["src/merge.c", "src/data_internal.c", "src/data_internal.h"],
  "ordered array of inputs with stable tie-breaking by age, duplicate resolution through the application's merge callbacks")
p("P22", "Asynchronous lookups agree with synchronous ones",
  "An asynchronous lookup, however often it is suspended on missing pages, locked pages or a full request queue and resumed, in whatever order the device completes, and however many are in flight, ends with the answer a synchronous lookup would give at some time between its start and end, and its completion is notified exactly once per suspension.",
  ["schedules", "histories"],
  "For every completion order and every interleaving within the deviation bound, over databases larger than the cache with several lookups in flight",
  "Each suspension point of the state machine has to be hit with the page in each possible state.",
  ["src/trunk.c", "src/btree.c", "src/routing_filter.c", "src/clockcache.c"],
  "resumable state machines for trunk, filter, b-tree and cache reads with completion callbacks")
p("P23", "Pages are only touched while held; contents never depend on eviction",
  "Every access to a cached page's memory happens while the accessing code holds that page, and every change to it happens while the page is write-locked, so that no result, statistic or on-disk structure depends on when the cache chooses to evict or reuse a page that nobody holds.",
  ["histories", "schedules"],
  "For every operation sequence and every interleaving within the bounds, in which every page nobody holds could be evicted and its memory reused at once",
  "A page used a moment after it was given back nearly always still has its contents; only an eviction in that moment shows the fault.",
  ["src/clockcache.c", "src/btree.c", "src/trunk.c", "src/routing_filter.c", "src/mini_allocator.c", "src/shard_log.c"],
  "get, claim, lock, unlock, unclaim, unget protocol of page handles; keys and messages that point into pages")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
