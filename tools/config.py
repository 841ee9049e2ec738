"""Which executable and scenarios decide which property."""
KIO = ["kio/core/*.cpp", "kio/sync/*.cpp", "kio/net/*.cpp", "kio/metrics/*.cpp", "kio/fs/*.cpp", "kio/resp/*.cpp"]
EXES = {
    # name: (repo sources, scenario sources, libs, extra flags)
    "sync": (KIO, ["syncwait.cpp", "tasks.cpp", "switch.cpp", "baton.cpp", "event.cpp", "lifecycle.cpp", "logger.cpp"], [], []),
    "io": (KIO, ["worker_io.cpp", "exact_io.cpp", "sleep.cpp", "stats.cpp", "files.cpp", "tcp.cpp", "httpmetrics.cpp", "bytesmut.cpp", "resp.cpp"], [], []),
    "mpsc": ([], ["mpsc.cpp"], [], []),
    "tls": (KIO + ["kio/tls/*.cpp"], ["tls.cpp", "tls_standin.cpp"], [], []),
    "bitcask": (KIO + ["bitcask/src/*.cpp"], ["bitcask.cpp", "bitcask_cache.cpp", "bitcask_stats.cpp"], [], []),
}

TECH = "deterministic simulation with fault injection: seeded search over schedules, faults and inputs of the real code, checked against a reference model"
KERNEL = "io_uring, eventfd, pipes, sockets, splice and timers (simulated kernel behind stubs/liburing.h and interposed system calls)"
BITCASK = ["bitcask", "kio/core (worker, coroutines, awaitables, logger)", "kio/sync"]
BK_STUB = (KERNEL, "disk (simulated: page cache, journaled metadata, crashes)", "struct_pack and crc32c (stand-ins of the same format in stubs/, the libraries are not installed)")
CORE = ["kio/core (worker, pool, coroutines, awaitables, logger)", "kio/sync", "kio/net", "kio/metrics"]

def chk(title, scenarios, rule, real=CORE, stub=(KERNEL,), quick_s=20, thorough_s=600, tech=TECH, note="", **kw):
    return dict(title=title, scenarios=scenarios, rule=rule, real=list(real), stub=list(stub), quick_s=quick_s, thorough_s=thorough_s, technique=tech, note=note, **kw)

DIST = " Distinct runs have different hashes over all scheduling decisions and observed events."
# scenario entries: (exe, scenario, quick runs, thorough runs[, weight])
CHECKS = {
    "C01": chk("MPSC queue", [("mpsc", "mpsc", 60000, 1500000)],
        "A run is one seeded execution of 1-4 producer threads and one consumer thread on a queue of capacity 1-16 with one schedule and one memory-model behaviour; it is non-trivial if at least one item was popped." + DIST,
        real=["kio/sync/mpsc_queue.h"], stub=[], tech="deterministic simulation: seeded schedules with PCT/random preemption and stale reads, model checked per step"),
    "C02": chk("SyncWait", [("sync", "syncwait", 60000, 1500000)],
        "A run is one seeded execution of threads calling SyncWait on nested tasks that finish on other threads or workers; non-trivial if a task finished on another thread than the caller's." + DIST),
    "C03": chk("switch to a worker", [("sync", "switch_worker", 60000, 1500000)],
        "A run starts 1-3 workers with random queue capacities and lets several threads and coroutines switch to them, with coalesced, failing and delayed wake-ups; non-trivial if a switch from another thread completed." + DIST),
    "C04": chk("I/O completion", [("io", "worker_io", 60000, 1500000)],
        "A run issues random operations from many coroutines on workers with small queues and slot pools under completion delays, reordering, full queues and errors; every result is compared with the simulated kernel's record; non-trivial if at least one operation completed." + DIST),
    "C05": chk("exact transfers", [("io", "exact_io", 60000, 1500000)],
        "A run makes exact and plain reads and writes on connected streams and on files with short transfers, resets and errors; every byte is compared with a model of the stream or file; non-trivial if at least one transfer ended." + DIST),
    "C06": chk("sendfile", [("io", "sendfile", 60000, 1500000)],
        "A run sends random ranges of files to sockets, pipes and files with partial splices and errors; every byte at the destination is checked; non-trivial if a transfer succeeded." + DIST),
    "C10": chk("AsyncBaton", [("sync", "baton", 60000, 1500000)],
        "A run lets coroutines on workers wait on batons that threads and coroutines notify, reset and re-wait; non-trivial if a waiter was suspended and woken." + DIST),
    "C11": chk("AsyncBaton::wait_for", [("sync", "baton_timed", 60000, 1500000), ("sync", "baton_scarce", 20000, 500000, 0.25)],
        "A run lets coroutines wait with timeouts on batons notified around the deadline, or poll with timed waits while rings and operation slots are exhausted; non-trivial if a timed wait ended, or ended without a timer." + DIST),
    "C12": chk("AsyncEvent", [("sync", "event", 60000, 1500000)],
        "A run lets coroutines on workers wait on events that threads and coroutines notify and reset; non-trivial if a waiter was woken." + DIST),
    "C13": chk("when_any", [("sync", "when_any", 60000, 1500000)],
        "A run awaits when_any over tasks that finish, fail or are outrun on different threads; non-trivial if a race of at least two tasks was decided." + DIST),
    "C07": chk("async_sleep", [("io", "sleep", 60000, 1500000)],
        "A run lets many coroutines on workers sleep for random durations (zero, nanoseconds to hours) under delayed completions, clock jumps, full queues and worker stalls; non-trivial if a positive sleep ended." + DIST),
    "C08": chk("worker and pool lifecycle", [("sync", "worker_life", 60000, 1500000), ("sync", "pool_life", 60000, 1500000)],
        "A run constructs, starts, awaits, stops and destroys workers or pools from several threads in random order, with failing ring set-up, failing threads and fatal submission errors; non-trivial if a started worker was stopped." + DIST),
    "C09": chk("worker statistics and metrics scrape", [("io", "stats", 30000, 800000)],
        "A run issues operations on workers while statistics are read and metrics pages are scraped from other threads; every number is compared with the simulated kernel's record; non-trivial if a non-zero statistic was compared." + DIST),
    "C14": chk("logger", [("sync", "logger", 60000, 1500000)],
        "A run lets 1-4 threads log messages of random size and level (some not formattable) into a queue of 1-64 places while levels change and others flush, with slow sinks and interrupted or missing wake-ups; non-trivial if a message was written." + DIST),
    "C15": chk("file manager", [("io", "files", 40000, 1500000)],
        "A run lets several threads and coroutines open, read, write, move and drop files through file managers over 1-4 workers with short transfers, failing opens and errors; every result and byte is compared with a model of each file; non-trivial if at least one file was opened and used." + DIST,
        real=CORE + ["kio/fs"]),
    "C16": chk("TCP connections", [("io", "tcp", 20000, 1000000)],
        "A run lets several clients (coroutines and foreign sockets) connect to 1-3 listening sockets over workers and exchange byte streams with fragmentation, delays, resets, refused connections and failing socket calls; every byte, address, error and descriptor is checked; non-trivial if at least one connection carried data." + DIST),
    "C17": chk("metrics HTTP server", [("io", "http", 20000, 1000000)],
        "A run starts the server on random ring, slot and buffer sizes with 1-3 collectors and lets up to ten clients ask, drip, stay silent, send too much, leave and reset while accepts, transfers and descriptors fail, and stops it at the end, in the middle or before it was started; every response is parsed and compared with what was collected; non-trivial if a response was checked." + DIST),
    "C18": chk("RESP parsing", [("io", "resp", 60000, 1500000)],
        "A run feeds 1-6 random (in part damaged) RESP streams to parsers in random pieces, directly with junk behind the received bytes or through connections served by workers, and compares every answer with a reference parser of the bytes received so far; non-trivial if at least two frames of a stream were parsed." + DIST,
        real=CORE + ["kio/resp"]),
    "C19": chk("BytesMut", [("io", "bytesmut", 60000, 1500000)],
        "A run applies random histories of reserve, partial fill, consume, peek, compaction, clear, append, move and copy with failing allocations, or receives streams through a worker with short reads and resets, and compares the readable and writable spans with a model after every step; non-trivial if bytes were consumed." + DIST),
    "C20": chk("TLS streams", [("tls", "tls", 30000, 1000000), ("tls", "tls_stop", 30000, 1000000, 0.2)],
        "A run lets 1-6 TLS clients of kio (connectors and hand-made streams with matching and other certificates, names and protocol versions) and up to five peers that are no TLS peers or leave in the middle of a handshake meet 1-3 accept loops over 1-3 workers, exchange byte streams one after the other or in both directions at once, by plain and exact writes and sendfile, and close, shut down, drop or reset in any order, over fragmented, slow, full and failing sockets and kernels that refuse the keys; every byte, the order and kind of every end, refused peers, descriptors and the progress of the workers are checked; non-trivial if a connection carried data." + DIST,
        real=CORE + ["kio/tls"], stub=(KERNEL, "kernel TLS (simulated: reversible encoding, records that are not data)", "OpenSSL (stand-in behind its headers: handshake messages, error queue, shutdown rules, certificates as text; no cryptography)")),
    "C21": chk("bitcask operations under concurrency", [("bitcask", "bk_linear", 30000, 1000000)],
        "A run opens a store of 1-3 partitions over 1-3 workers with tiny files and caches and lets 1-4 coroutines and threads put, get, delete and compact few keys at once under completion delays, short transfers, clock jumps and, in a part of the runs, I/O errors; the history of every key is checked for linearizability against a register; non-trivial if at least four operations ended." + DIST,
        real=BITCASK, stub=BK_STUB, quick_s=26),
    "C22": chk("bitcask durability", [("bitcask", "bk_crash", 30000, 1000000)],
        "A run takes a store through 1-3 lives, each ended by closing, dropping, killing or a power failure at a random point (any subset of the unsynced sectors survives), reopens it each time and compares what every key reads with what the acknowledgements allow; non-trivial if at least four operations ended." + DIST,
        real=BITCASK, stub=BK_STUB, quick_s=26),
    "C23": chk("bitcask reopening", [("bitcask", "bk_reopen", 30000, 1000000), ("bitcask", "bk_ids", 20000, 500000, 0.2)],
        "A run takes a store through 1-5 sessions with other configurations and clocks that jump back or forth, compares the contents after every reopening with the history and the bytes of sealed files with those of the session before; non-trivial if at least four operations ended. `bk_ids` hands out file ids alone, past 65,536 in one second, across sessions with files removed in between and with the clock jumping." + DIST,
        real=BITCASK, stub=BK_STUB, quick_s=26),
    "C24": chk("bitcask compaction", [("bitcask", "bk_compact", 30000, 1000000), ("bitcask", "bk_compact_crash", 30000, 1000000, 2)],
        "A run keeps compacting (by hand, in the background) while clients put, get and delete; the history is checked for linearizability, the contents after reopening and after crashes at random points, and the space used after closing against what live data explains; non-trivial if at least four operations ended." + DIST,
        real=BITCASK, stub=BK_STUB, quick_s=26),
    "C25": chk("bitcask corruption", [("bitcask", "bk_corrupt", 30000, 1000000), ("bitcask", "bk_decode", 30000, 1000000, 0.4)],
        "A run damages (flips, truncates, overwrites) files of a closed or a running store, reopens, reads, writes and compacts it, and checks that no read returns what was not put and that entries the damage cannot reach stay readable, or decodes damaged entries placed at the end of their memory; non-trivial if something was damaged or decoded." + DIST,
        real=BITCASK, stub=BK_STUB, quick_s=26),
    "C26": chk("bitcask opening and routing", [("bitcask", "bk_open", 30000, 1000000)],
        "A run creates and reopens stores of 1-5 partitions over 1-4 workers with failing system calls, threads and rings, crashes inside of opening, and openings with another partition count; it checks that every opening ends, what is readable after it, in which partition's directory each entry lies and that failed openings leave no thread or descriptor; non-trivial if a store was reopened." + DIST,
        real=BITCASK, stub=BK_STUB, quick_s=26),
    "C27": chk("bitcask descriptors", [("bitcask", "bk_fds", 30000, 1000000), ("bitcask", "bk_cache", 30000, 1000000, 0.25)],
        "A run reads and writes many small files through descriptor caches of 1-4 places from several coroutines while files are evicted, compacted and closed; the simulated descriptor table is checked for use after close, double close, the bound at every step and leaks after closing; non-trivial if files were opened for reading. `bk_cache` lets 1-4 coroutines get, keep, remove and replace files through the cache alone, against a model of a cache of least recently used files." + DIST,
        real=BITCASK, stub=BK_STUB, quick_s=26),
    "C28": chk("tasks", [("sync", "tasks", 60000, 1500000)],
        "A run lets 1-2 threads drive random trees of tasks (values of six types, exceptions, errors passed on by KIO_TRY, long chains and loops of awaits that end at once, tasks moved, assigned over, never awaited, awaited again, abandoned half-way) that continue on other threads; every start, end, value, exception, thread and destruction of a frame is checked; non-trivial if a task finished." + DIST,
        real=["kio/core/coro.h", "kio/core/errors.h", "kio/sync/sync_wait.h"], stub=[]),
    "C29": chk("bitcask statistics", [("bitcask", "bk_stats", 30000, 1000000)],
        "A run opens a partition 1-2 times and lets 1-3 threads put, get, delete, compact and look at the statistics, with short transfers and in a part of the runs I/O errors; the statistics are compared with what was called, with what the files hold (read as recovery reads them) and, around compactions, with what was removed; non-trivial if more than two values were put." + DIST,
        real=BITCASK, stub=BK_STUB),
}
CHECKS = dict(sorted(CHECKS.items()))
NOT_APPLICABLE = {}
HOOKS = None
