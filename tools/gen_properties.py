#!/usr/bin/env python3
"""Source of properties.jsonl (one JSON object per line). Run: python3 tools/gen_properties.py > properties.jsonl"""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

# ---- scheduling / tasks -------------------------------------------------------------------------------------------
p("C01", "Bounded MPSC queue: no loss, no duplication, per-producer FIFO, race free",
  "For any number of producers and one consumer, every item whose push returned true is popped exactly once, unmodified, and items of one producer come out in the order it pushed them. "
  "A push fails only when the queue really holds `capacity` items, never more are held, and a pop fails only when every item pushed and not yet popped is behind a push still in progress. "
  "Items left in the queue are destroyed exactly once, and everything the producer wrote before the push is visible to the consumer. The reported size is exact at rest and never exceeds what was pushed.",
  ["schedules", "histories", "configurations"],
  "all interleavings of pushes and pops at atomic-operation granularity, all capacities that are powers of two (including 1), trivially copyable, move-only and non-default-constructible items",
  "the unit tests run a few real threads whose interleaving the OS picks; on x86 a weakened memory order or a lost slot needs a preemption between two instructions",
  ["kio/sync/mpsc_queue.h"],
  [("per-cell sequence numbers with acquire/release", "kio/sync/mpsc_queue.h: try_push, try_pop"), ("drain in destructor", "kio/sync/mpsc_queue.h: ~MPSCQueue")],
  ["try_push/try_pop results", "item constructor/destructor counts"])
p("C02", "SyncWait returns each task's own outcome exactly once, fully visible",
  "SyncWait returns only after the task finished, on whatever thread it finished, and yields exactly the value it returned or rethrows the exception it threw. "
  "All memory written by the task before finishing is visible to the caller, the task's frames are destroyed exactly once and never touched afterwards, and the call never hangs once the task has finished.",
  ["schedules", "histories"],
  "all interleavings of the waiting thread with the thread completing the task, for nested tasks, value, void, move-only and throwing tasks",
  "existing tests complete the task on the calling thread or under one lucky interleaving; the frame-destruction window after completion is a few instructions wide",
  ["kio/sync/sync_wait.h", "kio/core/coro.h"],
  [("latch set in final suspend", "kio/sync/sync_wait.h: final_awaiter"), ("symmetric transfer to the continuation", "kio/core/coro.h: Task::promise_type::final_awaiter")],
  ["SyncWait result", "frame allocation/free"])
p("C03", "A coroutine that switches to a worker resumes exactly once, on that worker",
  "Whenever a coroutine awaits a switch to a running worker from any thread, it resumes exactly once, on that worker's thread, within a bounded number of event-loop turns, even when the loop is otherwise idle. "
  "Concurrent switches from many threads are none of them lost or run twice as long as no more than the configured queue capacity are pending, writes made before the switch are visible after it, and coroutines that keep posting each other never keep the worker from its I/O.",
  ["schedules", "histories", "configurations"],
  "all interleavings of posting threads with the worker's sleep/wake cycle, all queue capacities, spurious and coalesced wake-ups, transient wake-up faults",
  "tests of the worker are not run here and a lost wake-up needs a post between the queue drain and the re-arm of the wake-up read",
  ["kio/core/worker.cpp", "kio/core/worker.h", "kio/sync/mpsc_queue.h"],
  [("push then eventfd write", "kio/core/worker.cpp: Worker::post"), ("drain then re-arm", "kio/core/worker.cpp: Worker::process_completions, submit_wakeup_read")],
  ["thread id and count of resumptions", "quiescence with pending coroutines"])
p("C04", "Each awaited I/O completes exactly once with its own result",
  "Every I/O operation awaited on a worker is submitted to the kernel at most once with the arguments given, its coroutine resumes exactly once on the worker's thread, and it receives the result of that very operation. "
  "This holds for any order and delay of completions, any number of concurrent operations up to the configured slot limit and beyond the submission queue size, an operation that reports failure to start performs no I/O, and every operation that ended or did not start has given its slot back. "
  "No operation refers to memory that was freed while the kernel could still read or write it.",
  ["schedules", "fault_sequences", "configurations", "histories"],
  "all completion orders, queue depths, slot-pool sizes and growth factors, error results and full submission queues",
  "needs completions reordered against submissions, the slot pool growing while operations are in flight, or a full submission queue at a particular await; tests run one operation at a time on a friendly kernel",
  ["kio/core/worker.cpp", "kio/core/worker.h", "kio/core/uring_awaitable.h"],
  [("op-id slots", "kio/core/worker.cpp: get_op_id, release_op_id, process_completions"), ("submission", "kio/core/uring_awaitable.h: await_suspend")],
  ["results seen by coroutines", "operations seen by the simulated kernel"],
  [("op_data_pool_", "coroutine and result per operation in flight", "kio/core/worker.h")])
p("C05", "Exact reads and writes transfer every byte once, in place, or fail",
  "The exact read and write operations succeed only if every requested byte was transferred, in order and at the right offset, whatever short transfers the kernel makes. "
  "End of file or an I/O error before that is reported as an error carrying the cause, bytes outside the requested range are never touched, and plain reads and writes report exactly the number of bytes transferred.",
  ["fault_sequences", "inputs", "schedules"],
  "all splits into short transfers, all positions of an error or end of file, streams and positional files, concurrent operations on distinct ranges",
  "a local kernel almost never makes a short read or write on the small buffers tests use",
  ["kio/core/worker.cpp"],
  [("resume at the transferred count", "kio/core/worker.cpp: async_read_exact, async_read_exact_at, async_write_exact, async_write_exact_at")],
  ["buffer and file contents", "returned Result"])
p("C06", "sendfile copies exactly the requested range or reports an error",
  "async_sendfile delivers exactly `count` bytes of the source starting at `offset`, in order and without duplication, to the destination before it reports success, whatever partial transfers happen on either side. "
  "If either side fails or the source ends early it reports an error, and in every outcome every descriptor it created is closed.",
  ["fault_sequences", "inputs", "schedules"],
  "all partial transfer sizes on both halves, counts around the internal chunk size, error at any step, concurrent transfers",
  "no test exercises it; partial transfers and mid-way errors need a slow peer or fault injection",
  ["kio/core/worker.cpp"],
  [("two-stage splice loop through a private pipe", "kio/core/worker.cpp: async_sendfile")],
  ["bytes received by the destination", "open descriptors"])
p("C07", "async_sleep never wakes early and wakes once, soon after its deadline",
  "A coroutine that sleeps for a duration resumes exactly once, on its worker, not before that much monotonic time has passed since the sleep was issued, and within a bounded delay after it while the worker is being scheduled. "
  "Sleeps are independent of each other and of wall-clock jumps, and of other I/O on the worker.",
  ["schedules", "inputs", "histories"],
  "all sets of concurrent sleeps, durations from zero through several hours including sub-second parts, wall-clock jumps",
  "tests use one or two real sleeps of a few milliseconds with slack",
  ["kio/core/worker.cpp"],
  [("kernel timeout with the timespec in the coroutine frame", "kio/core/worker.cpp: async_sleep")],
  ["simulated clock at resumption"])
p("C08", "Workers and pools start, report readiness and stop without hanging",
  "Waiting for a worker to be ready or shut down returns whether initialisation succeeds, fails or is followed by an immediate stop; starting a pool never hangs when a worker cannot initialise. "
  "Stop is idempotent and safe from several threads, wakes an idle worker, the call that initiates a pool's stop returns only after the worker loops ended, and after a pool is stopped no coroutine runs on its workers any more. "
  "A configuration that cannot work is refused. The start-up callback runs exactly once, on the worker's thread, and no descriptor is leaked or closed that the worker does not own.",
  ["schedules", "fault_sequences", "configurations"],
  "all interleavings of start, stop, post and destroy, failures of ring set-up, kernel check, affinity and callback, stop at any point of the loop",
  "failures of ring initialisation and stop/post races cannot be provoked by a unit test",
  ["kio/core/worker.cpp", "kio/core/worker_pool.cpp", "kio/core/worker.h"],
  [("latches and stop source", "kio/core/worker.cpp: loop_forever, loop, request_stop"), ("pool stop", "kio/core/worker_pool.cpp: IOPool::stop")],
  ["return of wait_ready/wait_shutdown/stop", "descriptor table"])
p("C09", "Worker statistics equal the work done and scraping them is race free",
  "Whenever a worker is quiescent its statistics equal the operations it completed: bytes and operations read and written, connections accepted and made, files opened; failed operations are not counted as done. "
  "A metrics scrape from any thread while the worker runs sees a consistent snapshot taken on the worker's thread, counters never decrease between scrapes, and the operations-in-flight gauge returns to its idle value once everything completed.",
  ["schedules", "fault_sequences", "histories"],
  "all mixes of successful, short and failed operations, scrapes at arbitrary points",
  "needs concurrent scrapes and failed/short I/O; tests never compare counters with the I/O that happened",
  ["kio/core/worker.cpp", "kio/core/worker.h", "kio/core/metrics_collector.cpp", "kio/metrics/registry.h", "kio/metrics/model.h", "kio/metrics/serializer.cpp"],
  [("counters updated on the worker thread", "kio/core/worker.cpp: async_*"), ("hop to the worker", "kio/core/metrics_collector.cpp: Collect")],
  ["get_stats()", "scraped text"])
# ---- sync primitives ----------------------------------------------------------------------------------------------
p("C10", "AsyncBaton: a waiter resumes exactly once iff notified, on its owner",
  "A coroutine waiting on a baton resumes exactly once, on the owner worker's thread, after and only after some thread notified the baton since its last reset; a notification is never lost whether it comes before, during or after the wait. "
  "Writes made before notify are visible to the resumed waiter, extra notifications have no effect, and after the waiter resumed and reset the baton it can be reused.",
  ["schedules", "histories"],
  "all interleavings of wait, ready, notify from several threads, and reset/reuse rounds",
  "a lost wake-up needs notify between the registration and the state change; baton tests are not even run here",
  ["kio/sync/baton.h"],
  [("three-state handshake", "kio/sync/baton.h: wait, notify, reset")],
  ["resumption count, thread and order"])
p("C11", "AsyncBaton timed wait: resolves once, signalled or timed out, never both",
  "A timed wait finishes exactly once: it reports a signal only if the baton was notified, reports a timeout only if it was not yet notified when the wait resolved and not before the duration elapsed (unless no timer could be armed), and always finishes within a bounded delay of its deadline or of a notification. Waiting in a loop never keeps the worker from its other work, even while no timer can be armed. "
  "Wherever it was called from, it ends on the baton's owner worker. The coroutine is never resumed or touched again after it finished, however the timer and the notification race, and the baton can be waited on again afterwards.",
  ["schedules", "fault_sequences", "histories"],
  "all orders of timer expiry, notification, posting and completion processing, including expiry and notification in the same event-loop turn, and resource exhaustion when arming",
  "the race needs the timer completion to be processed between the notifier's state change and the worker draining its queue",
  ["kio/sync/baton.h", "kio/core/worker.cpp"],
  [("state machine plus timer slot", "kio/sync/baton.h: wait_for")],
  ["returned bool", "simulated clock", "frame lifetime"])
p("C12", "AsyncEvent: notify releases every waiter exactly once, and none later",
  "Notifying an event resumes every coroutine that was waiting on it exactly once on the owner worker, and every wait that starts while the event is set completes at once without suspending. "
  "Waits racing with notify from any number of threads are never lost, the event stays set until reset, and memory of a resumed waiter is never touched.",
  ["schedules", "histories"],
  "all interleavings of any number of waiters with concurrent notifiers and reset between rounds",
  "waiter registration racing the list hand-over needs instruction-level interleaving; the event test does not compile at this commit",
  ["kio/sync/event.h"],
  [("lock-free waiter list with a set sentinel", "kio/sync/event.h: await_suspend, notify, reset")],
  ["resumption counts", "frame lifetime"])
p("C13", "when_any returns the index of a finished task, once; the others still run",
  "when_any resumes its caller exactly once, after at least one task finished, with the index of a task that had finished first; every other task still runs to its end exactly once and its result is discarded. "
  "A task that fails with an exception counts as finished, and no task or shared state is used after it was freed, in whatever order and on whatever threads the tasks finish.",
  ["schedules", "fault_sequences"],
  "all completion orders, simultaneous completions on several workers, tasks that complete immediately or throw",
  "the single existing test uses well separated timers and is not run here",
  ["kio/sync/when_any.h", "kio/sync/baton.h"],
  [("winner compare-and-swap and baton", "kio/sync/when_any.h: run_and_notify")],
  ["returned index", "task completion record"])
# ---- logger -------------------------------------------------------------------------------------------------------
p("C14", "Logger writes every accepted message once, in order, even at shutdown",
  "Every message logged at or above the level is written exactly once, complete and unmixed with others, with the level, time, thread and source line of its own call, in the order its thread logged it, unless the queue was full, in which case it is dropped as a whole and never blocks the caller. "
  "An accepted message is written within a bounded time without further log calls, all accepted messages are written before the logger's destruction ends, and messages below the level are never written. "
  "The logging thread never touches freed or unsynchronised memory of the callers.",
  ["schedules", "inputs", "fault_sequences", "configurations"],
  "all interleavings of loggers, level changes and destruction, queue sizes, message sizes around the inline buffer, interrupted wake-up reads, a missing wake-up descriptor, slow outputs, messages whose formatting throws",
  "tests log from few threads with sleeps; loss at shutdown or an unsynchronised hand-over needs a particular interleaving",
  ["kio/core/async_logger.h", "kio/sync/mpsc_queue.h"],
  [("queue plus eventfd consumer", "kio/core/async_logger.h: log, consume_loop, ~Logger")],
  ["output stream"])
# ---- files, descriptors, network ---------------------------------------------------------------------------------
p("C15", "FileManager operations act on the right file, on its worker, from any thread",
  "Opening, reading and writing through the file manager from any thread performs each operation on the named file with the given flags, buffer and offset, returns its own byte count or error, and finishes exactly once. "
  "Each path is always served by the same worker, moved file objects keep working on their descriptor and worker, and every opened descriptor is closed exactly once.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of several client threads over several workers and files, short transfers and errors",
  "the existing test (not run here) opens one file from one thread",
  ["kio/fs/fs.h", "kio/fs/fs.cpp", "kio/core/worker_pool.cpp"],
  [("key affinity and SwitchToWorker", "kio/fs/fs.cpp: async_open, async_read, async_write"), ("move-only File", "kio/fs/fs.h: File")],
  ["file contents", "results", "descriptor table"])
p("C16", "TCP connections through a worker carry the exact byte stream, no fd leaks",
  "Data written to a connection made or accepted through a worker arrives at the peer complete, in order and once until one side closes or fails, for any fragmentation, delay and number of concurrent connections. "
  "Failures to create, bind, listen, accept or connect are reported as errors carrying the cause, accepted peers are reported with their own address, and every descriptor is closed exactly once on every path.",
  ["schedules", "fault_sequences", "histories", "configurations"],
  "all fragmentations, interleavings of connections, resets, refused connections and failing socket calls",
  "needs adversarial fragmentation and failures of individual system calls; the network tests are not run here",
  ["kio/net/net.cpp", "kio/net/net.h", "kio/net/socket.h", "kio/core/worker.cpp"],
  [("socket set-up with guard", "kio/net/net.cpp"), ("move-only descriptors", "kio/net/socket.h, kio/net/net.h")],
  ["bytes at the peer", "descriptor table", "returned errors"])
p("C17", "Metrics HTTP server answers each well-formed request, stays up, and stops",
  "Each connection that sends a complete request receives exactly one complete response with the right status, a length equal to its body, and is then closed, however the request is fragmented or interleaved with other, slow, silent, oversized or resetting clients. "
  "The metrics page is well formed and carries each collected value exactly. A failed accept or a misbehaving client never stops other clients from being served, and stopping or destroying the server, started or not, returns and closes what it owns.",
  ["schedules", "fault_sequences", "inputs"],
  "all fragmentations and interleavings of clients, accept and transfer errors, stop at any point",
  "there is no test of the server; slow and resetting peers need a simulated network",
  ["kio/metrics/server.cpp", "kio/metrics/server.h", "kio/metrics/registry.h", "kio/metrics/serializer.cpp"],
  [("accept loop and per-client coroutine", "kio/metrics/server.cpp: accept_loop, handle_client"), ("stop", "kio/metrics/server.cpp: stop")],
  ["bytes received by clients", "return of stop()"])
# ---- stream parsing -----------------------------------------------------------------------------------------------
p("C18", "RESP frames parse the same however the stream is cut, and only when whole",
  "Feeding a RESP byte stream to the parser in any pieces yields exactly the frames that the whole stream contains, in order, each reported once it is completely received and never before, with exactly its own bytes consumed. "
  "A malformed frame is reported as malformed for every fragmentation, an incomplete one only as needing more data, the limits on nesting depth and bulk length are enforced, and no byte outside the received data is ever read.",
  ["inputs", "fault_sequences", "schedules"],
  "all streams of nested frames, all fragmentations, truncations, flipped bytes and end of stream at any position, arriving through a simulated connection",
  "tests parse complete literals; the property quantifies over all cut points and damaged streams",
  ["kio/resp/parser.cpp", "kio/resp/parser.h", "kio/core/bytes_mut.h"],
  [("cursor-saving incremental parser", "kio/resp/parser.cpp"), ("NeedMoreData", "kio/resp/parser.cpp")],
  ["frames returned", "consumed bytes"])
p("C19", "BytesMut stream buffer never loses, reorders or invents bytes",
  "Used as a receive buffer, the concatenation of everything consumed and what remains readable always equals everything committed, through any mix of reserve, partial fills, consume and compaction. "
  "A reservation always makes at least the requested writable space available without changing the readable bytes or fails without effect, impossible counts are refused, a buffer moved from is empty, and every access stays inside memory the buffer owns.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences of receives of any size (including short and zero), reserves, advances and compactions, allocation failure at any growth",
  "tests cover a few fixed sequences; loss happens at particular combinations of cursor positions",
  ["kio/core/bytes_mut.h"],
  [("read/write cursors with lazy compaction", "kio/core/bytes_mut.h")],
  ["readable span", "writable span"])
p("C20", "TLS stream: peers exchange the exact plaintext or get an error",
  "Once a TLS handshake succeeds on both sides, everything written by one peer is read by the other complete, in order and once, for any fragmentation and partial transfer of the transport, and end of stream is reported as such only when the peer closed. "
  "A handshake that cannot finish (peer closes, resets, is untrusted, or the worker stops) is reported as an error, never as success, and releases what it holds; no silent or foreign peer keeps the worker from its other work. "
  "A shutdown that reports success has told the peer and seen its end.",
  ["schedules", "fault_sequences", "configurations"],
  "all fragmentations and interleavings of the handshake, errors and closes at any step, stop at any point",
  "there are no TLS tests; partial transport I/O in the handshake cannot be provoked on loopback",
  ["kio/tls/stream.cpp", "kio/tls/stream.h", "kio/tls/context.cpp", "kio/tls/listener.cpp"],
  [("non-blocking handshake driven by poll", "kio/tls/stream.cpp: do_handshake_step, async_handshake")],
  ["plaintext at the peer", "returned Result"])
# ---- bitcask ------------------------------------------------------------------------------------------------------
p("C21", "Bitcask get/put/del are linearizable per key under concurrency",
  "Concurrent get, put and del calls on an open store, from any threads, behave as if each took effect atomically at one instant between its call and its return: a get returns the value of the latest such put, or nothing after a delete or if there was none. "
  "An operation that reports an error may or may not have taken effect, but no operation ever returns a value that was not put for that key.",
  ["schedules", "histories", "fault_sequences", "configurations"],
  "all interleavings of concurrent operations over several partitions, with file rotation, background sync, descriptor eviction and compaction in progress, with and without I/O errors",
  "the bitcask tests issue operations one after another and are not built here; overlap inside an I/O wait needs controlled completion order",
  ["bitcask/src/partition.cpp", "bitcask/src/bitcask.cpp", "bitcask/src/data_file.cpp", "bitcask/src/fd_cache.cpp"],
  [("single-threaded partitions with key directory", "bitcask/src/partition.cpp: put, get, del"), ("routing", "bitcask/src/bitcask.cpp")],
  ["operation history"])
p("C22", "Bitcask: acknowledged durable writes survive crash and restart",
  "After a crash at any instant, reopening succeeds and every put or delete acknowledged while sync-on-write was set, or acknowledged before a later successful sync or close, is reflected unless a later operation on that key supersedes it. "
  "A key whose last writes were not yet durable reads as the durable state or as one of those later writes, never anything else.",
  ["crash_points", "histories", "fault_sequences", "configurations"],
  "all crash points between and inside operations, all subsets of unsynced writes lost or torn, file rotation and compaction in progress, several crashes in a row",
  "unit tests cannot crash the machine between two disk operations or lose unsynced data",
  ["bitcask/src/partition.cpp", "bitcask/src/data_file.cpp", "bitcask/src/bitcask.cpp", "bitcask/src/compactor.cpp"],
  [("fsync on write / background sync / seal", "bitcask/src/partition.cpp: put, sync, seal_active_file"), ("recovery scan", "bitcask/src/partition.cpp: recover")],
  ["contents after reopen"])
p("C23", "Bitcask reopen after a clean close restores the exact contents",
  "After a successful close (or when every write was made durable), reopening the directory with the same configuration yields exactly the key/value mapping at close, whatever sequence of puts, overwrites, deletes, rotations, compactions and reopens came before and whatever the wall clock did meanwhile. "
  "No data file of an earlier session is ever overwritten or reused for new data. The id of a new file is greater than that of every file the partition has, whatever the clock does and however many files are created in a second.",
  ["histories", "configurations", "fault_sequences"],
  "all operation histories across several sessions, clock standing still or jumping back between sessions, file-size limits",
  "tests reopen once after a handful of puts with a clock that moves forward",
  ["bitcask/src/partition.cpp", "bitcask/include/file_id.h", "bitcask/src/compactor.cpp"],
  [("file ids ordered by time and sequence", "bitcask/include/file_id.h"), ("recovery in file-id order", "bitcask/src/partition.cpp: recover")],
  ["contents after reopen", "files on disk"])
p("C24", "Bitcask compaction never changes what any key reads, now or later",
  "Compaction, manual or in the background, leaves the value of every key unchanged for readers during it, after it, and after any later restart or crash, while puts and deletes continue. "
  "Deleted keys never come back, superseded values are never restored, and a compaction that fails part-way loses nothing.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "all interleavings of compaction steps with client operations, failure or crash at any step, any split of live and dead entries over files",
  "the compaction tests run it alone on quiescent data",
  ["bitcask/src/compactor.cpp", "bitcask/src/partition.cpp"],
  [("copy live entries and swap key directory entries", "bitcask/src/compactor.cpp"), ("trigger and file hand-over", "bitcask/src/partition.cpp: compaction_loop, compact")],
  ["reads during and after compaction", "contents after reopen"])
p("C25", "Bitcask never returns corrupt data and never reads outside an entry",
  "If bytes of data or hint files are altered, truncated or partially written, no get ever returns a value that was not put for that key: the damaged entry is reported as an error or is absent. When only data files are damaged, entries in front of the damage and all entries of other files remain readable. "
  "Decoding arbitrary bytes never reads out of bounds or crashes.",
  ["inputs", "fault_sequences", "crash_points"],
  "all single and multiple byte flips, truncations and torn tails, at rest before reopening and under a running store",
  "tests flip a chosen byte in one entry",
  ["bitcask/src/entry.cpp", "bitcask/src/partition.cpp", "bitcask/src/compactor.cpp"],
  [("checksum over header and payload", "bitcask/src/entry.cpp: deserialize"), ("recovery stops at the first bad entry", "bitcask/src/partition.cpp: recover_from_data_file")],
  ["get results", "recovery result"])
p("C26", "Bitcask partitioning is stable: every key always routes to its partition",
  "Every operation on a key is served by the same partition in every session; a directory is never opened with a different partition count than it was created with, and such an attempt fails with an error that leaves the data untouched. "
  "A failure while opening (any partition, any step) is reported as an error instead of hanging or exposing a partially loaded store, and a later open can succeed.",
  ["configurations", "fault_sequences", "crash_points"],
  "all partition counts and worker counts, errors and crashes at any step of creation and opening",
  "needs a crash or an error inside open",
  ["bitcask/src/bitcask.cpp", "bitcask/src/common.cpp"],
  [("manifest check", "bitcask/src/bitcask.cpp: open"), ("hash routing", "bitcask/src/bitcask.cpp: get_partition")],
  ["open result", "contents after reopen"])
p("C27", "Bitcask descriptors: bounded cache, none used after close, none leaked",
  "The number of read descriptors a partition keeps open never exceeds its configured bound plus those in use, no operation ever reads or writes through a descriptor that was closed or reassigned, and once the store was closed and dropped every descriptor it opened has been closed exactly once. "
  "The cache hands out a descriptor of the file asked for, which stays open as long as the caller keeps it, forgets the least recently used file first, and counts hits, misses and evictions exactly. This holds on every error path.",
  ["schedules", "fault_sequences", "configurations"],
  "all interleavings of concurrent reads missing the cache, evictions, compaction and close, with failing opens and closes",
  "needs an eviction between lookup and use of a descriptor, i.e. a controlled completion order",
  ["bitcask/src/fd_cache.cpp", "bitcask/include/file_handle.h", "bitcask/src/partition.cpp", "bitcask/src/compactor.cpp"],
  [("LRU cache of handles", "bitcask/src/fd_cache.cpp"), ("RAII handle", "bitcask/include/file_handle.h")],
  ["simulated descriptor table"])
p("C28", "Tasks run once, when awaited, and hand over exactly their result",
  "A Task runs nothing before it is awaited, then runs exactly once, starting on the thread that awaits it; its value or exception reaches exactly its awaiter, unchanged, and the awaiter continues once, on the thread on which the task finished, with everything the task wrote visible. "
  "Moving a Task hands it over; overwriting or destroying it destroys its frame, with everything the frame holds, exactly once, whether it never started, is suspended or has finished. Chains and loops of awaits that complete at once need bounded stack. "
  "KIO_TRY passes errors on unchanged and runs nothing behind them. A DetachedTask starts at once, frees itself when it ends, and an exception that ends it is logged and goes no further.",
  ["schedules", "histories", "inputs"],
  "all trees of tasks, result types and exceptions, all threads on which tasks may continue, all points of destruction",
  "tests await a few tasks on one thread; lifetimes, thread hand-over, deep chains and abandoned tasks are not sampled",
  ["kio/core/coro.h", "kio/core/errors.h"],
  [("lazy start, symmetric transfer to the awaiter", "kio/core/coro.h: Task::await_suspend, final_awaiter"), ("ownership of the frame", "kio/core/coro.h: move operations, ~Task"), ("error propagation", "kio/core/errors.h: KIO_TRY")],
  ["frames, values and exceptions", "thread of every continuation", "log output"])
p("C29", "Bitcask statistics agree with the operations performed and the files on disk",
  "A partition's counters equal the numbers of successful puts, of gets, of misses, of deletions asked for and of compactions, rotations, compacted files and reclaimed bytes that happened since it was opened. "
  "For every data file the total bytes, live bytes and live entries equal what the files themselves say (the newest entry of each key is live), at any quiet moment and after every reopening; live never exceeds total, and the sum of live entries equals the number of readable keys even after failed operations. "
  "Compaction takes exactly the sealed files whose share of dead bytes reaches the configured threshold.",
  ["histories", "schedules", "fault_sequences", "configurations"],
  "all histories of puts, overwrites, deletions, compactions and reopenings under concurrency, file sizes and thresholds",
  "tests check single counters after a fixed sequence",
  ["bitcask/include/stats.h", "bitcask/src/partition.cpp", "bitcask/src/compactor.cpp"],
  [("accounting on put, del and recovery", "bitcask/src/partition.cpp"), ("accounting on compaction", "bitcask/src/compactor.cpp: commit_batch, compact_one_file, remove_source_files"), ("choice of files", "bitcask/src/partition.cpp: find_fragmented_files")],
  ["Partition::get_stats", "files on disk"])
for d in P:
    print(json.dumps(d, ensure_ascii=False))
