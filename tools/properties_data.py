TREE = "tests never exercise the tree beyond a handful of timers; balance and ordering bugs need particular shapes"
p("C01", "The ordered tree is a balanced, sorted set under every insert and remove",
  "After any sequence of inserts and removes the tree holds exactly the inserted-and-not-removed keys, in search order, and stays balanced (every path has the same number of black nodes, no two adjacent red ones). Looking up a key finds it exactly when it is present, inserting a present key returns the existing entry and reports it as not new, and first/last/next/previous/iteration visit every entry once in ascending (descending) order, including when the visitor removes entries. A covering lookup returns the entry with the greatest key not above the one asked for, and the last entry when there is none.",
  ["inputs", "histories"], "all trees up to the stated height, all key values, every operation applied to any of them",
  TREE, ["src/krbtree.c", "include/krbtree.h"],
  [("insert rebalancing", "src/krbtree.c rb_insert_color"), ("erase rebalancing", "src/krbtree.c rb_erase"), ("search", "src/krbtree.c rbtree_find/rbtree_insert/rbtree_find_cover")],
  ["tree links and colours after each operation", "return values of find/insert/iterate"])
p("C02", "Key, string and address comparisons are total orders that agree with equality",
  "The integer and string key comparisons and the comparisons of socket addresses and of plain IP addresses are antisymmetric and transitive for all values, report equality only for equal keys, and never wrap around for distant values. Two socket addresses, and two plain addresses, compare equal exactly when family and address agree (the port is not part of the comparison), and equal socket addresses have equal hashes.",
  ["inputs"], "all pairs and triples of 32-bit keys, of bounded strings and of IPv4/IPv6 addresses",
  "tests compare a few nearby keys; overflow needs keys more than 2^31 apart",
  ["src/krbtree.c", "include/ksocket.h"],
  [("integer and string key order", "src/krbtree.c rbtree_int_cmp, rbtree_string_cmp"), ("address order", "include/ksocket.h ksocket_addr_compare, ksocket_ipaddr_compare")])
p("C03", "The chunked read/write buffer delivers exactly the bytes written, in order",
  "Whatever mixture of string writes, direct writes into the offered space, number writes, appended or front-inserted chunks and partial reads is applied to a read/write buffer, the bytes read out are exactly the bytes put in, in order, each once, with front-inserted chunks preceding the unread ones. Its total length always equals the number of unread bytes, a read returns as many bytes as are asked for or available, it says no more data exactly when nothing is left, and it stays usable after being drained.",
  ["histories", "inputs"], "all sequences of up to the stated number of operations with symbolic sizes and bytes",
  "no test touches this buffer", ["src/kbuf.c", "include/kbuf.h"],
  [("chunk list with hot read and write positions", "src/kbuf.c krw_*")])
p("C04", "The linear buffer keeps its contents across growth and partial consumption",
  "Bytes written into a linear buffer (string, integer and direct writes) are kept unchanged and in order when it grows, it never hands out write space outside its storage nor an empty one, and saving a point inside it keeps exactly the bytes from that point on. Switched to reading, it hands out exactly the bytes written and reports the end exactly when all are consumed.",
  ["histories", "inputs"], "all sequences of up to the stated number of operations with symbolic sizes and bytes",
  "no test touches this buffer", ["src/kbuf.c", "include/kbuf.h"],
  [("growth and save point", "include/kbuf.h ks_get_write_buffer, ks_save_point"), ("growth for a string", "src/kbuf.c ks_guarantee")])
p("C05", "Pool allocations are disjoint, in bounds, aligned and released exactly once",
  "Every block a memory pool hands out is fully usable, does not overlap any other live block of the pool, and is word aligned when alignment was asked for (or has the requested alignment), for any pool size and any sequence of small, unaligned, large and aligned requests, frees and resets. Registered cleanup handlers run exactly once each, newest first, with their data, when the pool is reset or destroyed, and inserting an already registered handler returns the existing one. Destroying the pool returns all its memory.",
  ["histories", "inputs"], "all request sequences up to the stated length, symbolic sizes and pool sizes",
  "no test creates a pool", ["src/kmalloc.c", "include/kmalloc.h"],
  [("bump allocation", "src/kmalloc.c kgl_palloc_small/kgl_palloc_block"), ("large list", "src/kmalloc.c kgl_palloc_large, kgl_pfree"), ("cleanup list", "src/kmalloc.c kgl_cleanup_*")])
p("C06", "Growable arrays keep every element and hand out storage nobody else uses",
  "Pushing one or several elements onto a pool array returns storage for them directly after the previous elements, keeps all earlier elements unchanged through any growth, and the element count equals the number pushed. The storage never overlaps other pool allocations, for any initial capacity and element size, also when other allocations are interleaved.",
  ["histories", "inputs"], "all push/allocate interleavings up to the stated length, symbolic capacities and element sizes",
  "no test uses the array", ["src/kmalloc.c", "include/kmalloc.h"],
  [("in-place and copying growth", "src/kmalloc.c kgl_array_push, kgl_array_push_n")])
p("C07", "Timers fire exactly once, never early, in deadline order",
  "Every timer added to an event loop is delivered exactly once with its own argument, never before its delay has elapsed, not later than the first loop round at or after its deadline, and in the order of deadlines; timers with equal deadlines all fire. Timers added from inside a timer callback are kept, a periodic callback is called on every round until it is removed - also when callbacks remove themselves or others - and when the clock jumps back to an earlier second pending timers still fire within their remaining delay.",
  ["histories", "schedules", "inputs"], "all sets of timers up to the stated number with symbolic delays, all clock readings, callbacks that add timers",
  "the tests wait for single sleeps in real time and cannot produce clock steps or ties",
  ["src/kselector.c"], [("block queue ordered by deadline", "src/kselector.c kselector_add_block_queue"), ("expiry", "src/kselector.c kselector_check_timeout"), ("clock adjustment", "src/kselector.c kselector_adjust_time")])
p("C08", "Idle connections time out exactly when their allowance is used up",
  "A connection waiting for I/O is shut down (or told about the timeout, when it asked for that) only after it has been idle for the loop's timeout plus as many extra periods as its allowance grants, and then exactly once on the first loop round that sees it; a connection that became active again is not timed out for the old deadline, and setting the clock back does not change what is left of an allowance. The loop's number of pending operations is balanced: it returns to its previous value when each operation ends.",
  ["histories", "schedules", "inputs"], "all clock readings, timeouts and allowances for the stated number of connections and rounds",
  "tests never let a connection time out", ["src/kselector.c", "src/kselectable.c", "include/kselectable.h"],
  [("timeout lists", "src/kselector.c kselector_check_timeout"), ("waiting lists", "src/kselectable.c kselector_add_list/kselector_remove_list")])
p("C09", "Every readiness report leads to exactly one completion of each pending operation",
  "On the epoll event loop, for every combination of pending read, write and hang-up watches on a descriptor and every sequence of readiness reports (readable, writable, half closed, closed, in any mix), a pending operation whose readiness is reported completes exactly once, with its own callback and argument, and an operation that is not pending is never completed. Readiness reported while nothing is pending is not lost: the next operation of that direction is attempted without waiting for another report. A hang-up watch completes only when a hang-up is reported while it is pending; starting a read or write ends the watch.",
  ["schedules", "histories"], "all event masks and operation sequences up to the stated length",
  "tests see the kernel's usual event order only", ["src/kepoll_selector.c", "src/kselectable.c"],
  [("edge-triggered readiness flags", "src/kepoll_selector.c epoll_selector_select, epoll_selector_read/write"), ("ready list", "src/kselector.c kselector_check_timeout")])
p("C10", "An operation completes once with its system call's result",
  "A read, write, sendfile or datagram receive on a loop whose system call would block stays pending, completes nothing and is not attempted again before the descriptor is reported ready; any other outcome completes it exactly once with the number of bytes transferred or an error, using exactly the caller's buffers (an interrupted datagram receive counts as one that would block). A descriptor the system refuses to watch completes the operation once with an error and leaves nothing pending. Continuations queued without a system call run once, from the loop.",
  ["fault_sequences", "schedules", "inputs"], "all system call results for up to the stated number of attempts, all buffer shapes up to the stated size",
  "real sockets rarely produce the partial, interrupted and failing results", ["src/kselectable.c", "src/kudp.c", "include/kselectable.h"],
  [("read/write events", "src/kselectable.c selectable_event_read/write, selectable_try_read/write")])
p("C11", "A notice posted to a loop from another thread is run exactly once",
  "Every callback posted to an event loop, from any thread and at any moment including while the loop is handling earlier notices or is just going to sleep, is run exactly once by that loop with the data, argument and result it was posted with, and the loop is always woken for it.",
  ["schedules"], "all interleavings of up to three posts with the loop's wake-up handling, at lock and system call granularity",
  "the race windows are a few instructions wide", ["src/kepoll_selector.c"],
  [("notice list and wake-up descriptor", "src/kepoll_selector.c kepoll_notice, kepoll_notice_event, epoll_selector_next")])
p("C12", "The loop pool has a power-of-two size from 1 to 64 and always picks a valid loop",
  "Whatever loop count is asked for, the pool has a power-of-two number of loops between 1 and 64, the largest not above the request, also after growing it. Any index gives a loop by its position modulo the size. The loop chosen for new work is always one of the pool, in round-robin order starting after the last one chosen, skipping only loops with at least 64 more pending operations than their successor, for all loads and all counter values including after wrap-around. Time limits reach every loop, and callbacks asked for before the pool exists are delivered once each when it does.",
  ["inputs", "configurations"], "all requested counts and all 32-bit counter values",
  "tests use one pool size and never wrap a counter", ["src/kselector_manager.c"],
  [("size rounding", "src/kselector_manager.c selector_manager_init"), ("choosing", "src/kselector_manager.c get_selector_by_index, get_perfect_selector")])
FIB = "tests run one schedule; lost wakeups need a particular interleaving of fibers"
p("C13", "The fiber mutex admits at most its limit and never loses a waiter",
  "At any time at most the configured number of fibers hold the fiber mutex (one by default), a limited lock with limit m is refused exactly when m or more fibers hold the mutex or wait for it and otherwise takes it or waits, and each waiting fiber eventually gets the mutex as holders release it: as long as every holder releases, no fiber stays blocked. After all have released the mutex is free again.",
  ["schedules", "histories"], "all interleavings of up to the stated number of fibers and operations, real fiber switching", FIB,
  ["src/kfiber_sync.c", "include/kfiber_sync.h"], [("count and waiter queue", "src/kfiber_sync.c kfiber_mutex_*")])
p("C14", "The fiber read/write lock excludes writers and wakes every waiter",
  "A writer never holds the fiber read/write lock together with another writer or any reader, readers may share it, and every fiber waiting for it obtains it once the conflicting holders release, in every interleaving: no waiter is lost and no release blocks. After all have released the lock is free again.",
  ["schedules", "histories"], "all interleavings of up to the stated number of readers and writers, real fiber switching", FIB,
  ["include/kfiber_sync.h", "src/kfiber_sync.c"], [("reader count and waiter queue", "include/kfiber_sync.h kfiber_rwlock_*")])
p("C15", "Condition waits return exactly when signalled and no signal is lost",
  "A fiber waiting on a condition resumes only after a notice. Each notice of an automatic condition lets exactly one wait or poll through: it releases one blocked waiter or is remembered for a later one; a notice of a manual condition releases all waiters and lets every later wait and poll through. A waiter that was blocked gets the value of the notice that released it. No waiter stays blocked when a notice that should release it has been given, whether waiter and notifier are on the same or different loops, a thread without a loop can wait for a fiber's notice on the synchronous kind, and a callback waiter is called exactly once with its data and argument.",
  ["schedules", "histories"], "all interleavings of up to the stated number of waiters and notices for every kind of condition", FIB,
  ["src/kfiber_sync.c", "include/kfiber_sync.h"], [("event state and waiter queue", "src/kfiber_sync.c kfiber_cond_*")])
p("C16", "A fiber channel delivers each value once and unblocks everybody on close",
  "Each value sent on a channel is received exactly once, by exactly one receiver, unchanged, and a send returns success only when its value was received. Closing the channel makes all blocked and later senders and receivers return with failure, nobody stays blocked, and the channel is freed exactly when its last reference is dropped.",
  ["schedules", "histories"], "all interleavings of up to the stated number of senders, receivers and a closer", FIB,
  ["src/kfiber_sync.c", "include/kfiber_sync.h"], [("rendezvous", "src/kfiber_sync.c kfiber_chan_send/recv/close")])
p("C17", "A fiber runs its function exactly once and join returns its result",
  "A created fiber runs its function exactly once with its argument on its loop, joining it returns its exit value no matter whether it has already ended, ends immediately or ends later, and its memory is released exactly once, after it has ended and the last reference is dropped. Every joiner, join callback and exit callback is told exactly once, after the end. A sleeping fiber resumes on its loop and not too early, a blocking call made from a fiber runs once off the loop and returns its result, the number of live fibers is reported correctly, and a loop that has nothing left to do counts no pending operation.",
  ["schedules", "histories"], "all interleavings of creating, ending, joining, yielding and sleeping for the stated number of fibers", FIB,
  ["src/kfiber.c", "include/kfiber.h"], [("switching", "src/kfiber.c kfiber_switch, fiber_start"), ("reference count and close condition", "src/kfiber.c kfiber_join, kfiber_destroy")])
THR = "tests never contend these primitives; violations need a particular interleaving of threads"
p("C18", "Thread read/write locks: exclusive writers, shared readers, no lost wakeups",
  "In every interleaving of threads a writer holds the lock alone and readers hold it only together with readers, every acquisition is eventually granted when the holders release, and after all have released the lock is free.",
  ["schedules"], "all interleavings of up to three threads at atomic-operation granularity", THR,
  ["include/ksync.h", "include/katom.h"], [("reader/writer state", "include/ksync.h krw_mutex, kwr_mutex")])
p("C19", "A thread event wakes its waiter once per signal and remembers an early signal",
  "A wait on a thread event returns only after the event was signalled - spurious wakeups of the underlying condition variable do not let it through - and a signal given before the wait is remembered. An automatic-reset event lets one waiter through per signal; a manual-reset event stays signalled until it is reset.",
  ["schedules", "fault_sequences"], "all interleavings of waiters and signallers with spurious wakeups, up to the stated number", THR,
  ["include/ksync.h"], [("event flag under a mutex", "include/ksync.h kcond_*")])
p("C20", "The worker pool runs every accepted job exactly once within its limits",
  "Every job accepted by a worker pool is run exactly once with its argument, at most the configured number run at the same time, one worker takes urgent jobs first and the others in the order they were added. A job offered without waiting is refused exactly when more jobs than the queue limit already wait, and a refused job is not run. A failure to start a thread loses and corrupts nothing: the job runs no later than with the next added one. The pool is freed exactly once, after its last job, when its last reference is dropped.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of adds and completions, all thread start failures, up to the stated number of jobs",
  "the tests never fail a thread start nor fill a queue", ["src/kasync_worker.c", "src/kthread.c"],
  [("queue and worker count", "src/kasync_worker.c kasync_worker_add, kasync_worker_thread")])
p("C21", "The thread pool runs every started function exactly once",
  "Every function accepted by the thread pool is called exactly once with its argument, on a reused idle thread or on a new one, whatever the interleaving of starts, finishes and flushes of idle threads; a failed start is reported and the function is not called. The numbers of working and idle threads are right whenever nothing runs, a flush ends only threads idle for more than a minute and keeps the requested number, and closing ends every idle thread.",
  ["schedules", "fault_sequences"], "all interleavings of starts, finishes and timeouts up to the stated number", THR,
  ["src/kthread.c"], [("free thread list", "src/kthread.c kthread_pool_start, pool_thread")])
p("C22", "Name resolution answers every request once and asks once per name and kind",
  "Every resolution request is completed exactly once: with the resolver's answer when it succeeded, with none when it failed or the request could not be queued. Concurrent requests for the same name (letter case ignored) and kind share one resolver call, while different names or kinds never share an answer, and each kind asks the resolver the right question. A cached answer is reused; when it is older than 30 seconds a use of it also starts one refresh, a failed refresh keeps the last good answer until ten in a row have failed, and a name unused for an hour is forgotten. The answer of a refresh that was overtaken because its name was forgotten and is being asked for anew is dropped, and every answer is freed exactly once after the cache and its last user have let go of it.",
  ["schedules", "histories", "fault_sequences"], "all request/answer/expiry sequences up to the stated length, all kinds, all resolver results",
  "needs a controllable resolver and clock", ["src/kaddr.c", "include/kaddr.h"],
  [("shared pending entry", "src/kaddr.c kgl_find_addr"), ("resolver call", "src/kaddr.c get_addr"), ("expiry", "src/kaddr.c kgl_addr flush")])
p("C23", "File opens, seeks and reads do exactly what was asked",
  "Opening a file asks the system for exactly the requested access: read, write or both, creating, truncating and appending as the mode says, not following links, synchronous or without access times only when asked, always closed on exec; no requested mode is silently widened, and a failed open yields no file. Seeks move to exactly the asked position and report whether the system did so; size, time and byte counts are the ones the system reports, for offsets and sizes beyond 4 GB too. Reading a whole amount continues after short reads at the right position and reports success only when everything was read.",
  ["inputs", "configurations"], "all mode and flag combinations, all system call results",
  "tests open two modes", ["src/kfile.c", "include/kfile.h"], [("mode mapping", "src/kfile.c kfopen"), ("seek", "src/kfile.c kfseek")])
p("C24", "Direct file reads return exactly the requested bytes at any offset and alignment",
  "With direct I/O the transfer handed to the system is aligned in offset, length and memory, begins at or before the requested offset and stays inside the library's own buffer; the caller gets bytes from exactly the requested offset on: never bytes before the offset, never more than asked or than the system delivered, and end of file is reported as zero bytes and a failure as a failure. Without direct I/O the system gets exactly the caller's buffer, length and offset. A fiber's file position advances by exactly the number of bytes transferred, and each of several transfers under way completes exactly once with its own result.",
  ["inputs", "histories"], "all offsets, lengths, power-of-two alignments and short transfer counts",
  "tests read small files from offset zero", ["src/kasync_file.c", "include/kasync_file.h"],
  [("alignment arithmetic", "include/kasync_file.h kasync_file_*"), ("result adjustment", "include/kasync_file.h kasync_file_adjust_result")])
p("C25", "Read-fully and write-fully transfer everything or report the failure",
  "The read-fully, write-fully and send-file-fully helpers of sockets and files, plain and vectored, from the file's own loop or another one, return success exactly when every byte was transferred, continue after every short transfer at the right position - never skipping, repeating or overrunning bytes - stop at the first error or end of stream, and never issue an empty transfer after everything is done.",
  ["fault_sequences", "inputs"], "all sequences of short transfer results, all vector shapes up to the stated size",
  "loopback transfers in tests are never short", ["include/kfiber.h", "src/kfiber.c", "include/kbuf.h"],
  [("full transfer loops", "include/kfiber.h kfiber_net_*_full, kfiber_file_*_full"), ("vector and chunk seeking", "include/kbuf.h kgl_iovec_seek, kbuf_seek")])
p("C26", "TLS vectored reads and writes account for every byte",
  "A TLS read or write over several buffers fills or sends them in order and returns exactly the number of bytes the TLS layer accepted or produced; bytes already transferred before an error or a would-block are reported, not lost. With nothing transferred, an error is reported as an error, the peer's orderly close as the end of the stream, and a would-block waits for the socket and then goes on without completing twice. Bytes the TLS layer already holds are delivered without waiting for the socket, and early data is delivered first, in order, and counted the same way. Sending a file through kernel TLS follows the same rules.",
  ["fault_sequences", "inputs"], "all result sequences of the TLS library for up to the stated number of buffers",
  "loopback TLS in tests always completes in one call", ["src/kgl_ssl.c"],
  [("vectored TLS I/O", "src/kgl_ssl.c kgl_ssl_readv, kgl_ssl_writev")])
p("C27", "TLS handshake and shutdown map every library status to the right next step",
  "For every result of the TLS library the handshake and shutdown steps report success, failure, wait-for-readable or wait-for-writable exactly as the library's status says, so a handshake completes exactly once and with success only when the library has finished it, is continued only when the awaited direction is ready, and closing a TLS connection releases session and descriptor exactly once, only after the library's shutdown has finished or failed.",
  ["fault_sequences"], "all library result and error code combinations", "only the success path is tested",
  ["src/kgl_ssl.c", "src/kselectable.c"], [("status mapping", "src/kgl_ssl.c kgl_ssl_handshake, kgl_ssl_shutdown")])
p("C28", "TLS protocol lists enable exactly the named versions",
  "Configuring a non-empty list of TLS protocol versions enables exactly the named versions and disables all others, whatever the order, spacing, letter case and repetition in the list and whatever was configured before.",
  ["inputs", "histories"], "all version lists up to the stated length applied once or twice",
  "tests use the default list", ["src/kgl_ssl.c"], [("protocol parsing", "src/kgl_ssl.c kgl_ssl_ctx_set_protocols")])
p("C29", "A listening server holds its references, opens once and closes once",
  "A server's memory and listening descriptors are released exactly once, when it has been closed and the last reference is dropped; opening reports success only when it is listening, a failed open leaves nothing open, and closing stops accepting. Every accepted connection is handed to the server's accept callback exactly once or its descriptor is closed.",
  ["histories", "fault_sequences"], "all sequences of open, accept, close and reference operations with all system call failures",
  "tests only cover the success path", ["src/kserver.c", "src/kconnection.c"],
  [("reference counting", "src/kserver.c kserver_release"), ("opening", "src/kserver.c kserver_open*, kserver_bind")])
p("C30", "Connections are created with their own address and closed exactly once",
  "A new connection records exactly the peer address it was given, for IPv4, IPv6 and local sockets, reading no memory beyond that address. Connecting reports success only when the socket really connected, and destroying a connection closes its descriptor and frees its memory and TLS state exactly once.",
  ["inputs", "fault_sequences", "histories"], "all address families and contents, all connect results",
  "tests connect to one IPv4 address", ["src/kconnection.c", "include/kconnection.h"],
  [("creation", "src/kconnection.c kconnection_new"), ("connect", "src/kconnection.c kconnection_connect"), ("destruction", "src/kconnection.c kconnection_real_destroy")])
p("C31", "Socket address helpers keep family, address and port consistent",
  "Setting and reading the port of an address are inverse for IPv4 and IPv6, the address length matches the family, and converting between text and socket addresses, plain addresses and socket addresses keeps address, family and port. Comparing is a total order that agrees with equality, and equal addresses have equal hashes. Masking an address keeps exactly the bits of the mask. A socket helper that fails leaves no descriptor open, and the blocking-mode helpers report and set the mode they name.",
  ["inputs"], "all IPv4 and IPv6 addresses, ports and masks", "tests use one address",
  ["include/ksocket.h", "src/ksocket.c"], [("port and length", "include/ksocket.h ksocket_addr_port, ksocket_addr_len"), ("mask", "include/ksocket.h ksocket_ipaddr_and, ip_addr::operator&"), ("hash and order", "include/ksocket.h ip_addr::get_hash, ksocket_addr_compare"), ("blocking mode", "include/ksocket.h ksocket_is_block"), ("sockets", "src/ksocket.c ksocket_connect, ksocket_listen")])
p("C32", "Shared strings and intrusive lists stay consistent under every use",
  "A reference-counted string holds exactly the bytes it was made from, terminated, and is freed exactly when its last reference is released, from whichever thread. The linked lists keep exactly the inserted and not removed items, the doubly linked ones in their order in both directions, and removal of any item leaves the others linked. The atomic operations change exactly their variable, return the documented value, and no update is lost between threads.",
  ["inputs", "histories", "schedules"], "all operation sequences up to the stated length", "no direct tests",
  ["include/kstring.h", "include/klist.h", "include/katom.h"], [("reference count", "include/kstring.h kstring_release"), ("links", "include/klist.h klist_*"), ("atomic operations", "include/katom.h katom_*")])
p("C33", "Datagram sockets deliver each packet with its addresses",
  "A datagram socket is created with exactly the requested options, bound or joined only when the system did so, and sends exactly the bytes given to exactly the address given; creation, binding, joining and sending report success only when the system succeeded and a failed creation leaves no descriptor open. A receive delivers the bytes of one packet with its source address, and - when asked for, over IPv4 and IPv6 - with the address it was sent to, whether the packet was there before the receive or arrives later.",
  ["inputs", "fault_sequences"], "all flags, addresses and packets of up to the stated size, any one failing call",
  "no test uses datagram sockets", ["src/kudp.c", "include/kudp.h"],
  [("destination address", "src/kudp.c kudp_get_recvaddr"), ("creation", "src/kudp.c kudp_new2, kudp_bind, kudp_send_to")])
p("C34", "TLS contexts are built completely or not at all",
  "Making a server or client TLS context gives one that holds the named certificate with its chain, the named key, the trusted authorities and the application's server name and protocol callbacks; the certificate may be beside the key instead of separate, each as text or as a file. When any step fails no context is returned and everything made so far is released; releasing the context releases everything it holds. In the handshake the server name is looked up once and its context and data are used, a client without a name is refused exactly when the server wants one, and a protocol is accepted exactly when both sides know it.",
  ["configurations", "fault_sequences"], "all combinations of sources and settings, any one failing call of the TLS library, both callback orders",
  "tests only use one certificate file that loads", ["src/kgl_ssl.c", "include/kgl_ssl.h"],
  [("certificate and key loading", "src/kgl_ssl.c kgl_ssl_certificate, kgl_ssl_load_certificate"), ("context creation", "src/kgl_ssl.c kgl_ssl_ctx_new_server, kgl_ssl_ctx_new_client"), ("handshake callbacks", "src/kgl_ssl.c sni and alpn callbacks")])
p("C35", "An event loop starts, turns and ends completely",
  "A main function run on an event loop of its own runs once, to its end, with its arguments, its result is returned, and afterwards every descriptor, context and block of memory taken for the loop has been given back, so that it can be run again on the same thread; its sleeps last as long as asked also when the clock is set back meanwhile. Starting a pool starts each of its loops once; a thread's start and end callbacks run once each for every loop started and ended; timers asked for before the pool exists, or for another thread's loop, fire once, not early, on the loop asked for. The first loop keeps the process's time equal to the system's, calls the hook once for every new second, and when asked to has idle threads flushed every minute.",
  ["histories", "schedules", "inputs"], "all orders of up to the stated number of things done, all times passing between turns",
  "tests run one main function once", ["src/kselector_manager.c", "src/kselector.c", "src/kepoll_selector.c", "src/kfiber.c"],
  [("main function", "src/kselector_manager.c kasync_main"), ("thread callbacks", "src/kselector_manager.c kselector_init, kselector_exit"), ("release", "src/kepoll_selector.c epoll_selector_destroy"), ("time", "src/kselector.c kselector_update_time")])
