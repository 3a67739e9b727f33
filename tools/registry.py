"""Which harness units decide which property, and within what bounds."""
from vpdriver import Unit
from oracles import ORACLE
NOTE = ("Bounded symbolic verification: all values of the symbolic inputs and all feasible paths within the bounds "
        "listed in the evidence file are decided by the solver; nothing is claimed outside them.")
NOT_APPLICABLE = {}
PROPS = {}
Q, T = ("quick", "thorough"), ("thorough",)


def prop(id, units, explanation="", assumptions=(), note=""):
    PROPS[id] = dict(units=units, explanation=ORACLE.get(id, explanation), assumptions=list(assumptions), note=note)


prop("C01", [
    Unit("rbtree.cpp", "h_insert", "all valid red-black trees of height <=3 (<=7 entries), all keys; one insert", defs=["H=3"], reach=("end", "new", "dup"), split=4),
    Unit("rbtree.cpp", "h_erase", "same trees, every entry removed, three removal calls", defs=["H=3"]),
    Unit("rbtree.cpp", "h_find", "same trees, any key; find, find2, covering find, first/last/next/prev", defs=["H=3"], split=4),
    Unit("rbtree.cpp", "h_iterate", "same trees, every visitor decision sequence", defs=["H=3"]),
    Unit("rbtree.cpp", "h_erase", "all valid trees of height <=4 (<=15 entries), every entry removed", defs=["H=4", "SLIM=0"], split=4),
    Unit("rbtree.cpp", "h_insert", "all valid trees of height <=4 (<=15 entries), one insert at every place", defs=["H=4", "SLIM=0"], split=8, reach=("end", "new", "dup")),
    Unit("rbtree.cpp", "h_erase", "all valid trees of height 5 of which one half is as small as it can be, every entry removed", defs=["H=5", "SLIM=1"], split=4),
    Unit("rbtree.cpp", "h_insert", "all valid trees of height 5 of which one half is as small as it can be, one insert at every place", tiers=T, defs=["H=5", "SLIM=1"], timeout=3600, split=8, reach=("end", "new", "dup")),
    Unit("rbtree.cpp", "h_find", "all valid trees of height <=4 (<=15 entries)", tiers=T, defs=["H=4", "SLIM=0"], timeout=3600, split=8),
    Unit("rbtree.cpp", "h_iterate", "all valid trees of height 4 of which one half is as small as it can be", defs=["H=4", "SLIM=1"], split=4),
], "Inductive step from every valid tree within the height bound.")
prop("C02", [
    Unit("compare.cpp", "h_int", "all pairs of 32-bit integers"),
    Unit("compare.cpp", "h_string", "all pairs of strings of up to 4 bytes, exact, file-name and case-insensitive order", defs=["N=4"]),
    Unit("compare.cpp", "h_string_long", "strings with a common beginning of 1..1000 bytes (17 lengths) and any 2 bytes behind it"),
    Unit("compare.cpp", "h_sockaddr", "all triples of IPv4/IPv6 socket addresses"),
    Unit("compare.cpp", "h_ipaddr", "all triples of IPv4/IPv6 plain addresses"),
    Unit("compare.cpp", "h_ipaddr_ops", "all triples of IPv4/IPv6 plain addresses, C++ operators"),
    Unit("compare.cpp", "h_string", "all pairs of strings of up to 7 bytes", defs=["N=7"], tiers=T, timeout=1800),
])
BUFWRAP = ["+redirect.h"]
prop("C03", [Unit("krw.cpp", "h_history", "every history of 3 operations starting with kind %d, chunk size 2, pieces of 0..4 symbolic bytes" % k,
                  defs=["OPS=3", "CHUNK=2", "FIRST=%d" % k], reach=("end", "drained")) for k in range(7)] + [
    Unit("krw.cpp", "h_shape", "every content of up to 3 chunks, partly read or not, then one operation and a full drain", defs=["CHUNK=2"], reach=("end", "drained")),
    Unit("krw.cpp", "h_shape", "nothing, one write or one chunk, partly read or not, then 2 operations, chunk size 3", defs=["CHUNK=3", "SHAPES=2", "AFTER=2"], reach=("end", "drained"), split=4),
    Unit("krw.cpp", "h_many", "1..40 chunks written or appended, read through up to 64 buffers at a time in two rounds, then drained", defs=["CHUNK=3"]),
    Unit("krw.cpp", "h_numbers", "two numbers from boundary values, chunk size 2"),
    Unit("bufsize.cpp", "h_krw", "chunk size 1000, all lengths symbolic (to twice the chunk size), an arbitrary byte of the stream followed through 2 operations and a read", defs=["OPS=2", "NSIZES=1"], split=8, nowrap=BUFWRAP, tiers=T, timeout=1500, optional=True, native_timeout=30),
    Unit("bufsize.cpp", "h_krw", "chunk size 100, all lengths symbolic (to 127), an arbitrary byte of the stream followed through 2 operations and a read", defs=["OPS=2", "NSIZES=1", "BITS=7", "FIRSTSIZE=100"], split=8, tiers=T, timeout=1500, nowrap=BUFWRAP, optional=True),
    Unit("bufsize.cpp", "h_krw", "chunk size 100000, all lengths symbolic (to 2^20), one operation and a read", defs=["OPS=1", "NSIZES=1", "BITS=20", "FIRSTSIZE=100000"], nowrap=BUFWRAP, optional=True),
    Unit("bufsize.cpp", "h_krw", "chunk size 1000, all lengths symbolic (to 4095), one operation and a read", defs=["OPS=1", "NSIZES=1"], nowrap=BUFWRAP, optional=True),
] + [Unit("krw.cpp", "h_history", "every history of 4 operations starting with kind %d, chunk size 2" % k, tiers=T, timeout=3000,
          defs=["OPS=4", "CHUNK=2", "FIRST=%d" % k], reach=("end", "drained")) for k in range(7)])
prop("C04", [
    Unit("bufsize.cpp", "h_ks", "initial size 65/1000/1024/1500, all lengths symbolic (to 4095), an arbitrary byte followed through 2 operations and read back", defs=["OPS=2", "NSIZES=4"], split=4, nowrap=BUFWRAP, optional=True, native_timeout=30),
    Unit("bufsize.cpp", "h_ks", "initial size 1000 or 1024, all lengths symbolic (to 2^20), 2 operations", defs=["OPS=2", "NSIZES=2", "BITS=20"], split=4, nowrap=BUFWRAP, optional=True, native_timeout=30),
    Unit("ks.cpp", "h_history", "initial size 1..4, every history of 2 operations with pieces of 0..4 symbolic bytes (or filling all offered space), then read back in up to 2 steps", defs=["OPS=2"]),
] + [Unit("ks.cpp", "h_history", "the same with 3 operations, the first of kind %d" % k, defs=["OPS=3", "FIRST=%d" % k], tiers=T if k in (1, 4) else Q, timeout=1500) for k in range(5)])
prop("C05", [
    Unit("pool.cpp", "h_bump", "pool sizes 112..127, every sequence of 3 aligned/unaligned requests of any size up to the small-block limit", defs=["OPS=3", "RESETS=0"]),
    Unit("pool.cpp", "h_bump", "pool sizes 112..119, 2 requests, reset, 2 requests", defs=["OPS=2", "RESETS=1", "PVAR=8"], reach=("end", "reset")),
] + [Unit("pool.cpp", "h_mixed", "every sequence of 3 operations (first of kind %d): small, large, aligned requests of boundary sizes, early frees, cleanup handlers, resets; two pool sizes" % k, defs=["OPS=3", "RESETS=0", "FIRST=%d" % k]) for k in (0, 1, 2, 4, 5)] + [
    Unit("pool.cpp", "h_many", "11 requests, each small or of the limit size, in a pool of the minimum size", defs=["RESETS=0"]),
    Unit("nomem.cpp", "h_nomem", "2 of the library's memory requests failing in every history of 4 operations on a pool and an array of it", defs=["OPS=4"], reach=("end", "no pool", "failed", "not pushed"), split=4, nowrap=["+nomem_redirect.h"]),
    Unit("pool.cpp", "h_usual", "pools of 256..70000 bytes, 3 requests of 24..66000 bytes, reset or not", defs=["RESETS=0"]),
    Unit("pool.cpp", "h_large", "7 large requests, every subset freed early, 3 more, then reset and/or destroy", defs=["RESETS=0"]),
    Unit("pool.cpp", "h_bump", "pool sizes 112..127, 4 requests", defs=["OPS=4", "RESETS=0"], tiers=T, timeout=3000)] + [
    Unit("pool.cpp", "h_mixed", "every sequence of 4 operations (first of kind %d)" % k, defs=["OPS=4", "RESETS=0", "FIRST=%d" % k], tiers=T, timeout=3000) for k in (0, 1, 2, 4, 5)])
prop("C06", [
    Unit("pool.cpp", "h_array", "initial capacity 0..3, element size 1/4/12, every sequence of 3 pushes (1..4 elements) or other allocations, pool of %d bytes" % z,
         defs=["OPS=3", "RESETS=0", "PMIN=%d" % z], reach=("end", "destroyed")) for z in (256, 400)] + [
    Unit("nomem.cpp", "h_nomem", "2 of the library's memory requests failing in every history of 4 operations on a pool and an array of it", defs=["OPS=4"], reach=("end", "no pool", "failed", "not pushed"), split=4, nowrap=["+nomem_redirect.h"]),
    Unit("pool.cpp", "h_array_grow", "arrays grown to 200 elements in steps of 1, 5 and 17, one other allocation at 4 times", defs=["RESETS=0", "PMIN=512", "WANT=200"])] + [
    Unit("pool.cpp", "h_array", "the same with 4 operations, pool of %d bytes" % z, tiers=T, timeout=3000,
         defs=["OPS=4", "RESETS=0", "PMIN=%d" % z], reach=("end", "destroyed")) for z in (256, 400)])
prop("C07", [
    Unit("timers.cpp", "h_timers", "3 timers with delays of 0..255 ms, at most one adding another from its callback, a round at any time within 256 ms and 2 closing rounds", defs=["NT=3", "ROUNDS=1", "BITS=8"], split=4),
    Unit("timers.cpp", "h_timers", "1 timer with any delay (31 bits) that may add another from its callback, 2 rounds at any times (40 bits)", defs=["NT=1", "ROUNDS=2", "BITS=40"]),
    Unit("timers.cpp", "h_interleave", "3 timers with delays of 0..255 ms added between 2 rounds at any non-decreasing times within 256 ms", defs=["NT=3", "BITS=8"], split=4),
    Unit("timers.cpp", "h_interleave", "2 timers with any delay (31 bits), one round at any time (40 bits) between", defs=["NT=2", "BITS=40"]),
    Unit("timers.cpp", "h_clock", "3 timers on two loops, one clock step to any of 16 seconds (3 sub-second positions each)", split=8, defs=["NT=3", "BITS=4"], reach=("end", "backward", "forward")),
    Unit("timers.cpp", "h_clock_far", "a timer of 0..65535 ms on each of two loops, the clock set back by a second to 400 days (6 values around 2^31 and 2^32 ms)", defs=["NT=2", "BITS=8"]),
    Unit("timers.cpp", "h_clock_race", "a timer added on the second loop before or after it has handled a backward clock step", defs=["BITS=4", "NT=1"], finding="a timer added before its loop has handled the step does not fire early"),
    Unit("timers.cpp", "h_ts", "one timer added from the loop's or another thread, any delay and times (40 bits)", defs=["BITS=40"]),
    Unit("timers.cpp", "h_ticks", "3 periodic callbacks over 2 rounds, each removing any of them, adding one or neither, any return values"),
    Unit("timers.cpp", "h_timers", "3 timers, 2 rounds", defs=["NT=3", "ROUNDS=2", "BITS=8"], tiers=T, timeout=3000, split=8),
    Unit("timers.cpp", "h_interleave", "4 timers added between 3 rounds", defs=["NT=4", "BITS=8"], tiers=T, timeout=3000, split=8),
    Unit("timers.cpp", "h_timers", "4 timers, 2 rounds", defs=["NT=4", "ROUNDS=2", "BITS=8"], tiers=T, timeout=3000),
    Unit("timers.cpp", "h_timers", "3 timers, 3 rounds", defs=["NT=3", "ROUNDS=3", "BITS=8"], tiers=T, timeout=3000),
    Unit("timers.cpp", "h_timers", "2 timers, 2 rounds, any delays and times", defs=["NT=2", "ROUNDS=2", "BITS=40"], tiers=T, timeout=3000),
    Unit("timers.cpp", "h_interleave", "5 timers added between 4 rounds", defs=["NT=5", "BITS=8"], tiers=T, timeout=3000),
    Unit("timers.cpp", "h_clock", "5 timers on two loops, one clock step", defs=["NT=5", "BITS=5"], tiers=T, timeout=3000),
])
prop("C08", [
    Unit("idle.cpp", "h_idle", "2 connections (read or write only, asking to be told or not, 0..2 extra periods, connect or read/write list), any timeouts of 1..64 ms, 2 rounds at any non-decreasing times within 256 ms, one connection re-armed or removed between", defs=["NC=2", "ROUNDS=2"], reach=("end", "told", "shut"), split=8),
    Unit("idle.cpp", "h_idle", "1 connection, 4 rounds", defs=["NC=1", "ROUNDS=4"], reach=("end", "told", "shut"), split=8),
    Unit("idle.cpp", "h_idle_clock", "one connection in each list, any timeouts up to 65 s, the clock set back by any amount (40 bits) after any idle time", defs=["NC=2"]),
    Unit("many.cpp", "h_many", "2 descriptors with any pending reads and writes, some completed and restarted by the real event loop before the rest times out", defs=["IDLE"], reach=("end", "waits", "together", "on another"), split=8),
    Unit("idle.cpp", "h_idle", "2 connections, 3 rounds", defs=["NC=2", "ROUNDS=3"], reach=("end", "told", "shut"), split=8, tiers=T, timeout=3000),
])
prop("C09", [
    Unit("ready.cpp", "h_ready", "one descriptor, every history of 4 steps (start read/write/hang-up watch, cancel the watch, becomes readable/writable/half closed/closed, one loop turn), callbacks restarting their operation or not, then the loop runs until idle", defs=["STEPS=4"], reach=("end", "read", "write", "hup", "removed"), split=8),
    Unit("many.cpp", "h_many", "2 descriptors with any pending operations reported in the same turn in either order, together with a posted callback, each completion starting or ending an operation of its own or the other one, then a second round", reach=("end", "later", "together", "on another"), split=8),
    Unit("many.cpp", "h_many", "3 descriptors", defs=["ND=3"], reach=("end", "later", "together", "on another"), split=8, tiers=T, timeout=3000),
] + [
    Unit("ready.cpp", "h_ready", "the same with 5 steps, the first of kind %d" % k, defs=["STEPS=5", "FIRST=%d" % k], reach=("end",), tiers=T, timeout=3400, split=8, split_depth=9) for k in range(9)])
prop("C10", [
    Unit("ops.cpp", "h_ops", "one %s with 1..2 buffers, up to 3 attempts, every result and error number of each" % n, defs=["KIND=%d" % k], reach=("end", "completed", "failed", "blocked"))
    for k, n in enumerate(("read", "write", "sendfile", "datagram receive"))] + [
    Unit("ops.cpp", "h_refused", "read, write, sendfile, connect or hang-up watch when epoll refuses the descriptor (with or without a read that waits), then another read, write or sendfile with up to 2 attempts", defs=["KIND=0", "TRIES=2"], reach=("end", "reading")),
    Unit("ops.cpp", "h_series", "2 operations after each other on one descriptor, each a read, write or sendfile with up to 2 attempts, every result and error number", defs=["KIND=0", "TRIES=2", "SERIES=2"], reach=("end", "completed", "failed", "blocked"), split=4),
    Unit("ops.cpp", "h_series", "3 operations after each other on one descriptor", defs=["KIND=0", "TRIES=2", "SERIES=3"], reach=("end", "completed", "failed", "blocked"), split=8, tiers=T, timeout=3000),
    Unit("ops.cpp", "h_next", "read/write continuations queued for the next turn", defs=["KIND=0"]),
] + [Unit("ops.cpp", "h_ops", "one %s, up to 6 attempts" % n, defs=["KIND=%d" % k, "TRIES=6"], tiers=T, timeout=1500, reach=("end", "completed", "failed", "blocked"))
    for k, n in enumerate(("read", "write", "sendfile", "datagram receive"))])
prop("C11", [
    Unit("notice.cpp", "h_notice", "a loop thread and 2 posting threads, one notice posting another from its callback; every interleaving with up to 2 preemptions at every memory access, lock and system call of the real code", defs=["POSTS=2", "PREEMPTS=2"], points="mem", split=8),
    Unit("notice.cpp", "h_notice", "a loop thread and 2 threads posting two notices each; up to 3 preemptions at locks and system calls", defs=["POSTS=2", "TWICE", "PREEMPTS=3"]),
])
prop("C12", [
    Unit("manager.cpp", "h_size", "any requested size, any index, any timeouts up to 2^20 s"),
    Unit("manager.cpp", "h_grow", "pool of 1 or 2 loops grown to any size", reach=("end", "grown")),
    Unit("manager.cpp", "h_ready", "up to 3 callbacks asked for before and after the pool exists"),
] + [Unit("manager.cpp", "h_pick", "%d loops with any loads, any start of the round robin" % n, defs=["NSEL=%d" % n]) for n in (1, 2, 4)] + [
    Unit("manager.cpp", "h_pick", "%d loops with any loads, any 32-bit round robin counter" % n, defs=["NSEL=%d" % n, "INCLUDE_SOURCE"], exclude=("kselector_manager.c",), optional=True) for n in (2, 4)] + [
    Unit("manager.cpp", "h_pick", "8 loops with any loads, any start of the round robin", defs=["NSEL=8"], tiers=T, timeout=2000),
])
prop("C13", [
    Unit("fsync.cpp", "h_mutex", "3 fibers on one loop, limit 1 or 2, each locking (plain or limited) and yielding or not inside", defs=["NF=3", "OPS=1"], reach=("end", "refused")),
    Unit("fsync.cpp", "h_mutex", "2 fibers on one loop, two rounds each", defs=["NF=2", "OPS=2"], reach=("end", "refused"), split=8),
    Unit("fsync.cpp", "h_mutex", "3 fibers on one loop, two rounds each", defs=["NF=3", "OPS=2"], reach=("end", "refused"), split=8, tiers=T, timeout=3000),
    Unit("fsync.cpp", "h_mutex", "3 fibers on two loops, every interleaving with up to 3 preemptions before and after locks and at posts", defs=["NF=3", "LOOPS=2", "PREEMPTS=3", "AFTER_UNLOCK"], reach=("end",), split=8),
    Unit("fsync.cpp", "h_mutex", "2 fibers on two loops, every interleaving with up to 2 preemptions at every access to the lock object", defs=["NF=2", "LOOPS=2", "PREEMPTS=2"], reach=("end",), split=8, points="memall"),
    Unit("fsync.cpp", "h_mutex", "3 fibers on two loops, one preemption at every access to the lock object", defs=["NF=3", "LOOPS=2", "PREEMPTS=1"], reach=("end",), split=8, points="memall"),
    Unit("fsync.cpp", "h_mutex", "3 fibers on two loops, up to 2 preemptions at every access to the lock object", defs=["NF=3", "LOOPS=2", "PREEMPTS=2"], reach=("end",), split=8, points="memall", tiers=T, timeout=1500),
    Unit("fsync.cpp", "h_mutex_callback", "a loop callback waits for the mutex together with 2 fibers", defs=["NF=2"]),
    Unit("fsync.cpp", "h_mutex", "4 fibers on one loop, two rounds each", defs=["NF=4", "OPS=2"], reach=("end", "refused"), split=8, tiers=T, timeout=3000),
    Unit("fsync.cpp", "h_mutex", "4 fibers on two loops, 3 preemptions", defs=["NF=4", "LOOPS=2", "PREEMPTS=3"], split=8, tiers=T, timeout=3000),
])
prop("C14", [
    Unit("fsync.cpp", "h_rwlock", "3 fibers on one loop, each reading or writing and yielding or not inside, two rounds each", defs=["NF=3", "OPS=2"], reach=("end", "shared"), split=4),
    Unit("fsync.cpp", "h_rwlock", "4 fibers on one loop, one round each", defs=["NF=4", "OPS=1"], reach=("end", "shared")),
    Unit("fsync.cpp", "h_rwlock", "3 fibers on two loops, every interleaving with up to 3 preemptions before and after locks and at posts", defs=["NF=3", "LOOPS=2", "PREEMPTS=3", "AFTER_UNLOCK"], reach=("end", "shared"), split=8),
    Unit("fsync.cpp", "h_rwlock", "4 fibers on two loops, every interleaving with up to 2 preemptions before and after locks and at posts", defs=["NF=4", "LOOPS=2", "PREEMPTS=2", "AFTER_UNLOCK"], reach=("end", "shared"), split=8),
    Unit("fsync.cpp", "h_rwlock", "3 fibers on two loops, up to 2 preemptions at every access to the lock object", defs=["NF=3", "LOOPS=2", "PREEMPTS=2"], split=8, points="memall"),
    Unit("fsync.cpp", "h_rwlock", "2 fibers on two loops, every interleaving with up to 2 preemptions at every access to the lock object", defs=["NF=2", "LOOPS=2", "PREEMPTS=2"], split=8, points="memall"),
    Unit("fsync.cpp", "h_rwlock", "4 fibers on one loop, two rounds each", defs=["NF=4", "OPS=2"], reach=("end", "shared"), split=8, tiers=T, timeout=3000),
    Unit("fsync.cpp", "h_rwlock", "4 fibers on two loops, 3 preemptions", defs=["NF=4", "LOOPS=2", "PREEMPTS=3"], reach=("end", "shared"), split=8, tiers=T, timeout=3000),
])
prop("C15", [
    Unit("fsync.cpp", "h_cond", "3 fibers on one loop, each waiting, notifying, polling or waiting by callback, all four kinds", defs=["NF=3", "OPS=1"], reach=("end", "notice", "polled", "blocked")),
    Unit("fsync.cpp", "h_cond", "2 fibers on one loop, two operations each", defs=["NF=2", "OPS=2"], reach=("end", "notice", "polled", "blocked"), split=8),
    Unit("fsync.cpp", "h_cond", "3 fibers on two loops, both thread-safe kinds, every interleaving with up to 3 preemptions before and after locks and at posts", defs=["NF=3", "LOOPS=2", "PREEMPTS=3", "AFTER_UNLOCK"], reach=("end", "notice", "polled", "blocked"), split=8),
    Unit("fsync.cpp", "h_cond", "2 fibers on two loops, up to 2 preemptions at every access to the condition", defs=["NF=2", "LOOPS=2", "PREEMPTS=2"], split=8, points="memall"),
    Unit("fsync.cpp", "h_cond", "4 fibers on two loops, up to 2 preemptions before and after locks and at posts", defs=["NF=4", "LOOPS=2", "PREEMPTS=2", "AFTER_UNLOCK"], reach=("end", "notice", "polled", "blocked"), split=8),
    Unit("fsync.cpp", "h_cond", "3 fibers on two loops, up to 2 preemptions at every access to the condition", defs=["NF=3", "LOOPS=2", "PREEMPTS=2"], split=8, points="memall"),
    Unit("fsync.cpp", "h_cond_sync", "1 or 2 threads without a loop waiting or polling, a fiber notifying twice", defs=["NF=1", "OPS=2", "PREEMPTS=2", "AFTER_UNLOCK"], reach=("end", "polled")),
    Unit("fsync.cpp", "h_cond", "3 fibers on one loop, two operations each", defs=["NF=3", "OPS=2"], split=8, tiers=T, timeout=3000),
    Unit("fsync.cpp", "h_cond", "4 fibers on two loops, 3 preemptions", defs=["NF=4", "LOOPS=2", "PREEMPTS=3"], split=8, tiers=T, timeout=3000),
])
prop("C16", [
    Unit("fsync.cpp", "h_chan", "3 fibers, one operation each: send, receive (plain or answering the sender), close", defs=["NF=3", "OPS=1"], reach=("end", "closed", "blocked")),
    Unit("fsync.cpp", "h_chan", "3 fibers, two operations each", defs=["NF=3", "OPS=2"], reach=("end", "told", "closed", "blocked"), split=8),
    Unit("fsync.cpp", "h_chan", "4 fibers, one operation each", defs=["NF=4", "OPS=1"], reach=("end", "told", "closed", "blocked"), split=8),
    Unit("fsync.cpp", "h_chan", "4 fibers, two operations each", defs=["NF=4", "OPS=2"], reach=("end", "told", "closed", "blocked"), split=8, tiers=T, timeout=3000),
])
prop("C17", [
    Unit("fiber.cpp", "h_create", "a fiber creating 2 others in any of 4 ways, each ending at once, yielding, sleeping or making a blocking call, joined or polled in any order; any argument, result and delay up to 100 ms", defs=["NF=2", "PREEMPTS=0"], reach=("end", "yield", "sleep", "call", "polled", "joined"), split=8),
    Unit("fiber.cpp", "h_create", "one fiber created on the same or another loop, up to 2 preemptions before and after locks and at posts", defs=["NF=1", "LOOPS=2", "PREEMPTS=2", "AFTER_UNLOCK"], reach=("end", "yield", "sleep", "call", "joined"), split=8),
    Unit("fiber.cpp", "h_create", "one fiber created on the same or another loop, one preemption at every access to the fiber object", defs=["NF=1", "LOOPS=2", "PREEMPTS=1"], reach=("end", "yield", "sleep", "call", "joined"), split=8, points="memall"),
    Unit("fiber.cpp", "h_create", "the same with up to 2 preemptions", defs=["NF=1", "LOOPS=2", "PREEMPTS=2"], reach=("end", "yield", "sleep", "call", "joined"), split=8, points="memall", tiers=T, timeout=3000),
    Unit("fiber.cpp", "h_create", "2 fibers created on the same or another loop, up to 2 preemptions before and after locks and at posts", defs=["NF=2", "LOOPS=2", "PREEMPTS=2", "AFTER_UNLOCK"], reach=("end", "yield", "sleep", "call", "joined"), split=8, tiers=T, timeout=3000),
    Unit("fiber.cpp", "h_create", "exit callbacks (0..2) of a fiber", defs=["NF=1", "EXIT_CALLBACKS", "PREEMPTS=0"], reach=("end", "exit callback", "joined"), split=4),
    Unit("fiber.cpp", "h_join_callback", "the loop waits for a fiber by callback, asked before or after it ended", defs=["NF=1", "CHILD_ACTS=3"]),
    Unit("fiber.cpp", "h_sync", "a thread without a loop creates a fiber and waits for it or not, up to 2 preemptions", defs=["NF=1", "PREEMPTS=2", "CHILD_ACTS=3", "AFTER_UNLOCK"]),
    Unit("fiber.cpp", "h_sync", "the same with two loops", defs=["NF=1", "LOOPS=2", "PREEMPTS=2", "CHILD_ACTS=3", "AFTER_UNLOCK"]),
    Unit("fiber.cpp", "h_hand_over", "the handle of a fiber on either of two loops goes to a fiber on the second loop, which joins it; up to 2 preemptions before and after locks and at posts", defs=["NF=2", "LOOPS=2", "PREEMPTS=2", "AFTER_UNLOCK", "CHILD_ACTS=3"], reach=("end", "joined", "polled"), split=4),
    Unit("fiber.cpp", "h_hand_over", "the same, a preemption at every access to the fiber object", defs=["NF=2", "LOOPS=2", "PREEMPTS=1", "CHILD_ACTS=2"], reach=("end", "joined", "polled"), points="memall", split=4),
    Unit("fiber.cpp", "h_hand_over", "the same, up to 2 preemptions at every access to the condition the joiner waits for", defs=["NF=2", "LOOPS=2", "PREEMPTS=2", "CHILD_ACTS=1", "WATCH_COND"], reach=("end", "joined", "polled"), points="memall", split=4, optional=True),
    Unit("fiber.cpp", "h_stack", "stacks of nine sizes from the default to 15 MiB", defs=["NF=1", "STACKS"], nowrap=["+stack_redirect.h"]),
    Unit("fiber.cpp", "h_ref_self", "a fiber hands out one reference to itself", defs=["NF=1"], reach=("end", "joined")),
    Unit("fiber.cpp", "h_ref_self", "a fiber hands out two references to itself", defs=["NF=1", "TWO_REFS"], reach=("end", "joined")),
    Unit("fiber.cpp", "h_ref_self", "a fiber hands out two references to itself to another loop", defs=["NF=1", "TWO_REFS", "LOOPS=2", "AFTER_UNLOCK"], reach=("end", "joined")),
])
prop("C18", [
    Unit("tsync.cpp", "h_krw", "3 threads, each reading or writing, every interleaving with up to 3 preemptions at every access to the lock word", defs=["NT=3", "PREEMPTS=3"], reach=("end", "shared"), points="memall"),
    Unit("tsync.cpp", "h_krw", "4 threads, up to 4 preemptions", defs=["NT=4", "MAXT=5", "PREEMPTS=4"], reach=("end", "shared"), points="memall", tiers=T, timeout=3000, split=8),
    Unit("tsync.cpp", "h_kwr", "3 threads, up to 3 preemptions", defs=["NT=3", "PREEMPTS=3"], reach=("end", "shared"), points="memall", tiers=T, timeout=3000, split=8),
    Unit("tsync.cpp", "h_kwr", "2 threads, each reading (urgent or not) or writing, up to 3 preemptions", defs=["NT=2", "PREEMPTS=3"], reach=("end", "shared"), points="memall"),
])
prop("C19", [
    Unit("tsync.cpp", "h_event_waiting", "1 or 2 waiters blocked first, then 1..2 signals or a signal and a reset, one spurious wake-up, up to 3 preemptions before and after locks and at signals", defs=["NT=2", "PREEMPTS=3", "AFTER_UNLOCK"], reach=("end", "one each")),
    Unit("tsync.cpp", "h_event_waiting", "1..3 waiters blocked first, up to 3 preemptions", defs=["NT=3", "MAXT=6", "PREEMPTS=3"], reach=("end", "one each"), tiers=T, timeout=3000, split=8),
    Unit("tsync.cpp", "h_event_any", "1..3 waits or polls, up to 3 preemptions", defs=["NT=3", "MAXT=6", "PREEMPTS=3"], reach=("end", "polled", "left"), tiers=T, timeout=3000, split=8),
    Unit("tsync.cpp", "h_event_any", "0..2 signals and 1..2 waits or polls in any order, one spurious wake-up, up to 3 preemptions before and after locks and at signals", defs=["NT=2", "PREEMPTS=3", "AFTER_UNLOCK"], reach=("end", "polled", "left")),
    Unit("tsync.cpp", "h_event_any", "the same, one wait or poll, up to 2 preemptions at every memory access", defs=["NT=1"], reach=("end",), points="memall", split=4),
])
prop("C20", [
    Unit("worker.cpp", "h_worker", "2 threads adding 1 job each (urgent, normal or waiting for room), 1..2 workers, queue limit none or 1, up to 1 failing thread start, every interleaving with up to 2 preemptions before and after locks and at signals", defs=["NT=2", "JOBS=1", "FAILS=1", "AFTER_UNLOCK"], split=8),
    Unit("worker.cpp", "h_order", "one thread adding 3 jobs to one worker, jobs adding another one, up to 1 failing thread start", defs=["JOBS=3", "FAILS=3", "PREEMPTS=0"], reach=("end", "refused", "nested", "stranded"), split=8),
    Unit("worker.cpp", "h_worker", "2 threads adding 1 job each, up to 1 preemption at every memory access", defs=["NT=2", "JOBS=1", "FAILS=0", "PREEMPTS=1"], split=4, points="memall"),
])
prop("C21", [
    Unit("worker.cpp", "h_pool", "2 threads starting 1 function each, up to 1 failing thread start, every interleaving with up to 3 preemptions before and after locks, at signals and thread starts", defs=["NT=2", "JOBS=1", "FAILS=1", "PREEMPTS=3", "AFTER_UNLOCK"], reach=("end", "failed"), split=8),
    Unit("worker.cpp", "h_pool", "one thread starting 3 functions, up to 1 failing thread start, up to 2 preemptions", defs=["NT=1", "JOBS=3", "FAILS=1", "AFTER_UNLOCK"], reach=("end", "failed"), split=8),
    Unit("worker.cpp", "h_pool", "2 threads starting 2 functions each, up to 1 failing thread start, up to 2 preemptions", defs=["NT=2", "JOBS=2", "FAILS=1", "AFTER_UNLOCK"], reach=("end", "failed"), split=8, tiers=T, timeout=3000),
    Unit("worker.cpp", "h_pool", "2 threads starting 1 function each, then a flush of idle threads at any of 3 ages and another start, up to 1 failing thread start, up to 2 preemptions", defs=["NT=2", "JOBS=1", "FAILS=1", "FLUSH", "PREEMPTS=2", "AFTER_UNLOCK"], reach=("end", "failed", "flushed", "reused"), split=8),
    Unit("worker.cpp", "h_pool", "the same with up to 3 preemptions", defs=["NT=2", "JOBS=1", "FAILS=1", "FLUSH", "PREEMPTS=3", "AFTER_UNLOCK"], reach=("end", "failed", "flushed", "reused"), split=8, tiers=T, timeout=3000),
    Unit("worker.cpp", "h_pool", "one thread starting 2 functions, up to 2 preemptions at every access to shared memory", defs=["NT=1", "JOBS=2", "FAILS=0", "PREEMPTS=2"], split=4, points="memall"),
    Unit("worker.cpp", "h_pool", "the same with one starting thread, then a flush and another start, up to 1 preemption", defs=["NT=1", "JOBS=1", "FAILS=0", "FLUSH", "PREEMPTS=1"], reach=("end", "flushed", "reused"), split=4, points="memall"),
    Unit("worker.cpp", "h_pool", "2 threads starting 2 functions each, up to 3 preemptions at every access to shared memory", defs=["NT=2", "JOBS=2", "FAILS=0", "PREEMPTS=2"], split=8, points="memall", tiers=T, timeout=3000),
])
prop("C22", [
    Unit("addr.cpp", "h_history", "a name in two spellings, both kinds, every history of 4 lookups, cache reads, resolver results (success or failure), waits, flushes; up to one refused job", defs=["OWN_POOL", "STEPS=4"], reach=("end", "cached", "stale", "forgotten"), split=4),
    Unit("addr.cpp", "h_names", "three names of which two are spellings of one, histories of 4 steps", defs=["OWN_POOL", "STEPS=4"], reach=("end", "cached"), split=4),
    Unit("addr.cpp", "h_failures", "one name refreshed 13 times, at most one refresh succeeding", defs=["OWN_POOL"], reach=("end", "given up")),
    Unit("addr.cpp", "h_overtaken", "a refresh under way while the name is used, forgotten and asked for again up to 2 times, results in any order", defs=["OWN_POOL"], reach=("end", "outdated")),
    Unit("addr.cpp", "h_timer", "the periodic flush", defs=["OWN_POOL"]),
    Unit("addr.cpp", "h_loops", "2 loops asking at the same time, real worker pool, up to 2 preemptions before and after locks and at system calls", defs=["LOOPS=2", "PREEMPTS=2", "AFTER_UNLOCK"], reach=("end", "shared"), split=8),
    Unit("addr.cpp", "h_loops", "2 loops asking at the same time, up to 1 preemption at every memory access", defs=["LOOPS=2", "PREEMPTS=1"], reach=("end", "shared"), split=8, points="memall"),
    Unit("addr.cpp", "h_loops", "2 loops, up to 3 preemptions", defs=["LOOPS=2", "PREEMPTS=3", "AFTER_UNLOCK"], reach=("end", "shared"), split=8, tiers=T, timeout=3000),
    Unit("addr.cpp", "h_flushed", "a loop asking while the clock goes on by an hour and the names are flushed by another, up to 2 preemptions before and after locks and at system calls", defs=["LOOPS=1", "PREEMPTS=2", "AFTER_UNLOCK"], reach=("end", "forgotten"), split=4),
    Unit("addr.cpp", "h_fiber", "a fiber resolving a plain address or a name twice", defs=["PREEMPTS=1"], reach=("end", "lookup")),
    Unit("addr.cpp", "h_history", "histories of 6 steps", defs=["OWN_POOL", "STEPS=6"], reach=("end", "cached", "stale", "forgotten"), split=8, tiers=T, timeout=3000),
])
prop("C23", [
    Unit("file.cpp", "h_open", "every mode with every flag combination and every result of the system"),
    Unit("file.cpp", "h_seek", "every position, offset and result"),
    Unit("file.cpp", "h_stat", "every size, time and result"),
    Unit("file.cpp", "h_read_all", "lengths of 0..5 bytes, every sequence of short reads, end of file and errors", reach=("end", "all", "some")),
    Unit("file.cpp", "h_read_all", "lengths of 0..12 bytes", defs=["N=12"], reach=("end", "all", "some"), tiers=T, timeout=1500),
])
prop("C24", [
    Unit("dio.cpp", "h_transfer", "one file, read or write, direct or not, any offset below 2^59, any length of 1..2^28 bytes, alignments of 512..65536, any file size or error, or a refused transfer", reach=("end", "direct", "refused", "failed", "end of file", "skipped"), split=4),
    Unit("dio.cpp", "h_transfer", "two files at once, finished in any order", defs=["NFILES=2"], split=8, reach=("end", "direct", "refused", "failed", "end of file", "skipped")),
    Unit("dio.cpp", "h_again", "2 transfers after each other on one file, each a read or write, direct or not, of any offset and length", defs=["ROUNDS=2"], reach=("end", "direct", "not direct", "failed", "end of file", "skipped"), split=4),
    Unit("dio.cpp", "h_again", "3 transfers after each other on one file", defs=["ROUNDS=3"], reach=("end", "direct", "not direct"), split=8, tiers=T, timeout=3000),
    Unit("dio.cpp", "h_open", "opening, size and closing of a fiber's file: any descriptor below 100 or a failure, on a thread with and without a loop, any file size", defs=["FILES"], reach=("end", "refused", "closed")),
    Unit("dio.cpp", "h_align", "up to 3 mounted devices with block sizes of 256..8192, some not readable or without a block size; buffers of 1, 512, 700, 9000 and 70000 bytes", defs=["FILES"], reach=("end", "mounts", "no list"), split=4),
    Unit("dio.cpp", "h_fiber", "a fiber seeking and transferring", reach=("end", "direct", "failed", "end of file", "skipped"), split=4),
])
prop("C25", [
    Unit("full.cpp", "h_net", "%s of 0..4 bytes, every sequence of short transfers, end of stream, errors, one would-block" % n, defs=["KIND=%d" % k], reach=("end", "all", "some", "short", "blocked"))
    for k, n in enumerate(("writing", "vectored writing (up to 4 pieces, empty ones too)", "reading", "sending a file"))] + [
    Unit("full.cpp", "h_seek", "vectors and chunk lists of up to 4 pieces of 0..8 bytes, any offset within"),
    Unit("fullfile.cpp", "h_file", "files of the own loop, 0..3 bytes, every sequence of short transfers, end of file, errors, refused transfers", reach=("end", "all", "some", "short")),
    Unit("fullfile.cpp", "h_file", "files of another loop, up to 2 preemptions", defs=["LOOPS=2", "PREEMPTS=2", "AFTER_UNLOCK"], reach=("end", "all", "some", "short")),
] + [Unit("fullbig.cpp", "h_big", "%s, up to %d transfers of any length" % (n, 2 if k == 1 else 3), defs=["KIND=%d" % k] + (["PIECES=2", "CALLS=2"] if k == 1 else []), reach=("end", "all", "some", "short", "large"))
    for k, n in enumerate(("writing up to 2^31-1 bytes", "vectored writing of 1..2 pieces of up to 2^17-1 bytes", "reading of up to 2^31-1 bytes", "sending a file of up to 2^31-1 bytes from any position", "writing up to 2^31-1 bytes to a file", "reading up to 2^31-1 bytes of a file"))
] + [Unit("full.cpp", "h_net", "%s of 0..7 bytes" % n, defs=["KIND=%d" % k, "N=7"], reach=("end", "all", "some", "short", "blocked"), tiers=T, timeout=1500, split=4)
    for k, n in enumerate(("writing", "vectored writing", "reading", "sending a file"))])
prop("C26", [
    Unit("tlsio.cpp", "h_read", "2 reads of 1..3 bytes into up to 3 buffers, every sequence of up to 3 short, blocked, ended or failed calls of the TLS library", reach=("end", "held", "blocked", "closed", "failed"), split=4),
    Unit("tlsio.cpp", "h_early", "the same with 0..3 bytes of early data", reach=("end", "blocked", "early data", "early over", "failed"), split=4),
    Unit("tlsio.cpp", "h_write", "2 writes", reach=("end", "blocked", "failed")),
    Unit("tlsio.cpp", "h_early_write", "a write, a read and a write around the end of the early data", reach=("end", "blocked", "failed")),
    Unit("tlsio.cpp", "h_sendfile", "2 file transfers", reach=("end", "blocked", "failed")),
    Unit("tlsboth.cpp", "h_both", "a reader and a writer on one connection, every order of 5 steps of starting up to 2 reads and 2 writes of 1..3 bytes, up to 2 records arriving, the socket filling and draining, loop turns", reach=("end", "held", "reader joins writer", "writer joins reader", "drained", "arrived"), split=4),
    Unit("tlsboth.cpp", "h_both", "the same with a writer waiting at the start, 6 steps", defs=["STEPS=6", "BLOCKED=1"], reach=("end", "held", "reader joins writer", "writer joins reader", "drained", "arrived"), split=4),
    Unit("tlsboth.cpp", "h_both", "7 steps", defs=["STEPS=7", "BLOCKED=1"], reach=("end", "held", "reader joins writer", "writer joins reader", "drained", "arrived"), split=8, tiers=T, timeout=2400),
    Unit("tlsio.cpp", "h_read", "a read of any amount up to 2^29-1 bytes into each of 1..2 buffers", defs=["BIG=0x1fffffff", "OPS=1", "CALLS=2"], reach=("end", "held", "blocked", "part")),
    Unit("tlsio.cpp", "h_write", "a write of any amount up to 2^29-1 bytes from each of 1..2 buffers", defs=["BIG=0x1fffffff", "OPS=1", "CALLS=2"], reach=("end", "blocked", "part")),
    Unit("tlsio.cpp", "h_sendfile", "a transfer of any amount up to 2^30 bytes of a file", defs=["BIG=0x3fffffff", "OPS=1", "CALLS=2"], reach=("end", "blocked", "part")),
])
prop("C27", [
    Unit("tlshs.cpp", "h_handshake", "up to 4 calls of the library with every result and error code 1..11, with and without early data, from a fiber and with a callback, one hang-up", reach=("end", "succeeded", "failed", "waits to read", "waits to write", "early", "hang-up")),
    Unit("tlshs.cpp", "h_shutdown", "closing from a fiber, with and without a shutdown before, and with a callback: up to 4 calls with every result and error code", reach=("end", "waits to read", "waits to write", "destroyed")),
    Unit("tlshs.cpp", "h_status", "every error code and errno"),
])
prop("C28", [
    Unit("tlsproto.cpp", "h_list", "lists of 1..3 names of 6 versions and unknown ones, any spacing, any earlier options (64 bits) and limits", split=4),
    Unit("tlsproto.cpp", "h_text", "lists of 1..5 arbitrary characters", reach=("end", "named", "other")),
])
prop("C29", [
    Unit("server.cpp", "h_history", "one loop, IPv4, IPv6 or local socket, plain or TLS: every history of 4 steps (a client connects, two loop turns, close, close from the accept callback, drop a connection, replace the certificates, drop the last reference), any peer address, one failing system or TLS library call", defs=["STEPS=4", "FAULTS=1"], split=4, reach=("end", "accepted", "several", "replaced")),
    Unit("server.cpp", "h_open", "opening with up to 2 failing system calls or one kind of call that always fails, an old socket file or other file in place; closing and opening again", defs=["FAULTS=1"], reach=("opened", "failed", "again")),
    Unit("server.cpp", "h_bind", "every port, valid and invalid address, plain and TLS", defs=["FAULTS=1"], reach=("end", "refused")),
    Unit("server.cpp", "h_path", "local paths of 1..130 bytes", defs=["FAULTS=1"], reach=("end", "too long")),
    Unit("server.cpp", "h_adopt", "an inherited listening descriptor of any family or one that is no socket, 0..2 clients", defs=["FAULTS=1"], reach=("end", "not adopted")),
    Unit("server.cpp", "h_fiber", "a fiber listening and accepting: every history of 4 steps with one failure", defs=["FAULTS=1"], reach=("end", "accepted")),
    Unit("server.cpp", "h_loops", "2 loops, up to 1 client, the server closed and its certificates replaced meanwhile, up to 2 preemptions", defs=["FAULTS=0", "LOOPS=2", "CLIENTS=1", "FAMILY=0", "REPLACE", "AFTER_UNLOCK"], reach=("end", "accepted"), split=8),
    Unit("server.cpp", "h_history", "one loop, IPv4 address: 6 steps", defs=["STEPS=6", "FAULTS=1", "FAMILY=0"], split=8, reach=("end", "accepted", "several", "replaced"), tiers=T, timeout=3000),
    Unit("server.cpp", "h_history", "one loop, local socket: 5 steps, 2 failing calls", defs=["STEPS=5", "FAULTS=2", "FAMILY=2"], split=8, reach=("end", "accepted", "several", "replaced"), tiers=T, timeout=3000),
    Unit("server.cpp", "h_loops", "2 loops, up to 2 clients, the server closed meanwhile, up to 3 preemptions", defs=["FAULTS=0", "LOOPS=2", "CLIENTS=2", "FAMILY=0", "PREEMPTS=3", "AFTER_UNLOCK"], reach=("end", "accepted"), split=8, tiers=T, timeout=3000),
])
prop("C30", [
    Unit("conn.cpp", "h_new", "all contents of IPv4 and IPv6 addresses, local paths of 1..108 bytes, terminated or not, by each of the three ways to make a connection", reach=("path", "end")),
    Unit("conn.cpp", "h_connect", "any address of each family, with and without a bound local address, from a fiber or with a callback; socket, bind and connect fail with any error number, epoll refuses, the peer accepts at once, later, refuses later or never answers (60..90 s)", reach=("connected", "failed", "later", "refused later", "no answer", "end")),
    Unit("conn.cpp", "h_destroy", "every combination of open descriptor, loop, server (shared or not), TLS session, server name data and known to epoll", reach=("registered", "end")),
])
prop("C31", [
    Unit("sockaddr.cpp", "h_text", "every IPv4 and IPv6 address and port, lookups that fail", reach=("unknown", "end")),
    Unit("sockaddr.cpp", "h_compare", "every three socket addresses", reach=("equal", "ordered", "end")),
    Unit("sockaddr.cpp", "h_ipaddr", "every three plain addresses, with any bytes in the part an IPv4 address does not use", reach=("equal", "ordered", "end")),
    Unit("sockaddr.cpp", "h_hash_of_converted", "every socket address, converted into memory with other contents"),
    Unit("sockaddr.cpp", "h_mask", "every address and mask"),
    Unit("sockaddr.cpp", "h_sockets", "datagram, listening, connecting and half-connecting sockets with every flag and any one failing system call", reach=("failed", "end")),
    Unit("sockaddr.cpp", "h_mode", "two changes of the blocking mode"),
])
prop("C32", [
    Unit("kstr.cpp", "h_string", "strings of 0..4 arbitrary bytes made in each of the three ways, up to 4 reference operations", reach=("end", "taken over")),
    Unit("kstr.cpp", "h_string_long", "strings of 7..70000 bytes (22 lengths) with any byte at the beginning, middle and end, up to 301 references", max_steps=20000000),
    Unit("kstr.cpp", "h_list", "2 lists, 4 items, every history of 4 insertions (anywhere) and removals", defs=["OPS=4"], reach=("end", "removed")),
    Unit("kstr.cpp", "h_walk", "lists of 0..4 items, any of them moved to another list while walking", reach=("end", "moved")),
    Unit("kstr.cpp", "h_forward", "forward lists of up to 4 items, every history of 5 operations", defs=["OPS=5"], reach=("end", "removed", "not there")),
    Unit("kstr.cpp", "h_values", "every atomic operation with every value and argument of 64 (32, 16) bits"),
    Unit("kstr.cpp", "h_shared", "2 threads (and the owner) with 1..2 references each; every interleaving with up to 3 preemptions at every memory access", defs=["THREADS", "NT=2", "PREEMPTS=3"], points="mem", reach=("end", "released by the last user"), split=4),
    Unit("kstr.cpp", "h_atoms", "2 threads, 8 operations each, up to 3 preemptions at every memory access", defs=["THREADS", "PREEMPTS=3"], points="mem", split=4),
    Unit("kstr.cpp", "h_string", "strings of 0..12 bytes, up to 8 operations", defs=["LEN=12", "OPS=8"], reach=("end", "taken over"), tiers=T),
    Unit("kstr.cpp", "h_list", "6 operations", defs=["OPS=6"], reach=("end", "removed"), split=8, tiers=T, timeout=1500),
    Unit("kstr.cpp", "h_shared", "3 threads", defs=["THREADS", "NT=3", "PREEMPTS=3"], points="mem", reach=("end", "released by the last user"), split=8, tiers=T, timeout=1500),
    Unit("kstr.cpp", "h_atoms", "3 threads, up to 4 preemptions", defs=["THREADS", "NT=3", "PREEMPTS=4"], points="mem", split=8, tiers=T, timeout=1500),
])
prop("C33", [
    Unit("udp.cpp", "h_new", "every combination of the four flags; binding, sending 0..65535 bytes, joining a group: any address, any one call failing", reach=("no socket", "bound", "not bound", "sent", "not sent", "joined", "not joined", "end")),
    Unit("udp.cpp", "h_recv", "2 packets of 0..3 bytes from any source to any destination, with and without the destination's address, arriving before and after the read", reach=("destination", "destination 6", "no destination", "waits", "end", "other message")),
])
prop("C34", [
    Unit("tlsctx.cpp", "h_memory", "certificate given as text, as a file, empty or not at all, key as text or file, 1..3 certificates of which any may be damaged, every setting, any one call of the TLS library failing", reach=("failed", "certificate", "beside the key", "end")),
    Unit("tlsctx.cpp", "h_files", "the same from files", reach=("failed", "end")),
    Unit("tlsctx.cpp", "h_client", "client contexts", reach=("failed", "protocols", "end")),
    Unit("tlsctx.cpp", "h_callbacks", "server name and protocol callbacks in either order, with and without a name, a context and data of the name, and a server that refuses clients without", reach=("refused", "named", "protocol", "end")),
    Unit("tlsctx.cpp", "h_settings", "early data switched on and off, a cipher list the library takes or refuses", reach=("failed", "end")),
    Unit("tlsctx.cpp", "h_password", "1..3 passwords of 1..8 bytes, of which any or none opens the key", defs=["PASSWORDS=3"], reach=("opened", "locked", "end"), optional=True),
])
prop("C35", [
    Unit("lifecycle.cpp", "h_main", "a main function run 2 times in a row with any arguments and result, doing 2 things (sleeping, another fiber, a posted callback, a timer)", defs=["MAIN_OPS=2", "MAIN_RUNS=2"], reach=("end", "slept", "joined", "posted", "timer")),
    Unit("lifecycle.cpp", "h_main_clock", "a main function sleeping up to 250 ms, the clock set back by 2..2^26 s at any turn", defs=["MAIN_OPS=0", "MAIN_RUNS=1"], reach=("end", "clock set back")),
    Unit("lifecycle.cpp", "h_step", "1 or 2 loops turned by the application, up to 2 thread callbacks, up to 3 timers from before and after the pool was made", defs=["MAIN_OPS=0", "MAIN_RUNS=1"], reach=("end", "own loop", "another loop", "timer from before the pool")),
    Unit("lifecycle.cpp", "h_start", "1, 2 or 4 loops, with and without hook, 3 turns of any of them with any time passing", defs=["MAIN_OPS=0", "MAIN_RUNS=1"], reach=("end", "hook")),
    Unit("lifecycle.cpp", "h_main", "3 things in each of 2 runs", defs=["MAIN_OPS=3", "MAIN_RUNS=2"], reach=("end", "slept", "joined", "posted", "timer"), split=8, tiers=T, timeout=3000),
    Unit("lifecycle.cpp", "h_flush", "4 turns with up to 70 s between them", defs=["MAIN_OPS=0", "MAIN_RUNS=1"], reach=("end", "flush")),
])
