"""what each check's harness compares the real code with (printed in DESIGN.md and in the evidence)"""
ORACLE = {
"C01": "Oracle: the harness builds every valid tree of the bound, runs one real operation with symbolic keys, then checks colours, black heights, parent links, order and membership against the list of keys it put in; inductive step from every valid tree within the height bound.",
"C02": "Oracle: reflexivity, antisymmetry, transitivity and agreement with an independent comparison written out over wide integers or bytes; quantified over all values by the solver.",
"C03": "Oracle: a flat byte array kept beside the buffer; every read is compared with it byte by byte (symbolic bytes), as are length and the more-data answer. The symbolic-size units follow one arbitrary position of the stream.",
"C04": "Oracle: a flat byte array kept beside the buffer, or an arbitrary position followed through growth.",
"C05": "Oracle: the live blocks' ranges (disjoint, within an allocation of the pool: the engine checks the accesses), a log of the cleanup calls, and the leak check at the end.",
"C06": "Oracle: the element values pushed, re-read after every push, and the ranges of the pool's other blocks.",
"C07": "Oracle: per timer the times of the rounds before and after its deadline; fired in exactly the first round at or after it, once, with its argument, in order of deadlines.",
"C08": "Oracle: an independent statement of when each list entry's allowance is used up, from the times it was armed and seen.",
"C09": "Oracle: the descriptor's readiness as state of the epoll stand-in (edge triggered like the kernel's); each started operation's completions are counted, at the end no pending operation's readiness may be unreported.",
"C10": "Oracle: the results the system-call stand-ins chose; the buffers they were given are compared with the caller's.",
"C11": "Oracle: run counters per posted callback under every interleaving of poster and loop; a loop that sleeps with an unhandled notice is a failure.",
"C12": "Oracle: arithmetic statement of the round-robin choice for all loads and all counter values.",
"C13": "Oracle: holders counted by the fibers themselves; a fiber that is blocked when nothing is runnable is a lost waiter.",
"C14": "Oracle: reader and writer counts kept by the fibers; a fiber blocked when nothing is runnable, or a thread blocked on the internal lock, is a failure.",
"C15": "Oracle: notices given and waits passed are counted; for every prefix an automatic condition has not let more through than were given, and at the end not fewer than possible; values compared.",
"C16": "Oracle: which values were sent with success and received, each exactly once, and reference count and memory at the end.",
"C17": "Oracle: run counters, exit values, joiner and callback counters, the leak check, the stack accounting.",
"C18": "Oracle: holders counted inside the critical sections under every bounded interleaving; deadlock of the remaining threads is a failure.",
"C19": "Oracle: signals given and waits passed are counted, with spurious wake-ups chosen by the condition-variable stand-in.",
"C20": "Oracle: run counters and order per job, the number running at once, the refusal rule stated over the queue length.",
"C21": "Oracle: run counters, the counters of working and idle threads, the age of each idle thread at a flush.",
"C22": "Oracle: the questions and answers of the resolver stand-in (each answer tagged), per request completions and tags, the ages of cached entries; the leak check on answers.",
"C23": "Oracle: a bit by bit statement of the open flags, the positions and lengths the system-call stand-ins were given.",
"C24": "Oracle: arithmetic statement of the aligned window over 64-bit offsets, the bytes the stand-in 'delivered' at each file position.",
"C25": "Oracle: the concatenation of the pieces against the positions handed to the system, whatever the sequence of short transfers.",
"C26": "Oracle: the bytes the TLS stand-in produced or took, in order; completions counted; the thread's error queue modelled as OpenSSL keeps it.",
"C27": "Oracle: the documented meaning of SSL_get_error for every result, and a log of what the operation waited for.",
"C28": "Oracle: the set of names in the list against the resulting options and limits.",
"C29": "Oracle: open descriptors, references and memory of the environment stand-ins; per connection either one accept callback or one close.",
"C30": "Oracle: the bytes of the address given, the descriptors and TLS objects of the stand-ins, the leak check.",
"C31": "Oracle: independent arithmetic on the address bytes in network order.",
"C32": "Oracle: the bytes given, the sequence of items kept beside the list, 64-bit arithmetic, and free counted over all interleavings.",
"C33": "Oracle: the options, addresses and bytes the socket stand-ins were given and the control messages they made.",
"C34": "Oracle: object counts (X509, key, store, context) of the TLS stand-ins with OpenSSL's ownership rules, and which objects the returned context holds.",
"C35": "Oracle: run counters and times of the main function's actions, descriptors and memory left over, the process time after each turn.",
}
