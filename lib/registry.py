"""property -> (module, what its check decides and how)"""
BASE = ("Sources are parsed and type-checked by clang on every run; for each function the compiler's control-flow graph is "
        "executed abstractly (dataflow / typestate over symbolic locations, intervals and equalities; callees are inlined in "
        "their calling context, paths are merged per analysis state; no concrete or solver-driven execution). ")
PROPS = {
    "P02": ("rules_lock", BASE + "At every read, write or call on a protected member the set of held locks of that same object "
            "must contain its lock; accesses while the object is being constructed or destroyed, and reads of the client's "
            "connection slot on the only thread that writes it, are exempt."),
    "P04": ("rules_lock", BASE + "The set of held locks is propagated to every call of a caller-supplied function, every thread "
            "join and every acquisition; acquired-while-holding edges over all functions must be acyclic."),
    "P20": ("rules_lock", BASE + "At each wait: exactly the mutex its condition was constructed with is held; the wait lies on a "
            "CFG cycle; between the wait and leaving the critical section shared state is re-read and branched on."),
    "P21": ("rules_lock", BASE + "Lock balance at every function exit; the guard classes acquire and release exactly once, the lock "
            "they were given; event order of owner writes and pthread calls in the lock and condition primitives."),
    "P22": ("rules_lock", BASE + "For every wait the abstract condition on the members known at that point is collected; every critical "
            "section of the class is then run from a state satisfying it and must either preserve it or notify that condition "
            "(all waiters where the contract lets all go on). Contract checks compare the abstract member values on exit."),
    "P05": ("rules_conn", BASE + "Every entry into the sending paths is executed from each reachable mix of pending output, write "
            "interest and socket result (negative, partial, full); a typestate monitor with affine byte accounting requires that "
            "what was not accepted is queued once and in order, that exactly the accepted amount is removed, and that write "
            "interest stays on while output is pending. The gathering write is checked over the chunk list's real code."),
    "P06": ("rules_conn2", BASE + "The reader is executed for every result of the socket read (failed, fits, overflows) and the bytes it "
            "adds are accounted symbolically; the read handlers are executed for every outcome of the reader (error, would-block, "
            "end of file, data) in both trigger modes."),
    "P07": ("rules_conn2", BASE + "A typestate monitor over the connection's state and pending output on every entry of the connection: "
            "socket half-close, state writes and the drain exits are checked, with facts refined by each branch."),
    "P08": ("rules_conn2", BASE + "The set of connection states possible at each point is tracked through branches and user callbacks; "
            "every state write must be a legal step and be followed by exactly one report. The owners' functions are checked for "
            "establishing and destroying each connection exactly once."),
    "P37": ("rules_conn2", BASE + "On every path that adds output the facts known where the high water callback is (not) scheduled are "
            "compared with the mark and with the final amount, as affine expressions."),
    "P01": ("rules_confine", BASE + "An effect analysis: at every change of a loop-owned object the facts of the path must say that the "
            "executing thread is the thread of that object's loop (a test, an assertion, or the loop that runs a function handed over); "
            "functions handed over are analysed where they are handed over, in the context of the loop that will run them."),
    "P09": ("rules_life", BASE + "Typestate per channel (interest off, removed, handed to a queued function) over every function of its "
            "owners; connection states are tracked so that interest is shown to stay off once a connection is down."),
    "P10": ("rules_keep", BASE + "At every place where a callable is handed to a loop, put on a timer or stored as a callback, everything it "
            "captures or binds is classified (strong, weak, raw, reference) together with the object it denotes; uses of locked weak references "
            "are checked against the facts of the path."),
    "P24": ("rules_log", BASE + "Every statement macro is compiled in a witness file and its paths are checked against the active level; constructors and "
            "destructor of a record are analysed for each level: one output of the whole text, flush and abort for fatal levels only, errno preserved "
            "(calls that may set errno replace its value)."),
    "P35": ("rules_log", BASE + "The text written for each level and returned for each connection state is enumerated by constant propagation and compared "
            "with the enumerators; tables and switches are checked for completeness."),
    "P26": ("rules_wire", BASE + "The conversions and every operation with a width in its name, of both kinds of buffer, are run on a symbolic value: byte exchange is "
            "an uninterpreted involution per width, and what is written or given back must be exactly one exchange of the operation's own width of "
            "exactly its own number of bytes. Copying out of several chunks is decided per round of its loop."),
    "P27": ("rules_buf", BASE + "Every public operation of the buffer and the receive function are run on symbolic indices and sizes (affine facts, unsigned "
            "differences that may wrap taken as arbitrary) with a model of the storage that is itself checked; where the readable bytes lie is "
            "followed through every copy and compared with the indices on return."),
    "P23": ("rules_alog", BASE + "Who owns each message buffer and whether it holds accepted, written or no messages is a typestate followed through moves, "
            "swaps, queueing and removal in Append and the back end's loop, with the lock set; the pass that writes is summarised per buffer "
            "(each once, in order, its own bytes), and the end must follow a drain after the stop was seen."),
    "P28": ("rules_chunk", BASE + "Every operation of a chunk is run on symbolic indices under the invariant that they are ordered and inside it; every operation of a "
            "chunked buffer on any lists, the list operations inlined; a round of a loop starts from any place, any amount and any lists."),
    "P29": ("rules_fix", BASE + "Every way to write to a fixed buffer is run on symbolic lengths and values for seven sizes; digit loops are followed with "
            "intervals of the number that is left, formatted output by the longest text its format can give. Every other function with a "
            "character array of known size is checked write by write (offset plus length against the size)."),
    "P33": ("rules_copy", "A generated translation unit asks the compiler (type traits, -fsyntax-only, with the repository's headers and flags) whether each "
            "class can be copied or moved; classes with an identity or a resource must not be copyable at all, and classes whose destructor "
            "(analysed path by path) lets go of something through a plain handle only by operations of their own."),
    "P16": ("rules_thread", BASE + "The pool's members are followed by constant propagation from construction through sizing, starting and 2n+2 "
            "requests for every n up to 8 (16 in the thorough tier): n threads, each started once, then handed out in rotation. The server's accept "
            "callback and start are checked on every path."),
    "P17": ("rules_thread", BASE + "The reachable states of a Thread object (its members against what was done to the thread it made) are "
            "computed as a fixpoint over constructors, start, join, moves and destruction; the loop thread's body, starter and destructor are "
            "typestate machines over the published loop with the lock set."),
    "P14": ("rules_timer", BASE + "Timer objects are followed as a typestate: made, handed to the loop, in both containers, expired, running, freed. "
            "Requests are analysed where they are handed over; each pass over the expired timers is summarised as the set of possible "
            "treatments of one element, which must be exactly one of the allowed ones, in the right order of passes."),
    "P15": ("rules_timer", BASE + "Due times are followed symbolically (affine forms over the clock reading and the timer's due time) into the order, "
            "the cut-off of the expired timers and the seconds and nanoseconds given to the kernel; after every change of the queue the "
            "timer that is armed must be known to be the first."),
    "P03": ("rules_loop", BASE + "Queueing, waking, draining and quitting are typestate obligations on every path: the given function is "
            "queued exactly once at the end, the loop is woken unless the caller is its own thread before draining, the drain visits each "
            "taken function once in order outside the lock."),
    "P13": ("rules_poll", BASE + "Channel methods are executed from each of the four interests; the epoll back end is run from every "
            "registration state reachable by any sequence of calls (a finite typestate fixpoint) against a model of the kernel's table; the "
            "poll back end's table, array and indices are related symbolically; dispatch is executed for each of the 128 reported event sets."),
    "P34": ("rules_loop", BASE + "The functions that set the disposition of the broken pipe signal are executed on all paths; a static object "
            "of the file implementing connections (or the constructors of sockets/loops) must ignore it, and nothing may restore it."),
    "P38": ("rules_loop", BASE + "The loop function is run as a typestate machine: look at the request to quit, wait with an empty list, serve "
            "every ready channel once in order, run the queue, repeat; leave only when quitting was requested and drain once more."),
    "P11": ("rules_fd", BASE + "Ownership typestate per descriptor value: obtained, closed, handed over, held by a member whose "
            "destructor (analysed itself) closes it exactly once. Every function that can obtain, receive or release a descriptor is run "
            "from every state of its object; at each exit every descriptor has exactly one fate."),
    "P12": ("rules_fd", BASE + "The flag argument of every call that creates a descriptor is evaluated as a constant in its calling context; "
            "the flags follow the value to the channel or callback that makes it polled."),
    "P18": ("rules_fd", BASE + "Every entry of the connector is run for each result of connect, of the socket error and of the "
            "self-connection test; the outcome (wait, retry, give up, hand over) is compared with the classification, and the delays are "
            "followed by constant propagation from the first to the fixed maximum."),
    "P19": ("rules_fd", BASE + "The listener's read callback is run for each result of accept; descriptor ownership, the fate of the reserved "
            "descriptor and effects on the listener are checked on every path."),
}
TECH = {
    "P14": "typestate analysis of timer objects, per-element loop summaries",
    "P15": "dataflow with affine time expressions",
    "P23": "ownership typestate of message buffers with lock sets and per-element loop summaries",
    "P28": "bounds analysis with affine facts; ownership typestate of chunks",
    "P29": "bounds analysis with affine facts and intervals",
    "P26": "symbolic value flow through byte-order conversions with width checking",
    "P27": "affine abstract interpretation of the buffer's indices and storage",
    "P33": "compile-time type traits on every class, with a destructor effect analysis",
    "P16": "constant propagation over the pool's members",
    "P17": "typestate fixpoint and lock-set dataflow",
    "P10": "ownership analysis of the captures of deferred work",
    "P24": "path analysis of log statements compiled as witnesses, with an errno effect analysis",
    "P35": "constant propagation over enumerations and their name tables",
    "P09": "typestate analysis of channel lifetimes",
    "P01": "thread-confinement effect analysis",
    "P11": "ownership typestate analysis of descriptors",
    "P12": "constant propagation of creation flags",
    "P18": "typestate analysis with case splitting",
    "P19": "typestate analysis with case splitting",
    "P13": "typestate fixpoint and constant propagation over the pollers and channels",
    "P38": "typestate analysis of the event loop",
    "P03": "typestate dataflow over the loop's queue",
    "P34": "signal-effect analysis of static initialisation",
    "P06": "typestate dataflow with affine byte accounting",
    "P07": "typestate analysis",
    "P08": "typestate analysis",
    "P37": "dataflow with affine facts",
    "P05": "typestate dataflow with affine byte accounting",
    "P02": "lock-set dataflow analysis (guarded-by)",
    "P04": "lock-set dataflow and lock-order graph",
    "P20": "typestate analysis of condition waits",
    "P21": "lock typestate analysis",
    "P22": "missed-wakeup dataflow analysis with interval facts",
}
LEVELNOTE = {}
DEFAULT_NOTE = ("Static argument over all paths of the analysed functions of the current sources. Trusts clang's front end, the "
                "models of the standard library and system calls in lib/absint.py, and the table of roles in the rule module; "
                "the abstraction may lose precision, never a path (bounded recursion depth aside).")
