"""The properties, their checks and what is not claimed.  Run to rewrite
properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCH, INP, HIS, CFG, FLT = "schedules", "inputs", "histories", "configurations", "fault_sequences"

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append(d)


p("P01", "Loop-confined state is only touched on the loop's own thread",
  "Everything an event loop owns (its poller, channels, timers, and the connection state driven by it) is changed only "
  "on that loop's thread. Public operations that may be called from any thread either run the change inline when already "
  "on that thread or hand it to the loop as queued work; they never touch the state directly.",
  [SCH], "every interleaving of any number of threads calling the public API of a loop, connection, client or server",
  "The tests use one or two threads and touch a loop from outside only in two fixed places; a data race needs an "
  "interleaving that no run is guaranteed to show.",
  ["kanon/net/event_loop.cc", "kanon/net/connection/connection_base.cc", "kanon/net/tcp_client.cc", "kanon/net/connector.cc",
   "kanon/net/acceptor.cc", "kanon/linux/net/timer/timer_queue.cc"],
  [("loop thread assertion and hand-over", "EventLoop::AssertInThread, RunInLoop, QueueToLoop")])
p("P02", "Shared mutable state is only accessed under its lock",
  "State that several threads may reach (pending-work queue, connection table, client connection slot, log buffers, log "
  "file, latch count, reader/writer marks, task queue) is read and written only while the lock that protects it is held, "
  "on every path.",
  [SCH], "every path of every function that can reach the state, hence every interleaving of callers",
  "A missing lock on one path shows only under a particular interleaving; the tests are mostly single-threaded and run "
  "without a race detector.",
  ["kanon/net/event_loop.cc", "kanon/net/tcp_client.cc", "kanon/net/tcp_server.cc", "kanon/log/async_log.cc",
   "kanon/log/log_file.cc", "kanon/thread/count_down_latch.h", "kanon/thread/rw_lock.cc", "kanon/thread/thread_pool.cc",
   "kanon/net/event_loop_thread.cc"],
  [("scoped lock guards around every access", "MutexGuard, MutexGuardT")])
p("P03", "Work handed to a loop runs exactly once, in order, on the loop thread",
  "A function queued to a running loop from any thread is executed exactly once, in queueing order, on the loop's thread, "
  "outside the queue lock, and the loop is woken from its poll so that it happens without waiting for other events. "
  "A request to quit likewise ends a loop that is blocked waiting for events.",
  [SCH, HIS], "every sequence of queue, run and quit requests from any threads relative to the loop's own iteration",
  "Tests queue a handful of functions from one thread; a lost wakeup or a function queued while others run needs a "
  "specific interleaving.",
  ["kanon/net/event_loop.cc", "kanon/net/event_loop.h"],
  [("queue under lock, wake through a descriptor, swap and run outside", "EventLoop::QueueToLoop, CallFunctors, Wakeup")])
p("P04", "No callback, join or second acquisition happens while a lock is held",
  "The library never invokes caller-supplied code and never joins a thread while holding one of its internal locks, never "
  "acquires a lock it already holds, and acquires several locks in one global order, so no schedule or callback can deadlock it.",
  [SCH], "every call path through the library together with every behaviour of user callbacks",
  "A deadlock needs a callback that calls back into the library or two threads in opposite order; no test does that.",
  ["kanon/net/tcp_server.h", "kanon/net/tcp_client.cc", "kanon/net/event_loop.cc", "kanon/log/async_log.cc", "kanon/thread"],
  [("lock scopes that end before callbacks", "TcpServer::ApplyAllPeers, EventLoop::CallFunctors, TcpClient::Connect")])
p("P05", "Outgoing bytes are sent exactly once and in order",
  "Every byte given to a connection while it is up reaches the socket exactly once and in the order of the send calls: what "
  "the socket does not take immediately is kept and write interest is turned on until everything pending has been written, "
  "new data never overtakes pending data, and exactly the number of bytes the socket accepted is removed. This holds for "
  "partial writes, for a full socket buffer and for every form of send.",
  [INP, FLT], "every sequence of send calls, message sizes, and results of each socket write (partial, zero, would-block, error)",
  "The tests never make a socket write partial or would-block, so the whole queueing path is unexercised.",
  ["kanon/net/connection/connection_base.cc", "kanon/linux/net/connection/connection_base.inl", "kanon/linux/net/chunk_list.cc"],
  [("write directly if nothing is pending, else queue", "ConnectionBase::SendInLoop, SendInLoopForBuf, SendInLoopForChunkList"),
   ("drain on writability", "HandleLtWrite, HandleEtWrite")])
p("P06", "Incoming bytes are delivered completely; EOF and errors end the connection",
  "Bytes read from a socket are appended to the input buffer in full and in order, including the overflow part that did not "
  "fit, before the message callback runs. End of file closes the connection, a would-block read is not an error, and any "
  "other error is reported and never mistaken for data.",
  [INP, FLT], "every result of every socket read, including end of file, would-block and errors, and every buffer fill level",
  "The tests use short local messages; errors and overflow reads do not occur in them.",
  ["kanon/linux/net/connection/connection_base.inl", "kanon/linux/net/buffer.cc", "kanon/linux/net/sock_api.cc"],
  [("scatter read with overflow area", "BufferReadFromFd"), ("read dispatch", "HandleLtRead, HandleEtRead")])
p("P07", "A graceful shutdown first drains pending output",
  "A half-close requested while output is pending is carried out only after the pending output has been written, and it is "
  "then always carried out; requested with nothing pending it happens at once. Data accepted by a send call before the "
  "shutdown request of the same thread is never discarded by it.",
  [SCH, HIS], "every order of send, shutdown and socket writability events",
  "Needs a shutdown while output is pending, which needs a full socket buffer; no test produces one.",
  ["kanon/net/connection/connection_base.cc", "kanon/linux/net/connection/connection_base.inl"],
  [("shutdown deferred to the end of draining", "ConnectionBase::ShutdownWrite, HandleLtWrite, HandleEtWrite")])
p("P08", "Each connection reports up once and down once",
  "For every established connection the connection callback runs exactly once for the up transition and at most once for the "
  "down transition, in that order; however many causes (end of file, error, forced close, shutdown of the owner) ask to close "
  "it, it is taken down once and its owner is told once.",
  [SCH, HIS, FLT], "every sequence and combination of close causes, from any threads",
  "Tests close each connection for one reason only; duplicates arise when causes coincide.",
  ["kanon/net/connection/connection_base.cc", "kanon/linux/net/connection/connection_base.inl", "kanon/net/tcp_server.cc", "kanon/net/tcp_client.cc"],
  [("state machine", "ConnectionBase::ConnectionEstablished, HandleClose, ForceClose, ConnectionDestroyed")])
p("P09", "A channel is never destroyed or its descriptor closed while registered",
  "A descriptor's channel is removed from its poller, with interest disabled, before the channel is destroyed or the "
  "descriptor is closed, and never while the loop is still delivering the channel's own events; the poller therefore never "
  "dispatches to a dead channel.",
  [SCH, HIS], "every lifetime order of connections, acceptors, connectors, timers and loops relative to event delivery",
  "A dangling channel is used only if the descriptor becomes ready at the wrong moment.",
  ["kanon/net/channel.h", "kanon/linux/net/poller.cc", "kanon/linux/net/epoller.cc", "kanon/net/acceptor.cc", "kanon/net/connector.cc", "kanon/net/connection/connection_base.cc"],
  [("disable and remove before destruction", "Channel::Remove, Poller/Epoller::RemoveChannel")])
p("P10", "Deferred work keeps the objects it uses alive",
  "Work that is queued to a loop, put on a timer or stored as a callback, and that uses a reference-counted object, holds a "
  "strong reference to that object (or a weak one that is checked), so that it never runs on a destroyed connection, "
  "connector or client. A callback that is stored in a part of a counted object does not itself keep that object alive for ever.",
  [SCH, HIS], "every relative order of object destruction and execution of the deferred work",
  "The use after free needs destruction between queueing and execution.",
  ["kanon/net/connection/connection_base.cc", "kanon/net/connector.cc", "kanon/net/tcp_client.cc", "kanon/net/tcp_server.cc"],
  [("shared_from_this captures", "ConnectionBase::Send*, Connector::StartRun")])
p("P11", "Every descriptor is closed exactly once",
  "Every socket, event, timer, poll and file descriptor the library obtains is closed exactly once on every path: not leaked "
  "when a later step fails or no callback takes it over, and not closed twice or used after closing.",
  [HIS, FLT], "every path through creation, hand-over, failure and destruction",
  "Leaks do not fail tests, and double closes only matter when the number was reused by another thread.",
  ["kanon/net/acceptor.cc", "kanon/net/connector.cc", "kanon/net/tcp_server.cc", "kanon/net/tcp_client.cc", "kanon/net/event_loop.cc",
   "kanon/linux/net", "kanon/log/append_file.cc"],
  [("owning wrapper and hand-over callbacks", "Socket, Acceptor, Connector, NewConnection")])
p("P12", "Descriptors are non-blocking and close-on-exec",
  "Every descriptor a loop polls (listening, accepted, connecting, event and timer descriptors) is non-blocking, and every "
  "descriptor the library opens is close-on-exec from its creation.",
  [SCH, HIS], "every creation site",
  "A blocking socket stalls the loop only under particular timing (a connection reset before accept, a spurious readiness), and "
  "close-on-exec matters only when a child is executed; no test does either.",
  ["kanon/linux/net/sock_api.cc", "kanon/net/event_loop.cc", "kanon/linux/net/epoller.cc", "kanon/linux/net/timer/timer_queue.cc", "kanon/log/append_file.cc"],
  [("creation flags", "CreateNonBlockAndCloExecSocket, Accept, eventfd, timerfd_create, epoll_create1")])
p("P13", "Poller registration matches channel interest; events reach their callback",
  "With either back end, after any sequence of interest changes the set of descriptors and events the kernel is asked to watch "
  "equals the interest of the live channels, and a reported event is delivered to the callback for its kind (read, write, "
  "close, error) and to no other. An interrupted poll is not an error.",
  [HIS, FLT], "every sequence of enable, disable and remove calls on any number of channels, and every combination of reported event bits",
  "Tests use a few channels that are never re-enabled after being disabled, and mostly one back end.",
  ["kanon/linux/net/poller.cc", "kanon/linux/net/epoller.cc", "kanon/net/channel.cc", "kanon/net/channel.h", "kanon/linux/net/event.h"],
  [("registration state machine", "Poller/Epoller::UpdateChannel, RemoveChannel"), ("dispatch", "Channel::HandleEvents")])
p("P14", "Timers live until they have fired or been cancelled, and are freed once",
  "A timer object stays valid while it is in the timer queue or its callback runs, and is freed exactly once after a one-shot "
  "timer has fired or a timer was cancelled. Cancelling a timer that has expired, was cancelled before or is cancelling itself "
  "from its own callback is safe and stops any further call.",
  [SCH, HIS], "every order of adding, expiry and cancelling, including from inside timer callbacks and from other threads",
  "Cancelling at or after expiry is not tested.",
  ["kanon/linux/net/timer/timer_queue.cc", "kanon/net/timer/timer.h", "kanon/net/timer/timer_id.h"],
  [("ordered set of owned timers", "TimerQueue::AddTimer, CancelTimer, GetExpiredTimers, ResetTimers")])
p("P15", "Timers never fire early; the kernel timer always covers the earliest one",
  "A timer callback runs only at or after its due time, repeating timers are re-armed with their interval until cancelled, and "
  "after every change of the queue the kernel timer is armed for the earliest pending due time (or sooner, when that timer has "
  "been cancelled), with a positive delay even if that time is already past.",
  [HIS, INP], "every set of due times and intervals and every order of additions, expiries and cancellations",
  "Tests start a few timers with increasing delays; a missed re-arm needs a new earliest timer at a specific point.",
  ["kanon/linux/net/timer/timer_queue.cc", "kanon/net/timer/timer.h"],
  [("expiry split and re-arm", "TimerQueue::GetExpiredTimers, ResetTimers, TimerReadProcess")])
p("P16", "The loop pool hands out only its own running loops, in rotation",
  "A pool of n loops starts exactly n threads, each once. A started pool returns the loops of its own threads in round-robin "
  "order, each within bounds, and the base loop when it has none. The server takes one loop of its pool for each accepted "
  "connection and gives the connection that loop.",
  [HIS, CFG], "every number of threads (including zero) and every number of requests",
  "Index arithmetic errors show only after a full rotation or with zero threads.",
  ["kanon/net/event_loop_pool.cc", "kanon/net/event_loop_pool.h"],
  [("rotation index", "EventLoopPool::StartRun, GetNextLoop")])
p("P17", "Starting a thread publishes its loop; destruction ends and joins it",
  "Starting a loop thread returns only after the loop exists and returns that loop (or null if it has ended again); destroying it stops the loop if it is still "
  "running and always joins the thread, and the loop pointer is never used after the loop has ended. A thread that was started "
  "is joined or detached exactly once.",
  [SCH], "every interleaving of start, loop exit and destruction",
  "The windows are a few instructions wide.",
  ["kanon/net/event_loop_thread.cc", "kanon/thread/thread.cc"],
  [("start handshake", "EventLoopThread::StartRun, Thread::StartRun, Thread::Join")])
p("P18", "Connecting handles every outcome: success, bounded retry, or failure",
  "Each result of a connection attempt is classified: in progress waits for writability, refused or unreachable is retried after "
  "a delay that doubles up to a fixed maximum, and any other error closes the descriptor and gives up. A stopped connector makes "
  "no further attempts, and success hands over exactly one descriptor after checking for socket errors and self-connection.",
  [FLT, HIS], "every error code at every step and every order of start, stop and restart",
  "The tests never see a refused or failing connect.",
  ["kanon/net/connector.cc", "kanon/linux/net/connector.cc"],
  [("state machine", "Connector::StartInLoop, Retry, CompleteConnect, HandleWrite, HandleError")])
p("P19", "A failing accept never stops the server or leaks a descriptor",
  "Every accepted descriptor is either handed to the server or closed. A transient accept failure (aborted connection, "
  "interruption, network error) leaves the listener working, and running out of descriptors sheds the pending connection by "
  "means of a reserved descriptor that is re-acquired afterwards.",
  [FLT], "every error accept can report, in any order",
  "The tests never exhaust descriptors or abort a pending connection.",
  ["kanon/net/acceptor.cc", "kanon/linux/net/sock_api.cc"],
  [("accept and reserve descriptor", "Acceptor::Listen read callback, sock::Accept")])
p("P20", "Waiting on a condition re-checks it and holds only the right lock",
  "Every untimed wait re-tests the shared condition it waits for after waking, before leaving the critical section, so spurious "
  "and stolen wakeups are harmless. It is made holding exactly the mutex that the condition variable belongs to, which lives at "
  "least as long as it.",
  [SCH], "every interleaving, including spurious wakeups",
  "Spurious wakeups cannot be provoked by tests.",
  ["kanon/thread/count_down_latch.h", "kanon/thread/rw_lock.cc", "kanon/thread/thread_pool.cc", "kanon/net/event_loop_thread.cc", "kanon/log/async_log.cc", "kanon/log/log_file.cc"],
  [("wait loops", "Condition::Wait, WaitForSeconds")])
p("P21", "Locks are released on every path and know their owner",
  "Every lock a function acquires is released again on every path out of it and no lock is released that is not held; scoped "
  "guards acquire once and release once the same lock. The owner a mutex records is the thread that holds it, is recorded only "
  "while it is held (also across waiting on a condition), and asserting ownership passes for the owner and fails for everybody else.",
  [SCH, HIS], "every path through every function that locks",
  "An early return that keeps a lock shows only when that path is taken and another thread then needs the lock.",
  ["kanon/thread/mutex_lock.h", "kanon/thread/condition.h", "kanon/thread/condition.cc", "kanon/thread/rw_lock.h"],
  [("scoped guards and owner tracking", "MutexLock, MutexGuard, Condition")])
p("P22", "Latch, reader/writer lock and thread pool keep their contracts",
  "Waiting on a latch returns only once the count is not positive; readers and writers exclude each other, also while a writer waits "
  "for readers to leave; a task pushed to the pool is queued only below capacity, run exactly once, and destruction waits for the workers. "
  "Whenever an operation can end the condition that another thread sleeps on, it wakes it (all of them where all may go on).",
  [SCH], "every interleaving of waiters and signallers",
  "A lost wakeup hangs only if the waiter sleeps at the critical moment.",
  ["kanon/thread/count_down_latch.h", "kanon/thread/rw_lock.cc", "kanon/thread/thread_pool.cc", "kanon/net/event_loop_thread.cc", "kanon/log/log_file.cc"],
  [("notify after every enabling change", "Condition::Notify, NotifyAll")])
p("P23", "The asynchronous log writes every accepted message once, in order",
  "Every message accepted by the asynchronous log before it is stopped is written to the log file exactly once and in acceptance "
  "order, whichever buffer it went to and also if it arrived while the back end was writing; stopping drains what is left, "
  "flushes and joins the back end. Only a backlog above the documented limit may be dropped, with a notice.",
  [SCH, HIS], "every interleaving of appending threads with the back end and with stopping",
  "Tests log from one thread and wait generously; a message lost between the last swap and the stop needs exact timing.",
  ["kanon/log/async_log.cc", "kanon/log/async_log.h"],
  [("double buffering", "AsyncLog::Append, ThreadFunc, Stop")])
p("P24", "Log statements are filtered by level, fatal ones abort, and errno survives",
  "A log statement below the active level evaluates nothing and produces no output, one at or above it is output exactly once and whole; a fatal one is "
  "flushed and then ends the process. A system-error statement reports the error number at entry, and no log statement changes it.",
  [INP, HIS], "every level setting, message and error number",
  "Fatal paths end the test process, and error numbers are overwritten only when some call inside logging fails.",
  ["kanon/log/logger.cc", "kanon/log/logger.h"],
  [("logger object emits in its destructor", "Logger::~Logger, LOG_* macros")])
p("P25", "The log file rolls, counts and keeps files as configured",
  "A log file is rolled when the written bytes exceed the size limit or a new period starts, every written byte is counted once, "
  "short writes are continued, and at most the configured number of files is kept, oldest removed first and the current file "
  "never.",
  [INP, HIS, FLT], "every sequence of appends, sizes, clock values and short writes",
  "Rolling by period needs a day to pass; short writes do not occur in tests.",
  ["kanon/log/log_file.h", "kanon/log/log_file.cc", "kanon/log/append_file.cc"],
  [("roll decision and removal queue", "LogFile::Append, RollFile, AppendFile::Append")])
p("P26", "Integers are exchanged in network byte order symmetrically",
  "Every multi-byte integer written to a buffer is in network byte order with exactly its own width, and reading or peeking it with "
  "the matching operation yields the same value and consumes (or does not consume) exactly that width, for every width and both signs.",
  [INP], "every value of every width",
  "Tests cover one value each; palindromic values hide a missing swap.",
  ["kanon/buffer/buffer.h", "kanon/util/endian_api.h", "kanon/buffer/chunk_list.h", "kanon/buffer/chunk_list.cc"],
  [("conversion per width", "Buffer::Append8..64, Read8..64, Peek, Prepend")])
p("P27", "Buffer indices always delimit initialised storage",
  "For every buffer the read index never exceeds the write index and neither exceeds the storage; reading or consuming more than is "
  "readable and writing more than is reserved is impossible or rejected, and growing, moving data to the front and shrinking preserve "
  "the readable bytes.",
  [INP, HIS], "every sequence of buffer operations with every size",
  "Tests use a few sizes; an index slip shows only at boundary sizes.",
  ["kanon/buffer/buffer.h", "kanon/linux/net/buffer.cc"],
  [("index arithmetic", "Buffer::AdvanceRead, AdvanceWrite, ReserveWriteSpace, MakeSpace, Shrink")])
p("P28", "Chunked buffers keep order, bounds and exclusive ownership of chunks",
  "Appending to a chunked buffer writes only inside a chunk's free space and in order, consuming releases exactly the consumed bytes and "
  "returns emptied chunks for reuse, and moving content between lists transfers each chunk to exactly one list.",
  [INP, HIS], "every sequence of append, prepend, consume and transfer operations and sizes",
  "Boundary sizes (exact chunk multiples, empty source) are not covered by tests.",
  ["kanon/buffer/chunk_list.h", "kanon/buffer/chunk_list.cc"],
  [("chunk cursor arithmetic", "ChunkList::Append, AdvanceRead, AppendChunkList")])
p("P29", "Fixed-capacity writers never write past their storage",
  "Log buffers, formatted-number output and stream buffers of fixed capacity check the remaining space before every write and leave "
  "the buffer unchanged or truncate when it does not fit; no input length makes them write out of bounds.",
  [INP], "every input length relative to the remaining space",
  "Only inputs near the capacity matter and tests use short ones.",
  ["kanon/string/fixed_buffer.h", "kanon/string/lexical_stream.h", "kanon/string/fmt_stream.h", "kanon/log/log_stream.h"],
  [("capacity test before copy", "FixedBuffer::Append, LexicalStream")])
p("P32", "Type-erased and optional holders own their value exactly once",
  "Any, unique-any and optional holders construct, copy, move, replace and destroy the value they hold exactly once; a moved-from or empty "
  "holder owns nothing, replacing destroys the old value, and a typed access to an empty holder or one of another type fails safely.",
  [INP, HIS], "every sequence of operations on holders of any type",
  "Leaks and double destruction of trivial types go unnoticed.",
  ["kanon/util/any.h", "kanon/util/unique_any.h", "kanon/util/optional.h"],
  [("holder lifetime", "Any, UniqueAny, Optional")])
p("P33", "Owning and identity classes cannot be copied",
  "Classes that own a descriptor, thread, lock, loop, timer queue, file or pool cannot be copy-constructed or copy-assigned: a program "
  "that does so does not compile.",
  [ "programs"], "every program that uses the library",
  "A test that does not compile cannot be in the test suite.",
  ["kanon/util/noncopyable.h", "kanon/thread/mutex_lock.h", "kanon/net/event_loop.h", "kanon/linux/net/channel.h"],
  [("deleted copy operations", "noncopyable, KANON_DISABLE_COPY")])
p("P34", "Writing to a closed peer never kills the process",
  "A program that uses the library's connections is not terminated by a broken-pipe signal: the signal is ignored before any loop can run, or every "
  "socket write suppresses it.",
  [HIS], "every moment at which a peer may close",
  "The signal arrives only if the peer has closed before the write.",
  ["kanon/net/connection/connection_base.cc"],
  [("signal disposition at load time", "IgnoreSignalPipe")])
p("P35", "Enumerations and their name tables stay complete and aligned",
  "Every log level and connection state has its own name at its own position, a level named in the environment selects that level, "
  "and every switch over a library enumeration handles every value.",
  [INP], "every enumerator",
  "A misaligned table prints a wrong name, which no test compares.",
  ["kanon/log/logger.cc", "kanon/net/connection/connection_base.cc", "kanon/net/connector.cc"],
  [("name tables", "log level names, connection state names")])
p("P37", "The high-water callback fires exactly when pending output crosses the mark",
  "When queued output of a connection rises from below the configured mark to the mark or above, the high-water callback is scheduled "
  "once with the resulting amount; it is not scheduled while output stays on the same side of the mark.",
  [INP, HIS], "every sequence of sends and drains relative to the mark",
  "No test fills a socket buffer.",
  ["kanon/net/connection/connection_base.cc"],
  [("crossing test", "ConnectionBase::SendInLoop")])
p("P38", "A loop iteration dispatches every ready channel and pending function until quit",
  "Each iteration polls, delivers events to every channel the poll returned, then runs the functions queued so far; the loop keeps "
  "iterating until quit is requested and then returns, running functions that were already queued by then.",
  [HIS], "every set of ready channels and queued functions per iteration",
  "Tests have one or two ready descriptors at a time.",
  ["kanon/net/event_loop.cc"],
  [("loop body", "EventLoop::StartLoop")])
p("P39", "Data delivered end to end over the network is what was sent",
  "Every byte sent by a peer over a healthy connection is received by the other side's message callback within bounded time.",
  [SCH, FLT], "every network and kernel behaviour",
  "Depends on kernel and network state.",
  ["kanon/net"], [("whole stack", "TcpServer, TcpClient")])
p("P40", "Number formatting and parsing round-trip",
  "Formatting any integer or floating-point value in the log stream and string utilities yields text that parses back to the value.",
  [INP], "every value",
  "Tests sample a few values.",
  ["kanon/string/lexical_stream.h"], [("conversion loops", "lexical_stream, fmt")])
p("P41", "List algorithms sort and splice correctly",
  "The intrusive forward list and its algorithms keep exactly the given elements, in the order the operation defines.",
  [INP], "every list content",
  "Tests sample a few lists.",
  ["kanon/algo/forward_list.h"], [("node relinking", "forward list")])
p("P42", "Memory pools never hand out overlapping blocks",
  "Blocks handed out by the memory pools and not yet returned never overlap, are large enough and suitably aligned.",
  [HIS], "every sequence of allocations and releases",
  "Depends on runtime addresses.",
  ["kanon/mem"], [("free lists", "FixedChunkMemoryPool, LinearMemoryPool")])

NA = {
    "P39": "quantifies over kernel and network behaviour and time; the parts that the source decides are P05, P06, P07 and P13",
    "P40": "functional correctness of digit loops over all numeric values is a value-level fact no sound static abstraction in reach decides",
    "P41": "functional correctness of relinking (a heap-shape and ordering fact over unbounded lists) needs shape analysis or proof, not in reach",
    "P42": "non-overlap of blocks quantifies over runtime addresses and histories of an allocator; no static argument in reach bounds them",
}

sys.path.insert(0, os.path.join(V, "lib"))
from registry import PROPS, TECH, LEVELNOTE, DEFAULT_NOTE


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as fp:
        for d in P:
            fp.write(json.dumps(d) + "\n")
    checks, na = [], []
    for d in P:
        i = d["id"]
        if i in PROPS:
            checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                           "thorough_cmd": "python3 check.py %s --thorough" % i,
                           "technique": TECH.get(i, "dataflow / typestate analysis over the type-checked program"),
                           "level": "other", "level_note": LEVELNOTE.get(i, DEFAULT_NOTE)})
        else:
            na.append({"property": i, "reason": NA.get(i, "no static check for it has been built yet")})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
         "notes": "All checks read /repo's current sources through a clang front end built by setup.sh; nothing of /repo is executed."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as fp:
        json.dump(m, fp, indent=1)
        fp.write("\n")


main()
