"""Lock rules: guarded-by (P02), callbacks / lock order (P04), waiting (P20),
release and owner tracking (P21), missed wakeups (P22)."""
from absint import *
from program import Broken
from drive import drive, all_roots, is_root

LOCK = ("kanon::MutexLock::Lock", "kanon::DummyMutexLock::Lock")
UNLOCK = ("kanon::MutexLock::Unlock", "kanon::DummyMutexLock::Unlock")
TRY = ("kanon::MutexLock::TryLock",)
WAIT = ("kanon::Condition::Wait",)
TWAIT = ("kanon::Condition::WaitForSeconds",)
NOTIFY = ("kanon::Condition::Notify", "kanon::Condition::NotifyAll")
MUTEXCLS = ("kanon::MutexLock", "kanon::DummyMutexLock")


def leaf(loc):
    """name of the innermost named part of a lock path"""
    while loc and loc[0] not in ('f', 'v', 'g'):
        loc = loc[1] if isinstance(loc[1], tuple) else ('g', str(loc[1]))
    return loc[2] if loc[0] in ('f', 'v') else loc[1]


class Held(Monitor):
    """the set of locks held on this path (most recent last)"""
    init = ()

    def event(self, ex, st, ev):
        if ev.kind == "call" and ev.q in LOCK:
            self.acquire(ex, st, ev)
            self.set(st, self.get(st) + (ev.obj,))
        elif ev.kind == "ret" and ev.q in TRY:
            a, b = st.copy(), st.copy()
            out = []
            if a.assume(truthv(ev.ret), True):
                self.acquire(ex, a, ev)
                self.set(a, self.get(a) + (ev.obj,))
                out.append(a)
            if b.assume(truthv(ev.ret), False):
                out.append(b)
            return out
        elif ev.kind == "call" and ev.q in UNLOCK:
            h = list(self.get(st))
            for i in range(len(h) - 1, -1, -1):
                if h[i] == ev.obj:
                    del h[i]
                    break
            else:
                self.bad_unlock(ex, st, ev)
            self.set(st, tuple(h))
        return None

    def acquire(self, ex, st, ev):
        pass

    def bad_unlock(self, ex, st, ev):
        pass


# ---------------------------------------------------------------- P02
# class -> (lock, fields it protects).  Fields are found by name; a class in
# which a name vanished falls back to the fields written under the lock.
GUARDS = {
    "kanon::EventLoop": ("lock_", ["functors_"]),
    "kanon::TcpClient": ("mutex_", ["conn_"]),
    "kanon::TcpServer": ("lock_conn_", ["connections_"]),
    "kanon::AsyncLog": ("mutex_", ["current_buffer_", "next_buffer_", "buffers_"]),
    "kanon::LogFile": ("lock_", ["file_", "log_files_", "last_roll_", "last_flush_", "start_of_period_"]),
    "kanon::CountDownLatch": ("mutex_", ["count_"]),
    "kanon::RWLock": ("mutex_", ["has_writer_", "reader_num_"]),
    "kanon::ThreadPool": ("mutex_", ["tasks_", "max_queue_size_"]),
    "kanon::EventLoopThread": ("mutex_", ["loop_"]),
}
# second lock of a class
GUARDS2 = {"kanon::LogFile": ("remove_mtx_", ["log_files_dup_", "quit_remove_thr_"])}
# documented "not thread-safe" accessors hand out the container on purpose
UNSAFE_API = {"kanon::TcpServer::ConnBegin", "kanon::TcpServer::ConnEnd"}


# written on the owning loop's thread only (under the lock): reads there need none
LOOP_READ = {"kanon::TcpClient::conn_": ("kanon::TcpClient::NewConnection", "kanon::TcpClient::CloseConnectionHandler")}


def loop_confined_read(fr, field):
    names = LOOP_READ.get(field, ())
    while fr is not None:
        if fr.f.q in names:
            return True
        fr = fr.parent
    return False


def guard_table(prog):
    tab, fallback = {}, {}
    for src in (GUARDS, GUARDS2):
        for cls, (lock, fields) in src.items():
            rec = prog.record(cls)
            names = {fl["n"].rsplit("::", 1)[-1]: fl for fl in rec["fields"]}
            if lock not in names:
                locks = [k for k, fl in names.items() if fl.get("c") in MUTEXCLS or "Mutex" in fl["t"]]
                if len(locks) != 1:
                    raise Broken("lock of %s not found" % cls)
                lock = locks[0]
            miss = [f for f in fields if f not in names]
            for f in fields:
                if f in names:
                    tab["%s::%s" % (cls, f)] = "%s::%s" % (cls, lock)
            if miss:
                fallback[cls] = "%s::%s" % (cls, lock)
    return tab, fallback


def fields_in(loc):
    """(base, field) pairs along a location path"""
    out = []
    while loc and loc[0] in ('f', 'i', 'copyof'):
        if loc[0] == 'f':
            out.append((loc[1], loc[2]))
        loc = loc[1]
    return out


def touched(ev):
    """locations an event reads or writes"""
    k = ev.kind
    if k in ("read", "write", "mutate"):
        return [(ev.loc, k)]
    if k == "call":
        out = []
        if ev.obj is not None and isinstance(ev.obj, tuple) and ev.obj and ev.obj[0] in ('f', 'i'):
            out.append((ev.obj, "call"))
        if ev.q.startswith("std::"):
            for a in ev.args or ():
                if a and a[0] == 'a':
                    out.append((a[1], "arg"))
        return out
    if k == "ctor" and (ev.fc or "").startswith("std::"):
        return [(a[1], "copy") for a in ev.args or () if a and a[0] == 'a']
    if k == "index":
        return [(ev.loc, "index")] if ev.loc else []
    return []


def private_object(fr, base):
    """an object this call tree itself creates or destroys"""
    r = root_of(base)
    if r[0] in ('v', 't', 'h'):
        return True
    p = fr
    while p is not None:
        if p.f.kind in ("ctor", "dtor") and p.this == base:
            return True
        p = p.parent
    return False


class GuardMon(Held):
    def __init__(self, prog, root, col, tab, infer=()):
        self.tab = tab
        self.col = col
        self.infer = infer

    def event(self, ex, st, ev):
        r = Held.event(self, ex, st, ev)
        held = self.get(st)
        for loc, how in touched(ev):
            for base, f in fields_in(loc):
                lk = self.tab.get(f)
                if lk is None:
                    if self.infer and how in ("write", "mutate"):
                        for cls, l in self.infer:
                            if f.startswith(cls + "::") and ('f', base, l) in held:
                                self.col.data.append((f, l))
                    continue
                if private_object(ev.fr, base):
                    continue
                if ev.fr.f.q in UNSAFE_API:
                    continue
                if how not in ("write", "mutate") and loop_confined_read(ev.fr, f):
                    continue
                self.col.ob("guarded-by")
                if ('f', base, lk) not in held:
                    ex.violate(Violation("guarded-by", "%s of %s without holding %s" % (
                        {"read": "read", "write": "write", "mutate": "write"}.get(how, "use"),
                        f.replace("kanon::", ""), lk.replace("kanon::", "")), ev,
                        key="guarded-by|%s|%s" % (f, ev.fr.f.q)))
        return r


class EndMon(Held):
    """a destructor that ends the threads using its object: until they have ended the lock is still needed"""
    init = ((), ())

    def __init__(self, prog, root, col, tab, ends):
        self.tab = tab
        self.col = col
        self.ends = ends

    def get(self, st):
        return st.mon[self.idx][0]

    def set(self, st, v):
        Monitor.set(self, st, (v, st.mon[self.idx][1]))

    def event(self, ex, st, ev):
        r = Held.event(self, ex, st, ev)
        pend = st.mon[self.idx][1]
        for loc, how in touched(ev):
            for base, f in fields_in(loc):
                lk = self.tab.get(f)
                if lk is None or root_of(base)[0] in ('v', 't', 'h') or ('f', base, lk) in self.get(st):
                    continue
                p = ev.fr
                while p is not None and not (p.f.kind == "dtor" and p.this == base):
                    p = p.parent
                if p is not None and len(pend) < 4 and not any(x[0] == f for x in pend):
                    pend += ((f, lk, ev),)
        if pend and self.ends_threads(ev):
            for f, lk, e in pend:
                ex.violate(Violation("guarded-by", "%s is used without holding %s before the threads that share it have ended" % (
                    f.replace("kanon::", ""), lk.replace("kanon::", "")), e, key="guarded-by|%s|%s|end" % (f, e.fr.f.q)))
            pend = ()
        if pend is not st.mon[self.idx][1]:
            Monitor.set(self, st, (self.get(st), pend))
        return r

    def ends_threads(self, ev):
        if ev.kind == "call" and ev.q in ("pthread_join", "kanon::Thread::Join"):
            return True
        if ev.kind == "call" and ev.q.rsplit("::", 1)[-1] in ("reset", "operator=", "clear") or ev.kind == "dtor":
            loc = ev.obj if ev.kind == "call" else ev.loc
            return bool(loc) and loc[0] == 'f' and loc[2] in self.ends
        return False


def thread_owners(prog):
    """fields whose destruction ends threads"""
    out = set()
    for r in (x for l in prog.records.values() for x in l):
        for fl in r["fields"]:
            t = fl["t"]
            if "*" not in t and ("EventLoopPool" in t or "EventLoopThread" in t):
                out.add(fl["n"])
    return out


def P02(prog, rep, tier):
    rep.rule("guarded-by", "every access to shared mutable state outside construction/destruction of "
             "its object holds that object's lock")
    tab, fb = guard_table(prog)
    roots = all_roots(prog)
    # field accessed by address through a private helper: analysed inlined
    if fb:
        data = drive(prog, roots, lambda p, f, c: [GuardMon(p, f, c, {}, list(fb.items()))])
        for f, l in set(data):
            tab[f] = l
    drive(prog, roots, lambda p, f, c: [GuardMon(p, f, c, tab)], rep)
    ends = thread_owners(prog)
    drive(prog, [f for f in roots if f.kind == "dtor"], lambda p, f, c: [EndMon(p, f, c, tab, ends)], rep)
    rep.need("guarded-by", 30)
    rep.notes.append({"guard_table": tab})
    # GUARDED_BY annotations in the headers are documentation only: the table above is wider


# ---------------------------------------------------------------- P04
class CbMon(Held):
    def __init__(self, prog, root, col):
        self.col = col

    def event(self, ex, st, ev):
        r = Held.event(self, ex, st, ev)
        if ev.kind == "callback":
            self.col.ob("no-callback-under-lock")
            h = self.get(st)
            if h:
                ex.violate(Violation("no-callback-under-lock", "a caller-supplied function runs while %s is held" %
                                     ", ".join(leaf(x) for x in h), ev))
        if ev.kind == "call" and ev.q in ("pthread_join", "kanon::Thread::Join"):
            h = self.get(st)
            if h:
                ex.violate(Violation("no-join-under-lock", "joins a thread while %s is held" %
                                     ", ".join(leaf(x) for x in h), ev))
        return r

    def acquire(self, ex, st, ev):
        h = self.get(st)
        self.col.ob("no-relock")
        if ev.obj in h:
            ex.violate(Violation("no-relock", "%s is acquired while this path already holds it" % leaf(ev.obj), ev))
        for x in h:
            if x != ev.obj:
                self.col.data.append((leaf(x), leaf(ev.obj), ev.where(), ev.fr.f.q, tuple(ev.fr.stack())))


def P04(prog, rep, tier):
    rep.rule("no-callback-under-lock", "no caller-supplied function is invoked on a path that holds an internal lock")
    rep.rule("no-relock", "no path acquires a (non-recursive) lock it already holds")
    rep.rule("lock-order", "the relation 'acquired while holding' over all locks has no cycle")
    rep.rule("no-join-under-lock", "no thread is joined on a path that holds a lock")
    data = drive(prog, all_roots(prog), lambda p, f, c: [CbMon(p, f, c)], rep)
    edges = {}
    for a, b, w, fn, stack in data:
        edges.setdefault(a, {}).setdefault(b, (w, fn, stack))
    rep.ob("lock-order", max(1, sum(len(v) for v in edges.values())))
    rep.notes.append({"lock_order_edges": sorted("%s -> %s" % (a, b) for a in edges for b in edges[a])})

    def reach(a, b, seen):
        for c in edges.get(a, {}):
            if c == b:
                return True
            if c not in seen:
                seen.add(c)
                if reach(c, b, seen):
                    return True
        return False
    for a in sorted(edges):
        for b in sorted(edges[a]):
            if b == a or reach(b, a, set()):
                w, fn, stack = edges[a][b]
                rep.violate("lock-order", fn, w, "%s acquired while holding %s closes a lock-order cycle" % (b, a), stack)
    rep.need("no-callback-under-lock", 10)
    rep.need("no-relock", 20)


# ---------------------------------------------------------------- P21
class ReleaseMon(Held):
    def __init__(self, prog, root, col):
        self.col = col
        self.root = root

    def acquire(self, ex, st, ev):
        self.col.ob("released-on-all-paths")

    def bad_unlock(self, ex, st, ev):
        # releasing what the caller acquired is the contract of Unlock-like members
        if not lock_api(self.root):
            ex.violate(Violation("balanced-unlock", "%s is released on a path that does not hold it" % leaf(ev.obj), ev))

    def finish(self, ex, f, out):
        if lock_api(f):
            return
        for ret, st in out:
            for h in self.get(st):
                ex.violate(Violation("released-on-all-paths", "%s is still held when the function returns" % leaf(h),
                                     None, Frame(f, 0, None, {}, None, None, 0), f.line))


def lock_api(f):
    """functions whose contract is to return holding / releasing a lock"""
    if f.cls.startswith("kanon::MutexGuard") and f.kind in ("ctor", "dtor"):
        return True
    if f.cls in MUTEXCLS:
        return True
    return False


def P21(prog, rep, tier):
    rep.rule("released-on-all-paths", "every lock acquired by a function is released again on every path out of it")
    rep.rule("balanced-unlock", "no path releases a lock it does not hold")
    rep.rule("guard-object", "a scoped guard acquires in its constructor and releases in its destructor, once each, "
             "the same lock")
    rep.rule("owner-tracking", "the recorded owner is set only while the mutex is held and cleared before it is released")
    drive(prog, all_roots(prog), lambda p, f, c: [ReleaseMon(p, f, c)], rep)
    guards(prog, rep)
    owner(prog, rep)
    rep.need("released-on-all-paths", 20)
    rep.need("guard-object", 4)
    rep.need("owner-tracking", 6)


class Seq(Monitor):
    """records the events a predicate selects"""
    init = ()

    def __init__(self, pick):
        self.pick = pick

    def event(self, ex, st, ev):
        r = self.pick(ex, st, ev)
        if r is not None:
            t = self.get(st)
            if len(t) < 40:
                self.set(st, t + (r,))


def guards(prog, rep):
    n = 0
    for f in sorted(prog.funcs.values(), key=lambda f: f.id):
        if not f.has_body or f.kind not in ("ctor", "dtor"):
            continue
        if f.cls not in ("kanon::MutexGuard", "kanon::MutexGuardT", "kanon::RLockGuard", "kanon::WLockGuard"):
            continue
        def pick(ex, st, ev):
            if ev.kind == "call" and ev.q.rsplit("::", 1)[-1] in (
                    "Lock", "Unlock", "TryLock", "RLock", "WLock", "RUnlock", "WUnlock") and ev.fr.depth == 0:
                return (ev.q.rsplit("::", 1)[-1], ev.obj, ev.line)
        ex = Exec(prog, [Seq(pick)])
        n += 1
        for ret, st in ex.run(f):
            rep.ob("guard-object")
            t = st.mon[0]
            want = {"kanon::RLockGuard": ("RLock", "RUnlock"), "kanon::WLockGuard": ("WLock", "WUnlock")}.get(
                f.cls, ("Lock", "Unlock"))[0 if f.kind == "ctor" else 1]
            if [x[0] for x in t] != [want]:
                rep.violate("guard-object", f.q, f.loc, "performs %s instead of exactly one %s" %
                            ([x[0] for x in t], want), [f.q])
            elif f.kind == "ctor":
                arg = ('p', ('s', 'nn', 'param', f.params[0]["n"]))
                if t[0][1] != arg:
                    rep.violate("guard-object", f.q, f.loc, "locks something other than the mutex it was given")
        rep.scope(f)
    if n < 6:
        raise Broken("guard classes not found")


def owner(prog, rep):
    rec = prog.record("kanon::MutexLock")
    ints = [fl["n"] for fl in rec["fields"] if fl["t"] in ("int", "pid_t", "unsigned int", "long") or "atomic" in fl["t"]]
    if len(ints) != 1:
        raise Broken("owner field of MutexLock not found")
    H = ints[0]
    if "::" not in H:
        H = "kanon::MutexLock::" + H
    this = ('p', ('s', 'nn', 'this'))
    hl = ('f', this, H)

    def pick(ex, st, ev):
        if ev.kind == "write" and ev.loc == hl:
            return ("own", ev.val != C(0), ev.line)
        if ev.kind == "ret" and ev.q in ("pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock",
                                         "pthread_cond_wait", "pthread_cond_timedwait"):
            return (ev.q, True, ev.line)

    def run(q, check, base=None):
        fs = prog.need(q)
        for f in fs:
            ex = Exec(prog, [Seq(pick)])
            ex.primitives = True
            outs = ex.run(f)
            if not outs:
                raise Broken("%s has no exit" % q)
            for ret, st in outs:
                rep.ob("owner-tracking")
                msg = check([x[:2] for x in st.mon[0]], ret, st)
                if msg:
                    rep.violate("owner-tracking", f.q, f.loc, msg, [f.q])
            rep.scope(f)

    def c_lock(t, ret, st):
        if t != [("pthread_mutex_lock", True), ("own", True)]:
            return "must acquire the mutex once and then record the owner, does %s" % show_seq(t)

    def c_unlock(t, ret, st):
        if t != [("own", False), ("pthread_mutex_unlock", True)]:
            return "must clear the owner and then release the mutex once, does %s" % show_seq(t)

    def c_try(t, ret, st):
        a = [x for x in t if x[0] == "pthread_mutex_trylock"]
        if len(a) != 1 or t[0][0] != "pthread_mutex_trylock":
            return "must try the mutex exactly once, before touching the owner"
        r = ret if ret is not None else C(0)
        may_t = st.copy().assume(truthv(r), True)
        may_f = st.copy().assume(truthv(r), False)
        owns = t[1:] and t[-1] == ("own", True)
        if may_t and not owns:
            return "reports success without recording the owner"
        if may_f and len(t) > 1:
            return "changes the owner although the mutex was not acquired"

    def c_ctor(t, ret, st):
        if ("own", True) in t or ("own", False) not in t:
            return "owner is not initialised to 'nobody'"
    run("kanon::MutexLock::Lock", c_lock)
    run("kanon::MutexLock::Unlock", c_unlock)
    run("kanon::MutexLock::TryLock", c_try)
    run("kanon::MutexLock::MutexLock", c_ctor)
    # waiting releases the mutex: owner cleared before, restored after
    for q, w in (("kanon::Condition::Wait", "pthread_cond_wait"), ("kanon::Condition::WaitForSeconds", "pthread_cond_timedwait")):
        for f in [x for x in prog.need(q)]:
            if q.endswith("Seconds") and not (f.params and f.params[0]["t"] == "double"):
                continue
            def pick2(ex, st, ev):
                if ev.kind == "write" and ev.loc and ev.loc[0] == 'f' and ev.loc[2] == H:
                    return ("own", ev.val != C(0))
                if ev.kind == "call" and ev.q in ("pthread_cond_wait", "pthread_cond_timedwait"):
                    return (ev.q, True)
            ex = Exec(prog, [Seq(pick2)])
            ex.primitives = True
            for ret, st in ex.run(f):
                rep.ob("owner-tracking")
                t = list(st.mon[0])
                if [("own", False), (w, True), ("own", True)] != t and t:
                    rep.violate("owner-tracking", f.q, f.loc, "waiting must clear the owner, wait, and restore it; does %s" % show_seq(t))
                elif not t and not q.endswith("Seconds"):
                    rep.violate("owner-tracking", f.q, f.loc, "returns without waiting")
            rep.scope(f)


def show_seq(t):
    return ", ".join("%s" % (("set owner" if x[1] else "clear owner") if x[0] == "own" else x[0]) for x in t) or "nothing"


# ---------------------------------------------------------------- P20
def cond_assoc(prog):
    """condition field -> mutex field of the same object, from the constructors"""
    out = {}

    class M(Monitor):
        def event(self, ex, st, ev):
            if ev.kind == "ctor" and ev.fc == "kanon::Condition" and ev.loc and ev.loc[0] == 'f' and ev.args:
                a = ev.args[0]
                if a[0] == 'a' and a[1][0] == 'f':
                    out[ev.loc[2]] = (a[1][2], a[1][1] == ev.loc[1], ev.where(), ev.fr.f.q)
    for cls, rs in sorted(prog.records.items()):
        if any(fl.get("c") == "kanon::Condition" for r in rs for fl in r["fields"]):
            for f in prog.funcs.values():
                if f.cls == cls and f.kind == "ctor" and f.has_body:
                    ex = Exec(prog, [M()])
                    ex.run(f)
    return out


class WaitMon(Held):
    """state: (held, pending) -- pending = wait whose predicate was not re-tested yet"""

    def __init__(self, prog, root, col, assoc):
        self.col = col
        self.assoc = assoc
        self.prog = prog

    # Held keeps a tuple of locks in mon; pending is kept as a second monitor
    def event(self, ex, st, ev):
        r = Held.event(self, ex, st, ev)
        if ev.kind == "call" and (ev.q in WAIT or ev.q in TWAIT) and ev.fr.f.cls != "kanon::Condition":
            timed = ev.q in TWAIT
            h = self.get(st)
            self.col.ob("wait-holds-its-mutex")
            obj = ev.obj
            m = self.assoc.get(obj[2]) if obj and obj[0] == 'f' else None
            if m is not None:
                want = ('f', obj[1], m[0])
                if want not in h:
                    ex.violate(Violation("wait-holds-its-mutex", "waits on %s without holding %s" %
                                         (leaf(obj), m[0].rsplit("::", 1)[-1]), ev))
                if [x for x in h if x != want]:
                    ex.violate(Violation("wait-holds-its-mutex", "sleeps on %s while holding another lock (%s)" %
                                         (leaf(obj), ", ".join(leaf(x) for x in h if x != want)), ev))
            elif not h:
                ex.violate(Violation("wait-holds-its-mutex", "waits without holding a lock", ev))
            if not timed:
                self.col.ob("predicate-loop")
                if not in_cycle(ev):
                    ex.violate(Violation("predicate-loop", "the wait is not inside a loop: a spurious or stolen wakeup "
                                         "is taken for the condition", ev))
        return r


def in_cycle(ev):
    """some call on the stack sits on a CFG cycle of its function"""
    fr, eid = ev.fr, ev.extra
    line = None
    while fr is not None:
        b = block_of(fr.f, eid)
        if b is not None and on_cycle(fr.f, b):
            return True
        # the call expression in the parent
        if fr.parent is None:
            return False
        c = fr.ctx
        eid = ctx_site(c)
        fr = fr.parent
    return False


def ctx_site(ctx):
    import absint
    return absint.ctx_eid(ctx)


def block_of(f, eid):
    for b in f.blocks.values():
        for e in b["e"]:
            if e == eid:
                return b["b"]
    return None


def on_cycle(f, b):
    todo, seen = [s for s in f.blocks[b]["s"] if s is not None], set()
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x in seen or x is None:
            continue
        seen.add(x)
        todo += [s for s in f.blocks[x]["s"] if s is not None]
    return False


class RetestMon(Monitor):
    """after a wait the shared predicate is read and branched on before the
    function leaves the critical section"""
    init = 0       # 0 nothing pending, 1 waited, 2 waited and re-read

    def __init__(self, col):
        self.col = col

    def event(self, ex, st, ev):
        s = self.get(st)
        if ev.kind == "ret" and ev.q in WAIT:
            self.col.ob("predicate-retested")
            self.set(st, (ev.where(), ev.fr.f.q, 0))
        elif s:
            if ev.kind in ("read",) or (ev.kind == "call" and ev.obj is not None and ev.q.startswith("std::")):
                self.set(st, (s[0], s[1], 1))
            elif ev.kind == "branch" and s[2]:
                self.set(st, 0)
            elif ev.kind == "call" and ev.q in UNLOCK:
                ex.violate(Violation("predicate-retested", "the critical section is left after a wait (%s) without "
                                     "testing the condition again" % s[0], ev, key="predicate-retested|" + s[1]))
                self.set(st, 0)


def P20(prog, rep, tier):
    rep.rule("wait-holds-its-mutex", "a wait holds the mutex its condition variable was built with, and no other lock")
    rep.rule("predicate-loop", "every untimed wait is inside a loop")
    rep.rule("predicate-retested", "after every untimed wait shared state is re-read and tested before the critical "
             "section is left")
    rep.rule("own-mutex", "a condition variable member is built with a mutex of the same object that is declared before it")
    assoc = cond_assoc(prog)
    for c, (m, same, w, fn) in sorted(assoc.items()):
        rep.ob("own-mutex")
        if not same:
            rep.violate("own-mutex", fn, w, "%s is built with a mutex of another object" % c)
            continue
        cls = c.rsplit("::", 1)[0]
        order = [fl["n"].rsplit("::", 1)[-1] for r in prog.records.get(cls, [])[:1] for fl in r["fields"]]
        cn, mn = c.rsplit("::", 1)[-1], m.rsplit("::", 1)[-1]
        if cn in order and mn in order and order.index(mn) > order.index(cn):
            rep.violate("own-mutex", fn, w, "%s is declared before the mutex %s it refers to" % (cn, mn))
    drive(prog, all_roots(prog), lambda p, f, c: [WaitMon(p, f, c, assoc), RetestMon(c)], rep)
    rep.need("predicate-loop", 6)
    rep.need("wait-holds-its-mutex", 6)
    rep.need("own-mutex", 6)


# ---------------------------------------------------------------- P22
def cls_fields(prog, cls):
    out = []
    for fl in prog.record(cls)["fields"]:
        if fl.get("c") in ("kanon::MutexLock", "kanon::Condition", "kanon::Thread"):
            continue
        out.append(fl)
    return out


def cur(ex, st, base, fl):
    return ex.load(st, ('f', base, fl["n"]), fl["t"])


def methods_of(prog, cls):
    out = []
    for f in prog.funcs.values():
        if f.has_body and (f.cls == cls or f.q.startswith(cls + "::")) and is_root(prog, f):
            out.append(f)
    return sorted(out, key=lambda f: f.id)


def abstract_pred(ex, st, base, fields, assoc):
    """what is known about the members of `base` when a thread goes to sleep,
    over the symbols ('cur', field): a conjunction of intervals"""
    sub = {}
    conj = []
    for fl in fields:
        v = cur(ex, st, base, fl)
        name = ('s', 'x', 'cur', fl["n"])
        if v[0] == 'c':
            conj.append((((name, 1),), (v[1], v[1], frozenset())))
            continue
        c, d = lin(v)
        if len(d) == 1 and list(d.values()) == [1]:
            sub[list(d)[0]] = (name, c)          # symbol = member - c
    whole = {}
    for fl in fields:
        c, d = lin(cur(ex, st, base, fl))
        if len(d) > 1:
            whole[tuple(sorted(d.items(), key=repr))] = (('s', 'x', 'cur', fl["n"]), c)
    for form, iv in st.facts.items():
        w = whole.get(tuple(sorted(form, key=repr)))
        if w:
            conj.append((((w[0], 1),), (iv[0] + w[1], iv[1] + w[1], frozenset(e + w[1] for e in iv[2]))))
            continue
        f2, ok, seen, shift = [], True, False, 0
        for s, k in form:
            if s in sub:
                f2.append((sub[s][0], k)); seen = True
                shift += k * sub[s][1]
            elif s[0] == 's' and len(s) > 3 and s[2] == 'size' and s[3] in sub:
                f2.append((('s', 'u', 'size', sub[s[3]][0]), k)); seen = True
            else:
                ok = False
        if ok and seen:
            if shift:
                iv = (iv[0] + shift, iv[1] + shift, frozenset(e + shift for e in iv[2]))
            if iv[0] == -INF and iv[1] == INF and not iv[2]:
                continue
            conj.append((tuple(sorted(f2, key=repr)), iv))
    return tuple(sorted(set(conj), key=repr))


def concrete(ex, st, base, fields, form):
    """the current value of an abstract form"""
    val = {fl["n"]: cur(ex, st, base, fl) for fl in fields}
    acc = C(0)
    for s, k in form:
        if s[2] == 'size':
            v = ('s', 'u', 'size', val[s[3][3]])
        else:
            v = val[s[3]]
        acc = add(acc, scale(v, k))
    return acc


def holds(ex, st, base, fields, conj):
    """True when the conjunction certainly still holds"""
    for form, (lo, hi, exc) in conj:
        v = concrete(ex, st, base, fields, form)
        c, d = lin(v)
        if not d:
            if not (lo <= c <= hi) or c in exc:
                return False
            continue
        l, h = st.interval(v)[:2]
        if not (l >= lo and h <= hi):
            return False
        for e in exc:
            if st.decide(cmpv('!=', v, C(e))) is not True:
                return False
    return True


def assume_conj(ex, st, base, fields, conj):
    for form, (lo, hi, exc) in conj:
        v = concrete(ex, st, base, fields, form)
        if lo != -INF and not st.assume(cmpv('>=', v, C(lo)), True):
            return False
        if hi != INF and not st.assume(cmpv('<=', v, C(hi)), True):
            return False
        for e in exc:
            if not st.assume(cmpv('!=', v, C(e)), True):
                return False
    return True


def clipped(c):
    """bounds that grow with every turn of a loop over an index end somewhere"""
    fm, (lo, hi, ex) = c
    return fm, (min(lo, 3) if lo > 3 else lo, max(hi, -3) if hi < -3 else hi, frozenset(e for e in ex if -3 <= e <= 3))


class PredMon(Monitor):
    """collects what is known when a thread falls asleep: at the first wait of
    a path (full knowledge) and at repeated waits (what the loop tests)"""
    init = (frozenset(), ())

    def __init__(self, fields, sink):
        self.fields = fields
        self.sink = sink

    def event(self, ex, st, ev):
        if ev.kind == "branch" and ev.fr.this is not None:
            # keeps apart paths that know different things about the members
            self.set(st, (self.get(st)[0], tuple(clipped(c) for c in abstract_pred(ex, st, ev.fr.this, self.fields, None))))
        if ev.kind == "call" and ev.q in WAIT and ev.obj and ev.obj[0] == 'f' and ev.fr.f.cls != "kanon::Condition":
            conj = abstract_pred(ex, st, ev.obj[1], self.fields, None)
            seen = self.get(st)[0]
            key = (ev.obj[2], ev.where())
            self.sink.add((ev.obj[2], conj, ev.where(), ev.fr.f.q, key in seen))
            self.set(st, (seen | {key}, ()))


class MissMon(Monitor):
    """state: 'n' nothing, 'y' notified in this critical section, 'o' owed"""
    init = ("n", 0, ())

    def __init__(self, cond, mutex, conj, still, fields, need_all, where):
        self.cond, self.mutex, self.conj, self.fields = cond, mutex, conj, fields
        self.still = still
        self.need_all = need_all
        self.where = where

    def base(self, loc, leafname):
        return loc[1] if loc and loc[0] == 'f' and loc[2] == leafname else None

    def event(self, ex, st, ev):
        if ev.kind == "branch" and self.get(st)[1]:
            n, b, k = self.get(st)
            self.set(st, (n, b, tuple(holds(ex, st, b, self.fields, c) for c in (self.conj,) + self.still)))
            return None
        if ev.kind != "call" and not (ev.kind == "ret" and ev.q in WAITS):
            return None
        n, b, k = self.get(st)
        if ev.q in LOCK:
            base = self.base(ev.obj, self.mutex)
            if base is not None:
                if not assume_conj(ex, st, base, self.fields, self.conj):
                    # nobody can be asleep here
                    self.set(st, ("free", base, ()))
                    return None
                self.set(st, ("n", base, ()))
        elif ev.q in NOTIFY:
            if self.base(ev.obj, self.cond) is not None:
                if self.need_all and not ev.q.endswith("All"):
                    return None
                self.set(st, ("y", b, k))
        elif ev.q in UNLOCK or (ev.q in WAITS and ev.kind == "call"):
            if ev.q in UNLOCK and self.base(ev.obj, self.mutex) is None:
                return None
            if ev.q in WAITS and not (ev.obj and ev.obj[0] == 'f' and b and ev.obj[1] == b):
                return None
            if n == "n" and b and not any(holds(ex, st, b, self.fields, c) for c in (self.conj,) + self.still):
                self.set(st, (("owed", ev.where()), b, k))
        elif ev.q in WAITS and ev.kind == "ret":
            if not (ev.obj and ev.obj[0] == 'f' and b and ev.obj[1] == b):
                return None
            if not assume_conj(ex, st, b, self.fields, self.conj):
                return []
            self.set(st, (n if isinstance(n, tuple) else "n", b, ()))
        return None

    def finish(self, ex, f, out):
        for ret, st in out:
            n = self.get(st)[0]
            if isinstance(n, tuple):
                ex.violate(Violation("no-missed-wakeup", "can end the condition threads wait for on %s (at %s) without "
                                     "waking %s" % (self.cond.rsplit("::", 1)[-1], self.where,
                                                    "all of them" if self.need_all else "one"),
                                     None, Frame(f, 0, None, {}, None, None, 0), f.line))


# conditions after which every waiter may proceed
def wants_all(cls, f):
    return cls == "kanon::CountDownLatch" or f.name in ("WUnlock", "~ThreadPool", "SetMaxQueueSize")


def local_to(prog, cls):
    """no_inline filter: only code of the class, its files' helpers and the lock guards are entered"""
    files = {f.file for f in prog.funcs.values() if f.cls == cls or f.q.startswith(cls + "::")}
    return lambda g: not (g.file in files or "Guard" in g.cls)


SYNC = ("kanon::CountDownLatch", "kanon::RWLock", "kanon::ThreadPool", "kanon::EventLoopThread", "kanon::LogFile")


def P22(prog, rep, tier):
    rep.rule("no-missed-wakeup", "for every condition a thread sleeps on: a critical section that can end it wakes a "
             "waiter (all waiters where all may proceed)")
    rep.rule("latch-contract", "waiting on a latch returns only with the count at or below zero; counting down lowers "
             "it by exactly one")
    rep.rule("rwlock-contract", "a reader enters only without a writer and is counted once; a writer enters only with "
             "no writer and no reader; leaving undoes exactly that")
    rep.rule("pool-contract", "a bounded queue: push adds exactly one task and only below capacity; a worker takes only "
             "from a non-empty queue, runs each task once and outlives the task; destruction joins every worker")
    assoc = cond_assoc(prog)
    for cls in SYNC:
        fields = cls_fields(prog, cls)
        local = local_to(prog, cls)
        sink = set()
        ms = methods_of(prog, cls)
        for f in ms:
            Exec(prog, [PredMon(fields, sink)], havoc_cb=False, no_inline=local).run(f)
        preds, again = {}, {}
        for cond, conj, w, fn, rep2 in sorted(sink, key=repr):
            if rep2:
                again.setdefault(w, set()).add(conj)
            else:
                preds.setdefault((cond, conj), (w, fn))
        if not preds:
            raise Broken("no wait found in %s" % cls)
        rep.notes.append({"class": cls, "sleep_conditions": [
            "%s: %s" % (c.rsplit("::", 1)[-1], " & ".join("%s in [%s,%s]%s" % (
                show(mk(0, dict(fm))), iv[0], iv[1], " minus %s" % sorted(iv[2]) if iv[2] else "") for fm, iv in conj))
            for (c, conj) in sorted(preds, key=repr)]})
        for (cond, conj), (w, fn) in sorted(preds.items(), key=repr):
            mutex = assoc.get(cond, (None,))[0]
            if mutex is None:
                raise Broken("no mutex known for %s" % cond)
            if not conj:
                rep.violate("no-missed-wakeup", fn, w, "sleeps on %s although no condition over the object's state was "
                            "tested" % cond)
                continue
            for f in ms:
                if f.kind == "ctor":
                    continue
                m = MissMon(cond, mutex, conj, tuple(sorted((x for x in again.get(w, ()) if x), key=repr)), fields, wants_all(cls, f), w)
                ex = Exec(prog, [m], havoc_cb=False, no_inline=local)
                out = ex.run(f)
                m.finish(ex, f, out)
                rep.ob("no-missed-wakeup")
                rep.scope(f)
                for v in ex.violations.values():
                    rep.take(v)
    latch(prog, rep)
    rwlock(prog, rep)
    pool(prog, rep)
    rep.need("no-missed-wakeup", 20)


THIS = ('p', ('s', 'nn', 'this'))


def role(prog, cls, name, pred):
    """member by name, else the only member satisfying pred"""
    r = prog.record(cls)
    for fl in r["fields"]:
        if fl["sn"] == name:
            return fl
    c = [fl for fl in r["fields"] if pred(fl)]
    if len(c) != 1:
        raise Broken("member %s of %s not found" % (name, cls))
    return c[0]


def at_unlock(prog, f, fields, havoc=False, setup=None, extra=None):
    """(ret, state, seq) at exit; values of members are as at exit"""
    mons = [extra] if extra else []
    ex = Exec(prog, mons, havoc_cb=havoc)
    return ex, ex.run(f, setup=setup)


class Writes(Monitor):
    """ordered (field, value) writes and selected calls on this-members"""
    init = ()

    def __init__(self, fields, calls=()):
        self.fields = set(fields)
        self.calls = calls

    def event(self, ex, st, ev):
        t = None
        if ev.kind == "write" and ev.loc[0] == 'f' and ev.loc[2] in self.fields:
            t = ("w", ev.loc[2], ev.val, ev.extra if isinstance(ev.extra, tuple) else None)
        elif ev.kind == "ret" and ev.q in WAITS:
            t = ("wait", ev.obj[2] if ev.obj and ev.obj[0] == 'f' else None, None, None)
        elif ev.kind == "callback":
            t = ("cb", ev.val, None, None)
        if t is not None and len(self.get(st)) < 30:
            self.set(st, self.get(st) + (t,))


def latch(prog, rep):
    cls = "kanon::CountDownLatch"
    cnt = role(prog, cls, "count_", lambda fl: fl["t"] in ("int", "unsigned int", "long"))
    loc = ('f', THIS, cnt["n"])
    init = ('s', 'x', 'init', loc)
    waits = [f for f in methods_of(prog, cls) if "Wait" in f.name]
    if len(waits) < 1:
        raise Broken("latch wait not found")
    for f in waits:
        ex, out = at_unlock(prog, f, [cnt])
        rep.scope(f)
        for ret, st in out:
            rep.ob("latch-contract")
            v = ex.load(st, loc, "int")
            if st.interval(v)[1] > 0:
                rep.violate("latch-contract", f.q, f.loc, "returns although the count may still be positive")
    for f in prog.need(cls + "::Countdown"):
        ex, out = at_unlock(prog, f, [cnt])
        rep.scope(f)
        for ret, st in out:
            rep.ob("latch-contract")
            v = ex.load(st, loc, "int")
            if add(v, init, -1) != C(-1):
                rep.violate("latch-contract", f.q, f.loc, "changes the count by something other than minus one")
    rep.need("latch-contract", 3)


def rwlock(prog, rep):
    cls = "kanon::RWLock"
    W = role(prog, cls, "has_writer_", lambda fl: fl["t"] == "bool")["n"]
    R = role(prog, cls, "reader_num_", lambda fl: fl["t"] in ("unsigned int", "unsigned long", "int"))["n"]
    lw, lr = ('f', THIS, W), ('f', THIS, R)

    class AtWrite(Monitor):
        init = ()

        def event(self, ex, st, ev):
            if ev.kind == "write" and ev.loc in (lw, lr):
                w = ex.load(st, lw, "bool")
                r = ex.load(st, lr, "unsigned int")
                if len(self.get(st)) < 4:
                    self.set(st, self.get(st) + ((ev.loc[2], ev.val, st.decide(truthv(w)), r),))

    def bad(f, msg):
        rep.violate("rwlock-contract", f.q, f.loc, msg)

    for name in ("RLock", "RUnlock", "WLock", "WUnlock"):
        for f in prog.need(cls + "::" + name):
            ex = Exec(prog, [AtWrite()], havoc_cb=False)
            out = ex.run(f)
            rep.scope(f)
            if not out:
                bad(f, "never returns")
            for ret, st in out:
                rep.ob("rwlock-contract")
                seq = st.mon[0]
                wr = list(seq)
                r, w = ex.load(st, lr, "unsigned int"), ex.load(st, lw, "bool")
                if name == "RLock":
                    if len(wr) != 1 or wr[0][0] != R:
                        bad(f, "does not count the reader exactly once")
                    elif st.decide(truthv(w)) is not False:
                        bad(f, "a reader may enter while a writer is present")
                    else:
                        d = add(wr[0][1], C(1), -1)
                        c, dd = lin(d)
                        if c != 0 or len(dd) != 1:
                            bad(f, "does not raise the reader count by exactly one")
                elif name == "RUnlock":
                    if len(wr) != 1 or wr[0][0] != R or add(wr[0][1], ('s', 'u', 'init', lr), -1) != C(-1):
                        bad(f, "does not lower the reader count by exactly one")
                elif name == "WUnlock":
                    if [x[0] for x in wr] != [W] or wr[0][1] != C(0):
                        bad(f, "does not clear the writer mark exactly once")
                else:
                    if [x[0] for x in wr] != [W] or wr[0][1] == C(0):
                        bad(f, "does not set the writer mark exactly once")
                    elif st.interval(r) [1] > 0:
                        bad(f, "a writer may enter while readers are present")
    # the mark may only be taken over when nobody holds it
    for f in prog.need(cls + "::WLock"):
        class Pre(Monitor):
            init = None

            def event(self, ex, st, ev):
                # value of the mark just before it is written
                if ev.kind == "branch" or ev.kind == "ret":
                    self.set(st, st.decide(truthv(ex.load(st, lw, "bool"))))
                if ev.kind == "write" and ev.loc == lw:
                    if self.get(st) is not False:
                        ex.violate(Violation("rwlock-contract", "a writer may enter although another writer is present", ev))
        ex = Exec(prog, [Pre()], havoc_cb=False)
        ex.run(f)
        rep.ob("rwlock-contract")
        for v in ex.violations.values():
            rep.take(v)


def pool(prog, rep):
    cls = "kanon::ThreadPool"
    q = role(prog, cls, "tasks_", lambda fl: fl.get("c") in ("std::queue", "std::deque", "std::list"))
    mx = role(prog, cls, "max_queue_size_", lambda fl: fl["t"] == "int")
    lq, lm = ('f', THIS, q["n"]), ('f', THIS, mx["n"])

    def bad(f, msg, where=None):
        rep.violate("pool-contract", f.q, where or f.loc, msg)

    class QMon(Monitor):
        init = (0, 0, 0)          # pushed, popped, fronts

        def event(self, ex, st, ev):
            a, b, c = self.get(st)
            if ev.kind == "write" and ev.loc == lq and isinstance(ev.extra, tuple) and ev.extra[0] == "cont":
                if ev.extra[1] in ("push", "emplace", "push_back", "emplace_back", "push_front", "emplace_front"):
                    self.set(st, (min(a + 1, 3), b, c))
                elif ev.extra[1] in ("pop", "pop_front", "pop_back"):
                    self.set(st, (a, min(b + 1, 3), c))
            if ev.kind == "call" and ev.obj == lq and ev.q.rsplit("::", 1)[-1] in ("emplace", "push", "push_back", "emplace_back"):
                sz = ('s', 'u', 'size', ex.load(st, lq))
                m = ex.load(st, lm, "int")
                if st.decide(cmpv('<', sz, m)) is not True:
                    ex.violate(Violation("pool-contract", "adds a task although the queue may be at capacity", ev))
            if ev.kind == "call" and ev.obj == lq and ev.q.rsplit("::", 1)[-1] in ("front", "pop", "pop_front", "back"):
                sz = ('s', 'u', 'size', ex.load(st, lq))
                if ev.q.endswith("front"):
                    self.set(st, (a, b, min(c + 1, 3)))
                if st.interval(sz)[0] < 1 and 0 not in st.excluded(sz):
                    ex.violate(Violation("pool-contract", "takes a task although the queue may be empty", ev))
    for f in prog.need(cls + "::Push"):
        ex = Exec(prog, [QMon()], havoc_cb=False)
        out = ex.run(f)
        rep.scope(f)
        n = 0
        for ret, st in out:
            rep.ob("pool-contract")
            a, b, c = st.mon[0]
            if a > 1 or b:
                bad(f, "does not queue the task exactly once")
            n += a == 1
            if a == 0:
                # only an empty task may be ignored
                tv = ('f',)
                p = [s for s in st.facts if any(contains(x, lambda y: isinstance(y, tuple) and len(y) > 3 and y[:3] == ('s', 'nn', 'param'))
                                                for x, _ in s)]
                if not p:
                    bad(f, "can return without queueing the task")
        if not n:
            bad(f, "never queues the task")
        for v in ex.violations.values():
            rep.take(v)
    # workers: every function of the class that removes tasks
    takers = 0
    for f in sorted(prog.funcs.values(), key=lambda f: f.id):
        if f.cls == cls and f.has_body and f.kind == "fn" and f.name == "Pop":
            ex = Exec(prog, [QMon()], havoc_cb=False)
            for ret, st in ex.run(f):
                rep.ob("pool-contract")
                a, b, c = st.mon[0]
                if (b, c) not in ((0, 0), (1, 1)):
                    bad(f, "does not take and remove exactly one task")
            for v in ex.violations.values():
                rep.take(v)
            takers += 1
    # worker body: a lambda of the class that takes tasks
    workers = 0

    class Run(Monitor):
        init = (0, None)     # a task was taken and not run yet; its value

        def event(self, ex, st, ev):
            taken, val = self.get(st)
            if ev.kind == "call" and ev.obj and ev.obj[0] == 'f' and ev.obj[2] == q["n"] and \
                    ev.q.rsplit("::", 1)[-1] in ("front", "back"):
                el = ('p', ('s', 'nn', 'elem', ev.q.rsplit("::", 1)[-1], ex.load(st, ev.obj), ()))
                self.set(st, (taken, ex.load(st, el)))
            elif ev.kind == "write" and ev.loc[0] == 'f' and ev.loc[2] == q["n"] and isinstance(ev.extra, tuple) and \
                    ev.extra[0] == "cont" and ev.extra[1].startswith("pop"):
                if taken:
                    ex.violate(Violation("pool-contract", "takes another task before running the one it has", ev))
                self.set(st, (1, val))
            elif ev.kind == "callback":
                if not taken:
                    ex.violate(Violation("pool-contract", "runs a task a second time", ev))
                self.set(st, (0, None))
    for f in sorted(prog.funcs.values(), key=lambda f: f.id):
        if f.has_body and f.q.startswith(cls + "::") and f.parent:
            ex = Exec(prog, [Run()], havoc_cb=True)
            out = ex.run(f)
            cyc = False
            if ex.stats["calls"] == 0:
                continue
            workers += 1
            rep.scope(f)
            rep.ob("pool-contract")
            for ret, st in out:
                taken, val = st.mon[0]
                if taken and not (val is not None and st.decide(truthv(val)) is False):
                    # the queue was left with a task that nobody runs: allowed only for an empty one
                    bad(f, "a taken task may never be run")
            for v in ex.violations.values():
                rep.take(v)
            # it must come back for more: some callback site lies on a cycle
            cb = [b["b"] for b in f.blocks.values() for e in b["e"] if isinstance(e, int) and f.x[e].get("k") == "call"
                  and f.x[e].get("q", "").endswith("std::function::operator()")]
            if cb and not any(on_cycle(f, b) for b in cb):
                bad(f, "a worker exits after its first task")
    if not workers:
        raise Broken("no worker function found in ThreadPool")
    # destruction joins every worker
    for f in prog.need(cls + "::~ThreadPool"):
        joins = [(b["b"]) for b in f.blocks.values() for e in b["e"] if isinstance(e, int)
                 and f.x[e].get("k") == "call" and f.x[e].get("q") == "kanon::Thread::Join"]
        rep.ob("pool-contract")
        class J(Monitor):
            init = 0
            def event(self, ex, st, ev):
                if ev.kind == "call" and ev.q == "kanon::Thread::Join":
                    self.set(st, 1)
                    ex.cyc = in_cycle(ev) or getattr(ex, "cyc", False)
        ex = Exec(prog, [J()], havoc_cb=False)
        ex.cyc = False
        ex.run(f)
        if not ex.cyc:
            bad(f, "does not join the workers")
    rep.need("pool-contract", 6)
