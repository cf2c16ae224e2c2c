"""P16, P17: threads, threads that run a loop, and the pool of them."""
from absint import *
from program import Broken
from drive import drive, is_root
from rules_lock import THIS, Held
from rules_loop import Rec, Each, fn, field_of_type, nolog, LF
from rules_poll import const, split
from rules_conn2 import loc_of, value_fn, chain

THR = "kanon::Thread"
ELT = "kanon::EventLoopThread"
POOL = "kanon::EventLoopPool"
SRV = "kanon::TcpServer"
NEW, RUN, OVER = "unstarted", "running", "ended"
SMALL = ("bool", "int", "unsigned int", "unsigned char", "std::atomic<bool>", "size_t", "unsigned long", "short", "unsigned short")


def quiet(f):
    return nolog(f)


def flags(prog, cls, enums=True):
    """members whose values are followed as constants"""
    out = []
    for fl in prog.record(cls)["fields"]:
        t = fl["t"].replace("const ", "")
        if t in SMALL or "enum" in fl.get("c", "") or t.rsplit("::", 1)[-1].startswith(("State", "Status")):
            out.append(fl["n"])
    return out


def here(st, ex, base, names):
    return tuple((n, const(st, ex.load(st, ('f', base, n)))) for n in names)


# ---------------------------------------------------------------- Thread
class ThreadMon(Rec):
    """one Thread object: what its members say against what was done to the
    thread it started (ghost): every started thread is joined or detached once"""
    FIELDS = (("pre", None), ("g", None), ("g2", None), ("made", 0), ("gone", 0), ("ends", 0), ("func", None))
    STATES = ()

    def other(self):
        for p in self.root.params:
            if p["c"] == THR or "Thread" in p["t"]:
                return ('p', ('s', 'nn', 'param', p["n"]))
        return None

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        if k == "root":
            o = self.other()
            out = []
            if self.root.kind == "ctor":
                mine = ((None, NEW),)
            else:
                mine = self.STATES
            for a in mine:
                if not self.root.kind == "ctor" and not self.allowed(a[1]):
                    continue
                for b in (self.STATES if o else ((None, None),)):
                    mem = {}
                    if a[0]:
                        mem.update({('f', THIS, n): C(v) for n, v in a[0]})
                    if b[0]:
                        mem.update({('f', o, n): C(v) for n, v in b[0]})
                    out += split(st, self, [({"pre": (a, b), "g": a[1], "g2": b[1]}, mem)])
            return out
        if k == "call" and q == "pthread_create":
            self.col.ob("thread-made-once")
            if self.g(st, "made") or self.g(st, "g") != NEW:
                self.bad(ex, "thread-made-once", "a second thread is made for one start", ev)
            if ev.args[0] != ('a', ('f', THIS, self.id)):
                self.bad(ex, "thread-made-once", "the thread's identity is not kept for joining it", ev)
            if len(ev.args) > 3 and ev.args[3] not in (THIS, ('s', 'nn', 'this'), ('a', THIS)):
                if loc_of(ev.args[3]) != THIS:
                    self.bad(ex, "runs-function", "the new thread is not given its object", ev)
            if not self.entry_ok(ev.args[2]):
                self.bad(ex, "runs-function", "the new thread runs something other than the entry of Thread", ev)
            if self.root.params and "function" in self.root.params[0]["t"]:
                self.col.ob("runs-function")
                v = ex.load(st, ('f', THIS, self.func))
                if not contains(v, lambda y: y == ('s', 'nn', 'param', self.root.params[0]["n"])):
                    self.bad(ex, "runs-function", "the thread is started before the given function is stored", ev)
            self.s(st, made=1)
        if k == "ret" and q == "pthread_create":
            a, b = st.copy(), st.copy()
            self.s(a, g=RUN)
            return [s for s, ok in ((a, a.assume(cmpv('==', ev.ret, C(0)), True)), (b, b.assume(cmpv('==', ev.ret, C(0)), False))) if ok]
        if k == "call" and q in ("pthread_join", "pthread_detach"):
            self.col.ob("ended-once")
            n = self.g(st, "ends")
            src = self.g(st, "pre")[0][1]
            if self.g(st, "g") != RUN or n:
                self.bad(ex, "ended-once", "a thread that was not started, or was joined or detached before, is %s" % (
                    "joined" if q.endswith("join") else "detached"), ev)
            v = ev.args[0]
            mine = v == ('s', 'u', 'init', ('f', THIS, self.id)) or v == ex.load(st, ('f', THIS, self.id), "unsigned long") and self.g(st, "made")
            if not mine:
                self.bad(ex, "ended-once", "another thread than its own is joined or detached", ev)
            self.s(st, g=OVER, ends=1)

    def entry_ok(self, v):
        i = v[1] if v[0] == 'fn' else None
        f = self.p.funcs.get(i)
        return f is not None and f.id in self.entries

    def allowed(self, g):
        """the contract of the entry: a thread is started once and joined once"""
        n = self.root.name
        if self.starts:
            return g == NEW
        if self.joins:
            return g == RUN
        return True

    def finish(self, ex, f, out):
        o = self.other()
        for ret, st in out:
            a, b = self.g(st, "pre")
            g = self.g(st, "g")
            mine = here(st, ex, THIS, self.names)
            if f.kind == "dtor":
                self.col.ob("ended-once")
                if a[1] == RUN and g == RUN:
                    self.bad(ex, "ended-once", "a thread that was started is neither joined nor detached when its object dies")
                continue
            if self.starts:
                self.col.ob("thread-made-once")
                if not self.g(st, "made"):
                    self.bad(ex, "thread-made-once", "starting makes no thread")
            if self.joins and g == RUN:
                self.bad(ex, "ended-once", "joining does not join")
            if o is not None:
                theirs = here(st, ex, o, self.names)
                src = ('s', 'u', 'init', ('f', o, self.id))
                idv = ex.load(st, ('f', THIS, self.id), "unsigned long")
                take = b[1]
                selfmove = None
                if f.kind != "ctor" and a[1] == RUN and g == RUN:
                    # only assignment to itself keeps what it had
                    if idv != ('s', 'u', 'init', ('f', THIS, self.id)):
                        self.bad(ex, "ended-once", "assigning over a started thread forgets it: it is never joined or detached")
                    selfmove = True
                if selfmove or f.kind != "ctor" and idv == ('s', 'u', 'init', ('f', THIS, self.id)) and mine == a[0]:
                    self.emit(st, mine, g)
                    continue
                if take == RUN and idv != src:
                    self.bad(ex, "ended-once", "moving a thread loses its identity")
                self.emit(st, mine, take)
                self.emit(st, theirs, NEW if take in (RUN,) else take)
                continue
            self.emit(st, mine, g)

    def emit(self, st, vals, g):
        if any(v is None for _, v in vals):
            vals = tuple((n, v) for n, v in vals if v is not None)
        self.col.data.append(("state", vals, g))


class EntryMon(Rec):
    FIELDS = (("n", 0),)

    def event(self, ex, st, ev):
        if ev.kind == "callback" and ev.val is not None and ev.loc is not None and ev.loc[0] == 'f' and ev.loc[2] == self.func:
            if not contains(ev.loc, lambda y: isinstance(y, tuple) and len(y) == 4 and y[0] == 's' and y[2] == 'param'):
                self.bad(ex, "runs-function", "the function of another object is run", ev)
            self.s(st, n=min(2, self.g(st, "n") + 1))

    def finish(self, ex, f, out):
        for ret, st in out:
            self.col.ob("runs-function")
            if self.g(st, "n") != 1:
                self.bad(ex, "runs-function", "the thread ends without running its function exactly once")


def reaches_call(prog, f, names, seen=None):
    seen = set() if seen is None else seen
    if f.id in seen:
        return False
    seen.add(f.id)
    for n in f.x or ():
        if n.get("k") == "call":
            if n.get("q") in names:
                return True
            g = prog.funcs.get(n.get("f"))
            if g is not None and g.cls == f.cls and reaches_call(prog, g, names, seen):
                return True
    return False


def threads(prog, rep):
    names = flags(prog, THR)
    ident = [fl["n"] for fl in prog.record(THR)["fields"] if fl["t"].endswith("ThreadId") or fl["t"] in ("unsigned long", "pthread_t", "uint64_t")]
    names = [n for n in names if n not in ident]
    func = field_of_type(prog, THR, lambda fl: "function" in fl["t"] or fl["c"] == "std::function", "the function")
    if len(ident) != 1 or not names:
        raise Broken("members of Thread not recognised")
    roots = [f for f in prog.funcs.values() if f.cls == THR and f.has_body and not f.parent and
             (f.kind in ("ctor", "dtor") or not f.d.get("static")) and is_root(prog, f)]
    entries = set()
    for f in prog.funcs.values():
        if f.cls == THR and f.has_body:
            for n in f.x or ():
                if n.get("k") == "fref" and n.get("f") in prog.funcs and not prog.funcs[n["f"]].cls or \
                        n.get("k") == "fref" and n.get("f") in prog.funcs and prog.funcs[n["f"]].d.get("static"):
                    g = prog.funcs[n["f"]]
                    if g.has_body and len(g.params) == 1 and "void *" in g.params[0]["t"]:
                        entries.add(g.id)
    if not entries:
        raise Broken("entry function of Thread not found")
    state, done = set(), set()
    for rnd in range(6):
        before = frozenset(state)
        order = sorted(state, key=repr)

        def mk(p, f, c):
            m = ThreadMon(p, f, c)
            m.STATES, m.names, m.id, m.func, m.entries = tuple(order), names, ident[0], func, entries
            m.starts = reaches_call(p, f, ("pthread_create",))
            m.joins = f.kind == "fn" and reaches_call(p, f, ("pthread_join",))
            return [m]
        use = [f for f in roots if f.kind == "ctor" and not any("Thread &&" in p["t"] for p in f.params)] if rnd == 0 else roots
        for d in drive(prog, use, mk, rep if rnd else None, no_inline=quiet):
            state.add((d[1], d[2]))
        if frozenset(state) == before:
            break
    else:
        raise Broken("states of Thread do not converge")
    drive(prog, [prog.funcs[i] for i in sorted(entries)], lambda p, f, c: [setattr_(EntryMon(p, f, c), func=func)], rep, no_inline=quiet)
    if not any(g == RUN for _, g in state) or not any(g == OVER for _, g in state):
        raise Broken("no path starts or joins a thread")
    return roots


def setattr_(m, **kw):
    for k, v in kw.items():
        setattr(m, k, v)
    return m


# ---------------------------------------------------------------- EventLoopThread
class Body(Held):
    """what the thread does: state = (held locks, record)"""
    init = ((), (False, False, False, False))        # published, notified, ran, cleared

    def __init__(self, prog, root, col, loopf):
        self.p, self.root, self.col, self.loopf = prog, root, col, loopf

    def get(self, st):
        return st.mon[self.idx][0]

    def set(self, st, v):
        Monitor.set(self, st, (v, st.mon[self.idx][1]))

    def r(self, st):
        return st.mon[self.idx][1]

    def w(self, st, **kw):
        n = ("pub", "note", "ran", "clear")
        t = list(self.r(st))
        for k, v in kw.items():
            t[n.index(k)] = v
        Monitor.set(self, st, (self.get(st), tuple(t)))

    def bad(self, ex, rule, msg, ev=None):
        if ev is None:
            from rules_conn2 import exit_frame
            ex.violate(Violation(rule, msg, None, exit_frame(self.root), self.root.line))
        else:
            ex.violate(Violation(rule, msg, ev))

    def held(self, st, ev):
        return any(l[0] == 'f' and l[1] == THIS for l in self.get(st))

    def event(self, ex, st, ev):
        r = Held.event(self, ex, st, ev)
        if r is not None:
            return r
        k, q = ev.kind, ev.q or ""
        L = ('f', THIS, self.loopf)
        pub, note, ran, clear = self.r(st)
        if k == "write" and ev.loc == L:
            v = ev.val
            self.col.ob("published")
            if not self.held(st, ev):
                self.bad(ex, "published", "the loop is published or withdrawn without the lock", ev)
            if v == C(0):
                self.w(st, clear=True)
            elif v is not None and v[0] == 'a' and v[1][0] in ('v', 'h'):
                if ran:
                    self.bad(ex, "withdrawn", "the loop is published after it ended", ev)
                self.w(st, pub=v[1], clear=False)
            else:
                self.bad(ex, "published", "something other than the loop of this thread is published", ev)
        if k == "call" and q in ("kanon::Condition::Notify", "kanon::Condition::NotifyAll") and ev.obj and ev.obj[1] == THIS:
            if pub:
                self.w(st, note=True)
        if k == "call" and q == "kanon::EventLoop::StartLoop":
            self.col.ob("published")
            if not pub:
                self.bad(ex, "published", "the loop runs before it is published: the starter waits for as long as it runs", ev)
            elif ev.obj != pub:
                self.bad(ex, "published", "another loop than the published one is run", ev)
            elif not note:
                self.bad(ex, "published", "the starter is not told that the loop exists", ev)
            if ran:
                self.bad(ex, "published", "the loop is run twice", ev)
            if self.get(st):
                self.bad(ex, "published", "the loop runs with the lock held", ev)
            self.w(st, ran=True)
        if k == "callback" and pub and ev.loc is not None and ev.loc[0] == 'p' and \
                contains(ev.loc, lambda y: isinstance(y, tuple) and len(y) == 4 and y[2] == 'param'):
            self.bad(ex, "published", "the caller's function is used after the starter may have returned", ev)
        if k in ("dtor", "delete") and pub and ev.loc == pub:
            self.col.ob("withdrawn")
            if ex.load(st, L, "kanon::EventLoop *") != C(0):
                self.bad(ex, "withdrawn", "the loop is destroyed while it is still published", ev)
            if not ran:
                self.bad(ex, "published", "the loop is destroyed without having run", ev)

    def finish(self, ex, f, out):
        for ret, st in out:
            self.col.ob("published")
            pub, note, ran, clear = self.r(st)
            if not pub or not note:
                self.bad(ex, "published", "the thread ends without publishing its loop: the starter waits for ever")
            elif not ran:
                self.bad(ex, "published", "the loop never runs")
            if pub and not clear:
                self.bad(ex, "withdrawn", "the loop stays published after it ended")


class Starter(Body):
    """StartRun: starts the thread once, returns what it read after it was told"""
    init = ((), (0, False, False, False))       # started, read-with-lock, -, -

    def event(self, ex, st, ev):
        r = Held.event(self, ex, st, ev)
        if r is not None:
            return r
        k, q = ev.kind, ev.q or ""
        L = ('f', THIS, self.loopf)
        if k == "root":
            for n, v in self.initial:
                st.mem[('f', THIS, n)] = C(v)
        if k == "write" and ev.loc[0] == 'f' and ev.loc[1] == THIS and ev.loc[2] in self.own:
            d = dict(self.r(st)[3] or ())
            d[ev.loc[2]] = const(st, ev.val)
            self.w(st, clear=tuple(sorted(d.items(), key=repr)))
        if k == "ret" and q.startswith("kanon::Condition::Wait"):
            for n, v in self.r(st)[3] or ():          # nobody else writes them
                if v is not None:
                    st.mem[('f', THIS, n)] = C(v)
        if k == "call" and q == THR + "::StartRun":
            self.col.ob("start-handshake")
            if self.r(st)[0]:
                self.bad(ex, "start-handshake", "the thread is started twice", ev)
            if self.get(st):
                self.bad(ex, "start-handshake", "the thread is started with the lock held", ev)
            self.w(st, pub=1)
        if k == "read" and ev.loc == L:
            self.w(st, note=self.held(st, ev))
            if not self.held(st, ev):
                self.bad(ex, "start-handshake", "the loop is read without the lock", ev)
        if k == "write" and ev.loc == L:
            self.bad(ex, "start-handshake", "the starter itself writes the published loop", ev)

    def finish(self, ex, f, out):
        L = ('f', THIS, self.loopf)
        for ret, st in out:
            self.col.ob("start-handshake")
            if not self.r(st)[0]:
                self.bad(ex, "start-handshake", "no thread is started")
            if ret is None or ret != ex.load(st, L, "kanon::EventLoop *") and not contains(ret, lambda y: y == self.loopf or y == L):
                self.bad(ex, "start-handshake", "something other than the published loop is returned")
                continue
            ok = st.interval(ret)[0] > 0 or st.decide(truthv(ret)) is True
            for n in self.told:
                if const(st, ex.load(st, ('f', THIS, n), "bool")) == 1:
                    ok = True
            if not ok:
                self.bad(ex, "start-handshake", "returns although the loop may not exist yet")
            self.col.data.append(("state", here(st, ex, THIS, self.names)))


class Ender(Body):
    """the destructor, for an object that was started and for one that was not"""
    init = ((), (None, False, 0, False))       # started?, quit, joined, loop known ended

    def event(self, ex, st, ev):
        r = Held.event(self, ex, st, ev)
        if r is not None:
            return r
        k, q = ev.kind, ev.q or ""
        L = ('f', THIS, self.loopf)
        if k == "root":
            out = []
            for on, vals in self.conf:
                for up in ((False, True) if on else (False,)):
                    s = st.copy()
                    for n, v in vals:
                        if v is not None:
                            s.mem[('f', THIS, n)] = C(v)
                    if not on:
                        s.mem[L] = C(0)
                    else:
                        s.assume(cmpv('==', ex.load(s, L, "kanon::EventLoop *"), C(0)), not up)
                    self.w(s, pub=("up" if up else "down") if on else "new")
                    out.append(s)
            return out
        if k in ("call", "ret") and q == "kanon::EventLoop::Quit" and k == "call":
            self.col.ob("loop-pointer")
            if not self.held(st, ev):
                self.bad(ex, "loop-pointer", "the loop is told to quit without the lock: it may have ended", ev)
            if self.r(st)[2]:
                self.bad(ex, "ends", "the thread is waited for before its loop is told to quit", ev)
            self.w(st, note=True)
        if k == "call" and q == THR + "::Join":
            self.col.ob("ends")
            how = self.r(st)[0]
            if self.r(st)[2]:
                self.bad(ex, "ends", "the thread is joined twice", ev)
            if how == "new":
                self.bad(ex, "ends", "a thread that was never started is joined", ev)
            if how == "up" and not self.r(st)[1]:
                self.bad(ex, "ends", "the thread is waited for and its running loop is not told to quit", ev)
            if self.get(st):
                self.bad(ex, "ends", "the thread is joined with the lock its end needs", ev)
            self.w(st, ran=1)

    def finish(self, ex, f, out):
        for ret, st in out:
            self.col.ob("ends")
            how, quit, joined, _ = self.r(st)
            if how != "new" and not joined:
                self.bad(ex, "ends", "the object dies while its thread still uses it")


class LoopUse(Held):
    def __init__(self, prog, root, col, loopf):
        self.p, self.root, self.col, self.loopf = prog, root, col, loopf

    def event(self, ex, st, ev):
        r = Held.event(self, ex, st, ev)
        if r is not None:
            return r
        if ev.kind == "call" and ev.obj is not None and (ev.q or "").startswith("kanon::EventLoop::"):
            L = ('f', THIS, self.loopf)
            if contains(ev.obj, lambda y: y == L or y == self.loopf):
                self.col.ob("loop-pointer")
                if not any(l[0] == 'f' and l[1] == THIS for l in self.get(st)):
                    ex.violate(Violation("loop-pointer", "the published loop is used without the lock: it may have ended", ev))


def loop_threads(prog, rep):
    loopf = field_of_type(prog, ELT, lambda fl: fl["t"].replace("class ", "") in ("kanon::EventLoop *", "EventLoop *"), "the published loop")
    names = flags(prog, ELT)
    meth = [f for f in prog.funcs.values() if (f.cls == ELT or f.q.startswith(ELT + "::")) and f.has_body]
    starter = [f for f in meth if f.kind == "fn" and not f.parent and any(n.get("k") == "call" and n.get("q") == THR + "::StartRun" for n in f.x)]
    if len(starter) != 1:
        raise Broken("function that starts the loop thread not found")
    OPQ = {"kanon::EventLoop::EventLoop", "kanon::EventLoop::~EventLoop", "kanon::EventLoop::StartLoop", "kanon::EventLoop::Quit",
           THR + "::StartRun", THR + "::Join", THR + "::~Thread", THR + "::Thread"}
    kw = {"opaque_fn": OPQ, "no_inline": quiet}
    # the function the thread runs
    class Find(Rec):
        def event(self, ex, st, ev):
            if ev.kind == "call" and ev.q in (THR + "::StartRun", THR + "::Thread"):
                for a in ev.args:
                    i = value_fn(st, a)
                    if i is not None:
                        self.col.data.append((i, bound_this(ex, st, a)))
    got = set(drive(prog, starter, lambda p, f, c: [Find(p, f, c)], None, **kw))
    if len(got) != 1:
        raise Broken("the function the loop thread runs is not known")
    body, mine = got.pop()
    rep.rule("start-handshake", "the starter returns the loop it read under the lock after it was told that it exists")
    if not mine:
        rep.violate("start-handshake", starter[0].q, starter[0].loc, "the thread runs with another object than the one started")
    bf = prog.funcs[body]
    drive(prog, [bf], lambda p, f, c: [Body(p, f, c, loopf)], rep, **kw)
    # flags that only the thread raises, after the loop is published
    told, own = raised_by(prog, bf, starter[0], meth, names, loopf, kw)

    class Init(Rec):
        def finish(self, ex, f, out):
            for ret, st in out:
                self.col.data.append(here(st, ex, THIS, names))
                if const(st, ex.load(st, ('f', THIS, loopf))) != 0:
                    self.bad(ex, "start-handshake", "a new object already has a loop")
                for n in told:
                    if const(st, ex.load(st, ('f', THIS, n))) != 0:
                        self.bad(ex, "start-handshake", "a new object already says that its loop exists")
    ctors = [f for f in meth if f.kind == "ctor"]
    init = set(drive(prog, ctors, lambda p, f, c: [Init(p, f, c)], rep, **kw))
    if len(init) != 1:
        raise Broken("initial state of EventLoopThread not known")
    init = init.pop()

    def mk(p, f, c):
        m = Starter(p, f, c, loopf)
        m.initial = [(n, v) for n, v in init if v is not None] + [(loopf, 0)]
        m.names, m.told, m.own = names, told, own
        return [m]
    after = {d[1] for d in drive(prog, starter, mk, rep, **kw)}
    conf = [(False, init)] + [(True, tuple((n, 1 if n in told else v) for n, v in a)) for a in sorted(after)]
    dt = [f for f in meth if f.kind == "dtor"]

    def mk2(p, f, c):
        m = Ender(p, f, c, loopf)
        m.conf = conf
        return [m]
    drive(prog, dt, mk2, rep, **kw)
    rest = [f for f in meth if is_root(prog, f) and f.kind == "fn" and f.id != body]
    drive(prog, rest, lambda p, f, c: [LoopUse(p, f, c, loopf)], rep, **kw)
    return starter + [bf] + dt


def bound_this(ex, st, a):
    hit = []

    def look(y):
        if y == THIS or y == ('s', 'nn', 'this') or y == ('a', THIS):
            hit.append(y)
        return False
    contains(a, look)
    if a[0] == 'a':
        for l, v in st.mem.items():
            if contains(l, lambda y: y == a[1]):
                contains(v, look)
    return bool(hit)


def raised_by(prog, bf, starter, meth, names, loopf, kw):
    """flags set to true only by the thread, with the loop already published"""
    class W(Rec):
        FIELDS = (("pub", False),)

        def event(self, ex, st, ev):
            if ev.kind == "write" and ev.loc[0] == 'f' and ev.loc[1] == THIS:
                if ev.loc[2] == loopf and ev.val is not None and ev.val[0] == 'a':
                    self.s(st, pub=True)
                if ev.loc[2] in names:
                    v = const(st, ev.val) if ev.val is not None else None
                    who = starter.id if any(x.f.id == starter.id for x in chain(ev.fr)) else self.root.id
                    self.col.data.append((who, ev.loc[2], v, "pub" if self.g(st, "pub") else "before"))
            if self.root.id == bf.id and ev.kind == "call" and ev.q in ("kanon::MutexLock::Unlock",) and not self.g(st, "pub"):
                for n in names:
                    if const(st, ex.load(st, ('f', THIS, n))) == 1:
                        self.col.data.append((self.root.id, n, 1, "early"))
    data = drive(prog, [f for f in meth if f.kind != "ctor" and (is_root(prog, f) and not (f.parent and prog._called.get(f.id)) or f.id == bf.id)], lambda p, f, c: [W(p, f, c)], None, **kw)
    out = []
    for n in names:
        w = [d for d in data if d[1] == n]
        up = [d for d in w if d[2] != 0]
        if up and all(d[0] == bf.id and d[2] == 1 and d[3] != "early" for d in up) and not [d for d in w if d[2] == 0]:
            out.append(n)
    own = [n for n in names if not [d for d in data if d[1] == n and d[0] != starter.id]]
    return out, own


def P17(prog, rep, tier):
    rep.rule("thread-made-once", "starting makes exactly one thread and keeps its identity")
    rep.rule("runs-function", "the new thread runs the given function exactly once")
    rep.rule("ended-once", "a started thread is joined or detached exactly once, also across moves")
    rep.rule("published", "the thread publishes its loop under the lock and tells the starter, then runs it")
    rep.rule("withdrawn", "the loop is withdrawn under the lock before it is destroyed")
    rep.rule("ends", "the destructor tells a running loop to quit and joins the thread")
    rep.rule("loop-pointer", "the published loop is used with the lock held only")
    a = threads(prog, rep)
    b = loop_threads(prog, rep)
    for f in a + b:
        rep.scope(f)
    for r, n in (("thread-made-once", 2), ("runs-function", 2), ("ended-once", 4), ("published", 3), ("withdrawn", 1), ("ends", 3),
                 ("start-handshake", 2), ("loop-pointer", 1)):
        rep.need(r, n)


# ---------------------------------------------------------------- EventLoopPool
class Step(Rec):
    """one call on a pool whose members are known: collects the new values"""
    FIELDS = (("got", None), ("val", None))

    def event(self, ex, st, ev):
        if ev.kind == "ret" and ev.q == LF + "AbortNotInThread":
            return []
        if ev.kind == "ret" and ev.q == ELT + "::GetLoop":
            self.s(st, got=which(st, ev.obj, self.n), val=ev.ret)

    def finish(self, ex, f, out):
        base = ('s', 'u', 'init', ('f', THIS, self.base))
        for ret, st in out:
            r = None
            if ret is not None:
                r = "base" if ret == base else self.g(st, "got") if ret == self.g(st, "val") else "?"
            self.col.data.append(("out", here(st, ex, THIS, self.names), r))


def which(st, obj, n):
    """index of the element of the pool's vector an object is"""
    hit = []

    def look(y):
        if isinstance(y, tuple) and len(y) > 5 and y[:3] == ('s', 'nn', 'elem'):
            if y[3] in ("operator[]", "at"):
                hit.append(const(st, y[5][0]))
            elif y[3] == "front":
                hit.append(0)
            elif y[3] == "back":
                hit.append(n - 1)
        return False
    contains(obj, look)
    return hit[0] if hit else None


class PoolStart(Each):
    """starting a pool of n: n threads, each started once with the given function"""
    FIELDS = Each.FIELDS + (("new", 0), ("in", 0), ("cur", False), ("set", frozenset()), ("all", 0), ("seen", False))
    RULE = "threads-started"

    def is_box(self, ex, st, loc):
        return loc == ('f', THIS, self.vec)

    def is_action(self, ex, st, ev):
        return self.g(st, "on") and ev.kind == "call" and ev.q == ELT + "::StartRun" and which(st, ev.obj, self.g(st, "in")) is None and \
            self.g(st, "new") == self.g(st, "in")

    def new_element(self, ex, st):
        self.s(st, seen=True)

    def ended(self, ex, st):
        Each.ended(self, ex, st)
        if self.g(st, "all") or not self.g(st, "seen"):      # none seen: only possible for an empty pool
            self.s(st, set=frozenset(range(self.g(st, "in"))))
        self.s(st, all=0, seen=False)

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        if k == "ret" and q == LF + "AbortNotInThread":
            return []
        if k == "root":
            for n, v in self.pre:
                if v is not None:
                    st.mem[('f', THIS, n)] = C(v)
            st.assume(cmpv('==', ('s', 'u', 'size', ('s', 'x', 'init', ('f', THIS, self.vec))), C(0)), True)
        if k == "ctor" and q == ELT + "::EventLoopThread" or k == "call" and q in ("std::make_unique", "kanon::make_unique") and \
                "EventLoopThread" in repr(ev.node.get("t", "")):
            if self.g(st, "new") > self.g(st, "in"):
                self.bad(ex, self.RULE, "a thread is made and not kept in the pool", ev)
            self.s(st, new=min(self.g(st, "in") + 1, self.n + 2))
        if k == "write" and ev.loc == ('f', THIS, self.vec) and isinstance(ev.extra, tuple) and ev.extra[0] == "cont":
            if ev.extra[1] in ("emplace_back", "push_back"):
                i = self.g(st, "in")
                self.col.ob(self.RULE)
                if i >= self.n:
                    self.bad(ex, self.RULE, "more threads are made than the pool was told", ev)
                    return []
                self.s(st, **{"in": i + 1, "new": i + 1, "set": self.g(st, "set") | ({i} if self.g(st, "cur") else set()), "cur": False})
                st.mem[ev.loc] = ('s', 'x', 'threads', i + 1)
                st.assume(cmpv('==', ('s', 'u', 'size', ex.load(st, ev.loc)), C(i + 1)), True)
            elif ev.extra[1] not in ("reserve", "shrink_to_fit"):
                self.bad(ex, self.RULE, "the pool's threads are changed in another way", ev)
        if k == "call" and q == ELT + "::StartRun":
            self.col.ob(self.RULE)
            a = ev.args[0] if ev.args else None
            if a is None or loc_of(a) != ('p', ('s', 'nn', 'param', self.cb)):
                self.bad(ex, self.RULE, "a thread of the pool is not given the function to run first", ev)
            i = which(st, ev.obj, self.g(st, "in"))
            if i is None and self.is_action(ex, st, ev):
                self.s(st, all=1)
            else:
                if i is None and self.g(st, "new") == self.g(st, "in"):
                    i = self.g(st, "in") - 1
                if i is None:
                    if self.g(st, "cur"):
                        self.bad(ex, self.RULE, "a thread is started twice", ev)
                    self.s(st, cur=True)
                else:
                    if i in self.g(st, "set") or not 0 <= i < self.g(st, "in"):
                        self.bad(ex, self.RULE, "a thread is started twice, or one beyond the pool is used", ev)
                    self.s(st, set=self.g(st, "set") | {i})
        self.each_event(ex, st, ev)

    def finish(self, ex, f, out):
        for ret, st in out:
            self.col.ob(self.RULE)
            if self.g(st, "in") != self.n:
                self.bad(ex, self.RULE, "a pool of %d threads gets %d" % (self.n, self.g(st, "in")))
            elif self.g(st, "set") != frozenset(range(self.n)):
                self.bad(ex, self.RULE, "not every thread of the pool is started")
            self.col.data.append(("out", here(st, ex, THIS, self.names), None))


class NewConn(Rec):
    """each accepted connection takes one loop of the pool and lives on it"""
    FIELDS = (("n", 0), ("loop", None), ("made", False))

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        if k == "ret" and q == LF + "AbortNotInThread":
            return []
        if k == "ret" and q == POOL + "::GetNextLoop":
            self.s(st, n=min(2, self.g(st, "n") + 1), loop=ev.ret)
        if k in ("ctor", "call") and (q == "kanon::TcpConnection::TcpConnection" or "NewTcpConnection" in q and ev.fr.f.id == self.root.id) and ev.args:
            self.col.ob("own-loop")
            self.s(st, made=True)
            if self.g(st, "n") and ev.args[0] != self.g(st, "loop"):
                self.bad(ex, "own-loop", "a connection is given another loop than the one taken from the pool", ev)

    def finish(self, ex, f, out):
        for ret, st in out:
            if self.g(st, "made"):
                self.col.ob("own-loop")
                if self.g(st, "n") != 1:
                    self.bad(ex, "own-loop", "an accepted connection takes %s loops from the pool" % (self.g(st, "n") or "no"))


class SrvStart(Rec):
    FIELDS = (("pool", False), ("tested", frozenset()), ("set", frozenset()))

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        if k == "branch":
            t = {n for n in self.names if 0 in (const(st, ('s', 'b', 'init', ('f', THIS, n))), const(st, ('s', 'x', 'init', ('f', THIS, n))))}
            self.s(st, tested=self.g(st, "tested") | t)
        if k == "write" and ev.loc[0] == 'f' and ev.loc[1] == THIS and ev.loc[2] in self.names:
            one = ev.val is not None and const(st, ev.val) == 1
            self.s(st, set=self.g(st, "set") | {ev.loc[2]} if one else self.g(st, "set") - {ev.loc[2]})
        if k == "call" and q == POOL + "::StartRun" and ev.fr.f.cls != POOL:
            self.s(st, pool=True)
        if k == "call" and q == "kanon::Acceptor::Listen":
            self.col.ob("pool-first")
            if not self.g(st, "pool"):
                self.bad(ex, "pool-first", "the server accepts connections before its pool is started", ev)

    def finish(self, ex, f, out):
        for ret, st in out:
            if not self.g(st, "pool"):
                continue
            self.col.ob("pool-once")
            if not self.g(st, "tested") & self.g(st, "set"):
                self.bad(ex, "pool-once", "nothing keeps a second start of the server from starting the pool again")


def P16(prog, rep, tier):
    from rules_conn2 import handed_functions
    rep.rule("threads-started", "a pool of n gets n threads, each started once with the given function")
    rep.rule("rotation", "the loops are handed out in rotation, each of an existing thread; without threads the base loop")
    rep.rule("own-loop", "an accepted connection takes one loop and lives on it")
    rep.rule("pool-first", "the server listens only after its pool was started")
    rep.rule("pool-once", "the server starts its pool once")
    names = flags(prog, POOL)
    vec = field_of_type(prog, POOL, lambda fl: fl["c"] in ("std::vector", "std::deque") and "EventLoopThread" in fl["t"], "the threads")
    base = field_of_type(prog, POOL, lambda fl: fl["t"] == "kanon::EventLoop *", "the base loop")
    OPQ = {ELT + "::StartRun", ELT + "::EventLoopThread", ELT + "::GetLoop", "kanon::make_unique"}
    kw = {"opaque_fn": OPQ, "no_inline": quiet}
    sizes = range(0, 9) if tier == "quick" else range(0, 17)

    def step(fs, pre, n, args=None, size=None):
        def setup(ex, st, fr):
            for a, v in pre:
                if v is not None:
                    st.mem[('f', THIS, a)] = C(v)
            if size is not None:
                st.assume(cmpv('==', ('s', 'u', 'size', ('s', 'x', 'init', ('f', THIS, vec))), C(size)), True)

        def mk(p, f, c):
            return [setattr_(Step(p, f, c), names=names, base=base, n=n)]
        return sorted({(d[1], d[2]) for d in drive(prog, fs, mk, None, setup=setup, args=args, **kw)}, key=repr)

    ctor = [f for f in prog.need(POOL + "::EventLoopPool") if f.kind == "ctor" and f.has_body]
    init = step(ctor, (), 0)
    if len(init) != 1 or any(v is None for _, v in init[0][0]):
        raise Broken("initial state of the pool is not known")
    setn, start, nxt = prog.need(POOL + "::SetLoopNum"), prog.need(POOL + "::StartRun"), prog.need(POOL + "::GetNextLoop")[0]
    start = [f for f in start if f.params]
    for n in sizes:
        s1 = step(setn, init[0][0], n, args=[C(n)])
        if len(s1) != 1:
            raise Broken("setting the size of the pool has no single result")

        def mk(p, f, c):
            return [setattr_(PoolStart(p, f, c), names=names, vec=vec, n=n, pre=s1[0][0], cb=f.params[0]["n"])]
        after = sorted({d[1] for d in drive(prog, start, mk, rep, **kw)}, key=repr)
        for s in after:
            seq = []
            cur = s
            for i in range(2 * n + 2):
                r = step([nxt], cur, n, size=n)
                if len(r) != 1:
                    seq.append("none" if not r else "several")
                    break
                rep.ob("rotation")
                cur = r[0][0]
                seq.append(r[0][1])
            if n == 0:
                ok = all(x == "base" for x in seq)
            else:
                ok = all(isinstance(x, int) and 0 <= x < n for x in seq) and all(b == (a + 1) % n for a, b in zip(seq, seq[1:]))
            if not ok:
                rep.violate("rotation", nxt.q, nxt.loc, "a pool of %d threads hands out %s" % (n, seq))
    rep.scope(nxt, *start)
    roots = []
    for i in sorted(handed_functions(prog, ("kanon::Acceptor::SetNewConnectionCallback",))):
        f = prog.funcs.get(i)
        if f is not None and f.has_body and f.q.startswith(SRV):
            roots.append(f)
    drive(prog, roots, lambda p, f, c: [NewConn(p, f, c)], rep, no_inline=quiet)
    sn = [fl["n"] for fl in prog.record(SRV)["fields"] if fl["t"] in ("bool", "std::atomic<bool>", "std::atomic_bool")]
    srv = [f for f in prog.funcs.values() if f.q.startswith(SRV + "::") and is_root(prog, f)]
    drive(prog, srv, lambda p, f, c: [setattr_(SrvStart(p, f, c), names=sn)], rep, no_inline=quiet,
          opaque_fn={POOL + "::StartRun", "kanon::Acceptor::Listen", POOL + "::GetNextLoop"})
    rep.scope(*roots)
    for r, k in (("threads-started", 20), ("rotation", 20), ("own-loop", 2), ("pool-first", 1), ("pool-once", 1)):
        rep.need(r, k)
