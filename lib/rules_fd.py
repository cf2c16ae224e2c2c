"""Descriptors: closed exactly once (P11), flags (P12), accepting (P19), connecting (P18)."""
from absint import *
from program import Broken
from drive import drive, is_root, all_roots
from rules_lock import leaf, THIS
from rules_conn import reaches, lambda_caps
from rules_conn2 import exit_frame, value_fn, loc_of, handed_functions, strip, callee_of, chain, LATER
from rules_loop import Rec, fn, field, field_of_type, nolog, symbols, LOOP, CH, LF

ACQ = {"socket", "accept", "accept4", "eventfd", "timerfd_create", "epoll_create", "epoll_create1", "open", "open64", "openat",
       "creat", "dup", "dup2", "dup3", "fopen", "fopen64", "fdopen", "signalfd", "inotify_init", "inotify_init1", "opendir",
       "popen", "mkstemp", "memfd_create"}
REL = {"close", "fclose", "closedir", "pclose"}
FILES = {"fopen", "fopen64", "fdopen", "opendir", "popen"}
CHFD = None
NEWCB = ("kanon::Acceptor::SetNewConnectionCallback", "kanon::Connector::SetNewConnectionCallback")
CONSUMER_CTORS = ("kanon::ConnectionBase", "kanon::TcpConnection", "kanon::UnixConnection")
FACTORY = "NewTcpConnection", "NewTcpConnectionRaw", "NewTcpConnectionShared", "NewUnixConnection", "allocate_shared", "make_shared"


def fd_quiet(f):
    return nolog(f) or f.q.startswith("kanon::TimeStamp") or f.q.startswith("kanon::InetAddr::") or f.q == "kanon::strerror_tl" or \
        f.q.startswith("kanon::sock::To") or f.name in FACTORY or f.q.startswith("kanon::Logger") or \
        f.q.startswith("kanon::FixedChunkMemoryPool") or f.q in LATER + ("kanon::EventLoop::CancelTimer",)


def touches(prog):
    """functions that directly obtain or release a descriptor"""
    out = set()
    for f in prog.funcs.values():
        if f.x and any(n.get("k") == "call" and n.get("q") in ACQ | REL for n in f.x):
            out.add(f.id)
    return out


def reach_set(prog, seeds, stop):
    """functions from which a seed is reachable through calls"""
    callers = {}
    for f in prog.funcs.values():
        for n in f.x or ():
            if n.get("k") in ("call", "ctor") and n.get("f"):
                callers.setdefault(n["f"], set()).add(f.id)
    seen, work = set(seeds), list(seeds)
    while work:
        i = work.pop()
        for c in callers.get(i, ()):
            if c not in seen and not stop(prog.funcs[c]):
                seen.add(c)
                work.append(c)
    return seen


class DtorScan(Rec):
    """which members a destructor closes"""
    FIELDS = (("closed", ()), ("n", 0))

    def event(self, ex, st, ev):
        if ev.kind == "call" and ev.q in REL and ev.args:
            v = ev.args[0]
            o = origin(self.p, v)
            # absent (null) descriptors need no closing
            self.s(st, closed=self.g(st, "closed") + ((o,) if o else ()))

    def finish(self, ex, f, out):
        exits = []
        for ret, st in out:
            exits.append((self.g(st, "closed"), tuple(sorted(
                o for o in null_members(self.p, f.cls, st)))))
        self.col.data.append((f.cls, exits))


def null_members(prog, cls, st):
    out = []
    for r in prog.records.get(cls, [])[:1]:
        for fl in r["fields"]:
            n = fl["n"] if "::" in fl["n"] else cls + "::" + fl["n"]
            for s in ('x', 'u', 'i', 'b', 'nn'):
                v = ('s', s, 'init', ('f', THIS, n))
                lo, hi = st.interval(v)
                if (lo, hi) == (0, 0) or hi < 0:
                    out.append(("direct", n))
                    break
    return out


def origin(prog, v):
    """the member a descriptor value was read from: ('direct', F) or ('channel', S)"""
    if not (isinstance(v, tuple) and v[0] == 's' and len(v) == 4 and v[2] == 'init'):
        return None
    l = v[3]
    if l[0] == 'f' and l[1] == THIS:
        return ("direct", l[2])
    if l[0] == 'f' and l[2] == CH + "::fd_" and l[1][0] == 'p':
        w = l[1][1]
        if w[0] == 's' and len(w) == 4 and w[2] == 'init' and w[3][0] == 'f' and w[3][1] == THIS:
            return ("channel", w[3][2])
        if w[0] == 'nn':
            w = w[1]
    if l[0] == 'f' and l[2] == CH + "::fd_" and l[1][0] == 'f' and l[1][1] == THIS:
        return ("channel", l[1][2])
    return None


def owners(prog, rep):
    """class -> {(kind, member)} closed exactly once on every path of its destructor"""
    dts = [f for f in prog.funcs.values() if f.kind == "dtor" and f.has_body and f.q.startswith("kanon::") and
           reaches(prog, f, REL)]
    data = drive(prog, dts, lambda p, f, c: [DtorScan(p, f, c)], None, no_inline=fd_quiet)
    t = {}
    for cls, exits in data:
        names = {o for cl, nu in exits for o in cl}
        ok = set()
        for o in names:
            if all(cl.count(o) == 1 or cl.count(o) == 0 and o in nu for cl, nu in exits):
                ok.add(o)
            rep.ob("owner-closes")
            if any(cl.count(o) > 1 for cl, nu in exits):
                rep.violate("owner-closes", cls + " destructor", cls, "the destructor closes %s twice" % o[1], "", cls + o[1])
        t.setdefault(cls, set()).update(ok)
    return t


class Fds(Rec):
    """what happens to each descriptor.  toks: value -> state
       open    obtained here, nobody else is responsible yet
       closed  closed
       given   handed to a callback or to an object that owns it
       own     held by a member of this object when the function began
    """
    FIELDS = (("toks", ()), ("skip", False))
    OWN = {}
    CHANFD = None

    def tk(self, st):
        return dict(self.g(st, "toks"))

    def put(self, st, v, s):
        d = self.tk(st)
        d[v] = s
        self.s(st, toks=tuple(sorted(d.items(), key=repr)))

    def drop(self, st, v):
        d = self.tk(st)
        d.pop(v, None)
        self.s(st, toks=tuple(sorted(d.items(), key=repr)))

    def none(self, st, v):
        """the value is known not to be a descriptor"""
        if v[0] == 'c':
            return v[1] is None or v[1] < 0 or v[1] == 0
        lo, hi = st.interval(v)
        if hi < 0 or (lo, hi) == (0, 0):
            return True
        d = st.decide(cmpv('<', v, C(0)))
        return d is True

    def values(self, st, args):
        for a in args:
            if not isinstance(a, tuple):
                continue
            yield a
            if a[0] == 'a' and a[1] in st.mem:
                yield st.mem[a[1]]

    # ---- where this root's own descriptor comes from
    def param_token(self, ex, st, fr):
        f = self.root
        if f.id not in self.handed and not (f.kind == "ctor" and any(f.q.startswith(c + "::") for c in CONSUMER_CTORS)):
            return
        for p in f.params:
            if p["t"].replace("const ", "").strip() in ("int", "FdType", "kanon::FdType"):
                v = st.mem.get(('v', fr.ctx, p["v"]))
                if v is not None:
                    self.put(st, v, "open")
                    st.assume(cmpv('<=', C(0), v), True)
                    return

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        if k == "root":
            self.param_token(ex, st, ev.fr)
            return
        if k == "ret" and q in ACQ and ev.ret is not None:
            d = self.tk(st)
            self.col.ob("closed-once")
            if d.get(ev.ret) == "open" and not self.none(st, ev.ret):
                self.bad(ex, "leaked", "a descriptor obtained in an earlier round of a loop is not closed", ev)
            self.put(st, ev.ret, "open")
            return
        if k == "branch" and self.g(st, "toks"):
            for v, s in self.g(st, "toks"):
                if s == "open" and self.none(st, v):
                    self.drop(st, v)
            return
        if k == "call" and q in REL and ev.args:
            v = ev.args[0]
            self.col.ob("closed-once")
            d = self.tk(st)
            s = d.get(v)
            if s == "closed":
                self.bad(ex, "closed-twice", "a descriptor is closed that was closed already", ev)
            elif s == "given":
                self.bad(ex, "closed-twice", "a descriptor is closed that was handed over to another owner", ev)
            elif s == "open":
                self.put(st, v, "closed")
            elif not self.none(st, v):
                o = origin(self.p, v)
                if o:
                    self.put(st, v, "closed")
                elif v[0] == 's' and len(v) > 2 and v[2] == 'param' or self.root.q == "kanon::sock::Close":
                    self.put(st, v, "closed")
                elif v[0] == 'c':
                    pass
                else:
                    self.put(st, v, "closed")
            return
        if k == "callback":
            for v in self.values(st, ev.args):
                s = self.tk(st).get(v)
                if s in ("closed", "given"):
                    self.bad(ex, "closed-twice", "a descriptor is handed over that was closed or handed over already", ev)
                elif s == "open":
                    self.col.ob("handed-once")
                    self.put(st, v, "given")
            return
        if k == "call" and q.rsplit("::", 1)[-1] in FACTORY and ev.fr.f.name not in FACTORY:
            self.take(ex, st, ev)
            return
        if k == "ctor" and any(q.startswith(c + "::") for c in CONSUMER_CTORS) and not self.consumer(self.root):
            self.take(ex, st, ev)
            return
        if k == "write" and isinstance(ev.loc, tuple) and ev.loc[0] == 'f':
            cls = ev.loc[2].rsplit("::", 1)[0]
            if ("direct", ev.loc[2]) in self.OWN.get(cls, ()):
                v = ev.val
                old = ('s', 'x', 'init', ev.loc)
                d = self.tk(st)
                if v is not None and v in d and cls == "kanon::Socket":
                    if d[v] == "open":
                        self.put(st, v, "given")
                    elif d[v] in ("closed", "given"):
                        self.bad(ex, "closed-twice", "a descriptor gets an owner that was closed or handed over already", ev)
                if ev.extra == "=" and ev.loc[1] == THIS and self.root.kind != "ctor":
                    old = ex.load(st, ev.loc) if ev.loc in st.mem else None
                    prev = self.prev(st, ev.loc)
                    if prev is not None and d.get(prev) not in ("closed", "given") and not self.none(st, prev) and prev != v:
                        self.bad(ex, "leaked", "the descriptor held by %s is overwritten without being closed" % leaf(ev.loc[2]), ev)
            return
        if k == "call" and q not in ACQ and "::" not in q and self.g(st, "toks"):
            d = self.tk(st)
            for a in ev.args:
                if isinstance(a, tuple) and d.get(a) == "closed" and not self.none(st, a) and a[0] != 'c':
                    self.bad(ex, "used-after-close", "a descriptor is used after it was closed", ev)

    def prev(self, st, loc):
        """value of the member before this write (the event comes before the store)"""
        v = st.mem.get(loc)
        return v

    def take(self, ex, st, ev):
        for v in self.values(st, ev.args):
            s = self.tk(st).get(v)
            if s in ("closed", "given"):
                self.bad(ex, "closed-twice", "a descriptor gets an owner that was closed or handed over already", ev)
            elif s == "open":
                self.col.ob("handed-once")
                self.put(st, v, "given")

    def in_owner(self, ex, st, v):
        """held by some object whose destructor closes it"""
        direct = {m for ms in self.OWN.values() for k, m in ms if k == "direct"}
        slots = {m for ms in self.OWN.values() for k, m in ms if k == "channel"}
        for l, x in st.mem.items():
            if x != v or l[0] != 'f':
                continue
            if l[2] in direct:
                return True
            if l[2] == self.CHANFD:
                ch = l[1]
                for l2, x2 in st.mem.items():
                    if l2[0] == 'f' and l2[2] in slots and isinstance(x2, tuple) and \
                            (loc_of(x2) == ch or ch[0] == 'p' and x2 == ch[1]):
                        return True
        return False

    def passes_channel(self, ex, st, ret, v):
        """the channel that stands for the descriptor is returned to the caller"""
        vals = [ret]
        if ret is not None and ret[0] == 'a':
            vals.append(st.mem.get(ret[1]))
        return any(isinstance(x, tuple) and st.mem.get(('f', loc_of(x), self.CHANFD)) == v for x in vals)

    def consumer(self, f):
        return f.kind == "ctor" and any(f.q.startswith(c + "::") for c in CONSUMER_CTORS)

    def held(self, ex, st, v, cls):
        """is v held by a member of this object that its destructor closes?"""
        for kind, m in self.OWN.get(cls, ()):
            l = ('f', THIS, m)
            if kind == "direct" and st.mem.get(l) == v:
                return True
            if kind == "channel":
                for l2 in (('f', l, self.CHANFD), ('f', loc_of(ex.load(st, l, "T *")), self.CHANFD)):
                    if st.mem.get(l2) == v:
                        return True
        return False

    def classes(self):
        f = self.root
        return [c for c in (f.cls, self.cls_of_lambda(f)) if c]

    def cls_of_lambda(self, f):
        while f is not None and f.parent:
            f = self.p.funcs.get(f.parent)
        return f.cls if f is not None else None

    def finish(self, ex, f, out):
        for ret, st in out:
            for v, s in self.g(st, "toks"):
                if s == "open" and not self.none(st, v):
                    if ret is not None and (ret == v):
                        continue
                    if any(self.held(ex, st, v, c) for c in self.classes()) or self.in_owner(ex, st, v):
                        continue
                    if self.passes_channel(ex, st, ret, v):
                        continue
                    self.bad(ex, "leaked", "a path neither closes the descriptor nor hands it over")
                elif s == "closed" and f.kind != "dtor":
                    o = origin(self.p, v)
                    if o and o[0] == "direct" and ex.load(st, ('f', THIS, o[1])) == v:
                        self.bad(ex, "closed-twice", "%s keeps a descriptor that was closed" % leaf(o[1]))
                    for c in self.classes():
                        if not o and self.held(ex, st, v, c):
                            self.bad(ex, "closed-twice", "a member keeps a descriptor that was closed")


CN = "kanon::Connector"


def conn_states(prog):
    return {n: prog.enumval[CN + "::State::" + n] if CN + "::State::" + n in prog.enumval else prog.enumval[CN + "::" + n]
            for n in ("kConnecting", "kConnected", "kDisconnected")}


def cn_fields(prog):
    t = getattr(prog, "_cn_fields", None)
    if t is None:
        t = prog._cn_fields = {"channel": field_of_type(prog, CN, lambda f: "Channel" in f["t"], "channel"),
                               "state": field_of_type(prog, CN, lambda f: f["t"].endswith("State"), "state"),
                               "connect": field_of_type(prog, CN, lambda f: f["t"].replace("_Bool", "bool") in ("bool", "std::atomic_bool",
                                                        "std::atomic<bool>"), "connect flag"),
                               "interval": field(prog, CN, "retry_interval_"),
                               "timer": field_of_type(prog, CN, lambda f: "Timer" in f["t"], "timer"),
                               "loop": field_of_type(prog, CN, lambda f: "EventLoop" in f["t"], "loop"),
                               "newcb": field_of_type(prog, CN, lambda f: "allback" in f["t"] or "function" in f["t"], "callback")}
    return t


CHP, FD0 = ('s', 'nn', 'channel0'), ('s', 'x', 'fd0')


def this_class(prog, f):
    while f is not None and f.parent:
        if not any(c.get("this") for c in lambda_caps(prog, f)):
            return None
        f = prog.funcs.get(f.parent)
    return f.cls if f is not None else None


def connector_conf(prog, states):
    """(monitor kw, memory) of the connector at the entry of an event or request"""
    F, S, CHF = cn_fields(prog), conn_states(prog), field(prog, CH, "fd_")
    out = []
    for n in states:
        mem = {('f', THIS, F["state"]): C(S[n])}
        if n == "kConnecting":
            mem[('f', THIS, F["channel"])] = CHP
            mem[('f', ('p', CHP), CHF)] = FD0
        else:
            mem[('f', THIS, F["channel"])] = C(0)
        out.append((n, mem))
    return out


class ConnectorFds(Fds):
    """the descriptor of an attempt belongs to the connector while its channel is set"""
    FIELDS = Fds.FIELDS + (("from_", None), ("cb", False), ("state", None))

    def event(self, ex, st, ev):
        if ev.kind == "root":
            Fds.event(self, ex, st, ev)
            r = []
            names = ("kDisconnected",) if self.root.kind == "ctor" else \
                ("kConnecting", "kConnected", "kDisconnected") if self.root.name != "Restrat" and \
                (self.p.funcs.get(self.root.parent).name if self.root.parent else "") != "Restrat" else ("kConnected", "kDisconnected")
            for n, mem in connector_conf(self.p, names):
                s = st.copy()
                if self.root.kind != "ctor":
                    s.mem.update(mem)
                self.s(s, from_=n)
                if n == "kConnecting":
                    self.put(s, FD0, "open")
                    s.assume(cmpv('<=', C(0), FD0), True)
                r.append(s)
            return r
        if ev.kind == "write" and ev.loc == ('f', THIS, cn_fields(self.p)["state"]):
            lo, hi = st.interval(ev.val)
            self.s(st, state=int(lo) if lo == hi else None)
        if ev.kind == "callback":
            # the callback may use the connector again
            self.agree(ex, st, ev)
            self.s(st, cb=True)
        return Fds.event(self, ex, st, ev)

    def agree(self, ex, st, ev=None):
        F, S = cn_fields(self.p), conn_states(self.p)
        self.col.ob("attempt-owns")
        ch = ex.load(st, ('f', THIS, F["channel"]), "T *")
        stt = ex.load(st, ('f', THIS, F["state"]))
        con = st.decide(cmpv('==', stt, C(S["kConnecting"])))
        has = False if st.interval(ch) == (0, 0) else True
        if con is None or con != has:
            self.bad(ex, "attempt-owns", "the connector's state and its channel disagree about an attempt in progress", ev)

    def finish(self, ex, f, out):
        Fds.finish(self, ex, f, out)
        F, S = cn_fields(self.p), conn_states(self.p)
        if f.kind == "dtor":
            return
        for ret, st in out:
            if self.passes_channel(ex, st, ret, FD0) or self.g(st, "cb"):
                continue
            self.agree(ex, st)


def fd_apart(f):
    """not looked into where it is called: a log file holds its own descriptor,
    its functions are looked at on their own"""
    return fd_quiet(f) or f.cls == "kanon::LogFile"


def fd_roots(prog):
    seeds = touches(prog)
    rs = reach_set(prog, seeds, lambda g: fd_quiet(g) or g.kind == "dtor" and False)
    handed = handed_functions(prog, NEWCB)
    out = {}
    for f in prog.funcs.values():
        if not f.has_body or not f.q.startswith("kanon::") or f.file.startswith("kanon/util/") or "/kanon/util/" in f.file:
            continue
        if f.id in handed or f.id in rs and f.cls == "kanon::LogFile" or (f.id in rs and is_root(prog, f) and not fd_quiet(f)) or \
                f.kind == "ctor" and any(f.q.startswith(c + "::") for c in CONSUMER_CTORS) or \
                this_class(prog, f) == CN and is_root(prog, f) and f.kind != "dtor":
            out[f.id] = f
    return list(out.values()), handed


def check_P11(prog, rep):
    CHF = field(prog, CH, "fd_")
    own = owners(prog, rep)
    own.setdefault(CN, set()).add(("channel", cn_fields(prog)["channel"]))
    roots, handed = fd_roots(prog)
    if len(handed) < 2:
        raise Broken("the functions that take over new connections were not found")

    def mk(p, f, c):
        m = (ConnectorFds if this_class(p, f) == CN else Fds)(p, f, c)
        m.OWN, m.CHANFD, m.handed = own, CHF, handed
        return [m]
    drive(prog, roots, mk, rep, no_inline=fd_apart)


# ---------------------------------------------------------------- P12
NONBLOCK, CLOEXEC = 0o4000, 0o2000000
FLAGARG = {"socket": 1, "accept4": 3, "eventfd": 1, "timerfd_create": 1, "epoll_create1": 0, "open": 1, "open64": 1, "openat": 2,
           "dup3": 2, "inotify_init1": 0, "signalfd": 2, "memfd_create": 1}
NOFLAGS = {"accept", "epoll_create", "creat", "dup", "dup2", "inotify_init", "mkstemp"}


def bits(v, m):
    """are the bits m set in v: True, False or None (not known)"""
    if not isinstance(v, tuple):
        return None
    if v[0] == 'c':
        return isinstance(v[1], int) and v[1] & m == m
    if v[0] == 's' and len(v) > 5 and v[2] == 'op' and v[3] in ('|', '|='):
        a, b = bits(v[4], m), bits(v[5], m)
        if a or b:
            return True
        return None if a is None or b is None else False
    if v[0] == 's' and len(v) > 5 and v[2] == 'op' and v[3] in ('&', '&='):
        a, b = bits(v[4], m), bits(v[5], m)
        if a is False or b is False:
            return False
        return True if a and b else None
    return None


class Flags(Rec):
    """which flags each descriptor has"""
    FIELDS = (("fl", ()),)

    def dead(self):
        f = self.root
        return f.q.startswith("kanon::sock::") and not self.p._called.get(f.id)

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        if k == "ret" and q in ACQ | NOFLAGS and ev.ret is not None:
            if self.dead():
                return
            self.col.ob("close-on-exec")
            nb = ce = False
            if q in FLAGARG:
                i = FLAGARG[q]
                a = ev.args[i] if i < len(ev.args) else C(0)
                ce = bits(a, 1 if q == "memfd_create" else CLOEXEC)
                nb = bits(a, NONBLOCK)
            elif q in ("fopen", "fopen64", "fdopen", "popen"):
                s = str_of(ev.args[1])
                ce = None if s is None else 'e' in s
            elif q == "opendir":
                ce = True
            if ce is not True:
                self.bad(ex, "close-on-exec", "a descriptor is opened without close-on-exec", ev)
            self.mark(st, ev.ret, nb is True)
        elif k == "call" and q == "fcntl" and len(ev.args) >= 3:
            cmd = st.interval(ev.args[1])
            if cmd == (4, 4):
                self.mark(st, ev.args[0], bits(ev.args[2], NONBLOCK) is True)
            elif cmd == (2, 2):
                self.col.ob("close-on-exec")
                if bits(ev.args[2], 1) is not True:
                    self.bad(ex, "close-on-exec", "close-on-exec is taken away from a descriptor", ev)
        elif k == "call" and q == "ioctl" and len(ev.args) >= 2 and st.interval(ev.args[1]) == (0x5421, 0x5421):
            v = st.mem.get(ev.args[2][1]) if ev.args[2][0] == 'a' else None
            self.mark(st, ev.args[0], v is not None and st.interval(v)[0] > 0)
        elif k == "ctor" and q == CH + "::Channel" and len(ev.args) >= 2:
            self.polled(ex, st, ev, ev.args[1])
        elif k == "callback":
            for a in ev.args:
                if a in dict(self.g(st, "fl")):
                    self.polled(ex, st, ev, a)
                elif a[0] == 'a' and st.mem.get(a[1]) in dict(self.g(st, "fl")):
                    self.polled(ex, st, ev, st.mem[a[1]])

    def polled(self, ex, st, ev, v):
        fl = dict(self.g(st, "fl"))
        lo, hi = st.interval(v)
        if hi < 0:
            return
        if v in fl:
            self.col.ob("non-blocking")
            if not fl[v]:
                self.bad(ex, "non-blocking", "a descriptor that a loop polls is in blocking mode", ev)

    def mark(self, st, v, nb):
        d = dict(self.g(st, "fl"))
        d[v] = nb
        self.s(st, fl=tuple(sorted(d.items(), key=repr)))


def str_of(v):
    if isinstance(v, tuple) and v[0] == 'a' and isinstance(v[1], tuple) and v[1][0] == 'str':
        return v[1][1]
    return None


def check_P12(prog, rep):
    roots, handed = fd_roots(prog)
    address = is_root(prog, roots[0])          # fills prog._called
    drive(prog, roots, lambda p, f, c: [Flags(p, f, c)], rep, no_inline=fd_apart)
    rep.need("non-blocking", 4)


# ---------------------------------------------------------------- P19
E_ = dict(EAGAIN=11, ECONNABORTED=103, EINTR=4, EMFILE=24, ENFILE=23, ENOBUFS=105, ENOMEM=12, EPERM=1, ENETDOWN=100, EPROTO=71,
          ENOPROTOOPT=92, EHOSTDOWN=112, ENONET=64, EHOSTUNREACH=113, EOPNOTSUPP=95, ENETUNREACH=101, ETIMEDOUT=110)


def fatal_log(prog, ev):
    if ev.kind == "ctor" and ev.q == "kanon::Logger::Logger":
        for n, v in prog.enumval.items():
            if n.endswith("FATAL") and n.startswith("kanon::Logger::"):
                if any(a == C(v) for a in ev.args[2:3]):
                    return True
    return False


class Accepting(Fds):
    FIELDS = Fds.FIELDS + (("case", None), ("second", None), ("log", ()), ("open", None))

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        if k == "call" and q in ("accept", "accept4") and self.g(st, "case") is not None:
            res = self.reserve(ex, st)
            # was the reserved descriptor given back before this second attempt?
            freed = self.tk(st).get(res) == "closed" or "res-closed" in self.g(st, "log")
            self.s(st, second="freed" if freed else "kept")
        if k == "call" and q in REL and ev.args:
            o = origin(self.p, ev.args[0])
            if o and o[0] == "direct" and o[1] == self.RES:
                self.s(st, log=tuple(sorted(set(self.g(st, "log")) | {"res-closed"})))
        Fds.event(self, ex, st, ev)
        case = self.g(st, "case")
        if k == "ret" and q in ("accept", "accept4"):
            if case is None:
                out = []
                for n, e in [("ok", None)] + sorted(E_.items()):
                    s = st.copy()
                    s.mon = st.mon
                    if e is None:
                        if not s.assume(cmpv('<=', C(0), ev.ret), True):
                            continue
                    else:
                        s.assume(cmpv('==', ev.ret, C(-1)), True)
                        s.mem[('g', 'errno')] = C(e)
                        self.drop(s, ev.ret)
                    self.s(s, case=n)
                    out.append(s)
                return out
            return
        if k == "ret" and q in ("open", "open64", "openat") and case is not None:
            self.s(st, open=ev.ret)
        if case is None or case == "ok":
            return
        if fatal_log(self.p, ev) or k == "abort":
            self.bad(ex, "accept-continues", "the failure %s of accept ends the process" % case, ev)
        if k == "call" and (q in (CH + "::DisableReading", CH + "::DisableAll", CH + "::Remove", LF + "Quit", "listen", "exit", "_exit",
                                  "shutdown")):
            self.bad(ex, "accept-continues", "the failure %s of accept stops the listener" % case, ev)
        if k == "write" and ev.loc == ('f', THIS, self.LISTENING) and st.interval(ev.val) == (0, 0):
            self.bad(ex, "accept-continues", "the failure %s of accept stops the listener" % case, ev)

    def reserve(self, ex, st):
        return ex.load(st, ('f', THIS, self.RES), "int")

    def finish(self, ex, f, out):
        Fds.finish(self, ex, f, out)
        seen = set()
        for ret, st in out:
            case = self.g(st, "case")
            seen.add(case)
            if case in ("EMFILE", "ENFILE"):
                self.col.ob("descriptor-shed")
                if self.g(st, "second") != "freed":
                    self.bad(ex, "descriptor-shed", "out of descriptors, the pending connection is not accepted with the reserved "
                             "descriptor given back first")
                r = st.mem.get(('f', THIS, self.RES))
                if r is None or r != self.g(st, "open"):
                    self.bad(ex, "descriptor-shed", "the reserved descriptor is not acquired again")
            elif case is not None:
                self.col.ob("accept-continues")
        if None in seen or not seen:
            self.bad(ex, "accept-continues", "a path of the listener's read callback does not accept")


def check_P19(prog, rep):
    A = "kanon::Acceptor"
    own = owners(prog, rep)
    res = [m for k, m in own.get(A, ()) if k == "direct"]
    if len(res) != 1:
        rep.violate("descriptor-shed", A + " destructor", "kanon/net/acceptor.cc", "the acceptor does not own exactly one reserved "
                    "descriptor that its destructor closes", "", A)
        return
    cbs = handed_functions(prog, ("kanon::Channel::SetReadCallback",))
    roots = []
    for i in cbs:
        f = prog.funcs[i]
        if this_class(prog, f) == A and reaches(prog, f, {"accept", "accept4"}):
            roots.append(f)
    if not roots:
        raise Broken("the acceptor's read callback was not found")
    CHF = field(prog, CH, "fd_")

    def mk(p, f, c):
        m = Accepting(p, f, c)
        m.OWN, m.CHANFD, m.handed, m.RES = own, CHF, (), res[0]
        m.LISTENING = field(p, A, "listening_")
        return [m]
    drive(prog, roots, mk, rep, no_inline=fd_quiet, opaque_fn={CH + "::DisableReading", CH + "::DisableAll", CH + "::Remove",
                                                             LF + "Quit"})
    # the first reserve is taken when the acceptor is made
    rep.need("descriptor-shed", 2)


# ---------------------------------------------------------------- P18
WAIT = {"0": 0, "EINTR": 4, "EINPROGRESS": 115}
AGAIN = {"EAGAIN": 11, "EADDRNOTAVAIL": 99, "ENETUNREACH": 101, "EHOSTUNREACH": 113, "ECONNREFUSED": 111, "ETIMEDOUT": 110}
GIVEUP = {"EACCES": 13, "EPERM": 1, "EAFNOSUPPORT": 97, "EBADF": 9, "EFAULT": 14, "ENOTSOCK": 88, "EPROTOTYPE": 91, "EINVAL": 22}


def num(v):
    """numeric value of a constant expression over integers and floats"""
    if not isinstance(v, tuple):
        return None
    if v[0] == 'c':
        return v[1]
    if v[0] == 's' and len(v) > 3 and v[2] == 'float':
        try:
            return float(v[3])
        except (TypeError, ValueError):
            return None
    if v[0] == 's' and len(v) > 4 and v[2] == 'conv':
        return num(v[4])
    if v[0] == 's' and len(v) > 5 and v[2] == 'op' and v[3] in ('*', '/', '+', '-'):
        a, b = num(v[4]), num(v[5])
        if a is None or b is None or v[3] == '/' and b == 0:
            return None
        return {'*': a * b, '+': a + b, '-': a - b, '/': a / b if isinstance(a, float) or isinstance(b, float) or v[1] == 'x' else a // b}[v[3]]
    if v[0] == 'l':
        t = v[1]
        for s, c in v[2]:
            x = num(s)
            if x is None:
                return None
            t += c * x
        return t
    return None


class Attempt(ConnectorFds):
    """one run of an entry of the connector"""
    FIELDS = ConnectorFds.FIELDS + (("case", None), ("timers", 0), ("delay", None), ("handed", 0), ("soerr", None), ("selfc", None),
                                    ("interval", None), ("want", None), ("conn", None), ("cancel", False), ("cbs", ()), ("writing", False),
                                    ("hadtimer", None))
    START = 1

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        F = cn_fields(self.p)
        if k == "root":
            r = ConnectorFds.event(self, ex, st, ev)
            out = []
            for s in r:
                for iv in self.INTERVALS:
                    for want in (0, 1):
                        s2 = s.copy()
                        s2.mon = s.mon
                        if self.root.kind != "ctor":
                            # a stopped connector has no attempt in progress
                            if want == 0 and self.g(s2, "from_") == "kConnecting":
                                continue
                            s2.mem[('f', THIS, F["interval"])] = C(iv)
                            s2.mem[('f', THIS, F["connect"])] = C(want)
                        self.s(s2, interval=iv, want=want)
                        out.append(s2)
            return out
        r = ConnectorFds.event(self, ex, st, ev)
        if k == "call" and q == "connect":
            self.col.ob("stopped-is-quiet")
            if st.decide(cmpv('==', ex.load(st, ('f', THIS, F["connect"])), C(0))) is not False:
                self.bad(ex, "stopped-is-quiet", "a stopped connector makes another attempt", ev)
            if self.g(st, "conn"):
                self.bad(ex, "one-outcome", "one run makes two attempts", ev)
        elif k == "ret" and q == "connect":
            out = []
            for n, e in sorted(list(WAIT.items()) + list(AGAIN.items()) + list(GIVEUP.items())):
                s = st.copy()
                s.mon = st.mon
                s.assume(cmpv('==', ev.ret, C(0 if e == 0 else -1)), True)
                s.mem[('g', 'errno')] = C(e)
                self.s(s, case=n, conn=True)
                out.append(s)
            return out
        elif k == "ret" and q in ("getsockopt",):
            out = []
            tgt = loc_of(ev.args[3])
            for n in ("bad", "zero"):
                s = st.copy()
                s.mon = st.mon
                s.assume(cmpv('==', ev.ret, C(0)), True)
                s.mem[tgt] = C(0 if n == "zero" else 111)
                self.s(s, soerr=n)
                out.append(s)
            s = st.copy()
            s.mon = st.mon
            s.assume(cmpv('==', ev.ret, C(-1)), True)
            s.mem[('g', 'errno')] = C(9)
            self.s(s, soerr="bad")
            out.append(s)
            return out
        elif k == "ret" and q == "kanon::sock::IsSelfConnect":
            out = []
            for n in (0, 1):
                s = st.copy()
                s.mon = st.mon
                if s.assume(cmpv('==', ev.ret, C(n)), True) is False:
                    continue
                self.s(s, selfc=n)
                out.append(s)
            return out
        elif k == "call" and q in (LF + "RunAfter", LF + "RunAt", LF + "RunEvery"):
            self.s(st, timers=min(2, self.g(st, "timers") + 1), delay=num(ev.args[1]) if q == LF + "RunAfter" else None)
            fnid = value_fn(st, ev.args[0])
            if q != LF + "RunAfter" or fnid is None or not reaches(self.p, self.p.funcs[fnid], {CN + "::StartRun", CN + "::Connect", "connect"}):
                self.bad(ex, "retry", "the delayed work does not try to connect again", ev)
        elif k == "call" and q == LF + "CancelTimer":
            self.s(st, cancel=True)
        elif k == "branch":
            pass
        elif k == "callback" and ('f', THIS, F["newcb"]) in (ev.obj, ev.loc, THIS) or k == "callback" and ev.args:
            self.col.ob("success-checked")
            self.s(st, handed=min(2, self.g(st, "handed") + 1))
            if self.g(st, "soerr") != "zero" or self.g(st, "selfc") != 0:
                self.bad(ex, "success-checked", "a socket is handed over without checking it for errors and self-connection", ev)
            if self.g(st, "handed") > 1:
                self.bad(ex, "success-checked", "the socket is handed over twice", ev)
        elif k == "call" and q in (CH + "::SetWriteCallback", CH + "::SetErrorCallback"):
            self.s(st, cbs=tuple(sorted(set(self.g(st, "cbs")) | {q})))
        elif k == "call" and q == CH + "::EnableWriting":
            self.s(st, writing=True)
            if CH + "::SetWriteCallback" not in self.g(st, "cbs") or CH + "::SetErrorCallback" not in self.g(st, "cbs"):
                self.bad(ex, "outcome", "the attempt is watched before it has its callbacks", ev)
        return r

    def new_interval(self, ex, st):
        F = cn_fields(self.p)
        lo, hi = st.interval(ex.load(st, ('f', THIS, F["interval"])))
        return int(lo) if lo == hi else None

    def finish(self, ex, f, out):
        ConnectorFds.finish(self, ex, f, out)
        F, S = cn_fields(self.p), conn_states(self.p)
        nm = {v: k for k, v in S.items()}
        for ret, st in out:
            g = lambda n: self.g(st, n)
            state = nm.get(g("state")) or g("from_")
            case, want = g("case"), g("want")
            if case is not None:
                self.col.ob("outcome")
                if case in WAIT:
                    if state != "kConnecting" or not g("writing") or g("timers"):
                        self.bad(ex, "outcome", "result %s of connect does not wait for writability" % case)
                elif case in AGAIN:
                    if state == "kConnecting" or not g("timers"):
                        self.bad(ex, "outcome", "result %s of connect is not tried again" % case)
                elif g("timers") or state == "kConnecting":
                    self.bad(ex, "outcome", "result %s of connect does not give up" % case)
            if g("from_") == "kConnecting" and (g("soerr") or f.id in self.EVENTS):
                self.col.ob("outcome")
                good = g("soerr") == "zero" and g("selfc") == 0
                if f.id in self.EVENTS["write"]:
                    if good and (g("timers") or state == "kDisconnected" and not g("cb")):
                        self.bad(ex, "outcome", "an established connection is not handed over")
                    if not good and not g("timers") and not g("cb"):
                        self.bad(ex, "outcome", "a failed or self-connected socket is not tried again")
                elif f.id in self.EVENTS["error"] and not g("timers"):
                    self.bad(ex, "outcome", "an attempt that failed is not tried again")
            if g("from_") != "kConnecting" and f.id in self.EVENTS["write"] | self.EVENTS["error"]:
                if g("timers") or g("handed") or g("conn"):
                    self.bad(ex, "outcome", "an event of an attempt that is over starts something")
            if g("timers"):
                self.col.ob("retry")
                if not want:
                    self.bad(ex, "stopped-is-quiet", "a stopped connector plans another attempt")
                if g("timers") > 1:
                    self.bad(ex, "retry", "two further attempts are planned for one failure")
                self.col.data.append(("retry", g("interval"), g("delay"), self.new_interval(ex, st)))
            if f.name == "StopInLoop" or f.id in self.STOPS:
                self.col.ob("stopped-is-quiet")
                if st.decide(cmpv('==', ex.load(st, ('f', THIS, F["connect"])), C(0))) is not True:
                    self.bad(ex, "stopped-is-quiet", "stopping does not forbid further attempts")
                if state == "kConnecting":
                    self.bad(ex, "stopped-is-quiet", "stopping leaves an attempt in progress")


class InitialInterval(Rec):
    FIELDS = ()

    def finish(self, ex, f, out):
        F = cn_fields(self.p)
        for ret, st in out:
            lo, hi = st.interval(ex.load(st, ('f', THIS, F["interval"])))
            self.col.data.append(int(lo) if lo == hi else None)

    def event(self, ex, st, ev):
        pass


class SelfConnect(Rec):
    """sock::IsSelfConnect decides by comparing both ends"""
    FIELDS = (("cfg", None), ("n", 0))

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        if k == "root":
            r = []
            for fam in (2, 10):
                for port in (0, 1):
                    for addr in (0, 1):
                        s = st.copy()
                        s.mon = st.mon
                        self.s(s, cfg=(fam, port, addr))
                        r.append(s)
            return r
        if k == "ret" and q in ("getsockname", "getpeername"):
            fam, port, addr = self.g(st, "cfg")
            other = q == "getpeername"
            l = loc_of(ev.args[1])
            st.assume(cmpv('==', ev.ret, C(0)), True)
            for n in ("sockaddr_in::sin_family", "sockaddr_in6::sin6_family", "sockaddr::sa_family", "sockaddr_storage::ss_family"):
                st.mem[('f', l, n)] = C(fam)
            for n in ("sockaddr_in::sin_port", "sockaddr_in6::sin6_port"):
                st.mem[('f', l, n)] = C(2 if other and not port else 1)
            st.mem[('f', ('f', l, "sockaddr_in::sin_addr"), "in_addr::s_addr")] = C(2 if other and not addr else 1)
        elif k == "ret" and q in ("memcmp", "bcmp", "__builtin_memcmp"):
            fam, port, addr = self.g(st, "cfg")
            st.assume(cmpv('==', ev.ret, C(0)), bool(addr))

    def finish(self, ex, f, out):
        for ret, st in out:
            fam, port, addr = self.g(st, "cfg")
            d = st.decide(('cmp', '!=', ((ret, 1),), 0)) if ret[0] == 's' else None
            lo, hi = st.interval(ret)
            d = bool(lo) if lo == hi else st.decide(ret) if ret[0] in ('cmp', 'not', 's') else None
            self.col.ob("self-connection")
            if d is not None and d != bool(port and addr):
                self.bad(ex, "self-connection", "ends with %s ports and %s addresses %s as a self-connection" % (
                    "equal" if port else "different", "equal" if addr else "different", "count" if d else "do not count"))


def check_P18(prog, rep):
    CHF = field(prog, CH, "fd_")
    own = {CN: {("channel", cn_fields(prog)["channel"])}, "kanon::Socket": {("direct", field(prog, "kanon::Socket", "fd_"))}}
    ctors = [f for f in prog.funcs.values() if f.kind == "ctor" and f.cls == CN and f.has_body and f.params]
    init = set(drive(prog, ctors, lambda p, f, c: [InitialInterval(p, f, c)], rep, no_inline=fd_quiet))
    if len(init) != 1 or None in init:
        raise Broken("the connector's first retry interval is not a constant: %s" % init)
    i0 = init.pop()
    ladder = [i0]
    while ladder[-1] < 10 ** 6:
        ladder.append(ladder[-1] * 2)
    events = {"write": set(), "error": set()}
    for kind, t in (("write", "kanon::Channel::SetWriteCallback"), ("error", "kanon::Channel::SetErrorCallback")):
        events[kind] = {i for i in handed_functions(prog, (t,)) if this_class(prog, prog.funcs[i]) == CN}
        if not events[kind]:
            raise Broken("the connector's %s callback was not found" % kind)
    stops = set()
    for f in prog.funcs.values():
        if f.cls == CN and f.name == "Stop":
            for n in f.x or ():
                if n.get("k") == "call" and n.get("q") in LATER:
                    for a in n.get("args", ()):
                        stops |= callee_of(prog, f, a)
    if not stops:
        raise Broken("what Connector::Stop hands to the loop was not found")
    roots = [f for f in prog.funcs.values() if f.has_body and this_class(prog, f) == CN and f.kind not in ("ctor", "dtor") and
             (is_root(prog, f) or f.id in stops) and not fd_quiet(f) and f.name != "channel"]

    known = []

    def mk(p, f, c):
        m = Attempt(p, f, c)
        m.OWN, m.CHANFD, m.handed = own, CHF, ()
        m.INTERVALS = [i0]
        m.EVENTS, m.STOPS = events, stops
        return [m]
    drive(prog, roots, mk, rep, no_inline=fd_quiet, opaque_fn={"kanon::sock::IsSelfConnect"})

    # the delays: follow the intervals from the first one
    rr = [f for f in roots if f.id in events["error"]]
    iv, seen, top = i0, [], None
    for step in range(40):
        def mk2(p, f, c):
            m = Attempt(p, f, c)
            m.OWN, m.CHANFD, m.handed = own, CHF, ()
            m.INTERVALS = [iv]
            m.EVENTS, m.STOPS = events, stops
            return [m]
        os_ = drive(prog, rr, mk2, None, no_inline=fd_quiet, opaque_fn={"kanon::sock::IsSelfConnect"})
        nx = {(d, n) for t, i, d, n in os_ if i == iv}
        rep.ob("back-off")
        where = prog.funcs[sorted(events["error"])[0]]
        loc = "%s:%d" % (where.file, where.line)
        if len(nx) != 1:
            rep.violate("back-off", CN + "::Retry", loc, "the delay and the next interval after %d ms are not fixed: %s" % (iv, sorted(nx, key=repr)),
                        "", "back-off")
            return
        d, n = nx.pop()
        if d is None or abs(d * 1000 - iv) > 0.5:
            rep.violate("back-off", CN + "::Retry", loc, "the delay after an interval of %d ms is %s s" % (iv, d), "", "back-off-delay")
            return
        if n == iv:
            top = iv
            break
        if n is None or n < iv or n > 2 * iv or n < 2 * iv and seen and seen[-1] == "capped":
            rep.violate("back-off", CN + "::Retry", loc, "an interval of %d ms is followed by %s ms: it must double up to a maximum" % (iv, n),
                        "", "back-off-next")
            return
        seen.append("capped" if n < 2 * iv else "double")
        iv = n
    if top is None or "double" not in seen:
        rep.violate("back-off", CN + "::Retry", CN, "the retry delay does not double up to a fixed maximum", "", "back-off-top")
    drive(prog, fn(prog, "kanon::sock::IsSelfConnect"), lambda p, f, c: [SelfConnect(p, f, c)], rep, no_inline=fd_quiet)


# ---------------------------------------------------------------- the properties
def base_rules(rep):
    rep.rule("owner-closes", "a class that keeps a descriptor in a member closes it in its destructor, on every path")
    rep.rule("closed-once", "a descriptor obtained, received or taken out of its owner is, at the end of every path, closed or kept by "
             "exactly one owner")
    rep.rule("closed-twice", "no path closes a descriptor that is already closed or handed over")
    rep.rule("leaked", "no path ends with a descriptor that nobody owns")
    rep.rule("used-after-close", "a closed descriptor is not used again")
    rep.rule("handed-once", "a descriptor given to a callback or another owner is not closed or given away a second time")
    rep.rule("attempt-owns", "the connector holds a channel exactly while an attempt is in progress")


def P11(prog, rep, tier):
    base_rules(rep)
    check_P11(prog, rep)
    rep.need("owner-closes", 5)
    rep.need("closed-once", 100)
    rep.need("handed-once", 8)
    rep.need("attempt-owns", 30)


def P12(prog, rep, tier):
    rep.rule("close-on-exec", "every call that creates a descriptor asks for close-on-exec in the same call")
    rep.rule("non-blocking", "every descriptor given to a channel or to the new-connection callback is in non-blocking mode")
    check_P12(prog, rep)
    rep.need("close-on-exec", 40)


def P18(prog, rep, tier):
    base_rules(rep)
    rep.rule("outcome", "for each result of connect and of the socket error: wait for writability, try again later, or give up")
    rep.rule("retry", "a failed attempt plans exactly one further attempt, through the loop's timer")
    rep.rule("back-off", "from the first interval on, the delay equals the interval and the interval doubles up to a fixed maximum")
    rep.rule("stopped-is-quiet", "a stopped connector neither connects nor plans an attempt, and stopping ends the one in progress")
    rep.rule("success-checked", "a socket is handed over once, after its error was read as zero and self-connection excluded")
    rep.rule("one-outcome", "one run makes at most one attempt")
    rep.rule("self-connection", "self-connection means equal ports and equal addresses of both ends, in both address families")
    check_P18(prog, rep)
    rep.need("outcome", 30)
    rep.need("retry", 8)
    rep.need("stopped-is-quiet", 5)
    rep.need("success-checked", 1)
    rep.need("self-connection", 8)


def P19(prog, rep, tier):
    base_rules(rep)
    rep.rule("accept-continues", "for each failure of accept the read callback neither ends the process nor stops listening")
    rep.rule("descriptor-shed", "out of descriptors: the reserved descriptor is closed, the pending connection accepted and closed, and "
             "the reserve opened again")
    check_P19(prog, rep)
    rep.need("accept-continues", 10)
    rep.need("closed-once", 3)
