"""P01: what a loop owns changes only on the loop's thread."""
from absint import *
from program import Broken
from drive import drive, is_root
from rules_lock import THIS
from rules_conn import CONN, HANDOVER, conn_fields
from rules_conn2 import loc_of, handed_functions, LATER
from rules_loop import Rec, fn, field, field_of_type, CH, LF, LOOP

CN, AC, TQ, PB = "kanon::Connector", "kanon::Acceptor", "kanon::TimerQueue", "kanon::PollerBase"
SRV, CLI, THR, POOL = "kanon::TcpServer", "kanon::TcpClient", "kanon::EventLoopThread", "kanon::EventLoopPool"
SETCB = ("kanon::Channel::SetReadCallback", "kanon::Channel::SetWriteCallback", "kanon::Channel::SetErrorCallback",
         "kanon::Channel::SetCloseCallback")
INTERNAL = ("kanon::Channel", PB, "kanon::Epoller", "kanon::Poller", TQ)
# what a program may call from any thread: never ends in "wrong thread"
ANY_THREAD = ([LF + n for n in ("RunInLoop", "QueueToLoop", "Quit", "Wakeup", "RunAt", "RunAfter", "RunAfterMs", "RunAfterUs", "RunEvery",
                                "CancelTimer")] +
              [CONN + "::" + n for n in ("Send", "ShutdownWrite", "ForceClose", "DisbaleRead", "EnableRead")] +
              [SRV + "::" + n for n in ("StartRun", "IsRunning", "ApplyAllPeers")] +
              [CLI + "::" + n for n in ("Connect", "Disconnect", "Stop", "EnableRetry", "DisableRetry")] +
              [CN + "::" + n for n in ("StartRun", "Stop", "Restrat")])


def quiet(f):
    return f.cls in ("kanon::Logger", "kanon::LogStream") or f.file.startswith("kanon/log/") or "/kanon/log/" in f.file or \
        f.cls in ("kanon::InetAddr", "kanon::Buffer", "kanon::ChunkList") or f.q in ("kanon::ChunkListWriteFd",) or \
        "/util/" in "/" + f.file and f.name != "make_unique"


class Owned:
    """the classes that belong to a loop, their loop member and their confined members"""

    def __init__(self, prog):
        self.p = prog
        loopf = lambda c: field_of_type(prog, c, lambda f: f["t"] == "kanon::EventLoop *", "loop")
        self.loop = {c: loopf(c) for c in ("kanon::Channel", CN, AC, PB, CONN, SRV, CLI, POOL)}
        base = [b for r in prog.records.get(TQ, [])[:1] for b in r.get("bases", ())]
        self.loop[TQ] = None
        for b in base:
            b = b["c"] if isinstance(b, dict) else b
            for r in prog.records.get(b, [])[:1]:
                for f in r["fields"]:
                    if f["t"] == "kanon::EventLoop *":
                        self.loop[TQ] = f["n"] if "::" in f["n"] else b + "::" + f["n"]
        if self.loop[TQ] is None:
            self.loop[TQ] = field_of_type(prog, TQ, lambda f: f["t"] == "kanon::EventLoop *", "loop")
        self.loopfields = {v: k for k, v in self.loop.items()}
        F = conn_fields(prog)
        self.state = F["state"]
        chan = {}
        for c in (CN, AC, CONN, TQ, LOOP):
            chan[field_of_type(prog, c, lambda f: f.get("c") == "kanon::Channel" or "Channel>" in f["t"], "channel")] = c
        self.chan = chan
        # member -> class that has it: made for the same loop (checked where they are made)
        self.same = dict(chan)
        for c, t in ((SRV, "kanon::Acceptor"), (SRV, POOL), (CLI, CN), (LOOP, "kanon::PollerBase"), (LOOP, TQ)):
            self.same[field_of_type(prog, c, lambda f, t=t: t + ">" in f["t"], t)] = c
        # members
        self.data = {}          # field -> class
        for c, keep in ((CN, lambda f: "function" not in f["t"] and "InetAddr" not in f["t"] and f["t"] != "kanon::EventLoop *"),
                        (AC, lambda f: f["t"] == "int"),
                        (TQ, lambda f: "Channel" not in f["t"]),
                        (LOOP, lambda f: f["t"] == "bool"),
                        (CONN, lambda f: f.get("c") in ("kanon::Buffer", "kanon::ChunkList") or f["n"] == F["state"] or "Channel" in f["t"] or
                         "Socket" in f["t"]),
                        (SRV, lambda f: f["t"] == "unsigned int"),
                        ("kanon::Epoller", lambda f: f["t"] not in ("bool", "int")), ("kanon::Poller", lambda f: True), (PB, lambda f: True)):
            n = 0
            for r in prog.records.get(c, [])[:1]:
                for f in r["fields"]:
                    q = f["n"] if "::" in f["n"] else c + "::" + f["n"]
                    if keep(f) and q not in self.loopfields and not f["t"].startswith("const "):
                        self.data[q] = c
                        n += 1
            if not n and c not in (PB,):
                raise Broken("no loop-owned members found in %s" % c)
        self.sock = field_of_type(prog, CONN, lambda f: "Socket" in f["t"], "socket")

    def is_container(self, q):
        c = self.data[q]
        for r in self.p.records.get(c, [])[:1]:
            for f in r["fields"]:
                if (f["n"] if "::" in f["n"] else c + "::" + f["n"]) == q:
                    return f.get("c") in ("kanon::Buffer", "kanon::ChunkList", "std::set", "std::vector", "std::unordered_map",
                                          "std::unordered_set", "std::map")
        return False

    def chan_owner(self, st, obj, chan=None):
        """the member that holds this channel"""
        chan = chan or self.chan
        if obj[0] == 'f' and obj[2] in chan:
            return obj
        if obj[0] == 'p' and isinstance(obj[1], tuple):
            v = obj[1]
            if v[0] == 's' and v[2:3] == ('init',) and v[3][0] == 'f' and v[3][2] in chan:
                return v[3]
            for k, w in st.mem.items():
                if k[0] == 'f' and k[2] in chan and w == v:
                    return k
        return None

    def canon(self, ex, st, L, n=0):
        """members that belong to the same loop as the object that has them"""
        if n > 6 or L[0] != 'p' or not isinstance(L[1], tuple):
            return L
        v = L[1]
        if v[0] == 's' and v[2:3] == ('init',) and v[3][0] == 'f' and v[3][2] in self.loopfields:
            o = v[3][1]                         # the object whose loop it is
            if o[0] == 'p' and isinstance(o[1], tuple) and o[1][0] == 's' and o[1][2:3] == ('init',) and o[1][3][0] == 'f' and \
                    o[1][3][2] in self.same:
                c, x = self.same[o[1][3][2]], o[1][3][1]
                return self.canon(ex, st, x if c == LOOP else loc_of(ex.load(st, ('f', x, self.loop[c]), "kanon::EventLoop *")), n + 1)
            if o[0] == 'f' and o[2] in self.same:
                c, x = self.same[o[2]], o[1]
                return self.canon(ex, st, x if c == LOOP else loc_of(ex.load(st, ('f', x, self.loop[c]), "kanon::EventLoop *")), n + 1)
        return L

    def loop_of(self, ex, st, obj, cls):
        """location of the loop the object obj (a location) of class cls belongs to"""
        if cls == LOOP:
            return obj
        if cls in ("kanon::Epoller", "kanon::Poller"):
            cls = PB
        if cls == "kanon::Channel":
            x = self.chan_owner(st, obj)
            if x is not None:
                return self.loop_of(ex, st, x[1], self.chan[x[2]])
        v = ex.load(st, ('f', obj, self.loop[cls]), "kanon::EventLoop *")
        return loc_of(v)


def owner_loc(loc, fields):
    """(field, object) of the outermost listed member on the way to loc"""
    while isinstance(loc, tuple) and loc[0] in ('f', 'i', 'e'):
        if loc[0] == 'f' and loc[2] in fields:
            return loc[2], loc[1]
        loc = loc[1]
    return None


def under(loc, base):
    while isinstance(loc, tuple):
        if loc == base:
            return True
        if loc[0] not in ('f', 'i', 'e'):
            return False
        loc = loc[1]
    return False


def rooted_here(loc):
    while isinstance(loc, tuple) and loc[0] in ('f', 'i', 'e'):
        loc = loc[1]
    return loc == THIS


class Confine(Rec):
    """ctx: what is known to run on (a loop location), None at an entry"""
    FIELDS = (("ctx", None),)

    def inloop(self, ex, st, L):
        if st.decide(('s', 'b', 'inloop', L)) is True:
            return True
        L = self.O.canon(ex, st, L)
        for k, w in st.facts.items():
            lo = w[0]
            if len(k) == 1 and k[0][1] == 1 and isinstance(k[0][0], tuple) and k[0][0][2:3] == ('inloop',) and lo == 1 and \
                    self.O.canon(ex, st, k[0][0][3]) == L:
                return True
        return False

    def need(self, ex, st, ev, obj, cls, what):
        if self.root.kind in ("ctor", "dtor") and self.g(st, "ctx") is None and (rooted_here(obj) or cls == "kanon::Channel" and
                                                                                  self.here(ex, st, obj)):
            return
        if obj[0] == 't' or obj[0] == 'v':
            return
        o = self.O.chan_owner(st, obj) if cls == "kanon::Channel" else None
        f = ev.fr
        while f is not None:
            # an object under construction is not shared yet
            if f.f.kind == "ctor" and f.this is not None and f.f.cls != "kanon::Channel" and (under(obj, f.this) or o and under(o, f.this)):
                return
            f = f.parent
        L = None
        if cls == "kanon::Channel" and not self.O.chan_owner(st, obj):
            # the poller and the loop work on channels of their own loop
            f = ev.fr
            while f is not None and f.f.parent:
                f = f.parent
            if f is not None and f.this is not None and f.f.cls in (LOOP, PB, "kanon::Epoller", "kanon::Poller"):
                L = self.O.loop_of(ex, st, f.this, f.f.cls)
        L = L or self.O.loop_of(ex, st, obj, cls)
        self.col.ob("confined")
        if not self.inloop(ex, st, L) and not self.fresh(obj):
            self.bad(ex, "confined", "%s without being known to be on its loop's thread" % what, ev)

    def fresh(self, obj):
        """made in this very function"""
        b = obj
        while isinstance(b, tuple) and b[0] in ('f', 'i', 'e'):
            b = b[1]
        v = b[1] if b[0] == 'p' else None
        return isinstance(v, tuple) and v[0] == 's' and v[2:3] == ('new',)

    def here(self, ex, st, obj):
        v = obj[1] if obj[0] == 'p' else None
        if obj[0] == 'f':
            return rooted_here(obj)
        if isinstance(v, tuple) and v[0] == 's' and v[2:3] == ('init',):
            return rooted_here(v[3])
        return any(w == v and rooted_here(k) for k, w in st.mem.items() if k[0] == 'f' and k[2] in self.O.chan)

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        O = self.O
        if k == "root":
            if self.root.kind == "ctor" and self.root.cls == LOOP:
                st.assume(('s', 'b', 'inloop', THIS), True)
            return
        if k == "ret" and q == LF + "AbortNotInThread":
            return []
        if k == "ret" and q == LF + "IsLoopInThread" and ev.ret is not None and st.decide(ev.ret) is None:
            if self.inloop(ex, st, ev.obj):
                st.assume(ev.ret, True)
            return
        if k == "ret" and "::NewTcpConnection" in q and ev.ret is not None:
            v = ex.load(st, ev.ret[1]) if ev.ret[0] == 'a' else ev.ret
            st.mem[('f', loc_of(v), O.loop[CONN])] = ev.args[0]
            return
        if k == "ctor" and q == LOOP + "::EventLoop" and ev.loc is not None:
            st.assume(('s', 'b', 'inloop', ev.loc), True)
        if k == "ctor":
            self.made(ex, st, ev)
        if k == "call":
            if q in LATER or q == LF + "RunAfter":
                self.hand(ex, st, ev, ev.obj, ev.args[0], ())
            elif q in SETCB:
                self.hand(ex, st, ev, O.loop_of(ex, st, ev.obj, "kanon::Channel"), ev.args[0], ())
            elif q == CONN + "::SetCloseCallback":
                arg = ('g', 'confine:arg')
                st2 = st.copy()
                st2.mon = st.mon
                st2.mem[arg] = ev.obj[1] if ev.obj[0] == 'p' else ('a', ev.obj)
                self.hand(ex, st2, ev, O.loop_of(ex, st, ev.obj, CONN), ev.args[0], (('a', arg),))
            elif q in (AC + "::SetNewConnectionCallback", CN + "::SetNewConnectionCallback"):
                self.hand(ex, st, ev, O.loop_of(ex, st, ev.obj, q.rsplit("::", 1)[0]), ev.args[0], ())
            elif q in self.chan_ops:
                self.need(ex, st, ev, ev.obj, "kanon::Channel", "a channel is used (%s)" % q.rsplit("::", 1)[-1])
            elif q.startswith(("kanon::PollerBase::Poll", "kanon::Epoller::Poll", "kanon::Poller::Poll")):
                self.col.ob("confined")
                x = O.chan_owner(st, ev.obj, O.same)
                if x is None or not self.inloop(ex, st, x[1]):
                    self.bad(ex, "confined", "the poller waits without being known to be on its loop's thread", ev)
            elif q == "kanon::Socket::ShutdownWrite" and ev.obj[0] == 'p' and isinstance(ev.obj[1], tuple) and ev.obj[1][2:3] == ('init',) and \
                    ev.obj[1][3][0] == 'f' and ev.obj[1][3][2] == O.sock:
                self.need(ex, st, ev, ev.obj[1][3][1], CONN, "the socket is shut down")
            elif q == LF + "AbortNotInThread":
                self.wrong(ex, st, ev)
            elif ev.obj is not None:
                o = owner_loc(ev.obj, O.data)
                if o and O.is_container(o[0]) and (q.startswith("std::") or q.startswith(("kanon::Buffer::", "kanon::ChunkList::"))):
                    self.need(ex, st, ev, o[1], O.data[o[0]], "%s is used" % o[0].rsplit("::", 1)[-1])
        elif k == "callback" and ev.fr.f.cls == LOOP and ev.fr.this is not None:
            self.col.ob("runs-here")
            if not self.inloop(ex, st, ev.fr.this):
                self.bad(ex, "confined", "a function handed to a loop is run without being known to be on the loop's thread", ev)
        elif k == "write":
            o = owner_loc(ev.loc, O.data)
            if o:
                self.need(ex, st, ev, o[1], O.data[o[0]], "%s is changed" % o[0].rsplit("::", 1)[-1])

    def made(self, ex, st, ev):
        """objects made for a member belong to the same loop as the object that has the member"""
        q = ev.q
        c = q.rsplit("::", 1)[0]
        if c not in self.O.loop or c in (SRV, CLI, CONN) or not ev.args or self.g(st, "ctx") is None and self.root.kind == "fn" and \
                self.root.cls == c:
            return
        f = ev.fr
        while f is not None and not (f.f.cls in self.O.loop or f.f.cls == LOOP) and True:
            f = f.parent
        if f is None or f.this is None or f.f.cls == c:
            return
        want = self.O.loop_of(ex, st, f.this, f.f.cls)
        got = [loc_of(a) for a in ev.args if isinstance(a, tuple)]
        self.col.ob("same-loop")
        if want not in got:
            self.bad(ex, "same-loop", "%s is made for another loop than the object it belongs to" % c, ev)

    def wrong(self, ex, st, ev):
        ctx = self.g(st, "ctx")
        if ctx is None:
            if self.root.q in ANY_THREAD or self.root.kind == "dtor" and self.root.cls == CLI:
                self.bad(ex, "any-thread", "an operation that may be called from any thread ends the process when called from another "
                         "thread", ev)
            return
        if self.via_weak(ev.obj):
            return
        self.bad(ex, "right-loop", "work is handed to a loop other than the one of the object it uses", ev)

    def via_weak(self, L):
        s = repr(L)
        return "'lock'" in s

    # ---- work handed over
    def hand(self, ex, st, ev, L, v, args):
        while v is not None and v[0] == 'a' and v[1] in st.mem:
            v = st.mem[v[1]]
        if v is None or v[0] not in ('lam', 'bind', 'fn'):
            return
        s = st.copy()
        s.mon = st.mon
        s.mem = {k: w for k, w in s.mem.items() if not (k[0] == 'f' and k[2] not in self.O.loopfields)}
        s.facts = {k: w for k, w in s.facts.items() if not any(contains(x, lambda y: isinstance(y, tuple) and len(y) == 4 and y[0] == 's' and
                                                                        (y[2] == 'inloop' or y[2] == 'init' and y[3][0] == 'f' and
                                                                         y[3][2] not in self.O.loopfields)) for x, _ in k)}
        s.assume(('s', 'b', 'inloop', L), True)
        self.s(s, ctx=L)
        eid = ev.node.get("id", 0) if isinstance(ev.node, dict) else 0
        self.col.ob("handed-over")
        if self.run(ex, ev, s, v, args, 0):
            i = v[1] if v[0] in ('lam', 'fn') else None
            while i is None:
                f0 = v[1]
                while f0[0] == 'a' and f0[1] in st.mem:
                    f0 = st.mem[f0[1]]
                if f0[0] in ('lam', 'fn'):
                    i = f0[1]
                else:
                    break
            self.col.data.append(("in-place", i))

    def run(self, ex, ev, s, v, args, depth):
        """analyse the call of a callable value in state s"""
        if depth > 4:
            return False
        while v[0] == 'a' and v[1] in s.mem:
            v = s.mem[v[1]]
        eid = -1000 - depth - ev.line * 10
        if v[0] == 'bind':
            bound = []
            for a in v[2]:
                g = a[1] if a[0] == 'a' else a[3] if a[0] == 's' and a[2:3] == ('init',) else ('',)
                if g[0] == 'g' and "placeholder" in str(g[1]):
                    n = str(g[1]).rsplit("_", 1)[-1]
                    i = int(n) - 1 if n.isdigit() else 0
                    bound.append(args[i] if i < len(args) else ('s', 'x', 'placeholder', n))
                else:
                    bound.append(a)
            return self.run(ex, ev, s, v[1], tuple(bound), depth + 1)
        if v[0] not in ('lam', 'fn'):
            return False
        f = self.p.funcs.get(v[1])
        if f is None or not f.has_body:
            return False
        this, caps = None, None
        args = list(args)
        if v[0] == 'lam':
            caps = dict(v[2])
            if v[3] != ('c', 0):
                this = ex.deref(v[3])
        elif f.cls and not f.d.get("static") and f.kind == "fn":
            o = args.pop(0)
            if o[0] == 'a' and o[1] in s.mem and s.mem[o[1]][2:3] != ('obj',):
                o = s.mem[o[1]]
            this = loc_of(o)
        for i in range(len(args), len(f.params)):
            args.append(ex.param_sym(f.params[i]))
        args = args[:len(f.params)]
        fr = ev.fr
        ex.call_fn(fr, s, f, this, args, eid, ev.line, caps=caps)
        return True


class ChannelOps(Rec):
    """which methods of a channel change it or its registration"""
    FIELDS = (("hit", False),)

    def event(self, ex, st, ev):
        if ev.kind == "write" and ev.loc and ev.loc[0] == 'f' and ev.loc[1] == THIS and "callback" not in ev.loc[2] or \
                ev.kind == "call" and (ev.q or "") in (LF + "UpdateChannel", LF + "RemoveChannel") or ev.kind == "callback":
            self.s(st, hit=True)

    def finish(self, ex, f, out):
        if any(self.g(st, "hit") for _, st in out):
            self.col.data.append(f.q)


class OwnerThread(Rec):
    """IsLoopInThread and AssertInThread, for the thread that made the loop and another one"""
    FIELDS = (("own", None), ("died", False))

    def event(self, ex, st, ev):
        if ev.kind == "root":
            r = []
            for own in (True, False):
                s = st.copy()
                s.mon = st.mon
                if self.root.name == "AssertInThread":
                    s.assume(('s', 'b', 'inloop', THIS), own)
                else:
                    s.mem[('f', THIS, self.OWNER)] = C(7)
                    s.mem[self.TID] = C(7 if own else 8)
                self.s(s, own=own)
                r.append(s)
            return r
        if ev.kind == "call" and ev.q == LF + "AbortNotInThread":
            self.col.data.append(("aborts", self.g(st, "own")))
            self.s(st, died=True)
        if ev.kind == "ret" and (ev.q or "").endswith("::GetTid"):
            st.assume(cmpv('==', ev.ret, C(7 if self.g(st, "own") else 8)), True)

    def finish(self, ex, f, out):
        for ret, st in out:
            own = self.g(st, "own")
            self.col.ob("owner-thread")
            if f.name == "AssertInThread":
                if own is False and not self.g(st, "died"):
                    self.bad(ex, "owner-thread", "a check of the thread lets another thread through")
                if own and self.g(st, "died"):
                    self.bad(ex, "owner-thread", "a check of the thread ends the process on the loop's own thread")
                continue
            lo, hi = st.interval(ret)
            d = bool(lo) if lo == hi else st.decide(ret) if ret[0] in ('cmp', 'not') else None
            if d != own:
                self.bad(ex, "owner-thread", "on %s IsLoopInThread gives %s" % ("the owning thread" if own else "another thread", d))


class OwnerSet(Rec):
    FIELDS = (("v", None),)

    def event(self, ex, st, ev):
        pass

    def finish(self, ex, f, out):
        for ret, st in out:
            v = st.mem.get(('f', THIS, self.OWNER))
            self.col.ob("owner-thread")
            if v is None or not (v == ex.load(st, self.TID) or "GetTid" in repr(v) or v == ('s', 'x', 'init', self.TID)):
                self.bad(ex, "owner-thread", "a loop does not record the thread that makes it")


def P01(prog, rep, tier):
    rep.rule("confined", "every change of a loop-owned object (channel, poller, timers, buffers, state, connector and listener data) "
             "happens where the executing thread is known to be the thread of that object's loop")
    rep.rule("any-thread", "operations that may be called from any thread never reach the wrong-thread abort")
    rep.rule("right-loop", "work handed over is given to the loop of the object it uses")
    rep.rule("handed-over", "functions queued, put on timers or stored as channel, accept, connect or close callbacks, analysed in the context "
             "of the loop that runs them")
    rep.rule("same-loop", "a channel, poller, timer queue or connector belongs to the same loop as the object that has it")
    rep.rule("owner-thread", "a loop records the thread that makes it, and its thread checks compare with the current thread")
    O = Owned(prog)
    chs = [f for f in prog.funcs.values() if f.cls == "kanon::Channel" and f.kind == "fn" and f.has_body]
    ops = set(drive(prog, chs, lambda p, f, c: [ChannelOps(p, f, c)], rep, no_inline=quiet, opaque_fn={LF + "UpdateChannel",
                                                                                                        LF + "RemoveChannel"}))
    ops -= {o for o in ops if o in SETCB}
    if len(ops) < 7:
        raise Broken("the methods that change a channel were not found: %s" % sorted(ops))
    owner = field_of_type(prog, LOOP, lambda f: f["t"].startswith("const ") and ("int" in f["t"] or "PId" in f["t"] or "long" in f["t"]), "owner")
    tid = ('g', 'g:kanon::CurrentThread::t_tid')
    for k in prog.globals:
        if k.endswith("CurrentThread::t_tid"):
            tid = ('g', 'g:' + k)

    def mko(cls):
        def mk(p, f, c):
            m = cls(p, f, c)
            m.OWNER, m.TID = owner, tid
            return [m]
        return mk
    d = drive(prog, fn(prog, LF + "IsLoopInThread") + fn(prog, LF + "AssertInThread"), mko(OwnerThread), rep, no_inline=quiet,
              opaque_fn={LF + "AbortNotInThread"})
    if ("aborts", False) not in d:
        f = fn(prog, LF + "AssertInThread")[0]
        rep.violate("owner-thread", f.q, f.loc, "the check of the thread does not end the process on another thread")
    ctors = [f for f in prog.funcs.values() if f.kind == "ctor" and f.cls == LOOP and f.has_body]
    drive(prog, ctors, mko(OwnerSet), rep, no_inline=quiet, opaque={"kanon::Channel", TQ, PB, "kanon::Epoller", "kanon::Poller"})

    handed = handed_functions(prog, LATER + SETCB + (CONN + "::SetCloseCallback", AC + "::SetNewConnectionCallback",
                                                     CN + "::SetNewConnectionCallback", LF + "RunAfter"))
    def skip(f):
        if f.q == CONN + "::SetChannel":
            return True                          # only used by the Windows port
        if f.kind in ("ctor", "dtor", "fn") and f.cls in INTERNAL:
            if f.cls == TQ or f.cls == "kanon::Channel":
                return True
            return f.kind != "fn" or f.name == "Poll"
        return False

    roots = [f for f in prog.funcs.values() if f.has_body and f.q.startswith("kanon::") and "/kanon/net/" in "/" + f.file.replace("/linux/", "/")
             and is_root(prog, f) and not skip(f) and f.id not in handed and not quiet(f)]

    def mk(p, f, c):
        m = Confine(p, f, c)
        m.O, m.chan_ops = O, ops
        return [m]
    roots += [f for f in ctors if f not in roots]
    pool_next = {f.q for f in prog.funcs.values() if f.cls == POOL and f.name == "GetNextLoop"}
    nol = pool_next | {LF + n for n in ("EventLoop", "RunInLoop", "QueueToLoop", "UpdateChannel", "RemoveChannel", "RunAt", "RunEvery", "RunAfter")} | ops | set(SETCB) | {
        f.q for f in prog.funcs.values() if "::NewTcpConnection" in f.q}
    kw = dict(no_inline=quiet, opaque_fn=nol, havoc_cb=False)
    data = drive(prog, roots, mk, rep, **kw)
    done = {d[1] for d in data if d[0] == "in-place"}
    rest = [prog.funcs[i] for i in sorted(handed) if i not in done and prog.funcs[i].q.startswith("kanon::")]
    drive(prog, rest, mk, rep, **kw)
    rep.need("confined", 300)
    rep.need("handed-over", 60)
    rep.need("same-loop", 5)
    rep.need("owner-thread", 6)
    rep.need("runs-here", 1)
