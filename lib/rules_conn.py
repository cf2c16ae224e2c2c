"""Connection rules: output accounting (P05), input (P06), graceful shutdown
(P07), up/down transitions (P08), high water mark (P37)."""
from absint import *
from program import Broken
from drive import drive, is_root, all_roots, address_taken
from rules_lock import leaf, role, THIS, on_cycle

CONN = "kanon::ConnectionBase"
OPAQUE = DEFAULT_OPAQUE - {"kanon::StringView"}
RAW_WRITE = ("write", "send", "kanon::sock::Write")
LIST_WRITE = ("kanon::ChunkListWriteFd",)
HANDOVER = ("kanon::EventLoop::QueueToLoop", "kanon::EventLoop::RunInLoop")
EAGAIN = 11
NONTRIVIAL = ("std::basic_string", "kanon::Buffer", "kanon::ChunkList", "kanon::StringView")


def conn_fields(prog):
    """roles of the connection's members, by name with a fallback on the type"""
    r = getattr(prog, "_conn_fields", None)
    if r is None:
        def g(name, pred):
            n = role(prog, CONN, name, pred)["n"]
            return n if "::" in n else CONN + "::" + n
        r = {
            "out": g("output_buffer_", lambda f: f.get("c") == "kanon::ChunkList"),
            "in": g("input_buffer_", lambda f: f.get("c") == "kanon::Buffer"),
            "state": g("state_", lambda f: "State" in f["t"]),
            "mark": g("high_water_mark_", lambda f: f["t"] in ("size_t", "unsigned long")),
            "hw": g("high_water_mark_callback_", lambda f: "size_t" in f["t"] or "unsigned long" in f["t"]),
            "wc": g("write_complete_callback_", lambda f: False),
            "cc": g("connection_callback_", lambda f: False),
            "close": g("close_callback_", lambda f: False),
            "msg": g("message_callback_", lambda f: "Buffer" in f["t"]),
            "chan": g("channel_", lambda f: "Channel" in f["t"]),
            "sock": g("socket_", lambda f: "Socket" in f["t"]),
            "loop": g("loop_", lambda f: "EventLoop" in f["t"]),
        }
        prog._conn_fields = r
    return r


def state_enum(prog):
    return {n: next(v for k, v in prog.enumval.items() if k.startswith(CONN + "::") and k.endswith("::" + n))
            for n in ("kConnecting", "kConnected", "kDisconnecting", "kDisconnected")}


def conn_roots(prog):
    out = []
    for f in prog.funcs.values():
        if not f.has_body or not is_root(prog, f):
            continue
        if f.q.startswith(CONN + "::") and f.kind in ("fn", "lambda") or (f.q.startswith(CONN + "::") and f.parent):
            out.append(f)
    if len(out) < 20:
        raise Broken("connection members not found")
    return out


def field_tail(loc, name):
    return bool(loc) and loc[0] == 'f' and loc[2] == name


def local_fns(prog):
    """what is inlined for connection analyses: the connection, its buffers' front
    ends, the channel and the hand-over; not the loop's internals"""
    def no(f):
        return f.cls in ("kanon::TimerQueue", "kanon::Epoller", "kanon::Poller", "kanon::PollerBase") or \
            f.q in ("kanon::EventLoop::UpdateChannel", "kanon::EventLoop::RemoveChannel", "kanon::EventLoop::Wakeup",
                    "kanon::EventLoop::QueueToLoop")
    return no


# ---------------------------------------------------------------- P05
class Out(tuple):
    """monitor state"""


FIELDS = ("done", "acc", "pend", "W", "wv", "owe", "err", "nc", "copies", "et", "ev", "rearm", "empty", "lastq")
I = {n: i for i, n in enumerate(FIELDS)}
INIT = (C(0), False, False, None, None, None, None, False, frozenset(), None, None, False, None, None)


class SendMon(Monitor):
    init = INIT

    def __init__(self, prog, root, col):
        self.p, self.root, self.col = prog, root, col
        self.F = conn_fields(prog)
        self.src = None
        self.S = state_enum(prog)
        self.live = False

    # -- monitor state access
    def g(self, st, n):
        return self.get(st)[I[n]]

    def s(self, st, **kw):
        t = list(self.get(st))
        for k, v in kw.items():
            t[I[k]] = v
        self.set(st, tuple(t))

    # -- the new data of this root
    def find_source(self, ex, st, fr):
        f = self.root
        ps = f.params
        if f.parent:
            caps = lambda_caps(self.p, f)
            for c in caps:
                if c.get("c") in NONTRIVIAL:
                    return self.obj_source(ex, st, ('v', fr.ctx, c["v"]), c["c"])
            return None
        for i, p in enumerate(ps):
            if p["t"].replace("const ", "").replace(" const", "").strip() in ("void *", "char *") and i + 1 < len(ps):
                return ("raw", st.mem[('v', fr.ctx, p["v"])], st.mem[('v', fr.ctx, ps[i + 1]["v"])], None)
            if p.get("c") in NONTRIVIAL:
                loc = ('v', fr.ctx, p["v"])
                if p["t"].endswith("&"):
                    loc = self.deref_loc(ex, st.mem[loc])
                return self.obj_source(ex, st, loc, p["c"])
        return None

    def deref_loc(self, ex, v):
        return v[1] if v[0] == 'a' else ('p', v)

    def obj_source(self, ex, st, loc, cls):
        if cls == "kanon::StringView":
            d, l = ex.view_fields()
            return ("raw", ex.load(st, ('f', loc, d), "char *"), ex.load(st, ('f', loc, l), "unsigned long"), loc)
        if cls == "std::basic_string":
            v = ex.load(st, loc)
            return ("raw", ('s', 'nn', 'elem', 'data', v, ()), ('s', 'u', 'size', v), loc)
        v = ex.load(st, ('f', loc, '$ver'))
        return ("buf" if cls == "kanon::Buffer" else "list", v, ('s', 'u', 'size', v), loc)

    def size_out(self, ex, st, loc):
        v = st.mem.get(('f', loc, '$size'))
        return v if v is not None else ('s', 'u', 'size', ex.load(st, ('f', loc, '$ver')))

    def is_out(self, loc):
        return field_tail(loc, self.F["out"])

    def ptr_matches(self, ex, st, p):
        k = self.src[0]
        if k == "raw":
            base = self.src[1]
            df = add(p, add(base, self.g(st, "done")), -1)
            if st.interval(df) == (0, 0):
                return True
        if k == "buf":
            ok = lambda y: isinstance(y, tuple) and len(y) >= 5 and y[0] == 's' and y[2] == 'pure' and \
                (y[3] == 'begin' or y[3].endswith("GetReadBegin")) and y[4] == self.src[1]
            df = add(p, self.g(st, "done"), -1)
            if ok(df):
                return True
        return any(('s', 'nn', 'elem', 'data', c, ()) == p for c in self.g(st, "copies"))

    def len_matches(self, ex, st, l):
        want = add(self.src[2], self.g(st, "done"), -1)
        if st.interval(add(l, want, -1)) == (0, 0):
            return True
        return any(('s', 'u', 'size', c) == l for c in self.g(st, "copies"))

    def same_content(self, ex, st, a):
        """does this argument carry the whole new data?"""
        if self.src is None or a is None:
            return False
        loc = a[1] if a[0] == 'a' else None
        if loc is None:
            # a value that was copied or moved into the functor
            return a in self.g(st, "copies") or (self.src[3] is not None and a == self.src[1] and self.src[0] != "raw") or \
                (self.src[0] == "raw" and ('s', 'u', 'size', a) == self.src[2]) or \
                (isinstance(a, tuple) and len(a) > 3 and a[:3] == ('s', 'x', 'obj') and self.src[0] != "raw" and
                 contains(a, lambda y: y == self.src[3]))
        v = ex.load(st, loc)
        if v[0] in ('c', 'l', 'cmp', 'not') or v[:3] == ('s', 'u', 'size'):
            return False        # a number, not data
        if v in self.g(st, "copies"):
            return True
        if self.src[0] == "raw":
            if self.src[3] is not None and loc == self.src[3]:
                return True
            if ('s', 'u', 'size', v) == self.src[2]:
                return True
            d, l = ex.view_fields()
            if st.mem.get(('f', loc, l)) is not None and self.len_matches(ex, st, st.mem[('f', loc, l)]) and \
                    st.mem.get(('f', loc, d)) is not None and self.ptr_matches(ex, st, st.mem[('f', loc, d)]):
                return True
            return False
        if loc == self.src[3] and ex.load(st, ('f', loc, '$ver')) == self.src[1]:
            return True
        if ex.load(st, ('f', loc, '$ver')) == self.src[1] or contains(v, lambda y: y == self.src[3]) or v == self.src[1]:
            return True
        d, l = ex.view_fields()
        dv = st.mem.get(('f', loc, d))
        return dv is not None and self.ptr_matches(ex, st, dv) and \
            self.len_matches(ex, st, st.mem.get(('f', loc, l), C(-1)))

    def accept(self, ex, st, ev, how):
        if self.g(st, "acc"):
            ex.violate(Violation("sent-once", "the same data is %s a second time" % how, ev))
        self.s(st, acc=True)

    # -- events
    def refresh(self, ex, st):
        """path facts that must survive merging"""
        m = self.get(st)
        base = ('p', ('s', 'nn', 'this'))
        if not m[I["nc"]]:
            sv = ex.load(st, ('f', self.conn, self.F["state"]))
            if st.decide(cmpv('==', sv, C(self.S["kConnected"]))) is False:
                self.s(st, nc=True)
        if m[I["W"]] is None and m[I["wv"]] is not None:
            d = st.decide(truthv(m[I["wv"]]))
            if d is not None:
                self.s(st, W=d)
        if m[I["et"]] is None and m[I["ev"]] is not None:
            d = st.decide(truthv(m[I["ev"]]))
            if d is not None:
                self.s(st, et=d)
        if m[I["owe"]] is not None and st.interval(m[I["owe"]][1]) == (0, 0):
            self.s(st, owe=None)
        e = m[I["err"]]
        if e is not None and e[0] == 'n':
            d = st.decide(cmpv('<', e[1], C(0)))
            if d is False:
                # n bytes were taken
                done = add(m[I["done"]], e[1])
                if len(lin(done)[1]) > 4:
                    raise Broken("%s: cannot follow how much of the data was written" % self.root.q)
                self.s(st, done=done, err=None)
            elif d is True:
                self.s(st, err=('errno', ('g', 'errno'), ex.load(st, ('g', 'errno'))))
            e = self.g(st, "err")
        if e is not None and e[0] in ('errno', 'out'):
            if e[0] == 'out' and (e[1] in st.mem or len(e) < 3):
                # the variable may be dead by the time a flag computed from it is tested
                e = ('out', e[1], ex.load(st, e[1]))
                self.s(st, err=e)
            v = e[2]
            a = st.decide(cmpv('==', v, C(EAGAIN)))
            z = st.decide(cmpv('==', v, C(0)))
            if a is True:
                self.s(st, err=('again',))
            elif a is False and (e[0] == 'errno' or z is False):
                self.s(st, err=('fatal',))
            elif e[0] == 'out' and z is True:
                self.s(st, err=None)
        if self.src is not None and not self.g(st, "acc"):
            rest = add(self.src[2], self.g(st, "done"), -1)
            if self.src[0] != "raw":
                loc = self.src[3]
                rest = self.size_out(ex, st, loc) if ex.load(st, ('f', loc, '$ver')) != self.src[1] else self.src[2]
            lo, hi = st.interval(rest)
            if hi <= 0 and (self.g(st, "err") is None or self.g(st, "err")[0] != 'n'):
                self.s(st, acc=True)
        so = self.size_out(ex, st, ('f', self.conn, self.F["out"]))
        lo, hi = st.interval(so)
        if hi <= 0:
            self.s(st, empty=True)
        elif lo > 0 or 0 in st.excluded(so):
            self.s(st, empty=False)

    def event(self, ex, st, ev):
        k = ev.kind
        if k == "root":
            self.conn = THIS
            if self.root.parent:
                self.conn = lambda_conn(ex, st, ev.fr, self.p, self.root, self.F)
                if self.conn is None:
                    self.conn = THIS
            self.src = self.find_source(ex, st, ev.fr) if self.sends else None
            return
        q = ev.q or ""
        if k == "branch":
            self.refresh(ex, st)
        elif k == "ret" and q == "kanon::Channel::IsWriting":
            if self.g(st, "W") is None:
                self.s(st, wv=ev.ret)
        elif k == "ret" and q == "kanon::EventLoop::IsEdgeTriggerMode":
            self.s(st, ev=ev.ret)
        elif k == "call" and q == "kanon::Channel::EnableWriting":
            self.s(st, W=True, rearm=True)
        elif k == "call" and q == "kanon::Channel::DisableWriting":
            self.col.ob("interest-until-drained")
            self.refresh(ex, st)
            if self.g(st, "empty") is not True:
                ex.violate(Violation("interest-until-drained", "write interest is turned off although output may be pending", ev))
            self.s(st, W=False)
        elif k == "call" and q == "kanon::Channel::DisableAll":
            self.s(st, W=False)
        elif k == "call" and q in RAW_WRITE and ev.fr.f.q != "kanon::sock::Write" and self.conn_side(ev.fr):
            self.direct(ex, st, ev, ev.args[1], ev.args[2])
        elif k == "ret" and q in RAW_WRITE and ev.fr.f.q != "kanon::sock::Write" and self.conn_side(ev.fr):
            self.s(st, err=('n', ev.ret))
            self.refresh(ex, st)
        elif k == "call" and q in LIST_WRITE:
            loc = self.deref_loc(ex, ev.args[0])
            self.use(ex, st, ev, loc)
            self.s(st, rearm=False)
            if not self.is_out(loc):
                self.fresh_data_first(ex, st, ev)
                self.col.ob("sent-once")
                if self.src is None or self.src[0] != "list" or loc != self.src[3] or self.g(st, "acc"):
                    ex.violate(Violation("sent-once", "writes a list that is not what is left of the new data", ev))
            elif self.src is not None and not self.g(st, "acc") and self.src[0] == "list":
                pass
        elif k == "ret" and q in LIST_WRITE:
            loc = self.deref_loc(ex, ev.args[0])
            self.col.ob("exact-removal")
            self.s(st, owe=(loc, ev.ret), err=('out', self.deref_loc(ex, ev.args[2])))
            self.refresh(ex, st)
        elif k == "mutate":
            self.mutate(ex, st, ev)
        elif k == "ctor" and (ev.fc or "") == "std::basic_string" and self.src is not None:
            a = ev.args or ()
            if len(a) >= 2 and self.src[0] in ("raw", "buf") and self.g(st, "done") == C(0) and \
                    self.ptr_matches(ex, st, a[0]) and self.len_matches(ex, st, a[1]):
                self.s(st, copies=self.g(st, "copies") | {("at", ev.loc)})
        elif k in ("declare",) and self.src is not None:
            cp = self.g(st, "copies")
            for c in list(cp):
                if isinstance(c, tuple) and c[0] == "at":
                    cp = cp - {c} | {ex.load(st, c[1])}
            self.s(st, copies=cp)
        elif k == "call" and q in HANDOVER:
            self.handover(ex, st, ev)

    def conn_side(self, fr):
        while fr is not None:
            if fr.f.q.startswith(CONN):
                return True
            if fr.f.q.startswith("kanon::EventLoop") or fr.f.q.startswith("kanon::Logger"):
                return False
            fr = fr.parent
        return False

    def fresh_data_first(self, ex, st, ev):
        self.col.ob("pending-first")
        self.refresh(ex, st)
        if self.g(st, "empty") is not True:
            ex.violate(Violation("pending-first", "new data is written to the socket although older output may be pending", ev))

    def direct(self, ex, st, ev, p, l):
        self.fresh_data_first(ex, st, ev)
        self.col.ob("sent-once")
        self.s(st, rearm=False)
        if self.src is None or self.g(st, "acc") or not self.ptr_matches(ex, st, p):
            ex.violate(Violation("sent-once", "writes something else than the next bytes of the new data", ev))
            return
        if not self.len_matches(ex, st, l):
            want = add(self.src[2], self.g(st, "done"), -1)
            lo, hi = st.interval(add(want, l, -1))
            if lo < 0:
                ex.violate(Violation("sent-once", "writes more than what is left of the new data", ev))

    def use(self, ex, st, ev, loc):
        o = self.g(st, "owe")
        if o is not None and o[0] == loc:
            ex.violate(Violation("exact-removal", "%s is used although the bytes the socket took were not removed from it" %
                                 leaf(loc).replace("kanon::", ""), ev))

    def mutate(self, ex, st, ev):
        loc, name = ev.loc, ev.extra
        o = self.g(st, "owe")
        if ev.fc == "kanon::Buffer" and not (self.src and loc == self.src[3]):
            return
        if name == "AdvanceRead":
            self.col.ob("exact-removal")
            if o is None or o[0] != loc or st.interval(add(ev.args[0], o[1], -1)) != (0, 0):
                if st.interval(ev.args[0]) != (0, 0):
                    ex.violate(Violation("exact-removal", "removes a number of bytes from %s that is not what the socket took" %
                                         leaf(loc).replace("kanon::", ""), ev))
            self.s(st, owe=None)
            if self.is_out(loc):
                self.s(st, empty=None)
            self.refresh(ex, st)
            return
        if name in ("AdvanceReadAll", "AdvanceAll"):
            self.refresh(ex, st)
            if (self.g(st, "err") or (0,))[0] != "fatal" and not (self.src and loc == self.src[3] and self.g(st, "acc")):
                ex.violate(Violation("sent-once", "pending output is thrown away without a write error", ev))
            self.s(st, owe=None, empty=True if self.is_out(loc) else self.g(st, "empty"))
            return
        if not self.is_out(loc):
            # the list was exchanged with the output list
            if name == "swap" and ev.args and self.is_out(self.deref_loc(ex, ev.args[0])) and self.src and loc == self.src[3]:
                self.queue(ex, st, ev, whole=True, swap=True)
                return
            if o is not None and o[0] == loc and name.startswith("Append"):
                self.use(ex, st, ev, loc)
            return
        if name in ("Append", "AppendChunkList", "swap"):
            self.use(ex, st, ev, loc)
            a = ev.args
            whole = False
            if name == "Append" and len(a) == 2:
                if self.src is None:
                    return
                whole = self.ptr_matches(ex, st, a[0]) and self.len_matches(ex, st, a[1])
            else:
                if self.src is None:
                    return
                if self.src[0] == "list":
                    self.use(ex, st, ev, self.src[3])
                    whole = self.deref_loc(ex, a[0]) == self.src[3] and not self.g(st, "acc")
                else:
                    whole = self.g(st, "done") == C(0) and self.same_content(ex, st, a[0])
            self.queue(ex, st, ev, whole, name == "swap")
        elif name in ("Prepend", "Clear", "Shrink") and name != "Shrink":
            ex.violate(Violation("sent-once", "pending output is changed other than at its end", ev))

    def queue(self, ex, st, ev, whole, swap):
        self.col.ob("sent-once")
        if not whole:
            ex.violate(Violation("sent-once", "what is queued is not exactly what is left of the new data", ev))
        if swap and self.g(st, "empty") is not True:
            ex.violate(Violation("pending-first", "pending output is exchanged for the new data", ev))
        e = self.g(st, "err")
        if e is not None and e[0] == 'n':
            self.refresh(ex, st)
        self.accept(ex, st, ev, "queued")
        self.s(st, pend=True, empty=None)
        self.refresh(ex, st)

    def handover(self, ex, st, ev):
        v = ev.args[0]
        if v[0] == 'a':
            v = st.mem.get(v[1], v)
        if self.src is None:
            return
        if v[0] == 'bind':
            args = v[2]
            if any(self.same_content(ex, st, a) for a in args if a):
                self.col.ob("hand-over")
                self.accept(ex, st, ev, "handed to the loop")
                fn = v[1] if isinstance(v[1], str) else (v[1][1] if v[1] and v[1][0] == 'fn' else None)
                self.col.data.append(("handed", fn))
        elif v[0] == 'lam':
            if any(self.same_content(ex, st, a) for _, a in v[2] if a):
                self.col.ob("hand-over")
                self.accept(ex, st, ev, "handed to the loop")
                self.col.data.append(("handed", v[1]))

    def finish(self, ex, f, out):
        fr = Frame(f, 0, None, {}, None, None, 0)
        for ret, st in out:
            self.refresh(ex, st)
            m = {n: self.get(st)[i] for n, i in I.items()}
            if m["owe"] is not None and (m["err"] or (0,))[0] != "fatal":
                ex.violate(Violation("exact-removal", "returns although the bytes the socket took were not removed from %s" %
                                     leaf(m["owe"][0]).replace("kanon::", ""), None, fr, f.line))
            if self.src is not None:
                self.col.ob("sent-once")
                if not m["acc"] and not m["nc"] and (m["err"] or (0,))[0] != "fatal":
                    ex.violate(Violation("sent-once", "a path of an established connection drops (part of) the new data",
                                         None, fr, f.line))
                if m["pend"] and m["W"] is not True and m["empty"] is not True and (m["err"] or (0,))[0] != "fatal":
                    ex.violate(Violation("interest-while-pending", "output is left pending without write interest",
                                         None, fr, f.line))
                if m["pend"]:
                    self.col.ob("interest-while-pending")
            if self.drains and m["et"]:
                self.col.ob("edge-drained")
                if m["empty"] is not True and not m["rearm"] and (m["err"] or (0,))[0] not in ("fatal", "again"):
                    ex.violate(Violation("edge-drained", "an edge triggered write handler stops with output pending although "
                                         "the socket may still be writable", None, fr, f.line))


def lambda_caps(prog, f):
    r = getattr(prog, "_lamcaps", None)
    if r is None:
        r = {}
        for g in prog.funcs.values():
            for n in g.x or ():
                if n.get("k") == "lambda":
                    r[n["f"]] = n["caps"]
        prog._lamcaps = r
    return r.get(f.id, [])


def lambda_conn(ex, st, fr, prog, f, F):
    """the connection a lambda works on: its captured this, or the captured pointer"""
    for c in lambda_caps(prog, f):
        if c.get("this"):
            return THIS
        if "shared_ptr" in c.get("t", "") or "Connection" in c.get("t", ""):
            loc = ('v', fr.ctx, c["v"])
            v = ex.load(st, loc, "T *")
            return ('p', v)
    return None


def reaches(prog, f, names, memo=None):
    """does f call (transitively, also through bound functions) one of names?"""
    seen, work = set(), [f.id]
    while work:
        i = work.pop()
        if i in seen:
            continue
        seen.add(i)
        g = prog.funcs.get(i)
        if g is None or not g.x:
            continue
        for n in g.x:
            if n.get("k") in ("call", "ctor"):
                if n.get("q") in names:
                    return True
                if n.get("f"):
                    work.append(n["f"])
            elif n.get("k") in ("fref", "mref", "lambda") and n.get("f"):
                work.append(n["f"])
    return False


APPEND = ("kanon::ChunkList::Append", "kanon::ChunkList::AppendChunkList")


def has_source(prog, f):
    if f.kind in ("ctor", "dtor"):
        return False
    ps = f.params
    if f.parent:
        return any(c.get("c") in NONTRIVIAL for c in lambda_caps(prog, f))
    for i, p in enumerate(ps):
        if p.get("c") in NONTRIVIAL:
            return True
        if p["t"].replace("const ", "").replace(" const", "").strip() in ("void *", "char *") and i + 1 < len(ps):
            return True
    return False


def mk_send(prog, f, col):
    m = SendMon(prog, f, col)
    m.sends = has_source(prog, f) and reaches(prog, f, APPEND)
    m.drains = not m.sends and reaches(prog, f, LIST_WRITE) and not has_source(prog, f)
    return [m]


def P05(prog, rep, tier):
    rep.rule("pending-first", "new data is written directly only while no output is pending, and is queued behind what is pending")
    rep.rule("sent-once", "on every path of an established connection the new data is written, queued or handed to the loop: "
             "exactly once, completely, the rest exactly after what the socket took")
    rep.rule("exact-removal", "exactly the bytes a socket write took are removed from the list that was written, before it is used again")
    rep.rule("interest-while-pending", "a send that leaves output pending leaves write interest on")
    rep.rule("interest-until-drained", "write interest is turned off only while no output is pending")
    rep.rule("edge-drained", "an edge triggered write handler stops only when everything is written, the socket would block "
             "or failed, or re-arms the interest")
    rep.rule("hand-over", "from another thread the complete data is handed to the loop once")
    rep.rule("list-write", "the list writer offers the chunks in order from the first, stops at the first short write or error, "
             "returns exactly what the socket took and reports errors")
    conn_fields(prog)
    roots = conn_roots(prog)
    data = drive(prog, roots, mk_send, rep, opaque=OPAQUE, opaque_fn={"kanon::ChunkListWriteFd"},
                 no_inline=local_fns(prog), havoc_cb=True)
    handed = {d[1] for d in data if d[0] == "handed" and d[1]}
    ids = {f.id for f in roots}
    for h in sorted(handed):
        f = prog.funcs.get(h)
        rep.ob("hand-over")
        if f is None or h not in ids or not (has_source(prog, f) and reaches(prog, f, APPEND)):
            rep.violate("hand-over", f.q if f else str(h), f.loc if f else "", "data is handed to a function that does not send it")
    list_writer(prog, rep)
    for r, n in (("pending-first", 6), ("sent-once", 20), ("exact-removal", 4), ("interest-while-pending", 3),
                 ("interest-until-drained", 3), ("edge-drained", 1), ("hand-over", 3), ("list-write", 4)):
        rep.need(r, n)


DEEP = ("deep",)
SYS_WRITE = ("write", "send", "writev", "sendmsg", "pwritev", "writev2")


class ListWrite(Monitor):
    """the function that writes a chunk list to a descriptor.
    state: (spans offered in this round, chunk location of the last span, pending result,
            sum of accepted bytes, failed, exact)"""
    init = ((), None, None, C(0), False, True)

    def __init__(self, prog, root, col):
        self.p, self.root, self.col = prog, root, col
        self.rd, self.wr = "kanon::Chunk::read_index_", "kanon::Chunk::write_index_"

    def chunk_of(self, base):
        """the chunk whose readable bytes start at this address"""
        c0, d = lin(base)
        for t, k in d.items():
            if k == 1 and t[0] == 's' and len(t) == 4 and t[2] == 'init' and t[3][0] == 'f' and t[3][2] == self.rd:
                l = t[3][1]
                if len(d) == 2 and any(k2 == 1 and (t2 == ('a', l) or ('p', t2) == l) for t2, k2 in d.items()):
                    return l
        return DEEP if contains(base, lambda y: y == ('s', 'u', 'deep')) else None

    def blurred(self, st, n):
        """the result was compared with a sum that was merged over loop rounds"""
        return any(any(k == n for k, _ in form) and any(k[2:3] in (('w',), ('deepv',), ('deep',)) for k, _ in form) for form in st.facts)

    def total(self, spans):
        t = C(0)
        for b, l in spans:
            t = add(t, l)
        return t

    def settle(self, ex, st, ev):
        sp, last, n, acc, failed, exact = self.get(st)
        if n is not None:
            d = st.decide(cmpv('<', n, C(0)))
            if d is True:
                self.set(st, ((), last, None, acc, True, exact))
            elif d is False:
                acc2 = add(acc, n)
                self.set(st, (sp, last, ("taken", n), acc2, failed, exact))

    def event(self, ex, st, ev):
        q = ev.q or ""
        if ev.kind == "write" and ev.loc and ev.loc[0] == 'f' and ev.loc[2].endswith(("::iov_base", "::iov_len")):
            self.col.ob("list-write")
            sp, last, n, acc, failed, exact = self.get(st)
            arr = ev.loc[1]
            k = arr[2] if arr[0] == 'i' else C(0)
            if n is not None and isinstance(n, tuple) and n[0] == "taken":
                # next round
                full = st.decide(cmpv('<', n[1], self.total(sp)))
                if exact and full is not False and not self.blurred(st, n[1]):
                    ex.violate(Violation("list-write", "goes on to later chunks although the socket may not have taken all of "
                                         "the earlier ones", ev))
                sp, n = (), None
            if ev.loc[2].endswith("iov_base"):
                c = self.chunk_of(ev.val)
                if c == DEEP:
                    exact, sp, c = False, (), None
                elif c is None:
                    ex.violate(Violation("list-write", "offers something else than the readable bytes of a chunk", ev))
                if last is not None and c == last:
                    ex.violate(Violation("list-write", "offers the same chunk twice", ev))
                if k[0] == 'c' and exact and k[1] != len(sp):
                    ex.violate(Violation("list-write", "chunks are not offered in order", ev))
                if c is not None and exact and not self.follows(last, c):
                    ex.violate(Violation("list-write", "a chunk is skipped or offered out of order", ev))
                if k[0] != 'c' or len(sp) >= 3 or contains(c or C(0), lambda y: isinstance(y, tuple) and y[:3] in (('s', 'x', 'w'), ('s', 'u', 'w'))):
                    exact, sp = False, ()
                self.set(st, (sp + ((ev.val, None),) if exact else (), c if exact else None, n, acc, failed, exact))
            else:
                if exact and sp and sp[-1][1] is None:
                    self.set(st, (sp[:-1] + ((sp[-1][0], ev.val),), last, n, acc, failed, exact))
                if exact:
                    c = last
                    want = add(ex.load(st, ('f', c, self.wr), "unsigned int"), ex.load(st, ('f', c, self.rd), "unsigned int"), -1) if c else None
                    if want is None or st.interval(add(want, ev.val, -1)) != (0, 0):
                        ex.violate(Violation("list-write", "the offered length is not the number of readable bytes of the chunk", ev))
            return
        if ev.kind == "call" and q in SYS_WRITE:
            self.settle(ex, st, ev)
            sp, last, n, acc, failed, exact = self.get(st)
            self.col.ob("list-write")
            if failed:
                ex.violate(Violation("list-write", "writes again after a failed write", ev))
            if q in ("write", "send"):
                if isinstance(n, tuple) and n and n[0] == "taken":
                    full = st.decide(cmpv('<', n[1], self.total(sp)))
                    if exact and full is not False and not self.blurred(st, n[1]):
                        ex.violate(Violation("list-write", "goes on to later chunks although the socket may not have taken all of "
                                             "the earlier ones", ev))
                c = self.chunk_of(ev.args[1])
                want = add(ex.load(st, ('f', c, self.wr), "unsigned int"), ex.load(st, ('f', c, self.rd), "unsigned int"), -1) if c else None
                if c is None or c == DEEP or st.interval(add(want, ev.args[2], -1)) != (0, 0):
                    ex.violate(Violation("list-write", "writes something else than the readable bytes of a chunk", ev))
                elif not self.follows(last, c):
                    ex.violate(Violation("list-write", "a chunk is skipped or written out of order", ev))
                self.set(st, (((ev.args[1], ev.args[2]),), c, None, acc, failed, exact))
            else:
                if isinstance(n, tuple) and n and n[0] == "taken":
                    sp, n = (), None
                    self.set(st, (sp, last, n, acc, failed, False))
                    exact = False
                lo, hi = st.interval(ev.args[2])
                if hi > 1024:
                    for form, (flo, fhi, _) in list(st.facts.items()):
                        for sg, top in ((1, fhi), (-1, -flo)):
                            if top < INF:
                                rest = add(ev.args[2], mk(0, {k: x * sg for k, x in form}), -1)
                                hi = min(hi, top + st.interval(rest)[1])
                if hi > 1024 and not contains(ev.args[2], lambda y: isinstance(y, tuple) and y[2:3] == ('w',)):
                    ex.violate(Violation("list-write", "more chunks than a gathering write takes (IOV_MAX) may be passed", ev))
                if exact and sp and ev.args[2][0] == 'c' and ev.args[2][1] != len(sp):
                    ex.violate(Violation("list-write", "passes a number of chunks that is not the number it filled in", ev))
        elif ev.kind == "ret" and q in SYS_WRITE:
            sp, last, n, acc, failed, exact = self.get(st)
            self.set(st, (sp, last, ev.ret, acc, failed, exact))
        elif ev.kind == "branch":
            self.settle(ex, st, ev)

    def follows(self, last, c):
        if c is None:
            return True
        tail = lambda l: l
        if last is None:
            # the first one: its node is the list's first
            return True
        if contains(c, lambda y: isinstance(y, tuple) and y[:3] in (('s', 'x', 'w'), ('s', 'u', 'w'))) or \
                contains(last, lambda y: isinstance(y, tuple) and y[:3] in (('s', 'x', 'w'), ('s', 'u', 'w'))):
            return True
        # node of c = node of last -> next
        node = last[1] if last[0] == 'f' else last
        def d(y):
            return isinstance(y, tuple) and len(y) >= 4 and y[0] == 's' and y[2] == 'init' and contains(y[3], lambda z: z == node)
        n = c[1] if c[0] == 'f' else c
        return n[0] == 'p' and d(n[1]) and depth(n[1]) <= depth(node) + 4

    def finish(self, ex, f, out):
        fr = Frame(f, 0, None, {}, None, None, 0)
        err = [p for p in f.params if p["t"].endswith("&") and not p["c"]]
        for ret, st in out:
            self.settle(ex, st, None)
            sp, last, n, acc, failed, exact = self.get(st)
            self.col.ob("list-write", 1)
            if ret is None or st.interval(add(ret, acc, -1)) != (0, 0):
                if not (contains(ret or C(0), lambda y: isinstance(y, tuple) and y[2:3] == ('w',)) or not exact):
                    ex.violate(Violation("list-write", "does not return exactly the number of bytes the socket took", None, fr, f.line))
            if err:
                v = st.mem.get(('p', ('s', 'nn', 'param', err[0]["n"])))
                errno = ex.load(st, ('g', 'errno'))
                if failed and v != errno:
                    ex.violate(Violation("list-write", "a failed write is not reported", None, fr, f.line))
                if not failed and v is not None and st.interval(v) != (0, 0):
                    ex.violate(Violation("list-write", "an error is reported without a failed write", None, fr, f.line))


def list_writer(prog, rep):
    roots = []
    for q in LIST_WRITE:
        roots += prog.need(q)
    drive(prog, roots, lambda p, f, c: [ListWrite(p, f, c)], rep,
          opaque=(OPAQUE - {"kanon::ChunkList", "kanon::Chunk"}), havoc_cb=False, gen_min=True)
