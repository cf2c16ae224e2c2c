"""Connection rules, continued: input (P06), graceful shutdown (P07), up/down
transitions (P08), high water mark (P37)."""
from absint import *
from program import Broken
from drive import drive, is_root, address_taken
from rules_lock import leaf, role, THIS
from rules_conn import (CONN, OPAQUE, EAGAIN, HANDOVER, LIST_WRITE, APPEND, RAW_WRITE, conn_fields, conn_roots, state_enum, local_fns,
                        lambda_conn, lambda_caps, reaches, field_tail)

READER = "kanon::BufferReadFromFd"


def exit_frame(f):
    return Frame(f, 0, None, {}, None, None, 0)


def loc_of(v):
    return v[1] if v[0] == 'a' else ('p', v)


class RecMon(Monitor):
    """monitor whose state is a fixed record"""
    FIELDS = ()

    def __init__(self, prog, root, col):
        self.p, self.root, self.col = prog, root, col
        self.F = conn_fields(prog)
        self.S = state_enum(prog)
        self.I = {n: i for i, (n, _) in enumerate(self.FIELDS)}
        self.init = tuple(v for _, v in self.FIELDS)
        self.conn = THIS

    def g(self, st, n):
        return self.get(st)[self.I[n]]

    def s(self, st, **kw):
        t = list(self.get(st))
        for k, v in kw.items():
            t[self.I[k]] = v
        self.set(st, tuple(t))

    def bad(self, ex, rule, msg, ev=None):
        if ev is None:
            ex.violate(Violation(rule, msg, None, exit_frame(self.root), self.root.line))
        else:
            ex.violate(Violation(rule, msg, ev))

    def find_conn(self, ex, st, fr):
        if self.root.parent:
            self.conn = lambda_conn(ex, st, fr, self.p, self.root, self.F) or THIS

    def fld(self, n):
        return ('f', self.conn, self.F[n])

    def state_is(self, ex, st, n):
        return st.decide(cmpv('==', ex.load(st, self.fld("state")), C(self.S[n])))

    def is_f(self, loc, n):
        return field_tail(loc, self.F[n])

    def out_size(self, ex, st):
        loc = self.fld("out")
        v = st.mem.get(('f', loc, '$size'))
        return v if v is not None else ('s', 'u', 'size', ex.load(st, ('f', loc, '$ver')))


# ---------------------------------------------------------------- P06: the reader
class ReadMon(RecMon):
    """BufferReadFromFd.  vec: filled iovec entries (index -> ['base','len']), n: result"""
    FIELDS = (("vec", ()), ("wp", ()), ("n", None), ("muts", ()), ("W", None), ("big", None), ("neg", None), ("errset", None))

    def buf(self):
        for p in self.root.params:
            if p.get("c") == "kanon::Buffer":
                return ('p', ('s', 'nn', 'param', p["n"]))
        raise Broken("%s has no buffer parameter" % self.root.q)

    def err(self):
        for p in self.root.params:
            if p["t"].endswith("&") and not p.get("c"):
                return ('p', ('s', 'nn', 'param', p["n"]))
        return None

    def refresh(self, ex, st):
        n = self.g(st, "n")
        if n is None:
            return
        if self.g(st, "neg") is None:
            d = st.decide(cmpv('<', n, C(0)))
            if d is not None:
                self.s(st, neg=d)
        if self.g(st, "big") is None and self.g(st, "W") is not None:
            d = st.decide(cmpv('<', self.g(st, "W"), n))
            if d is not None:
                self.s(st, big=d)

    def event(self, ex, st, ev):
        q = ev.q or ""
        k = ev.kind
        B = self.buf()
        if k == "ret" and q == "kanon::Buffer::GetWriteBegin":
            self.s(st, wp=(ev.ret, ex.load(st, ('f', B, '$ver'))))
        elif k == "write" and ev.loc[0] == 'f' and ev.loc[2] in ("iovec::iov_base", "iovec::iov_len") and ev.loc[1][0] == 'i':
            i = ev.loc[1][2]
            i = i[1] if i[0] == 'c' else None
            d = dict(self.g(st, "vec"))
            e = list(d.get(i, (None, None)))
            e[0 if ev.loc[2].endswith("base") else 1] = ev.val
            d[i] = tuple(e)
            self.s(st, vec=tuple(sorted(d.items(), key=repr)))
        elif k == "call" and q in ("readv", "read", "recv"):
            self.col.ob("read-in-place")
            if self.g(st, "n") is not None:
                self.bad(ex, "read-in-place", "reads a second time", ev)
            ver = ex.load(st, ('f', B, '$ver'))
            W = ('s', 'u', 'pure', 'kanon::Buffer::GetWritableSize', ver, ())
            if q == "readv":
                spans = dict(self.g(st, "vec"))
                lo, hi = st.interval(ev.args[2])
                if hi > 2 or hi not in (1, 2):
                    self.bad(ex, "read-in-place", "passes more vectors than were filled in", ev)
                    return
                spans = [spans.get(i, (None, None)) for i in range(int(hi))]
            else:
                spans = [(ev.args[1], ev.args[2])]
            if any(b is None or l is None for b, l in spans):
                self.bad(ex, "read-in-place", "a vector is passed that was not filled in", ev)
                return
            b, l = spans[0]
            wp = self.g(st, "wp")
            if not (wp and b == wp[0] and wp[1] == ver) or st.interval(add(l, W, -1)) != (0, 0):
                self.bad(ex, "read-in-place", "the first part is not the buffer's current free space", ev)
            extra = None
            if len(spans) == 2:
                b, l = spans[1]
                extra = b
                size = self.array_size(b)
                if size is None or st.interval(l)[1] > size:
                    self.bad(ex, "read-in-place", "the overflow part is larger than its array", ev)
            self.s(st, W=W, vec=("extra", extra))
        elif k == "ret" and q in ("readv", "read", "recv"):
            self.s(st, n=ev.ret)
            if self.g(st, "vec")[1] is None:
                st.assume(cmpv('<=', ev.ret, self.g(st, "W")), True)
            self.refresh(ex, st)
        elif k == "branch":
            self.refresh(ex, st)
        elif k == "mutate" and ev.loc == B:
            self.refresh(ex, st)
            m = self.g(st, "muts")
            n, W = self.g(st, "n"), self.g(st, "W")
            if n is None:
                # reserving space before the read is fine
                return
            z = lambda a, b: st.interval(add(a, b, -1)) == (0, 0)
            name = ev.extra
            tag = "?"
            if name == "AdvanceWrite" and len(ev.args) == 1:
                tag = "adv-n" if z(ev.args[0], n) else "adv-w" if z(ev.args[0], W) else "?"
            elif name == "SetWriteIndex" and len(ev.args) == 1:
                cap = ev.args[0]
                tag = "adv-w" if cap[0] == 's' and len(cap) > 3 and cap[2:4] == ('pure', 'kanon::Buffer::GetCapacity') else "?"
            elif name == "Append" and len(ev.args) == 2:
                tag = "extra" if ev.args[0] == self.g(st, "vec")[1] and z(ev.args[1], add(n, W, -1)) else "?"
            elif name.startswith("Reserve") or name == "Shrink":
                tag = None
            if tag:
                self.s(st, muts=m + (tag,) if len(m) < 4 else m)

    def array_size(self, b):
        if b[0] != 'a' or b[1][0] != 'v':
            return None
        for n in self.root.x:
            if n.get("k") == "decl":
                for d in n.get("vars", ()):
                    if d.get("v") == b[1][2] and "alen" in d and "char" in d["t"]:
                        return d["alen"]
        return None

    def finish(self, ex, f, out):
        e = self.err()
        for ret, st in out:
            self.refresh(ex, st)
            n, W, neg, big, m = (self.g(st, x) for x in ("n", "W", "neg", "big", "muts"))
            if n is None:
                self.bad(ex, "all-bytes", "a path returns without reading")
                continue
            self.col.ob("all-bytes")
            ev = st.mem.get(e) if e else None
            errno = ex.load(st, ('g', 'errno'))
            if neg is not False:
                if m:
                    self.bad(ex, "all-bytes", "the buffer is changed although the read failed")
                if e and (ev is None or ev != errno):
                    self.bad(ex, "read-error", "a failed read does not report its error")
                self.col.ob("read-error")
            if neg is not True:
                if e and ev is not None and st.interval(ev) != (0, 0):
                    self.bad(ex, "read-error", "an error is reported although the read succeeded")
                full = ("adv-w", "extra")
                if big is False and m not in (("adv-n",),):
                    self.bad(ex, "all-bytes", "data that fits the buffer is not added exactly once")
                if big is True and m != full:
                    self.bad(ex, "all-bytes", "data that exceeds the free space is not kept completely and in order")
                if big is None and m != ("adv-n",) and not (neg is None and not m):
                    self.bad(ex, "all-bytes", "data may be added that was not read, or dropped")
                if big is None and self.g(st, "vec")[1] is not None and m == ("adv-n",):
                    self.bad(ex, "all-bytes", "data that exceeds the free space is not kept completely and in order")
                if ret is None or (st.interval(add(ret, n, -1)) != (0, 0) and not contains(ret, lambda y: y == n)):
                    self.bad(ex, "all-bytes", "does not return the number of bytes read")


# ---------------------------------------------------------------- P06: the handlers
class InMon(RecMon):
    FIELDS = (("ph", None), ("e", None), ("again", None), ("closed", 0), ("errd", 0), ("msg", 0), ("nomsg", None), ("et", None), ("ev", None),
              ("down", None), ("reads", False))

    def refresh(self, ex, st):
        if self.g(st, "ph") == "err" and self.g(st, "again") is None:
            d = st.decide(cmpv('==', self.g(st, "e"), C(EAGAIN)))
            if d is not None:
                self.s(st, again=d)
        if self.g(st, "et") is None and self.g(st, "ev") is not None:
            d = st.decide(truthv(self.g(st, "ev")))
            if d is not None:
                self.s(st, et=d)
        if self.g(st, "ph") == "data":
            if self.g(st, "msg") == 0 and self.g(st, "nomsg") is None:
                d = st.decide(truthv(ex.load(st, self.fld("msg"), "T *")))
                if d is not None:
                    self.s(st, nomsg=not d)
            if self.g(st, "msg") or self.g(st, "nomsg"):
                self.s(st, down=True if self.state_is(ex, st, "kDisconnected") is True or
                       (self.state_is(ex, st, "kConnected") is False and self.state_is(ex, st, "kDisconnecting") is False) else None)

    def settle(self, ex, st, ev):
        """the outcome of the last read must have been dealt with"""
        self.refresh(ex, st)
        ph = self.g(st, "ph")
        if ph == "data":
            self.col.ob("deliver")
            if not self.g(st, "msg") and not self.g(st, "nomsg"):
                self.bad(ex, "deliver", "data was read but the message callback does not run", ev)
        elif ph == "eof":
            self.col.ob("eof-closes")
            if self.g(st, "closed") != 1:
                self.bad(ex, "eof-closes", "end of file does not close the connection (once)", ev)
        elif ph == "err":
            self.col.ob("errors-reported")
            a = self.g(st, "again")
            if a is not True and not self.g(st, "errd"):
                self.bad(ex, "errors-reported", "a read error is not reported", ev)

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        if k == "root":
            self.find_conn(ex, st, ev.fr)
        elif k == "branch":
            self.refresh(ex, st)
        elif k == "ret" and q == "kanon::EventLoop::IsEdgeTriggerMode":
            self.s(st, ev=ev.ret)
        elif k == "call" and q == READER:
            self.col.ob("deliver")
            self.settle(ex, st, ev)
            if self.g(st, "ph") in ("eof", "err") and not self.g(st, "again"):
                self.bad(ex, "eof-closes", "reads again after end of file or an error", ev)
            if not self.is_f(loc_of(ev.args[0]), "in"):
                self.bad(ex, "deliver", "reads into something else than the input buffer", ev)
            e = ex.load(st, loc_of(ev.args[2]))
            if st.interval(e) != (0, 0):
                self.bad(ex, "errors-reported", "the error of a read is looked at without having been cleared before", ev)
            self.s(st, ph=None, e=None, again=None, closed=0, errd=0, msg=0, nomsg=None, down=None)
        elif k == "ret" and q == READER:
            e = ex.load(st, loc_of(ev.args[2]))
            n = ev.ret
            out = []
            for kind in ("err", "eof", "data"):
                s2 = st.copy()
                ok = s2.assume(cmpv('!=' if kind == "err" else '==', e, C(0)), True)
                if ok:
                    ok = s2.assume(cmpv('<=', C(2 ** 62), n), True) if kind == "err" else s2.assume(cmpv('==', n, C(0)), True) \
                        if kind == "eof" else s2.assume(cmpv('<=', C(1), n), True) and s2.assume(cmpv('<=', n, C(2 ** 40)), True)
                if ok:
                    self.s(s2, ph=kind, e=e, reads=True)
                    out.append(s2)
            return out
        elif k == "call" and q == CONN + "::HandleError":
            self.refresh(ex, st)
            if self.g(st, "ph") == "err":
                if self.g(st, "again") is not False:
                    self.bad(ex, "errors-reported", "a read that would block is reported as an error", ev)
                self.s(st, errd=1)
            elif self.g(st, "ph"):
                self.bad(ex, "errors-reported", "a successful read is reported as an error", ev)
        elif k == "call" and q == CONN + "::HandleClose" or \
                (k == "write" and self.is_f(ev.loc, "state") and st.decide(cmpv('==', ev.val or C(0), C(self.S["kDisconnected"]))) is True
                 and not any(fr.f.q == CONN + "::HandleClose" for fr in chain(ev.fr))):
            ph = self.g(st, "ph")
            if ph == "eof":
                self.s(st, closed=min(2, self.g(st, "closed") + 1))
            elif ph == "data":
                self.bad(ex, "eof-closes", "the connection is closed although data was read", ev)
            elif ph == "err":
                self.refresh(ex, st)
                if self.g(st, "again") is not False:
                    self.bad(ex, "eof-closes", "the connection is closed because a read would block", ev)
        elif k == "callback" and self.is_f(ev.loc, "msg"):
            self.col.ob("deliver")
            ph = self.g(st, "ph")
            if ph != "data":
                self.bad(ex, "deliver", "the message callback runs without new data", ev)
            if not any(a and a[0] == 'a' and self.is_f(a[1], "in") for a in ev.args):
                self.bad(ex, "deliver", "the message callback does not get the input buffer", ev)
            if self.g(st, "msg"):
                self.bad(ex, "deliver", "the message callback runs twice for one read", ev)
            self.s(st, msg=1)
        elif k == "mutate" and self.is_f(ev.loc, "in"):
            self.refresh(ex, st)
            if self.g(st, "ph") == "data" and not self.g(st, "msg") and not self.g(st, "nomsg") and \
                    ev.extra not in ("Shrink", "ReserveWriteSpace"):
                self.bad(ex, "deliver", "the input buffer is changed before its data was delivered", ev)

    def finish(self, ex, f, out):
        for ret, st in out:
            if not self.g(st, "reads"):
                continue
            self.settle(ex, st, None)
            if self.g(st, "et") and self.g(st, "ph") == "data":
                self.col.ob("edge-read-all")
                if not self.g(st, "down"):
                    self.bad(ex, "edge-read-all", "an edge triggered read handler stops before the socket is drained")
            elif self.g(st, "et"):
                self.col.ob("edge-read-all")


def chain(fr):
    while fr is not None:
        yield fr
        fr = fr.parent


def P06(prog, rep, tier):
    rep.rule("read-in-place", "the socket is read once into the buffer's current free space plus an array that holds the overflow part")
    rep.rule("all-bytes", "exactly the bytes read are added to the buffer, first the part in place, then the overflow; the count is returned")
    rep.rule("read-error", "an error is reported exactly when the read failed")
    rep.rule("deliver", "after every read that got data the message callback runs once with the input buffer, untouched")
    rep.rule("eof-closes", "end of file, and nothing but it, closes the connection")
    rep.rule("errors-reported", "every read error except would-block is reported and nothing else is")
    rep.rule("edge-read-all", "an edge triggered handler reads until the socket is drained, closed or the connection is down")
    drive(prog, prog.need(READER), lambda p, f, c: [ReadMon(p, f, c)], rep, opaque=OPAQUE, havoc_cb=False)
    roots = [f for f in conn_roots(prog) if reaches(prog, f, (READER,))]
    if not roots:
        raise Broken("no read handler found")
    drive(prog, roots, lambda p, f, c: [InMon(p, f, c)], rep, opaque=OPAQUE, opaque_fn={READER}, no_inline=local_fns(prog), havoc_cb=True)
    for r, n in (("read-in-place", 1), ("all-bytes", 1), ("read-error", 1), ("deliver", 4), ("eof-closes", 2), ("errors-reported", 2),
                 ("edge-read-all", 1)):
        rep.need(r, n)


# ---------------------------------------------------------------- P37
def calls_hw(prog, fid, F):
    """does this function (lambda or member) call the high water callback?"""
    f = prog.funcs.get(fid)
    if f is None:
        return False
    for n in f.x or ():
        if n.get("k") == "call" and n.get("q") == "std::function::operator()":
            o = n.get("o", -1)
            while isinstance(o, int) and o >= 0 and f.x[o].get("k") in ("cast", "alias"):
                o = f.x[o]["a"]
            if isinstance(o, int) and o >= 0 and f.x[o].get("k") == "field" and f.x[o].get("n") == F["hw"]:
                return True
    return False


class HwMon(RecMon):
    FIELDS = (("s0", None), ("why", None), ("amt", None), ("app", False), ("ok", True))

    def refresh(self, ex, st):
        if self.g(st, "why") is not None or self.g(st, "amt") is not None:
            return
        mark = ex.load(st, self.fld("mark"), "unsigned long")
        s0 = self.g(st, "s0")
        if st.decide(truthv(ex.load(st, self.fld("hw"), "T *"))) is False:
            self.s(st, why="nocb")
        elif st.decide(cmpv('<=', mark, s0)) is True:
            self.s(st, why="above")

    def settled(self, ex, st):
        """is what is queued now accounted for?"""
        s1 = self.out_size(ex, st)
        amt, why = self.g(st, "amt"), self.g(st, "why")
        if amt is not None:
            return amt == ('?',) or st.interval(add(amt, s1, -1)) == (0, 0)
        if why in ("nocb", "above"):
            return True
        if why is not None and st.interval(add(s1, why[1], -1))[1] <= 0:
            return True
        if st.interval(s1)[1] <= 0 or st.interval(add(s1, self.g(st, "s0"), -1))[1] <= 0:
            return True
        return st.decide(cmpv('<', s1, ex.load(st, self.fld("mark"), "unsigned long"))) is True

    def below(self, ex, st, ev):
        """the branch just taken says: some amount is below the mark"""
        mark = ex.load(st, self.fld("mark"), "unsigned long")
        v, t = ev.val, ev.extra
        while v[0] == 'not':
            v, t = v[1], not t
        if v[0] != 'cmp':
            return
        d = lin(v[2] if v[2] and v[2][0] in ('l', 'c', 's') else mk(0, dict(v[2])))
        ml = lin(mark)[1]
        if len(ml) != 1:
            return
        m = next(iter(ml))
        c = dict(v[2]).get(m)
        if c not in (1, -1):
            return
        # amount (without mark) = c0-free part
        rest = {k: x for k, x in dict(v[2]).items() if k != m}
        X = mk(0, {k: -x * c for k, x in rest.items()})
        if st.decide(cmpv('<', X, mark)) is True:
            return X

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        if k == "root":
            self.find_conn(ex, st, ev.fr)
            s0 = self.out_size(ex, st)
            self.s(st, s0=s0)
        elif k == "branch":
            self.refresh(ex, st)
            if self.g(st, "why") is None and self.g(st, "amt") is None:
                X = self.below(ex, st, ev)
                if X is not None and X != self.g(st, "s0"):
                    self.s(st, why=("lt", X))
            if not self.g(st, "ok") and self.settled(ex, st):
                self.s(st, ok=True)
        elif k == "mutate" and self.is_f(ev.loc, "out"):
            if ev.extra in ("Append", "AppendChunkList", "swap"):
                self.s(st, app=True)
            self.refresh(ex, st)
            self.s(st, ok=self.settled(ex, st))
        elif k == "callback" and self.is_f(ev.loc, "hw"):
            if not self.root.parent and CONN in self.root.q:
                self.schedule(ex, st, ev, [a for a in ev.args])
        elif k == "call" and q in HANDOVER:
            v = ev.args[0]
            if v[0] == 'a':
                v = st.mem.get(v[1], v)
            args = None
            hwv = ex.load(st, self.fld("hw"), "T *")
            if v[0] == 'bind':
                fn = v[1]
                if fn == hwv or (isinstance(fn, tuple) and fn[0] == 's' and fn[2:] == ('init', self.fld("hw"))) or (isinstance(fn, tuple) and fn[0] == 'fn' and calls_hw(self.p, fn[1], self.F)) or \
                        (isinstance(fn, str) and calls_hw(self.p, fn, self.F)):
                    args = list(v[2])
            elif v[0] == 'lam' and (calls_hw(self.p, v[1], self.F) or any(self.is_hw(ex, st, a, hwv) for _, a in v[2])):
                args = [a for _, a in v[2]]
            if args is not None:
                self.schedule(ex, st, ev, args)

    def is_hw(self, ex, st, a, hwv):
        """a copy of the callback"""
        if a is not None and a[0] == 'a':
            a = ex.load(st, a[1], "T *")
        return a == hwv or isinstance(a, tuple) and len(a) == 4 and a[0] == 's' and a[2:] == ('init', self.fld("hw"))

    def schedule(self, ex, st, ev, args):
        self.col.ob("crossing-only")
        mark = ex.load(st, self.fld("mark"), "unsigned long")
        s0 = self.g(st, "s0")
        if self.g(st, "amt") is not None:
            self.bad(ex, "crossing-once", "the high water callback is scheduled twice", ev)
        vals = []
        for a in args:
            if a is None:
                continue
            if a[0] == 'a':
                a = st.mem.get(a[1], a)
            vals.append(a)
        amt = None
        for a in vals:
            if a[0] in ('s', 'l', 'c') and st.decide(cmpv('<=', mark, a)) is True:
                amt = a
        if amt is None:
            self.bad(ex, "crossing-only", "the high water callback is scheduled although the amount may be below the mark", ev)
            amt = ('?',)
        if st.interval(s0) != (0, 0) and st.decide(cmpv('<', s0, mark)) is not True:
            self.bad(ex, "crossing-only", "the high water callback is scheduled although the output may have been above the mark before", ev)
        self.s(st, amt=amt)
        self.s(st, ok=self.settled(ex, st))

    def finish(self, ex, f, out):
        for ret, st in out:
            self.refresh(ex, st)
            if self.g(st, "amt") is not None or self.g(st, "app"):
                self.col.ob("crossing-once")
                if not self.g(st, "ok") and not self.settled(ex, st):
                    self.bad(ex, "crossing-once", "output may rise to the mark without the high water callback being scheduled"
                             if self.g(st, "amt") is None else "the amount passed to the high water callback is not what is queued")


class HwSet(RecMon):
    """the setter stores the mark and the callback"""

    def finish(self, ex, f, out):
        for ret, st in out:
            self.col.ob("configured")
            for p in f.params:
                want = self.fld("hw") if "function" in p["t"] or p.get("c") == "std::function" else self.fld("mark")
                if want not in st.mem or st.mem[want] == ('s',) + tuple(st.mem[want][1:2]) + ('init', want):
                    self.bad(ex, "configured", "the configured %s is not stored" % leaf(want).replace("kanon::", ""))


def P37(prog, rep, tier):
    rep.rule("configured", "the mark and callback given are the ones used")
    rep.rule("crossing-only", "the callback is scheduled only where the pending output was below the mark and now reaches it")
    rep.rule("crossing-once", "on every path that adds output and crosses the mark the callback is scheduled exactly once with the "
             "resulting amount")
    roots = [f for f in conn_roots(prog) if reaches(prog, f, APPEND + ("kanon::ChunkList::swap",))]
    drive(prog, roots, lambda p, f, c: [HwMon(p, f, c)], rep, opaque=OPAQUE, opaque_fn={"kanon::ChunkListWriteFd"},
          no_inline=local_fns(prog), havoc_cb=True)
    drive(prog, [f for f in prog.funcs.values() if f.q == CONN + "::SetHighWaterMarkCallback"],
          lambda p, f, c: [HwSet(p, f, c)], rep, opaque=OPAQUE, havoc_cb=False)
    rep.need("configured", 1)
    rep.need("crossing-only", 3)
    rep.need("crossing-once", 6)




# ---------------------------------------------------------------- shared: what is handed to a loop
LATER = HANDOVER + ("kanon::EventLoop::RunAt", "kanon::EventLoop::RunAfter", "kanon::EventLoop::RunEvery")
LOOP_CB = ("kanon::Channel::SetReadCallback", "kanon::Channel::SetWriteCallback", "kanon::Channel::SetErrorCallback",
           "kanon::Channel::SetCloseCallback")


def strip(f, i):
    """the expression below conversions and copies"""
    while isinstance(i, int) and i >= 0:
        n = f.x[i]
        k = n.get("k")
        if k in ("cast", "alias", "un"):
            i = n["a"]
        elif k == "ctor" and len(n.get("args", ())) == 1:
            i = n["args"][0]
        elif k == "call" and n.get("q") in ("std::move", "std::forward") and n.get("args"):
            i = n["args"][0]
        else:
            return n
    return None


def callee_of(prog, f, i, seen=None):
    """ids of the functions a callable expression stands for"""
    n = strip(f, i)
    if n is None:
        return set()
    k = n.get("k")
    if k == "lambda":
        return {n["f"]}
    if k in ("mref", "fref"):
        return {n["f"]} if n.get("f") else set()
    if k == "call" and n.get("q") == "std::bind":
        return callee_of(prog, f, n["args"][0])
    if k == "var":
        out = set()
        for m in f.x:
            if m.get("k") == "decl":
                for d in m.get("vars", ()):
                    if d.get("v") == n.get("v") and isinstance(d.get("x"), int):
                        out |= callee_of(prog, f, d["x"])
        return out
    return set()


def handed_functions(prog, targets=LATER + LOOP_CB):
    """functions passed to one of the targets anywhere"""
    out = set()
    for f in prog.funcs.values():
        for n in f.x or ():
            if n.get("k") == "call" and n.get("q") in targets:
                for a in n.get("args", ()):
                    out |= callee_of(prog, f, a)
    return out


def value_fn(st, v):
    """function id of a callable value"""
    if v is None:
        return None
    if v[0] == 'a':
        v = st.mem.get(v[1], v)
    if v[0] == 'lam':
        return v[1]
    if v[0] == 'bind':
        f = v[1]
        if isinstance(f, str):
            return f
        if isinstance(f, tuple) and f and f[0] == 'fn':
            return f[1]
        return value_fn(st, f) if isinstance(f, tuple) else None
    if v[0] == 'fn':
        return v[1]
    return None


# ---------------------------------------------------------------- P07
class ShutMon(RecMon):
    FIELDS = (("empty", None), ("chg", False), ("con", None), ("con0", None), ("dis", None), ("shut", 0), ("req", 0), ("handed", None),
              ("onloop", False), ("err", False))

    def refresh(self, ex, st):
        so = self.out_size(ex, st)
        lo, hi = st.interval(so)
        e = True if hi <= 0 else False if lo > 0 or 0 in st.excluded(so) else None
        kw = {}
        if e is not None and e != self.g(st, "empty"):
            kw["empty"] = e
        c, d = self.state_is(ex, st, "kConnected"), self.state_is(ex, st, "kDisconnecting")
        if c is not None and c != self.g(st, "con"):
            kw["con"] = c
            if self.g(st, "con0") is None:
                kw["con0"] = c
        if d is not None and d != self.g(st, "dis"):
            kw["dis"] = d
        if kw:
            self.s(st, **kw)

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        if k == "root":
            self.find_conn(ex, st, ev.fr)
            self.s(st, onloop=self.root.id in self.handed_fns)
        elif k == "branch":
            self.refresh(ex, st)
            v, t = ev.val, ev.extra
            while v[0] == 'not':
                v, t = v[1], not t
            if v[0] == 's' and v[2:3] == ('inloop',) and t:
                self.s(st, onloop=True)
        elif k == "call" and q == "kanon::EventLoop::AssertInThread":
            self.s(st, onloop=True)
        elif k == "mutate" and self.is_f(ev.loc, "out"):
            if ev.extra.startswith("Advance"):
                self.s(st, chg=True)
            self.s(st, empty=None)
            self.refresh(ex, st)
        elif k == "write" and self.is_f(ev.loc, "state"):
            n = [x for x in self.S if st.decide(cmpv('==', ev.val, C(self.S[x]))) is True]
            n = n[0] if n else None
            if n == "kDisconnecting":
                self.col.ob("request-ordered")
                if not self.g(st, "onloop"):
                    self.bad(ex, "request-ordered", "the shutdown request takes effect outside the loop: output handed over before "
                             "may be dropped", ev)
                if self.g(st, "con") is not True:
                    self.bad(ex, "request-ordered", "a shutdown request is accepted although the connection may not be up", ev)
                self.s(st, req=1, con=False, dis=True)
            else:
                self.s(st, con=n == "kConnected" if n else None, dis=False if n else None)
        elif k == "callback":
            self.s(st, con=None, dis=None)
        elif k == "call" and q == "shutdown":
            self.refresh(ex, st)
            self.col.ob("drained-first")
            if self.g(st, "empty") is not True:
                self.bad(ex, "drained-first", "the sending side is shut down although output may be pending", ev)
            if self.g(st, "dis") is not True:
                self.bad(ex, "drained-first", "the sending side is shut down although that may not have been requested", ev)
            if ev.args and st.interval(ev.args[1]) != (1, 1):
                self.bad(ex, "drained-first", "more than the sending side is shut down", ev)
            self.s(st, shut=1)
        elif k == "call" and q in HANDOVER and self.g(st, "handed") is None:
            fn = value_fn(st, ev.args[0])
            if fn:
                self.s(st, handed=fn)

    def finish(self, ex, f, out):
        for ret, st in out:
            self.refresh(ex, st)
            m = {n: self.g(st, n) for n in self.I}
            if m["chg"]:
                self.col.ob("carried-out")
                if m["empty"] is not False and m["dis"] is not False and not m["shut"]:
                    self.bad(ex, "carried-out", "the last pending output may be written without carrying out a requested shutdown")
            if m["req"]:
                self.col.ob("carried-out")
                self.col.data.append(("req", f.id))
                if not m["shut"] and m["empty"] is not False:
                    self.bad(ex, "carried-out", "a shutdown requested with nothing pending is not carried out at once")
            elif m["con0"] is not False:
                self.col.data.append(("skip", f.id, m["handed"]))


def P07(prog, rep, tier):
    rep.rule("drained-first", "the sending side of a socket is shut down only while no output is pending and a shutdown was requested")
    rep.rule("carried-out", "whoever writes the last pending output carries out a requested shutdown; with nothing pending it is carried out at once")
    rep.rule("request-ordered", "the request takes effect on the loop (behind data handed over before), once, and only while the connection is up")
    rep.rule("request-made", "a shutdown call on an established connection always makes the request or hands it to the loop")
    roots = conn_roots(prog)
    hf = handed_functions(prog)

    def mk(p, f, c):
        m = ShutMon(p, f, c)
        m.handed_fns = hf
        return [m]
    data = drive(prog, roots, mk, rep, opaque=OPAQUE, opaque_fn={"kanon::ChunkListWriteFd"}, no_inline=local_fns(prog), havoc_cb=True)
    req = {d[1] for d in data if d[0] == "req"}
    for d in sorted(data, key=repr):
        if d[0] == "skip":
            f = prog.funcs[d[1]]
            if f.q == CONN + "::ShutdownWrite" or (d[1] in req and f.parent):
                rep.ob("request-made")
                if d[2] not in req:
                    rep.violate("request-made", f.q, f.loc, "a shutdown call on an established connection may have no effect")
    if req:
        rep.ob("request-made")
    for r, n in (("drained-first", 3), ("carried-out", 5), ("request-ordered", 1), ("request-made", 1)):
        rep.need(r, n)


# ---------------------------------------------------------------- P08
ALL = frozenset(("kConnecting", "kConnected", "kDisconnecting", "kDisconnected"))


class UpDown(RecMon):
    FIELDS = (("pos", ALL), ("owe", None), ("up", 0), ("down", 0), ("told", 0), ("noclose", None), ("open0", True), ("handed", None))

    def refresh(self, ex, st):
        pos = self.g(st, "pos")
        np = frozenset(n for n in pos if self.state_is(ex, st, n) is not False)
        if np != pos and np:
            self.s(st, pos=np)
        if not (self.g(st, "up") or self.g(st, "down")) and not np & {"kConnected", "kDisconnecting"}:
            self.s(st, open0=False)
        if self.g(st, "noclose") is None:
            d = st.decide(truthv(ex.load(st, self.fld("close"), "T *")))
            if d is not None:
                self.s(st, noclose=not d)

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        if k == "root":
            self.find_conn(ex, st, ev.fr)
            if self.root.kind == "ctor":
                self.s(st, pos=frozenset())
        elif k == "branch":
            self.refresh(ex, st)
        elif k == "write" and self.is_f(ev.loc, "state") and self.root.kind != "ctor":
            if ev.extra in ("init", "ctor"):
                return
            ns = [x for x in self.S if st.decide(cmpv('==', ev.val, C(self.S[x]))) is not False]
            self.col.ob("transitions")
            pos = self.g(st, "pos")
            if len(ns) != 1 or ns[0] == "kConnecting":
                self.bad(ex, "transitions", "the connection state is set to something else than the next state", ev)
                return
            n = ns[0]
            ok = {"kConnected": {"kConnecting"}, "kDisconnecting": {"kConnected"}, "kDisconnected": {"kConnected", "kDisconnecting"}}[n]
            if not (pos <= ok or (n == "kConnected" and pos == ALL)):
                self.bad(ex, "transitions", "the connection can become %s when it is %s" %
                         (n[1:], " or ".join(sorted(x[1:] for x in pos - ok))), ev)
            if self.g(st, "owe"):
                self.bad(ex, "reported-once", "the previous transition was not reported", ev)
            kw = {"pos": frozenset((n,))}
            if n == "kConnected":
                kw.update(owe="up", up=1)
            elif n == "kDisconnected":
                kw.update(owe="down", down=1)
            self.s(st, **kw)
        elif k == "callback" and self.is_f(ev.loc, "cc"):
            self.col.ob("reported-once")
            if not self.g(st, "owe"):
                self.bad(ex, "reported-once", "the connection callback runs without an up or down transition", ev)
            # user code may do anything to the connection but un-establish it
            pos = self.g(st, "pos")
            np = {"kConnected": ALL - {"kConnecting"}, "kDisconnected": frozenset(("kDisconnected",))}
            self.s(st, owe=None, pos=frozenset().union(*(np.get(x, ALL) for x in pos)))
        elif k == "callback" and self.is_f(ev.loc, "close"):
            self.col.ob("owner-told-once")
            if not self.g(st, "down") or self.g(st, "told") or self.g(st, "owe"):
                self.bad(ex, "owner-told-once", "the owner is told of a close that did not just happen, twice, or before the down report", ev)
            self.s(st, told=1)
        elif k == "callback":
            self.s(st, pos=ALL if self.g(st, "pos") & {"kConnecting", "kConnected", "kDisconnecting"} else self.g(st, "pos"))
        elif k == "abort" and self.root.q.rsplit("::", 1)[-1] in ("ConnectionDestroyed", "HandleClose"):
            self.refresh(ex, st)
            if self.g(st, "open0") and not self.g(st, "down") and not any(fr.f.q.endswith("AssertInThread") for fr in chain(ev.fr)):
                self.bad(ex, "taken-down", "an open connection may fail an assertion instead of being taken down")
        elif k == "call" and q in HANDOVER and self.g(st, "handed") is None:
            fn = value_fn(st, ev.args[0])
            if fn:
                self.s(st, handed=fn)

    def finish(self, ex, f, out):
        name = f.q.rsplit("::", 1)[-1]
        for ret, st in out:
            self.refresh(ex, st)
            m = {n: self.g(st, n) for n in self.I}
            if m["owe"]:
                self.bad(ex, "reported-once", "an %s transition is not reported by the connection callback" % m["owe"])
            if m["down"]:
                self.col.ob("taken-down")
                self.col.data.append(("closes", f.id, bool(m["told"] or m["noclose"])))
            if name == "ConnectionEstablished" and not m["up"]:
                self.bad(ex, "transitions", "establishing a connection may not bring it up")
            if name in ("ConnectionDestroyed", "HandleClose"):
                self.col.ob("taken-down")
                if m["open0"] and not m["down"]:
                    self.bad(ex, "taken-down", "an open connection may not be taken down")
                if name == "HandleClose" and m["down"] and not m["told"] and not m["noclose"]:
                    self.bad(ex, "owner-told-once", "the owner is not told that the connection went down")
            if name == "ForceClose" and m["open0"] and not m["down"]:
                self.col.data.append(("force", f.id, m["handed"]))


class OwnerMon(Monitor):
    """the owners of connections.  state: (made, established, destroyed, since, erased: was the connection still in the table)"""
    init = (0, 0, 0, True, None)

    def __init__(self, prog, root, col):
        self.p, self.root, self.col = prog, root, col

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        made, est, des, since, er = self.get(st)
        if k == "ret" and q.rsplit("::", 1)[-1].startswith("NewTcpConnection") and ev.fr.f.q.startswith(("kanon::TcpServer", "kanon::TcpClient")):
            made = min(2, made + 1)
        elif k == "call" and q == CONN + "::ConnectionEstablished":
            est = min(2, est + 1)
        elif k == "call" and q == CONN + "::ConnectionDestroyed":
            des = min(2, des + 1)
        elif k == "call" and q in HANDOVER:
            fn = value_fn(st, ev.args[0])
            f = self.p.funcs.get(fn)
            if f is not None:
                if f.q == CONN + "::ConnectionEstablished" or reaches(self.p, f, (CONN + "::ConnectionEstablished",)):
                    est = min(2, est + 1)
                if f.q == CONN + "::ConnectionDestroyed" or reaches(self.p, f, (CONN + "::ConnectionDestroyed",)):
                    des = min(2, des + 1)
                    since = True
        elif k == "call" and q.endswith("::operator++") and self.root.kind == "dtor":
            self.col.ob("owner-destroys")
            if not since:
                ex.violate(Violation("owner-destroys", "a connection of a destroyed owner is not taken down", ev))
            since = False
        elif k == "ret" and q.endswith("::erase") and q.startswith("std::") and self.root.id in self.closers:
            er = ev.ret
        if k == "branch" and er is not None and er is not False and st.decide(cmpv('==', er, C(0))):
            er = False  # it was taken over by the owner's destructor
        self.set(st, (made, est, des, since, er))

    def finish(self, ex, f, out):
        for ret, st in out:
            made, est, des, since, er = self.get(st)
            if made:
                self.col.ob("owner-establishes")
            if made != est and (made or est > 1):
                ex.violate(Violation("owner-establishes", "a new connection is not brought up exactly once", None, exit_frame(f), f.line))
            if f.id in self.closers:
                self.col.ob("owner-destroys")
                if des != 1 and not (er is False and des == 0):
                    ex.violate(Violation("owner-destroys", "a closed connection is not destroyed exactly once by its owner", None,
                                         exit_frame(f), f.line))


def P08(prog, rep, tier):
    rep.rule("transitions", "the state only moves connecting, connected, (disconnecting), disconnected: every write is guarded by the state before")
    rep.rule("reported-once", "every up and down transition is followed by exactly one connection callback, and there is no other call of it")
    rep.rule("taken-down", "closing or destroying an open connection takes it down; a forced close always reaches the close handler")
    rep.rule("owner-told-once", "the owner's close callback runs once, after the down report")
    rep.rule("owner-establishes", "an owner brings every connection it makes up exactly once")
    rep.rule("owner-destroys", "an owner destroys every connection that closed, or that it still has when it is destroyed, exactly once")
    roots = conn_roots(prog)
    data = drive(prog, roots, lambda p, f, c: [UpDown(p, f, c)], rep, opaque=OPAQUE, opaque_fn={"kanon::ChunkListWriteFd"},
                 no_inline=local_fns(prog), havoc_cb=True)
    closes = {d[1] for d in data if d[0] == "closes"}
    for d in data:
        if d[0] == "force":
            rep.ob("taken-down")
            if d[2] not in closes:
                f = prog.funcs[d[1]]
                rep.violate("taken-down", f.q, f.loc, "a forced close of an open connection may have no effect")
    closers = handed_functions(prog, (CONN + "::SetCloseCallback",))
    if len(closers) < 2:
        raise Broken("owner close callbacks not found")
    own = [f for f in prog.funcs.values() if is_root(prog, f) and f.has_body and f.q.startswith(("kanon::TcpServer", "kanon::TcpClient")) and
           (f.id in closers or reaches(prog, f, (CONN + "::ConnectionEstablished", CONN + "::ConnectionDestroyed")))]

    def mk(p, f, c):
        m = OwnerMon(p, f, c)
        m.closers = closers
        return [m]
    nope = {"kanon::EventLoop", "kanon::TcpConnection", CONN, "kanon::Connector", "kanon::Acceptor", "kanon::EventLoopPool"}
    drive(prog, own, mk, rep, no_inline=lambda f: f.cls in nope, havoc_cb=False)
    for r, n in (("transitions", 3), ("reported-once", 3), ("taken-down", 3), ("owner-told-once", 1), ("owner-establishes", 2),
                 ("owner-destroys", 3)):
        rep.need(r, n)
