"""Registration of interest with the poller and dispatch of ready events (P13)."""
from absint import *
from program import Broken
from drive import drive
from rules_lock import leaf, THIS
from rules_conn2 import exit_frame, value_fn, loc_of
from rules_loop import Rec, Each, fn, field, field_of_type, nolog, symbols, LOOP, CH, LF, cond_vars

R, W, ALL = 3, 4, 7
EPOLLET = 1 << 31
EP, PO, PB = "kanon::Epoller", "kanon::Poller", "kanon::PollerBase"
ADD, DEL, MOD = 1, 2, 3


def quiet(f):
    return nolog(f) or f.q in (CH + "::Ev2String", CH + "::Events2String", CH + "::Revents2String") or f.q.endswith("Op2Str") or \
        f.q.startswith("kanon::TimeStamp")


def cfields(prog):
    t = getattr(prog, "_ch_fields", None)
    if t is None:
        t = prog._ch_fields = {n: field(prog, CH, n + "_") for n in ("fd", "events", "revents", "index")}
        t["loop"] = field_of_type(prog, CH, lambda f: "EventLoop" in f["t"], "loop")
    return t


def split(st, mon, conf):
    """one copy of the state per configuration, kept apart by the monitor state"""
    out = []
    for kw, mem in conf:
        s = st.copy()
        for l, v in mem.items():
            s.mem[l] = v
        mon.s(s, **kw)
        out.append(s)
    return out


def const(st, v):
    if v is None:
        return None
    lo, hi = st.interval(v)
    return int(lo) if lo == hi else None


# ---- A: the channel's own methods
SPEC = {"EnableReading": lambda e: e | R, "EnableWriting": lambda e: e | W, "DisableReading": lambda e: e & ~R,
        "DisableWriting": lambda e: e & ~W, "DisableAll": lambda e: 0}


class Interest(Rec):
    FIELDS = (("e0", None), ("fresh", False), ("told", False))

    def event(self, ex, st, ev):
        F = cfields(self.p)
        E = ('f', THIS, F["events"])
        if ev.kind == "root":
            return split(st, self, [({"e0": e}, {E: C(e)}) for e in (0, R, W, ALL)])
        if ev.kind == "write" and ev.loc == E:
            self.s(st, fresh=True, told=False)
        elif ev.kind == "call" and ev.q == LF + "UpdateChannel":
            ok = loc_of(ev.args[0]) == THIS
            own = ev.obj is not None and ev.obj == loc_of(ex.load(st, ('f', THIS, F["loop"]), "kanon::EventLoop *"))
            if not ok or not own:
                self.bad(ex, "interest-told", "another channel or loop than its own is told the interest", ev)
            self.s(st, told=True)

    def finish(self, ex, f, out):
        F = cfields(self.p)
        for ret, st in out:
            e0 = self.g(st, "e0")
            want = SPEC[f.name](e0)
            got = const(st, ex.load(st, ('f', THIS, F["events"])))
            self.col.ob("interest-set")
            if got != want:
                self.bad(ex, "interest-set", "the interest becomes %s instead of %s (from %s)" % (got, want, e0))
            self.col.ob("interest-told")
            if not self.g(st, "told") and want != e0:
                self.bad(ex, "interest-told", "the poller is not told the changed interest")


# ---- B: forwarding to the poller
class Forward(Rec):
    FIELDS = (("n", 0),)
    TO = ()

    def event(self, ex, st, ev):
        if ev.kind == "call" and (ev.q or "").rsplit("::", 1)[-1] == self.TO[0] and ev.q.rsplit("::", 1)[0] in self.TO[1] and \
                ev.q != self.root.q:
            want = THIS if self.root.cls == CH else ('p', ('s', 'u', 'param', self.root.params[0]["n"]))
            if loc_of(ev.args[0]) != want:
                self.bad(ex, "interest-told", "another channel is given to the poller", ev)
            self.s(st, n=min(2, self.g(st, "n") + 1))

    def finish(self, ex, f, out):
        for ret, st in out:
            self.col.ob("interest-told")
            if self.g(st, "n") == 0:
                self.bad(ex, "interest-told", "a path does not reach the poller")


# ---- C: epoll back end, the kernel's table for one descriptor as a typestate
class Kernel(Rec):
    FIELDS = (("cfg", None), ("present", None), ("mask", None))
    PRE = ()

    def event(self, ex, st, ev):
        F = cfields(self.p)
        ch = ('p', ('s', 'u', 'param', self.root.params[0]["n"]))
        if ev.kind == "root":
            conf = []
            for idx, present in self.PRE:
                for e in (0, R, W, ALL):
                    for et in (0, 1):
                        conf.append(({"cfg": (idx, present, e, et), "present": present, "mask": "old" if present else None},
                                     {('f', ch, F["index"]): C(idx), ('f', ch, F["events"]): C(e), ('f', THIS, self.et): C(et)}))
            return split(st, self, conf)
        if ev.kind != "call" or ev.q != "epoll_ctl":
            return
        self.col.ob("kernel-table")
        idx, was, e, et = self.g(st, "cfg")
        op = const(st, ev.args[1])
        present = self.g(st, "present")
        epfd, fd = ev.args[0], ev.args[2]
        if epfd != ex.load(st, ('f', THIS, self.epfd), "int"):
            self.bad(ex, "kernel-table", "another epoll descriptor than its own is changed", ev)
        if fd != ex.load(st, ('f', ch, F["fd"]), "int"):
            self.bad(ex, "kernel-table", "another descriptor than the channel's is registered", ev)
        if op is None:
            self.bad(ex, "kernel-table", "the operation is not known", ev)
            return
        if op == ADD and present:
            self.bad(ex, "kernel-table", "adds a descriptor that is registered already", ev)
        if op in (DEL, MOD) and not present:
            self.bad(ex, "kernel-table", "changes or deletes a descriptor that is not registered", ev)
        if op == DEL:
            self.s(st, present=False, mask=None)
            return
        evl = loc_of(ev.args[3])
        m = const(st, ex.load(st, ('f', evl, "epoll_event::events"))) if evl else None
        want = (e | EPOLLET if et and e else e) & 0xffffffff
        if m is None or (m & 0xffffffff) != want and (m & 0xffffffff) != (want & ~EPOLLET if not e else want):
            self.bad(ex, "kernel-table", "the kernel is asked for %s instead of %s" % (m, want), ev)
        dp = None
        if evl:
            for l, v in st.mem.items():
                if l[0] == 'f' and l[2].endswith("::ptr") and contains(l, lambda y: y == evl):
                    dp = v
        if dp is None or loc_of(dp) != ch:
            self.bad(ex, "kernel-table", "the kernel is not given the channel as the value to report", ev)
        self.s(st, present=True, mask=want)

    def finish(self, ex, f, out):
        F = cfields(self.p)
        ch = ('p', ('s', 'u', 'param', self.root.params[0]["n"]))
        for ret, st in out:
            idx, was, e, et = self.g(st, "cfg")
            present, mask = self.g(st, "present"), self.g(st, "mask")
            self.col.ob("kernel-table")
            if f.name == "UpdateChannel":
                if e and (not present or mask == "old"):
                    self.bad(ex, "kernel-table", "a changed interest does not reach the kernel")
                if not e and present and mask == "old":
                    self.bad(ex, "kernel-table", "the kernel keeps watching although no event is of interest")
            elif present:
                self.bad(ex, "kernel-table", "a removed channel stays registered")
            i = const(st, ex.load(st, ('f', ch, F["index"])))
            if i is None:
                self.bad(ex, "kernel-table", "the channel's registration state is not kept")
            self.col.data.append(("state", i, bool(present)))


# ---- D: poll back end
class Array(Rec):
    FIELDS = (("cfg", None), ("ins", None), ("pushed", 0), ("popped", 0), ("erased", 0), ("moved", 0), ("other", 0), ("ups", None), ("it", None),
              ("neg", None), ("set", ()), ("last", None))

    def ch(self):
        return ('p', ('s', 'u', 'param', self.root.params[0]["n"]))

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        F = cfields(self.p)
        ch = self.ch()
        MAP, VEC = ('f', THIS, self.map), ('f', THIS, self.vec)
        name = q.rsplit("::", 1)[-1]
        if k == "root":
            v = ('s', 'x', 'init', VEC)
            sz = ('s', 'u', 'size', v)
            out = []
            for reg in (False, True):
                for e in (0, R, W, ALL):
                    for last in ((None,) if not reg else (False, True)):
                        s = split(st, self, [({"cfg": (reg, e), "last": last}, {('f', ch, F["events"]): C(e)})])[0]
                        fdv = ex.load(s, ('f', ch, F["fd"]), "int")
                        s.assume(cmpv('<', fdv, C(0)), False)
                        iv = ('s', 'x', 'param', 'idx')
                        if reg:
                            s.mem[('f', ch, F["index"])] = iv
                            s.assume(cmpv('<', iv, C(0)), False)
                            if last:
                                s.assume(cmpv('==', add(sz, iv, -1), C(1)), True)
                            else:
                                s.assume(cmpv('<', add(sz, iv, -1), C(2)), False)
                        else:
                            s.mem[('f', ch, F["index"])] = C(-1)
                        out.append(s)
            return out
        reg, e = self.g(st, "cfg")
        if k == "ret" and name in ("operator==", "operator!=") and "__detail" in q and ev.ret is not None:
            # only the lookup of the channel's own descriptor is compared with end()
            st.assume(ev.ret, (name == "operator==") != reg)
            return
        if k == "ret" and name in ("count", "contains") and ev.obj == MAP:
            if name == "count":
                st.assume(cmpv('==', ev.ret, C(1 if reg else 0)), True)
            else:
                st.assume(ev.ret, reg)
            return
        if k == "ret" and name in ("operator->", "operator*") and "_Node_iterator" in q and ev.ret is not None:
            # the entry found is the channel's own
            e1 = loc_of(ev.ret)
            st.mem[('f', e1, "std::pair::second")] = ch[1]
            return
        if k == "write" and ev.loc == MAP and isinstance(ev.extra, tuple) and ev.extra[0] == "cont":
            n = ev.extra[1]
            if n in ("emplace_hint", "emplace", "insert", "try_emplace", "operator[]", "insert_or_assign"):
                self.s(st, ins=self.g(st, "ins") or "yes")
            elif n == "erase":
                self.s(st, erased=min(2, self.g(st, "erased") + 1))
            elif n == "clear":
                self.bad(ex, "poll-table", "the table of channels is emptied", ev)
        if k == "write" and ev.extra == "=" and ev.loc[0] == 'p' and self.map in repr(ev.loc) and loc_of(ev.val or C(0)) == ch and \
                self.root.name == "UpdateChannel":
            self.s(st, ins="yes")
        if k == "call" and ev.obj == MAP and name in ("emplace_hint", "emplace", "insert", "try_emplace", "insert_or_assign"):
            if not any(loc_of(ex.load(st, a[1])) == ch if a[0] == 'a' and a[1][0] in ('v', 't') else loc_of(a) == ch for a in ev.args) and \
                    not any(contains(a, lambda y: y == ch[1]) for a in ev.args) and not self.pair_has(ex, st, ev.args, ch):
                self.bad(ex, "poll-table", "another channel is entered in the table", ev)
        if k == "write" and ev.loc == VEC and isinstance(ev.extra, tuple) and ev.extra[0] == "cont":
            n, a = ev.extra[1], ev.extra[2]
            if n in ("push_back", "emplace_back"):
                self.s(st, pushed=min(2, self.g(st, "pushed") + 1))
                self.entry(ex, st, ev, a, e)
            elif n == "pop_back" or n == "erase":
                self.s(st, popped=min(2, self.g(st, "popped") + 1))
                if n == "erase":
                    self.bad(ex, "poll-table", "erasing inside the array shifts the entries of the channels behind", ev)
            elif n in ("clear", "insert", "emplace", "swap"):
                self.bad(ex, "poll-table", "the array of descriptors is changed other than at its end", ev)
        if k == "write" and ev.loc[0] == 'f' and ev.loc[2] == F["index"]:
            self.index(ex, st, ev, ev.loc[1], ev.val)
        if k == "write" and ev.loc[0] == 'f' and ev.loc[2] in ("pollfd::fd", "pollfd::events") and \
                (reg or dict(self.g(st, "ups") or ()).get("blank")) and self.root.name == "UpdateChannel":
            self.element(ex, st, ev, e)
        if k == "write" and self.root.name == "RemoveChannel" and ev.loc[0] in ('p',) and self.is_elem(ev.loc) and \
                ev.extra in ("swap", "=", "cont", None, "copy"):
            self.s(st, moved=1)
        if k == "call" and name in ("advance", "operator+", "operator+=", "next", "operator[]", "at") and len(ev.args) >= 1 and \
                self.root.name == "RemoveChannel" and (ev.obj == VEC or "iterator" in q or q in ("std::advance", "std::next")):
            a = ev.args[-1]
            if ev.obj == VEC or contains(a, lambda y: True):
                iv = ('s', 'x', 'param', 'idx')
                sz0 = ('s', 'u', 'size', ('s', 'x', 'init', VEC))
                if ex_value(ex, st, a) not in (iv, None) and ev.obj != VEC:
                    self.bad(ex, "poll-table", "another entry than the removed channel's is replaced", ev)
                elif ev.obj == VEC and ex_value(ex, st, a) != iv and not contains(ex_value(ex, st, a), lambda y: y == sz0):
                    self.bad(ex, "poll-table", "another entry than the removed channel's is replaced", ev)
        if k == "branch":
            b = self.backs(st)
            for y in b:
                lo, hi = st.interval(y)
                if hi < 0:
                    self.s(st, neg=True)
                elif lo >= 0:
                    self.s(st, neg=False)

    def pair_has(self, ex, st, args, ch):
        for a in args:
            if a[0] == 'a':
                for l, v in st.mem.items():
                    if contains(l, lambda y: y == a[1]) and (loc_of(v) == ch or contains(v, lambda y: y == ch[1])):
                        return True
        return False

    def is_elem(self, loc):
        return contains(loc, lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] == 's' and (y[2] == 'elem' and self.vec in repr(y) or
                                                                                             y[2] == 'r' and y[-1] == 'ref'))

    def backs(self, st):
        out = set()
        for key in st.facts:
            for y, c in key:
                if y[0] == 's' and y[2] == 'init' and y[3][0] == 'f' and y[3][2] == "pollfd::fd":
                    out.add(y)
        return out

    def entry(self, ex, st, ev, args, e):
        F = cfields(self.p)
        self.col.ob("poll-table")
        if not args:
            # an empty entry, filled in afterwards
            self.s(st, ups=(("blank", True),))
            return
        a = args[0]
        fd = evs = None
        if a is not None and a[0] == 'a':
            fd, evs = ex.load(st, ('f', a[1], "pollfd::fd"), "int"), ex.load(st, ('f', a[1], "pollfd::events"), "short")
        chfd = ex.load(st, ('f', self.ch(), F["fd"]), "int")
        if fd != chfd and not (e == 0 and fd == add(C(-1), chfd, -1)):
            self.bad(ex, "poll-table", "another descriptor than the channel's is watched", ev)
        if const(st, evs) != e:
            self.bad(ex, "poll-table", "the kernel is asked for other events than the channel's interest", ev)

    def element(self, ex, st, ev, e):
        F = cfields(self.p)
        iv = ('s', 'x', 'param', 'idx')
        if not self.is_elem(ev.loc):
            return
        u = dict(self.g(st, "ups") or ())
        if u.get("blank"):
            sz0 = ('s', 'u', 'size', ('s', 'x', 'init', ('f', THIS, self.vec)))
            if not contains(ev.loc, lambda y: isinstance(y, tuple) and len(y) > 4 and y[:4] == ('s', 'nn', 'elem', 'back') or y == sz0):
                self.bad(ex, "poll-table", "another entry than the channel's is changed", ev)
        elif contains(ev.loc, lambda y: isinstance(y, tuple) and len(y) > 4 and y[:3] == ('s', 'nn', 'elem')) and \
                not contains(ev.loc, lambda y: y == iv):
            self.bad(ex, "poll-table", "another entry than the channel's is changed", ev)
        chfd = ex.load(st, ('f', self.ch(), F["fd"]), "int")
        if ev.loc[2] == "pollfd::fd":
            v = ev.val
            neg = st.interval(v)[1] < 0
            u["fd"] = v == chfd or neg and e == 0
        else:
            u["events"] = const(st, ev.val) == e
        self.s(st, ups=tuple(sorted(u.items(), key=str)))

    def index(self, ex, st, ev, o, v):
        iv = ('s', 'x', 'param', 'idx')
        if o == self.ch():
            return          # checked at the end, from memory
        self.col.ob("poll-table")
        if v != iv and const(st, v) != -1:
            self.bad(ex, "poll-table", "the moved channel gets another index than the place it was moved to", ev)
            return
        if v == iv:
            self.key(ex, st, ev, o)
            self.s(st, other=min(2, self.g(st, "other") + 1))

    def key(self, ex, st, ev, o):
        """the entry that was last is looked up by its decoded descriptor"""
        keys = []

        def look(y):
            if isinstance(y, tuple) and len(y) > 4 and y[0] == 's' and y[2] == 'elem' and y[3] in ("operator[]", "at") and self.map in repr(y[4]):
                keys.append(y[5][0])
            return False
        contains(o, look)
        for a in keys:
            v = ex_value(ex, st, a)
            b = [y for y in symbols(v) if len(y) == 4 and y[2] == 'init' and y[3][0] == 'f' and y[3][2] == "pollfd::fd"]
            if not b:
                continue
            neg = self.g(st, "neg")
            raw = v == b[0]
            dec = v == add(C(-1), b[0], -1)
            if not (raw and neg is False or dec and neg is True):
                self.bad(ex, "poll-table", "the moved channel is looked up by a number that is not its descriptor when it has no interest", ev)

    def finish(self, ex, f, out):
        F = cfields(self.p)
        ch = self.ch()
        VEC = ('f', THIS, self.vec)
        for ret, st in out:
            reg, e = self.g(st, "cfg")
            self.col.ob("poll-table")
            i = ex.load(st, ('f', ch, F["index"]), "int")
            iv = ('s', 'x', 'param', 'idx')
            if f.name == "UpdateChannel" and not reg:
                if self.g(st, "pushed") != 1 or not self.g(st, "ins"):
                    self.bad(ex, "poll-table", "a new channel is not entered once in the table and the array")
                u = dict(self.g(st, "ups") or ())
                if u.get("blank") and not u.get("fd"):
                    self.bad(ex, "poll-table", "another descriptor than the channel's is watched")
                if u.get("blank") and not u.get("events"):
                    self.bad(ex, "poll-table", "the kernel is asked for other events than the channel's interest")
                v = st.mem.get(VEC)
                sz0 = ('s', 'u', 'size', ('s', 'x', 'init', VEC))
                sz1 = ('s', 'u', 'size', v)
                if i != sz0 and i != add(sz1, C(1), -1) and st.interval(add(i, add(sz1, C(1), -1), -1)) != (0, 0) and \
                        st.interval(add(i, sz0, -1)) != (0, 0):
                    self.bad(ex, "poll-table", "the channel does not get the index of its entry")
            elif f.name == "UpdateChannel":
                u = dict(self.g(st, "ups") or ())
                if self.g(st, "pushed") or self.g(st, "popped") or self.g(st, "erased"):
                    self.bad(ex, "poll-table", "a registered channel is entered again or dropped")
                if not u.get("events"):
                    self.bad(ex, "poll-table", "the changed interest is not stored in the channel's entry")
                if e and u.get("fd") is not True:
                    self.bad(ex, "poll-table", "an entry that was disabled is not watched again when interest comes back")
                if i != iv:
                    self.bad(ex, "poll-table", "the index of a registered channel changes")
            elif reg:
                if self.g(st, "popped") != 1:
                    self.bad(ex, "poll-table", "the entry of a removed channel stays in the array")
                if self.g(st, "erased") != 1:
                    self.bad(ex, "poll-table", "a removed channel stays in the table")
                if not self.g(st, "last"):
                    if not self.g(st, "moved"):
                        self.bad(ex, "poll-table", "the last entry does not take the place of the removed one")
                    if self.g(st, "other") != 1:
                        self.bad(ex, "poll-table", "the channel whose entry was moved keeps its old index")
                if const(st, i) != -1:
                    self.bad(ex, "poll-table", "a removed channel keeps its index")
            else:
                if self.g(st, "popped") or self.g(st, "pushed"):
                    self.bad(ex, "poll-table", "removing a channel that is not registered changes the array")


def ex_value(ex, st, a):
    if a is not None and a[0] == 'a':
        return ex.load(st, a[1]) if a[1][0] in ('v', 't', 'f') else None
    return a


# ---- E: delivery of what the kernel reported
class Deliver(Each):
    FIELDS = Each.FIELDS + (("cnt", None), ("set", None), ("seen", None), ("ended", False), ("err", None), ("polled", False), ("eintr", None),
                            ("zero", False), ("rev", None), ("ctr", None), ("dec", 0), ("off", False), ("none", False),
                            ("pend", None))
    RULE = "reported-delivered"

    def is_box(self, ex, st, loc):
        return self.back == PO and loc == ('f', THIS, self.vec)

    def ct(self, st):
        return self.g(st, "cnt")

    def is_action(self, ex, st, ev):
        return ev.kind == "write" and self.alist is not None and ev.loc == self.alist and isinstance(ev.extra, tuple) and \
            ev.extra[0] == "cont" and ev.extra[1] in ("push_back", "emplace_back")

    def may_skip(self, ex, st):
        return self.back == PO and self.g(st, "zero")

    def new_element(self, ex, st):
        self.s(st, set=None, zero=False, rev=None)

    def stray(self, ex, st, ev):
        self.bad(ex, self.RULE, "a channel is reported ready outside the pass over what the kernel reported", ev)

    def index_branch(self, ex, st, ev):
        """i < number of ready entries"""
        if self.back == PO:
            ver = ex.load(st, ('f', THIS, self.vec))
            bound = ('s', 'u', 'size', ver)
        else:
            bound = self.ct(st)
        if bound is None or ev.val is None or not isinstance(ev.node, int):
            return
        idx = self.g(st, "idx")
        vs = {v for v in cond_vars(ev.fr, ev.node)}
        cand = [v for v in vs if ex.load(st, v) != bound and not self.is_bound(ex, st, v, bound)]
        if idx is None:
            if len(cand) != 1 or not contains(ev.val, lambda y: y == bound or y == ('s', 'u', 'neg2u', bound)):
                return
            idx = cand[0]
            c0 = const(st, ex.load(st, idx))
            if c0 is None:
                return
            if c0 != 0:
                self.bad(ex, self.RULE, "the first entry is left out", ev)
            self.s(st, idx=idx)
        elif idx not in vs:
            return
        hi = st.interval(add(bound, ex.load(st, idx), -1))[1]
        self.more(ex, st, ev, hi > 0)

    def is_bound(self, ex, st, v, bound):
        return False

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        F = cfields(self.p)
        if k == "root":
            p = self.root.params[-1]
            self.alist = ('p', ('s', 'nn', 'param', p["n"]))
            return
        if k == "call" and q in ("epoll_wait", "epoll_pwait", "poll", "ppoll"):
            self.col.ob("reported-delivered")
            if self.g(st, "polled"):
                self.bad(ex, self.RULE, "waits a second time and loses what was reported first", ev)
            VEC = ('f', THIS, self.vec)
            sz = ('s', 'u', 'size', ex.load(st, VEC))
            if q.startswith("epoll"):
                if ev.args[0] != ex.load(st, ('f', THIS, self.epfd), "int"):
                    self.bad(ex, self.RULE, "waits on another epoll descriptor", ev)
                n = ev.args[2]
                if st.interval(add(strip_u(n), sz, -1))[1] > 0 and strip_u(n) != sz and not contains(n, lambda y: y == sz):
                    self.bad(ex, self.RULE, "the kernel may report more events than there is room for", ev)
            else:
                n = ev.args[1]
                if strip_u(n) != sz and not contains(n, lambda y: y == sz):
                    self.bad(ex, self.RULE, "not all descriptors are given to the kernel", ev)
            self.s(st, polled=True)
        if k == "ret" and q in ("epoll_wait", "epoll_pwait", "poll", "ppoll"):
            self.s(st, cnt=ev.ret)
            return
        if k == "branch":
            for y in symbols(ev.val) if ev.val is not None else ():
                if is_errno(y) and self.g(st, "polled"):
                    lo, hi = st.interval(y)
                    if (lo, hi) == (4, 4):
                        self.s(st, eintr=True)
                    elif 4 in st.excluded(y):
                        self.s(st, eintr=False)
                if len(y) == 4 and y[2] == 'init' and y[3][0] == 'f' and y[3][2] == "pollfd::revents":
                    lo, hi = st.interval(y)
                    if hi <= 0:
                        self.s(st, zero=True)
        if k == "ctor" and ev.fc == "kanon::Logger" or k == "call" and q == "kanon::Logger::Logger":
            a = ev.args or ()
            bad_level = any(x == C(5) or x == C(6) for x in a[2:3]) or len(a) > 3 and a[3][0] == 'c'
            if bad_level and self.g(st, "polled"):
                self.col.ob("interrupted")
                if self.g(st, "eintr") is not False and self.could_be_eintr(st):
                    self.bad(ex, "interrupted", "an interrupted wait is reported as an error", ev)
        if k in ("call", "write") and self.is_setrev(ev, F, k):
            o = ev.obj if k == "call" else ev.loc[1]
            v = ev.args[0] if k == "call" else ev.val
            self.s(st, set=(o, v))
            if self.g(st, "pend") is not None:
                # reported first, told right after
                self.judge(ex, st, ev, self.g(st, "pend"))
                self.s(st, pend=None, set=None)
        if self.is_action(ex, st, ev):
            self.reported(ex, st, ev)
            self.s(st, set=None)
        name = q.rsplit("::", 1)[-1]
        if self.back == PO:
            if k == "branch" and self.g(st, "ctr") is not None:
                if st.interval(ex.load(st, self.g(st, "ctr")))[1] <= 0:
                    self.s(st, none=True)
            if k == "call" and ev.obj == ('f', THIS, self.map) and name in ("find", "at", "operator[]") and ev.args:
                a = ev.args[0]
                e = {x for x in entries(a) | entries(ex_value(ex, st, a) or C(0)) if x[1] == "pollfd::fd"}
                self.s(st, rev=e.pop()[0] if len(e) == 1 else None)
            elif k == "write" and ev.extra in ("--", "--post") and ev.loc[0] == 'v' and ev.loc != self.g(st, "idx"):
                self.s(st, ctr=ev.loc, dec=min(2, self.g(st, "dec") + 1))
            if name in ("operator!=", "operator==") and "__detail" in q:
                return
        self.each_event(ex, st, ev)

    def close(self, ex, st, ev):
        if self.g(st, "body") and self.g(st, "ctr") is not None and self.g(st, "dec") > self.g(st, "n"):
            self.s(st, off=True)
        self.s(st, dec=0)
        self.untold(ex, st, ev)
        Each.close(self, ex, st, ev)

    def could_be_eintr(self, st):
        c = self.ct(st)
        return c is not None and st.interval(c)[0] < 0

    def is_setrev(self, ev, F, k):
        if k == "call":
            return ev.q == CH + "::SetRevents"
        return ev.loc[0] == 'f' and ev.loc[2] == F["revents"] and ev.extra == "="

    def reported(self, ex, st, ev):
        a = ev.extra[2]
        v = None
        if a:
            v = a[0]
            if v[0] == 'a':
                v = ex.load(st, v[1])
        self.col.ob(self.RULE)
        if self.g(st, "set") is None and v is not None and self.g(st, "pend") is None:
            self.s(st, pend=v)
        else:
            self.judge(ex, st, ev, v)

    def untold(self, ex, st, ev=None):
        if self.g(st, "pend") is not None:
            self.bad(ex, self.RULE, "a channel is reported ready without being told its events", ev)
            self.s(st, pend=None)

    def judge(self, ex, st, ev, v):
        o = loc_of(v) if v is not None else None
        s = self.g(st, "set")
        if s is None or o is None or s[0] != o:
            self.bad(ex, self.RULE, "a channel is reported ready without being told its events", ev)
            return
        rv = s[1]
        ent = entries(rv)
        dep = entries(v)
        if self.back == EP:
            if not plain(rv) or not any(e[1] == "epoll_event::events" for e in ent) or not any(e[1].endswith("::ptr") for e in dep):
                self.bad(ex, self.RULE, "a channel gets other events than the kernel reported for it", ev)
            else:
                e1 = {e[0] for e in ent}
                e2 = {e[0] for e in dep}
                if not e1 & e2:
                    self.bad(ex, self.RULE, "a channel gets the events of another one", ev)
                idx = self.g(st, "idx")
                if idx is not None:
                    iv = ex.load(st, idx)
                    if self.g(st, "on") and not any(contains(x, lambda y: y == iv) for x in e1) and iv[0] != 'c' and \
                            any("'elem'" in repr(x) and "operator[]" in repr(x) for x in e1):
                        self.bad(ex, self.RULE, "a channel gets the events of another entry", ev)
        else:
            if not any(e[1] == "pollfd::revents" for e in ent) or not plain(rv):
                self.bad(ex, self.RULE, "a channel gets other events than the kernel reported for it", ev)
            keyed = self.g(st, "rev")
            if keyed is not None and not any(e[0] == keyed for e in ent):
                self.bad(ex, self.RULE, "a channel gets the events of another one", ev)

    def finish(self, ex, f, out):
        for ret, st in out:
            self.untold(ex, st)
            c = self.ct(st)
            self.col.ob(self.RULE)
            if self.g(st, "polled") and c is not None:
                hi = st.interval(c)[1]
                none_left = self.g(st, "none") and not self.g(st, "off")
                if hi > 0 and not self.g(st, "ended") and not none_left:
                    self.bad(ex, self.RULE, "a path leaves reported events undelivered")


def is_errno(y):
    return y == ('g', 'errno') or isinstance(y, tuple) and 'errno' in repr(y) and len(repr(y)) < 400 and y[0] == 's'


def strip_u(v):
    while v[0] == 's' and len(v) == 4 and v[2] == 'neg2u':
        v = v[3]
    return v


def plain(v):
    """a value read as it is, not computed from it"""
    v = strip_u(v)
    return v[0] == 's' and v[2] != 'op'


def entries(v):
    """(element, field) pairs a value was read from"""
    out = set()

    def look(y):
        if isinstance(y, tuple) and len(y) == 3 and y[0] == 'f' and isinstance(y[2], str) and \
                (y[2].startswith("pollfd::") or y[2] == "epoll_event::events"):
            out.add((y[1], y[2]))
        if isinstance(y, tuple) and len(y) == 3 and y[0] == 'f' and isinstance(y[2], str) and y[2].endswith("::ptr"):
            b = y[1]
            if b[0] == 'f' and b[2] == "epoll_event::data":
                b = b[1]
            out.add((b, y[2]))
        return False
    contains(v, look)
    return out


# ---- F: dispatch to the callback
IN, PRI, OUT, ERR, HUP, NVAL, RDHUP = 1, 2, 4, 8, 0x10, 0x20, 0x2000
BITS = (IN, PRI, OUT, ERR, HUP, NVAL, RDHUP)


class Dispatch(Rec):
    FIELDS = (("rev", None), ("n", (0, 0, 0, 0)), ("null", (None, None, None, None)))
    KINDS = ("read", "write", "close", "error")

    def want(self, r):
        return (bool(r & (IN | PRI | RDHUP)), bool(r & OUT), bool(r & HUP and not r & IN), bool(r & (ERR | NVAL)))

    def event(self, ex, st, ev):
        F = cfields(self.p)
        if ev.kind == "root":
            conf = []
            for m in range(1 << len(BITS)):
                r = sum(b for i, b in enumerate(BITS) if m >> i & 1)
                conf.append(({"rev": r}, {('f', THIS, F["revents"]): C(r)}))
            return split(st, self, conf)
        if ev.kind == "branch":
            t = list(self.g(st, "null"))
            for i, c in enumerate(self.cbs):
                d = st.decide(truthv(ex.load(st, ('f', THIS, c), "T *")))
                if d is not None:
                    t[i] = d
            self.s(st, null=tuple(t))
        elif ev.kind == "callback":
            i = self.which(ev, st)
            if i is None:
                return
            r = self.g(st, "rev")
            self.col.ob("right-callback")
            if not self.want(r)[i]:
                self.bad(ex, "right-callback", "the %s callback runs for %s" % (self.KINDS[i], names(r)), ev)
            n = list(self.g(st, "n"))
            n[i] += 1
            if n[i] > 1:
                self.bad(ex, "right-callback", "the %s callback runs twice for one report" % self.KINDS[i], ev)
                n[i] = 2
            self.s(st, n=tuple(n))

    def which(self, ev, st):
        for i, c in enumerate(self.cbs):
            if ev.obj == ('f', THIS, c) or ev.loc == ('f', THIS, c):
                return i
            for x in (ev.obj, ev.loc, ev.val):
                if x is not None and contains(x, lambda y: y == ('f', THIS, c)):
                    return i
        return None

    def finish(self, ex, f, out):
        for ret, st in out:
            r = self.g(st, "rev")
            w = self.want(r)
            for i in range(4):
                self.col.ob("right-callback")
                if w[i] and not self.g(st, "n")[i] and self.g(st, "null")[i] is not False:
                    self.bad(ex, "right-callback", "the %s callback does not run for %s" % (self.KINDS[i], names(r)))


def names(r):
    return "+".join(n for b, n in zip(BITS, ("IN", "PRI", "OUT", "ERR", "HUP", "NVAL", "RDHUP")) if r & b) or "nothing"


def P13(prog, rep, tier):
    rep.rule("interest-set", "each enabling/disabling method of a channel yields exactly the interest it names, from every interest")
    rep.rule("interest-told", "a changed interest and a removal reach the channel's own loop, and from there its poller, on every path")
    rep.rule("kernel-table", "epoll: additions only of absent, changes and deletions only of present descriptors, with the channel's descriptor, "
             "interest and address; the registration state kept in the channel determines presence over every sequence of calls")
    rep.rule("poll-table", "poll: table, array and indices stay consistent; the entry holds descriptor and interest; no interest disables it and "
             "interest enables it again")
    rep.rule("reported-delivered", "each reported entry makes exactly its channel ready with exactly the reported events")
    rep.rule("interrupted", "an interrupted wait is not logged as an error")
    rep.rule("right-callback", "for each of the 128 combinations of reported events exactly the callbacks of their kinds run, once")
    meth = [f for f in prog.funcs.values() if f.cls == CH and f.name in SPEC and f.has_body]
    if {f.name for f in meth} != set(SPEC):
        raise Broken("methods of Channel not found")
    drive(prog, meth, lambda p, f, c: [Interest(p, f, c)], rep, opaque_fn={LF + "UpdateChannel"}, no_inline=quiet)

    def fw(name, cls):
        def mkf(p, f, c):
            m = Forward(p, f, c)
            m.TO = (name, cls)
            return [m]
        return mkf
    drive(prog, fn(prog, CH + "::Remove"), fw("RemoveChannel", (LOOP,)), rep, opaque_fn={LF + "RemoveChannel"}, no_inline=quiet)
    polls = (PB, EP, PO)
    for n in ("UpdateChannel", "RemoveChannel"):
        drive(prog, fn(prog, LF + n), fw(n, polls), rep, opaque={q + "::" + n for q in polls} and None,
              no_inline=lambda f: quiet(f) or f.cls in polls)
    # epoll back end: reachable registration states by fixpoint
    epfd = field_of_type(prog, EP, lambda f: f["t"] == "int", "epoll descriptor")
    et = field_of_type(prog, EP, lambda f: f["t"] in ("bool", "_Bool"), "trigger mode")
    states, todo = set(), {(-1, False)}
    ups = fn(prog, EP + "::UpdateChannel") + fn(prog, EP + "::RemoveChannel")
    while todo:
        states |= todo

        def mkk(p, f, c):
            m = Kernel(p, f, c)
            m.PRE, m.epfd, m.et = tuple(sorted(todo)), epfd, et
            return [m]
        data = drive(prog, ups, mkk, rep, no_inline=quiet)
        new = {(d[1], d[2]) for d in data if d[0] == "state" and d[1] is not None}
        todo = new - states
        if len(states) > 6:
            raise Broken("the epoll back end has too many registration states")
    rep.ob("kernel-table")
    for i in {s[0] for s in states}:
        if len({p for j, p in states if j == i}) > 1:
            f = ups[0]
            rep.violate("kernel-table", f.q, f.loc, "the state kept in a channel (%d) does not tell whether it is registered" % i)
    # poll back end
    pmap = field_of_type(prog, PO, lambda f: f.get("c") in ("std::unordered_map", "std::map"), "table of channels")
    pvec = field_of_type(prog, PO, lambda f: f.get("c") == "std::vector", "array of descriptors")

    def mka(p, f, c):
        m = Array(p, f, c)
        m.map, m.vec = pmap, pvec
        return [m]
    drive(prog, fn(prog, PO + "::UpdateChannel") + fn(prog, PO + "::RemoveChannel"), mka, rep, no_inline=quiet)
    evec = field_of_type(prog, EP, lambda f: f.get("c") == "std::vector", "array of events")

    def mkd(back, vec):
        def mkf(p, f, c):
            m = Deliver(p, f, c)
            m.back, m.vec, m.epfd, m.map, m.alist = back, vec, epfd, pmap, None
            return [m]
        return mkf
    drive(prog, fn(prog, EP + "::Poll"), mkd(EP, evec), rep, no_inline=quiet)
    drive(prog, fn(prog, PO + "::Poll"), mkd(PO, pvec), rep, no_inline=quiet)
    cbs = []
    for w in Dispatch.KINDS:
        cbs.append(field(prog, CH, w + "_callback_"))

    def mkh(p, f, c):
        m = Dispatch(p, f, c)
        m.cbs = cbs
        return [m]
    drive(prog, fn(prog, CH + "::HandleEvents"), mkh, rep, havoc_cb=False, no_inline=quiet)
    for r, n in (("interest-set", 20), ("interest-told", 20), ("kernel-table", 30), ("poll-table", 20), ("reported-delivered", 4),
                 ("interrupted", 2), ("right-callback", 256)):
        rep.need(r, n)
