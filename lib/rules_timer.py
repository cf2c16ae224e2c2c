"""P14, P15: timers - their life time, their due times and the kernel timer."""
from absint import *
from program import Broken
from drive import drive, is_root, address_taken
from rules_lock import THIS
from rules_loop import Rec, fn, field_of_type, nolog, LF, symbols
from rules_poll import const
from rules_conn2 import HANDOVER, loc_of
from rules_confine import Confine

TQ = "kanon::TimerQueue"
TM = "kanon::Timer"
TS = "kanon::TimeStamp"
OPAQUE = DEFAULT_OPAQUE - {TS}
FLOOR = 10000           # microseconds: largest accepted delay of a timer already due, and rounding
US = 1000000
FIRST, SECOND = 'std::pair::first', 'std::pair::second'
LIFE = ("queued-in-both", "one-timer", "no-use-after-handover", "erased-before-freed", "freed-once", "cancel-stops", "collected-once",
        "deactivated", "cancelled-not-run", "settled-once", "queue-frees-rest", "cancel-remembered", "handed-once", "one-pass")
DUE = ("ordered-by-due-time", "expired-only", "due-time-kept", "rearm-interval", "kernel-timer-armed", "delay-exact", "run-each-expired", "restarted-first",
       "rearmed-until-cancelled")


def names(prog):
    t = getattr(prog, "_timer_names", None)
    if t is None:
        r = prog.record(TS)["fields"]
        num = [f["n"] for f in r if f["t"] in ("long", "int64_t", "long long")]
        if len(num) != 1:
            raise Broken("%s: its number of microseconds not found: %s" % (TS, r))
        t = prog._timer_names = {
            "exp": field_of_type(prog, TM, lambda f: f.get("c") == TS, "due time"),
            "ivl": field_of_type(prog, TM, lambda f: f["t"] == "double", "interval"),
            "seq": field_of_type(prog, TM, lambda f: f["t"] in ("unsigned long", "uint64_t"), "sequence number"),
            "cb": field_of_type(prog, TM, lambda f: f.get("c") == "std::function", "callback"),
            "us": num[0],
            "set": field_of_type(prog, TQ, lambda f: f.get("c") in ("std::set", "std::multiset"), "ordered timers"),
            "act": field_of_type(prog, TQ, lambda f: f.get("c") in ("std::unordered_map", "std::map"), "active timers"),
            "can": field_of_type(prog, TQ, lambda f: f.get("c") == "std::unordered_set", "cancelled timers"),
            "ing": field_of_type(prog, TQ, lambda f: f["t"] == "bool", "callback running flag"),
            "ch": field_of_type(prog, TQ, lambda f: "Channel" in f["t"], "timer channel"),
        }
    return t


def elem(v):
    """an iterator value: (kind, version, args)"""
    if isinstance(v, tuple) and len(v) >= 5 and v[0] == 's' and v[2] == 'elem':
        return v[3], v[4], v[5] if len(v) > 5 else ()
    return None


def deref(st, a, n=3):
    while n and isinstance(a, tuple) and a and a[0] == 'a' and a[1] in st.mem:
        a = st.mem[a[1]]
        n -= 1
    return a


def delay_us(sec, nsec):
    """the delay in microseconds that (sec, nsec) stands for, or None"""
    if sec is None or nsec is None:
        return None
    if sec[0] == 'c' and nsec[0] == 'c':
        t = sec[1] * 1000000000 + nsec[1]
        return C(t // 1000) if 0 <= nsec[1] < 1000000000 else None
    if sec[0] == 's' and sec[2:4] == ('op', '/') and sec[5][0] == 'c':
        x, k = sec[4], sec[5][1]
        mod = [y for y in symbols(nsec) if y[2:4] == ('op', '%')]
        if len(mod) == 1:
            m = mod[0]
            if m[5] == sec[5] and m[4] == x:
                if k == US and nsec == add(C(0), m, 1000):
                    return x
                if k == US * 1000 and nsec == m and x[0] == 'l' and all(c % 1000 == 0 for _, c in x[2]):
                    return ('l', x[1] // 1000, tuple((s, c // 1000) for s, c in x[2]))
        if k == US and nsec == add(add(C(0), x, 1000), sec, -1000 * US):
            return x
    return None


def mentions(v, name):
    """is a member of that (end of) name part of the value"""
    return contains(v, lambda y: isinstance(y, tuple) and any(isinstance(x, str) and x.endswith(name) for x in y))


def released(st, ev):
    """a smart pointer that dies with its object frees it"""
    if ev.kind == "dtor" and (ev.q or "").startswith("std::unique_ptr") and ev.loc is not None and st.mem.get(ev.loc, C(0)) != C(0):
        if ev.loc[0] in ('v', 't'):
            return Event("delete", ev.fr, ev.line, val=st.mem[ev.loc])
    return ev


class Queue(Rec):
    """shared: what the queue's containers and the kernel timer are told"""
    FIELDS = (("now", None), ("armed", None), ("firsts", ()), ("new", None), ("put", ()), ("act", ()), ("freed", None), ("empty", False),
              ("ver", None), ("fresh", ()))

    def __init__(self, prog, root, col):
        Rec.__init__(self, prog, root, col)
        self.N = names(prog)
        self.SET, self.ACT, self.CAN, self.ING = (('f', THIS, self.N[k]) for k in ("set", "act", "can", "ing"))

    # values
    def exp(self, ex, st, T):
        return ex.load(st, ('f', ('f', ('p', T) if T[0] != 'a' else T[1], self.N["exp"]), self.N["us"]))

    def seq(self, ex, st, T):
        return ex.load(st, ('f', ('p', T) if T[0] != 'a' else T[1], self.N["seq"]), "unsigned long")

    def pair(self, ex, st, args):
        """the two values a container entry or key is made of"""
        def val(a):
            return st.mem.get(a[1], a) if a[0] == 'a' and a[1][0] in ('v', 't') else a
        if len(args) == 2:
            return val(args[0]), val(args[1])
        a = args[0] if args else None
        if a is not None and a[0] == 'a':
            l = a[1]
            if ('f', l, FIRST) not in st.mem and l in st.mem and st.mem[l][0] == 'a':
                l = st.mem[l][1]
            return st.mem.get(('f', l, FIRST)), st.mem.get(('f', l, SECOND))
        return None, None

    def same(self, a, b):
        return a is not None and a == b

    def shared(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        name = q.rsplit("::", 1)[-1]
        if k == "ret" and q == TS + "::Now" and ev.ret is not None and ev.ret[0] == 'a':
            self.s(st, now=ex.load(st, ('f', ev.ret[1], self.N["us"])))
        elif k == "ret" and name in ("operator->", "operator*") and "_Rb_tree" in q and ev.obj is not None:
            e = elem(st.mem.get(ev.obj))
            if e and e[1] == st.mem.get(self.SET, ex.load(st, self.SET)) and e[0] in ("begin", "cbegin"):
                l = ('p', ev.ret) if ev.ret[0] != 'a' else ev.ret[1]
                T = ex.load(st, ('f', l, FIRST), TM + " *")
                st.assume(cmpv('==', T, C(0)), False)
                self.s(st, firsts=tuple(x for x in self.g(st, "firsts") if x[0] != T)[-1:] + ((T, e[1]),))
        elif k == "call" and q == "timerfd_settime":
            self.arm(ex, st, ev)
        elif k == "write" and ev.loc == self.SET and isinstance(ev.extra, tuple) and ev.extra[0] == "cont":
            if ev.extra[1] in ("emplace", "insert", "emplace_hint"):
                args = ev.extra[2][1:] if ev.extra[1] == "emplace_hint" else ev.extra[2]
                t, s = self.pair(ex, st, args)
                self.put(ex, st, ev, t, s)
        elif k == "write" and ev.loc == self.ACT and isinstance(ev.extra, tuple) and ev.extra[0] == "cont":
            if ev.extra[1] in ("emplace", "insert"):
                s, t = self.pair(ex, st, ev.extra[2])
                self.note_active(ex, st, ev, t, s)
        elif k == "call" and q in ("std::unordered_map::operator[]", "std::map::operator[]") and ev.obj == self.ACT:
            self.s(st, ver=deref(st, ev.args[0], 1) if ev.args[0][0] == 'a' and ev.args[0][1][0] in ('v', 't') else ev.args[0])
        elif k == "write" and self.g(st, "ver") is not None and ev.val is not None and ev.loc[0] == 'p' and contains(
                ev.loc, lambda y: isinstance(y, tuple) and len(y) > 3 and y[0] == 's' and 'operator[]' in y[3:4]):
            s = self.g(st, "ver")
            self.s(st, ver=None)
            self.note_active(ex, st, ev, ev.val, s)
        if k == "write" and isinstance(ev.extra, tuple) and ev.extra[0] == "cont" and (
                ev.loc in (self.SET, self.ACT, self.CAN) or ev.loc[0] in ('v', 't') and ev.extra[1] in ("push_back", "emplace_back")):
            # a name of its own for the new contents
            st.mem[ev.loc] = ex.fresh(st, ev.fr, ev.line, 'x', 'v' + str(ev.loc[2])[-7:])
        if k == "branch":
            v = st.mem.get(self.SET) or ex.load(st, self.SET)
            if st.interval(('s', 'u', 'size', v)) == (0, 0):
                if not self.g(st, "empty"):
                    self.s(st, empty=True)

    def put(self, ex, st, ev, T, s):
        self.col.ob("queued-in-both")
        if T is None or not self.same(s, self.seq(ex, st, T)):
            self.bad(ex, "queued-in-both", "a timer is queued under something other than its own sequence number", ev)
        self.s(st, put=self.g(st, "put") + (T,), empty=False)
        a = self.g(st, "armed")
        if a is not None and a != T:
            self.s(st, armed=None)

    def note_active(self, ex, st, ev, T, s):
        if T is None or not self.same(s, self.seq(ex, st, T)):
            self.bad(ex, "queued-in-both", "a timer is remembered under something other than its own sequence number", ev)
        self.s(st, act=self.g(st, "act") + (T,))

    def candidates(self, ex, st):
        v = st.mem.get(self.SET) or ex.load(st, self.SET)
        out = [T for T, w in self.g(st, "firsts") if w == v]
        n = self.g(st, "new")
        if n is not None:
            out.append(n)
        return out

    def arm(self, ex, st, ev):
        self.col.ob("kernel-timer-armed")
        self.col.ob("delay-exact")
        fd, fl, nv = ev.args[0], ev.args[1], ev.args[2]
        if not mentions(fd, self.N["ch"]) and fd[0] != 'c':
            self.bad(ex, "kernel-timer-armed", "another descriptor than the queue's own timer is armed", ev)
        if st.interval(fl) != (0, 0):
            self.bad(ex, "delay-exact", "the delay is given as an absolute time of another clock", ev)
        l = ('f', nv[1], 'itimerspec::it_value')
        sec, nsec = ex.load(st, ('f', l, 'timespec::tv_sec')), ex.load(st, ('f', l, 'timespec::tv_nsec'))
        v = delay_us(sec, nsec)
        now = self.g(st, "now")
        if v is None or now is None:
            self.bad(ex, "delay-exact", "the seconds and nanoseconds given to the kernel do not come from one delay counted from now", ev)
            return
        if st.interval(v)[0] < 1:
            self.bad(ex, "delay-exact", "the kernel timer may be given a delay that is not positive, which disarms it", ev)
        hit = None
        for T in self.candidates(ex, st):
            due = add(self.exp(ex, st, T), now, -1)
            if v[0] == 'c':
                if v[1] <= FLOOR and st.interval(due)[1] <= v[1] + FLOOR:
                    hit = T
            else:
                d = add(v, due, -1)
                if d[0] == 'c' and abs(d[1]) <= FLOOR:
                    hit = T
        if hit is None:
            self.bad(ex, "kernel-timer-armed", "the kernel timer is armed for a time that is not the due time of the earliest timer", ev)
        self.s(st, armed=hit or ('s', 'x', 'other'))

    def use_after_free(self, ex, st, ev, rule):
        T = self.g(st, "freed")
        if T is not None and ev.kind in ("read", "write") and ev.loc is not None and contains(ev.loc, lambda y: y == ('p', T)):
            self.bad(ex, rule, "a timer is used after it has been freed", ev)

    def first_is(self, ex, st, T):
        """T known to be due before everything queued before it"""
        for b, w in self.g(st, "firsts"):
            d = add(self.exp(ex, st, T), self.exp(ex, st, b), -1)
            return st.interval(d)
        return None


class Handing(Queue):
    """functions handed to the loop are analysed where they are handed over"""
    FIELDS = Queue.FIELDS + (("handed", 0), ("inside", 0))
    run = Confine.run

    def hand(self, ex, st, ev):
        v = w = deref(st, ev.args[0])
        while w is not None and w[0] == 'bind':
            w = deref(st, w[1])
        if w is None or w[0] not in ('lam', 'fn'):
            raise Broken("what %s hands to the loop is not seen" % self.root.q)
        self.col.ob("handed-once")
        if self.g(st, "handed"):
            self.bad(ex, "handed-once", "the request is handed to the loop twice", ev)
        self.s(st, handed=1)
        s = st.copy()
        s.mon = st.mon
        self.s(s, inside=ev.fr.depth + 1)
        self.run(ex, ev, s, v, (), 0)

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        inside = self.g(st, "inside")
        if inside or not self.g(st, "handed"):
            self.work(ex, st, ev)
        else:
            self.after(ex, st, ev)
        if k == "call" and q in HANDOVER and not inside:
            self.hand(ex, st, ev)
        elif k == "leave" and inside and ev.fr.depth == inside:
            self.settled(ex, st, ev)

    def work(self, ex, st, ev):
        self.shared(ex, st, ev)

    def after(self, ex, st, ev):
        pass

    def finish(self, ex, f, out):
        for ret, st in out:
            self.col.ob("handed-once")
            if not self.g(st, "handed"):
                self.settled(ex, st, None)


class Add(Handing):
    """TimerQueue::AddTimer"""
    FIELDS = Handing.FIELDS + (("wasempty", False),)

    def work(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        self.shared(ex, st, ev)
        if k == "ctor" and q == TM + "::" + "Timer" and ev.loc is not None and ev.loc[0] == 'h':
            self.col.ob("one-timer")
            if self.g(st, "new") is not None:
                self.bad(ex, "one-timer", "a second timer is made for one request", ev)
            self.s(st, new=('a', ev.loc))
        if k == "delete":
            self.bad(ex, "one-timer", "the timer is freed while it is added", ev)
        if k == "call" and q in HANDOVER or k == "write" and ev.loc == self.SET and not self.g(st, "handed"):
            self.kept(ex, st, ev)
        if k == "branch" and self.g(st, "empty") and not self.g(st, "put") and not self.g(st, "wasempty"):
            self.s(st, wasempty=True)

    def kept(self, ex, st, ev):
        """the timer has the due time, interval and callback that were given"""
        T = self.g(st, "new")
        if T is None:
            return
        self.col.ob("due-time-kept")
        P = {p["t"].replace("const ", "").replace(" &", ""): p for p in self.root.params}
        cb = [p for p in self.root.params if "function" in p["t"]]
        if TS not in P or "double" not in P or not cb:
            raise Broken("parameters of %s not recognised" % self.root.q)
        for what, have, p in (("due time", self.exp(ex, st, T), P[TS]),
                              ("interval", ex.load(st, ('f', T[1], self.N["ivl"]), "double"), P["double"]),
                              ("callback", ex.load(st, ('f', T[1], self.N["cb"])), cb[0])):
            if not (mentions(have, "p:%s#%d" % (p["n"], self.root.params.index(p))) or contains(
                    have, lambda y: isinstance(y, tuple) and len(y) == 4 and y[2:] == ('param', p["n"])) or self.named(have, p)):
                self.bad(ex, "due-time-kept", "the new timer does not keep the given %s" % what, ev)
        e = self.exp(ex, st, T)
        if e[0] != 's':
            self.bad(ex, "due-time-kept", "the given due time is changed", ev)

    def named(self, v, p):
        return contains(v, lambda y: isinstance(y, tuple) and any(isinstance(x, str) and x.startswith("p:%s#" % p["n"]) for x in y))

    def after(self, ex, st, ev):
        if ev.kind == "delete":
            self.bad(ex, "one-timer", "the timer is freed while it is added", ev)
        if ev.kind in ("read", "write") and self.g(st, "new") is not None and ev.loc is not None:
            l = self.g(st, "new")[1]
            self.col.ob("no-use-after-handover")
            if contains(ev.loc, lambda y: y == l):
                self.bad(ex, "no-use-after-handover", "the timer is used after the loop may have fired and freed it", ev)

    def settled(self, ex, st, ev):
        T = self.g(st, "new")
        self.col.ob("queued-in-both")
        if self.g(st, "put") != (T,) or self.g(st, "act") != (T,):
            self.bad(ex, "queued-in-both", "the new timer is put %d times into the ordered and %d times into the active timers" % (
                self.g(st, "put").count(T), self.g(st, "act").count(T)), ev)
        self.col.ob("kernel-timer-armed")
        a = self.g(st, "armed")
        iv = self.first_is(ex, st, T)
        v0 = ex.load(st, self.SET)
        if a is None:
            if iv is None or iv[0] < 0:
                self.bad(ex, "kernel-timer-armed", "a timer that may be due before all others is added without arming the kernel timer for it", ev)
        elif a == T and not self.g(st, "wasempty") and (iv is None or iv[1] > 0):
            self.bad(ex, "kernel-timer-armed", "the kernel timer is set for the new timer although another one may be due before it", ev)


class Cancel(Handing):
    """TimerQueue::CancelTimer"""
    FIELDS = Handing.FIELDS + (("cond", None), ("found", None), ("T", None), ("gone", (0, 0, 0)), ("canc", 0), ("ing", None))

    def work(self, ex, st, ev):
        ev = released(st, ev)
        k, q = ev.kind, ev.q or ""
        name = q.rsplit("::", 1)[-1]
        if k == "ret" and q.startswith(("std::unordered_map::", "std::map::")) and name in ("count", "contains") and ev.obj == self.ACT:
            self.s(st, cond=(ev.ret, "n"))
        if k == "ret" and name in ("operator==", "operator!=") and ev.args and len(ev.args) == 2:
            es = [elem(deref(st, a, 1)) for a in ev.args]
            if all(es) and {e[0] for e in es} == {"find", "end"} and es[0][1] == es[1][1] == ex.load(st, self.ACT):
                self.s(st, cond=(ev.ret, name[8:]))
        if k == "ret" and name in ("operator->", "operator*") and ev.obj is not None and self.g(st, "T") is None:
            e = elem(st.mem.get(ev.obj))
            if e and e[0] == "find":
                if self.g(st, "found") is not True:
                    self.bad(ex, "cancel-stops", "the timer looked up is used without knowing that it was found", ev)
                l = ('p', ev.ret) if ev.ret[0] != 'a' else ev.ret[1]
                T = ex.load(st, ('f', l, SECOND), TM + " *")
                s = ex.load(st, ('f', l, FIRST), "unsigned long")
                self.s(st, T=(T, s))
        if k == "branch":
            c = self.g(st, "cond")
            if c is not None:
                iv = st.interval(c[0])
                if c[1] == "n":
                    f = True if iv[0] >= 1 else False if iv[1] <= 0 else None
                else:
                    f = None if iv not in ((0, 0), (1, 1)) else (iv == (1, 1)) == (c[1] == "!=")
                if f is not None:
                    self.s(st, found=f, cond=None)
            b = const(st, ex.load(st, self.ING, "bool"))
            if b is not None and self.g(st, "ing") != bool(b):
                self.s(st, ing=bool(b))
        known = self.g(st, "T")
        g = list(self.g(st, "gone"))
        if k == "write" and isinstance(ev.extra, tuple) and ev.extra[0] == "cont":
            op, args = ev.extra[1], ev.extra[2]
            if ev.loc == self.SET and op == "erase":
                if g[2]:
                    self.bad(ex, "erased-before-freed", "the ordered timers are searched after the timer has been freed: the order looks at its due time", ev)
                T, s = self.pair(ex, st, args)
                if T is None or not (known and T == known[0] or self.given(T)) or not self.seq_ok(ex, st, s, known):
                    e = elem(deref(st, args[0], 1)) if args else None
                    if not (e and e[0] == "find"):
                        self.bad(ex, "cancel-stops", "another entry than that of the cancelled timer is removed", ev)
                g[0] += 1
            elif ev.loc == self.ACT and op == "erase":
                e = elem(deref(st, args[0], 1)) if args else None
                if not (e and e[0] == "find" or self.seq_ok(ex, st, deref(st, args[0], 1) if args[0][0] == 'a' and args[0][1][0] in 'vt' else args[0], known)):
                    self.bad(ex, "cancel-stops", "another entry than that of the cancelled timer is removed", ev)
                g[1] += 1
            elif ev.loc == self.CAN and op in ("emplace", "insert"):
                s = args[0]
                s = deref(st, s, 1) if s[0] == 'a' and s[1][0] in 'vt' else s
                if not self.seq_ok(ex, st, s, known):
                    self.bad(ex, "cancel-remembered", "another timer than the given one is marked as cancelled", ev)
                self.s(st, canc=1)
            elif ev.loc in (self.SET, self.ACT, self.CAN):
                self.bad(ex, "cancel-stops", "cancelling changes other timers", ev)
            self.s(st, gone=tuple(min(2, x) for x in g))
        elif k == "delete":
            self.col.ob("freed-once")
            if self.g(st, "found") is not True:
                self.bad(ex, "freed-once", "a timer is freed without knowing that it is still active: it may have been freed before", ev)
            elif not (known and ev.val == known[0] or self.given(ev.val)):
                self.bad(ex, "freed-once", "another timer than the cancelled one is freed", ev)
            if g[2]:
                self.bad(ex, "freed-once", "the timer is freed twice", ev)
            g[2] += 1
            self.s(st, gone=tuple(min(2, x) for x in g), freed=ev.val)
        elif k in ("read", "write") and ev.loc is not None:
            self.use_after_free(ex, st, ev, "freed-once")
            if self.g(st, "found") is not True and ev.loc[0] == 'f' and ev.loc[1][0] == 'p' and ev.loc[2].startswith(TM + "::"):
                self.bad(ex, "freed-once", "the timer is looked at without knowing that it still exists", ev)

    def given(self, T):
        """the pointer inside the id that was given"""
        return mentions(T, "TimerId::timer_")

    def seq_ok(self, ex, st, s, known):
        if s is None:
            return False
        if mentions(s, "TimerId::seq_"):
            return True
        return bool(known) and (s == known[1] or s == self.seq(ex, st, known[0]))

    def settled(self, ex, st, ev):
        self.col.ob("cancel-stops")
        f, g = self.g(st, "found"), self.g(st, "gone")
        if f is None:
            self.bad(ex, "cancel-stops", "a path of cancelling does not look the timer up", ev)
        elif f and g != (1, 1, 1):
            self.bad(ex, "cancel-stops", "cancelling an active timer: %d removals from the ordered and %d from the active timers, freed %d times" % g, ev)
        elif not f and g != (0, 0, 0):
            self.bad(ex, "cancel-stops", "entries are removed although the timer was not found", ev)
        elif not f:
            self.col.ob("cancel-remembered")
            if self.g(st, "ing") is not False and not self.g(st, "canc"):
                self.bad(ex, "cancel-remembered", "a timer that has expired together with the running one is not marked as cancelled: its callback still runs", ev)


class Proc(Queue):
    """the read callback of the timer descriptor: everything that happens to
    the expired timers, one row per element of each loop"""
    FIELDS = Queue.FIELDS + (
        ("open", None),      # loop being executed
        ("cond", None),      # its condition: symbol, ==/!=, loop, known first
        ("cur", None),       # the timer of this iteration
        ("adv", 0), ("acts", ()), ("canc", None), ("rep", None), ("cc", None), ("algo", None), ("base", None), ("at", None), ("body", False),
        ("cut", None),       # [begin, cut) of the ordered timers is due
        ("got", None), ("erased", False), ("done", ()), ("ran", False), ("reset", False), ("ing", None), ("over", None))

    def __init__(self, prog, root, col):
        Queue.__init__(self, prog, root, col)
        self.rows = {}       # loop -> {row: event}
        self.exits = []
        self.unordered = False

    # ---- loops
    def box(self, ev, e):
        """which container an end iterator belongs to"""
        return None

    def start(self, ex, st, lid):
        self.s(st, open=lid, cur=None, adv=0, acts=(), canc=None, rep=None, cc=None, body=True, base=None, at=None)

    def close(self, ex, st, ev):
        lid = self.g(st, "open")
        if self.g(st, "body"):
            self.rows.setdefault(lid, {}).setdefault((self.g(st, "acts"), self.g(st, "adv")), ev)
        self.s(st, cur=None, adv=0, acts=(), canc=None, rep=None, cc=None, body=False, freed=None, base=None, at=None)

    def finished(self, ex, st, ev):
        self.close(ex, st, ev)
        lid = self.g(st, "open")
        self.rows.setdefault(lid, {})
        d = self.g(st, "done")
        if self.g(st, "over") is not None:
            self.s(st, got=(self.g(st, "over"), lid), over=None)
        self.s(st, open=None, done=d if lid in d else d + (lid,))

    def iter_kind(self, st, a):
        return elem(deref(st, a, 1))

    def vec(self, q):
        return q.startswith(("std::vector", "std::deque", "std::list"))

    def loops(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        name = q.rsplit("::", 1)[-1]
        V = ex.load(st, self.SET)
        if k == "ret" and name in ("operator==", "operator!=") and ev.args and len(ev.args) == 2:
            es = [self.iter_kind(st, a) for a in ev.args]
            fin = [e for e in es if e and (e[0] in ("end", "cend") or e[0] in ("lower_bound", "upper_bound") and e[1] == V)]
            oth = [e for e in es if e not in fin]
            if len(fin) == 1 and not (oth[0] and oth[0][0] in ("find", "lower_bound", "upper_bound")):
                lid = (ev.fr.f.id, ev.line)
                if self.g(st, "open") not in (None, lid):
                    return
                if self.g(st, "open") is None and not (oth[0] and oth[0][0] in ("begin", "cbegin") and oth[0][1] == fin[0][1]):
                    self.bad(ex, "one-pass", "a pass over the timers does not start with the first one", ev)
                if fin[0][1] == V:
                    self.range_of(ex, st, ev, fin[0])
                self.s(st, cond=(ev.ret, name[8:], lid))
        elif k == "call" and q in ("std::for_each", "std::transform", "std::copy", "std::copy_if", "std::remove_if") and self.g(st, "open") is None:
            b, e = self.iter_kind(st, ev.args[0]), self.iter_kind(st, ev.args[1])
            if b and e:
                if b[0] not in ("begin", "cbegin") or b[1] != e[1]:
                    self.bad(ex, "one-pass", "a pass over the timers does not start with the first one", ev)
                lid = (ev.fr.f.id, ev.line)
                self.start(ex, st, lid)
                self.s(st, algo=(q, ev.fr.depth, e[1] == V), adv=1)
                if e[1] == V:
                    self.range_of(ex, st, ev, e)
                    if q in ("std::copy", "std::transform") and self.cutoff(e):
                        self.collect(ex, st, ev, None)
        elif k == "enter" and self.g(st, "algo") and self.g(st, "cur") is None and ev.fr.depth == self.g(st, "algo")[1] + 1 and ev.fr.f.params:
            p = ev.args[0]
            if self.g(st, "algo")[2]:
                self.s(st, cur=ex.load(st, ('f', ex.deref(p), FIRST), TM + " *"))
            else:
                T = ex.load(st, ex.deref(p), TM + " *") if p[0] == 'a' else p
                self.s(st, cur=T)
        elif k == "ret" and self.g(st, "algo") and q == self.g(st, "algo")[0]:
            self.finished(ex, st, ev)
            self.s(st, algo=None)
        elif k == "branch" and self.g(st, "cond") is not None:
            c = self.g(st, "cond")
            iv = st.interval(c[0])
            if iv in ((0, 0), (1, 1)):
                self.s(st, cond=None)
                if self.g(st, "open") is not None:
                    self.close(ex, st, ev)
                if (iv == (1, 1)) == (c[1] == "!="):
                    self.start(ex, st, c[2])
                else:
                    self.s(st, open=c[2])
                    self.finished(ex, st, ev)
        elif k == "branch" and ev.val is not None and isinstance(ev.node, int):
            self.indexed(ex, st, ev)
        elif self.g(st, "open") is not None and k == "call" and name == "operator++" and "iterator" in q:
            self.s(st, adv=min(2, self.g(st, "adv") + 1))
        elif self.g(st, "open") is not None and k == "write" and ev.extra in ("++", "++post") and ev.loc == self.g(st, "base"):
            self.s(st, adv=min(2, self.g(st, "adv") + 1))
        if k == "ret" and self.g(st, "open") is not None and self.g(st, "cur") is not None and self.g(st, "adv") == 0 and ev.ret is not None and \
                name in ("operator*", "operator->") and "_Rb_tree" in q and ev.obj is not None and ev.obj == self.g(st, "at"):
            # the same iterator again: the same entry
            st.mem[('f', ('p', ev.ret) if ev.ret[0] != 'a' else ev.ret[1], FIRST)] = self.g(st, "cur")
        if k == "ret" and self.g(st, "open") is not None and self.g(st, "cur") is None and ev.ret is not None:
            l = None
            if name in ("operator*", "operator->") and "__normal_iterator" in q or name in ("operator[]", "at") and self.vec(q):
                l = ('p', ev.ret) if ev.ret[0] != 'a' else ev.ret[1]
                if name in ("operator[]", "at"):
                    # a name of its own for the element of this round
                    st.mem = {k: v for k, v in st.mem.items() if not (k[0] == 'p' and k[1][2:3] == ('elem',))}
                    st.mem[l] = ex.fresh(st, ev.fr, ev.line, 'u', 'elem')
                T = ex.load(st, l, TM + " *")
            elif name in ("operator*", "operator->") and "_Rb_tree" in q:
                l = ('p', ev.ret) if ev.ret[0] != 'a' else ev.ret[1]
                self.s(st, at=ev.obj)
                T = ex.load(st, ('f', l, FIRST), TM + " *")
            if l is not None:
                self.s(st, cur=T)

    def indexed(self, ex, st, ev):
        from rules_loop import cond_vars
        if not contains(ev.val, lambda y: isinstance(y, tuple) and len(y) > 3 and y[0] == 's' and y[2] == 'size'):
            return
        vs = {v for v in cond_vars(ev.fr, ev.node) if not contains(
            ex.load(st, v), lambda y: isinstance(y, tuple) and len(y) > 3 and y[0] == 's' and y[2] == 'size')}
        if len(vs) != 1:
            return
        idx = vs.pop()
        lid = (ev.fr.f.id, ev.line)
        if self.g(st, "open") is None:
            if st.interval(ex.load(st, idx)) != (0, 0):
                self.bad(ex, "one-pass", "a pass over the timers does not start with the first one", ev)
        elif self.g(st, "open") != lid:
            return
        sz = [y for y in symbols(ev.val) if y[2] == 'size']
        hi = st.interval(add(sz[0], ex.load(st, idx), -1))[1]
        if self.g(st, "open") is not None:
            self.close(ex, st, ev)
        if hi > 0:
            self.start(ex, st, lid)
            self.s(st, base=idx)
        else:
            self.s(st, open=lid)
            self.finished(ex, st, ev)

    # ---- what is due
    def cutoff(self, e):
        return e[0] in ("lower_bound", "upper_bound")

    def range_of(self, ex, st, ev, e):
        """the first timers, up to e, are taken: all of them must be due"""
        if not self.cutoff(e):
            return
        self.col.ob("expired-only")
        key = e[2][0] if e[2] else None
        D = deref(st, key, 1) if key is not None and key[0] == 'a' and key[1] in st.mem else key
        l = key[1] if key is not None and key[0] == 'a' else None
        T = st.mem.get(('f', l, FIRST)) if l else None
        now = self.g(st, "now")
        if T is None or now is None:
            self.bad(ex, "expired-only", "the time up to which timers have expired is not the current time", ev)
            return
        d = add(self.exp(ex, st, T), now, -1)
        if st.interval(d)[1] > 0:
            self.bad(ex, "expired-only", "timers that are not due yet are taken as expired", ev)
        self.s(st, cut=e[:2], over=e[1])

    def due(self, ex, st, T):
        now = self.g(st, "now")
        return now is not None and st.interval(add(self.exp(ex, st, T), now, -1))[1] <= 0

    def collect(self, ex, st, ev, T):
        self.act_(ex, st, "collect")

    def act_(self, ex, st, what):
        a = self.g(st, "acts")
        if len(a) < 8:
            self.s(st, acts=a + (what,))

    # ---- events
    def event(self, ex, st, ev):
        ev = released(st, ev)
        k, q = ev.kind, ev.q or ""
        name = q.rsplit("::", 1)[-1]
        N = self.N
        cur = self.g(st, "cur")
        self.shared(ex, st, ev)
        self.loops(ex, st, ev)
        cur = self.g(st, "cur")
        if k == "write" and isinstance(ev.extra, tuple) and ev.extra[0] == "cont":
            op, args = ev.extra[1], ev.extra[2]
            vals = [deref(st, a, 1) if a[0] == 'a' and a[1][0] in ('v', 't') else ex.load(st, a[1], TM + " *") if a[0] == "a" and a[1][0] == "f" and
                    a[1][2] in (FIRST, SECOND) else a for a in args]
            if op in ("push_back", "emplace_back") and cur is not None and len(vals) == 1 and vals[0] == cur:
                if self.g(st, "cut") and self.g(st, "cut")[1] == ex.load(st, self.SET) or self.due(ex, st, cur):
                    self.collect(ex, st, ev, cur)
                else:
                    self.bad(ex, "expired-only", "a timer not known to be due is taken as expired", ev)
            if ev.loc == self.SET and op == "erase":
                self.col.ob("collected-once")
                es = [elem(v) for v in vals]
                if len(es) == 2 and all(es):
                    c = self.g(st, "cut")
                    if not (es[0][0] in ("begin", "cbegin") and c and es[1][:2] == c and es[0][1] == c[1]):
                        self.bad(ex, "collected-once", "other timers than the expired ones are taken out of the queue", ev)
                    if self.g(st, "got") is None or self.g(st, "got")[0] != c[1] if c else True:
                        self.bad(ex, "collected-once", "timers are taken out of the queue that were not collected: they would neither run nor be freed", ev)
                    self.s(st, erased=True)
                else:
                    self.act_(ex, st, "out")
            if ev.loc == self.ACT and op == "erase":
                # the second of a queued entry is its timer's own number (queued-in-both)
                own = args and args[0][0] == 'a' and args[0][1][0] == 'f' and args[0][1][2] == SECOND and \
                    ex.load(st, ('f', args[0][1][1], FIRST), TM + " *") == cur
                if cur is not None and vals and (vals[0] == self.seq(ex, st, cur) or own):
                    self.act_(ex, st, "deact")
                else:
                    self.bad(ex, "deactivated", "another timer than the expired one is taken out of the active timers", ev)
            if ev.loc == self.ACT and op == "clear" or ev.loc == self.SET and op in ("clear", "swap"):
                self.bad(ex, "collected-once", "timers that have not expired are dropped", ev)
            if ev.loc == self.CAN and op in ("clear", "erase", "swap") and self.g(st, "ran") and not (op == "erase" and self.g(st, "acts")):
                self.s(st, reset=True)
        if k == "ret" and q.startswith("std::unordered_set::") and name in ("count", "contains") and ev.obj == self.CAN:
            if cur is not None and ev.args and deref(st, ev.args[0], 1) == self.seq(ex, st, cur):
                self.s(st, cc=(ev.ret, "n"))
        if k == "ret" and name in ("operator==", "operator!=") and ev.args and len(ev.args) == 2 and cur is not None:
            es = [elem(deref(st, a, 1)) for a in ev.args]
            if all(es) and {e[0] for e in es} == {"find", "end"} and es[0][1] == es[1][1] == ex.load(st, self.CAN):
                f = [e for e in es if e[0] == "find"][0]
                if f[2] and (f[2][0] == self.seq(ex, st, cur) or deref(st, f[2][0], 1) == self.seq(ex, st, cur)):
                    self.s(st, cc=(ev.ret, name[8:]))
        if k == "branch" and cur is not None:
            c = self.g(st, "cc")
            if c is not None:
                iv = st.interval(c[0])
                v = None
                if c[1] == "n":
                    v = True if iv[0] >= 1 else False if iv[1] <= 0 else None
                elif iv in ((0, 0), (1, 1)):
                    v = (iv == (1, 1)) == (c[1] == "!=")
                if v is not None:
                    self.s(st, canc=v, cc=None)
            r = self.repeats(ex, st, ev, cur)
            if r is not None:
                self.s(st, rep=r)
        if k == "callback":
            loc = ev.loc or ev.obj
            mine = cur is not None and self.is_cb(ev, cur)
            if mine or self.any_cb(ev):
                self.col.ob("cancelled-not-run")
                if not mine:
                    self.bad(ex, "cancelled-not-run", "a callback runs outside the pass over the expired timers", ev)
                if not self.g(st, "erased") and "out" not in self.g(st, "acts"):
                    self.bad(ex, "collected-once", "a callback runs while its timer is still queued", ev)
                if not self.g(st, "ing"):
                    self.bad(ex, "cancel-remembered", "a callback runs while cancellations of expired timers are not recorded", ev)
                self.act_(ex, st, "run" if self.g(st, "canc") is False else "run-maybe-cancelled")
                self.s(st, ran=True, canc=None, cc=None)
        if k == "write" and ev.loc == self.ING:
            self.s(st, ing=const(st, ev.val))
        if k == "call" and q == TM + "::restart" or k == "write" and cur is not None and ev.loc == ('f', ('p', cur), N["exp"]):
            if "again" not in self.g(st, "acts"):
                self.act_(ex, st, "again")
        if k == "delete":
            self.col.ob("freed-once")
            if cur is None or ev.val != cur:
                self.bad(ex, "freed-once", "another timer than the one at hand is freed", ev)
            else:
                self.act_(ex, st, "free" + self.why(st))
                self.s(st, freed=cur)
        self.use_after_free(ex, st, ev, "freed-once")

    def why(self, st):
        """a one-shot timer or a cancelled one"""
        return "" if self.g(st, "rep") is False or self.g(st, "canc") is True else "-repeating"

    def is_cb(self, ev, cur):
        for x in (ev.loc, ev.obj, ev.val):
            if x is not None and contains(x, lambda y: y == ('p', cur)):
                return True
        return False

    def any_cb(self, ev):
        return True

    def repeats(self, ex, st, ev, cur):
        s = ex.load(st, ('f', ('p', cur), self.N["ivl"]), "double")
        v = ev.val
        neg = False
        while v is not None and v[0] == 'not':
            v, neg = v[1], not neg
        if v is None or v[0] != 'cmp' or not contains(v, lambda y: y == s):
            return None
        def at(n):
            t = 0
            for y, c in v[2]:
                if y == s:
                    t += c * n
                elif y[0] == 's' and y[2] == 'float':
                    t += c * float(y[3])
                else:
                    return None
            k = v[3]
            return {'<': t < k, '<=': t <= k, '==': t == k, '!=': t != k}[v[1]]
        z, o = at(0), at(1)
        if z is None or z == o:
            return None
        truth = ev.extra != neg
        return truth == o

    def put(self, ex, st, ev, T, s):
        Queue.put(self, ex, st, ev, T, s)
        self.s(st, put=(), firsts=())
        if T is None or T != self.g(st, "cur"):
            self.bad(ex, "settled-once", "another timer than the expired one at hand is queued again", ev)
        else:
            ok = self.g(st, "rep") is True and self.g(st, "canc") is False
            self.act_(ex, st, "put" if ok else "put-unsure")
            if self.g(st, "freed") == T:
                self.bad(ex, "freed-once", "a freed timer is queued again", ev)

    def note_active(self, ex, st, ev, T, s):
        Queue.note_active(self, ex, st, ev, T, s)
        self.s(st, act=())
        if T is not None and T == self.g(st, "cur"):
            self.act_(ex, st, "active")

    def finish(self, ex, f, out):
        def has(lid, *w):
            return any(any(a.split("-")[0] in w for a in acts) for acts, adv in self.rows.get(lid, {}))
        runs = {l for l in self.rows if has(l, "run")}
        if not runs:
            return
        self.col.data.append(f.q)
        settle = {l for l in self.rows if has(l, "free", "put")}
        deact = {l for l in self.rows if has(l, "deact")}
        coll = {l for l in self.rows if has(l, "collect")}
        for lid, rows in self.rows.items():
            if lid not in runs | settle | deact | coll:
                continue
            for (acts, adv), ev in rows.items():
                n = {a: acts.count(a) for a in acts}
                self.col.ob("one-pass")
                if adv == 0:
                    self.bad(ex, "one-pass", "one timer is handled twice", ev)
                elif adv > 1:
                    self.bad(ex, "one-pass", "a timer is left out", ev)
                if lid in coll and acts.count("collect") != 1:
                    self.bad(ex, "collected-once", "an expired timer is collected %d times" % acts.count("collect"), ev)
                if lid in deact and acts.count("deact") != 1:
                    self.bad(ex, "deactivated", "an expired timer stays among the active ones: cancelling it frees it while it runs", ev)
                if lid in runs:
                    self.col.ob("run-each-expired")
                    if "run-maybe-cancelled" in n:
                        self.bad(ex, "cancelled-not-run", "the callback of a timer runs that a callback before it may have cancelled", ev)
                    r = n.get("run", 0) + n.get("run-maybe-cancelled", 0)
                    if r > 1:
                        self.bad(ex, "run-each-expired", "an expired timer's callback runs twice", ev)
                    if r == 0 and not self.skipped(acts):
                        self.bad(ex, "run-each-expired", "an expired timer that was not cancelled is left out", ev)
                if lid in settle:
                    self.col.ob("settled-once")
                    self.col.ob("restarted-first")
                    self.col.ob("rearmed-until-cancelled")
                    fr = sum(c for a, c in n.items() if a.startswith("free"))
                    pt = sum(c for a, c in n.items() if a.startswith("put"))
                    if fr + pt != 1:
                        self.bad(ex, "settled-once", "an expired timer is freed %d times and queued again %d times" % (fr, pt), ev)
                    if "put-unsure" in n:
                        self.bad(ex, "rearmed-until-cancelled", "a timer is armed again that may be one-shot or cancelled", ev)
                        self.bad(ex, "settled-once", "a timer is queued again that may be one-shot or cancelled", ev)
                    if "free-repeating" in n:
                        self.bad(ex, "rearmed-until-cancelled", "a repeating timer that was not cancelled may not be armed again", ev)
                        self.bad(ex, "settled-once", "a repeating timer that was not cancelled may be freed", ev)
                    if pt and n.get("active", 0) != 1:
                        self.bad(ex, "settled-once", "a timer queued again is not put among the active timers: it could not be cancelled", ev)
                    if pt and not ("again" in n and acts.index("again") < min(i for i, a in enumerate(acts) if a.startswith("put"))):
                        self.bad(ex, "restarted-first", "a timer is queued again before its next due time is set: the order of the queue is broken", ev)
        for ret, st in out:
            d = list(self.g(st, "done"))
            ix = lambda ls: [d.index(l) for l in ls if l in d]
            self.col.ob("collected-once")
            if not ix(runs):
                self.bad(ex, "run-each-expired", "a path does not run the expired timers")
            if not ix(settle):
                self.bad(ex, "settled-once", "a path neither frees the expired timers nor queues them again")
            if not ix(deact) or ix(runs) and min(ix(deact)) > min(ix(runs)):
                self.bad(ex, "deactivated", "expired timers stay among the active ones while they run: cancelling one frees it")
            if ix(runs) and ix(settle) and min(ix(settle)) < min(ix(runs)):
                self.bad(ex, "settled-once", "expired timers are freed before they run")
            if self.g(st, "got") is None or self.g(st, "got")[1] not in coll or not self.g(st, "erased") and not any("out" in a for l in coll for a, _ in self.rows[l]):
                self.bad(ex, "collected-once", "expired timers stay in the queue")
            if self.g(st, "reset") and ix(settle):
                self.bad(ex, "cancel-remembered", "cancellations are forgotten before the expired timers are settled")
            self.col.ob("kernel-timer-armed")
            if not self.g(st, "empty") and not (self.g(st, "armed") is not None and self.g(st, "armed")[2:3] != ('other',)):
                self.bad(ex, "kernel-timer-armed", "a path leaves timers queued without arming the kernel timer for the earliest")

    def skipped(self, acts):
        return "skip-cancelled" in acts

    def arm(self, ex, st, ev):
        Queue.arm(self, ex, st, ev)


class Skips(Proc):
    """notes that an element was left because it had been cancelled"""

    def close(self, ex, st, ev):
        if self.g(st, "body") and self.g(st, "canc") is True and not any(a.startswith("run") for a in self.g(st, "acts")):
            self.act_(ex, st, "skip-cancelled")
        Proc.close(self, ex, st, ev)


def P14(prog, rep, tier):
    rep.rule("one-timer", "AddTimer makes one timer with a number of its own")
    rep.rule("handed-once", "each request is handed to the loop once (or carried out in place)")
    rep.rule("no-use-after-handover", "the requesting thread does not touch the timer once the loop has it")
    rep.rule("queued-in-both", "a timer is put once into the ordered and once into the active timers, under its own number")
    rep.rule("cancel-stops", "cancelling an active timer removes it from both and frees it once; one that is not active is not touched")
    rep.rule("cancel-remembered", "cancelling while callbacks run is recorded until the expired timers are settled")
    rep.rule("erased-before-freed", "a timer leaves the ordered timers, whose order looks at it, before it is freed")
    rep.rule("freed-once", "a timer is freed once, only when known to exist, and not used afterwards")
    rep.rule("collected-once", "exactly the expired timers leave the queue, before a callback runs")
    rep.rule("deactivated", "every expired timer leaves the active timers before a callback runs")
    rep.rule("cancelled-not-run", "before each callback its timer is looked up among the cancelled ones")
    rep.rule("settled-once", "each expired timer is queued again if repeating and not cancelled, otherwise freed; exactly one of both")
    rep.rule("one-pass", "passes over the timers begin with the first and take every one in turn")
    rep.rule("queue-frees-rest", "destruction of the queue frees each remaining timer once")
    timers(prog, rep, tier, LIFE)
    for r, n in (("one-timer", 2), ("handed-once", 2), ("queued-in-both", 2), ("cancel-stops", 2), ("cancel-remembered", 1), ("freed-once", 3),
                 ("collected-once", 2), ("cancelled-not-run", 1), ("settled-once", 2), ("one-pass", 3), ("queue-frees-rest", 2)):
        rep.need(r, n)


def P15(prog, rep, tier):
    rep.rule("ordered-by-due-time", "the ordered timers are ordered by due time, then number: all nine cases of two timers")
    rep.rule("expired-only", "only timers due at the current time are taken as expired")
    rep.rule("run-each-expired", "each expired timer's callback runs once in a pass, unless cancelled")
    rep.rule("due-time-kept", "due time, interval and callback reach the timer unchanged from RunAt, RunAfter and RunEvery")
    rep.rule("rearm-interval", "a repeating timer is due again one interval later")
    rep.rule("restarted-first", "the next due time is set before the timer is put back into the order")
    rep.rule("kernel-timer-armed", "after every change the kernel timer is armed for the first timer or an earlier time")
    rep.rule("delay-exact", "the kernel gets seconds and nanoseconds of one relative, positive delay from now to the due time")
    rep.rule("rearmed-until-cancelled", "an expired timer is armed again exactly if it repeats and was not cancelled")
    timers(prog, rep, tier, DUE)
    for r, n in (("ordered-by-due-time", 9), ("expired-only", 1), ("run-each-expired", 1), ("due-time-kept", 5), ("rearm-interval", 2),
                 ("restarted-first", 1), ("kernel-timer-armed", 4), ("delay-exact", 4)):
        rep.need(r, n)


class Only:
    """the part of the report that belongs to one property"""

    def __init__(self, rep, rules):
        self.__dict__.update(r=rep, keep=rules)

    def __getattr__(self, n):
        return getattr(self.r, n)

    def __setattr__(self, n, v):
        setattr(self.r, n, v)

    def ob(self, k, n=1):
        if k in self.keep:
            self.r.ob(k, n)

    def violate(self, rule, *a, **k):
        if rule in self.keep:
            self.r.violate(rule, *a, **k)


def timers(prog, rep, tier, rules):
    rep = Only(rep, rules)
    N = names(prog)
    kw = dict(opaque=OPAQUE, no_inline=lambda f: nolog(f) or f.q in HANDOVER)
    drive(prog, fn(prog, TQ + "::AddTimer"), lambda p, f, c: [Add(p, f, c)], rep, **kw)
    drive(prog, fn(prog, TQ + "::CancelTimer"), lambda p, f, c: [Cancel(p, f, c)], rep, **kw)
    at = address_taken(prog)
    procs = [f for f in prog.funcs.values() if f.has_body and f.cls == TQ and f.kind == "fn" and f.id in at]
    procs += [f for f in prog.funcs.values() if f.has_body and f.parent and prog.funcs.get(f.parent) is not None and
              prog.funcs[f.parent].cls == TQ and prog.funcs[f.parent].kind == "ctor"]
    done = set(drive(prog, procs, lambda p, f, c: [Skips(p, f, c)], None, **kw))
    if not done:
        raise Broken("the function that runs expired timers was not found")
    drive(prog, [f for f in procs if f.q in done], lambda p, f, c: [Skips(p, f, c)], rep, **kw)
    cmps = comparators(prog)
    drive(prog, cmps, lambda p, f, c: [Order(p, f, c)], rep, opaque=OPAQUE)
    ctors = [f for f in prog.funcs.values() if f.cls == TM and f.kind == "ctor" and f.has_body and f.params and "function" in f.params[0]["t"]]
    drive(prog, ctors, lambda p, f, c: [Made(p, f, c)], rep, opaque=OPAQUE)
    drive(prog, [f for f in fn(prog, TM + "::restart")], lambda p, f, c: [Restart(p, f, c)], rep, opaque=OPAQUE)
    pub = [f for n in ("RunAt", "RunAfter", "RunEvery") for f in fn(prog, LF + n)]
    drive(prog, pub, lambda p, f, c: [Public(p, f, c)], rep, opaque=OPAQUE, no_inline=lambda f: nolog(f) or f.name == "AddTimer")
    drive(prog, [f for f in prog.funcs.values() if f.cls == TQ and f.kind == "dtor" and f.has_body], lambda p, f, c: [Rest(p, f, c)], rep, **kw)


def comparators(prog):
    """the call operators that order the timers: those of the comparison class
    named in the container's type"""
    t = [f["t"] for f in prog.record(TQ)["fields"] if TQ + "::" + f["sn"] == names(prog)["set"] or f["n"] == names(prog)["set"]][0]
    out = [f for f in prog.funcs.values() if f.name == "operator()" and f.cls and f.cls in t and f.has_body]
    if not out:
        raise Broken("the order of the timers was not found in %s" % t)
    return out


class Order(Rec):
    """earlier due time first, then the smaller sequence number"""
    FIELDS = (("case", None),)

    def keys(self, ex, st):
        N = names(self.p)
        out = []
        for p in self.root.params[:2]:
            l = ('p', ('s', 'nn', 'param', p["n"]))
            T = ex.load(st, ('f', l, FIRST), TM + " *")
            out.append((ex.load(st, ('f', ('f', ('p', T), N["exp"]), N["us"])), ex.load(st, ('f', l, SECOND), "unsigned long")))
        return out

    def event(self, ex, st, ev):
        if ev.kind != "root":
            return
        (a, i), (b, j) = self.keys(ex, st)
        out = []
        for d in ("<", "==", ">"):
            for e in ("<", "==", ">"):
                s = st.copy()
                s.mon = st.mon
                ok = True
                for op, x, y in ((d, a, b), (e, i, j)):
                    if op == ">":
                        op, x, y = "<", y, x
                    ok = ok and s.assume(cmpv(op, x, y), True)
                if ok:
                    self.s(s, case=(d, e))
                    out.append(s)
        return out

    def finish(self, ex, f, out):
        for ret, st in out:
            d, e = self.g(st, "case")
            self.col.ob("ordered-by-due-time")
            want = d == "<" or d == "==" and e == "<"
            r = st.decide(truthv(ret)) if ret is not None else None
            if r is not want and not (d == "==" and e == "==" and r is False):
                self.bad(ex, "ordered-by-due-time", "a timer due %s and made %s another is %s put before it" % (
                    {"<": "before", "==": "with", ">": "after"}[d], {"<": "before", "==": "as", ">": "after"}[e],
                    "not" if want else "always" if r else "sometimes"))


class Made(Rec):
    """the constructor of a timer"""
    FIELDS = (("seq", None),)

    def event(self, ex, st, ev):
        if ev.kind == "write" and ev.extra in ("rmw", "atomic", "++", "++post", "+=") and ev.loc is not None and contains(
                ev.loc, lambda y: isinstance(y, tuple) and y[:1] == ('g',)):
            self.s(st, seq=ev.loc)

    def finish(self, ex, f, out):
        N = names(self.p)
        for ret, st in out:
            self.col.ob("due-time-kept")
            self.col.ob("one-timer")
            P = f.params
            for k, t in (("exp", TS), ("ivl", "double")):
                l = ('f', THIS, N[k])
                v = ex.load(st, ('f', l, N["us"]) if k == "exp" else l)
                p = [p for p in P if t in p["t"]][0]
                if not contains(v, lambda y: isinstance(y, tuple) and y[2:] == ('param', p["n"]) or isinstance(y, tuple) and any(
                        isinstance(x, str) and x.startswith("p:%s#" % p["n"]) for x in y)):
                    self.bad(ex, "due-time-kept", "a new timer does not keep the given %s" % ("due time" if k == "exp" else "interval"))
            if self.g(st, "seq") is None:
                self.bad(ex, "one-timer", "a timer's number is not taken from the common counter: two timers may get the same")


def seconds(v):
    """the number of seconds that a term converts to microseconds"""
    if v[0] == 's' and v[2:4] == ('conv', 'FloatingToIntegral'):
        o = v[4]
        if o[0] == 's' and o[2:4] == ('op', '*'):
            for x, k in ((o[4], o[5]), (o[5], o[4])):
                if contains(k, lambda y: y == ('c', US)) or k == ('s', 'x', 'float', '1000000') or k == ('c', US):
                    return x
    return None


def after_now(v, now):
    """the seconds counted from now, or None"""
    d = add(v, now, -1)
    if d[0] == 's':
        return seconds(d)
    if d[0] == 'l' and len(d[2]) == 1 and d[1] == 0 and d[2][0][1] == 1:
        return seconds(d[2][0][0])
    return None


class Restart(Rec):
    FIELDS = (("now", None),)

    def event(self, ex, st, ev):
        if ev.kind == "ret" and ev.q == TS + "::Now":
            self.s(st, now=ex.load(st, ('f', ev.ret[1], names(self.p)["us"])))

    def finish(self, ex, f, out):
        N = names(self.p)
        for ret, st in out:
            self.col.ob("rearm-interval")
            e = ex.load(st, ('f', ('f', THIS, N["exp"]), N["us"]))
            iv = ('s', 'x', 'init', ('f', THIS, N["ivl"]))
            ok = False
            base = [self.g(st, "now")] if self.g(st, "now") is not None else []
            base.append(('s', 'x', 'init', ('f', ('f', THIS, N["exp"]), N["us"])))
            for p in f.params:
                if TS in p["t"]:
                    base += [y for y in symbols(e) if y[2] == 'init' and contains(y, lambda z: isinstance(z, tuple) and any(
                        isinstance(x, str) and x.startswith("p:%s#" % p["n"]) for x in z) or isinstance(z, tuple) and z[2:] == ('param', p["n"]))]
            for b in base:
                x = after_now(e, b)
                if x is not None and x[2:] == iv[2:]:
                    ok = True
            if not ok:
                self.bad(ex, "rearm-interval", "a repeating timer's next due time is not one interval after the current time")


class Public(Restart):
    """RunAt, RunAfter, RunEvery"""
    FIELDS = (("now", None), ("adds", 0))

    def event(self, ex, st, ev):
        Restart.event(self, ex, st, ev)
        if ev.kind == "call" and (ev.q or "").endswith("::AddTimer"):
            self.col.ob("due-time-kept")
            self.s(st, adds=min(2, self.g(st, "adds") + 1))
            N = names(self.p)
            cb, t, iv = ev.args[:3]
            cl = [p for p in self.root.params if "function" in p["t"] or "Callback" in p["t"]][0]
            if not self.from_param(st, cb, cl):
                self.bad(ex, "due-time-kept", "another function than the given one is put on the timer", ev)
            due = ex.load(st, ('f', t[1] if t[0] == 'a' else ('p', t), N["us"]))
            tp = [p for p in self.root.params if TS in p["t"]]
            dp = [p for p in self.root.params if p["t"] == "double"]
            if tp:
                if not self.from_param(st, due, tp[0]) or due[0] != 's':
                    self.bad(ex, "due-time-kept", "the timer is due at another time than the given one", ev)
            else:
                x = after_now(due, self.g(st, "now")) if self.g(st, "now") is not None else None
                if x is None or not dp or x != ('s', x[1], 'param', dp[0]["n"]):
                    self.bad(ex, "due-time-kept", "the timer is not due the given time from now", ev)
            z = iv == ('c', 0) or iv[0] == 's' and iv[2:] == ('float', '0') or contains(iv, lambda y: y == ('c', 0)) and not contains(
                iv, lambda y: isinstance(y, tuple) and y[2:3] == ('param',))
            self.col.ob("rearm-interval")
            if self.root.name == "RunEvery":
                if not dp or iv[2:] != ('param', dp[0]["n"]):
                    self.bad(ex, "rearm-interval", "the repeating timer is not given its interval", ev)
            elif not z:
                self.bad(ex, "rearm-interval", "a one-shot timer is given an interval", ev)

    def from_param(self, st, v, p):
        v = deref(st, v, 3) if v[0] == 'a' and v[1] in st.mem else v
        return contains(v, lambda y: isinstance(y, tuple) and (y[2:] == ('param', p["n"]) or any(
            isinstance(x, str) and x.startswith("p:%s#" % p["n"]) for x in y)))

    def finish(self, ex, f, out):
        for ret, st in out:
            if self.g(st, "adds") != 1:
                self.bad(ex, "due-time-kept", "a path makes %d timers for one request" % self.g(st, "adds"))


class Rest(Proc):
    """destruction of the queue: each remaining timer is freed once"""

    def cutoff(self, e):
        return False

    def finish(self, ex, f, out):
        loops = {l for l, r in self.rows.items() if any("free" in "".join(a) for a, _ in r)}
        for l in loops:
            for (acts, adv), ev in self.rows[l].items():
                self.col.ob("queue-frees-rest")
                if adv != 1 or sum(1 for a in acts if a.startswith("free")) != 1:
                    self.bad(ex, "queue-frees-rest", "a timer left in the queue is not freed exactly once", ev)
        for ret, st in out:
            self.col.ob("queue-frees-rest")
            n = len([l for l in self.g(st, "done") if l in loops])
            if n != 1:
                self.bad(ex, "queue-frees-rest", "the timers left in the queue are freed %d times" % n)
