"""Event loop rules: work hand-over (P03), iteration (P38), confinement (P01),
registration and dispatch (P13), channel life time (P09), broken pipes (P34)."""
from absint import *
from program import Broken
from drive import drive, is_root, all_roots
from rules_lock import leaf, THIS
from rules_conn import local_fns, reaches
from rules_conn2 import exit_frame, value_fn, handed_functions, LATER, LOOP_CB, HANDOVER, strip, callee_of, loc_of, chain

LOOP = "kanon::EventLoop"
CH = "kanon::Channel"
LF = LOOP + "::"


def fn(prog, q):
    r = [f for f in prog.funcs.values() if f.q == q and f.has_body]
    if not r:
        raise Broken("%s not found" % q)
    return r


def field_of_type(prog, cls, pred, what):
    for r in prog.records.get(cls, [])[:1]:
        hit = [f["n"] if "::" in f["n"] else cls + "::" + f["n"] for f in r["fields"] if pred(f)]
        if len(hit) == 1:
            return hit[0]
        raise Broken("%s: %s not unique: %s" % (cls, what, hit))
    raise Broken("class %s not found" % cls)


def field(prog, cls, name):
    for r in prog.records.get(cls, [])[:1]:
        for f in r["fields"]:
            n = f["n"] if "::" in f["n"] else cls + "::" + f["n"]
            if n == cls + "::" + name:
                return n
    raise Broken("%s has no member %s" % (cls, name))


def loop_fields(prog):
    t = getattr(prog, "_loop_fields", None)
    if t is None:
        t = prog._loop_fields = {
            "functors": field_of_type(prog, LOOP, lambda f: f.get("c") in CONTAINERS and "function" in f["t"] or
                                      f.get("c") in CONTAINERS and "Functor" in f["t"], "queue of functions"),
            "quit": field(prog, LOOP, "quit_"),
            "poller": field_of_type(prog, LOOP, lambda f: "Poller" in f["t"], "poller"),
            "ev": field_of_type(prog, LOOP, lambda f: "Channel" in f["t"], "event channel"),
        }
    return t


class Rec(Monitor):
    """monitor whose state is a fixed record"""
    FIELDS = ()

    def __init__(self, prog, root, col):
        self.p, self.root, self.col = prog, root, col
        self.I = {n: i for i, (n, _) in enumerate(self.FIELDS)}
        self.init = tuple(v for _, v in self.FIELDS)

    def g(self, st, n):
        return self.get(st)[self.I[n]]

    def s(self, st, **kw):
        t = list(self.get(st))
        for k, v in kw.items():
            t[self.I[k]] = v
        self.set(st, tuple(t))

    def bad(self, ex, rule, msg, ev=None):
        if ev is None:
            ex.violate(Violation(rule, msg, None, exit_frame(self.root), self.root.line))
        else:
            ex.violate(Violation(rule, msg, ev))


ITER_NE = ("operator!=", "operator==")


class Each(Rec):
    """every element of one container is acted on once, in order.  Subclasses
    say which container (is_box), what the action is (is_action) and when an
    element may be left out (may_skip).  An element begins where the loop
    condition finds that there is one more, and ends at the next condition."""
    FIELDS = (("on", False), ("n", 0), ("body", False), ("adv", 0), ("cond", None), ("algo", None), ("idx", None))

    RULE = "each"

    def is_box(self, ex, st, loc):
        raise NotImplementedError

    def is_action(self, ex, st, ev):
        raise NotImplementedError

    def may_skip(self, ex, st):
        return False

    def box_version(self, ex, st):
        return None

    def new_element(self, ex, st):
        pass

    def ended(self, ex, st):
        """the loop is known to have seen every element"""
        self.s(st, on=False, n=0, body=False, adv=0, cond=None, idx=None)
        if "ended" in self.I:
            self.s(st, ended=True)

    def stray(self, ex, st, ev):
        pass

    def close(self, ex, st, ev):
        if self.g(st, "body"):
            self.col.ob(self.RULE)
            if self.g(st, "adv") > 1 or self.g(st, "n") == 0 and not self.may_skip(ex, st):
                self.bad(ex, self.RULE, "an element is left out", ev)
            elif self.g(st, "adv") == 0:
                self.bad(ex, self.RULE, "one element is handled twice", ev)
        self.s(st, body=False, n=0, adv=0)

    def more(self, ex, st, ev, yes):
        self.close(ex, st, ev)
        if yes:
            self.s(st, on=True, body=True)
            self.new_element(ex, st)
        else:
            self.ended(ex, st)

    def each_event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        name = q.rsplit("::", 1)[-1]
        on = self.g(st, "on")
        if k == "call" and name in ("begin", "cbegin") and ev.obj is not None and self.is_box(ex, st, ev.obj):
            self.s(st, on=True, n=0, body=False, adv=0, cond=None)
            return
        if k == "call" and name in ("rbegin", "crbegin") and ev.obj is not None and self.is_box(ex, st, ev.obj):
            self.bad(ex, self.RULE, "the elements are visited in reverse order", ev)
            return
        if k == "call" and q in ("std::for_each",) and on:
            self.s(st, algo=(ev.line, False), n=0)
            return
        if k == "enter" and self.g(st, "algo") and ev.fr.f.parent and not self.g(st, "algo")[1]:
            self.s(st, algo=(self.g(st, "algo")[0], True))
            self.new_element(ex, st)
        if k == "ret" and q in ("std::for_each",) and self.g(st, "algo"):
            self.col.ob(self.RULE)
            if self.g(st, "algo")[1] and self.g(st, "n") != 1 and not self.may_skip(ex, st):
                self.bad(ex, self.RULE, "an element is left out", ev)
            self.s(st, algo=None)
            self.ended(ex, st)
            return
        if k == "branch" and self.g(st, "cond") is None:
            self.index_branch(ex, st, ev)
        if not on:
            if self.is_action(ex, st, ev):
                self.stray(ex, st, ev)
            return
        if k == "ret" and name in ITER_NE and ev.ret is not None:
            self.s(st, cond=(ev.ret, name[8:]))
        elif k == "branch":
            c = self.g(st, "cond")
            if c is not None:
                iv = st.interval(c[0])
                if iv in ((0, 0), (1, 1)):
                    self.s(st, cond=None)
                    self.more(ex, st, ev, (iv == (1, 1)) == (c[1] == "!="))
        elif k == "call" and name in ("operator++", "operator--", "operator+=", "operator-=", "erase") and "iterator" in q or \
                k == "call" and name == "erase" and ev.obj is not None and self.is_box(ex, st, ev.obj):
            if name in ("operator--", "operator-="):
                self.bad(ex, self.RULE, "the elements are visited in reverse order", ev)
            self.s(st, adv=min(2, self.g(st, "adv") + 1), body=True)
        elif k == "write" and self.g(st, "idx") == ev.loc:
            if ev.extra in ("--", "--post", "-="):
                self.bad(ex, self.RULE, "the elements are visited in reverse order", ev)
            self.s(st, adv=min(2, self.g(st, "adv") + 1))
        elif self.is_action(ex, st, ev):
            n = self.g(st, "n")
            if n >= 1:
                self.bad(ex, self.RULE, "one element is handled twice", ev)
            self.s(st, n=min(2, n + 1), body=True)

    def index_branch(self, ex, st, ev):
        """i < box.size()"""
        ver = self.box_version(ex, st)
        if ver is None or ev.val is None or not isinstance(ev.node, int):
            return
        sz = ('s', 'u', 'size', ver)
        if not contains(ev.val, lambda y: y == sz):
            return
        idx = self.g(st, "idx")
        if idx is None:
            vs = {v for v in cond_vars(ev.fr, ev.node) if not contains(ex.load(st, v), lambda y: y == sz)}
            if len(vs) != 1:
                return
            idx = vs.pop()
            if st.interval(ex.load(st, idx)) != (0, 0):
                self.bad(ex, self.RULE, "the first element is left out", ev)
            self.s(st, idx=idx)
        hi = st.interval(add(sz, ex.load(st, idx), -1))[1]
        self.more(ex, st, ev, hi > 0)


def cond_vars(fr, e):
    """local integer variables a condition looks at"""
    out, todo = set(), [e]
    while todo:
        i = todo.pop()
        if not isinstance(i, int) or i < 0:
            continue
        n = fr.f.x[i]
        if n.get("k") == "var" and n.get("v", "").startswith("v:"):
            t = n.get("t", "")
            if any(w in t for w in ("int", "long", "short", "size_t", "unsigned", "char")):
                out.add(('v', fr.ctx, n["v"]))
        todo += list(kids(n))
    return out


# ---------------------------------------------------------------- P03
class Push(Rec):
    """EventLoop::QueueToLoop / RunInLoop"""
    FIELDS = (("pushed", 0), ("ran", 0), ("queued", 0), ("woke", False), ("early", False), ("loop", None), ("flags", ()))

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        F = loop_fields(self.p)
        if k == "write" and ev.loc == ('f', THIS, F["functors"]):
            e = ev.extra
            if isinstance(e, tuple) and e[0] == "cont" and e[1] in ("emplace_back", "push_back"):
                if not self.is_param(ex, st, ev.extra[2]):
                    self.bad(ex, "queued-once", "something else than the given function is queued", ev)
                self.s(st, pushed=min(2, self.g(st, "pushed") + 1), woke=False)
            else:
                self.bad(ex, "queued-once", "a queued function is dropped or put at another place than the end", ev)
        elif k == "call" and q == LF + "QueueToLoop" and ev.obj == THIS and self.root.q != q:
            if not self.is_param(ex, st, ev.args):
                self.bad(ex, "run-or-queue", "something else than the given function is queued", ev)
            self.s(st, queued=min(2, self.g(st, "queued") + 1))
        elif k == "callback":
            self.s(st, ran=min(2, self.g(st, "ran") + 1))
            if st.decide(('s', 'b', 'inloop', THIS)) is not True:
                self.bad(ex, "run-or-queue", "the function may run outside the loop's thread", ev)
        elif k == "call" and q in ("write", "eventfd_write", "send"):
            self.s(st, woke=True)
        elif k == "branch":
            d = st.decide(('s', 'b', 'inloop', THIS))
            if d is not None:
                self.s(st, loop=d)
            fl = {}
            if ev.val is not None:
                for y in symbols(ev.val):
                    if len(y) == 4 and y[2] == 'init' and y[3][0] == 'f' and y[3][1] == THIS and st.interval(y) in ((0, 0), (1, 1)):
                        fl[y[3][2]] = int(st.interval(y)[0])
            if fl:
                d = dict(self.g(st, "flags"))
                d.update(fl)
                self.s(st, flags=tuple(sorted(d.items())))

    def is_param(self, ex, st, args):
        for a in args:
            if a[0] == 'a' and a[1][0] == 'v' and a[1][2].startswith("p:"):
                return True
            v = st.mem.get(a[1]) if a[0] == 'a' else a
            if v is not None and contains(v, lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] == 's' and y[2] == 'param'):
                return True
        return False

    def finish(self, ex, f, out):
        for ret, st in out:
            if f.q == LF + "QueueToLoop":
                self.col.ob("queued-once")
                if self.g(st, "pushed") != 1:
                    self.bad(ex, "queued-once", "a path queues the function %d times" % self.g(st, "pushed"))
                self.col.ob("woken")
                if not self.g(st, "woke"):
                    if self.g(st, "loop") is not True:
                        self.bad(ex, "woken", "a function queued from another thread does not wake the loop")
                    else:
                        self.col.data.append(("nowake", self.g(st, "flags")))
            else:
                self.col.ob("run-or-queue")
                n, r = self.g(st, "queued") + self.g(st, "pushed"), self.g(st, "ran")
                if n + r != 1:
                    self.bad(ex, "run-or-queue", "a path runs the function %d times and queues it %d times" % (r, n))


def symbols(v, out=None):
    if out is None:
        out = set()
    if isinstance(v, tuple):
        if v and v[0] == 's':
            out.add(v)
        for x in v:
            if isinstance(x, tuple):
                symbols(x, out)
    return out


# container members that lose elements other than the one at the front
DROPS = ("clear", "resize", "pop_back", "assign", "operator=")


class Drain(Each):
    """EventLoop::CallFunctors"""
    FIELDS = Each.FIELDS + (("snap", None), ("ended", False), ("empty", False), ("took", False))
    RULE = "drained-in-order"

    def is_box(self, ex, st, loc):
        return self.g(st, "snap") == loc

    def box_version(self, ex, st):
        s = self.g(st, "snap")
        return ex.load(st, s) if s else None

    def is_action(self, ex, st, ev):
        return ev.kind == "callback"

    def may_skip(self, ex, st):
        # only a functor that is empty
        return self.g(st, "empty")

    def stray(self, ex, st, ev):
        self.bad(ex, self.RULE, "a function runs outside the pass over the functions taken from the queue", ev)

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        F = loop_fields(self.p)
        Q = ('f', THIS, F["functors"])
        if k == "write" and ev.loc == Q:
            v, e = ev.val, ev.extra
            if e == "swap":
                pass
            elif v is not None and (v[0] == 's' and v[2] in ("emptycont",)) and self.g(st, "snap"):
                pass
            elif isinstance(e, tuple) and e[0] == "cont" and e[1] == "clear" and self.g(st, "snap"):
                pass
            elif isinstance(e, tuple) and e[0] == "cont" and e[1] == "operator=" and self.g(st, "snap"):
                pass
            else:
                self.bad(ex, self.RULE, "the queue is changed other than by taking all of it", ev)
            self.s(st, took=True)
        elif k in ("write", "mutate") and self.g(st, "snap") == ev.loc and not self.g(st, "ended") and isinstance(ev.extra, tuple) \
                and ev.extra[:1] == ("cont",) and ev.extra[1] in DROPS:
            self.bad(ex, self.RULE, "functions taken from the queue are dropped before they ran", ev)
        elif k in ("write", "declare", "ctor") and ev.loc is not None and ev.loc[0] == 'v' and ev.loc[2].startswith("v:"):
            v = ex.load(st, ev.loc) if k != "write" else ev.val
            if v is not None and self.from_queue(v, Q) and not self.g(st, "ended"):
                if self.g(st, "snap") is None:
                    self.s(st, snap=ev.loc)
        if k == "callback":
            self.col.ob("outside-lock")
            fl = {}
            for n in self.flags:
                iv = st.interval(ex.load(st, ('f', THIS, n)))
                fl[n] = int(iv[0]) if iv in ((0, 0), (1, 1)) else None
            self.col.data.append(("calling", tuple(sorted(fl.items())), ev.fr.f.q, ev.line))
        if k == "branch" and ev.val is not None:
            d = None
            v = ev.val
            fv = [y for y in symbols(v) if len(y) == 4 and y[0] == 's' and y[1] == 'u' and y[2] == 'init' and y[3][0] in ('p', 'i')]
            for y in fv:
                d = st.decide(truthv(y))
            if d is not None:
                self.s(st, empty=(d is False))
        if k == "call" and q.endswith("::Unlock") and "Mutex" in q and self.g(st, "snap") and not self.g(st, "took"):
            self.bad(ex, self.RULE, "the queue is read, but not emptied, in one critical section: what is queued in between gets lost or "
                     "runs twice", ev)
        self.each_event(ex, st, ev)

    def new_element(self, ex, st):
        self.s(st, empty=False)

    def from_queue(self, v, Q):
        return v == ('s', 'x', 'init', Q) or isinstance(v, tuple) and v and v[0] == 's' and len(v) > 3 and v[2] == 'init' and v[3] == Q

    def finish(self, ex, f, out):
        for ret, st in out:
            self.col.ob(self.RULE)
            if self.g(st, "snap") is None:
                self.bad(ex, self.RULE, "a path takes nothing from the queue")
            elif not self.g(st, "ended"):
                sz = st.interval(('s', 'u', 'size', ex.load(st, self.g(st, "snap"))))
                if sz != (0, 0):
                    self.bad(ex, self.RULE, "a path leaves before every function taken from the queue has run")


class QuitMon(Rec):
    FIELDS = (("set", False), ("woke", False), ("inloop", None), ("was", None), ("v0", None))

    def refresh(self, ex, st):
        d = st.decide(('s', 'b', 'inloop', THIS))
        if d is not None:
            self.s(st, inloop=d)
        v0 = self.g(st, "v0")
        if v0 is not None and st.interval(v0) == (1, 1):
            self.s(st, was=True)

    def event(self, ex, st, ev):
        F = loop_fields(self.p)
        Q = ('f', THIS, F["quit"])
        if ev.kind == "read" and ev.loc == Q and self.g(st, "v0") is None and not self.g(st, "set"):
            self.s(st, v0=ex.load(st, Q, "bool"))
        if ev.kind == "write" and ev.loc == Q:
            if st.interval(ev.val) == (0, 0):
                self.bad(ex, "quit-wakes", "the request is taken back", ev)
            else:
                self.s(st, set=True)
        elif ev.kind == "call" and ev.q in ("write", "eventfd_write", "send"):
            if self.g(st, "set"):
                self.s(st, woke=True)
        elif ev.kind == "branch":
            self.refresh(ex, st)

    def finish(self, ex, f, out):
        for ret, st in out:
            self.refresh(ex, st)
            self.col.ob("quit-wakes")
            if self.g(st, "was"):
                continue
            if not self.g(st, "set"):
                self.bad(ex, "quit-wakes", "a path does not request the loop to quit")
            elif not self.g(st, "woke") and self.g(st, "inloop") is not True:
                self.bad(ex, "quit-wakes", "a request from another thread does not wake the loop")


class FdMon(Rec):
    """EventLoop::Wakeup writes the counter of the event descriptor, its read callback resets it"""
    FIELDS = (("ok", False),)
    CALLS = ()

    def event(self, ex, st, ev):
        if ev.kind != "call" or ev.q not in self.CALLS:
            return
        F = loop_fields(self.p)
        a = ev.args
        fdok = contains(a[0], lambda y: y == ('f', THIS, F["ev"])) or self.root.parent and "ev_channel_" in repr(a[0])
        if not fdok:
            self.bad(ex, "wake-channel", "another descriptor than the loop's event descriptor is used", ev)
            return
        if ev.q in ("eventfd_write", "eventfd_read"):
            if ev.q == "eventfd_write" and st.interval(a[1])[0] <= 0:
                self.bad(ex, "wake-channel", "the counter is not raised", ev)
            self.s(st, ok=True)
            return
        if st.interval(a[2]) != (8, 8):
            self.bad(ex, "wake-channel", "an event descriptor transfers eight bytes", ev)
        if ev.q == "write":
            v = ex.load(st, a[1][1]) if a[1][0] == 'a' else None
            lo, hi = st.interval(v) if v is not None else (0, 0)
            if not (lo > 0 or hi < 0):
                self.bad(ex, "wake-channel", "the counter is not raised", ev)
        self.s(st, ok=True)

    def finish(self, ex, f, out):
        for ret, st in out:
            self.col.ob("wake-channel")
            if not self.g(st, "ok"):
                self.bad(ex, "wake-channel", "a path does not %s the event descriptor" % self.VERB)


class WakeMon(FdMon):
    CALLS, VERB = ("write", "eventfd_write"), "write"


class WakeRead(FdMon):
    CALLS, VERB = ("read", "eventfd_read"), "read"


class LoopCtor(Rec):
    """the event channel is readable, watched and has a read callback"""
    FIELDS = (("en", False), ("cb", None), ("fd", None))

    def event(self, ex, st, ev):
        F = loop_fields(self.p)
        E = ('f', THIS, F["ev"])
        own = ev.obj is not None and (contains(ev.obj, lambda y: y == E) or ev.obj == loc_of(ex.load(st, E)))
        if ev.kind == "call" and ev.q == CH + "::EnableReading" and own:
            self.s(st, en=True)
        elif ev.kind == "call" and ev.q == CH + "::SetReadCallback" and own:
            f = value_fn(st, ev.args[0])
            self.s(st, cb=f)

    def finish(self, ex, f, out):
        for ret, st in out:
            if f.d.get("delegating"):
                continue
            self.col.ob("wake-channel")
            if not self.g(st, "en"):
                self.bad(ex, "wake-channel", "the event descriptor is not watched for reading")
            if self.g(st, "cb") is None:
                self.bad(ex, "wake-channel", "the event descriptor has no read callback")
            else:
                self.col.data.append(("evread", self.g(st, "cb")))


def nolog(f):
    return f.cls in ("kanon::Logger", "kanon::LogStream") or f.q.startswith("kanon::Logger")


def P03(prog, rep, tier):
    rep.rule("queued-once", "QueueToLoop puts exactly the given function at the end of the queue, once on every path")
    rep.rule("run-or-queue", "RunInLoop runs the given function once, on the loop's thread only, or queues it once")
    rep.rule("woken", "after queueing the loop is woken, unless the caller is on the loop's thread in a phase that precedes the draining")
    rep.rule("wake-channel", "waking writes a positive eight byte counter to the loop's event descriptor, which is watched and read back")
    rep.rule("drained-in-order", "the whole queue is taken at once and every function in it runs exactly once, first to last")
    rep.rule("outside-lock", "no function runs while the queue lock is held")
    rep.rule("quit-wakes", "a request to quit is stored before the loop is woken, unless made on its own thread")
    roots = fn(prog, LF + "QueueToLoop") + fn(prog, LF + "RunInLoop")
    data = drive(prog, roots, lambda p, f, c: [Push(p, f, c)], rep, havoc_cb=False, no_inline=lambda f: nolog(f) or f.q == LF + "QueueToLoop")
    flags = set()
    nowake = [dict(d[1]) for d in data if d[0] == "nowake"]
    for d in nowake:
        flags |= set(d)

    def mk(p, f, c):
        m = Drain(p, f, c)
        m.flags = sorted(flags)
        return [m]
    drains = drains_of(prog)
    data = drive(prog, drains, mk, rep, havoc_cb=False, no_inline=nolog)
    calls = [(dict(d[1]), d[2], d[3]) for d in data if d[0] == "calling"]
    for nw in nowake:
        for c, q, line in calls:
            rep.ob("woken")
            if not any(c.get(n) is not None and c[n] != v for n, v in nw.items()):
                rep.violate("woken", q, "%s:%s" % (q, line), "a function queued by a running function does not wake the loop, which has "
                            "taken its queue already")
    lockroots = drains
    drive(prog, lockroots, lambda p, f, c: [HeldAtCall(p, f, c)], rep, havoc_cb=False, no_inline=nolog)
    drive(prog, fn(prog, LF + "Wakeup"), lambda p, f, c: [WakeMon(p, f, c)], rep, no_inline=nolog)
    drive(prog, fn(prog, LF + "Quit"), lambda p, f, c: [QuitMon(p, f, c)], rep, no_inline=nolog)
    ctors = [f for f in prog.funcs.values() if f.cls == LOOP and f.kind == "ctor" and f.has_body]
    data = drive(prog, ctors, lambda p, f, c: [LoopCtor(p, f, c)], rep, no_inline=lambda f: nolog(f) or f.cls in (CH,))
    reads = {d[1] for d in data if d[0] == "evread"}
    drive(prog, [prog.funcs[i] for i in reads], lambda p, f, c: [WakeRead(p, f, c)], rep, no_inline=nolog)
    for r, n in (("queued-once", 1), ("run-or-queue", 2), ("woken", 1), ("wake-channel", 3), ("drained-in-order", 2), ("outside-lock", 1),
                 ("quit-wakes", 2)):
        rep.need(r, n)


class HeldAtCall(Monitor):
    """no lock of the loop is held at a callback"""
    init = 0

    def __init__(self, prog, root, col):
        self.p, self.root, self.col = prog, root, col

    def event(self, ex, st, ev):
        q = ev.q or ""
        n = self.get(st)
        if ev.kind == "call" and q.endswith("::Lock") and "Mutex" in q:
            self.set(st, n + 1 if n < 3 else n)
        elif ev.kind == "call" and q.endswith("::Unlock") and "Mutex" in q:
            self.set(st, max(0, n - 1))
        elif ev.kind == "callback":
            self.col.ob("outside-lock")
            if n:
                ex.violate(Violation("outside-lock", "a queued function runs while the queue lock is held", ev))


def takes_queue(prog, f):
    """does the function's own code take the whole queue away"""
    F = loop_fields(prog)
    hit = any(n.get("k") == "field" and n.get("n") == F["functors"] for n in f.x or ())
    return hit and any(n.get("k") == "call" and (n.get("fc") in ("std::function", "std::_Function_base") and
                       n.get("q", "").endswith("operator()")) for n in f.x or ()) or \
        hit and any(n.get("k") == "call" and n.get("q", "").rsplit("::", 1)[-1] in ("swap", "move", "exchange") and f.name != "QueueToLoop"
                    for n in f.x or ())


# ---------------------------------------------------------------- P34
class SigMon(Rec):
    FIELDS = (("ign", None),)

    def event(self, ex, st, ev):
        if ev.kind == "call" and ev.q in ("signal", "bsd_signal", "sigset") and st.interval(ev.args[0]) == (13, 13):
            self.s(st, ign=ev.args[1] == C(1) or st.interval(ev.args[1]) == (1, 1))
        elif ev.kind == "call" and ev.q == "sigaction" and st.interval(ev.args[0]) == (13, 13):
            a = ev.args[1]
            v = None
            if a[0] == 'a':
                for l, x in st.mem.items():
                    if l[0] == 'f' and l[2].endswith("sa_handler") and contains(l, lambda y: y == a[1]):
                        v = x
            self.s(st, ign=v is not None and st.interval(v) == (1, 1))

    def finish(self, ex, f, out):
        vals = {self.g(st, "ign") for ret, st in out}
        self.col.data.append((f.id, vals == {True}, False in vals))


def P34(prog, rep, tier):
    rep.rule("pipe-ignored", "before any connection exists the broken pipe signal is ignored: by a static object of the file that "
             "implements connections (or the constructor of connections or loops), on every path")
    rep.rule("never-restored", "nothing installs another disposition of that signal")
    mention = [f for f in prog.funcs.values() if f.has_body and any(n.get("k") == "call" and n.get("q") in
               ("signal", "bsd_signal", "sigset", "sigaction") for n in f.x or ())]
    base = [f for f in prog.funcs.values() if f.kind == "ctor" and f.cls.startswith("kanon::ConnectionBase") and f.has_body]
    if not base:
        raise Broken("constructor of connections not found")
    data = drive(prog, mention, lambda p, f, c: [SigMon(p, f, c)], rep)
    good = {i for i, g, b in data if g}
    for i, g, b in data:
        rep.ob("never-restored")
        if b:
            f = prog.funcs[i]
            rep.violate("never-restored", f.q, f.loc, "the broken pipe signal gets another disposition")
    rep.ob("pipe-ignored")
    ok = False
    files = {f.file for f in base}
    for g in [g for gs in prog.globals.values() for g in gs if not g["q"].startswith("sl:")]:
        if g["file"] in files and not g["t"].startswith("thread") and g.get("c"):
            for f in prog.funcs.values():
                if f.kind == "ctor" and f.cls == g["c"] and (f.id in good or reaches(prog, f, tuple(prog.funcs[i].q for i in good))):
                    # reached through a call: the callee ignores it on every path, and so must the constructor
                    ok = ok or f.id in good or always_calls(prog, f, {prog.funcs[i].q for i in good}, rep)
        if g["file"] in files and g.get("calls"):
            ok = ok or any(prog.funcs[i].q in g["calls"] for i in good)
    roots = [f for f in prog.funcs.values() if f.kind == "ctor" and f.has_body and f.cls in ("kanon::EventLoop", "kanon::Socket")] + base
    if not ok:
        d = drive(prog, roots, lambda p, f, c: [SigMon(p, f, c)], rep, no_inline=nolog)
        by = {}
        for i, g, b in d:
            by.setdefault(prog.funcs[i].cls, []).append(g)
        ok = any(all(v) for k, v in by.items()) and bool(by)
    if not ok:
        f = base[0]
        rep.violate("pipe-ignored", f.q, f.loc, "a connection can write to a closed peer without the broken pipe signal being ignored")
    rep.need("pipe-ignored", 1)
    rep.need("never-restored", 1)


def always_calls(prog, f, names, rep):
    return drive(prog, [f], lambda p, r, c: [SigMon(p, r, c)], rep) and all(
        g for i, g, b in drive(prog, [f], lambda p, r, c: [SigMon(p, r, c)]) if i == f.id)


# ---------------------------------------------------------------- P38
class LoopMon(Each):
    """EventLoop::StartLoop.  list: where the ready channels are put."""
    FIELDS = Each.FIELDS + (("list", None), ("full", False), ("ver", None), ("seen", False), ("ended", False), ("drained", True),
                            ("q", None), ("asked", False), ("afterq", False), ("polls", False))
    RULE = "every-channel"

    def is_box(self, ex, st, loc):
        return self.g(st, "list") == loc and self.g(st, "full")

    def box_version(self, ex, st):
        l = self.g(st, "list")
        return ex.load(st, l) if l else None

    def is_action(self, ex, st, ev):
        return ev.kind == "call" and ev.q == CH + "::HandleEvents"

    def stray(self, ex, st, ev):
        self.bad(ex, self.RULE, "events are delivered outside the pass over the ready channels", ev)

    def refresh(self, ex, st):
        q = self.g(st, "q")
        if q is not None and q is not True and q is not False:
            d = st.decide(q)
            if d is not None:
                self.s(st, q=d)

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        F = loop_fields(self.p)
        Q = ('f', THIS, F["quit"])
        if k == "read" and ev.loc == Q:
            v = ex.fresh(st, ev.fr, ev.line, 'b', 'quit')
            st.mem[Q] = v
            self.s(st, q=v, asked=True, afterq=False)
            return
        if k == "branch":
            self.refresh(ex, st)
        if k == "write" and ev.loc == Q:
            self.bad(ex, "until-quit", "the loop itself changes the request to quit", ev)
        if k == "call" and q.endswith("::Poll") and self.p.derives(ev.node.get("fc", ""), "kanon::PollerBase"):
            self.refresh(ex, st)
            self.col.ob("until-quit")
            if not self.g(st, "asked") or self.g(st, "q") is True:
                self.bad(ex, "until-quit", "waits for events without having looked at the request to quit since the last time", ev)
            elif self.g(st, "q") is not False:
                self.bad(ex, "until-quit", "waits for events although quitting was requested", ev)
            self.col.ob("functions-run")
            if not self.g(st, "drained"):
                self.bad(ex, "functions-run", "waits again before the queued functions have run", ev)
            loc = loc_of(ev.args[1]) if len(ev.args) > 1 else None
            self.col.ob("empty-list")
            if self.g(st, "full"):
                self.bad(ex, "empty-list", "waits with a list that still holds the channels of the last time", ev)
            self.s(st, list=loc, polls=True)
        elif k == "ret" and q.endswith("::Poll") and self.g(st, "list") is not None and not self.g(st, "full"):
            l = self.g(st, "list")
            st.mem[l] = ex.fresh(st, ev.fr, ev.line, 'x', 'ready')
            self.s(st, full=True, ended=False, drained=False, asked=False, afterq=False, q=None)
            return
        elif k in ("write", "ctor") and ev.loc is not None and ev.loc == self.g(st, "list"):
            e = ev.extra
            if k == "ctor" or isinstance(e, tuple) and e[0] == "cont" and e[1] == "clear" or ev.val is not None and \
                    ev.val[:3] == ('s', 'x', 'emptycont'):
                if self.g(st, "full") and not self.g(st, "ended"):
                    self.bad(ex, self.RULE, "the list of ready channels is emptied before they were all served", ev)
                self.s(st, full=False)
            elif isinstance(e, tuple) and e[0] == "cont" and self.g(st, "full") and not self.g(st, "ended"):
                self.bad(ex, self.RULE, "the list of ready channels is changed before they were all served", ev)
        if k == "call" and q in self.drains or k == "write" and ev.loc == ('f', THIS, F["functors"]):
            if self.g(st, "polls") and not self.g(st, "ended") and self.g(st, "list") is not None and not self.g(st, "drained"):
                sz = st.interval(('s', 'u', 'size', ex.load(st, self.g(st, "list"))))
                if sz != (0, 0):
                    self.bad(ex, self.RULE, "the queued functions run before every ready channel was served", ev)
            self.s(st, drained=True, afterq=True)
        self.each_event(ex, st, ev)

    def finish(self, ex, f, out):
        for ret, st in out:
            self.refresh(ex, st)
            self.col.ob("until-quit")
            if self.g(st, "q") is not True:
                self.bad(ex, "until-quit", "the loop can end although quitting was not requested")
            self.col.ob("last-functions")
            if not self.g(st, "drained") or not self.g(st, "afterq"):
                self.bad(ex, "last-functions", "functions queued before the request to quit may not run: the queue is not drained after the "
                         "request was seen")
            if self.g(st, "polls") and self.g(st, "full") and not self.g(st, "ended"):
                self.bad(ex, self.RULE, "the loop can end before every ready channel was served")


def drains_of(prog):
    r = [f for f in prog.funcs.values() if f.has_body and f.cls == LOOP and f.kind == "fn" and takes_queue(prog, f)]
    if not r:
        raise Broken("no function takes work from the loop's queue")
    return r


def P38(prog, rep, tier):
    rep.rule("until-quit", "before each wait the request to quit is looked at and not set; the loop returns only when it is set")
    rep.rule("empty-list", "the list of ready channels is empty when the poller fills it")
    rep.rule("every-channel", "after a wait every ready channel is told its events, once, in order, before anything else")
    rep.rule("functions-run", "the queued functions run after that and before the next wait")
    rep.rule("last-functions", "the queue is drained once more after the request to quit was seen")
    drains = {f.q for f in drains_of(prog)}
    roots = [f for f in prog.funcs.values() if f.has_body and f.cls == LOOP and f.kind == "fn" and f.q not in drains and
             any(n.get("k") == "call" and n.get("q", "").endswith("::Poll") for n in f.x or ())]
    if not roots:
        raise Broken("no function of the event loop polls")
    # the outermost function that contains the iteration
    roots = [f for f in prog.funcs.values() if f.has_body and f.cls == LOOP and f.q == LF + "StartLoop"] or roots

    def mk(p, f, c):
        m = LoopMon(p, f, c)
        m.drains = drains
        return [m]
    drive(prog, roots, mk, rep, havoc_cb=False, opaque_fn={CH + "::HandleEvents"} | drains, no_inline=nolog)
    for r, n in (("until-quit", 2), ("empty-list", 1), ("every-channel", 1), ("functions-run", 1), ("last-functions", 1)):
        rep.need(r, n)
