"""P23: the asynchronous log."""
from absint import *
from program import Broken
from drive import drive, address_taken
from rules_loop import Rec, Each, THIS, field, field_of_type, fn
from rules_conn import reaches
from rules_conn2 import exit_frame

AL = "kanon::AsyncLog"
OUT = "kanon::LogFile"
FB = "kanon::detail::FixedBuffer"
WAITS = ("kanon::Condition::Wait", "kanon::Condition::WaitForSeconds")
TAIL = ("emplace_back", "push_back")
LIMIT = 64 << 20      # a backlog above 64 MiB may be dropped

_ids = {}


def short(loc):
    return _ids.setdefault(loc, len(_ids))


def m_data(ex, fr, st, eid, n, ov, av):
    return [(('s', 'u', 'bufdata', short(ov)), st)]


def m_len(ex, fr, st, eid, n, ov, av):
    return [(('s', 'u', 'buflen', short(ov)), st)]


class Parts:
    def __init__(self, prog):
        self.mutex = field_of_type(prog, AL, lambda f: f["c"] == "kanon::MutexLock", "mutex")
        self.run = field_of_type(prog, AL, lambda f: f["t"] == "std::atomic<bool>", "running mark")
        self.thread = field_of_type(prog, AL, lambda f: f["c"] == "kanon::Thread", "back end thread")
        r = prog.records[AL][0]["fields"]
        self.ptrs = [f["n"] for f in r if f["t"].startswith("std::unique_ptr") and "FixedBuffer" in f["t"]]
        self.boxes = [f["n"] for f in r if f["t"].startswith("std::vector") and "FixedBuffer" in f["t"]]
        if len(self.ptrs) < 1 or not self.boxes:
            raise Broken("the buffers of the asynchronous log are not found")
        import re
        m = re.search(r"FixedBuffer<(\d+)", [f["t"] for f in r if f["n"] == self.ptrs[0]][0])
        self.size = int(m.group(1)) if m else 0
        # what Append fills, and where it puts what is full
        cur, q = set(), set()

        class Find(Monitor):
            def event(s, ex, st, ev):
                if ev.kind == "call" and (ev.q or "").split("::")[-1] in TAIL + ("insert", "emplace") and ev.obj and ev.obj[0] == 'f' and ev.args:
                    a = ev.args[-1]
                    if a[0] == 'a' and a[1][0] == 'f' and a[1][2] in self.ptrs and ev.obj[2] in self.boxes:
                        cur.add(a[1][2])
                        q.add(ev.obj[2])
        for f in fn(prog, AL + "::Append"):
            Exec(prog, [Find()]).run(f)
        if len(cur) != 1 or len(q) != 1:
            raise Broken("the current buffer and the queue of full buffers are not known")
        self.cur, self.q = cur.pop(), q.pop()
        self.next = [p for p in self.ptrs if p != self.cur]


class Owner(Each):
    """who owns which buffer, and what became of the messages in it"""
    FIELDS = Each.FIELDS + (("p", ()), ("b", ()), ("held", False), ("drained", False), ("run", None), ("its", ()), ("dropped", False),
                            ("notice", False), ("el", None), ("box", None), ("gone", False), ("ended", False), ("msg", 0))
    RULE = "written-in-order"

    def __init__(self, prog, root, col, parts):
        super().__init__(prog, root, col)
        self.P = parts
        self.CUR = ('f', THIS, parts.cur)
        self.NEXT = [('f', THIS, n) for n in parts.next]
        self.Q = ('f', THIS, parts.q)

    # --- the record of pointers and containers
    def ptr(self, st, ex, loc):
        d = dict(self.g(st, "p"))
        if loc in d:
            return d[loc]
        v = st.mem.get(loc)
        if v is not None and v[0] == 'a' and v[1][0] == 'h':
            return "empty"
        if v == C(0):
            return "null"
        return None

    def setp(self, st, loc, w):
        d = dict(self.g(st, "p"))
        d[loc] = w
        self.s(st, p=tuple(sorted(d.items(), key=str)))

    def box_(self, st, loc):
        return dict(self.g(st, "b")).get(loc, ("empty", 0))

    def setb(self, st, loc, w, lo):
        d = dict(self.g(st, "b"))
        d[loc] = (w, min(lo, 20))
        self.s(st, b=tuple(sorted(d.items(), key=str)))

    def is_vec(self, ex, fr, loc):
        if loc is None:
            return False
        if loc[0] == 'f' and loc[1] == THIS:
            return loc[2] in self.P.boxes
        if loc[0] == 'v':
            for n in fr.f.x or ():
                if n.get("k") == "decl":
                    for v in n["vars"]:
                        if v.get("v") == loc[2]:
                            t = v.get("t") or ""
                            return "vector<" in t and "unique_ptr" in t and "FixedBuffer" in t and "iterator" not in t
        return False

    def is_ptr(self, ex, loc):
        return loc is not None and (loc in (self.CUR, *self.NEXT) or loc in dict(self.g_any(ex)))

    # --- Each
    def is_box(self, ex, st, loc):
        return dict(self.g(st, "b")).get(loc, ("", 0))[0] in ("live", "written") and loc != self.Q

    def is_action(self, ex, st, ev):
        if ev.kind != "call" or ev.q != OUT + "::Append" or len(ev.args) != 2:
            return False
        a, b = ev.args
        return a[0] == 's' and a[2] == 'bufdata' and b[0] == 's' and b[2] == 'buflen'

    def may_skip(self, ex, st):
        el = self.g(st, "el")
        ids = {i for l, i in _ids.items() if el is not None and contains(l, lambda y: y == el)}
        return any(k[0][0][2:3] == ('buflen',) and k[0][0][3] in ids and tuple(v[:2]) == (0, 0) for k, v in st.facts.items() if len(k) == 1)

    def stray(self, ex, st, ev):
        self.bad(ex, self.RULE, "a buffer is written outside the pass over the buffers taken from the queue", ev)

    def box_version(self, ex, st):
        for l, (w, _) in self.g(st, "b"):
            if l != self.Q and w == "live":
                return ex.load(st, l)
        return None

    def ended(self, ex, st):
        super().ended(ex, st)
        self.s(st, el=None)
        for l, (w, lo) in self.g(st, "b"):
            if l != self.Q and w == "live" and (self.g(st, "box") in (None, l)):
                self.setb(st, l, "written", lo)

    # --- locking
    def lock(self, ex, st):
        """any number of messages may have come"""
        out = []
        st.mem[self.CUR] = ('a', ('p', ('s', 'nn', 'buf', 'cur')))
        for w in ("empty", "null"):
            s = st.copy()
            s.mon = st.mon
            self.s(s, held=True)
            self.setp(s, self.CUR, "live")
            for n in self.NEXT:
                self.setp(s, n, w)
                s.mem[n] = C(0) if w == "null" else ('a', ('p', ('s', 'nn', 'buf', 'next')))
                if w == "empty":
                    pass
            self.setb(s, self.Q, "live", 1 if w == "null" else 0)
            s.mem[self.Q] = ('s', 'x', 'init', self.Q)
            if w == "null":
                s.assume(cmpv('<=', C(1), ('s', 'u', 'size', s.mem[self.Q])), True)
            self.fresh_next(ex, s)
            out.append(s)
            if not self.NEXT:
                break
        return out

    def fresh_next(self, ex, s):
        pass

    def unlock(self, ex, st, ev):
        self.col.ob("handed-over")
        if self.ptr(st, ex, self.CUR) not in ("live", "empty"):
            self.bad(ex, "handed-over", "the lock is given back while there is no buffer to append to" if self.ptr(st, ex, self.CUR) in
                     ("null", None) else "the buffer to append to still holds messages that were written", ev)
        for n in self.NEXT:
            w = self.ptr(st, ex, n)
            if w not in ("empty", "null"):
                self.bad(ex, "handed-over", "the spare buffer still holds messages when the lock is given back", ev)
            if w == "null" and self.box_(st, self.Q)[1] < 1 and self.g(st, "run") is not False:
                self.bad(ex, "handed-over", "there is no spare buffer although no full one is queued", ev)
        self.s(st, held=False)

    def release(self, ex, st, dst, ev):
        """the pointer is about to hold something else"""
        if self.ptr(st, ex, dst) == "live":
            self.bad(ex, "not-dropped", "the messages of the current buffer are dropped", ev)

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        name = q.rsplit("::", 1)[-1]
        if k == "root":
            self.setb(st, self.Q, "live", 0)
            return
        if k == "call" and q == "kanon::MutexLock::Lock" and ev.obj == ('f', THIS, self.P.mutex):
            return self.lock(ex, st)
        if k == "ret" and q in WAITS and self.g(st, "held"):
            return self.lock(ex, st)
        if k == "call" and q == "kanon::MutexLock::Unlock" and ev.obj == ('f', THIS, self.P.mutex):
            self.unlock(ex, st, ev)
        if k == "ret" and ev.obj == ('f', THIS, self.P.run) and (name.startswith("operator<conv>") or name == "load") and ev.ret is not None:
            out = []
            for t in (True, False):
                s = st.copy()
                s.mon = st.mon
                if s.assume(ev.ret, t):
                    self.s(s, run=t, drained=False)
                    out.append(s)
            return out
        if k == "write" and isinstance(ev.extra, tuple) and ev.extra[0] == "cont" and self.is_vec(ex, ev.fr, ev.loc):
            # a name of its own for the new contents
            e = ex.fresh(st, ev.fr, ev.line, 'x', 'v' + str(ev.loc[2])[-7:])
            if ev.extra[1] != "clear":
                st.mem[ev.loc] = e
        if k == "branch" and self.g(st, "its"):
            self.s(st, its=())
        if k == "call" and q == OUT + "::Append" and not self.is_action(ex, st, ev):
            self.s(st, notice=True)
        if self.is_action(ex, st, ev):
            el = self.g(st, "el")
            ids = {y[3] for y in ev.args}
            if len(ids) != 1 or el is None or not any(contains(l, lambda y: y == el) for l, i in _ids.items() if i in ids):
                self.bad(ex, self.RULE, "what is written is not the buffer whose turn it is", ev)
        if k == "ret" and name in ("operator*", "operator[]", "at", "front") and ev.ret is not None and ev.ret[0] == 'a' and \
                self.g(st, "on") and not name == "operator->":
            self.s(st, el=ev.ret[1])
        if k == "call" and name in ("begin", "cbegin") and ev.obj is not None and self.is_box(ex, st, ev.obj):
            self.s(st, box=ev.obj)
        if k in ("call", "write") and self.containers(ex, st, ev, k, q, name):
            return
        if k == "call" and "unique_ptr" in q or k == "call" and q in ("std::swap", "std::exchange"):
            self.pointers(ex, st, ev, q, name)
        if k == "call" and q == FB + "::reset":
            for loc, w in self.g(st, "p"):
                v = st.mem.get(loc)
                if v is not None and ex.deref(v) == ev.obj and w in ("used", "live"):
                    if w == "live":
                        self.bad(ex, "not-dropped", "the messages of the current buffer are dropped", ev)
                    self.setp(st, loc, "empty")
        if k == "declare" and ev.loc and ev.loc[0] == 'v' and self.local_ptr(ev):
            self.setp(st, ev.loc, self.ptr(st, ex, ev.loc) or "null")
        if k == "ret" and name in ("begin", "end", "cbegin", "cend") and ev.ret and ev.ret[0] == 'a' and \
                self.is_vec(ex, ev.fr, ev.obj):
            self.s(st, its=self.g(st, "its") + ((ev.ret[1], (name[-5:] if name[-5:] == "begin" else "end", 0)),))
        if k == "ret" and name in ("operator+", "operator-") and "iterator" in q and ev.ret and ev.ret[0] == 'a':
            a = dict(self.g(st, "its")).get(ev.obj)
            if a and ev.args and ev.args[0][0] == 'c':
                d = ev.args[0][1]
                self.s(st, its=self.g(st, "its") + ((ev.ret[1], (a[0], a[1] + (d if name[-1] == '+' else -d))),))
        if k == "ctor" and "iterator" in q and ev.args and ev.args[0][0] == 'a':
            a = dict(self.g(st, "its")).get(ev.args[0][1])
            if a:
                self.s(st, its=self.g(st, "its") + ((ev.loc, a),))
        self.each_event(ex, st, ev)
        if k == "call" and name == "erase" and len(ev.args) == 2 and self.g(st, "n") == 0:
            # the removal of a range is no pass
            self.s(st, on=False, body=False, adv=0, cond=None)
        if k == "write" and self.g(st, "idx") == ev.loc:
            self.s(st, el=None)

    def local_ptr(self, ev):
        for n in ev.fr.f.x or ():
            if n.get("k") == "decl":
                for v in n["vars"]:
                    if v.get("v") == ev.loc[2]:
                        t = v.get("t") or ""
                        return "unique_ptr<" in t and "FixedBuffer" in t and "vector" not in t and not v.get("ref")
        return False

    def pointers(self, ex, st, ev, q, name):
        dst = ev.obj
        if name == "swap" or q in ("std::swap",):
            a, b = (ev.obj, ev.args[0][1]) if ev.obj is not None and ev.args and ev.args[0][0] == 'a' else \
                (ev.args[0][1], ev.args[1][1]) if len(ev.args) == 2 and ev.args[0][0] == 'a' and ev.args[1][0] == 'a' else (None, None)
            x, y = self.ptr(st, ex, a) if a else None, self.ptr(st, ex, b) if b else None
            if x and y:
                self.setp(st, a, y)
                self.setp(st, b, x)
            return
        if dst is None:
            return
        mine = dst in dict(self.g(st, "p")) or dst in (self.CUR, *self.NEXT)
        if name == "operator=" and ev.args:
            if not mine:
                return
            self.release(ex, st, dst, ev)
            src = ev.args[0][1] if ev.args[0][0] == 'a' else None
            w = self.source(ex, st, ev, src)
            self.setp(st, dst, w)
            if w == "used" and dst in (self.CUR, *self.NEXT):
                self.bad(ex, "not-twice", "a buffer is handed out with messages that were already written", ev)
        elif name == "reset" and mine:
            self.release(ex, st, dst, ev)
            self.setp(st, dst, "empty" if ev.args and ev.args[0][0] == 'a' else "null")
        elif name == "release" and mine:
            self.release(ex, st, dst, ev)
            self.setp(st, dst, "null")
        elif mine and (name.startswith("operator<conv>") or name in ("get", "operator->", "operator*")):
            w = self.ptr(st, ex, dst)
            v = st.mem.get(dst)
            if w == "null":
                st.mem[dst] = C(0)
            elif w and (v is None or v[0] != 'a'):
                st.mem[dst] = ('a', ('p', ('s', 'nn', 'buf', dst[2])))

    def source(self, ex, st, ev, src):
        if src is None:
            return "null" if ev.args[0] == C(0) else None
        w = self.ptr(st, ex, src)
        if src[0] in ('v', 'f') and w is not None:
            self.setp(st, src, "null")
            return w
        if src[0] == 'p' or src[0] == 'i':
            # an element of a container
            live = [l for l, (s, _) in self.g(st, "b") if l != self.Q and s == "live"]
            if live:
                self.bad(ex, "not-dropped", "a buffer is taken out before its messages are written", ev)
            if self.g(st, "gone"):
                return "null"
            self.s(st, gone=True)
            return "used"
        return w

    def containers(self, ex, st, ev, k, q, name):
        if k == "write":
            return False
        if name == "swap" or name == "operator=" and "vector" in q or q == "std::swap":
            a = ev.obj if ev.obj is not None else ev.args[0][1] if ev.args and ev.args[0][0] == 'a' else None
            b = ev.args[-1][1] if ev.args and ev.args[-1][0] == 'a' else None
            if not self.is_vec(ex, ev.fr, a) or not self.is_vec(ex, ev.fr, b) or a == b:
                return False
            if b != self.Q and a == self.Q and name != "operator=":
                a, b = b, a
            A, B = self.box_(st, a), self.box_(st, b)
            if self.Q not in (a, b):
                self.setb(st, a, *B)
                self.setb(st, b, *(("empty", 0) if name == "operator=" else A))
                return True
            if a == self.Q:      # the queue is overwritten
                if A[0] == "live":
                    self.bad(ex, "not-dropped", "the queued buffers are dropped", ev)
                self.setb(st, a, *B)
                return True
            self.col.ob("handed-over")
            if not self.g(st, "held"):
                self.bad(ex, "handed-over", "the queue is taken without the lock", ev)
            if A[0] == "live":
                self.bad(ex, "not-dropped", "the queue is taken although the buffers taken before are not written yet", ev)
            if A[0] == "written" and name != "operator=":
                self.bad(ex, "not-twice", "buffers that were written go back to the queue", ev)
            self.account(ex, st, ev)
            self.setb(st, b, "empty", 0)
            self.setb(st, a, *B)
            self.s(st, drained=self.ptr(st, ex, self.CUR) != "live", notice=False, dropped=False, gone=False)
            return True
        if not self.is_vec(ex, ev.fr, ev.obj):
            return False
        loc, (w, lo) = ev.obj, self.box_(st, ev.obj)
        if name in TAIL + ("insert", "emplace") and ev.args:
            src = ev.args[-1][1] if ev.args[-1][0] == 'a' else None
            end = True
            if name in ("insert", "emplace"):
                it = dict(self.g(st, "its")).get(ev.args[0][1]) if ev.args[0][0] == 'a' else None
                end = it is not None and it == ("end", 0)
            self.col.ob("queued-in-order")
            s = self.source(ex, st, ev, src) if src else None
            if not end or loc != self.Q and not (s == "live" and self.box_(st, self.Q)[0] == "empty" and self.g(st, "held")):
                self.bad(ex, "queued-in-order", "a buffer is put at another place than the end of the queue", ev)
            elif s not in ("live", "empty"):
                self.bad(ex, "queued-in-order", "what is queued is not a buffer of accepted messages", ev)
            self.setb(st, loc, "live", lo + 1)
            if loc != self.Q:
                self.s(st, drained=True)
            return True
        if name in ("clear", "pop_back", "resize", "erase", "assign", "shrink_to_fit"):
            n = 0
            if name == "resize" and ev.args[0][0] == 'c':
                n = ev.args[0][1]
            elif name == "erase" and len(ev.args) == 2:
                d = dict(self.g(st, "its"))
                x, y = [d.get(a[1]) if a[0] == 'a' else None for a in ev.args]
                n = x[1] if x and x[0] == "begin" and y == ("end", 0) else 0
            if w == "live":
                self.col.ob("not-dropped")
                size = ('s', 'u', 'size', ex.load(st, loc))
                if loc != self.Q and n * self.P.size >= LIMIT and st.prove(add(size, C(n + 1), -1)):
                    self.s(st, dropped=True)
                    self.setb(st, loc, w, n)
                    return False
                self.bad(ex, "not-dropped", "buffers with accepted messages are dropped", ev)
            if name == "pop_back":
                if lo < 1:
                    self.bad(ex, "handed-over", "takes a buffer out of a list that may be empty", ev)
                self.setb(st, loc, w, max(0, lo - 1))
                self.s(st, gone=False)
            elif name == "resize":
                self.setb(st, loc, w, min(lo, n))
            elif name in ("clear", "assign"):
                self.setb(st, loc, "empty", 0)
            else:
                self.setb(st, loc, w, n)
            return False
        if name == "back" and lo < 1 and loc != self.Q and w == "written":
            self.bad(ex, "handed-over", "takes a buffer out of a list that may be empty", ev)
        return False

    def account(self, ex, st, ev):
        if self.g(st, "dropped"):
            self.col.ob("notice")
            if not self.g(st, "notice"):
                self.bad(ex, "notice", "a backlog is dropped without a notice", ev)

    def finish(self, ex, f, out):
        for _, st in out:
            self.col.ob("drained")
            self.account(ex, st, None)
            if self.g(st, "run") is not False:
                self.bad(ex, "drained", "the back end may end although the log is not stopped")
            if not self.g(st, "drained"):
                self.bad(ex, "drained", "messages accepted before the stop may be left behind when the back end ends")
            if any(l != self.Q and w == "live" for l, (w, _) in self.g(st, "b")):
                self.bad(ex, "drained", "the buffers taken last are not written")


class Accept(Owner):
    """AsyncLog::Append"""

    def fresh_next(self, ex, s):
        for n in self.NEXT:
            v = s.mem.get(n)
            if v is not None and v[0] == 'a':
                s.mem[('f', v[1], self.LEN)] = C(0)

    def lock(self, ex, st):
        out = super().lock(ex, st)
        return out

    def pointers(self, ex, st, ev, q, name):
        if name == "operator=" and ev.obj == self.CUR and self.ptr(st, ex, self.CUR) == "live":
            self.bad(ex, "not-dropped", "the messages of the current buffer are dropped", ev)
            return
        super().pointers(ex, st, ev, q, name)

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        if k == "root":
            self.d, self.n = [ex.param_sym(p) for p in self.root.params][:2]
        if k == "call" and q in ("memcpy", "__builtin_memcpy", "memmove") and len(ev.args) == 3 and ev.args[1] == self.d:
            self.col.ob("accepted-once")
            if ev.args[2] != self.n:
                self.bad(ex, "accepted-once", "not the whole message is stored", ev)
            b = st.mem.get(self.CUR)
            if not self.g(st, "held"):
                self.bad(ex, "accepted-once", "the message is stored without the lock", ev)
            if b is None or b[0] != 'a' or not contains(ev.args[0], lambda y: y == b[1]):
                self.bad(ex, "accepted-once", "the message does not go to the current buffer", ev)
            self.s(st, msg=min(2, self.g(st, "msg") + 1))
            self.setp(st, self.CUR, "live")
        return super().event(ex, st, ev)

    def finish(self, ex, f, out):
        for _, st in out:
            self.col.ob("accepted-once")
            m = self.g(st, "msg")
            if m == 1 or m == 0 and st.prove(sub_(self.n, C(self.P.size))):
                continue
            self.bad(ex, "accepted-once", "a message that fits a buffer may be %s" % ("stored twice" if m else "left out"))


def sub_(a, b):
    return add(a, b, -1)


class Order(Rec):
    """starting and stopping"""
    FIELDS = (("run", None), ("joined", 0), ("started", 0))

    def __init__(self, prog, root, col, parts):
        super().__init__(prog, root, col)
        self.P = parts

    def event(self, ex, st, ev):
        name = (ev.q or "").rsplit("::", 1)[-1]
        R, T = ('f', THIS, self.P.run), ('f', THIS, self.P.thread)
        if ev.kind in ("write",) and ev.loc == R:
            iv = st.interval(ev.val) if ev.val is not None else None
            self.s(st, run=True if iv == (1, 1) else False if iv == (0, 0) else None)
        elif ev.kind == "call" and ev.obj == R and name in ("operator=", "store") and ev.args:
            iv = st.interval(ev.args[0])
            self.s(st, run=True if iv == (1, 1) else False if iv == (0, 0) else None)
        elif ev.kind == "call" and ev.obj == T and name == "Join":
            self.col.ob("stopping")
            if self.g(st, "run") is not False:
                self.bad(ex, "stopping", "waits for the back end before it is told to stop", ev)
            self.s(st, joined=min(2, self.g(st, "joined") + 1))
        elif ev.kind == "call" and ev.obj == T and name == "StartRun":
            self.col.ob("stopping")
            if self.g(st, "run") is not True:
                self.bad(ex, "stopping", "the back end is started before the log is marked as running, it may end at once", ev)

    def finish(self, ex, f, out):
        if f.name != "Stop":
            return
        for _, st in out:
            self.col.ob("stopping")
            if self.g(st, "joined") != 1 or self.g(st, "run") is not False:
                self.bad(ex, "stopping", "stopping does not wait for the back end to write what is left")


def P23(prog, rep, tier):
    rep.rule("accepted-once", "every path of Append stores the whole message once, under the lock, in the buffer that is the current one, unless it "
             "is longer than a whole buffer")
    rep.rule("queued-in-order", "a buffer with accepted messages is only put at the end of the queue")
    rep.rule("handed-over", "whenever the lock is given back there is an empty or current buffer to append to, and no spare one only if a full one is queued")
    rep.rule("written-in-order", "the back end writes every buffer it took once, in order, with its own length")
    rep.rule("not-dropped", "no buffer with accepted messages is overwritten, reset or removed before it is written, except a backlog above the limit")
    rep.rule("not-twice", "a buffer whose messages were written is reset before it is handed out again, and never queued again")
    rep.rule("notice", "a dropped backlog leaves a notice")
    rep.rule("drained", "the back end ends only after it saw the stop, took everything after that and wrote it")
    rep.rule("stopping", "the log is marked as running before the back end starts, and stopping marks it as stopped and then waits for the back end")
    P = Parts(prog)
    L = field_of_type(prog, FB, lambda f: f["t"] == "unsigned int", "length") if FB in prog.records else FB + "::len_"

    def mk(p, f, c):
        m = Accept(p, f, c, P)
        m.LEN = L
        return [m]
    opq = {OUT + "::" + n for n in ("LogFile", "~LogFile", "Append", "Flush")}
    drive(prog, fn(prog, AL + "::Append"), mk, rep, opaque=DEFAULT_OPAQUE - {FB}, opaque_fn=opq)
    backs = [f for f in prog.funcs.values() if f.has_body and f.parent and AL in f.q and OUT in "".join(
        prog.funcs[i].q for i in callees(prog, f))]
    backs = [f for f in backs if not any(f.id in callees(prog, g) for g in backs if g is not f)]
    if not backs:
        raise Broken("the back end of the asynchronous log is not found")
    drive(prog, backs, lambda p, f, c: [Owner(p, f, c, P)], rep, opaque_fn=opq, models={FB + "::data": m_data, FB + "::len": m_len})
    drive(prog, fn(prog, AL + "::Stop") + fn(prog, AL + "::StartRun"), lambda p, f, c: [Order(p, f, c, P)], rep,
          opaque_fn=opq | {"kanon::Thread::Join", "kanon::Thread::StartRun"})
    rep.need("accepted-once", 2)
    rep.need("queued-in-order", 3)
    rep.need("handed-over", 4)
    rep.need("written-in-order", 2)
    rep.need("drained", 1)
    rep.need("stopping", 3)


def callees(prog, f):
    seen, work = set(), [f]
    while work:
        g = work.pop()
        for n in g.x or ():
            for key in ("f", "ctor"):
                i = n.get(key) if n.get("k") in ("call", "ctor") else None
                if i and i in prog.funcs and i not in seen:
                    seen.add(i)
                    if prog.funcs[i].has_body and prog.funcs[i].q.startswith(AL):
                        work.append(prog.funcs[i])
    return seen
