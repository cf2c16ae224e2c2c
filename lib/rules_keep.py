"""P10: deferred work and stored callbacks keep the counted objects they use alive."""
import re
from absint import *
from program import Broken
from drive import drive, is_root
from rules_conn2 import LATER
from rules_loop import Rec

SINKS = LATER + ("kanon::TimerQueue::AddTimer",)
SETTER = re.compile(r"::Set\w*Callback$")
SHARED = re.compile(r"^(const )?std::shared_ptr<")
WEAK = re.compile(r"^(const )?std::weak_ptr<")


def counted(prog):
    """classes whose objects are managed by reference counting, and their subclasses"""
    out = set()
    for c, rs in prog.records.items():
        if any("std::enable_shared_from_this" in b for r in rs for b in r.get("bases", ())):
            out.add(c)
    more = True
    while more:
        more = False
        for c, rs in prog.records.items():
            if c not in out and any(b.split("<")[0] in out for r in rs for b in r.get("bases", ())):
                out.add(c)
                more = True
    if not any(c.startswith("kanon::") for c in out):
        raise Broken("no reference-counted class found")
    return {c for c in out if c.startswith("kanon::")}


def owned_fields(prog, classes):
    """name -> how the field holds its object: 'unique', 'shared' or 'value'"""
    out = {}
    for c in classes:
        for r in prog.records.get(c, ()):
            for f in r["fields"]:
                t = f["t"]
                if t.startswith("std::unique_ptr<") or t.startswith("const std::unique_ptr<"):
                    out[f["n"]] = (c, "unique")
                elif SHARED.match(t):
                    out[f["n"]] = (c, "shared")
                elif not t.endswith(("*", "&")):
                    out[f["n"]] = (c, "value")
    return out


def subterms(v):
    if isinstance(v, tuple):
        yield v
        for x in v:
            if isinstance(x, tuple):
                for y in subterms(x):
                    yield y


def names_class(t, c, RC):
    if c in RC:
        return True
    return any(re.search(r"\b%s\b" % re.escape(x), t) or re.search(r"\b%s\b" % re.escape(x.split("::")[-1]), t) for x in RC)


class Keep(Rec):
    FIELDS = (("on", True),)

    def __init__(self, prog, root, col, RC, own, bt):
        Rec.__init__(self, prog, root, col)
        self.RC, self.own, self.bt = RC, own, bt
        self.caps = bt["caps"]

    # -------------------------------------------------------------- values
    def look(self, st, v):
        n = 0
        while v is not None and v[0] == 'a' and v[1] in st.mem and n < 8:
            v = st.mem[v[1]]
            n += 1
        return v

    def held(self, st, v, depth=0):
        """(strength, type, class, by reference, pointer value) of everything a callable holds"""
        v = self.look(st, v)
        out = []
        if v is None or depth > 4:
            return out
        if v[0] == 'lam':
            info = {c["v"]: c for c in self.caps.get(v[1], ()) if not c.get("this")}
            for k, x in v[2]:
                c = info.get(k)
                if c is None:
                    continue
                out += self.one(st, c["t"], c.get("c") or "", c["ref"], x, depth)
            f = self.p.funcs.get(v[1])
            if v[3] != ('c', 0):
                th = [c for c in self.caps.get(v[1], ()) if c.get("this")]
                if th:
                    out += self.one(st, th[0]["t"], th[0].get("c") or "", False, v[3], depth)
        elif v[0] == 'bind':
            ts = self.bt["binds"].get(v)
            for i, x in enumerate(v[2]):
                t, c = ts[i] if ts and i < len(ts) else ("", "")
                out += self.one(st, t or "", c or "", False, x, depth)
            g = self.look(st, v[1]) if isinstance(v[1], tuple) else None
            if g is not None and g[0] in ('lam', 'bind'):
                out += self.held(st, g, depth + 1)
        return out

    def one(self, st, t, c, ref, x, depth):
        if ref:
            return [("ref", t, c, True, x)]
        if "std::reference_wrapper" in t:
            return [("ref", t, c, True, x)]
        if SHARED.match(t):
            return [("strong", t, c, False, self.look(st, x))]
        if WEAK.match(t):
            return [("weak", t, c, False, self.look(st, x))]
        if t.endswith("*"):
            y = x
            if y[0] == 'a' and (y[1][0] == 'cap' or y[1] in st.mem and y[1][0] in ('v', 't')):
                y = st.mem.get(y[1], y)
            return [("raw", t, c, False, y)]
        y = self.look(st, x)
        if y is not None and y[0] in ('lam', 'bind'):
            return self.held(st, y, depth + 1)
        return []

    def inside(self, st, v):
        """objects of counted classes that the pointer v points into"""
        out = []
        if v[0] == 'a':
            l = v[1]
            while l[0] == 'f':
                if self.own.get(l[2], ("", ""))[0] in self.RC and self.own[l[2]][1] == "value":
                    out.append(('a', l[1]) if l[1][0] != 'p' else l[1][1])
                l = l[1]
        for x in subterms(v):
            if len(x) == 4 and x[0] == 's' and x[2] == 'init' and x[3][0] == 'f' and self.own.get(x[3][2], ("", ""))[1] == "unique" \
                    and x is v and st.mem.get(x[3], x) == x:
                l = x[3][1]
                out.append(l[1] if l[0] == 'p' else ('a', l))
        return out

    @staticmethod
    def same(a, b):
        def n(v):
            return v[1][1] if v is not None and v[0] == 'a' and v[1][0] == 'p' else v
        return n(a) == n(b)

    # ------------------------------------------------------------- holders
    def holds(self, ex, st, p, holder):
        """how the object p holds the object at location holder"""
        base = p[1] if p[0] == 'a' else ('p', p)
        for n, (c, how) in self.own.items():
            l = ('f', base, n)
            if how == "value":
                if holder == l:
                    return "value"
            else:
                v = ex.load(st, l, "T *")
                if holder == ('p', v) or v[0] == 'a' and holder == v[1] or v[0] == 'a' and holder == ('p', v):
                    return how
        return None

    # -------------------------------------------------------------- events
    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        for l in (ev.obj, ev.loc):
            self.weak_use(ex, st, ev, l)
        if k == "ret" and q == "std::bind" and isinstance(ev.node, dict):
            v = self.look(st, ev.ret)
            if v is not None and v[0] == 'bind':
                ts = []
                for a in ev.node["args"][1:]:
                    n, _ = ex.node(ev.fr, a)
                    ts.append((n.get("t", ""), n.get("c", "")))
                self.bt["binds"][v] = ts
        if k == "call" and q in SINKS:
            for a in ev.args:
                v = self.look(st, a)
                if v is not None and v[0] in ('lam', 'bind'):
                    self.deferred(ex, st, ev, v, q)
        if k == "call" and SETTER.search(q) and q.startswith("kanon::") and ev.obj is not None:
            for a in ev.args:
                v = self.look(st, a)
                if v is not None and v[0] in ('lam', 'bind'):
                    self.stored(ex, st, ev, v, ev.obj, q)
        if k == "write" and ev.loc is not None and ev.loc[0] == 'f' and ev.val is not None and ev.val[0] in ('lam', 'bind') \
                and not SETTER.search(ev.fr.f.q) and not ev.loc[2].startswith("std::"):
            self.stored(ex, st, ev, ev.val, ev.loc[1], ev.loc[2])
        return None

    def deferred(self, ex, st, ev, v, q):
        self.col.ob("deferred")
        hs = self.held(st, v)
        strong = [h[4] for h in hs if h[0] == "strong"]
        for s, t, c, ref, x in hs:
            if s == "strong" and names_class(t, c, self.RC):
                self.col.ob("strong")
            if s == "weak":
                self.col.ob("weak")
            if s == "ref" and names_class(t, c, self.RC):
                self.bad(ex, "dangling", "work handed to %s captures %s by reference and may run after it is gone" % (q, t), ev)
            if s == "raw":
                who = ([x] if names_class(t, c, self.RC) else []) + self.inside(st, x)
                for w in who:
                    if not any(self.same(w, y) for y in strong):
                        self.bad(ex, "unowned", "work handed to %s uses a %s without holding a reference to it" % (q, t), ev)
                    else:
                        self.col.ob("raw-with-owner")

    def stored(self, ex, st, ev, v, holder, q):
        self.col.ob("stored")
        hs = self.held(st, v)
        strong = [h[4] for h in hs if h[0] == "strong"]
        for s, t, c, ref, x in hs:
            if not names_class(t, c, self.RC):
                continue
            if s == "ref":
                self.bad(ex, "dangling", "a callback stored with %s captures %s by reference" % (q, t), ev)
            elif s == "raw":
                how = self.holds(ex, st, x, holder)
                if how not in ("unique", "value") and not any(self.same(x, y) for y in strong):
                    self.bad(ex, "stored-raw", "a callback stored with %s uses a %s that may be gone when it is called" % (q, t), ev)
                self.col.ob("owner-outlives")
            elif s == "strong" and x is not None:
                how = self.holds(ex, st, x, holder)
                if how or holder == ('p', x) or x[0] == 'a' and holder == x[1]:
                    self.bad(ex, "cycle", "a callback stored with %s keeps the object that owns the callback alive for ever" % q, ev)
            elif s == "weak":
                self.col.ob("weak")

    def weak_use(self, ex, st, ev, l):
        while l is not None and l[0] == 'f':
            l = l[1]
        if l is None or l[0] != 'p':
            return
        v = l[1]
        if v[0] == 's' and v[-1] == 'lock':
            self.col.ob("weak-use")
            if st.decide(truthv(v)) is not True:
                self.bad(ex, "weak-unchecked", "a weak reference is used without checking that its object still exists", ev)



def P10(prog, rep, tier):
    RC = counted(prog)
    own = owned_fields(prog, RC)
    caps = {}
    for f in prog.funcs.values():
        for n in f.x or ():
            if n.get("k") == "lambda":
                caps[n["f"]] = n["caps"]
    rep.rule("deferred", "work handed to a loop or a timer that uses a counted object holds a strong reference to it, or a weak one")
    rep.rule("stored", "a stored callback uses a counted object only through a weak reference, a strong one that makes no cycle, or from "
                       "inside a part of that object")
    rep.rule("weak", "the result of locking a weak reference is used only when it is known not to be null")
    roots = [f for f in prog.funcs.values() if is_root(prog, f) and f.q.startswith("kanon::") and "/kanon/log/" not in (f.file or "")]
    drive(prog, roots, lambda p, f, c: [Keep(p, f, c, RC, own, {"caps": caps, "binds": {}})], rep)
    for what, n in (("deferred", 10), ("strong", 8), ("stored", 4), ("weak-use", 2)):
        rep.need(what, n)
