"""P29: writers into storage of a fixed size."""
import re
from absint import *
from program import Broken
from drive import drive
from rules_loop import Rec, THIS

FB = "kanon::detail::FixedBuffer"
LS = "kanon::LexicalStream"
SV = "kanon::StringView"
OPQ = DEFAULT_OPAQUE - {FB, SV, LS, "kanon::TimeStamp", "kanon::FmtStream"}
#          destination, length
WRITERS = {"memcpy": (0, 2), "memmove": (0, 2), "__builtin_memcpy": (0, 2), "__builtin_memmove": (0, 2), "memset": (0, 2), "strncpy": (0, 2),
           "__builtin_memset": (0, 2), "bzero": (0, 1), "snprintf": (0, 1), "vsnprintf": (0, 1), "read": (1, 2), "recv": (1, 2),
           "gethostname": (0, 1), "inet_ntop": (2, 3), "strftime": (0, 1), "readlink": (1, 2), "getcwd": (0, 1), "fgets": (0, 1),
           "std::copy_n": (2, 1), "strerror_r": (1, 2), "__xpg_strerror_r": (1, 2), "setvbuf": (1, 3), "setbuffer": (1, 2), "iov": (0, 1)}
READERS = {"memcpy": (1, 2), "memmove": (1, 2), "__builtin_memcpy": (1, 2), "__builtin_memmove": (1, 2), "write": (1, 2), "send": (1, 2),
           "fwrite": (0, 2)}
ENDLESS = ("strcpy", "strcat", "sprintf", "vsprintf", "gets", "stpcpy")
RANGES = ("std::reverse", "std::fill", "std::sort")


def sub(a, b):
    return add(a, b, -1)


def textlen(fmt, args):
    """the most characters a format can give, None: no bound"""
    n, k = 0, 0
    for m in re.finditer(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|j|z|t|L)?([a-zA-Z%])|(?s:.)", fmt):
        c = m.group(5)
        if c is None:
            n += 1
            continue
        if c == "%":
            n += 1
            continue
        w, p, size = m.group(2), m.group(3), m.group(4) or ""
        if "*" in (w, p):
            return None
        a = args[k] if k < len(args) else None
        k += 1
        bits = {"hh": 8, "h": 16, "": 32}.get(size, 64)
        if c in "di":
            x = len(str(1 << (bits - 1))) + 1
        elif c == "u":
            x = len(str((1 << bits) - 1))
        elif c in "xX":
            x = bits // 4 + 2
        elif c == "o":
            x = bits // 3 + 2
        elif c == "c":
            x = 1
        elif c == "p":
            x = 18
        elif c in "gGeE":
            x = int(p or (0 if "." in m.group(0) else 6)) + 8
        elif c in "fF":
            x = 1 + 309 + 1 + int(p or (0 if "." in m.group(0) else 6))
        elif c == "s":
            if p is not None:
                x = int(p)
            elif a is not None and a[0] == 'a' and a[1][0] == 'str':
                x = len(a[1][1])
            else:
                return None
        else:
            return None
        if p is not None and c in "diuxXo":
            x = max(x, int(p) + 2)
        n += max(x, int(w or 0))
    return n


def alen(t):
    m = re.search(r"(?:^|\s)(?:char|unsigned char|signed char|uint8_t)\s*\[(\d+)\]$", (t or "").strip())
    return int(m.group(1)) if m else None


_alens = {}


def sized(prog):
    """parameters that are given an array together with its size, in the next parameter, by some caller"""
    r = prog.__dict__.get("_sized")
    if r is None:
        r = prog.__dict__["_sized"] = set()
        for f in prog.funcs.values():
            for n in f.x or ():
                if n.get("k") == "call" and n.get("f") in prog.funcs:
                    a = n.get("args") or ()
                    for i in range(len(a) - 1):
                        x, y = f.x[a[i]], f.x[a[i + 1]]
                        if x.get("ck") == "ArrayToPointerDecay" and y.get("cv") is not None and alen(f.x[x["a"]].get("t")) == y["cv"]:
                            r.add((n["f"], i))
    return r


class Fixed(Rec):
    """every write lands inside the array it goes to"""
    FIELDS = (("n", 0), ("stored", None), ("over", False))
    RULE = "inside"
    SIZES = {}

    def __init__(self, prog, root, col):
        super().__init__(prog, root, col)
        self.pairs = {}

    def extent(self, ex, ev, loc):
        """size of the character array at a location"""
        if loc[0] == 'f':
            if loc in self.SIZES:
                return C(self.SIZES[loc])
            cls, _, sn = loc[2].rpartition("::")
            for r in self.p.records.get(cls, ()):
                if "<" in r["t"]:
                    continue
                for f in r["fields"]:
                    if f["n"] == loc[2]:
                        n = alen(f["t"])
                        return C(n) if n else None
            return None
        if loc[0] == 'g' and loc[1].startswith("g:"):
            for g in self.p.globals.get(loc[1][2:], ()):
                n = alen(g.get("t"))
                if n:
                    return C(n)
            return None
        name = loc[2] if loc[0] == 'v' else loc[1] if loc[0] == 'g' else None
        if name is None:
            return None
        fr = ev.fr
        while fr is not None:
            if loc[0] == 'g' or fr.ctx == loc[1]:
                n = self.local(fr.f, name)
                if n:
                    return C(n)
            fr = fr.parent
        return None

    def local(self, f, name):
        d = _alens.get(f.id)
        if d is None:
            d = _alens[f.id] = {v["v"]: alen(v.get("t")) for x in f.x or () if x.get("k") == "decl" for v in x["vars"] if v.get("alen")}
        return d.get(name)

    def where(self, ex, ev, v):
        """(array, offset, size) a pointer value points to"""
        off = C(0)
        while v is not None:
            if v[0] == 'a':
                l = v[1]
                if l[0] == 'i':
                    off = add(off, l[2])
                    v = ('a', l[1])
                    continue
                if l[0] == 'p':
                    v = l[1]
                    continue
                e = self.extent(ex, ev, l)
                return (l, off, e) if e is not None else None
            if v in self.pairs:
                return v, off, self.pairs[v]
            if v[0] == 'l':
                base = [s for s, k in v[2] if k == 1 and (s[0] == 'a' or s in self.pairs)]
                if len(base) != 1:
                    return None
                off = add(off, sub(v, base[0]))
                v = base[0]
                continue
            return None
        return None

    def scalar(self, ev, v):
        """a single variable of a plain type"""
        if v is None or v[0] != 'a' or v[1][0] != 'v':
            return None
        fr = ev.fr
        while fr is not None and fr.ctx != v[1][1]:
            fr = fr.parent
        if fr is None:
            return None
        t = None
        for p in fr.f.params:
            if p["v"] == v[1][2]:
                t = p["t"]
        for x in fr.f.x or ():
            if x.get("k") == "decl":
                for y in x["vars"]:
                    if y.get("v") == v[1][2]:
                        t = y.get("t")
        n = {"char": 1, "unsigned char": 1, "signed char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "long": 8,
             "unsigned long": 8, "long long": 8, "unsigned long long": 8}.get((t or "").replace("const ", "").strip())
        return (v[1], C(0), C(n)) if n else None

    def vector(self, ex, st, ev, name):
        base = ev.args[1][1] if ev.args[1][0] == 'a' else None
        if base is None:
            return
        for l, v in list(st.mem.items()):
            if l[0] == 'f' and l[2].endswith("iovec::iov_base") and contains(l, lambda y: y == base):
                n = st.mem.get(('f', l[1], l[2][:-4] + "len"))
                at = self.where(ex, ev, v)
                if at and n is not None:
                    self.inside(ex, st, ev, at, n, name)

    def inside(self, ex, st, ev, at, n, what):
        arr, off, size = at
        self.col.ob(self.RULE)
        self.s(st, n=min(60, self.g(st, "n") + 1))
        if not (st.prove(off) and st.prove(n) and st.prove(sub(sub(size, off), n))):
            self.bad(ex, self.RULE, "%s may reach beyond the %s bytes of %s" % (what, show(size), show(arr) if arr[0] != 's' else "the given storage"), ev)

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        if k == "root":
            ps = self.root.params
            for i, (a, b) in enumerate(zip(ps, ps[1:])):
                if (self.root.id, i) in sized(self.p):
                    x = ex.param_sym(a)
                    self.pairs[x] = ex.param_sym(b)
                    st.assume(cmpv('<=', C(1), ex.param_sym(b)), True)
            for p in ps:
                self.width(st, ex.param_sym(p), p["t"])
            return
        if k == "call" and ev.args:
            name = q if q in WRITERS or q in READERS or q in RANGES or q in ENDLESS else q.replace("std::", "", 1)
            if name in WRITERS:
                d, n = WRITERS[name]
                if max(d, n) < len(ev.args):
                    at = self.where(ex, ev, ev.args[d])
                    if at:
                        self.inside(ex, st, ev, at, ev.args[n], name)
                        self.store(ex, st, ev, at, name)
            if name in ("readv", "writev", "preadv", "pwritev") and len(ev.args) >= 3:
                self.vector(ex, st, ev, name)
            if name in READERS:
                d, n = READERS[name]
                if max(d, n) < len(ev.args):
                    at = self.where(ex, ev, ev.args[d]) or self.scalar(ev, ev.args[d])
                    if at:
                        self.inside(ex, st, ev, at, ev.args[n], "reading for " + name)
            if name in ENDLESS:
                at = self.where(ex, ev, ev.args[0])
                if at:
                    src = ev.args[1] if len(ev.args) > 1 else None
                    n = None
                    if name in ("strcpy", "stpcpy") and src and src[0] == 'a' and src[1][0] == 'str':
                        n = len(src[1][1])
                    if name == "sprintf" and src and src[0] == 'a' and src[1][0] == 'str':
                        n = textlen(src[1][1], ev.args[2:])
                    if n is None:
                        self.col.ob(self.RULE)
                        self.bad(ex, self.RULE, "%s writes without a bound" % name, ev)
                    else:
                        self.inside(ex, st, ev, at, C(n + 1), name)
            if name in RANGES:
                for a in ev.args[:2]:
                    at = self.where(ex, ev, a)
                    if at:
                        self.inside(ex, st, ev, at, C(0), name)
        if k == "ctor" and q == SV + "::StringView" and len(ev.args) == 2 or \
                k == "call" and q == SV + "::StringView" and len(ev.args) == 2:
            at = self.where(ex, ev, ev.args[0])
            if at:
                self.inside(ex, st, ev, at, ev.args[1], "the view")
        if k == "ret" and ev.ret is not None:
            name = q.replace("std::", "", 1)
            if name in ("snprintf", "sprintf") and len(ev.args) >= 2:
                i = 2 if name == "snprintf" else 1
                fmt = ev.args[i]
                n = textlen(fmt[1][1], ev.args[i + 1:]) if fmt[0] == 'a' and fmt[1][0] == 'str' else None
                if n is not None:
                    st.assume(cmpv('<=', C(0), ev.ret), True)
                    st.assume(cmpv('<=', ev.ret, C(n)), True)
                self.printed(ex, st, ev, n)
            elif name in ("strlen", "__builtin_strlen"):
                at = self.where(ex, ev, ev.args[0])
                if at:
                    st.assume(cmpv('<=', ev.ret, sub(sub(at[2], at[1]), C(1))), True)
        if k == "write":
            l = ev.loc
            if l[0] == 'p':
                at = self.where(ex, ev, l[1])
                if at:
                    self.inside(ex, st, ev, at, C(1), "the write")
                    self.store(ex, st, ev, at, "char")
            elif l[0] == 'i':
                b = l[1][1] if l[1][0] == 'p' else ('a', l[1])
                at = self.where(ex, ev, b)
                if at:
                    at = (at[0], add(at[1], l[2]), at[2])
                    self.inside(ex, st, ev, at, C(1), "the write")
                    self.store(ex, st, ev, at, "char")
            elif l[0] == 'v' and ev.val is not None and ev.val[0] != 'l' and ev.val[0] != 'c' and ev.val[0] != 'a':
                self.shrink(ex, st, ev)
        return self.more(ex, st, ev)

    def width(self, st, v, t):
        t = t.replace("const ", "").strip()
        u = {"unsigned char": 8, "unsigned short": 16, "unsigned int": 32, "unsigned long": 64, "unsigned long long": 64, "uintptr_t": 64,
             "size_t": 64}
        s = {"short": 16, "int": 32, "long": 64, "long long": 64, "signed char": 8}
        if t in u:
            st.assume(cmpv('<=', C(0), v), True)
            st.assume(cmpv('<=', v, C((1 << u[t]) - 1)), True)
        elif t in s:
            st.assume(cmpv('<=', C(-(1 << (s[t] - 1))), v), True)
            st.assume(cmpv('<=', v, C((1 << (s[t] - 1)) - 1)), True)
        elif t.endswith("*"):
            st.assume(cmpv('<=', C(0), v), True)
            st.assume(cmpv('<=', v, C((1 << 64) - 1)), True)

    def shrink(self, ex, st, ev):
        """a number is divided: the quotient is as much smaller"""
        v = ev.val
        d = quotient(v)
        if d is None:
            return
        a, n = d
        lo, hi = st.interval(a)
        if lo in (float("-inf"), None) or hi in (float("inf"), None):
            return
        w = ex.fresh(st, ev.fr, ev.line, 'x', 'q%d' % self.g(st, "n"))
        st.mem[ev.loc] = w
        q = lambda x: abs(x) // n * (1 if x >= 0 else -1)
        st.assume(cmpv('<=', C(q(lo)), w), True)
        st.assume(cmpv('<=', w, C(q(hi))), True)

    def store(self, ex, st, ev, at, name):
        pass

    def printed(self, ex, st, ev, n):
        pass

    def more(self, ex, st, ev):
        pass

    def finish(self, ex, f, out):
        pass


def quotient(v):
    """(x, n) if the value is x divided by the constant n > 1"""
    if v and v[0] == 's' and len(v) > 4 and v[2] == 'op':
        op, a, b = v[3], v[4], v[5]
        if op in ('/', '/=') and b[0] == 'c' and b[1] > 1:
            return a, b[1]
        if op in ('>>', '>>=') and b[0] == 'c' and b[1] > 0:
            return a, 1 << b[1]
    return None


class Box(Fixed):
    """one operation of a fixed buffer of a known size that holds fewer bytes than its size"""

    def __init__(self, prog, root, col, size, names):
        super().__init__(prog, root, col)
        self.N = size
        self.DATA, self.LEN = names
        self.op = root.q.rsplit("_", 1)[-1]

    def extent(self, ex, ev, loc):
        if loc[0] == 'f' and loc[2] == self.DATA:
            return C(self.N)
        return super().extent(ex, ev, loc)

    def is_len(self, l):
        return l is not None and l[0] == 'f' and l[2] == self.LEN

    def event(self, ex, st, ev):
        if ev.kind == "root":
            self.bufs = [ex.param_sym(p)[1] for p in self.root.params if FB in p["t"]]
            for b in self.bufs:
                v = ex.load(st, ('f', b, self.LEN), "unsigned int")
                st.assume(cmpv('<=', C(0), v), True)
                st.assume(cmpv('<=', v, C(self.N - 1)), True)
                if self.op not in ("swap", "new"):
                    self.old = v
                    self.s(st, stored=v)
        if ev.kind == "write" and self.is_len(ev.loc) and self.op not in ("AdvanceRead", "swap"):
            self.length(ex, st, ev, ev.val)
        return super().event(ex, st, ev)

    def length(self, ex, st, ev, v):
        self.col.ob("length")
        if v is None or not (st.prove(v) and st.prove(sub(C(self.N - 1), v))):
            self.bad(ex, "length", "the length of a buffer of %d bytes may become %s" % (self.N, "more than that" if v is None or
                     st.prove(v) else "negative"), ev)

    def store(self, ex, st, ev, at, name):
        e = self.g(st, "stored")
        if e is None or not (at[0][0] == 'f' and at[0][2] == self.DATA) or sub(at[1], e) != C(0):
            return
        if name == "char":
            if ev.val != C(0):
                self.s(st, stored=add(e, C(1)))
        elif name in ("memcpy", "memmove", "__builtin_memcpy", "__builtin_memmove", "strncpy"):
            self.s(st, stored=add(e, ev.args[2]))
            if self.op in ("Append",):
                self.col.ob("whole")
                want = [ex.param_sym(p) for p in self.root.params[1:]]
                if ev.args[1:3] != tuple(want):
                    self.bad(ex, "whole", "what is stored is not the given text", ev)

    def printed(self, ex, st, ev, n):
        e = self.g(st, "stored")
        at = self.where(ex, ev, ev.args[0])
        if e is None or at is None or sub(at[1], e) != C(0):
            return
        if st.prove(sub(sub(ev.args[1], C(1)), ev.ret)):
            self.s(st, stored=add(e, ev.ret))

    def finish(self, ex, f, out):
        for _, st in out:
            for b in getattr(self, "bufs", ()):
                v = ex.load(st, ('f', b, self.LEN), "unsigned int")
                self.length(ex, st, None, v)
                e = self.g(st, "stored")
                if e is None or self.op in ("AdvanceRead",):
                    continue
                self.col.ob("whole")
                if self.op == "reset":
                    if v != C(0):
                        self.bad(ex, "whole", "a buffer that was reset is not empty")
                    continue
                if self.op == "zero":
                    continue
                if not st.prove(sub(e, v)):
                    self.bad(ex, "whole", "the length covers bytes that were not written")
                if self.op == "Append" and self.root.params[1:]:
                    n = ex.param_sym(self.root.params[2])
                    if sub(v, add(self.old, n)) == C(0):
                        continue
                    if v != self.old:
                        self.bad(ex, "whole", "the length does not grow by the length of the text")
                    elif not st.prove(sub(add(self.old, n), C(self.N))):
                        self.bad(ex, "whole", "text that fits is left out")
                elif v == self.old and self.op != "AppendView" and not st.prove(sub(self.old, C(self.N - 400))):
                    self.bad(ex, "whole", "a value is left out although there is plenty of room")


class Given(Rec):
    """an output operator hands its value to the buffer, once"""
    FIELDS = (("n", 0), ("src", False))

    def event(self, ex, st, ev):
        q = ev.q or ""
        if ev.kind == "call" and q.startswith(FB + "::") and q.endswith("View") and ev.obj is not None and len(self.root.params) == 2 and \
                self.mentions(st, ('a', ev.obj), self.root.params[1], ex.param_sym(self.root.params[1])):
            self.s(st, src=True)
        if ev.kind == "call" and q.startswith(FB + "::") and q.rsplit("::", 1)[-1].lower().startswith("append"):
            self.col.ob("handed-on")
            vs = [(v, ex.param_sym(v)) for v in self.root.params[1:]]
            texts = [a for a in ev.args]
            for i, a in enumerate(texts):
                if len(texts) == 2 and i == 1 and a[0] == 'c':
                    continue
                if self.g(st, "src") and a[0] == 'a' and a[1][0] == 't':
                    continue
                if not any(self.mentions(st, a, v, s) for v, s in vs):
                    self.bad(ex, "handed-on", "something else than the given value is put out", ev)
            self.s(st, n=min(2, self.g(st, "n") + 1))

    def mentions(self, st, a, v, s, depth=4):
        def hit(y):
            return y == s or isinstance(y, tuple) and len(y) > 3 and y[0] == 's' and y[2] == 'param' and y[3] == v["n"] or y == v.get("v")
        if contains(a, hit):
            return True
        if depth == 0:
            return False
        locs = []
        contains(a, lambda y: locs.append(y) if isinstance(y, tuple) and len(y) > 1 and y[0] in ('v', 't', 'f') else False)
        for l in locs:
            for m, w in st.mem.items():
                if (m == l or m[0] == 'f' and m[1] == l) and w != a and self.mentions(st, w, v, s, depth - 1):
                    return True
        r = []
        contains(a, lambda y: r.append(y) if isinstance(y, tuple) and len(y) == 6 and y[0] == 's' and y[2] == 'r' else False)
        for y in r:
            for c, w in getattr(self, "calls", {}).items():
                if c == y and any(self.mentions(st, x, v, s, depth - 1) for x in w):
                    return True
        return False

    def finish(self, ex, f, out):
        for _, st in out:
            self.col.ob("handed-on")
            if self.g(st, "n") != 1:
                self.bad(ex, "handed-on", "an output operator puts its value out %s" % ("twice" if self.g(st, "n") else "not at all"))


class Keeps(Given):
    def event(self, ex, st, ev):
        if ev.kind == "ret" and ev.ret is not None and ev.ret[0] == 's':
            if not hasattr(self, "calls"):
                self.calls = {}
            self.calls[ev.ret] = ((('a', ev.obj),) if ev.obj is not None else ()) + tuple(ev.args or ())
        return super().event(ex, st, ev)


def touches_array(prog, f):
    """functions with storage of a fixed size, or that write through a pointer they are given"""
    for x in f.x or ():
        if x.get("k") == "decl" and any(v.get("alen") and alen(v.get("t")) for v in x["vars"]):
            return True
        if x.get("k") == "var" and x.get("g"):
            pass
        if x.get("k") in ("call",):
            g = prog.funcs.get(x.get("f"))
            n = (g.q if g else x.get("q") or x.get("n") or "").replace("std::", "", 1)
            if n in WRITERS or n in ENDLESS:
                return True
    return False


def P29(prog, rep, tier):
    rep.rule("inside", "every write (copy, formatted output, single character, system call) to a character array of known size is provably inside it, "
             "and so is every view or copy taken from one")
    rep.rule("length", "the recorded length of a fixed buffer stays below its size")
    rep.rule("whole", "an operation of a fixed buffer adds the whole text or value, or nothing if it does not fit, and the length covers only what was written")
    rep.rule("handed-on", "each output operator of the streams hands exactly its value to the buffer, once")
    wit = prog.witness("fixed.inst.cc")
    r = prog.records[FB][0]["fields"]
    data = [f["n"] for f in r if "[" in f["t"]]
    ln = [f["n"] for f in r if "[" not in f["t"]]
    if len(data) != 1 or len(ln) != 1:
        raise Broken("a fixed buffer is not an array and a length")
    names = data[0], ln[0]
    by = {}
    for q, f in sorted(wit.items()):
        m = re.match(r"verifw::(fb)_(\d+)_(\w+)$", q)
        if m:
            by.setdefault(int(m.group(2)), []).append(f)
    for size, fs in sorted(by.items()):
        drive(prog, fs, lambda p, f, c: [Box(p, f, c, size, names)], rep, opaque=OPQ, wraps="sum")
    drive(prog, [f for q, f in sorted(wit.items()) if "::ls_" in q], lambda p, f, c: [Keeps(p, f, c)], rep, opaque=OPQ | {FB})

    class Num(Fixed):
        def finish(self, ex, f, out):
            size = [(x["n"], alen(x["t"])) for x in self.p.records["kanon::Fmt"][0]["fields"]]
            n = [y for _, y in size if y][0]
            for _, st in out:
                for x, y in size:
                    if not y:
                        self.col.ob("length")
                        v = st.mem.get(('f', THIS, x))
                        if v is None or not (st.prove(v) and st.prove(sub(C(n - 1), v))):
                            self.bad(ex, "length", "the length of a formatted number may exceed its storage")
    fs = [f for q, f in sorted(wit.items()) if "::fn_" in q]
    drive(prog, fs, lambda p, f, c: [Fixed(p, f, c)], rep, opaque=OPQ, maxdepth=4)
    num = [f for f in prog.funcs.values() if f.q == "kanon::Fmt::Fmt" and f.has_body and len(f.params) == 2]
    drive(prog, num, lambda p, f, c: [Num(p, f, c)], rep, opaque=OPQ, maxdepth=4)
    rest = [f for f in prog.funcs.values() if f.has_body and not f.q.startswith("verifw") and "/test" not in f.file and touches_array(prog, f)]
    rest = [f for f in rest if not f.q.startswith(FB)]
    drive(prog, rest, lambda p, f, c: [Fixed(p, f, c)], rep, opaque=OPQ, maxdepth=2)
    rep.need("inside", 40)
    rep.need("length", 40)
    rep.need("whole", 40)
    rep.need("handed-on", 19)
