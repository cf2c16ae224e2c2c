"""P27: indices and storage of the contiguous buffer."""
from absint import *
from program import Broken
from drive import drive
from rules_loop import Rec, field_of_type, fn
from rules_conn2 import exit_frame

BUF = "kanon::Buffer"
RA = "kanon::algo::ReservedArray"
SV = "kanon::StringView"
OPQ = (DEFAULT_OPAQUE - {SV}) | {RA}
COPIES = {"memcpy": "dsn", "memmove": "dsn", "__builtin_memcpy": "dsn", "__builtin_memmove": "dsn",
          "std::copy": "fld", "std::copy_n": "fnd", "std::uninitialized_copy": "fld", "std::move": "fld", "std::copy_backward": "flb",
          "std::move_backward": "flb"}
NOALIAS = {"memcpy", "__builtin_memcpy"}


def sub(a, b):
    return add(a, b, -1)


def ge0(st, v):
    return v is not None and st.prove(v)


def eq(st, a, b):
    d = sub(a, b)
    return d == C(0) or ge0(st, d) and ge0(st, sub(b, a))


class Roles:
    """which field is the storage, which index is where reading starts and which where writing starts"""

    def __init__(self, prog):
        self.data = field_of_type(prog, BUF, lambda f: (f.get("c") or "").startswith(RA), "storage")
        r = []
        for f in prog.byq.get(BUF + "::GetReadableSize", []):
            if f.has_body:
                for v, _ in Exec(prog, [], opaque=OPQ, abstract=set()).run(f):
                    r.append(v)
        pos = neg = None
        if len(r) == 1 and r[0][0] == 'l' and r[0][1] == 0 and len(r[0][2]) == 2:
            for s, k in r[0][2]:
                if s[0] == 's' and s[2] == 'init' and s[3][0] == 'f':
                    if k == 1:
                        pos = s[3][2]
                    elif k == -1:
                        neg = s[3][2]
        if not pos or not neg:
            raise Broken("the readable size of a buffer is not the difference of two indices")
        self.w, self.r = pos, neg
        # the space kept free in front: where reading starts in a new buffer
        self.prefix = None
        for f in prog.byq.get(BUF + "::Buffer", []):
            if f.has_body and f.params and f.params[0]["t"] == "unsigned long":
                for v, st in Exec(prog, [], opaque=OPQ, abstract=set(), models=MODELS).run(f):
                    a = st.mem.get(('f', ('p', ('s', 'nn', 'this')), self.r))
                    if a and a[0] == 'c':
                        self.prefix = a[1]
        if self.prefix is None:
            raise Broken("the space kept free in front of a buffer is not known")

    def loc(self, b, n):
        return ('f', b, n)


_roles = None


def roles(prog):
    r = prog.__dict__.get("_buf_roles")
    if r is None:
        r = prog.__dict__["_buf_roles"] = Roles(prog)
    return r


# --- storage model ----------------------------------------------------------------
def cap(st, dloc):
    k = ('f', dloc, '$n')
    return st.mem.get(k) or ('s', 'u', 'init', k)


def base(st, dloc):
    k = ('f', dloc, '$p')
    return st.mem.get(k) or ('s', 'u', 'init', k)


def is_base(s):
    return s[0] == 's' and (s[2] == 'init' and isinstance(s[3], tuple) and s[3][-1] == '$p' or s[2] == 'store')


def m_size(ex, fr, st, eid, n, ov, av):
    return [(cap(st, ov), st)]


def m_data(ex, fr, st, eid, n, ov, av):
    return [(base(st, ov), st)]


def m_end(ex, fr, st, eid, n, ov, av):
    return [(add(base(st, ov), cap(st, ov)), st)]


def m_empty(ex, fr, st, eid, n, ov, av):
    return [(cmpv('==', cap(st, ov), C(0)), st)]


def m_resize(ex, fr, st, eid, n, ov, av, grow):
    out = []
    keep, new = st.copy(), st
    keep.mon = st.mon
    old = cap(st, ov)
    if keep.assume(cmpv('<=', av[0], old) if grow else cmpv('<=', old, av[0]), True):
        out.append((('s', 'x', 'void'), keep))
    if new.assume(cmpv('<', old, av[0]) if grow else cmpv('<', av[0], old), True):
        new.mem[('f', ov, '$n')] = av[0]
        new.mem[('f', ov, '$p')] = ('s', 'u', 'store', ov, fr.ctx, eid)
        out.append((('s', 'x', 'void'), new))
    return out


def m_grow(ex, fr, st, eid, n, ov, av):
    return m_resize(ex, fr, st, eid, n, ov, av, True)


def m_shrink(ex, fr, st, eid, n, ov, av):
    return m_resize(ex, fr, st, eid, n, ov, av, False)


def exchange(st, a, b):
    if a == b:
        return
    for f in ('$n', '$p'):
        x = cap(st, a) if f == '$n' else base(st, a)
        y = cap(st, b) if f == '$n' else base(st, b)
        st.mem[('f', a, f)], st.mem[('f', b, f)] = y, x


def m_swap(ex, fr, st, eid, n, ov, av):
    o = ex.deref(av[0])
    exchange(st, ov, o)
    return [(('s', 'x', 'void'), st)]


def m_stdswap(ex, fr, st, eid, n, ov, av):
    if len(av) == 2:
        a, b = ex.deref(av[0]), ex.deref(av[1])
        if a[0] == 'f' and b[0] == 'f' and a[2] == b[2] and a[2].startswith(BUF) and a[2] == ex.p.__dict__["_buf_roles"].data:
            exchange(st, a, b)
            return [(('s', 'x', 'void'), st)]
    return None


MODELS = {RA + "::size": m_size, RA + "::GetSize": m_size, RA + "::data": m_data, RA + "::begin": m_data, RA + "::cbegin": m_data,
          RA + "::end": m_end, RA + "::cend": m_end, RA + "::empty": m_empty, RA + "::Grow": m_grow, RA + "::Shrink": m_shrink,
          RA + "::swap": m_swap, "std::swap": m_stdswap, "swap": m_stdswap}


# --- contracts --------------------------------------------------------------------
# name -> what happens to the readable bytes
KEEP, APPEND, PREPEND, CONSUME, PRODUCE, CLEAR, ANYHOW = "keep", "append", "prepend", "consume", "produce", "clear", "anyhow"


def contract(f):
    n = f.name
    if n.startswith("Append"):
        return APPEND
    if n.startswith("Prepend"):
        return PREPEND
    if n in ("AdvanceAll",) or n.startswith("RetrieveAll"):
        return CLEAR
    if n.startswith("AdvanceRead") or n.startswith("Retrieve"):
        return CONSUME
    if n[:4] == "Read" and n[4:].isdigit():
        return CONSUME
    if n == "AdvanceWrite":
        return PRODUCE
    if n in ("ReserveWriteSpace", "Shrink", "ToStringView", "HasReadable") or n.startswith("Get"):
        return KEEP
    if n.startswith("Find") and f.params and "StringView" in f.params[0]["t"]:
        return KEEP
    return ANYHOW


class Indices(Rec):
    FIELDS = (("cs", None), ("ce", None), ("lost", None), ("segs", ()), ("known", False), ("n", None), ("owed", None), ("pend", None))

    def __init__(self, prog, root, col, kind):
        Rec.__init__(self, prog, root, col)
        self.R = roles(prog)
        self.kind = kind
        self.objs = []
        if root.cls == BUF:
            self.objs.append(('p', ('s', 'nn', 'this')))
        for p in root.params:
            if BUF + " &" in p["t"] and "<" not in p["t"]:
                self.objs.append(('p', ('s', 'nn', 'param', p["n"])))
        self.me = self.objs[0] if self.objs else None

    # shorthands
    def r(self, ex, st, b):
        return ex.load(st, ('f', b, self.R.r), "unsigned long")

    def w(self, ex, st, b):
        return ex.load(st, ('f', b, self.R.w), "unsigned long")

    def d(self, b):
        return ('f', b, self.R.data)

    def event(self, ex, st, ev):
        if ev.kind == "root":
            return self.start(ex, st, ev)
        if self.me is None:
            return None
        k = ev.kind
        if k == "call":
            q = ev.q or ""
            if q in COPIES and len(ev.args) == 3:
                return self.copying(ex, st, ev, q)
            if q in ("readv",):
                return None
        elif k == "ret" and ev.q == "readv":
            return self.received(ex, st, ev)
        elif k == "abort" and (self.kind in (APPEND, CLEAR, "receive") or self.root.name in ("ReserveWriteSpace", "ToStringView")):
            self.col.ob("never-refused")
            if not st.absurd():
                self.bad(ex, "never-refused", "an operation that is always allowed may fail an assertion", ev)
        elif k == "ctor" and (ev.q or "").startswith(RA + "::") and ev.loc:
            a = ev.args or ()
            o = ex.deref(a[0]) if a and a[0][0] == 'a' else None
            new = ('s', 'u', 'store', ev.loc, ev.fr.ctx, ev.line)
            g = self.p.funcs.get(ev.fid)
            if not a:
                n, new = C(0), C(0)
            elif o is None:
                n = a[0]
            else:
                n = cap(st, o)
                if g is not None and g.params and g.params[0]["t"].endswith("&&"):
                    new = base(st, o)
                    st.mem[('f', o, '$n')] = st.mem[('f', o, '$p')] = C(0)
            st.mem[('f', ev.loc, '$n')], st.mem[('f', ev.loc, '$p')] = n, new
            self.s(st, pend=(ev.loc, n, new))
        elif k == "ctor":
            self.view(ex, st, ev)
        elif k == "write" and ev.loc and self.g(st, "pend") and self.g(st, "pend")[0] == ev.loc:
            _, st.mem[('f', ev.loc, '$n')], st.mem[('f', ev.loc, '$p')] = self.g(st, "pend")
            self.s(st, pend=None)
        elif k == "write" and ev.loc and ev.loc[0] == 'p':
            o = self.inside(ex, st, ev.loc[1], ev)
            if o is not None:
                self.store(ex, st, ev, o, C(1), ev.val)
        return None

    def start(self, ex, st, ev):
        ctor = self.root.kind == "ctor" or self.root.name == "Buffer"
        out = [st]
        for i, b in enumerate(self.objs):
            if i == 0 and ctor and self.root.cls == BUF:
                continue
            r, w, n = self.r(ex, st, b), self.w(ex, st, b), cap(st, self.d(b))
            for c in (cmpv('<=', r, w), cmpv('<=', w, n), cmpv('<=', C(self.R.prefix), n)):
                if not st.assume(c, True):
                    return []
        if self.me is not None and not ctor:
            self.s(st, cs=self.r(ex, st, self.me), ce=self.w(ex, st, self.me), known=True)
        return None

    # --- bytes
    def inside(self, ex, st, v, ev):
        """offset into the storage of the buffer; reports pointers into a storage that has been replaced"""
        c, d = lin(v)
        for s, k in d.items():
            if k == 1 and is_base(s):
                for b in self.objs:
                    if base(st, self.d(b)) == s:
                        return sub(v, s) if b == self.me else None
                self.bad(ex, "in-storage", "a pointer into a storage that has been replaced since is used", ev)
                return None
        return None

    def bounds(self, ex, st, ev, o, n, what):
        self.col.ob("in-storage")
        if not ge0(st, o):
            self.bad(ex, "in-storage", "%s before the storage: offset %s is not known to be at least 0" % (what, show(o)), ev)
        elif not ge0(st, sub(sub(cap(st, self.d(self.me)), o), n)):
            self.bad(ex, "in-storage", "%s past the storage: offset %s and length %s are not known to stay within %s" %
                     (what, show(o), show(n), show(cap(st, self.d(self.me)))), ev)

    def copying(self, ex, st, ev, q):
        a = [strip(x) for x in ev.args]
        sh = COPIES[q]
        if sh == "dsn":
            dst, src, n = a
        elif sh == "fld":
            src, dst, n = a[0], a[2], sub(a[1], a[0])
        elif sh == "flb":
            n = sub(a[1], a[0])
            src, dst = a[0], sub(a[2], n)
        else:
            src, n, dst = a
        so = self.inside(ex, st, src, ev)
        do = self.inside(ex, st, dst, ev)
        if so is not None:
            self.col.ob("readable-only")
            cs, ce = self.g(st, "cs"), self.g(st, "ce")
            if cs is not None and not (ge0(st, sub(so, cs)) and ge0(st, sub(sub(ce, so), n))):
                self.bad(ex, "readable-only", "reads %s bytes at %s, which are not known to be readable" % (show(n), show(so)), ev)
        if do is None:
            return None
        self.bounds(ex, st, ev, do, n, "writes")
        if so is None:
            self.store(ex, st, ev, do, n, src, checked=True)
            return None
        # a move within the storage
        cs, ce = self.g(st, "cs"), self.g(st, "ce")
        if cs is None:
            return None
        fwd = ge0(st, sub(so, do))                         # towards the front
        apart = ge0(st, sub(sub(so, do), n)) or ge0(st, sub(sub(do, so), n))
        if q in NOALIAS and not apart:
            self.bad(ex, "bytes-kept", "the moved bytes may overlap, which %s does not allow" % q, ev)
        elif sh in ("fld", "fnd") and not fwd and not apart:
            self.bad(ex, "bytes-kept", "the moved bytes may overlap towards the back, which %s does not allow" % q, ev)
        elif sh == "flb" and not ge0(st, sub(do, so)) and not apart:
            self.bad(ex, "bytes-kept", "the moved bytes may overlap towards the front, which %s does not allow" % q, ev)
        if eq(st, so, cs) and eq(st, add(so, n), ce):
            self.s(st, cs=do, ce=add(do, n))
        elif not (ge0(st, sub(do, ce)) or ge0(st, sub(sub(cs, do), n))):
            self.s(st, lost=ev.line)
        return None

    def store(self, ex, st, ev, o, n, src, checked=False):
        if not checked:
            self.bounds(ex, st, ev, o, n, "writes")
        cs, ce = self.g(st, "cs"), self.g(st, "ce")
        if cs is None:
            return
        if eq(st, o, ce):
            self.s(st, ce=add(ce, n), segs=self.g(st, "segs") + (("back", n, src),))
        elif eq(st, add(o, n), cs):
            self.s(st, cs=o, segs=self.g(st, "segs") + (("front", n, src),))
        elif not (ge0(st, sub(o, ce)) or ge0(st, sub(sub(cs, o), n))):
            self.s(st, lost=ev.line)

    def view(self, ex, st, ev):
        """strings, views and vectors made of a piece of the storage"""
        q = ev.q or ""
        if len(ev.args or ()) < 2 or not q.startswith(("std::basic_string", "std::vector", SV)):
            return
        p, m = strip(ev.args[0]), strip(ev.args[1])
        o = self.inside(ex, st, p, ev)
        if o is None:
            return
        n = sub(m, p) if self.inside(ex, st, m, ev) is not None else m
        cs, ce = self.g(st, "cs"), self.g(st, "ce")
        self.col.ob("readable-only")
        if cs is not None and not (ge0(st, sub(o, cs)) and ge0(st, sub(sub(ce, o), n))):
            self.bad(ex, "readable-only", "%s bytes at %s are presented, which are not known to be readable" % (show(n), show(o)), ev)

    def received(self, ex, st, ev):
        """readv() into the free space and into a spill area"""
        vec, cnt = strip(ev.args[1]), ev.args[2]
        vloc = ex.deref(vec)
        res = ev.ret
        out = []
        for two in (False, True):
            s = st.copy()
            s.mon = st.mon
            if not s.assume(cmpv('==', cnt, C(2 if two else 1)), True):
                continue
            ent = []
            for i in range(2 if two else 1):
                l = ('i', vloc, C(i))
                bs = ex.load(s, ('f', l, 'iovec::iov_base'), "void *")
                ln = ex.load(s, ('f', l, 'iovec::iov_len'), "unsigned long")
                ent.append((bs, ln))
            o = self.inside(ex, s, strip(ent[0][0]), ev)
            if o is None:
                self.bad(ex, "in-storage", "the first area given to readv is not the buffer's free space", ev)
                return []
            self.bounds(ex, s, ev, o, ent[0][1], "receives")
            if not eq(s, o, self.g(s, "ce")):
                self.bad(ex, "bytes-kept", "received bytes do not follow the readable ones", ev)
            if two:
                a = ex.deref(strip(ent[1][0]))
                sz = self.array_size(ev.fr, a)
                self.col.ob("in-storage")
                if sz is None or not ge0(s, sub(C(sz), ent[1][1])):
                    self.bad(ex, "in-storage", "the second area given to readv is shorter than its length says", ev)
            # failure
            f = s.copy()
            f.mon = s.mon
            if f.assume(cmpv('<', res, C(0)), True):
                self.s(f, n=C(0))
                out.append(f)
            # all of it fits in front
            g = s.copy()
            g.mon = s.mon
            if g.assume(cmpv('>=', res, C(0)), True) and g.assume(cmpv('<=', res, ent[0][1]), True):
                self.s(g, ce=add(self.g(g, "ce"), res), n=res)
                out.append(g)
            if two:
                h = s.copy()
                h.mon = s.mon
                if h.assume(cmpv('>', res, ent[0][1]), True) and h.assume(cmpv('<=', res, add(ent[0][1], ent[1][1])), True) and \
                        h.assume(cmpv('<=', sub(res, ent[0][1]), ent[1][1]), True):
                    self.s(h, ce=add(self.g(h, "ce"), ent[0][1]), n=res, owed=(strip(ent[1][0]), sub(res, ent[0][1])))
                    out.append(h)
        return out

    def array_size(self, fr, loc):
        while fr is not None and loc[0] == 'v':
            if fr.ctx == loc[1]:
                for x in fr.f.x or []:
                    if x.get("k") == "decl":
                        for v in x["vars"]:
                            if v["v"] == loc[2]:
                                return v.get("alen")
            fr = fr.parent
        return None

    # --- exits
    def finish(self, ex, f, out):
        if self.me is None:
            return
        for ret, st in out:
            for b in self.objs:
                r, w, n = self.r(ex, st, b), self.w(ex, st, b), cap(st, self.d(b))
                self.col.ob("indices")
                if not ge0(st, r) and r[0] != 's':
                    self.bad(ex, "indices", "the read index may be below zero on return: %s" % show(r))
                if not ge0(st, sub(w, r)):
                    self.bad(ex, "indices", "the read index may be above the write index on return: %s, %s" % (show(r), show(w)))
                if not ge0(st, sub(n, C(self.R.prefix))):
                    self.bad(ex, "indices", "the storage may be smaller than the space kept free in front: %s" % show(n))
                if not ge0(st, sub(n, w)):
                    self.bad(ex, "indices", "the write index may be beyond the storage on return: %s of %s" % (show(w), show(n)))
            if self.kind != ANYHOW:
                self.kept(ex, f, ret, st)

    def kept(self, ex, f, ret, st):
        r, w = self.r(ex, st, self.me), self.w(ex, st, self.me)
        cs, ce, segs = self.g(st, "cs"), self.g(st, "ce"), self.g(st, "segs")
        if cs is None:
            return
        self.col.ob("bytes-kept")
        if self.g(st, "lost"):
            self.bad(ex, "bytes-kept", "readable bytes are overwritten or only partly moved (line %s)" % self.g(st, "lost"))
            return
        bad = lambda m: self.bad(ex, "bytes-kept", "%s: the indices are %s and %s, the bytes are at %s to %s" %
                                 (m, show(r), show(w), show(cs), show(ce)))
        k = self.kind
        if k == KEEP:
            if segs or not (eq(st, r, cs) and eq(st, w, ce)) and not (eq(st, r, w) and eq(st, cs, ce)):
                bad("the readable bytes are not the same afterwards")
        elif k in (APPEND, PREPEND):
            want = self.given(ex, st)
            side = "back" if k == APPEND else "front"
            if not (eq(st, r, cs) and eq(st, w, ce)):
                bad("the readable bytes afterwards are not the old ones and the new ones")
            elif want is not None:
                tot = C(0)
                for s, n, src in segs:
                    if s != side or not eq(st, src, add(want[0], tot)):
                        bad("other bytes than the given ones are added, or on the wrong side")
                        return
                    tot = add(tot, n)
                if not eq(st, tot, want[1]):
                    bad("%s bytes are added, %s are given" % (show(tot), show(want[1])))
        elif k == CLEAR:
            if not eq(st, r, w):
                bad("something stays readable")
        elif k == CONSUME:
            n = self.count(ex, st)
            if n is not None and not (eq(st, r, add(cs, n)) and eq(st, w, ce)) and not (eq(st, r, w) and eq(st, sub(ce, cs), n)):
                bad("not exactly the first %s bytes are consumed" % show(n))
        elif k == PRODUCE:
            n = self.count(ex, st)
            if n is not None and not (eq(st, r, cs) and eq(st, w, add(ce, n))):
                bad("not exactly %s bytes become readable" % show(n))
        elif k == "receive":
            n = self.g(st, "n")
            if n is None:
                return
            if not (eq(st, r, cs) and eq(st, w, ce)):
                bad("the readable bytes afterwards are not the old ones and the received ones")
            o = self.g(st, "owed")
            if o is not None:
                tot = C(0)
                for s, m, src in segs:
                    if s != "back" or not eq(st, src, add(o[0], tot)):
                        bad("the bytes received beyond the free space are not appended in order")
                        return
                    tot = add(tot, m)
                if not eq(st, tot, o[1]):
                    bad("%s of the %s bytes received beyond the free space are appended" % (show(tot), show(o[1])))
            elif segs:
                bad("bytes are appended that were not received")

    def pv(self, ex, st, i):
        p = self.root.params[i]
        return ex.param_sym(p)

    def given(self, ex, st):
        ps = self.root.params
        if len(ps) == 2:
            return self.pv(ex, st, 0), self.pv(ex, st, 1)
        return self.g(st, "owed")

    def count(self, ex, st):
        ps = self.root.params
        digits = "".join(c for c in self.root.name if c.isdigit())
        if digits:
            return C(int(digits) // 8)
        if len(ps) == 1:
            return self.pv(ex, st, 0)
        return None


def strip(v):
    """&*p is p"""
    while v[0] == 'a' and v[1][0] == 'p':
        v = v[1][1]
    return v


class Entry(Indices):
    """remembers the view given by value at entry"""

    def start(self, ex, st, ev):
        r = Indices.start(self, ex, st, ev)
        ps = self.root.params
        if len(ps) == 1 and ps[0]["t"].replace("const ", "").strip() == SV and self.me is not None:
            loc = ('v', ev.fr.ctx, ps[0]["v"])
            self.s(st, owed=(ex.load(st, ('f', loc, SV + "::data_"), "const char *"), ex.load(st, ('f', loc, SV + "::len_"), "unsigned long")))
        return r


class Storage(Rec):
    """the array behind the buffer: what it says of its size is what it has allocated"""
    FIELDS = (("got", ()), ("gone", ()))

    def __init__(self, prog, root, col, D, E):
        Rec.__init__(self, prog, root, col)
        self.D, self.E = D, E
        self.T = ('p', ('s', 'nn', 'this'))
        self.others = [('p', ('s', 'nn', 'param', p["n"])) for p in root.params if RA in p["t"] and p["t"].endswith("&")]

    def pair(self, ex, st, b):
        return ex.load(st, ('f', b, self.D), "char *"), ex.load(st, ('f', b, self.E), "char *")

    def event(self, ex, st, ev):
        if ev.kind == "root":
            for b in [self.T] * (not self.ctor()) + self.others:
                d, e = self.pair(ex, st, b)
                if not st.assume(cmpv('<=', d, e), True):
                    return []
        elif ev.kind == "ret" and (ev.q in ("realloc", "malloc", "operator new") or (ev.q or "").startswith("std::") and
                                   ev.q.endswith("::allocate")):
            n = ev.args[-1]
            self.s(st, got=self.g(st, "got") + ((ev.ret, n),))
            if ev.q == "realloc":
                self.let_go(ex, st, ev.args[0])
        elif ev.kind == "call" and ev.q in ("free", "operator delete"):
            self.let_go(ex, st, ev.args[0])
        elif ev.kind == "call" and (ev.q or "").startswith("std::") and ev.q.endswith("::deallocate") and len(ev.args) >= 2:
            self.let_go(ex, st, ev.args[-2])
        elif ev.kind == "call" and ev.q in COPIES and len(ev.args) == 3 and COPIES[ev.q] in ("fld", "dsn"):
            a = ev.args
            dst, n = (a[2], sub(a[1], a[0])) if COPIES[ev.q] == "fld" else (a[0], a[2])
            for p, m in self.areas(ex, st):
                off = sub(dst, p)
                if off == C(0) or p[0] != 'c' and not any(s == p for s in lin(off)[1]) and any(s == p for s in lin(dst)[1]):
                    self.col.ob("storage")
                    if not ge0(st, off) or not ge0(st, sub(sub(m, off), n)):
                        self.bad(ex, "storage", "%s bytes are copied to %s of a block of %s" % (show(n), show(off), show(m)), ev)
        return None

    def areas(self, ex, st):
        out = list(self.g(st, "got"))
        if not self.ctor():
            k = ('s', 'u', 'init', ('f', self.T, self.D))
            out.append((k, sub(('s', 'u', 'init', ('f', self.T, self.E)), k)))
        return out

    def let_go(self, ex, st, p):
        c, d = lin(p)
        if p in self.g(st, "gone") and d:
            self.bad(ex, "storage", "the block %s is given back twice" % show(p))
        if d:
            self.s(st, gone=self.g(st, "gone") + (p,))

    def ctor(self):
        return self.root.name == "ReservedArray"

    def finish(self, ex, f, out):
        for ret, st in out:
            for b in ([] if f.name == "~ReservedArray" else [self.T]) + self.others:
                d, e = self.pair(ex, st, b)
                if f.name == "operator=" and b != self.T:
                    continue
                self.col.ob("storage")
                own = None
                for p, n in self.g(st, "got"):
                    if d == p:
                        own = n
                inits = [tuple(('s', 'u', 'init', ('f', x, y)) for y in (self.D, self.E)) for x in [self.T] * (not self.ctor()) + self.others]
                if own is not None:
                    ok = ge0(st, sub(e, d)) and ge0(st, sub(own, sub(e, d)))
                elif d == C(0) and e == C(0):
                    ok = True
                else:
                    ok = (d, e) in inits and d not in self.g(st, "gone")
                if not ok:
                    self.bad(ex, "storage", "the array says it spans %s to %s, which is not the block it holds" % (show(d), show(e)))
                if b != self.T:
                    continue
                if f.name == "Grow" and not ge0(st, sub(sub(e, d), ex.param_sym(f.params[0]))):
                    self.bad(ex, "storage", "growing may leave less than what was asked for: %s" % show(sub(e, d)))
                if f.name == "Shrink" and not ge0(st, sub(sub(e, d), ex.param_sym(f.params[0]))) and \
                        not (d, e) == inits[0]:
                    self.bad(ex, "storage", "shrinking may leave less than what was asked for: %s" % show(sub(e, d)))


def storage_roles(prog):
    got = []
    for n in ("data", "end"):
        r = None
        for f in prog.byq.get(RA + "::" + n, []):
            if f.has_body:
                for v, _ in Exec(prog, [], abstract=set()).run(f):
                    if v and v[0] == 's' and v[2] == 'init':
                        r = v[3][2]
        if r is None:
            raise Broken("%s::%s is not understood" % (RA, n))
        got.append(r)
    return got


def P27(prog, rep, tier):
    rep.rule("indices", "read index <= write index <= size of the storage when an operation returns, if it held when it was called; unsigned "
             "differences that may wrap are taken as arbitrary")
    rep.rule("in-storage", "every write (and every area given to readv) lies within the storage, through a pointer into the current storage")
    rep.rule("readable-only", "bytes are read, copied out or presented as a view only from between the indices")
    rep.rule("bytes-kept", "growing, compacting and shrinking keep the readable bytes; appending and prepending add exactly the given bytes at "
             "their side; consuming and producing move exactly one index by the given amount")
    rep.rule("never-refused", "appending, receiving, reserving and clearing are allowed in every state and fail no assertion")
    rep.rule("storage", "the array that stores the bytes spans no more than the block it has allocated, gives each block back once, and growing "
             "or shrinking leaves at least what was asked for")
    roles(prog)
    pub = [f for f in prog.funcs.values() if f.cls == BUF and f.has_body and f.kind != "lambda" and f.d.get("access", "public") == "public"
           and not f.d.get("static") and f.name not in ("~Buffer",)]
    rx = [f for f in prog.byq.get("kanon::BufferReadFromFd", []) if f.has_body]
    names = {f.name for f in pub}
    for n in ("Append", "Prepend", "AdvanceRead", "AdvanceWrite", "ReserveWriteSpace", "Shrink", "ToStringView"):
        if n not in names:
            raise Broken("Buffer::%s not found" % n)
    if not rx:
        raise Broken("BufferReadFromFd not found")
    drive(prog, pub + rx, lambda p, f, c: [Entry(p, f, c, "receive" if f in rx else contract(f))], rep,
          opaque=OPQ, abstract=set(), models=MODELS, wraps=True, maxdepth=10)
    D, E = storage_roles(prog)
    st = [f for f in prog.funcs.values() if f.cls == RA and f.has_body and f.d.get("access") == "public" and
          f.name in ("ReservedArray", "~ReservedArray", "Grow", "Shrink", "swap", "operator=")]
    if not {"Grow", "Shrink"} <= {f.name for f in st}:
        raise Broken("the operations of the storage are not found")
    drive(prog, st, lambda p, f, c: [Storage(p, f, c, D, E)], rep, abstract=set(), maxdepth=10)
    rep.need("storage", 8)
    rep.need("indices", 30)
    rep.need("in-storage", 6)
    rep.need("readable-only", 6)
    rep.need("bytes-kept", 25)
