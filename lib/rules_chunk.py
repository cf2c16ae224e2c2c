"""P28: chunked buffers: room in a chunk, order, what is consumed, and which list a chunk is in.

The list that links the chunks (zstl::ForwardList) is taken by its contract: what its operations
give back, take in and drop."""
from absint import *
from program import Broken
from drive import drive
from rules_loop import Rec, THIS

CL = "kanon::ChunkList"
CH = "kanon::Chunk"
FL = "zstl::ForwardList"
OPQ = DEFAULT_OPAQUE - {"kanon::StringView"}
COPY = ("memcpy", "memmove", "__builtin_memcpy", "__builtin_memmove")
TAKE = ("extract_front_node", "extract_after_node")
PUT = ("push_front", "push_back", "insert_after")
DROP = ("drop_node", "drop_node_size")
GONE = ("pop_front", "pop_front_size", "erase_after", "erase_after_size", "clear", "clear_size")


def sub(a, b):
    return add(a, b, -1)


def initial(v):
    """the field whose initial value a symbol is"""
    return v[3] if v[0] == 's' and v[2] == 'init' else None


class Roles:
    """which member of a chunk says where reading starts, writing starts, and where it ends"""

    def __init__(self, prog):
        def value(q):
            r = []
            for f in prog.byq.get(q, []):
                if f.has_body:
                    r += [v for v, _ in Exec(prog, [], opaque=OPQ, abstract=set()).run(f)]
            if not r or any(x != r[0] for x in r) or r[0][0] != 'l':
                raise Broken("%s does not give one simple value" % q)
            return r[0]

        def fields(v):
            d = {}
            for s, k in v[2]:
                loc = initial(s)
                if loc is not None and loc[0] == 'f' and loc[1] == THIS:
                    d[k] = loc[2]
            return d
        a, b = fields(value(CH + "::GetReadableSize")), fields(value(CH + "::GetWritableSize"))
        if set(a) != {1, -1} or set(b) != {1, -1} or a[1] != b[-1]:
            raise Broken("the sizes of a chunk are not differences of its indices")
        self.w, self.r, self.max = a[1], a[-1], b[1]
        base = [v for v in (value(CH + "::GetWriteBegin"),)][0]
        self.off = None
        self.off = base[1]
        fs = prog.records[CL][0]["fields"]
        ls = [f["n"] for f in fs if FL in (f.get("c") or f["t"])]
        if len(ls) != 2:
            raise Broken("a chunked buffer does not have two lists")
        # the used list is the one that is not given chunks back: the list whose front is the first chunk
        self.used = None
        for f in prog.byq.get(CL + "::GetFirstChunk", []):
            if f.has_body:
                for v, _ in Exec(prog, [], opaque=OPQ, abstract=set()).run(f):
                    t = repr(v)
                    hit = [n for n in ls if repr(n) in t]
                    if len(hit) == 1:
                        self.used = hit[0]
        if self.used is None:
            raise Broken("the list of chunks in use is not known")
        self.free = [n for n in ls if n != self.used][0]


_roles = None


def roles(prog):
    global _roles
    if _roles is None:
        _roles = Roles(prog)
    return _roles


def link(prog, n):
    """the member of a list's header that points to its first (next) or last (prev) node"""
    for q in ("zstl::forward_list_detail::Header", "zstl::forward_list_detail::BaseLinkedNode"):
        for f in prog.records.get(q, [{"fields": []}])[0]["fields"]:
            if f["n"].rsplit("::", 1)[-1] == n:
                return f["n"]
    raise Broken("a list has no member %s" % n)


class One(Rec):
    """one operation of a single chunk"""
    FIELDS = (("copied", False), ("src", None))

    def event(self, ex, st, ev):
        R = self.R
        if ev.kind == "root":
            F = {k: ex.load(st, ('f', THIS, n), "unsigned int") for k, n in (("r", R.r), ("w", R.w), ("m", R.max))}
            self.F = F
            out = st
            out.assume(cmpv('<=', F["r"], F["w"]), True)
            out.assume(cmpv('<=', F["w"], F["m"]), True)
            # every chunk has room for a length in front
            out.assume(cmpv('<=', C(8), F["m"]), True)
            self.P = [(p, ex.param_sym(p)) for p in self.root.params]
            for p, v in self.P:
                if "unsigned" in p["t"] or "size" in p["t"]:
                    out.assume(cmpv('<=', C(0), v), True)
        elif ev.kind == "call" and ev.q in COPY:
            d, s, n = ev.args
            buf = add(C(R.off), ('a', THIS))
            to = self.within(st, d)
            self.col.ob("in-chunk")
            m = ex.load(st, ('f', THIS, R.max), "unsigned int")
            if to is None:
                if self.within(st, s) is None:
                    self.bad(ex, "in-chunk", "copies to %s, which is not known to be in the chunk" % show(d), ev)
                return
            if not (st.prove(to) and st.prove(sub(m, add(to, n)))):
                self.bad(ex, "in-chunk", "copies %s bytes to offset %s, which may lie outside the chunk" % (show(n), show(to)), ev)
            ps = [v for p, v in self.P if "*" in p["t"]]
            ns = [v for p, v in self.P if "*" not in p["t"]]
            if len(ps) == 1 and len(ns) == 1:
                self.col.ob("chunk-order")
                if self.g(st, "copied"):
                    self.bad(ex, "chunk-order", "the bytes are copied more than once", ev)
                if s != ps[0] or not (st.prove(sub(n, ns[0])) and st.prove(sub(ns[0], n))):
                    self.bad(ex, "chunk-order", "not exactly the given bytes are copied", ev)
                self.s(st, copied=(to, n))

    def within(self, st, v):
        """offset of an address in this chunk's room"""
        x = sub(v, C(self.R.off))
        if x[0] == 'a' and x[1] == THIS:
            return C(0)
        if x[0] == 'l':
            t = ('s', 'nn', 'this')
            for s, k in x[2]:
                if k == 1 and (s == t or s == ('a', THIS)):
                    return sub(x, s)
        if x == ('s', 'nn', 'this'):
            return C(0)
        return None

    def finish(self, ex, f, out):
        R, F = self.R, self.F
        for ret, st in out:
            r, w, m = (ex.load(st, ('f', THIS, n), "unsigned int") for n in (R.r, R.w, R.max))
            self.col.ob("in-chunk")
            if m != F["m"]:
                self.bad(ex, "in-chunk", "the size of a chunk changes")
            if not (st.prove(sub(w, r)) and st.prove(sub(m, w)) and st.prove(r)):
                self.bad(ex, "in-chunk", "the indices may leave the chunk: reading at %s, writing at %s of %s" % (show(r), show(w), show(m)))
            n = f.q.rsplit("::", 1)[1]
            arg = [v for p, v in self.P if "*" not in p["t"]]
            dr, dw = sub(r, F["r"]), sub(w, F["w"])

            def same(a, b):
                d = sub(a, b)
                return d == C(0) or (st.prove(d) and st.prove(sub(C(0), d)))
            want = {"AdvanceRead": (arg[:1], C(0)), "AdvanceWrite": (C(0), arg[:1]), "Append": (C(0), arg[:1]),
                    "Prepend": ([sub(C(0), a) for a in arg[:1]], C(0)), "AdvanceReadAll": (sub(F["w"], F["r"]), C(0)),
                    "AdvanceWriteAll": (C(0), sub(F["m"], F["w"]))}.get(n)
            self.col.ob("chunk-order")
            if want is not None:
                a, b = (x[0] if isinstance(x, list) and x else x for x in want)
                if a == [] or b == []:
                    continue
                if not same(dr, a) or not same(dw, b):
                    self.bad(ex, "chunk-order", "%s moves reading by %s and writing by %s" % (n, show(dr), show(dw)))
                c = self.g(st, "copied")
                if n in ("Append", "Prepend"):
                    at = F["w"] if n == "Append" else r
                    # copying nothing may be left out
                    if c is False:
                        if not same(arg[0], C(0)):
                            self.bad(ex, "chunk-order", "%s may not copy the bytes" % n)
                    elif not same(c[0], at):
                        self.bad(ex, "chunk-order", "%s puts the bytes at offset %s" % (n, show(c[0])))
            elif n in ("Reset", "SetToHeader"):
                if not same(r, w):
                    self.bad(ex, "chunk-order", "%s leaves readable bytes" % n)
                if n == "SetToHeader" and not same(r, C(8)):
                    self.bad(ex, "chunk-order", "the first chunk does not keep room for a length in front")
                if n == "Reset" and not same(r, C(0)):
                    self.bad(ex, "chunk-order", "a reset chunk is not empty from its start")
            elif f.kind == "fn":
                if not same(dr, C(0)) or not same(dw, C(0)):
                    self.bad(ex, "chunk-order", "%s changes the indices" % n)
            e = {"GetReadableSize": sub(w, r), "GetWritableSize": sub(m, w), "GetMaxSize": m}.get(n)
            if e is not None and ret is not None and not same(ret, e):
                self.bad(ex, "chunk-order", "%s gives %s" % (n, show(ret)))
            e = {"GetReadBegin": r, "GetWriteBegin": w}.get(n)
            if e is not None:
                o = self.within(st, ret)
                if o is None or not same(o, e):
                    self.bad(ex, "chunk-order", "%s gives %s" % (n, show(ret)))


class Lists(Rec):
    """one operation of a chunked buffer"""
    FIELDS = (("out", frozenset()), ("fresh", frozenset()), ("last", None), ("vars", None), ("first", True), ("pend", None), ("done", False),
              ("spl", 0), ("base", None), ("swaps", frozenset()), ("cleared", frozenset()))

    def __init__(self, prog, root, col):
        super().__init__(prog, root, col)
        self.R = roles(prog)
        self.next, self.prev = link(prog, "next"), link(prog, "prev")
        self.count = link(prog, "count")
        hf = [f["n"] for f in prog.records["zstl::forward_list_detail::ForwardListBase"][0]["fields"]]
        if len(hf) != 1:
            raise Broken("a list is not just a header")
        self.hdr = hf[0]
        self.used, self.free = ('f', THIS, self.R.used), ('f', THIS, self.R.free)
        self.name = root.q.rsplit("::", 1)[1]

    def hd(self, L, n):
        return ('f', ('f', L, self.hdr), n)

    def node(self, loc):
        """the node that has a chunk"""
        if loc and loc[0] == 'f' and loc[2].rsplit("::", 1)[-1] == "val" and loc[1][0] == 'p':
            return loc[1][1]
        return None

    def at(self, ex, st, L, n):
        return ex.load(st, self.hd(L, n), "zstl::Node *")

    def invariant(self, ex, st, el):
        R = self.R
        r, w, m = (ex.load(st, ('f', el, n), "unsigned int") for n in (R.r, R.w, R.max))
        if initial(m) is not None and self.size is not None:
            st.assume(cmpv('==', m, C(self.size)), True)
        if all(initial(x) is not None for x in (r, w, m)):
            st.assume(cmpv('<=', r, w), True)
            st.assume(cmpv('<=', w, m), True)
        return r, w, m

    def list_of(self, loc):
        """'used'/'free' and whose"""
        if loc and loc[0] == 'f' and loc[2] in (self.R.used, self.R.free):
            return ("used" if loc[2] == self.R.used else "free"), loc[1]
        return None, None

    def step_event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        if k == "root":
            ex.LIMIT = 64
            self.P = [(p, ex.param_sym(p)) for p in self.root.params]
            return
        if k == "write" and ev.loc and ev.loc[0] == 'f' and ev.loc[2] in (self.R.r, self.R.w, self.R.max):
            if ev.fr.f.cls != CH:
                self.col.ob("owned")
                self.bad(ex, "in-chunk", "the indices of a chunk are changed from outside it", ev)
            return
        if k == "call" and q.startswith(CH + "::") and not q.startswith(CL) and ev.obj:
            self.invariant(ex, st, ev.obj)
            n = q.rsplit("::", 1)[1]
            if n == "Append" and len(ev.args) == 2:
                return self.append(ex, st, ev)
            if n in ("AdvanceRead", "AdvanceReadAll"):
                return self.advance(ex, st, ev, n)
            if n == "Prepend":
                self.col.ob("order")
                if self.node(ev.obj) != self.at(ex, st, self.used, self.next):
                    self.bad(ex, "order", "puts bytes in front of a chunk that is not the first", ev)
        if q.startswith(FL + "::"):
            n = q.rsplit("::", 1)[1]
            w, who = self.list_of(ev.obj)
            if k == "ret" and n in TAKE:
                self.taken(ex, st, ev, w, who)
            elif k == "ret" and n.startswith("create_node"):
                if ev.ret is not None:
                    self.sizes(ex, ev, n)
                    self.s(st, out=self.g(st, "out") | {ev.ret}, fresh=self.g(st, "fresh") | {ev.ret})
            elif k == "call" and n in PUT and ev.args and ev.args[-1][0] in 'sc' + 'l' and self.pointer(ev):
                self.put(ex, st, ev, n, w, who)
            elif k == "call" and n in DROP:
                if not ev.fr.f.q.startswith(FL):
                    self.dropped(ex, st, ev)
            elif k == "call" and n in GONE and not ev.fr.f.q.startswith(FL):
                self.gone(ex, st, ev, n, w, who)
            elif k == "call" and n.startswith("splice"):
                self.splice(ex, st, ev, n, w, who)
            elif k == "call" and n == "swap" and not ev.fr.f.q.startswith(FL):
                self.col.ob("transfer")
                o = ev.args[0]
                w2, who2 = self.list_of(o[1] if o[0] == 'a' else None)
                if w is None or w2 != w:
                    self.bad(ex, "transfer", "exchanges lists of different roles", ev)
                self.s(st, swaps=self.g(st, "swaps") ^ {w})
        if k == "write" and ev.loc and ev.loc[0] == 'v':
            self.moved_on(ex, st, ev)
        if k == "call" and ev.fr.f is self.root and q.rsplit("::", 1)[-1] in ("size", "empty", "begin") and not self.g(st, "out") and self.g(st, "pend") and self.g(st, "pend")[2] is None:
            D, N, d, n = self.g(st, "pend")
            left = [l for l, v in N if self.val(st, l) == sub(v, n)]
            if left and n != C(0):
                self.again(ex, st, ev, [], left)
        if k == "branch" and self.g(st, "vars") and self.g(st, "done") is False and self.nothing_left(st):
            self.s(st, done="all")
        if k == "return" and ev.fr.f is self.root:
            self.stop(ex, st, ev)

    def nothing_left(self, st):
        p, v = self.g(st, "pend"), self.g(st, "vars")
        if p:
            return any(self.val(st, l) == sub(x, p[3]) and st.prove(sub(C(0), self.val(st, l))) for l, x in p[1])
        return any(st.prove(sub(C(0), self.val(st, l))) for l in v[1])

    def moved_on(self, ex, st, ev):
        """a variable is set: if what was done is accounted for, the next round starts from any place and amount"""
        p = self.g(st, "pend")
        if not p:
            return
        D, N, d, n = p
        if ev.loc not in D and not any(ev.loc == l for l, _ in N):
            return
        left = [l for l, v in N if self.val(st, l) == sub(v, n)]
        to = [l for l in D if self.val(st, l) == add(d, n)] if d is not None else []
        if not left or (d is not None and not to) or n == C(0):
            return
        self.again(ex, st, ev, to, left)

    def again(self, ex, st, ev, to, left):
        done = any(st.prove(sub(C(0), self.val(st, l))) for l in left)
        self.s(st, pend=None, vars=(tuple(to), tuple(left)))
        if done:
            self.s(st, done="all")
            return
        for L in (self.used, self.free):
            for x in (self.next, self.prev, self.count):
                st.mem[self.hd(L, x)] = ex.fresh(st, ev.fr, ev.line, 'u', (L[2], x))
        self.s(st, last=None, fresh=frozenset())
        # what is known of single chunks is forgotten: any chunk keeps the invariant
        st.mem = {k: v for k, v in st.mem.items() if not contains(k, lambda y: isinstance(y, tuple) and len(y) > 1 and (y[0] == 'p' or y[0] == 'h') and y != THIS)}
        new = ex.fresh(st, ev.fr, ev.line, 'u', left[0][2])
        self.s(st, base=new)
        for l in left:
            st.mem[l] = new
        if to:
            new = ex.fresh(st, ev.fr, ev.line, 'u', to[0][2])
            for l in to:
                st.mem[l] = new

    def pointer(self, ev):
        a = ev.args[-1]
        return not (a[0] == 'a' and a[1][0] in 'tv')

    dead = False

    def bad(self, ex, rule, msg, ev=None):
        self.dead = True
        super().bad(ex, rule, msg, ev)

    def event(self, ex, st, ev):
        self.dead = False
        r = self.step_event(ex, st, ev)
        # what follows after something wrong is not followed further
        return [] if self.dead else r

    # -- which list a chunk is in
    def taken(self, ex, st, ev, w, who):
        n = ev.ret
        self.col.ob("owned")
        if n is None or n in self.g(st, "out"):
            return
        if w == "used" and who == THIS:
            self.leave(ex, st, ev, n)
        self.s(st, out=self.g(st, "out") | {n})

    def put(self, ex, st, ev, n, w, who):
        x = ev.args[-1]
        self.col.ob("owned")
        out = self.g(st, "out")
        if x not in out:
            self.bad(ex, "owned", "a chunk is put into a list although it is not known to be in no list", ev)
        self.s(st, out=out - {x})
        if w == "free":
            self.col.ob("reuse")
            el = None
            if x not in self.g(st, "fresh"):
                el = ('f', ('p', x), self.valname())
                r, wr, m = self.invariant(ex, st, el)
                if not (st.prove(sub(r, wr)) and st.prove(sub(C(8), wr))):
                    self.bad(ex, "reuse", "a chunk is put aside for reuse without being emptied", ev)
        elif w == "used":
            self.col.ob("order")
            if n != "push_back":
                self.bad(ex, "order", "a chunk is put into the buffer, but not at its end", ev)
            self.s(st, last=x)

    def valname(self):
        for q in self.p.records:
            if q.startswith("zstl") and "Node" in q:
                for f in self.p.records[q][0]["fields"]:
                    if f["n"].endswith("::val"):
                        return f["n"]
        raise Broken("a node has no value")

    def dropped(self, ex, st, ev):
        x = ev.args[0]
        self.col.ob("owned")
        out = self.g(st, "out")
        if x not in out:
            self.bad(ex, "owned", "a chunk is freed although it is not known to be in no list", ev)
        self.s(st, out=out - {x})

    def sizes(self, ex, ev, n):
        a = ev.args
        self.col.ob("owned")
        if a and a[0][0] == 'c':
            self.col.data.append(("size", a[0][1]))
        else:
            self.bad(ex, "owned", "a chunk of unknown size is made", ev)

    def gone(self, ex, st, ev, n, w, who):
        self.col.ob("owned")
        if not n.endswith("_size"):
            self.bad(ex, "owned", "chunks are freed without their size", ev)
        elif ev.args and ev.args[-1][0] == 'c':
            self.col.data.append(("free", ev.args[-1][1]))
        if self.root.kind == "dtor":
            self.s(st, cleared=self.g(st, "cleared") | {w})
        elif w == "used":
            if n.startswith("pop_front"):
                self.leave(ex, st, ev, self.at(ex, st, self.used, self.next))
            else:
                self.bad(ex, "released", "chunks in use are freed", ev)

    def splice(self, ex, st, ev, n, w, who):
        self.col.ob("transfer")
        w2, who2 = None, None
        for a in ev.args:
            if a[0] == 'a':
                x, y = self.list_of(a[1])
                if x:
                    w2, who2 = x, y
        if w != "used" or who != THIS or w2 != "used" or who2 == THIS or who2 is None:
            self.bad(ex, "transfer", "content is moved between the wrong lists", ev)
        # where: behind the last chunk
        pos = ev.args[0]
        v = None
        if pos[0] == 'a':
            for l, x in st.mem.items():
                if l[0] == 'f' and l[1] == pos[1]:
                    v = x
        if v is not None and v != self.at(ex, st, self.used, self.prev):
            self.bad(ex, "transfer", "the content is not put behind the last chunk", ev)
        if self.g(st, "spl"):
            self.bad(ex, "transfer", "the content is moved twice", ev)
        self.s(st, spl=1)

    # -- adding
    def val(self, st, l):
        return st.mem.get(l, ('s', 'x', 'none'))

    def ints(self, st, ev):
        """local variables of the functions of the buffer that are on the way here"""
        fr = ev.fr
        ctx = set()
        while fr is not None:
            if fr.f.cls == CL:
                ctx.add(fr.ctx)
            fr = fr.parent
        return [l for l in st.mem if l[0] == 'v' and l[1] in ctx]

    def append(self, ex, st, ev):
        if ev.fr.f.cls == CH:
            return
        src, n = ev.args
        self.step(ex, st, ev)
        self.col.ob("order")
        nd = self.node(ev.obj)
        if nd is None or nd not in (self.g(st, "last"), self.at(ex, st, self.used, self.prev)):
            self.bad(ex, "order", "bytes are added to a chunk that is not known to be the last", ev)
        r, w, m = self.invariant(ex, st, ev.obj)
        if not st.prove(sub(sub(m, w), n)):
            if any(contains(self.val(st, l), lambda y: isinstance(y, tuple) and len(y) > 5 and y[0] == 's' and y[2] == 'w') for l in self.ints(st, ev)):
                # joined states: how the variables are related is not known any more
                self.col.data.append(("lost", ev.line))
                self.dead = True
                return
            self.bad(ex, "room", "%s bytes are added to a chunk that may not have room for them" % show(n), ev)
        self.col.ob("room")
        mine = self.ints(st, ev)
        D = [l for l in mine if self.val(st, l) == src]
        N = [l for l in mine if self.val(st, l)[0] in 'sl' and st.prove(sub(self.val(st, l), n))]
        v = self.g(st, "vars")
        if v:
            D = [l for l in D if l in v[0]]
            N = [l for l in N if l in v[1]]
        self.s(st, done=False)
        if self.g(st, "first"):
            if len(self.P) == 2:
                if src != self.P[0][1]:
                    self.bad(ex, "order", "the first bytes added are %s" % show(src), ev)
                N = [l for l in N if self.val(st, l) == self.P[1][1]]
        if not D or not N:
            self.bad(ex, "order", "it is not known which bytes are added or how many are left", ev)
            return
        self.s(st, first=False, pend=(tuple(D), tuple((l, self.val(st, l)) for l in N), src, n))

    def step(self, ex, st, ev=None, last=False):
        p = self.g(st, "pend")
        if not p:
            return
        D, N, d, n = p
        left = [l for l, v in N if self.val(st, l) == sub(v, n)]
        to = [l for l in D if self.val(st, l) == add(d, n)] if d is not None else []
        self.s(st, pend=None)
        if not left and not (last and any(st.prove(sub(n, v)) for l, v in N)):
            self.bad(ex, "order" if d is not None else "released", "what is left is not reduced by what was taken", ev)
        if d is not None and not last and not to:
            self.bad(ex, "order", "the bytes added next do not follow those added before", ev)
        if left and not last:
            self.again(ex, st, ev, to, left)

    # -- consuming
    def leave(self, ex, st, ev, n):
        """a chunk leaves the buffer"""
        self.step(ex, st, ev)
        self.col.ob("released")
        el = ('f', ('p', n), self.valname())
        r, w, m = self.invariant(ex, st, el)
        size = sub(w, r)
        N = [l for l in self.ints(st, ev) if self.val(st, l)[0] in 'slc' and st.prove(sub(self.val(st, l), size)) and self.val(st, l) != size]
        if self.g(st, "first"):
            N = [l for l in N if self.P and self.val(st, l) == self.P[0][1]]
        elif self.g(st, "vars"):
            N = [l for l in N if l in self.g(st, "vars")[1]]
        if self.g(st, "done"):
            self.bad(ex, "released", "another chunk leaves the buffer after everything was consumed", ev)
        # what is left may have been reduced before
        base = self.P[0][1] if self.g(st, "first") and self.P else self.g(st, "base")
        early = [l for l in self.ints(st, ev) if base is not None and self.val(st, l) == sub(base, size) and size != C(0)]
        if not N and early and st.prove(sub(base, size)):
            self.s(st, first=False, pend=((), tuple((l, base) for l in early), None, size))
            return
        if not N:
            self.bad(ex, "released", "a chunk leaves the buffer although it may have bytes that are not consumed", ev)
            return
        self.s(st, first=False, pend=((), tuple((l, self.val(st, l)) for l in N), None, size))

    def advance(self, ex, st, ev, n):
        if ev.fr.f.cls == CH:
            return
        self.step(ex, st, ev)
        self.col.ob("released")
        r, w, m = self.invariant(ex, st, ev.obj)
        amount = ev.args[0] if n == "AdvanceRead" else sub(w, r)
        if self.node(ev.obj) != self.at(ex, st, self.used, self.next):
            self.bad(ex, "released", "bytes are consumed from a chunk that is not the first", ev)
        if not st.prove(sub(sub(w, r), amount)):
            self.bad(ex, "released", "more bytes are consumed than the chunk has", ev)
        elif not st.prove(add(sub(sub(w, r), amount), C(1), -1)):
            self.bad(ex, "released", "a chunk all of whose bytes are consumed may stay in the buffer", ev)
        if self.g(st, "done"):
            self.bad(ex, "released", "bytes are consumed twice", ev)
        N = [l for l in self.ints(st, ev) if self.val(st, l) == amount]
        if self.g(st, "first"):
            N = [l for l in N if self.P and amount == self.P[0][1]]
        elif self.g(st, "vars"):
            N = [l for l in N if l in self.g(st, "vars")[1]]
        if not N:
            self.bad(ex, "released", "%s bytes are consumed, not what is left to consume" % show(amount), ev)
        self.s(st, first=False, done="part")

    def stop(self, ex, st, ev):
        p = self.g(st, "pend")
        if self.g(st, "vars") and self.g(st, "done") is False and self.nothing_left(st):
            self.s(st, done="all")
        if p:
            all_ = any(st.prove(sub(p[3], v)) for l, v in p[1])
            self.s(st, pend=None)
            if all_:
                self.s(st, done="all")

    def finish(self, ex, f, out):
        for ret, st in out:
            self.col.ob("owned")
            if self.g(st, "out"):
                self.bad(ex, "owned", "a chunk that was taken out of a list or made is in no list at the end")
            if f.kind == "dtor" and self.g(st, "cleared") != {"used", "free"}:
                self.bad(ex, "owned", "the destructor does not free both lists")
            if self.g(st, "swaps") not in (frozenset(), frozenset({"used", "free"})):
                self.bad(ex, "transfer", "only one of the two lists is exchanged")
            d = self.g(st, "done")
            p = self.g(st, "pend")
            if p and any(st.prove(sub(p[3], v)) for l, v in p[1]):
                d = "all"
            empty = st.decide(cmpv('==', ex.load(st, self.hd(self.used, self.count), "unsigned long"), C(0)))
            if self.name == "AdvanceRead" and d not in ("part", "all") and empty is not True:
                if not (self.P and st.prove(sub(C(0), self.P[0][1]))):
                    self.bad(ex, "released", "it may stop although bytes are still to be consumed")
            if self.name == "Append" and d != "all" and self.P and len(self.P) == 2 and not st.prove(sub(C(0), self.P[1][1])):
                self.bad(ex, "order", "it may stop although bytes are still to be added")
            if self.name == "AppendChunkList" and not self.g(st, "spl"):
                other = ('f', ('p', self.P[0][1]), self.R.used)
                c = ex.load(st, self.hd(other, self.count), "unsigned long")
                if st.decide(cmpv('==', c, C(0))) is not True:
                    self.bad(ex, "transfer", "the content of the other buffer may not be moved")
            if self.name == "swap" and self.g(st, "swaps") != {"used", "free"}:
                self.bad(ex, "transfer", "the lists are not exchanged")


class Total(Lists):
    """what a buffer says it holds: the bytes of each of its chunks"""

    def event(self, ex, st, ev):
        if ev.kind == "root":
            ex.LIMIT = 64
        return None

    def finish(self, ex, f, out):
        for ret, st in out:
            if ret is None or ret[0] not in 'lc' or contains(ret, lambda y: isinstance(y, tuple) and y[:1] == ('s',) and y[1] != 'nn' and (y[2] != 'init' or len(y) != 4)):
                continue
            if ret[0] == 'l' and not all(leaf_of(x) in (self.R.r, self.R.w, self.R.max) for x, _ in ret[2]):
                continue
            total, n, ends = C(0), ex.load(st, self.hd(self.used, self.next), "zstl::Node *"), False
            for i in range(4):
                self.col.ob("total")
                end = self.is_end(ex, st, n)
                if total == ret and end is True:
                    break
                if end is True or i == 3:
                    if i < 3 or total != ret:
                        self.bad(ex, "total", "the size of the content is not the sum of the bytes of all chunks")
                    break
                el = ('f', ('p', n), self.valname())
                r, w = (ex.load(st, ('f', el, x), "unsigned int") for x in (self.R.r, self.R.w))
                total = add(total, sub(w, r))
                n = ex.load(st, ('f', ('p', n), self.next), "zstl::Node *")

    def is_end(self, ex, st, n):
        return st.decide(cmpv('==', n, C(0)))


def leaf_of(x):
    return x[3][2] if len(x) == 4 and x[3][0] == 'f' else None


def P28(prog, rep, tier):
    rep.rule("in-chunk", "a chunk's indices stay ordered and inside it and every copy lands inside it, for each of its operations; nothing else changes them")
    rep.rule("chunk-order", "each operation of a chunk moves exactly its index by its amount and copies exactly the given bytes there")
    rep.rule("order", "bytes are added behind the last chunk's bytes, in order and completely; new chunks come last, a prefix goes before the first")
    rep.rule("room", "no more bytes are added to a chunk than it has room for")
    rep.rule("released", "consuming takes exactly the given amount: a chunk leaves only when all its bytes are consumed, the rest is taken from the first one")
    rep.rule("reuse", "a chunk is emptied before it is put aside for reuse")
    rep.rule("owned", "each chunk that is made or taken out of a list is put into exactly one list or freed, with the size it was made with")
    rep.rule("transfer", "appending a buffer moves its content once behind the last chunk; exchanging exchanges both lists")
    rep.rule("total", "the size of the content is the sum of the bytes of all chunks")
    R = roles(prog)
    One.R = R
    v = [v for v, _ in Exec(prog, [], opaque=OPQ, abstract=set()).run(prog.witness("chunk.inst.cc")["verifw::chunk_default"])]
    if len(v) != 1 or v[0][0] != 'c':
        raise Broken("the size of a chunk is not constant")
    Lists.size = v[0][1]
    fs = [f for f in prog.funcs.values() if f.cls == CH and f.has_body and f.kind == "fn" and f.d.get("access", "public") == "public"]
    drive(prog, fs, lambda p, f, c: [One(p, f, c)], rep, opaque=OPQ, abstract=set())
    fs = [f for f in prog.funcs.values() if f.cls == CL and f.has_body and (f.kind == "dtor" or f.kind == "fn" and f.d.get("access", "public") == "public")
          and f.q.rsplit("::", 1)[1] not in ("Clone", "CopyAssign", "DebugPrint", "operator=")]
    # the operations that work on chunks are analysed once each, others on top of them
    core = {f.id for f in fs if f.q.rsplit("::", 1)[1] in ("Append", "AdvanceRead", "Prepend") and any("*" in p["t"] or p["t"] == "unsigned long" for p in f.params)}
    data = drive(prog, [f for f in fs if f.id in core], lambda p, f, c: [Lists(p, f, c)], rep, opaque=OPQ, abstract=set())
    data += drive(prog, [f for f in fs if f.id not in core], lambda p, f, c: [Lists(p, f, c)], rep, opaque=OPQ, abstract=set(), opaque_fn={f.q for f in fs if f.id in core})
    for x in sorted({x for k, x in data if k == "lost"}):
        print("  not decided: room at line %d, too many states" % x)
    drive(prog, [f for f in fs if f.q == CL + "::GetReadableSize"], lambda p, f, c: [Total(p, f, c)], rep, opaque=OPQ, abstract=set())
    made, freed = {x for k, x in data if k == "size"}, {x for k, x in data if k == "free"}
    if made | freed != {Lists.size}:
        rep.violate("owned", CL, "", "chunks of %d bytes are made with %s bytes and freed as %s bytes" % (Lists.size, sorted(made), sorted(freed)), key="owned|size")
    for r, n in (("in-chunk", 15), ("chunk-order", 15), ("order", 5), ("room", 3), ("released", 2), ("reuse", 2), ("owned", 10), ("transfer", 2)):
        rep.need(r, n)
