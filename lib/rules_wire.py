"""P26: integers on the wire."""
import re
from absint import *
from program import Broken
from drive import drive
from rules_loop import Rec, field_of_type
from rules_buf import BUF, RA, SV, MODELS, roles, base, eq, sub

CL = "kanon::ChunkList"
CHUNK = "kanon::Chunk"
NAME = re.compile(r"(Append|Prepend|GetReadBegin|Read|AdvanceRead)(8|16|32|64)$")
CONV = re.compile(r"kanon::sock::To(Network|Host)ByteOrder(8|16|32|64)$")
MOVES = ("Append", "Prepend", "AdvanceRead")
OPQ = DEFAULT_OPAQUE - {SV}
SWAPS = {}
for _n, _w in (("__bswap_16", 16), ("__bswap_32", 32), ("__bswap_64", 64), ("__builtin_bswap16", 16), ("__builtin_bswap32", 32),
               ("__builtin_bswap64", 64), ("htons", 16), ("ntohs", 16), ("htonl", 32), ("ntohl", 32), ("std::byteswap", 0)):
    SWAPS[_n] = _w
SAME = ("__uint16_identity", "__uint32_identity", "__uint64_identity")
WIDTH = {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32,
         "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64}


def be(w, v):
    if w == 8:
        return v
    if v[0] == 's' and v[2] == 'be' and v[3] == w:
        return v[4]
    return ('s', 'u', 'be', w, v)


def m_swap(w):
    def m(ex, fr, st, eid, n, ov, av):
        if not w:
            return None
        return [(be(w, av[0]), st)]
    return m


def m_same(ex, fr, st, eid, n, ov, av):
    return [(av[0], st)]


def m_copy(ex, fr, st, eid, n, ov, av):
    """copying into a local variable"""
    if len(av) == 3 and av[0][0] == 'a' and av[0][1][0] == 'v' and av[2][0] == 'c':
        loc = av[0][1]
        src = av[1]
        if src[0] == 'a' and src[1][0] == 'v' and src[1] in st.mem and local_width(fr.f, src[1]) == av[2][1] * 8 == local_width(fr.f, loc):
            st.mem[loc] = st.mem[src[1]]
        else:
            st.mem[loc] = ('s', 'u', 'bytes', src, av[2][1], local_width(fr.f, loc))
        return [(av[0], st)]
    return None


def local_width(f, loc):
    name = loc[2]
    for p in f.params:
        if p["v"] == name:
            return WIDTH.get(plain_type(p["t"]), 0)
    for n in f.x or ():
        if n.get("k") == "decl":
            for v in n["vars"]:
                if v.get("v") == name:
                    return WIDTH.get(plain_type(v.get("t") or ""), 0)
    return 0


def plain_type(t):
    return t.replace("const ", "").replace("volatile ", "").replace("&", "").strip()


WMODELS = dict(MODELS)
for _q, _w in SWAPS.items():
    WMODELS[_q] = m_swap(_w)
for _q in SAME:
    WMODELS[_q] = m_same
for _q in ("memcpy", "memmove", "__builtin_memcpy", "__builtin_memmove"):
    WMODELS[_q] = m_copy


def narrow(f, w):
    """integer conversions that lose bits of a value of this width"""
    for n in f.x or ():
        if n.get("k") == "cast" and n.get("ck") == "IntegralCast" and "cv" not in n:
            to = n.get("u") or n.get("i") or 0
            a = f.x[n["a"]]
            was = a.get("u") or a.get("i") or 0
            if 1 < to < w <= was and "cv" not in a:
                # a promoted operand of the same width comes back unchanged
                yield n
    for p in f.params:
        t = WIDTH.get(plain_type(p["t"]))
        if t and t < w and not p["t"].endswith("*"):
            yield {"l": f.line, "t": p["t"]}


class Conv(Rec):
    """a conversion: exactly one exchange of the bytes of its own width"""

    def event(self, ex, st, ev):
        if ev.kind == "root":
            f = self.root
            self.w = int(CONV.match(f.q).group(2))
            self.arg = ex.param_sym(f.params[0])
            for n in narrow(f, self.w):
                self.bad(ex, "conversion", "a value of %d bits passes through %s" % (self.w, n["t"]))
            if WIDTH.get(f.d.get("ret", "")) not in (self.w, None):
                self.bad(ex, "conversion", "the converted value of %d bits is given back as %s" % (self.w, f.d.get("ret")))

    def finish(self, ex, f, out):
        for v, _ in out:
            self.col.ob("conversion")
            if v != be(self.w, self.arg):
                self.bad(ex, "conversion", "what comes out is %s, which is not the %d bytes of the value in network order" % (
                    show(v), self.w // 8))


class Op(Rec):
    """an operation with a width in its name"""
    FIELDS = (("put", ()), ("adv", ()), ("grow", ()))

    def __init__(self, prog, root, col, gathers):
        super().__init__(prog, root, col)
        self.kind, w = NAME.match(root.name).groups()
        self.w = int(w)
        self.cls = root.cls
        self.gathers = gathers
        self.SVP = field_of_type(prog, SV, lambda f: f["t"].endswith("*"), "pointer")
        self.SVN = field_of_type(prog, SV, lambda f: f["t"] == "unsigned long", "length")

    def area(self, ex, st, args):
        if len(args) == 2:
            return args[0], args[1]
        if len(args) == 1 and args[0][0] == 'a':
            return st.mem.get(('f', args[0][1], self.SVP)), st.mem.get(('f', args[0][1], self.SVN))
        return None, None

    def event(self, ex, st, ev):
        f = self.root
        if ev.kind == "root":
            self.T = ('p', ('s', 'nn', 'this'))
            if self.kind in ("Append", "Prepend"):
                self.arg = ex.param_sym(f.params[0])
                if WIDTH.get(plain_type(f.params[0]["t"])) != self.w:
                    self.bad(ex, "width", "it is given %s instead of %d bits" % (f.params[0]["t"], self.w))
            elif self.kind != "AdvanceRead" and WIDTH.get(plain_type(f.d.get("ret", ""))) != self.w:
                self.bad(ex, "width", "it gives back %s instead of %d bits" % (f.d.get("ret"), self.w))
            for n in narrow(f, self.w):
                self.bad(ex, "width", "the value passes through %s" % n["t"])
            if self.cls == BUF:
                R = roles(self.p)
                self.begin = add(base(st, R.loc(self.T, R.data)), ex.load(st, R.loc(self.T, R.r), "unsigned long"))
                self.R = R
        elif ev.kind == "call" and ev.fc == self.cls and ev.obj == self.T and (ev.q or "").split("::")[-1] in MOVES:
            n = ev.q.split("::")[-1]
            if n == "AdvanceRead":
                self.s(st, adv=self.g(st, "adv") + (ev.args[0],))
            else:
                p, ln = self.area(ex, st, ev.args)
                v = None
                if p is not None and p[0] == 'a':
                    v = st.mem.get(p[1])
                    lw = local_width(ev.fr.f, p[1])
                    if lw and ln is not None and ln != C(lw // 8):
                        v = None
                self.s(st, put=self.g(st, "put") + ((n, v, ln),))
        elif ev.kind == "ret" and ev.q in self.gathers:
            # the bytes at the reading position, copied out
            a = ev.args
            if len(a) == 2 and a[0][0] == 'a' and a[0][1][0] == 'v' and a[1][0] == 'c':
                st.mem[a[0][1]] = ('s', 'u', 'bytes', ('read',), a[1][1], local_width(ev.fr.f, a[0][1]))
        elif ev.kind == "write" and ev.loc and ev.loc[0] == 'f' and (ev.loc[1] == self.T or str(ev.loc).find("'nn', 'this'") >= 0):
            self.s(st, grow=("x",))

    def finish(self, ex, f, out):
        n = C(self.w // 8)
        for v, st in out:
            put, adv = self.g(st, "put"), self.g(st, "adv")
            if self.kind in ("Append", "Prepend"):
                self.col.ob("written")
                want = be(self.w, self.arg)
                if len(put) != 1 or put[0][0] != self.kind:
                    self.bad(ex, "written", "the integer is not written exactly once at this side")
                elif put[0][2] != n:
                    self.bad(ex, "written", "%s bytes are written for an integer of %d" % (show(put[0][2]) if put[0][2] else "?", self.w // 8))
                elif put[0][1] != want:
                    self.bad(ex, "written", "what is written, %s, is not the value in network byte order" % (
                        show(put[0][1]) if put[0][1] else "which is not known"))
                if adv or self.g(st, "grow"):
                    self.bad(ex, "written", "writing an integer also moves the indices")
                continue
            if put:
                self.bad(ex, "read", "reading an integer writes to the buffer")
            self.col.ob("consumed")
            want = () if self.kind == "GetReadBegin" else (n,)
            if adv != want or self.g(st, "grow"):
                self.bad(ex, "consumed", "consumes %s instead of %s bytes" % (
                    " and ".join(show(a) for a in adv) or ("a changed index" if self.g(st, "grow") else "no"),
                    self.w // 8 if want else "no"))
            if self.kind == "AdvanceRead":
                continue
            self.col.ob("read")
            raw = be(self.w, v) if v is not None else None
            if raw is None or raw[0] != 's' or raw[2] != 'bytes':
                self.bad(ex, "read", "what is given back, %s, is not the integer converted from network byte order" % (show(v) if v else "?"))
                continue
            _, _, _, src, k, lw = raw
            if k != self.w // 8 or lw != self.w:
                self.bad(ex, "read", "%s bytes are taken for an integer of %d" % (k, self.w // 8))
            if self.cls == BUF:
                if not eq(st, src, self.begin):
                    self.bad(ex, "read", "the bytes are not taken from where reading starts but from %s" % show(src))
            elif src != ('read',):
                self.bad(ex, "read", "the bytes are taken from one place only, although they may be spread over chunks")


class Gather(Rec):
    """copying the first bytes out of a list of chunks"""
    FIELDS = (("first", True), ("pend", None), ("el", None), ("box", None))

    def event(self, ex, st, ev):
        f = self.root
        if ev.kind == "root":
            self.out, self.n = ex.param_sym(f.params[0]), ex.param_sym(f.params[1])
            self.chunk = set()
        elif ev.kind == "call" and ev.q in ("memcpy", "__builtin_memcpy", "memmove", "__builtin_memmove"):
            self.step(ex, st)
            d, src, n = ev.args
            self.col.ob("gathered")
            if not (src[0] == 's' and src[2] == 'begin'):
                self.bad(ex, "gathered", "copies from %s, which is not where a chunk's readable bytes start" % show(src), ev)
                return
            el = src[3]
            if not st.prove(sub(('s', 'u', 'rsize', el), n)):
                self.bad(ex, "gathered", "may copy %s bytes, more than the chunk has" % show(n), ev)
            # the variables that say where to copy to and how much is left
            mine = [l for l in st.mem if l[0] == 'v' and l[1] == ev.fr.ctx]
            D = [l for l in mine if self.val(st, l) == d]
            N = [l for l in mine if WIDTH.get(self.vtype(ev.fr.f, l)) == 64 and st.prove(sub(self.val(st, l), n))]
            if not D or not N:
                self.bad(ex, "gathered", "it is not known where the bytes go or how many are left", ev)
                return
            if self.g(st, "first"):
                if d != self.out:
                    self.bad(ex, "gathered", "the first bytes go to %s" % show(d), ev)
                if not any(self.val(st, l) == self.n for l in N):
                    self.bad(ex, "gathered", "not all of what is wanted is counted", ev)
                N = [l for l in N if self.val(st, l) == self.n]
            self.s(st, first=False, el=el, pend=(tuple(D), tuple((l, self.val(st, l)) for l in N), d, n))
        elif ev.kind == "call" and (ev.q or "").endswith("::operator++") and self.g(st, "pend"):
            self.step(ex, st, ev)
        elif ev.kind == "return" and ev.fr.f is self.root:
            self.stop(ex, st, ev)

        elif ev.kind == "branch" and ev.fr.f is self.root and self.g(st, "pend"):
            p = self.g(st, "pend")
            if any(self.val(st, l) == sub(v, p[3]) and st.prove(sub(C(0), self.val(st, l))) for l, v in p[1]):
                self.col.ob("gathered")
                self.s(st, pend=None)

    def finish(self, ex, f, out):
        for _, st in out:
            if self.g(st, "pend"):
                self.bad(ex, "gathered", "it may stop although bytes are still wanted")

    def val(self, st, l):
        return st.mem.get(l, ('s', 'x', 'none'))

    def vtype(self, f, l):
        for p in f.params:
            if p["v"] == l[2]:
                return plain_type(p["t"])
        for n in f.x or ():
            if n.get("k") == "decl":
                for v in n["vars"]:
                    if v.get("v") == l[2]:
                        return plain_type(v.get("t") or "")
        return ""

    def step(self, ex, st, ev=None, last=False):
        p = self.g(st, "pend")
        if not p:
            return
        self.s(st, pend=None)
        D, N, d, n = p
        if not any(self.val(st, l) == sub(v, n) for l, v in N):
            self.bad(ex, "gathered", "what is left is not reduced by what was copied", ev)
        if not last and not any(eq(st, self.val(st, l), add(d, n)) for l in D):
            self.bad(ex, "gathered", "the place to copy to is not moved on by what was copied", ev)
        if not last:
            # the next round starts from any place and amount
            for l in set(D) | {l for l, _ in N}:
                st.mem[l] = ex.fresh(st, ev.fr, ev.line, 'u', l[2])

    def stop(self, ex, st, ev):
        p = self.g(st, "pend")
        if p:
            self.step(ex, st, ev, last=True)
            self.col.ob("gathered")
            # leaving early is only right when nothing is left
            if not any(st.prove(sub(C(0), self.val(st, l))) for l, _ in p[1]):
                self.bad(ex, "gathered", "it may stop although bytes are still wanted", ev)


_names = {}


def short(loc):
    """a small name for the place of a chunk"""
    return _names.setdefault(loc, len(_names))


def m_begin(ex, fr, st, eid, n, ov, av):
    return [(('s', 'u', 'begin', short(ov)), st)]


def m_rsize(ex, fr, st, eid, n, ov, av):
    return [(('s', 'u', 'rsize', short(ov)), st)]


def P26(prog, rep, tier):
    rep.rule("conversion", "each conversion between host and network byte order exchanges the bytes of exactly its own width, once")
    rep.rule("width", "an operation's argument or result has the width in its name and does not pass through a narrower type")
    rep.rule("written", "appending and prepending an integer writes exactly its own number of bytes once, and what is written is the value in network order")
    rep.rule("read", "reading and peeking give back the integer converted from exactly its own number of bytes at the reading position, "
             "also if they are spread over chunks")
    rep.rule("consumed", "reading and advancing consume exactly the width, peeking nothing")
    rep.rule("gathered", "copying readable bytes out of a chunk list takes them from the chunks one after the other until none is wanted")
    conv = [f for f in prog.funcs.values() if f.has_body and CONV.match(f.q)]
    if len({f.q for f in conv}) < 6:
        raise Broken("the conversions are not found")
    drive(prog, conv, lambda p, f, c: [Conv(p, f, c)], rep, opaque=OPQ, abstract=set(), models=WMODELS)
    gathers = {}
    for f in prog.funcs.values():
        if f.cls == CL and f.has_body and f.d.get("access") != "public" and len(f.params) == 2 and \
                f.params[0]["t"] in ("void *", "char *", "unsigned char *") and WIDTH.get(f.params[1]["t"]) == 64:
            gathers[f.q] = f
    ops = {}
    for f in prog.funcs.values():
        if f.has_body and f.cls in (BUF, CL) and f.kind != "lambda":
            m = NAME.match(f.name)
            if m:
                ops[f.cls, f.name] = f
    for c in (BUF, CL):
        for k in ("Append", "Prepend", "GetReadBegin", "Read"):
            for w in (8, 16, 32, 64):
                if (c, k + str(w)) not in ops:
                    raise Broken("%s::%s%d not found" % (c, k, w))
    opq = {"%s::%s" % (c, n) for c in (BUF, CL) for n in MOVES} | set(gathers)
    drive(prog, list(ops.values()), lambda p, f, c: [Op(p, f, c, gathers)], rep, opaque=OPQ, abstract=set(), models=WMODELS,
          opaque_fn=opq)
    used = [f for f in gathers.values()]
    if used:
        drive(prog, used, lambda p, f, c: [Gather(p, f, c)], rep, opaque=OPQ, abstract=set(),
              models={CHUNK + "::GetReadBegin": m_begin, CHUNK + "::GetReadableSize": m_rsize}, opaque_fn={CL + "::GetReadableSize"})
        rep.need("gathered", 2)
    rep.need("conversion", 6)
    rep.need("written", 16)
    rep.need("read", 16)
    rep.need("consumed", 16)
