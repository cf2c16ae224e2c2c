"""Disjunctive abstract interpreter (trace-partitioned dataflow) over the CFG
facts of program.py.

Abstract state = memory (location -> abstract value), interval facts over
affine forms, live expression temporaries and the state of the monitors
(property automata).  States that agree are merged; loops are iterated to a
fixpoint with widening; repository functions are analysed in their calling
context (inlined), everything else is modelled or havocked.  There is no
solver: feasibility is decided by interval lookups only, so every real path is
kept (an unknown condition keeps both branches)."""
import sys
from program import Broken

sys.setrecursionlimit(20000)

INF = float("inf")

# ---------------------------------------------------------------- values
# ('c', int)                       constant
# ('s', name...)                   opaque symbol
# ('l', c0, ((sym, k), ...))       affine combination
# ('a', loc)                       address of a location
# ('cmp', op, form, c)             truth value: form op c   (op in < <= == !=)
# ('not', v)
# ('lam', lid, ((key, val), ...), thisval)
# ('bind', fid, argvals)
# ('fn', fid)
TRUE, FALSE = ('c', 1), ('c', 0)


def C(n):
    return ('c', int(n))


def lin(v):
    """value -> (const, {sym: coef}) ; None when not numeric"""
    if v[0] == 'c':
        return v[1], {}
    if v[0] == 'l':
        return v[1], dict(v[2])
    if v[0] in ('s', 'a', 'cmp', 'not', 'lam', 'fn', 'bind'):
        return 0, {v: 1}
    return 0, {v: 1}


def mk(c0, d):
    d = {k: n for k, n in d.items() if n}
    if not d:
        return ('c', c0)
    if c0 == 0 and len(d) == 1:
        (k, n), = d.items()
        if n == 1:
            return k
    return ('l', c0, tuple(sorted(d.items(), key=repr)))


def add(a, b, sb=1):
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for k, n in db.items():
        d[k] = d.get(k, 0) + sb * n
    return mk(ca + sb * cb, d)


def scale(a, k):
    c, d = lin(a)
    return mk(c * k, {s: n * k for s, n in d.items()})


def norm(d):
    """form dict -> (key, sign): key has positive leading coefficient"""
    it = sorted(d.items(), key=repr)
    sg = 1 if it[0][1] > 0 else -1
    return tuple((k, n * sg) for k, n in it), sg


_ctx_tab = {}
_ctx_rev = [None]


def intern_ctx(parent, fid, eid):
    k = (parent, fid, eid)
    r = _ctx_tab.get(k)
    if r is None:
        r = len(_ctx_rev)
        _ctx_tab[k] = r
        _ctx_rev.append(k)
    return r


def ctx_eid(ctx):
    return _ctx_rev[ctx][2]


def contains(v, pred):
    if pred(v):
        return True
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple) and contains(x, pred):
                return True
    return False


def subst(v, old, new):
    if v == old:
        return new
    if isinstance(v, tuple):
        ch = False
        out = []
        for x in v:
            if isinstance(x, tuple):
                y = subst(x, old, new)
                if y is not x:
                    ch = True
                out.append(y)
            else:
                out.append(x)
        if ch:
            t = tuple(out)
            if t and t[0] == 'l':
                return mk(t[1], dict(t[2]))
            return t
    return v


def depth(v):
    if not isinstance(v, tuple):
        return 0
    m = 0
    for x in v:
        if isinstance(x, tuple):
            d = depth(x)
            if d > m:
                m = d
    return m + 1


class State:
    __slots__ = ("mem", "facts", "temps", "mon", "fresh", "_key")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.temps = {}
        self.mon = ()
        self.fresh = frozenset()
        self._key = None

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.temps = dict(self.temps)
        s.mon = self.mon
        s.fresh = self.fresh
        return s

    def gkey(self):
        return (frozenset(self.mem.items()), frozenset(self.temps.items()), self.mon)

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()),
                frozenset(self.temps.items()), self.mon)

    # ---- facts
    def interval(self, v):
        """(lo, hi) of a value"""
        c, d = lin(v)
        if not d:
            return c, c
        k, sg = norm(d)
        lo, hi = -INF, INF
        f = self.facts.get(k)
        if f:
            lo, hi = (f[0], f[1]) if sg > 0 else (-f[1], -f[0])
        # sum of single intervals
        slo = shi = 0
        for s, n in d.items():
            f1 = self.facts.get(((s, 1),))
            a, b = (f1[0], f1[1]) if f1 else self.sym_default(s)
            if n > 0:
                slo += n * a
                shi += n * b
            else:
                slo += n * b
                shi += n * a
        lo, hi = max(lo, slo), min(hi, shi)
        return lo + c, hi + c

    @staticmethod
    def sym_default(s):
        if s[0] in ('a', 'lam', 'fn', 'bind'):
            return 1, INF
        if s[0] in ('cmp', 'not'):
            return 0, 1
        if s[0] == 's' and s[1] == 'u':      # unsigned-typed symbol
            return 0, INF
        if s[0] == 's' and s[1] == 'b':
            return 0, 1
        if s[0] == 's' and s[1] == 'nn':     # known non-null pointer
            return 1, INF
        return -INF, INF

    def excluded(self, v):
        c, d = lin(v)
        if not d:
            return frozenset()
        k, sg = norm(d)
        f = self.facts.get(k)
        if not f:
            return frozenset()
        return frozenset(sg * x + c for x in f[2])

    def decide(self, v):
        """truth of a value: True / False / None"""
        if v[0] == 'c':
            return v[1] != 0
        if v[0] == 'not':
            r = self.decide(v[1])
            return None if r is None else not r
        if v[0] == 'cmp':
            return self.decide_cmp(v[1], v[2], v[3])
        if v[0] in ('a', 'lam', 'fn', 'bind'):
            return True
        lo, hi = self.interval(v)
        if lo > 0 or hi < 0:
            return True
        if lo == hi == 0:
            return False
        if 0 in self.excluded(v):
            return True
        return None

    def prove(self, v, depth=3):
        """v >= 0 follows from the facts: v minus at most `depth` facts (each >= 0) is not negative"""
        if self.interval(v)[0] >= 0:
            return True
        c, d = lin(v)
        if not d or depth == 0:
            return False
        cand = []
        for k, f in self.facts.items():
            kd = dict(k)
            if not any(s in d for s in kd):
                continue
            for sg, b in ((1, -f[0]), (-1, f[1])):
                if b >= INF:
                    continue
                # fact: sg*k + b >= 0
                if any(s in d and (d[s] > 0) == (sg * n > 0) for s, n in kd.items()):
                    r = add(v, mk(b, {s: sg * n for s, n in kd.items()}), -1)
                    if len(lin(r)[1]) <= max(4, len(d) + 1):
                        cand.append((len(lin(r)[1]), repr(k), sg, r))
        for _, _, _, r in sorted(cand, key=lambda t: t[:3]):
            if self.prove(r, depth - 1):
                return True
        return False

    def absurd(self):
        """the facts contradict each other: one of them is refuted by the others"""
        for k, f in list(self.facts.items()):
            d = dict(k)
            for sg, b in ((1, -f[0]), (-1, f[1])):
                if b < INF and self.without(k).prove(add(mk(-1, {}), mk(b, {s: sg * n for s, n in d.items()}), -1)):
                    return True
        return False

    def without(self, k):
        s = self.copy()
        s.facts.pop(k, None)
        return s

    def decide_cmp(self, op, form, c):
        v = mk(0, dict(form))
        lo, hi = self.interval(v)
        if op == '<':
            if hi < c: return True
            if lo >= c: return False
        elif op == '<=':
            if hi <= c: return True
            if lo > c: return False
        elif op == '==':
            if lo == hi == c: return True
            if c < lo or c > hi or c in self.excluded(v): return False
        elif op == '!=':
            if lo == hi == c: return False
            if c < lo or c > hi or c in self.excluded(v): return True
        return None

    def assume(self, v, truth):
        """returns False when contradictory (state must be dropped)"""
        d = self.decide(v)
        if d is not None:
            return d == truth
        if contains(v, lambda y: y == TOP):
            return True
        if v[0] == 'not':
            return self.assume(v[1], not truth)
        if v[0] == 'cmp':
            op, form, c = v[1], v[2], v[3]
            if not truth:
                op = {'<': '>=', '<=': '>', '==': '!=', '!=': '=='}[op]
            return self._cons(form, op, c)
        c, dct = lin(v)
        k, sg = norm(dct)
        return self._cons(k, '!=' if truth else '==', -c * sg if True else 0)

    def _cons(self, form, op, c):
        lo0, hi0 = self.interval(mk(0, dict(form)))
        f = self.facts.get(form)
        lo, hi, ex = f if f else (-INF, INF, frozenset())
        lo, hi = max(lo, lo0), min(hi, hi0)
        if op == '<': hi = min(hi, c - 1)
        elif op == '<=': hi = min(hi, c)
        elif op == '>': lo = max(lo, c + 1)
        elif op == '>=': lo = max(lo, c)
        elif op == '==': lo, hi = max(lo, c), min(hi, c)
        elif op == '!=': ex = ex | {c}
        while lo in ex: lo += 1
        while hi in ex: hi -= 1
        if lo > hi:
            return False
        ex = frozenset(x for x in ex if lo < x < hi)
        self.facts[form] = (lo, hi, ex)
        return True

    def uses(self, sym):
        p = lambda x: x == sym
        for k, v in self.mem.items():
            if contains(v, p) or contains(k, p):
                return True
        for k in self.facts:
            if contains(k, p):
                return True
        for v in self.temps.values():
            if contains(v, p):
                return True
        return contains(self.mon, p)

    def rename(self, old, new):
        self.mem = {subst(k, old, new): subst(v, old, new) for k, v in self.mem.items()}
        nf = {}
        for k, v in self.facts.items():
            k2 = subst(k, old, new)
            if k2 is not k:
                d = {}
                for s, n in k2:
                    d[s] = d.get(s, 0) + n
                d = {s: n for s, n in d.items() if n}
                if not d:
                    continue
                k3, sg = norm(d)
                if sg < 0:
                    v = (-v[1], -v[0], frozenset(-x for x in v[2]))
                k2 = k3
            nf[k2] = v
        self.facts = nf
        self.temps = {k: subst(v, old, new) for k, v in self.temps.items()}
        self.mon = subst(self.mon, old, new)


def join_facts(a, b, widen):
    out = {}
    for k, (lo, hi, ex) in a.items():
        g = b.get(k)
        if g is None:
            continue
        lo2, hi2, ex2 = min(lo, g[0]), max(hi, g[1]), None
        e = frozenset(x for x in (ex | g[2]) if (x in ex or x < lo or x > hi) and
                      (x in g[2] or x < g[0] or x > g[1]))
        if 0 > lo2 and 0 < hi2 and (0 in ex or 0 < lo or 0 > hi) and (0 in g[2] or 0 < g[0] or 0 > g[1]):
            e = e | {0}
        if widen:
            if lo2 != lo: lo2 = 0 if lo2 >= 0 else -INF
            if hi2 != hi: hi2 = 0 if hi2 <= 0 else INF
        if lo2 == -INF and hi2 == INF and not e:
            continue
        out[k] = (lo2, hi2, e)
    return out


# ---------------------------------------------------------------- prep
class Prep:
    """per-function static tables"""

    def __init__(self, f):
        self.f = f
        x = f.x
        self.target = {}      # ctor/call expr id -> ('var', v) | ('field', n) | ('new', eid) ...
        self.root = {}
        self.mat = {}

        for i, n in enumerate(x):
            if n.get("k") == "decl":
                for v in n["vars"]:
                    if "x" in v and not v["ref"]:
                        self._tgt(v["x"], ('var', v["v"]))
            elif n.get("k") == "new" and "a" in n:
                self._tgt(n["a"], ('new', i))
        for b in f.blocks.values():
            for e in b["e"]:
                if isinstance(e, dict) and e["k"] == "init" and "x" in e:
                    if "field" in e:
                        t = e["t"]
                        if not t.endswith("&"):
                            self._tgt(e["x"], ('field', e["field"]))
                    elif e.get("deleg") or e.get("base"):
                        self._tgt(e["x"], ('this',))
        # blocks that put the value of `a && b`, `a || b` or `c ? a : b`
        # together from the branches that lead there
        self.joins = {bid for bid, b in f.blocks.items() for e in b["e"] if isinstance(e, int) and
                      (x[e].get("k") == "bin" and x[e].get("op") in ("&&", "||") or x[e].get("k") == "cond")}
        # temp liveness
        order = {}
        self.defblk = {}
        for bid, b in f.blocks.items():
            for e in b["e"]:
                if isinstance(e, int):
                    self.defblk.setdefault(e, set()).add(bid)
        use, defn = {}, {}
        vuse = {}
        allelems = set(self.defblk)
        for bid, b in f.blocks.items():
            d, u, vu = set(), set(), set()

            def ref(e, top=False):
                if e is None or e < 0:
                    return
                e0 = e
                n = x[e]
                if e in allelems and not top:
                    if e not in d:
                        u.add(e)
                    if n.get("k") == "alias":
                        ref(n["a"])
                    return
                vu_add(n)
                for c in kids(n):
                    ref(c)

            def vu_add(n):
                if n.get("k") == "var":
                    vu.add(n["v"])
                elif n.get("k") == "lambda":
                    for c in n["caps"]:
                        if "v" in c:
                            vu.add(c["v"])
            for e in b["e"]:
                if isinstance(e, int):
                    n = x[e]
                    vu_add(n)
                    for c in kids(n):
                        ref(c)
                    d.add(e)
                else:
                    if "x" in e and e["x"] is not None:
                        ref(e["x"])
                    if "v" in e:
                        vu.add(e["v"])
            if "cond" in b:
                ref(b["cond"])
            if "ts" in b and x[b["ts"]].get("k") == "bin":
                pass
            use[bid], defn[bid] = u, d
            vuse[bid] = vu
        livein = {b: set() for b in f.blocks}
        vlive = {b: set() for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for bid, b in f.blocks.items():
                o, vo = set(), set()
                for s in b["s"]:
                    if s is not None:
                        o |= livein[s]
                        vo |= vlive[s]
                n = use[bid] | (o - defn[bid])
                vn = vuse[bid] | vo
                if n != livein[bid] or vn != vlive[bid]:
                    livein[bid], vlive[bid] = n, vn
                    ch = True
        self.liveout = {}
        self.vliveout = {}
        for bid, b in f.blocks.items():
            o, vo = set(), set()
            for s in b["s"]:
                if s is not None:
                    o |= livein[s]
                    vo |= vlive[s]
            self.liveout[bid] = o
            self.vliveout[bid] = vo
        # variables whose address escapes (captured by ref / & / ref binding) are kept
        # loop heads: targets of back edges (DFS)
        self.heads = set()
        color = {}

        def dfs(b):
            stack = [(b, iter([s for s in f.blocks[b]["s"] if s is not None]))]
            color[b] = 1
            while stack:
                n, it = stack[-1]
                for s in it:
                    if color.get(s) == 1:
                        self.heads.add(s)
                    elif s not in color:
                        color[s] = 1
                        stack.append((s, iter([t for t in f.blocks[s]["s"] if t is not None])))
                        break
                else:
                    color[n] = 2
                    stack.pop()
        dfs(f.entry)
        # reverse post order index for the worklist
        self.rpo = {}
        seen, post = set(), []

        def po(b):
            st = [(b, iter([s for s in f.blocks[b]["s"] if s is not None]))]
            seen.add(b)
            while st:
                n, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter([t for t in f.blocks[s]["s"] if t is not None])))
                        break
                else:
                    post.append(n)
                    st.pop()
        po(f.entry)
        for i, b in enumerate(reversed(post)):
            self.rpo[b] = i

    def _tgt(self, e, t):
        x = self.f.x
        while e >= 0 and x[e].get("k") == "alias":
            e = x[e]["a"]
        if e < 0:
            return
        n = x[e]
        k = n.get("k")
        if k == "ctor":
            # elidable copy of a prvalue: construct the target directly
            if n.get("elide") and n["args"]:
                self._tgt(n["args"][0], t)
                a = n["args"][0]
                while a >= 0 and x[a].get("k") == "alias":
                    a = x[a]["a"]
                if x[a].get("k") in ("ctor", "call", "cast", "lambda"):
                    self.target[e] = ('elided', a, t)
                    return
            self.target[e] = t
        elif k in ("call",):
            self.target[e] = t
        elif k == "cast" and n.get("userconv") or k == "cast" and n.get("ck") in ("NoOp", "ConstructorConversion", "UserDefinedConversion"):
            self.target[e] = t
            self._tgt(n["a"], t)
        elif k == "initlist" and len(n["args"]) == 1 and n.get("c") and x[n["args"][0]].get("c") == n.get("c"):
            self._tgt(n["args"][0], t)
        elif k in ("initlist", "lambda", "zero"):
            self.target[e] = t
        elif k == "cond":
            self._tgt(n["a"], t)
            self._tgt(n["r"], t)


def kids(n):
    out = []
    for k in ("a", "r", "b", "o", "cx", "q0", "asz"):
        v = n.get(k)
        if isinstance(v, int) and v >= 0:
            out.append(v)
    for k in ("args", "pargs"):
        for v in n.get(k, ()):
            if v >= 0:
                out.append(v)
    for v in n.get("vars", ()):
        if "x" in v:
            out.append(v["x"])
    for v in n.get("caps", ()):
        if "x" in v:
            out.append(v["x"])
    return out


def prep(f):
    if f._prep is None:
        f._prep = Prep(f)
    return f._prep


# ---------------------------------------------------------------- frames
class Frame:
    __slots__ = ("f", "ctx", "this", "caps", "parent", "site", "depth", "retloc")

    def __init__(self, f, ctx, this, caps, parent, site, depth):
        self.f = f
        self.ctx = ctx
        self.this = this
        self.caps = caps          # captured var -> loc-or-value (lambdas)
        self.parent = parent
        self.site = site
        self.depth = depth

    def stack(self):
        out, fr = [], self
        line = None
        while fr is not None:
            out.append("%s (%s%s)" % (fr.f.q, fr.f.file.split("/repo/")[-1],
                                      ":%d" % line if line else ":%d" % fr.f.line))
            line = fr.site
            fr = fr.parent
        return out


class Event:
    __slots__ = ("kind", "q", "node", "obj", "args", "ret", "loc", "val", "fr", "line", "st",
                 "fid", "fc", "extra", "recv")

    def __init__(self, kind, fr, line, **kw):
        self.kind = kind
        self.fr = fr
        self.line = line
        self.q = self.node = self.obj = self.args = self.ret = self.loc = self.val = None
        self.fid = self.fc = self.extra = self.recv = None
        for k, v in kw.items():
            setattr(self, k, v)

    def where(self):
        return "%s:%d" % (self.fr.f.file.split("/repo/")[-1], self.line)


class Monitor:
    """Override what is needed.  State lives in State.mon[idx] (hashable)."""
    idx = 0
    init = ()

    def event(self, ex, st, ev):
        """called for every event; may return None or a list of states that
        replace st (empty list = stop this path)"""
        return None

    def get(self, st):
        return st.mon[self.idx]

    def set(self, st, v):
        m = list(st.mon)
        m[self.idx] = v
        st.mon = tuple(m)


class Violation:
    def __init__(self, rule, msg, ev=None, fr=None, line=None, key=None):
        self.rule = rule
        self.msg = msg
        fr = fr or (ev.fr if ev else None)
        line = line if line is not None else (ev.line if ev else None)
        self.fn = fr.f.q if fr else ""
        self.where = "%s:%s" % (fr.f.file.split("/repo/")[-1], line) if fr else ""
        self.stack = fr.stack() if fr else []
        self.key = key or "%s|%s" % (rule, self.fn)

    def text(self):
        s = "[%s] %s: in %s: %s" % (self.rule, self.where, self.fn, self.msg)
        if len(self.stack) > 1:
            s += "\n      path: " + " <- ".join(self.stack)
        return s


SCALAR_STD = ("std::",)
DEFAULT_OPAQUE = {
    "kanon::Logger", "kanon::LexicalStream", "kanon::LogFmtStream", "kanon::FmtStream",
    "kanon::detail::FixedBuffer", "kanon::FixedBuffer", "kanon::StringView", "kanon::TimeStamp",
    "kanon::StringArg", "kanon::InetAddr", "kanon::MeasureTime", "kanon::Logger::SourceFile",
}
PRIMITIVE = {"kanon::MutexLock", "kanon::Condition", "kanon::DummyMutexLock"}
UNTRACKED_GLOBALS = {"g:kanon::g_kanon_log", "g:kanon::g_all_log", "g:kanon::Logger::log_level_",
                     "g:kanon::Logger::need_color_"}
TOP = ('s', 'x', 'top')
DEFAULT_OPAQUE_FN = {
    "kanon::strerror_tl", "kanon::CurrentThread::tid", "kanon::CurrentThread::cacheTid",
    "kanon::MakeStringView",
}
NORETURN = {"abort", "exit", "_exit", "__assert_fail", "std::terminate", "__assert_perror_fail", "std::abort", "std::exit"}


def member_dtor(e):
    return isinstance(e, dict) and e["k"] in ("mdtor", "bdtor")


class Exec:
    MAXDEPTH = 14
    LIMIT = 6
    MAXSTEPS = 400000

    def __init__(self, prog, monitors, opaque=None, opaque_fn=None, havoc_cb=True, maxdepth=None,
                 no_inline=None, abstract=None, gen_min=False, tracked=(), models=None, wraps=False):
        self.p = prog
        self.mons = monitors
        for i, m in enumerate(monitors):
            m.idx = i
        self.opaque = DEFAULT_OPAQUE if opaque is None else opaque
        self.opaque_fn = DEFAULT_OPAQUE_FN | (opaque_fn or set())
        self.havoc_cb = havoc_cb
        self.no_inline = no_inline or (lambda f: False)
        self.primitives = False
        self.untracked = UNTRACKED_GLOBALS - set(tracked)
        self.gen_min = gen_min
        self.models = models or {}
        self.wraps = wraps
        self.abstract = {"kanon::Buffer", "kanon::ChunkList"} if abstract is None else abstract
        if maxdepth:
            self.MAXDEPTH = maxdepth
        self.steps = 0
        self.violations = {}
        self.stats = {"functions": set(), "calls": 0, "states": 0, "events": 0}
        self.aborted = 0

    # ---- public
    def run(self, f, args=None, this=None, setup=None):
        """analyse f from an arbitrary initial state; returns exit (ret, state) list"""
        st = State()
        st.mon = tuple(m.init for m in self.mons)
        fr = Frame(f, intern_ctx(0, f.id, -1),
                   this if this is not None else (('p', ('s', 'nn', 'this')) if f.cls and not f.d.get("static") else None),
                   {}, None, None, 0)
        av = []
        for i, p in enumerate(f.params):
            if args and i < len(args) and args[i] is not None:
                av.append(args[i])
            else:
                av.append(self.param_sym(p))
        if setup:
            setup(self, st, fr)
        self.bind_params(st, fr, av)
        sts = self.emit(Event("root", fr, f.line, q=f.q), [st])
        out = []
        for s in sts:
            out += self.exec_body(fr, s)
        return [(r, s) for r, s in out]

    def param_sym(self, p):
        t = p["t"]
        s = ('s', tsort(t), 'param', p["n"])
        if t.endswith("&") or t.endswith("&&"):
            return ('a', ('p', ('s', 'nn', 'param', p["n"])))
        if p["c"] and not t.endswith("*"):
            return ('a', ('p', ('s', 'nn', 'param', p["n"])))
        return s

    def violate(self, v):
        if v.key not in self.violations:
            self.violations[v.key] = v

    def emit(self, ev, sts):
        self.stats["events"] += 1
        for m in self.mons:
            nxt = []
            for s in sts:
                ev.st = s
                r = m.event(self, s, ev)
                if r is None:
                    nxt.append(s)
                else:
                    nxt += r
            sts = nxt
        return sts

    # ---- memory
    def load(self, st, loc, t=""):
        v = st.mem.get(loc)
        if v is not None:
            return v
        # whole-object alias: copied object roots
        s = tsort(t)
        if loc[0] == 'f' and len(loc) == 3 and loc[1][0] in ('v', 't', 'h'):
            pass
        if depth(loc) > 12:
            return ('s', s, 'deep')
        return ('s', s, 'init', loc)

    def store(self, st, loc, v):
        if depth(v) > 18:
            v = ('s', 'x', 'deepv')
        # forget sub-locations of an overwritten object
        if any(k[0] in ('f', 'i') and is_sub(k, loc) for k in st.mem):
            st.mem = {k: x for k, x in st.mem.items() if not (k != loc and is_sub(k, loc))}
        st.mem[loc] = v

    def fresh(self, st, fr, eid, sort='x', tag=''):
        sym = ('s', sort, 'r', fr.ctx, eid, tag)
        if sym in st.fresh:
            if st.uses(sym):
                old = ('s', sort, 'o', fr.ctx, eid, tag)
                # drop what referred to the one-before-last instance
                if st.uses(old):
                    st.rename(old, ('s', sort, 'oo', fr.ctx, eid, tag))
                st.rename(sym, old)
        else:
            st.fresh = st.fresh | {sym}
        return sym

    def copy_obj(self, st, src, dst):
        """copy the memory below src to dst (struct assignment)"""
        if src == dst:
            return
        st.mem = {k: v for k, v in st.mem.items() if not is_sub(k, dst)}
        add_ = {}
        for k, v in st.mem.items():
            if is_sub(k, src):
                add_[rebase(k, src, dst)] = v
        st.mem.update(add_)
        if src not in st.mem:
            # unknown source object: the copy carries the source's identity
            st.mem[('copyof', dst)] = ('a', src)
            st.mem[dst] = self.load(st, src)

    def deref(self, v):
        if v[0] == 'a':
            return v[1]
        return ('p', v)

    # ---- function bodies
    def bind_params(self, st, fr, av):
        for p, v in zip(fr.f.params, av):
            loc = ('v', fr.ctx, p["v"])
            t = p["t"]
            if t.endswith("&"):
                st.mem[loc] = v
            elif p["c"] and not t.endswith("*") and v[0] == 'a':
                self.copy_obj(st, v[1], loc)
            else:
                st.mem[loc] = v

    def exec_body(self, fr, st):
        f = fr.f
        if not f.has_body:
            return [(None, st)]
        self.stats["functions"].add(f.id)
        pr = prep(f)
        import heapq
        work, queued = [], {}
        inn = {}            # block -> {group key -> [state, joins]}
        outs = {}

        def arrive(bid, s):
            tab = inn.setdefault(bid, {}).setdefault(s.mon, {})
            k = s.gkey()
            cur = tab.get(k)
            if cur is None and (None in tab or len(tab) >= (self.LIMIT if bid not in pr.joins else 4 * self.LIMIT)):
                # too many memories for one monitor state: they become one
                mon0 = s.mon
                s = self.collapse(fr, bid, [v[0] for v in tab.values()], s)
                for kk in list(tab):
                    if kk is not None:
                        del tab[kk]
                        queued.pop((bid, mon0, kk), None)
                # renaming may have changed the monitor state
                tab = inn[bid].setdefault(s.mon, {})
                cur = tab.get(None)
                k = None
                if cur is not None and cur[0].gkey() != s.gkey():
                    tab[None] = [s, cur[1] + 1]
                    cur = None
                    push(bid, s, k)
                    return
            if cur is None:
                tab[k] = [s, 0]
            else:
                j = join_facts(cur[0].facts, s.facts, cur[1] > 6)
                if j == cur[0].facts:
                    return
                n = s.copy()
                n.facts = j
                n.fresh = cur[0].fresh | s.fresh
                tab[k] = [n, cur[1] + 1]
            push(bid, s, k)

        def push(bid, s, k):
            if (bid, s.mon, k) not in queued:
                queued[(bid, s.mon, k)] = True
                heapq.heappush(work, (pr.rpo.get(bid, 0), self.tick(), bid, s.mon, k))

        arrive(f.entry, st)
        while work:
            _, _, bid, mon, k = heapq.heappop(work)
            if queued.pop((bid, mon, k), None) is None:
                continue
            s = inn[bid][mon][k][0]
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                raise Broken("analysis budget exhausted in %s" % f.q)
            for nb, ns, ret in self.exec_block(fr, bid, s):
                if nb is None:
                    kk = (ret, ns.gkey())
                    if kk in outs:
                        o = outs[kk][1]
                        ns.facts = join_facts(o.facts, ns.facts, False)
                        ns.fresh = ns.fresh | o.fresh
                    outs[kk] = (ret, ns)
                else:
                    arrive(nb, ns)
        res = []
        for ret, s in outs.values():
            # drop frame-local memory and temps
            s2 = s
            c = fr.ctx
            keep = None
            if ret is not None and ret[0] == 'a' and root_of(ret[1])[:2] in (('v', c), ('t', c)):
                keep = ret[1]
            s2.mem = {k: v for k, v in s2.mem.items()
                      if not ((root_of(k)[0] in ('v', 't') and root_of(k)[1] == c) and
                              not (keep is not None and is_sub(k, keep)))}
            s2.temps = {k: v for k, v in s2.temps.items() if k[0] != c}
            self.gc(s2, ret)
            res.append((ret, s2))
        # merge equal; too many different memories for one monitor state and
        # result are joined
        uniq, cnt = {}, {}
        for ret, s in res:
            k = (ret, s.gkey())
            if k in uniq:
                s.facts = join_facts(uniq[k][1].facts, s.facts, False)
                s.fresh = s.fresh | uniq[k][1].fresh
            uniq[k] = (ret, s)
        grp = {}
        for ret, s in uniq.values():
            grp.setdefault((ret, s.mon), []).append(s)
        out = []
        for (ret, mon), ss in grp.items():
            if len(ss) > self.LIMIT:
                j = self.collapse(fr, f.exit, ss[1:], ss[0])
                out.append((ret, j))
            else:
                out += [(ret, s) for s in ss]
        self.stats["states"] += len(out)
        return out

    def gc(self, st, ret=None):
        """facts about symbols nobody can mention again are dropped"""
        if not st.facts:
            return
        vol = {}
        need = set()
        for form in st.facts:
            r = vsyms(form)
            if r:
                vol[form] = r
                need |= r
        if not need:
            return
        live = set()
        for k, v in st.mem.items():
            live |= vsyms(k)
            live |= vsyms(v)
        for v in st.temps.values():
            live |= vsyms(v)
        live |= vsyms(st.mon)
        if ret is not None:
            live |= vsyms(ret)
        drop = [form for form, r in vol.items() if not r <= live]
        for d in drop:
            st.facts.pop(d, None)

    _tick = 0

    def tick(self):
        self._tick += 1
        return self._tick

    def collapse(self, fr, bid, grp, s):
        """join s with the states of the group (equal monitor state): a memory
        cell on which they differ becomes one unknown symbol per cell and
        program point"""
        s = s.copy()
        if not grp:
            return s
        # an older instance of this point's symbols must not be confused with
        # the new one
        for k, v in list(s.mem.items()):
            for w in vsyms(v):
                if w[2] == 'w' and w[3] == fr.ctx and w[4] == bid and s.mem.get(w[5]) != w:
                    wo = w[:2] + ('w', fr.ctx, (bid, 'old'), w[5])
                    if s.uses(wo):
                        s.mem = {a: b for a, b in s.mem.items()
                                 if not contains(a, lambda y: y == wo)}
                        for a, b in list(s.mem.items()):
                            if contains(b, lambda y: y == wo):
                                s.mem[a] = ('s', 'x', 'w', fr.ctx, (bid, 'lost'), a)
                    s.rename(w, wo)
        facts = s.facts
        for g in grp:
            facts = join_facts(facts, g.facts, True)
            s.fresh = s.fresh | g.fresh
        keys = set(s.mem)
        for g in grp:
            keys |= set(g.mem)
        s0, hull = dict(s.mem), {}
        for k in keys:
            v = s.mem.get(k)
            if any(g.mem.get(k) != v for g in grp):
                if k[0] == 'copyof':
                    s.mem.pop(k, None)
                    continue
                sort = 'x'
                ws = ('w', fr.ctx, bid, k)
                sort = 'u'
                for st in grp + [s]:
                    x = st.mem.get(k)
                    if x is None:
                        x = st.mem.get(k, ('s', 'x', 'unk'))
                    if x[0] == 's' and x[2:] == ws:
                        if x[1] != 'u':
                            sort = 'x'
                        continue
                    if st.interval(x)[0] < 0:
                        sort = 'x'
                lo, hi = INF, -INF
                for st in grp + [s]:
                    x = s0.get(k) if st is s else st.mem.get(k)
                    if x is None:
                        # not looked at so far: its first value
                        x = next((y[0][0] for y in st.facts if len(y) == 1 and y[0][1] == 1 and y[0][0][2:] == ('init', k)), None)
                    iv = st.interval(x) if x is not None else (-INF, INF)
                    lo, hi = min(lo, iv[0]), max(hi, iv[1])
                s.mem[k] = ('s', sort) + ws
                if 0 <= lo <= 1 or 0 <= hi <= 1:
                    hull[s.mem[k]] = (lo if 0 <= lo <= 1 else -INF, hi if 0 <= hi <= 1 else INF)
        s.temps = {k: v for k, v in s.temps.items() if all(g.temps.get(k) == v for g in grp)}
        s.facts = facts
        for w, (lo, hi) in hull.items():
            # what every joined state knows of the cell holds for its new name
            s.facts.pop(((w, 1),), None)
            if lo > -INF:
                s._cons(((w, 1),), '>=', lo)
            if hi < INF:
                s._cons(((w, 1),), '<=', hi)
        self.gc(s)
        return s

    def exec_block(self, fr, bid, st):
        """-> list of (next block | None, state, ret)"""
        f = fr.f
        b = f.blocks[bid]
        sts = [st.copy()]
        ret = None
        out = []
        rets = {id(s): None for s in sts}
        for e in b["e"]:
            nxt = []
            for s in sts:
                r = self.exec_elem(fr, s, e)
                nxt += r
            sts = nxt
            if not sts:
                return []
        if f.kind == "dtor" and f.exit in b["s"] and bid != f.exit and not any(member_dtor(e) for e in b["e"]):
            # clang's graph leaves the destruction of members out of an early return
            for e in [e for x in sorted(f.blocks, reverse=True) for e in f.blocks[x]["e"] if member_dtor(e)]:
                sts = [s2 for s in sts for s2 in self.exec_elem(fr, s, e)]
        if b.get("noret"):
            self.aborted += len(sts)
            self.emit(Event("abort", fr, 0), sts)
            return []
        pr = prep(f)
        res = []
        if bid == f.exit:
            for s in sts:
                rv = s.temps.get((fr.ctx, 'ret'))
                s = s.copy()
                s.temps.pop((fr.ctx, 'ret'), None)
                res.append((None, s, rv))
            return res
        succ = b["s"]
        live = pr.liveout[bid]
        vlive = pr.vliveout[bid]
        tk = b.get("tk")
        for s in sts:
            if tk and len(succ) >= 2 and not b.get("tmpbr") and "cond" in b and tk != "SwitchStmt":
                cv = self.truth(fr, s, b["cond"])
                for cvv, s1 in cv:
                    for i, tr in ((0, True), (1, False)):
                        if succ[i] is None:
                            continue
                        s2 = s1.copy()
                        if not s2.assume(cvv, tr):
                            continue
                        if b["cond"] in live:
                            s2.temps[(fr.ctx, b["cond"])] = TRUE if tr else FALSE
                        ss = [s2]
                        ss = self.emit(Event("branch", fr, b.get("tl", 0), val=cvv, extra=tr,
                                             node=b["cond"]), ss)
                        for s3 in ss:
                            res.append((succ[i], self.trim(fr, s3, live, vlive), None))
            elif tk == "SwitchStmt" and "cond" in b:
                for cvv, s1 in self.evals(fr, s, b["cond"]):
                    cases = []
                    for i, sb in enumerate(succ):
                        if sb is None:
                            continue
                        cb = f.blocks[sb]
                        if "case" in cb and cb["case"]:
                            cases.append(cb["case"][0])
                            s2 = s1.copy()
                            cn = cmpv('==', cvv, C(cb["case"][0]))
                            if s2.assume(cn, True):
                                for s3 in self.emit(Event("branch", fr, b.get("tl", 0), val=cn, extra=True, node=b["cond"]), [s2]):
                                    res.append((sb, self.trim(fr, s3, live, vlive), None))
                    for i, sb in enumerate(succ):
                        if sb is None:
                            continue
                        cb = f.blocks[sb]
                        if not ("case" in cb and cb["case"]):
                            s2 = s1.copy()
                            ok = True
                            for c in cases:
                                if not s2.assume(cmpv('==', cvv, C(c)), False):
                                    ok = False
                                    break
                            if ok:
                                ss = [s2]
                                if cases:
                                    ss = self.emit(Event("branch", fr, b.get("tl", 0), val=cmpv('==', cvv, C(cases[-1])), extra=False,
                                                         node=b["cond"]), ss)
                                for s3 in ss:
                                    res.append((sb, self.trim(fr, s3, live, vlive), None))
            else:
                for sb in succ:
                    if sb is not None:
                        res.append((sb, self.trim(fr, s.copy(), live, vlive), None))
        return res

    def trim(self, fr, s, live, vlive):
        c = fr.ctx
        s.temps = {k: v for k, v in s.temps.items() if k[0] != c or k[1] in live or k[1] == 'ret'}
        # dead locals (never address-taken by something still in memory)
        cand = []
        for k in s.mem:
            r = root_of(k)
            if r[0] in ('v', 't') and r[1] == c and (r[0] == 't' or r[2] not in vlive):
                cand.append((k, r))
        if cand:
            refd = set()
            for v in s.mem.values():
                refd |= vroots(v)
            for v in s.temps.values():
                refd |= vroots(v)
            refd |= vroots(s.mon)
            for k, r in cand:
                if r not in refd:
                    del s.mem[k]
        self.gc(s)
        return s

    # ---- elements
    def exec_elem(self, fr, st, e):
        if isinstance(e, int):
            n = fr.f.x[e]
            if n.get("k") == "alias":
                return [st]
            r = self.evaluate(fr, st, e, n)
            out = []
            for v, s in r:
                if v is not None:
                    s.temps[(fr.ctx, e)] = v
                out.append(s)
            return out
        k = e["k"]
        if k == "init":
            return self.do_init(fr, st, e)
        if k == "dtor":
            loc = ('v', fr.ctx, e["v"])
            ln = e.get("l", 0)
            if e["t"].endswith("&") or not e.get("q"):
                # reference to lifetime-extended temporary
                return self.emit(Event("dtor", fr, ln, loc=loc, fc=e.get("c"), q=e.get("q")), [st])
            return self.run_dtor(fr, st, loc, e, ln)
        if k == "tdtor":
            loc = None
            x = e["x"]
            while x >= 0 and fr.f.x[x].get("k") == "alias":
                x = fr.f.x[x]["a"]
            v = st.temps.get((fr.ctx, x))
            if v is None or v[0] != 'a':
                v = ('a', ('t', fr.ctx, x))
            return self.run_dtor(fr, st, v[1], e, fr.f.x[x].get("l", 0))
        if k in ("mdtor", "bdtor"):
            loc = ('f', fr.this, e["field"]) if k == "mdtor" else fr.this
            return self.run_dtor(fr, st, loc, e, fr.f.line)
        return [st]

    def run_dtor(self, fr, st, loc, e, line):
        sts = self.emit(Event("dtor", fr, line, loc=loc, fc=e.get("c"), q=e.get("q")), [st])
        d = self.p.funcs.get(e.get("f"))
        if d is None or not self.can_inline(fr, d):
            return sts
        out = []
        for s in sts:
            for r, s2 in self.call_fn(fr, s, d, loc, [], -2 - (line or 0), line):
                out.append(s2)
        return out

    def do_init(self, fr, st, e):
        out = []
        if e.get("deleg") or e.get("base"):
            r = self.evals(fr, st, e["x"])
            return [s for v, s in r]
        loc = ('f', fr.this, e["field"])
        for v, s in self.evals(fr, st, e["x"]):
            t = e["t"]
            x = e["x"]
            while fr.f.x[x].get("k") == "alias":
                x = fr.f.x[x]["a"]
            if t.endswith("&"):
                s.mem[loc] = v if v is not None else ('s', 'x', 'refinit', loc)
            elif v is None:
                pass
            elif v[0] == 'a' and fr.f.x[x].get("c") and not t.endswith("*"):
                if v[1] != loc:
                    self.copy_obj(s, v[1], loc)
            else:
                self.store(s, loc, v)
            val = s.mem.get(loc)
            out += self.emit(Event("write", fr, fr.f.x[x].get("l", fr.f.line), loc=loc, val=val,
                                   extra="init"), [s])
        return out

    # ---- expressions
    def evals(self, fr, st, eid):
        """value(s) of an expression (already computed temp or on demand)"""
        x = fr.f.x
        while eid >= 0 and x[eid].get("k") == "alias":
            v = st.temps.get((fr.ctx, eid))
            if v is not None:
                return [(v, st)]
            eid = x[eid]["a"]
        if eid < 0:
            return [(('s', 'x', 'noexpr'), st)]
        v = st.temps.get((fr.ctx, eid))
        if v is not None:
            return [(v, st)]
        r = self.evaluate(fr, st, eid, x[eid])
        out = []
        for v, s in r:
            if v is None:
                v = ('s', 'x', 'void')
            s.temps[(fr.ctx, eid)] = v
            out.append((v, s))
        return out

    def val1(self, fr, st, eid):
        """single value (operands that are already evaluated)"""
        return self.evals(fr, st, eid)

    def truth(self, fr, st, eid):
        return self.evals(fr, st, eid)

    def multi(self, fr, st, eids):
        res = [((), st)]
        for e in eids:
            nxt = []
            for vs, s in res:
                for v, s2 in self.evals(fr, s, e):
                    nxt.append((vs + (v,), s2))
            res = nxt
        return res

    def node(self, fr, eid):
        x = fr.f.x
        while eid >= 0 and x[eid].get("k") == "alias":
            eid = x[eid]["a"]
        return x[eid], eid

    def evaluate(self, fr, st, eid, n):
        k = n.get("k")
        if "cv" in n and k not in ("call",):
            cv = n["cv"]
            return [(C(cv & ((1 << n["u"]) - 1) if cv < 0 and "u" in n else cv), st)]
        m = getattr(self, "x_" + k, None)
        if m is None:
            return [(('s', tsort(n.get("t", "")), 'opaque', fr.f.id, eid), st)]
        return m(fr, st, eid, n)

    def x_int(self, fr, st, eid, n):
        return [(C(n.get("cv", 0)), st)]

    def x_null(self, fr, st, eid, n):
        return [(C(0), st)]

    def x_float(self, fr, st, eid, n):
        return [(('s', 'x', 'float', n["s"]), st)]

    def x_str(self, fr, st, eid, n):
        return [(('a', ('str', n.get("s", ""))), st)]

    def x_zero(self, fr, st, eid, n):
        if n.get("c") and not n["t"].endswith("*"):
            return [(('a', ('t', fr.ctx, eid)), st)]
        return [(C(0), st)]

    def x_enum(self, fr, st, eid, n):
        return [(C(self.p.enumval.get(n["n"], 0)) if n["n"] in self.p.enumval else ('s', 'x', 'enum', n["n"]), st)]

    def x_fref(self, fr, st, eid, n):
        return [(('fn', n["f"]), st)]

    def x_mref(self, fr, st, eid, n):
        return [(('fn', n["f"]), st)]

    def var_loc(self, fr, v):
        fr2 = fr
        if v in fr.caps:
            return fr.caps[v]
        if v.startswith("g:") or v.startswith("sl:"):
            return ('g', v)
        return ('v', fr.ctx, v)

    def x_var(self, fr, st, eid, n):
        c = fr.caps.get(n["v"]) if fr.caps else None
        if c is not None:
            return [(c, st)]
        loc = self.var_loc(fr, n["v"])
        if n.get("dt", "").endswith("&"):
            return [(self.load(st, loc), st)] if loc in st.mem else [(('a', ('p', ('s', 'nn', 'init', loc))), st)]
        return [(('a', loc), st)]

    def x_this(self, fr, st, eid, n):
        t = fr.this
        if t is None:
            return [(('s', 'nn', 'this'), st)]
        if t[0] == 'p':
            return [(t[1], st)]
        return [(('a', t), st)]

    def obj_loc(self, fr, st, v, arrow):
        return self.deref(v) if arrow or v[0] != 'a' else v[1]

    def x_field(self, fr, st, eid, n):
        out = []
        for bv, s in self.evals(fr, st, n["b"]):
            base = self.deref(bv)
            loc = ('f', base, n["n"])
            evs = self.emit(Event("deref", fr, n["l"], val=bv, loc=loc), [s]) if n["arrow"] and bv[0] != 'a' else [s]
            for s2 in evs:
                if n.get("dt", "").endswith("&"):
                    v = s2.mem.get(loc)
                    if v is None:
                        v = ('a', ('p', ('s', 'nn', 'init', loc)))
                    out.append((v, s2))
                else:
                    out.append((('a', loc), s2))
        return out

    def x_index(self, fr, st, eid, n):
        out = []
        for (av, iv), s in self.multi(fr, st, [n["a"], n["r"]]):
            base = self.deref(av)
            for s2 in self.emit(Event("index", fr, n["l"], loc=base, val=iv, node=n), [s]):
                out.append((('a', ('i', base, iv)), s2))
        return out

    def x_cast(self, fr, st, eid, n):
        ck = n["ck"]
        out = []
        for v, s in self.evals(fr, st, n["a"]):
            if ck == "LValueToRValue":
                loc = self.deref(v)
                if loc[0] == 'g' and loc[1] in self.untracked:
                    out.append((TOP, s))
                    continue
                cls = n.get("c")
                if cls and not n["t"].endswith("*") and cls not in self.p.enums and not cls.startswith("std::") \
                        and cls in self.p.records:
                    out.append((v, s))
                    continue
                ss = self.emit(Event("read", fr, n["l"], loc=loc, node=n), [s])
                for s2 in ss:
                    out.append((self.load(s2, loc, n["t"]), s2))
            elif ck in ("ArrayToPointerDecay", "FunctionToPointerDecay", "BuiltinFnToFnPtr"):
                if ck == "ArrayToPointerDecay" and v[0] == 'a':
                    out.append((v, s))
                else:
                    out.append((v, s))
            elif ck in ("IntegralToBoolean", "PointerToBoolean", "MemberPointerToBoolean"):
                out.append((truthv(v), s))
            elif ck == "IntegralCast":
                out += self.intcast(fr, s, eid, v, n)
            elif ck == "ToVoid":
                out.append((('s', 'x', 'void'), s))
            elif ck == "NullToPointer":
                out.append((C(0), s))
            elif ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "BitCast", "NoOp",
                        "ConstructorConversion", "UserDefinedConversion", "Dynamic", "LValueBitCast",
                        "NonAtomicToAtomic", "AtomicToNonAtomic", "PointerToIntegral", "IntegralToPointer"):
                out.append((v, s))
            else:
                out.append((('s', tsort(n["t"]), 'conv', ck, v), s))
        return out

    def intcast(self, fr, s, eid, v, n):
        if "u" in n and n["t"] != "bool":
            w = n["u"]
            if v[0] == 'c':
                return [(C(v[1] & ((1 << w) - 1)), s)]
            lo, hi = s.interval(v)
            sub, _ = self.node(fr, n["a"])
            if lo >= 0 or "u" in sub:
                return [(v, s)]
            s1, s2 = s.copy(), s
            out = []
            c, d = lin(v)
            if s1.assume(cmpv('<', v, C(0)), False):
                out.append((v, s1))
            if s2.assume(cmpv('<', v, C(0)), True):
                sym = ('s', 'u', 'neg2u', v)
                s2._cons(((sym, 1),), '>=', 1 << 31)
                out.append((sym, s2))
            return out
        if "i" in n and v[0] == 'c':
            w = n["i"]
            x = v[1] & ((1 << w) - 1)
            if x >= 1 << (w - 1):
                x -= 1 << w
            return [(C(x), s)]
        return [(v, s)]

    def x_un(self, fr, st, eid, n):
        op = n["op"]
        out = []
        for v, s in self.evals(fr, st, n["a"]):
            if op == "!":
                out.append((notv(v), s))
            elif op == "&":
                out.append((v, s))
            elif op == "*":
                loc = self.deref(v)
                for s2 in self.emit(Event("deref", fr, n["l"], val=v, loc=loc), [s]):
                    out.append((('a', loc), s2))
            elif op == "-":
                out.append((scale(v, -1), s))
            elif op in ("++", "--", "++post", "--post"):
                loc = self.deref(v)
                ss = self.emit(Event("read", fr, n["l"], loc=loc, node=n), [s])
                for s2 in ss:
                    old = self.load(s2, loc, n["t"])
                    new = add(old, C(1), 1 if op.startswith("++") else -1)
                    self.store(s2, loc, new)
                    for s3 in self.emit(Event("write", fr, n["l"], loc=loc, val=new, extra=op), [s2]):
                        if op.endswith("post"):
                            out.append((old, s3))
                        else:
                            out.append((v if n.get("lv") else new, s3))
            elif op == "~":
                out.append((('s', tsort(n["t"]), 'op', '~', v), s))
            elif op == "+" or op == "__extension__":
                out.append((v, s))
            else:
                out.append((('s', 'x', 'un', op, v), s))
        return out

    def nonneg(self, s, v):
        return s.prove(v)

    def binop(self, fr, s, eid, n, op, a, b):
        if op in ("+", "-"):
            # pointer arithmetic on an address: keep affine form over the address symbol
            r = add(a, b, 1 if op == "+" else -1)
            if self.wraps and op == "-" and tsort(n.get("t", "")) == 'u' and not n.get("t", "").endswith("*") and \
                    not self.nonneg(s, r):
                # an unsigned difference that may be below zero: any value
                return ('s', 'u', 'wrap', fr.ctx, eid, r)
            if self.wraps == "sum" and op == "+" and n.get("u") == 32 and r[0] == 'l' and not s.prove(add(C((1 << 32) - 1), r, -1)):
                # an unsigned sum that may not fit its type: any value
                return ('s', 'u', 'wrap', fr.ctx, eid, r)
            return r
        if op == "*":
            if a[0] == 'c': return scale(b, a[1])
            if b[0] == 'c': return scale(a, b[1])
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return cmpv(op, a, b)
        if op in ("/", "%") and (a[0] != 'c' or b[0] != 'c'):
            ia, ib = s.interval(a), s.interval(b)
            if ia[0] == ia[1] and ib[0] == ib[1] and abs(ia[0]) < INF and abs(ib[0]) < INF and n.get("t", "") not in ("double", "float"):
                a, b = C(int(ia[0])), C(int(ib[0]))
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            try:
                if op == "/": return C(int(x / y) if y else 0)
                if op == "%": return C(x - y * int(x / y) if y else 0)
                if op == "&": return C(x & y)
                if op == "|": return C(x | y)
                if op == "^": return C(x ^ y)
                if op == "<<": return C(x << y)
                if op == ">>": return C(x >> y)
            except Exception:
                pass
        if op == "&" and (a == C(0) or b == C(0)):
            return C(0)
        srt = tsort(n.get("t", ""))
        if op in ("/", ">>", "%") and s.interval(a)[0] >= 0:
            srt = 'u'
        if op in ("&",) and ((b[0] == 'c' and b[1] >= 0) or (a[0] == 'c' and a[1] >= 0)):
            srt = 'u'
        sym = ('s', srt, 'op', op, a, b)
        if op == "%" and b[0] == 'c' and s.interval(a)[0] >= 0:
            s._cons(((sym, 1),), '<=', b[1] - 1)
        if op == "&" and b[0] == 'c' and b[1] >= 0:
            s._cons(((sym, 1),), '<=', b[1])
        return sym

    def x_bin(self, fr, st, eid, n):
        op = n["op"]
        out = []
        if op in ("&&", "||"):
            # CFG has evaluated the operands on the way here; their truth was assumed
            for a, s in self.evals(fr, st, n["a"]):
                d = s.decide(a)
                if op == "&&" and d is False:
                    out.append((FALSE, s)); continue
                if op == "||" and d is True:
                    out.append((TRUE, s)); continue
                for b, s2 in self.evals(fr, s, n["r"]):
                    out.append((truthv(b), s2))
            return out
        if op == ",":
            for (a, b), s in self.multi(fr, st, [n["a"], n["r"]]):
                out.append((b, s))
            return out
        if op == "=":
            for (b, a), s in self.multi(fr, st, [n["r"], n["a"]]):
                out += self.assign(fr, s, n, a, b)
            return out
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            for (b, a), s in self.multi(fr, st, [n["r"], n["a"]]):
                loc = self.deref(a)
                for s2 in self.emit(Event("read", fr, n["l"], loc=loc, node=n), [s]):
                    old = self.load(s2, loc, n["t"])
                    new = self.binop(fr, s2, eid, n, op[:-1], old, b)
                    out += self.assign(fr, s2, n, a, new)
            return out
        for (a, b), s in self.multi(fr, st, [n["a"], n["r"]]):
            out.append((self.binop(fr, s, eid, n, op, a, b), s))
        return out

    def assign(self, fr, s, n, a, b):
        loc = self.deref(a)
        self.store(s, loc, b)
        return [(a, s2) for s2 in self.emit(Event("write", fr, n["l"], loc=loc, val=b, extra="="), [s])]

    def x_cond(self, fr, st, eid, n):
        out = []
        for c, s in self.evals(fr, st, n["q0"]):
            for tr, k in ((True, "a"), (False, "r")):
                s2 = s.copy()
                if not s2.assume(c, tr):
                    continue
                for v, s3 in self.evals(fr, s2, n[k]):
                    out.append((v, s3))
        return out

    def x_initlist(self, fr, st, eid, n):
        if n.get("lv") and len(n["args"]) == 1:
            return self.evals(fr, st, n["args"][0])
        if n.get("c") and not n["t"].endswith("*") and n["c"] not in self.p.enums:
            loc = self.target_loc(fr, st, eid) or ('t', fr.ctx, eid)
            out = []
            rec = self.p.records.get(n["c"])
            for vs, s in self.multi(fr, st, n["args"]):
                fs = n.get("fs") or ([fl["n"] for fl in rec[0]["fields"]] if rec else [])
                if len(fs) >= len(vs):
                    for fl, v in zip(fs, vs):
                        s.mem[('f', loc, fl)] = v
                out.append((('a', loc), s))
            return out
        if len(n["args"]) == 1:
            return self.evals(fr, st, n["args"][0])
        if not n["args"]:
            return [(C(0), st)]
        return [(('s', 'x', 'list', vs), s) for vs, s in self.multi(fr, st, n["args"])]

    def x_lambda(self, fr, st, eid, n):
        res = [((), None, st)]
        for c in n["caps"]:
            nxt = []
            for caps, th, s in res:
                if c.get("this"):
                    for v, s2 in self.x_this(fr, s, -1, {}):
                        nxt.append((caps, v, s2))
                elif "x" in c:
                    for v, s2 in self.evals(fr, s, c["x"]):
                        if c["ref"]:
                            nxt.append((caps + ((c["v"], v if v[0] == 'a' else ('a', ('p', v))),), th, s2))
                        else:
                            # by copy: value snapshot; class objects keep identity via a closure cell
                            cell = ('cap', fr.ctx, eid, c["v"])
                            if v[0] == 'a' and c.get("c") and not c["t"].endswith("*"):
                                self.copy_obj(s2, v[1], cell)
                            else:
                                s2.mem[cell] = v
                            nxt.append((caps + ((c["v"], ('a', cell)),), th, s2))
                else:
                    nxt.append((caps, th, s))
            res = nxt
        out = []
        for caps, th, s in res:
            loc = self.target_loc(fr, s, eid) or ('t', fr.ctx, eid)
            v = ('lam', n["f"], caps, th if th is not None else ('c', 0))
            s.mem[loc] = v
            for s2 in self.emit(Event("lambda", fr, n["l"], val=v, node=n, fid=n["f"]), [s]):
                out.append((('a', loc), s2))
        return out

    def x_return(self, fr, st, eid, n):
        if "a" not in n:
            return [(None, s) for s in self.emit(Event("return", fr, n["l"]), [st])]
        out = []
        for v, s in self.evals(fr, st, n["a"]):
            s.temps[(fr.ctx, 'ret')] = v
            for s2 in self.emit(Event("return", fr, n["l"], val=v), [s]):
                out.append((None, s2))
        return out

    def x_decl(self, fr, st, eid, n):
        sts = [st]
        for v in n["vars"]:
            loc = ('v', fr.ctx, v["v"]) if not v.get("static") else ('g', v["v"])
            nxt = []
            for s in sts:
                if "x" not in v:
                    s.mem = {k: x for k, x in s.mem.items() if not is_sub(k, loc)}
                    if not v.get("static"):
                        un = ('s', tsort(v["t"]), 'uninit', loc)
                        s.mem.pop(loc, None)
                    nxt.append(s)
                    continue
                for val, s2 in self.evals(fr, s, v["x"]):
                    nn, ne = self.node(fr, v["x"])
                    if v["ref"]:
                        if val[0] != 'a':
                            if nn.get("lv"):
                                val = ('a', ('p', val))
                            else:
                                cell = ('t', fr.ctx, ne)
                                s2.mem[cell] = val
                                val = ('a', cell)
                        s2.mem[loc] = val
                    elif v.get("c") and not v["t"].endswith("*") and val[0] == 'a' and v["c"] not in self.p.enums:
                        if val[1] != loc:
                            self.copy_obj(s2, val[1], loc)
                    else:
                        self.store(s2, loc, val)
                    nxt += self.emit(Event("declare", fr, n["l"], loc=loc, val=val, node=v), [s2])
            sts = nxt
        return [(None, s) for s in sts]

    def x_new(self, fr, st, eid, n):
        out = []
        ops = list(n.get("pargs", ()))
        if "asz" in n:
            ops.append(n["asz"])
        for vs, s in self.multi(fr, st, ops):
            if n.get("pargs"):
                pv = vs[0]
            else:
                pv = ('a', ('h', fr.ctx, eid))
                s.mem = {k: x for k, x in s.mem.items()
                         if not (is_sub(k, pv[1]) and not self.keep_new(fr, eid, k, s))}
            for s2 in self.emit(Event("new", fr, n["l"], val=pv, fc=n.get("ac"), node=n,
                                      args=vs), [s]):
                if "a" in n and not n.get("array"):
                    if not n.get("ac") or n["at"].endswith("*"):
                        for v, s3 in self.evals(fr, s2, n["a"]):
                            s3.mem[self.deref(pv)] = v
                            out.append((pv, s3))
                    else:
                        for v, s3 in self.evals(fr, s2, n["a"]):
                            out.append((pv, s3))
                else:
                    out.append((pv, s2))
        return out

    def keep_new(self, fr, eid, k, s):
        # the initialiser of this new-expression has already run (CFG order)
        return True

    def x_delete(self, fr, st, eid, n):
        out = []
        for v, s in self.evals(fr, st, n["a"]):
            sub, _ = self.node(fr, n["a"])
            cls = sub.get("c", "")
            for s2 in self.emit(Event("delete", fr, n["l"], val=v, fc=cls, node=n), [s]):
                rec = self.p.records.get(cls)
                d = None
                if rec and "dtor" in rec[0]:
                    d = self.p.funcs.get(rec[0]["dtor"])
                if d is not None and self.can_inline(fr, d) and v != C(0):
                    for r, s3 in self.call_fn(fr, s2, d, self.deref(v), [], eid, n["l"]):
                        out.append((None, s3))
                else:
                    out.append((None, s2))
        return out

    def x_throw(self, fr, st, eid, n):
        self.emit(Event("throw", fr, n["l"]), [st])
        return []

    # ---- construction
    def target_loc(self, fr, st, eid):
        t = prep(fr.f).target.get(eid)
        if t is None:
            return None
        if t[0] == 'elided':
            t = t[2]
        if t[0] == 'var':
            return ('v', fr.ctx, t[1])
        if t[0] == 'field':
            return ('f', fr.this, t[1])
        if t[0] == 'this':
            return fr.this
        if t[0] == 'new':
            nn = fr.f.x[t[1]]
            if nn.get("pargs"):
                v = st.temps.get((fr.ctx, nn["pargs"][0]))
                if v is None:
                    r = self.evals(fr, st, nn["pargs"][0])
                    v = r[0][0]
                return self.deref(v)
            return ('h', fr.ctx, t[1])
        return None

    def x_ctor(self, fr, st, eid, n):
        tg = prep(fr.f).target.get(eid)
        if tg is not None and tg[0] == 'elided':
            r = self.evals(fr, st, tg[1])
            return r
        loc = self.target_loc(fr, st, eid) or ('t', fr.ctx, eid)
        cls = n.get("fc", n.get("c", ""))
        f = self.p.funcs.get(n["f"])
        out = []
        for av, s in self.multi_args(fr, st, n["args"], f, n):
            ev = Event("ctor", fr, n["l"], q=n["q"], fc=cls, loc=loc, args=av, node=n, fid=n["f"])
            for s2 in self.emit(ev, [s]):
                if f is not None and f.has_body and self.can_inline(fr, f):
                    if loc != fr.this:
                        s2.mem = {k: x for k, x in s2.mem.items() if not is_sub(k, loc)}
                    for r, s3 in self.call_fn(fr, s2, f, loc, av, eid, n["l"]):
                        out.append((('a', loc), s3))
                else:
                    self.ext_ctor(fr, s2, eid, n, loc, av)
                    out.append((('a', loc), s2))
        return out

    def ext_ctor(self, fr, s, eid, n, loc, av):
        """constructors without a repo body: std classes are scalars"""
        cls = n.get("fc", "")
        if n.get("cpmv") and av:
            src = self.deref(av[0])
            if src == loc:
                return                      # the result of a conditional, already in place
            self.copy_obj(s, src, loc)
            if n["cpmv"] == "move" and cls.startswith("std::"):
                if cls in ("std::unique_ptr", "std::shared_ptr", "std::function"):
                    s.mem[src] = C(0)
            return
        if cls in ("std::unique_ptr", "std::shared_ptr", "std::weak_ptr", "std::function",
                   "std::atomic"):
            if not av:
                s.mem[loc] = C(0)
            else:
                v = av[0]
                an, ae = self.node(fr, n["args"][0])
                if an.get("c", "").startswith("std::") and an.get("c") in (
                        "std::unique_ptr", "std::shared_ptr", "std::weak_ptr", "std::function") and v[0] == 'a' \
                        and not an["t"].endswith("*"):
                    self.copy_obj(s, v[1], loc)
                    if an["c"] == "std::unique_ptr" and v[1] != loc:
                        # only ever converted by moving
                        s.mem[v[1]] = C(0)
                elif v[0] == 'a' and (an.get("k") == "lambda" or not an.get("t", "").endswith("*")) and v[1] in s.mem \
                        and s.mem[v[1]][0] in ('lam', 'bind', 'fn'):
                    s.mem[loc] = s.mem[v[1]]
                else:
                    s.mem[loc] = v
            return
        s.mem = {k: x for k, x in s.mem.items() if not is_sub(k, loc)}
        if cls == "std::pair" and len(av) == 2:
            self.make_pair(s, loc, av, [self.node(fr, e)[0] for e in n["args"]] if len(n.get("args", ())) == 2 else None)
            return
        if cls == "std::pair" and len(av) == 1 and av[0][0] == 'a':
            self.copy_obj(s, av[0][1], loc)
            return
        s.mem[loc] = ('s', 'x', 'obj', n["q"], av) if depth(av) < 10 else ('s', 'x', 'obj', n["q"])

    def make_pair(self, s, loc, av, nodes=None):
        for i, (a, m) in enumerate(zip(av, ("first", "second"))):
            d = ('f', loc, "std::pair::" + m)
            if a[0] == 'a' and nodes and nodes[i].get("k") == "un" and nodes[i].get("op") == "&":
                s.mem[d] = a
            elif a[0] == 'a':
                if any(is_sub(k, a[1]) for k in s.mem):
                    self.copy_obj(s, a[1], d)
                else:
                    s.mem[d] = self.load(s, a[1])
            else:
                s.mem[d] = a

    # ---- calls
    def multi_args(self, fr, st, eids, f, n):
        res = [((), st)]
        for i, e in enumerate(eids):
            nxt = []
            for vs, s in res:
                for v, s2 in self.evals(fr, s, e):
                    # bind prvalue scalars to reference parameters through a temp cell
                    isref = f is not None and i < len(f.params) and f.params[i]["t"].endswith("&")
                    if isref and v[0] != 'a':
                        nn, ne = self.node(fr, e)
                        if nn.get("lv"):
                            v = ('a', ('p', v))
                        else:
                            cell = ('t', fr.ctx, ne)
                            s2.mem[cell] = v
                            v = ('a', cell)
                    nxt.append((vs + (v,), s2))
            res = nxt
        return res

    def can_inline(self, fr, f):
        if not f.has_body:
            return False
        if f.cls in self.opaque or f.q in self.opaque_fn:
            return False
        if f.cls in self.abstract and f.kind == "fn":
            return False
        if f.cls in PRIMITIVE and not self.primitives:
            return False
        if not f.file.endswith((".cc", ".h", ".inl", ".cpp")):
            return False
        if fr.depth >= self.MAXDEPTH:
            return False
        p, n = fr, 0
        while p is not None:
            if p.f.id == f.id:
                n += 1
            p = p.parent
        if n >= 1:
            return False
        if self.no_inline(f):
            return False
        return True

    def call_fn(self, fr, st, f, this, av, eid, line, caps=None):
        """inline f; -> [(ret, state)]"""
        self.stats["calls"] += 1
        fr2 = Frame(f, intern_ctx(fr.ctx, f.id, eid), this, caps or {}, fr, line, fr.depth + 1)
        st = st.copy()
        self.bind_params(st, fr2, av)
        sts = self.emit(Event("enter", fr2, f.line, q=f.q, fid=f.id, obj=this, args=av), [st])
        out = []
        for s in sts:
            for r, s2 in self.exec_body(fr2, s):
                for s3 in self.emit(Event("leave", fr2, line, q=f.q, fid=f.id, obj=this, args=av, ret=r), [s2]):
                    out.append((r, s3))
        return out

    def ret_to_temp(self, fr, s, eid, r, n, f):
        """a class object returned by value is moved to the caller's temp / target"""
        if r is None:
            return None
        if r[0] == 'a' and f is not None and not f.d["ret"].endswith("&") and not f.d["ret"].endswith("*") \
                and f.d.get("retcls"):
            loc = self.target_loc(fr, s, eid) or ('t', fr.ctx, eid)
            src = r[1]
            if src != loc:
                self.copy_obj(s, src, loc)
                if root_of(src)[0] in ('v', 't') and root_of(src)[1] != fr.ctx:
                    s.mem = {k: x for k, x in s.mem.items() if not is_sub(k, src)}
            return ('a', loc)
        return r

    def x_call(self, fr, st, eid, n):
        out = []
        f = self.p.funcs.get(n.get("f")) if n.get("f") else None
        # object
        res = [(None, st)]
        if "o" in n:
            on, oe = self.node(fr, n["o"])
            res = []
            for ov, s in self.evals(fr, st, n["o"]):
                oloc = self.deref(ov)
                if on.get("t", "").endswith("*") and ov[0] != 'a':
                    for s2 in self.emit(Event("deref", fr, n["l"], val=ov, loc=oloc), [s]):
                        res.append((oloc, s2))
                else:
                    res.append((oloc, s))
        elif "cx" in n:
            res = [(v, s) for v, s in self.evals(fr, st, n["cx"])]
        for ov, s in res:
            for av, s1 in self.multi_args(fr, s, n.get("args", []), f, n):
                out += self.do_call(fr, s1, eid, n, f, ov, av)
        return out

    def do_call(self, fr, s, eid, n, f, ov, av):
        q = n.get("q", "")
        if "cx" in n and "f" not in n:
            # call through pointer
            v = ov
            if v[0] == 'a':
                v = s.mem.get(v[1], v)
            return self.invoke(fr, s, eid, n, v, av, ov)
        # devirtualisation: all overriders
        cands = []
        if n.get("virt") and not n.get("qualcall"):
            ovr = sorted(self.p.overriders(n["f"]))
            cands = [self.p.funcs[o] for o in ovr if self.p.funcs[o].has_body]
            if f is not None and f.has_body:
                cands.append(f)
        elif f is None and q.endswith("$lambda::operator()") and ov is not None and (s.mem.get(ov) or (0,))[0] == 'lam':
            f = self.p.funcs.get(s.mem[ov][1])
            cands = [f] if f is not None else []
        elif f is not None:
            cands = [f]
        ev = Event("call", fr, n["l"], q=q, node=n, obj=ov, args=av, fid=n.get("f"), fc=n.get("fc"))
        ev.extra = eid
        sts = self.emit(ev, [s])
        out = []
        done = False
        inl = [c for c in cands if self.can_inline(fr, c)]
        if q in NORETURN or n.get("noret"):
            self.aborted += len(sts)
            self.emit(Event("abort", fr, n["l"], q=q), sts)
            return []
        for s1 in sts:
            m = self.models[q](self, fr, s1, eid, n, ov, av) if q in self.models else None
            if m is None:
                m = self.model(fr, s1, eid, n, q, ov, av)
            if m is not None:
                for v, s2 in m:
                    for s3 in self.emit(Event("ret", fr, n["l"], q=q, node=n, obj=ov, args=av, ret=v,
                                              fid=n.get("f"), fc=n.get("fc")), [s2]):
                        out.append((v, s3))
                continue
            if inl:
                for c in inl:
                    this, caps = ov if not c.d.get("static") else None, None
                    if c.parent and ov is not None:
                        # a closure called by name: its own captures
                        lv = s1.mem.get(ov)
                        if lv is not None and lv[0] == 'lam' and lv[1] == c.id:
                            this = None if lv[3] == ('c', 0) else self.deref(lv[3])
                            caps = dict(lv[2])
                    for r, s2 in self.call_fn(fr, s1.copy() if len(inl) > 1 else s1, c, this, av, eid, n["l"], caps=caps):
                        r2 = self.ret_to_temp(fr, s2, eid, r, n, c)
                        if r2 is None:
                            r2 = ('s', 'x', 'void')
                        for s3 in self.emit(Event("ret", fr, n["l"], q=q, node=n, obj=ov, args=av, ret=r2,
                                                  fid=n.get("f"), fc=n.get("fc")), [s2]):
                            out.append((r2, s3))
            else:
                r = self.ext_result(fr, s1, eid, n, ov, av)
                for s3 in self.emit(Event("ret", fr, n["l"], q=q, node=n, obj=ov, args=av, ret=r,
                                          fid=n.get("f"), fc=n.get("fc")), [s1]):
                    out.append((r, s3))
        return out

    def ext_result(self, fr, s, eid, n, ov, av):
        t = n.get("t", "")
        # arguments passed by non-const pointer / reference may be written
        if not n.get("q", "").startswith(("std::", "operator")):
            cf = self.p.funcs.get(n.get("f")) if n.get("f") else None
            for i, (a, e) in enumerate(zip(av, n.get("args", []))):
                nn, _ = self.node(fr, e)
                ty = nn.get("t", "")
                if cf is not None and i < len(cf.params) and cf.params[i]["t"].endswith("&") and \
                        not cf.params[i]["t"].endswith("&&") and "const" not in cf.params[i]["t"] and a[0] == 'a' \
                        and not cf.params[i]["c"]:
                    ty = "*"
                if a[0] == 'a' and root_of(a[1])[0] in ('v', 't', 'h') and (ty.endswith("*") and not ty.startswith("const ")):
                    loc = a[1]
                    if any(is_sub(k, loc) for k in s.mem):
                        s.mem = {k: x for k, x in s.mem.items() if not is_sub(k, loc)}
                    s.mem[loc] = self.fresh(s, fr, eid, 'x', 'out%d' % av.index(a))
        if n.get("asg") and ov is not None and av and av[0][0] == 'a':
            # assignment the compiler wrote: member by member
            self.copy_obj(s, av[0][1], ov)
            self.emit(Event("write", fr, n["l"], loc=ov, val=s.mem.get(ov), extra="copy"), [s])
            return ('a', ov)
        if n.get("lv"):
            return ('a', ('p', self.fresh(s, fr, eid, 'nn', 'ref')))
        if n.get("c") and not t.endswith("*") and n["c"] not in self.p.enums:
            loc = self.target_loc(fr, s, eid) or ('t', fr.ctx, eid)
            s.mem = {k: x for k, x in s.mem.items() if not is_sub(k, loc)}
            s.mem[loc] = self.fresh(s, fr, eid, 'x', 'obj')
            return ('a', loc)
        if t == "void":
            return ('s', 'x', 'void')
        return self.fresh(s, fr, eid, tsort(t))

    def invoke(self, fr, s, eid, n, v, av, ov):
        """call of a callable value (std::function, function pointer, lambda)"""
        if v[0] == 'lam':
            f = self.p.funcs.get(v[1])
            if f is not None and f.has_body and self.can_inline(fr, f):
                this = None
                if v[3] != ('c', 0):
                    this = self.deref(v[3])
                out = []
                for r, s2 in self.call_fn(fr, s, f, this, av, eid, n["l"], caps=dict(v[2])):
                    r2 = self.ret_to_temp(fr, s2, eid, r, n, f)
                    out.append((r2 if r2 is not None else ('s', 'x', 'void'), s2))
                return out
        if v[0] == 'fn':
            f = self.p.funcs.get(v[1])
            if f is not None and f.has_body and self.can_inline(fr, f):
                out = []
                for r, s2 in self.call_fn(fr, s, f, None, av, eid, n["l"]):
                    out.append((r if r is not None else ('s', 'x', 'void'), s2))
                return out
        ev = Event("callback", fr, n["l"], val=v, loc=ov if ov and ov[0] != 's' else None, args=av, node=n, recv=ov)
        out = []
        for s1 in self.emit(ev, [s]):
            if self.havoc_cb:
                self.havoc_fields(s1)
            r = self.ext_result(fr, s1, eid, n, ov, av)
            for s2 in self.emit(Event("cbret", fr, n["l"], val=v, args=av, node=n, recv=ov), [s1]):
                out.append((r, s2))
        return out

    def havoc_fields(self, s):
        """a user callback may re-enter the library: forget mutable member state"""
        s.mem = {k: v for k, v in s.mem.items() if not (k[0] == 'f' and root_of(k)[0] in ('p', 'g'))}
        # initial-value symbols of fields are stale as well
        def stale(y):
            return isinstance(y, tuple) and len(y) == 4 and y[0] == 's' and y[2] == 'init' and y[3][0] == 'f'
        s.facts = {k: v for k, v in s.facts.items() if not any(contains(x, stale) for x, _ in k)}

    def havoc_wait(self, fr, s, eid, ov):
        """other threads run while this one waits: every mutable member of the
        object that owns the condition variable gets a new unknown value"""
        base, cls = ov[1], ov[2].rsplit("::", 1)[0]
        for r in self.p.records.get(cls, [])[:1]:
            for fl in r["fields"]:
                n = fl["n"] if "::" in fl["n"] else cls + "::" + fl["n"]
                if fl["t"].startswith("const ") or fl["t"].endswith("&") or fl.get("c") in (
                        "kanon::MutexLock", "kanon::Condition", "kanon::Thread", "kanon::CountDownLatch"):
                    continue
                loc = ('f', base, n)
                self.store(s, loc, self.fresh(s, fr, eid, tsort(fl["t"]), n))

    # ---- library models
    def model_abstract(self, fr, s, eid, n, q, fc, ov, av):
        """API-level abstraction of a repository container class: const members
        are pure functions of the content version, the others make a new one"""
        name = q.rsplit("::", 1)[-1]
        ver = ('f', ov, '$ver')
        szl = ('f', ov, '$size')
        v = self.load(s, ver)

        def size_of(o, w):
            x = s.mem.get(('f', o, '$size'))
            return x if x is not None else ('s', 'u', 'size', w)
        sz = size_of(ov, v)
        if name in ("GetReadableSize",):
            return [(sz, s)]
        if name in ("HasReadable",):
            return [(cmpv('!=', sz, C(0)), s)]
        if name in ("IsEmpty", "empty"):
            return [(cmpv('==', sz, C(0)), s)]
        if n.get("cm"):
            if n.get("lv"):
                return [(('a', ('p', ('s', 'nn', 'pure', q, v, av))), s)]
            if n.get("c") and not n.get("t", "").endswith("*"):
                r = self.ext_result(fr, s, eid, n, ov, av)
                if name == "ToStringView" and r[0] == 'a':
                    d, l = self.view_fields()
                    if d:
                        s.mem[('f', r[1], d)] = ('s', 'nn', 'pure', 'begin', v, ())
                        s.mem[('f', r[1], l)] = sz
                        # the object itself is represented by its fields
                        s.mem.pop(r[1], None)
                return [(r, s)]
            return [(('s', tsort(n.get("t", "")), 'pure', q, v, av), s)]
        if name in ("begin", "end", "GetFirstChunk", "GetLastChunk", "GetReadBegin", "GetWriteBegin"):
            return None
        nv = ('s', 'x', 'ver', name, fr.f.id, eid)
        if contains(v, lambda y: y == nv):
            nv = self.fresh(s, fr, eid, 'x', 'ver')
        else:
            nv = ('s', 'x', 'ver', name, v, av)
            if depth(nv) > 9:
                nv = self.fresh(s, fr, eid, 'x', 'ver')
        s.mem[ver] = nv
        s.mem.pop(szl, None)
        nsz = None
        other = av[0][1] if av and av[0][0] == 'a' else None
        if name in ("AdvanceAll", "AdvanceReadAll"):
            nsz = C(0)
        elif name == "swap" and other is not None:
            o = ('f', other, '$ver')
            ow = self.load(s, o)
            nsz = size_of(other, ow)
            s.mem[ver] = ow
            s.mem[o] = v
            s.mem[('f', other, '$size')] = sz
        elif name == "AppendChunkList" and other is not None:
            o = ('f', other, '$ver')
            nsz = add(sz, size_of(other, self.load(s, o)))
            s.mem[o] = ('s', 'x', 'ver', 'moved', nv)
            s.mem[('f', other, '$size')] = C(0)
        elif name == "Append" and len(av) == 2:
            nsz = add(sz, av[1])
        elif name == "Append" and len(av) == 1 and other is not None:
            d, l = self.view_fields()
            if d and s.mem.get(('f', other, l)) is not None:
                nsz = add(sz, s.mem[('f', other, l)])
        elif name == "AdvanceRead" and len(av) == 1:
            nsz = add(sz, av[0], -1)
            if not s.assume(cmpv('<=', C(0), nsz), True):
                nsz = None
        if nsz is not None:
            if len(lin(nsz)[1]) <= 4 and depth(nsz) <= 10:
                s.mem[szl] = nsz
        r = self.ext_result(fr, s, eid, n, ov, av)
        return [(r, x) for x in self.emit(Event("mutate", fr, n["l"], q=q, loc=ov, args=av, node=n, ret=r,
                                                extra=name, fc=fc), [s])]

    def view_fields(self):
        """names of the pointer and length members of StringView"""
        r = getattr(self.p, "_view_fields", None)
        if r is None:
            d = l = None
            for rec in self.p.records.get("kanon::StringView", [])[:1]:
                for fl in rec["fields"]:
                    n = fl["n"] if "::" in fl["n"] else "kanon::StringView::" + fl["n"]
                    if fl["t"].endswith("*"):
                        d = n
                    elif tsort(fl["t"]) == 'u':
                        l = n
            r = (d, l) if d and l else (None, None)
            self.p._view_fields = r
        return r

    def model(self, fr, s, eid, n, q, ov, av):
        if q in ("std::move", "std::forward", "std::addressof", "std::ref", "std::cref",
                 "std::__addressof", "__builtin_expect", "std::__niter_base", "std::static_pointer_cast", "std::as_const"):
            if q == "__builtin_expect" and av[0][0] == 'a':
                return None
            if q == "std::static_pointer_cast":
                return None
            return [(av[0], s)]
        if q == "std::swap" or q.endswith("::swap") and n.get("fc", "").startswith("std::"):
            a = av[0][1] if q == "std::swap" and av[0][0] == 'a' else ov
            b = (av[1] if q == "std::swap" else av[0])
            b = self.deref(b)
            if a is None:
                return None
            t = self.node(fr, n["args"][0])[0].get("t", "")
            va, vb = self.load(s, a, t), self.load(s, b, t)
            suba = {k: v for k, v in s.mem.items() if is_sub(k, a) and k != a}
            subb = {k: v for k, v in s.mem.items() if is_sub(k, b) and k != b}
            s.mem = {k: v for k, v in s.mem.items() if not is_sub(k, a) and not is_sub(k, b)}
            for k, v in suba.items(): s.mem[rebase(k, a, b)] = v
            for k, v in subb.items(): s.mem[rebase(k, b, a)] = v
            s.mem[a], s.mem[b] = vb, va
            out = [s]
            for l, v in ((a, vb), (b, va)):
                out = self.emit(Event("write", fr, n["l"], loc=l, val=v, extra="swap"), out)
            return [(('s', 'x', 'void'), x) for x in out]
        if q in ("std::min", "std::max") and len(av) == 2:
            vals = []
            for a in av:
                vals.append(self.load(s, a[1], n.get("t", "")) if a[0] == 'a' else a)
            if self.gen_min:
                # an upper limit given as a constant stands for any positive limit up to it
                for i, x in enumerate(vals):
                    if x[0] == 'c' and x[1] > 16:
                        g = ('s', 'u', 'limit', x[1])
                        s.assume(cmpv('<=', g, x), True)
                        s.assume(cmpv('>', g, C(0)), True)
                        vals[i] = g
            a, b = vals
            out = []
            # min returns its first argument if equal, so does max
            for v, c in ((a, cmpv('<=' if q == "std::min" else '>=', a, b)), (b, cmpv('<' if q == "std::min" else '>', b, a))):
                s2 = s.copy()
                if not s2.assume(c, True):
                    continue
                loc = ('t', fr.ctx, eid)
                s2.mem[loc] = v
                out.append((('a', loc), s2))
            return out
        if q in WAITS and ov is not None and ov[0] == 'f' and fr.f.cls != "kanon::Condition":
            self.havoc_wait(fr, s, eid, ov)
            return None
        if q in ALGOS:
            lams = [(a, s.mem.get(a[1])) for a in av if a[0] == 'a' and (s.mem.get(a[1]) or (0,))[0] in ('lam', 'bind', 'fn')]
            if lams:
                out = [(self.ext_result(fr, s.copy(), eid, n, ov, av), s.copy())]
                todo = [s]
                for a, v in lams:
                    lf = self.p.funcs.get(v[1]) if v[0] in ('lam', 'fn') else None
                    args = [self.param_sym(p) for p in lf.params] if lf is not None else []
                    nxt = []
                    for s1 in todo:
                        nxt += [s2 for r, s2 in self.invoke(fr, s1, eid, n, v, args, None)]
                    todo = nxt
                for s1 in todo:
                    out.append((self.ext_result(fr, s1, eid, n, ov, av), s1))
                return out
        fc = n.get("fc", "")
        if fc in self.abstract and ov is not None:
            return self.model_abstract(fr, s, eid, n, q, fc, ov, av)
        if fc.startswith("std::"):
            r = self.model_std(fr, s, eid, n, q, fc, ov, av)
            if r is not None:
                return r
        if q == "kanon::EventLoop::IsLoopInThread" and ov is not None:
            return [(('s', 'b', 'inloop', ov), s)]
        if q == "__errno_location":
            return [(('a', ('g', 'errno')), s)]
        if q == "std::make_pair" and len(av) == 2:
            loc = self.target_loc(fr, s, eid) or ('t', fr.ctx, eid)
            s.mem = {k: x for k, x in s.mem.items() if not is_sub(k, loc)}
            self.make_pair(s, loc, av)
            return [(('a', loc), s)]
        if q == "std::bind":
            return [(self._bind(fr, s, eid, n, av), s)]
        if q.startswith("operator") or q.startswith("std::operator"):
            opc = n.get("opc")
            if opc in ("==", "!=") and len(av) == 2:
                vs = []
                for a, e in zip(av, n["args"]):
                    nn, _ = self.node(fr, e)
                    if a[0] == 'a' and nn.get("c", "") in ("std::unique_ptr", "std::shared_ptr", "std::function"):
                        vs.append(self.load(s, a[1]))
                    elif nn.get("k") == "null" or a == C(0):
                        vs.append(C(0))
                    elif a[0] == 'a' and nn.get("c") and not nn.get("t", "").endswith("*") and nn["c"] != "std::nullptr_t":
                        return None     # objects of another class are compared by value
                    else:
                        vs.append(a)
                return [(cmpv(opc, vs[0], vs[1]), s)]
        return None

    def _bind(self, fr, s, eid, n, av):
        loc = self.target_loc(fr, s, eid) or ('t', fr.ctx, eid)
        args = []
        for a, e in zip(av, n["args"]):
            nn, _ = self.node(fr, e)
            if a[0] == 'a' and nn.get("c") and nn["c"].startswith("std::") and not nn["t"].endswith("*"):
                args.append(self.load(s, a[1]))
            elif a[0] == 'a' and nn.get("lv") and nn.get("t", "").endswith("*") and nn.get("k") in ("var", "field"):
                # bind keeps a copy of the pointer
                args.append(self.load(s, a[1], nn["t"]))
            else:
                args.append(a)
        f0 = args[0]
        while f0[0] == 'a' and f0[1] in s.mem:
            f0 = s.mem[f0[1]]
        s.mem[loc] = ('bind', f0, tuple(args[1:]))
        return ('a', loc)

    def model_std(self, fr, s, eid, n, q, fc, ov, av):
        name = q.rsplit("::", 1)[-1]
        ptr = fc in ("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access")
        if ptr or fc == "std::__uniq_ptr_impl":
            if name in ("operator->", "get"):
                v = self.load(s, ov, "T *")
                return [(v, s)]
            if name == "operator*":
                v = self.load(s, ov, "T *")
                out = []
                for s2 in self.emit(Event("deref", fr, n["l"], val=v, loc=self.deref(v)), [s]):
                    out.append((('a', self.deref(v)), s2))
                return out
            if name == "operator<conv>":
                return [(truthv(self.load(s, ov, "T *")), s)]
            if name == "reset":
                v = C(0)
                if av:
                    v = av[0]
                old = self.load(s, ov)
                self.store(s, ov, v)
                return [(('s', 'x', 'void'), x) for x in
                        self.emit(Event("write", fr, n["l"], loc=ov, val=v, extra=("reset", old)), [s])]
            if name == "release":
                old = self.load(s, ov)
                self.store(s, ov, C(0))
                return [(old, s)]
            if name == "operator=":
                an, _ = self.node(fr, n["args"][0])
                v = av[0]
                if v[0] == 'a' and an.get("c", "").startswith("std::") and not an["t"].endswith("*"):
                    src = v[1]
                    v = self.load(s, src)
                    old = self.load(s, ov)
                    self.store(s, ov, v)
                    if self.is_rvalue_arg(fr, n["args"][0]):
                        s.mem[src] = C(0)
                else:
                    old = self.load(s, ov)
                    self.store(s, ov, v if an.get("k") != "null" else C(0))
                    v = self.load(s, ov)
                return [(('a', ov), x) for x in
                        self.emit(Event("write", fr, n["l"], loc=ov, val=v, extra=("reset", old)), [s])]
            return None
        if fc == "std::weak_ptr" or fc == "std::__weak_ptr":
            if name in ("lock",):
                loc = self.target_loc(fr, s, eid) or ('t', fr.ctx, eid)
                s.mem[loc] = self.fresh(s, fr, eid, 'x', 'lock')
                return [(('a', loc), s)]
            return None
        if fc == "std::enable_shared_from_this" and name == "shared_from_this":
            loc = self.target_loc(fr, s, eid) or ('t', fr.ctx, eid)
            s.mem[loc] = ov[1] if ov[0] == 'p' else ('a', ov)
            return [(('a', loc), s)]
        if fc == "std::function" or fc == "std::_Function_base":
            if name == "operator()":
                v = self.load(s, ov)
                return self.invoke(fr, s, eid, n, v, av, ov)
            if name == "operator<conv>":
                return [(truthv(self.load(s, ov, "T *")), s)]
            if name == "operator=":
                v = av[0]
                an, _ = self.node(fr, n["args"][0])
                if v[0] == 'a':
                    v = self.load(s, v[1])
                if an.get("k") == "null":
                    v = C(0)
                self.store(s, ov, v)
                return [(('a', ov), x) for x in
                        self.emit(Event("write", fr, n["l"], loc=ov, val=v, extra="="), [s])]
            return None
        if fc in ("std::atomic", "std::__atomic_base"):
            if name in ("load", "operator<conv>"):
                ss = self.emit(Event("read", fr, n["l"], loc=ov, node=n, extra="atomic"), [s])
                return [(self.load(x, ov, n.get("t", "")), x) for x in ss]
            if name in ("store", "operator="):
                self.store(s, ov, av[0])
                return [(av[0], x) for x in
                        self.emit(Event("write", fr, n["l"], loc=ov, val=av[0], extra="atomic"), [s])]
            if name in ("exchange",):
                old = self.load(s, ov, n.get("t", ""))
                ss = self.emit(Event("read", fr, n["l"], loc=ov, node=n, extra="rmw"), [s])
                out = []
                for x in ss:
                    self.store(x, ov, av[0])
                    for y in self.emit(Event("write", fr, n["l"], loc=ov, val=av[0], extra="rmw"), [x]):
                        out.append((old, y))
                return out
            if name in ("fetch_add", "fetch_sub", "operator++", "operator--", "operator+=", "operator-="):
                old = self.load(s, ov, n.get("t", ""))
                d = C(1)
                if name in ("fetch_add", "fetch_sub", "operator+=", "operator-=") and av:
                    d = av[0]
                new = add(old, d, -1 if name in ("fetch_sub", "operator--", "operator-=") else 1)
                self.store(s, ov, new)
                post = name.startswith("fetch") or (name in ("operator++", "operator--") and av)
                out = []
                for y in self.emit(Event("write", fr, n["l"], loc=ov, val=new, extra="rmw"), [s]):
                    out.append((old if post else new, y))
                return out
            return None
        if fc in CONTAINERS:
            v = self.load(s, ov)
            if name in ("size", "length"):
                return [(('s', 'u', 'size', v), s)]
            if name == "empty":
                return [(cmpv('==', ('s', 'u', 'size', v), C(0)), s)]
            if n.get("cm") or name in ("begin", "end", "find", "cbegin", "cend", "back", "front", "rbegin", "at",
                                       "lower_bound", "upper_bound", "before_begin", "data", "operator[]", "top",
                                       "reserve", "capacity"):
                if name in ("begin", "end", "back", "front", "before_begin", "data", "operator[]", "at", "top", "find",
                            "lower_bound", "upper_bound"):
                    return self._elem(fr, s, eid, n, name, v, ov, av)
                return None
            # mutators: a new container version
            nv = ('s', 'x', 'cont', name, v, av)
            if depth(nv) > 10:
                nv = self.fresh(s, fr, eid, 'x', 'cont')
            if name == "clear":
                nv = ('s', 'x', 'emptycont')
                s._cons(((('s', 'u', 'size', nv), 1),), '==', 0)
            if name in ("emplace_back", "push_back", "push", "emplace", "insert"):
                sz = ('s', 'u', 'size', nv)
                if name in ("emplace_back", "push_back", "push"):
                    s._cons(((sz, 1),), '>=', 1)
            ss = [s]
            if name == "operator=" and av and av[0][0] == 'a':
                nv = self.load(s, av[0][1])
                if self.is_rvalue_arg(fr, n["args"][0]):
                    em = ('s', 'x', 'moved', nv)
                    s.mem[av[0][1]] = em
            self.store(s, ov, nv)
            ss = self.emit(Event("write", fr, n["l"], loc=ov, val=nv, extra=("cont", name, av)), ss)
            out = []
            for x in ss:
                r = self.ext_result(fr, x, eid, n, ov, av)
                out.append((r, x))
            return out
        return None

    def _elem(self, fr, s, eid, n, name, v, ov, av):
        sym = ('s', 'nn', 'elem', name, v, av)
        if depth(sym) > 10:
            sym = self.fresh(s, fr, eid, 'nn', 'elem')
        if n.get("lv"):
            return [(('a', ('p', sym)), s)]
        if n.get("c") and not n.get("t", "").endswith("*"):
            loc = self.target_loc(fr, s, eid) or ('t', fr.ctx, eid)
            s.mem[loc] = sym
            return [(('a', loc), s)]
        return [(sym, s)]

    def is_rvalue_arg(self, fr, e):
        x = fr.f.x
        while e >= 0 and x[e].get("k") in ("alias",):
            e = x[e]["a"]
        n = x[e]
        while n.get("k") == "cast" and n.get("a", -1) >= 0 and n.get("ck") in ("NoOp", "DerivedToBase"):
            n, _ = self.node(fr, n["a"])
        return n.get("k") == "call" and n.get("q") in ("std::move", "std::forward") or not n.get("lv")


WAITS = ("kanon::Condition::Wait", "kanon::Condition::WaitForSeconds")
ALGOS = {"std::" + x for x in
         ("for_each", "find_if", "find_if_not", "remove_if", "any_of", "all_of", "none_of", "count_if", "sort",
          "stable_sort", "transform", "generate", "copy_if", "partition", "accumulate", "lower_bound", "upper_bound",
          "max_element", "min_element", "call_once", "replace_if", "erase_if", "generate_n", "for_each_n")}
CONTAINERS = {"std::vector", "std::set", "std::map", "std::unordered_map", "std::unordered_set",
              "std::queue", "std::deque", "std::list", "std::multimap", "std::multiset",
              "std::basic_string", "std::__cxx11::basic_string", "std::stack", "std::forward_list",
              "std::priority_queue"}


def tsort(t):
    if t.startswith("const "):
        t = t[6:]
    if t in ("unsigned long", "unsigned int", "unsigned short", "unsigned char", "unsigned long long"):
        return 'u'
    if t == "bool":
        return 'b'
    if t.endswith("*"):
        return 'u'
    return 'x'


def cmpv(op, a, b):
    if op == ">":
        return cmpv("<", b, a)
    if op == ">=":
        return cmpv("<=", b, a)
    c, d = lin(add(a, b, -1))
    if not d:
        r = {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0}[op]
        return C(1 if r else 0)
    # address vs null
    if op in ("==", "!=") and len(d) == 1 and c == 0:
        (k, kn), = d.items()
        if k[0] in ('a', 'lam', 'fn', 'bind'):
            return C(0 if op == "==" else 1)
        if k[0] in ('cmp', 'not'):
            return notv(k) if op == "==" else k
    if op in ("==", "!=") and len(d) == 1 and abs(list(d.values())[0]) == 1:
        (k, kn), = d.items()
        if k[0] in ('cmp', 'not') and c == -kn:
            return k if op == "==" else notv(k)
    k, sg = norm(d)
    if sg > 0:
        return ('cmp', op, k, -c)
    # -(form) + c op 0  ->  form (flip) c
    if op == '<':      # form > c
        return ('not', ('cmp', '<=', k, c))
    if op == '<=':
        return ('not', ('cmp', '<', k, c))
    return ('cmp', op, k, c)


def truthv(v):
    if v[0] == 'c':
        return C(1 if v[1] else 0)
    if v[0] in ('cmp', 'not'):
        return v
    if v[0] == 's' and v[1] == 'b':
        return v
    if v[0] in ('a', 'lam', 'fn', 'bind'):
        return TRUE
    return cmpv('!=', v, C(0))


def notv(v):
    if v[0] == 'c':
        return C(0 if v[1] else 1)
    if v[0] == 'not':
        return truthv(v[1])
    if v[0] in ('a', 'lam', 'fn', 'bind'):
        return FALSE
    return ('not', truthv(v))


def root_of(loc):
    while loc[0] in ('f', 'i', 'copyof'):
        loc = loc[1]
    return loc


def is_sub(k, loc):
    while True:
        if k == loc:
            return True
        if k[0] in ('f', 'i', 'copyof'):
            k = k[1]
        else:
            return False


def rebase(k, src, dst):
    if k == src:
        return dst
    return (k[0], rebase(k[1], src, dst)) + k[2:]


_vs, _vr = {}, {}
VOL = ('r', 'o', 'oo', 'w')


def vsyms(v):
    """volatile (per program point) symbols mentioned by a value"""
    if not isinstance(v, tuple):
        return EMPTY
    r = _vs.get(v)
    if r is None:
        r = EMPTY
        if len(v) > 2 and v[0] == 's' and v[2] in VOL:
            r = frozenset((v,))
        for x in v:
            if isinstance(x, tuple):
                y = vsyms(x)
                if y:
                    r = r | y
        if len(_vs) > 400000:
            _vs.clear()
        _vs[v] = r
    return r


EMPTY = frozenset()


def vroots(v):
    if not isinstance(v, tuple):
        return EMPTY
    r = _vr.get(v)
    if r is None:
        r = EMPTY
        if len(v) == 2 and v[0] == 'a' and isinstance(v[1], tuple):
            r = frozenset((root_of(v[1]),))
        for x in v:
            if isinstance(x, tuple):
                y = vroots(x)
                if y:
                    r = r | y
        if len(_vr) > 400000:
            _vr.clear()
        _vr[v] = r
    return r


def collect_roots(v, out):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'a' and isinstance(v[1], tuple):
            out.add(root_of(v[1]))
        for x in v:
            if isinstance(x, tuple):
                collect_roots(x, out)


def show(v, d=0):
    """readable rendering of a value / location"""
    if not isinstance(v, tuple) or not v:
        return str(v)
    t = v[0]
    if t == 'c':
        return str(v[1])
    if t == 'l':
        return "+".join(([str(v[1])] if v[1] else []) + ["%s%s" % ("" if k == 1 else "%d*" % k, show(s)) for s, k in v[2]])
    if t == 'a':
        return "&" + show(v[1])
    if t == 'f':
        return show(v[1]) + "." + v[2].rsplit("::", 1)[-1]
    if t == 'p':
        return "*" + show(v[1])
    if t == 'v':
        return v[2].split("@")[0].split(":", 1)[-1].split("#")[0]
    if t == 'i':
        return "%s[%s]" % (show(v[1]), show(v[2]))
    if t == 'cmp':
        return "(%s %s %s)" % (show(mk(0, dict(v[2]))), v[1], v[3])
    if t == 'not':
        return "!" + show(v[1])
    if t == 's':
        if v[2] == 'init' if len(v) > 2 else False:
            return show(v[3]) + "0" if isinstance(v[3], tuple) else str(v[3])
        if len(v) > 2 and v[2] in ('r', 'o', 'oo'):
            return "%s%d.%s" % (v[2], v[3], v[4])
        if len(v) > 2 and v[2] == 'op':
            return "(%s)" % (" %s " % v[3]).join(show(x) for x in v[4:])
        return "<" + " ".join(show(x) if isinstance(x, tuple) else str(x) for x in v[2:]) + ">"
    if t == 'lam':
        return "lambda"
    if t == 'g':
        return v[1]
    return "<" + " ".join(show(x) if isinstance(x, tuple) else str(x) for x in v) + ">"
