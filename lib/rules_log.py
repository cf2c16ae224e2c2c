"""P24: log statements.  P35: names of levels and states."""
import re
from absint import *
from program import Broken
from drive import drive
from rules_loop import Rec, field_of_type, field, fn
from rules_conn2 import exit_frame
from rules_lock import THIS

LG = "kanon::Logger"
ERRNO = ('g', 'errno')
LEVEL = ('g', "g:kanon::Logger::log_level_")
GLOG = ('g', "g:kanon::g_kanon_log")
TRACKED = ("g:kanon::g_kanon_log", "g:kanon::g_all_log", "g:kanon::Logger::log_level_", "g:kanon::Logger::need_color_")
# external functions that do not set errno
PURE = {"__errno_location", "strlen", "memcpy", "memmove", "memset", "memcmp", "memchr", "strchr", "strcmp", "strcasecmp"}
OPQ = DEFAULT_OPAQUE - {LG}


def levels(prog):
    e = prog.enums.get(LG + "::LogLevel")
    if not e:
        raise Broken("no enumeration of log levels")
    num = [v for n, v in e["vals"] if n.endswith("NUM_LOG_LEVEL")]
    off = [v for n, v in e["vals"] if n.endswith("_OFF")]
    if not num or not off:
        raise Broken("the end of the log levels is not known")
    pre = "KANON_LL_"
    lv = {}
    for n, v in e["vals"]:
        s = n.rsplit("::", 1)[-1]
        if v < num[0] and s.startswith(pre):
            lv[s[len(pre):]] = v
    if len(lv) < 8:
        raise Broken("only %d log levels found" % len(lv))
    return lv, num[0], off[0]


def errno_val(ex, st):
    v = st.mem.get(ERRNO)
    return v if v is not None else ('s', 'x', 'init', ERRNO)


def keeps_errno(prog, fid, q, stack=()):
    """a function that calls nothing which may set errno"""
    memo = prog.__dict__.setdefault("_keeps_errno", {})
    f = prog.funcs.get(fid) if fid else None
    if f is None or not f.x:
        return q in PURE or q.startswith("std::")
    if fid in memo:
        return memo[fid]
    if fid in stack:
        return True
    r = True
    for n in f.x:
        if n.get("k") in ("call", "ctor") and not keeps_errno(prog, n.get("f"), n.get("q") or "", stack + (fid,)):
            r = False
            break
    if r and not stack or not r:
        memo[fid] = r
    return r


class LogErrno(Rec):
    FIELDS = (("left", None),)

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        if k == "root":
            st.mem[ERRNO] = ('s', 'x', 'entry', 'errno')
        elif k == "call" and q != "__errno_location":
            for a in ev.args:
                if a == ('s', 'x', 'entry', 'errno'):
                    self.col.data.append(("reports", self.root.id))
                elif a[0] == 's' and a[-1] == 'errno' and a[2] == 'r' and ev.fr.f.cls == LG:
                    self.bad(ex, "reported-errno", "an error number is reported that was read after other calls may have changed it", ev)
        elif k == "leave":
            # an inlined call: its effects have been seen
            self.s(st, left=q)
            return None
        elif k == "cbret" or k in ("ret", "dtor"):
            if k == "ret" and self.g(st, "left") == q:
                self.s(st, left=None)
                return None
            if k == "cbret" or k == "ret" and not keeps_errno(self.p, ev.fid, q):
                st.mem[ERRNO] = ex.fresh(st, ev.fr, ev.line, 'x', 'errno')
        self.s(st, left=None)
        return None

    def finish(self, ex, f, out):
        for r, s in out:
            self.col.ob("errno-kept")
            if errno_val(ex, s) != ('s', 'x', 'entry', 'errno'):
                self.bad(ex, "errno-kept", "errno is not the value of the entry again when %s ends" % f.q)
                break


class Out(Rec):
    """the destructor outputs the line once and whole, then ends the process for a fatal level"""
    FIELDS = (("put", 0), ("flush", 0), ("data", None), ("size", None), ("more", 0), ("nl", False))

    def __init__(self, prog, root, col, level, name, fatal):
        Rec.__init__(self, prog, root, col)
        self.level, self.name, self.fatal = level, name, fatal

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        if k == "ret" and q.endswith("Stream::operator<<"):
            self.s(st, data=None, size=None)
            if self.g(st, "put"):
                self.s(st, more=1)
        elif k == "ret" and re.search(r"(Stream|FixedBuffer)::(data|GetData|ToString|GetBuffer)$", q):
            self.s(st, data=ev.ret)
        elif k == "ret" and re.search(r"(Stream|FixedBuffer)::(size|len|length|GetSize)$", q):
            self.s(st, size=ev.ret)
        elif k == "callback":
            w = self.which(ex, st, ev)
            if w == "output":
                n = self.g(st, "put")
                if self.g(st, "flush"):
                    self.bad(ex, "flush-last", "a line is output after the flush", ev)
                if n:
                    self.bad(ex, "output-once", "a log statement outputs its line more than once", ev)
                self.col.ob("output-whole")
                a = ev.args
                if len(a) != 2 or self.g(st, "data") is None or self.g(st, "size") is None or not self.same(st, a[0], self.g(st, "data")) or \
                        not self.same(st, a[1], self.g(st, "size")):
                    self.bad(ex, "output-whole", "what is output is not the whole text of the statement", ev)
                self.s(st, put=1)
            elif w == "flush":
                self.s(st, flush=1)
        elif k == "abort" or k == "call" and q in ("abort", "exit", "_exit", "std::terminate", "quick_exit"):
            if k == "abort" and q == "__assert_fail":
                return None
            if k == "call":
                self.col.ob("fatal-ends")
                if not self.fatal:
                    self.bad(ex, "only-fatal-ends", "a statement of level %s ends the process" % self.name, ev)
                elif not self.g(st, "put"):
                    self.bad(ex, "output-once", "a fatal statement ends the process before it is output", ev)
                elif not self.g(st, "flush"):
                    self.bad(ex, "fatal-flushed", "a fatal statement ends the process without flushing its output", ev)
        return None

    def same(self, st, a, b):
        return a == b or st.decide(cmpv('==', a, b)) is True

    def which(self, ex, st, ev):
        for l in (ev.obj, ev.loc):
            if l is None:
                continue
            t = str(l)
            if "output_callback_" in t or any(x in t for x in self.outs):
                return "output"
            if any(x in t for x in self.flushes):
                return "flush"
        return None

    outs, flushes = (), ()

    def finish(self, ex, f, out):
        for r, s in out:
            self.col.ob("output-once")
            if self.fatal:
                self.bad(ex, "fatal-ends", "a statement of level %s does not end the process" % self.name)
            if self.g(s, "put") != 1:
                self.bad(ex, "output-once", "a statement of level %s is not output" % self.name)


class Gate(Rec):
    """one log statement: evaluates its operands and builds a logger exactly when the level is active"""
    FIELDS = (("probe", 0), ("log", 0), ("end", 0), ("on", None), ("gl", None))

    def __init__(self, prog, root, col, lv, off, reporting):
        Rec.__init__(self, prog, root, col)
        kind, name = root.q.rsplit("::", 1)[-1].split("_", 1)
        self.kind = kind
        self.name = {"SYSERROR": "SYS_ERROR", "SYSFATAL": "SYS_FATAL"}.get(name, name)
        self.level = lv[self.name]
        self.reporting = reporting

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        if k == "branch":
            # joins forget how they were reached
            lvl = ex.load(st, LEVEL, LG + "::LogLevel")
            self.s(st, on=st.decide(cmpv('<=', lvl, ('c', self.level))), gl=st.decide(truthv(ex.load(st, GLOG, "bool"))))
        elif k == "call" and q == "verifw::Probe":
            self.s(st, probe=min(2, self.g(st, "probe") + 1))
        elif k == "ctor" and q == LG + "::Logger":
            self.s(st, log=min(2, self.g(st, "log") + 1))
            self.col.ob("level")
            if ('c', self.level) not in ev.args:
                self.bad(ex, "level", "LOG_%s makes a record of another level" % self.name, ev)
            if self.name.startswith("SYS_"):
                self.col.ob("sys-reports")
                if ev.fid not in self.reporting:
                    self.bad(ex, "sys-reports", "LOG_%s does not report the error number" % self.name, ev)
        elif k == "dtor" and q == LG + "::~Logger":
            self.s(st, end=min(2, self.g(st, "end") + 1))
        return None

    def finish(self, ex, f, out):
        for r, s in out:
            on = self.g(s, "on")
            gl = self.g(s, "gl") if self.kind == "lib" else True
            if "FATAL" in self.name:
                on = gl = True
            self.col.ob("gate")
            n = self.g(s, "probe"), self.g(s, "log"), self.g(s, "end")
            if n == (0, 0, 0):
                if on is not False and gl is not False:
                    self.bad(ex, "gate", "a %s statement is left out although its level may be active" % f.q.rsplit("::", 1)[-1])
                    return
            elif on is not True or gl is not True:
                self.bad(ex, "gate", "a %s statement is evaluated although its level may not be active" % f.q.rsplit("::", 1)[-1])
                return
            elif self.g(s, "probe") != 1 or self.g(s, "log") != 1 or self.g(s, "end") != 1:
                self.bad(ex, "gate", "a %s statement is not evaluated exactly once" % f.q.rsplit("::", 1)[-1])
                return


class SetLevel(Rec):
    FIELDS = (("x", None),)

    def finish(self, ex, f, out):
        for r, s in out:
            p = ex.param_sym(f.params[0])
            if p[0] == 'a':
                p = ex.load(s, p[1], LG + "::LogLevel")
            self.col.ob("set-level")
            if s.mem.get(LEVEL) != p and s.decide(cmpv('==', ex.load(s, LEVEL, "x"), p)) is not True:
                self.bad(ex, "set-level", "setting the level does not make it the active one")


def callbacks(prog):
    """globals of the logger that hold the output and the flush function"""
    outs = [q for q, gs in prog.globals.items() if q.startswith(LG + "::") and any("std::function<void (const char *, unsigned long)>" in g["t"] for g in gs)]
    fl = [q for q, gs in prog.globals.items() if q.startswith(LG + "::") and any("std::function<void ()>" in g["t"] for g in gs)]
    if not outs or not fl:
        raise Broken("the output and flush functions of the logger were not found")
    return tuple(outs), tuple(fl)


def P24(prog, rep, tier):
    lv, num, off = levels(prog)
    rep.rule("gate", "a log statement below the active level evaluates and builds nothing; one at or above it is evaluated once (every statement "
                     "macro, from a witness file compiled against the headers)")
    rep.rule("level", "each statement macro makes a record of its own level")
    rep.rule("sys-reports", "the system error statements use a constructor that reports the error number of the entry")
    rep.rule("output-once", "the destructor hands the text to the output function exactly once")
    rep.rule("output-whole", "what it hands over is the complete text")
    rep.rule("fatal-ends", "a fatal record is output, flushed and then ends the process; no other record ends it")
    rep.rule("errno-kept", "constructing and ending a record leave errno as it was")
    rep.rule("set-level", "setting the level makes it the active one")
    outs, fl = callbacks(prog)
    ctors = [f for f in fn(prog, LG + "::Logger") if f.has_body]
    dtors = [f for f in fn(prog, LG + "::~Logger") if f.has_body]
    data = drive(prog, ctors, lambda p, f, c: [LogErrno(p, f, c)], rep, opaque=OPQ, tracked=TRACKED)
    reporting = {d[1] for d in data if d[0] == "reports"}
    if not reporting:
        rep.violate("sys-reports", "no constructor of a log record reports the error number", ctors[0].file, ctors[0].line, ctors[0].q) \
            if False else None
    drive(prog, dtors, lambda p, f, c: [LogErrno(p, f, c)], rep, opaque=OPQ, tracked=TRACKED)
    lf = field_of_type(prog, LG, lambda f: f["t"].endswith("Logger::LogLevel"), "level of a log record")
    for name, v in sorted(lv.items(), key=lambda x: x[1]):
        def mk(p, f, c, name=name, v=v):
            m = Out(p, f, c, v, name, "FATAL" in name)
            m.outs, m.flushes = outs, fl
            return [m]

        def setup(ex, st, fr, v=v):
            st.mem[('f', THIS, lf)] = ('c', v)
        drive(prog, dtors, mk, rep, opaque=OPQ, tracked=TRACKED, setup=setup, havoc_cb=False)
    w = prog.witness("log.inst.cc")
    roots = [f for q, f in sorted(w.items()) if re.search(r"::(plain|fmt|lib)_", q)]
    ofn = {LG + "::Logger", LG + "::~Logger", LG + "::stream"}
    drive(prog, roots, lambda p, f, c: [Gate(p, f, c, lv, off, reporting)], rep, opaque=OPQ, opaque_fn=ofn, tracked=TRACKED)
    drive(prog, [f for f in fn(prog, LG + "::SetLogLevel") if f.has_body], lambda p, f, c: [SetLevel(p, f, c)], rep, opaque=OPQ, tracked=TRACKED)
    for r, n in (("gate", 40), ("level", 22), ("sys-reports", 4), ("output-once", 6), ("output-whole", 8), ("fatal-ends", 2), ("errno-kept", 4), ("set-level", 1)):
        rep.need(r, n)


# ---------------------------------------------------------------- P35
class Names(Rec):
    """texts a record of one level writes"""
    FIELDS = (("t", ()),)

    def __init__(self, prog, root, col, tag, arg=True):
        Rec.__init__(self, prog, root, col)
        self.tag = tag

    def text(self, st, v):
        n = 0
        while v is not None and v[0] == 'a' and v[1] in st.mem and n < 4:
            v = st.mem[v[1]]
            n += 1
        return literal(self.p, v)

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        if k == "call" and (q.endswith("Stream::operator<<") or q.endswith("printf")) or k == "ctor" and q.endswith("StringView::StringView"):
            for a in ev.args:
                t = self.text(st, a)
                if t is not None and t not in self.g(st, "t"):
                    self.s(st, t=self.g(st, "t") + (t,))
        if k == "index" and ev.loc is not None and ev.loc[0] == 'g':
            self.bounds(ex, st, ev)
        return None

    def bounds(self, ex, st, ev):
        gs = self.p.globals.get(gname(ev.loc), ())
        for g in gs:
            if g.get("alen") is None or not g["t"].startswith("const char *"):
                continue
            self.col.ob("table-covers")
            i = ev.val
            if i[0] == 'c' and not 0 <= i[1] < g["alen"]:
                self.bad(ex, "table-covers", "%s has no entry for level %d" % (gname(ev.loc), i[1]), ev)
            elif i[0] == 'c' and g.get("ninit") is not None and i[1] >= g["ninit"]:
                self.bad(ex, "table-covers", "the entry of %s for level %d is not initialised" % (gname(ev.loc), i[1]), ev)

    def finish(self, ex, f, out):
        for r, s in out:
            self.col.data.append(("texts", self.tag, self.g(s, "t")))


def gname(l):
    return l[1][2:] if l[1].startswith("g:") else l[1]


def literal(prog, v):
    """the text of a literal or of an entry of a table of literals"""
    if v is None:
        return None
    if v[0] == 'a' and v[1][0] in ('str', 'g') and isinstance(v[1][1], str) and v[1][0] == 'str':
        return v[1][1]
    l = None
    if v[0] == 's' and v[2] == 'init':
        l = v[3]
    elif v[0] == 'a':
        l = v[1]
    if l is not None and l[0] == 'i' and l[1][0] == 'g' and l[2][0] == 'c':
        for g in prog.globals.get(gname(l[1]), ()):
            ss = g.get("strs")
            if ss and 0 <= l[2][1] < len(ss):
                return ss[l[2][1]]
    return None


class StateName(Rec):
    FIELDS = (("x", None),)

    def __init__(self, prog, root, col, tag):
        Rec.__init__(self, prog, root, col)
        self.tag = tag

    def event(self, ex, st, ev):
        if ev.kind == "index" and ev.loc is not None and ev.loc[0] == 'g':
            Names.bounds(self, ex, st, ev)
        return None

    def finish(self, ex, f, out):
        for r, s in out:
            n = 0
            while r is not None and r[0] == 'a' and r[1] in s.mem and n < 4:
                r = s.mem[r[1]]
                n += 1
            self.col.data.append(("state", f.id, self.tag, literal(self.p, r)))


class EnvLevel(Rec):
    """a level chosen because of a name in the environment is the level of that name"""
    FIELDS = (("cmp", ()), ("eq", ()))

    def __init__(self, prog, root, col, lv, off):
        Rec.__init__(self, prog, root, col)
        self.val = dict((v, n) for n, v in lv.items())
        self.val[off] = "OFF"

    def event(self, ex, st, ev):
        if ev.kind == "ret" and re.search(r"(str(n)?(case)?cmp|StrCaseCompare|operator==)$", ev.q or ""):
            for a in ev.args:
                t = literal(self.p, a)
                if t and t.isalpha() and ev.ret is not None and (t, ev.ret) not in self.g(st, "cmp"):
                    self.s(st, cmp=self.g(st, "cmp") + ((t, ev.ret),))
        elif ev.kind == "branch":
            for t, v in self.g(st, "cmp"):
                if st.decide(cmpv('==', v, ('c', 0))) is True and t not in self.g(st, "eq"):
                    self.s(st, eq=self.g(st, "eq") + (t,))
        return None

    def finish(self, ex, f, out):
        for r, s in out:
            if r is None or r[0] != 'c' or r[1] not in self.val:
                continue
            for t in self.g(s, "eq"):
                self.col.ob("environment")
                n = self.val[r[1]].lower()
                if not (t.lower().startswith(n) or n.startswith(t.lower())):
                    self.bad(ex, "environment", "the name \"%s\" selects level %s" % (t, self.val[r[1]]))


def switches(prog, rep):
    for f in prog.funcs.values():
        if not f.q.startswith("kanon::"):
            continue
        for b in f.blocks.values():
            if b.get("tk") != "SwitchStmt" or "cond" not in b:
                continue
            i = b["cond"]
            e = None
            while isinstance(i, int) and i >= 0:
                n = f.x[i]
                for t in (n.get("c"), n.get("t")):
                    if t in prog.enums:
                        e = prog.enums[t]
                if e is not None or n.get("k") not in ("cast", "alias"):
                    break
                i = n["a"]
            if e is None:
                continue
            rep.ob("switch-complete")
            cases, dflt = set(), False
            for s in b["s"]:
                if s is None:
                    continue
                c = f.blocks[s]
                if c.get("case"):
                    cases.add(c["case"][0])
                elif c.get("default"):
                    dflt = True
            miss = [n for n, v in e["vals"] if v not in cases]
            if miss and not dflt:
                rep.violate("switch-complete", f.q, f.loc, "the switch over %s has no case for %s" % (e["q"], ", ".join(miss)), [f.q],
                            "switch-complete|%s" % f.q)


def judge_names(rep, what, names, texts, where):
    """names: own names by value; texts: what is written for each value, as a set of tuples over the paths"""
    common = None
    for v in names:
        here = {x for t in texts.get(v, ()) for x in t}
        common = here if common is None else common & here
    found = {}
    for v, own in names.items():
        cand = set()
        for t in texts.get(v, ()):
            mine = [x for x in t if x not in common and re.fullmatch(r"\W*[A-Za-z][A-Za-z_ ]*\W*", x or "")]
            cand.add(tuple(re.sub(r"\W", "", x) for x in mine))
        rep.ob(what)
        if not texts.get(v):
            continue
        if len(cand) != 1 or len(next(iter(cand))) != 1:
            bad(rep, what, where, "%s has no single name of its own (%s)" % (own, ", ".join(sorted({y for c in cand for y in c})) or "none"), own)
            continue
        found[v] = next(iter(cand))[0]
    for v, n in found.items():
        for w, own in names.items():
            if w != v and norm(n) == norm(own):
                bad(rep, what, where, "%s is called %s, which is the name of another value" % (names[v], n), names[v])
            elif w != v and found.get(w) == n and w < v:
                bad(rep, what, where, "%s and %s have the same name %s" % (names[w], names[v], n), names[v])


def norm(s):
    return re.sub(r"[^a-z]", "", s.lower())


def bad(rep, rule, f, msg, key):
    rep.violate(rule, f.q, f.loc, msg, [f.q], "%s|%s|%s" % (rule, f.q, key))


def P35(prog, rep, tier):
    lv, num, off = levels(prog)
    rep.rule("level-names", "the text that a record of each log level writes contains one name of its own, not that of another level")
    rep.rule("level-values", "levels are numbered without gaps below their count, and \"off\" is above all of them")
    rep.rule("table-covers", "every table indexed by a level has an initialised entry for it")
    rep.rule("state-names", "each connection state has one name of its own")
    rep.rule("environment", "a level name from the environment selects the level of that name")
    rep.rule("switch-complete", "every switch over an enumeration of the library handles all its values")
    ctors = [f for f in fn(prog, LG + "::Logger") if f.has_body]
    base = [f for f in ctors if not any(n.get("k") == "ctor" and n.get("q") == LG + "::Logger" for n in f.x or ())] or ctors
    rep.ob("level-values")
    if sorted(lv.values()) != list(range(num)) or off <= max(lv.values()):
        bad(rep, "level-values", base[0], "the log levels are not numbered 0..%d with \"off\" above them" % (num - 1), "levels")
    texts = {}
    for name, v in lv.items():
        def setup(ex, st, fr, v=v):
            for p in fr.f.params:
                if p["t"].endswith("LogLevel"):
                    a = ex.param_sym(p)
                    st.mem[a[1] if a[0] == 'a' else ('v', fr.ctx, p["v"])] = ('c', v)
        for d in drive(prog, base, lambda p, f, c, v=v: [Names(p, f, c, v)], rep, opaque=OPQ, tracked=TRACKED, setup=setup, havoc_cb=False):
            if d[0] == "texts":
                texts.setdefault(d[1], set()).add(d[2])
    judge_names(rep, "level-names", {v: n for n, v in lv.items()}, texts, base[0])
    # connection states
    cn = "kanon::ConnectionBase"
    e = prog.enums.get(cn + "::State")
    if not e:
        raise Broken("no enumeration of connection states")
    st_f = field_of_type(prog, cn, lambda f: "ConnectionBase" in f["t"] and "State" in f["t"], "state of a connection")
    fs = [f for f in prog.funcs.values() if f.cls == cn and f.has_body and not f.params and f.d.get("ret", "") in ("const char *", "")
          and any(n.get("k") == "str" or n.get("k") == "lit" for n in f.x or ()) and returns_text(f)]
    if not fs:
        raise Broken("no function names the connection states")
    names = {v: n.rsplit("::", 1)[-1].lstrip("k") for n, v in e["vals"]}
    res = {}
    for v in list(names) + [max(names) + 50]:
        def setup(ex, st, fr, v=v):
            st.mem[('f', THIS, st_f)] = ('c', v)
        for d in drive(prog, fs, lambda p, f, c, v=v: [StateName(p, f, c, v)], rep, setup=setup, havoc_cb=False):
            if d[0] == "state":
                res.setdefault(d[1], {}).setdefault(d[2], set()).add((d[3],))
    for fid, t in res.items():
        f = prog.funcs[fid]
        other = {x for x in t.get(max(names) + 50, ())}
        for v in names:
            rep.ob("state-names")
            if t.get(v, set()) & other:
                bad(rep, "state-names", f, "the state %s has no name of its own" % names[v], names[v])
        judge_names(rep, "state-names", names, {v: x for v, x in t.items() if v in names}, f)
    env = [f for f in prog.funcs.values() if f.has_body and f.q.startswith("kanon::") and
           any(n.get("k") == "call" and n.get("q") == "getenv" for n in f.x or ())]
    drive(prog, env, lambda p, f, c: [EnvLevel(p, f, c, lv, off)], rep, tracked=TRACKED)
    switches(prog, rep)
    for r, n in (("level-names", 8), ("level-values", 1), ("state-names", 8)):
        rep.need(r, n)


def returns_text(f):
    return any(n.get("k") == "return" for n in f.x or ())
