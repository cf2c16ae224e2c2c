"""Runs monitors over many root functions in parallel worker processes."""
import multiprocessing, os, sys, traceback
from program import Broken
import absint
from absint import Exec, Violation

_prog = None
_mk = None
_kw = None
_post = None


class Collector:
    """what a worker returns: violations and per-rule obligation counters"""

    def __init__(self):
        self.obl = {}
        self.data = []

    def ob(self, rid, n=1):
        self.obl[rid] = self.obl.get(rid, 0) + n


def _run(fid):
    f = _prog.funcs[fid]
    last = None
    for lim, steps in ((Exec.LIMIT, 60000), (1, 400000)):
        col = Collector()
        mons = _mk(_prog, f, col)
        kw = dict(_kw)
        run_kw = {}
        for k in ("args", "this", "setup"):
            if k in kw:
                run_kw[k] = kw.pop(k)
        ex = Exec(_prog, mons, **kw)
        ex.LIMIT = lim
        ex.MAXSTEPS = steps
        ex.col = col
        try:
            out = ex.run(f, **run_kw)
            for m in mons:
                if hasattr(m, "finish"):
                    m.finish(ex, f, out)
            vs = [(v.rule, v.fn, v.where, v.msg, v.stack, v.key) for v in ex.violations.values()]
            return (fid, None, vs, col.obl, col.data, sorted(_prog.funcs[i].q for i in ex.stats["functions"]),
                    len(out), ex.stats["calls"])
        except Broken as e:
            last = str(e)
        except Exception:
            return (fid, "internal: %s" % traceback.format_exc()[-1500:], [], {}, [], [], 0, 0)
    return (fid, last, [], {}, [], [], 0, 0)


def drive(prog, roots, mk, rep=None, tolerate=(), **kw):
    """mk(prog, rootfn, col) -> monitors.  Returns col.data of all roots."""
    global _prog, _mk, _kw
    _prog, _mk, _kw = prog, mk, kw
    roots = [r for r in roots if r.has_body]
    ids = sorted({r.id for r in roots}, key=lambda i: (-sum(len(b["e"]) for b in prog.funcs[i].blocks.values()), i))
    res = []
    if not ids:
        return []
    if len(ids) == 1 or os.environ.get("KANON_SERIAL"):
        res = [_run(i) for i in ids]
    else:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(min(8, len(ids))) as pool:
            for r in pool.imap_unordered(_run, ids, chunksize=max(1, min(8, len(ids) // 32))):
                res.append(r)
    res.sort()
    data, broken = [], []
    for fid, err, vs, obl, d, fs, nst, calls in res:
        if err:
            broken.append((prog.funcs[fid].q, err))
            continue
        data += d
        if rep is not None:
            for v in vs:
                rep.violate(*v)
            for k, n in obl.items():
                rep.ob(k, n)
            rep.funcs.update(fs)
            rep.states += nst
            rep.calls += calls
    if broken:
        for q, e in broken:
            print("ANALYSIS-INCOMPLETE: %s: %s" % (q, e), file=sys.stderr)
        raise Broken("%d root(s) could not be analysed: %s" % (len(broken), ", ".join(q for q, _ in broken[:8])))
    return data


# ------------------------------------------------------------------ roots
def address_taken(prog):
    """functions whose address is used other than by a direct call"""
    at = getattr(prog, "_addr_taken", None)
    if at is not None:
        return at
    taken, called = set(), {}
    for f in prog.funcs.values():
        if not f.x:
            continue
        refs, calls = {}, {}
        for n in f.x:
            k = n.get("k")
            if k in ("call", "ctor") and n.get("f"):
                called.setdefault(n["f"], set()).add(f.id)
                if "o" not in n or "opc" in n:
                    calls[n["f"]] = calls.get(n["f"], 0) + 1
            elif k == "fref" and n.get("f"):
                refs[n["f"]] = refs.get(n["f"], 0) + 1
        # the callee expression of a direct call is a reference too
        for i, c in refs.items():
            if c > calls.get(i, 0):
                taken.add((i, f.id))
    prog._addr_taken = {t for t, _ in taken}
    prog._called = called
    return prog._addr_taken


def sync_lambdas(prog):
    """lambdas that are only handed to standard algorithms: they run in place"""
    r = getattr(prog, "_sync_lams", None)
    if r is None:
        r = set()
        for f in prog.funcs.values():
            for n in f.x or ():
                if n.get("k") == "call" and n.get("q") in absint.ALGOS:
                    for a in n.get("args", ()):
                        while a >= 0 and f.x[a].get("k") in ("alias", "cast", "ctor"):
                            m = f.x[a]
                            a = m["a"] if m["k"] != "ctor" else (m["args"][0] if m["args"] else -1)
                        if a >= 0 and f.x[a].get("k") == "lambda":
                            r.add(f.x[a]["f"])
            r |= called_in_place(f)
        prog._sync_lams = r
    return r


def called_in_place(f):
    """closures kept in a local variable that is only called, or only handed
    to standard algorithms"""
    x = f.x or ()

    def under(a):
        while a is not None and a >= 0 and x[a].get("k") in ("alias", "cast", "ctor"):
            m = x[a]
            a = m["a"] if m["k"] != "ctor" else (m["args"][0] if m["args"] else -1)
        return a

    held = {}
    for n in x:
        if n.get("k") == "decl":
            for v in n.get("vars", ()):
                i = under(v.get("x", -1))
                if i is not None and i >= 0 and x[i].get("k") == "lambda":
                    held[v["v"]] = x[i]["f"]
    if not held:
        return set()
    good, uses = {}, {}
    for i, n in enumerate(x):
        if n.get("k") == "var" and n.get("v") in held:
            uses[n["v"]] = uses.get(n["v"], 0) + 1
        if n.get("k") == "lambda":
            for c in n.get("caps", ()):
                if c.get("v") in held:
                    uses[c["v"]] = uses.get(c["v"], 0) + 1
        if n.get("k") == "call":
            args = ()
            if n.get("o") is not None and n.get("opc") == "()":
                args = (n["o"],)
            elif n.get("q") in absint.ALGOS:
                args = n.get("args", ())
            for a in args:
                j = under(a)
                if j is not None and j >= 0 and x[j].get("k") == "var" and x[j].get("v") in held:
                    good[x[j]["v"]] = good.get(x[j]["v"], 0) + 1
    return {l for v, l in held.items() if uses.get(v, 0) and uses.get(v, 0) == good.get(v, 0)}


def is_root(prog, f):
    """may be entered from code we do not see"""
    if not f.has_body:
        return False
    at = address_taken(prog)
    if f.parent:
        return f.id not in sync_lambdas(prog)
    if f.id in at:
        return True
    if f.d.get("virtual"):
        return True
    if f.cls and f.d.get("access") in ("private", "protected") and f.kind == "fn":
        return not prog._called.get(f.id)
    if not f.cls and f.d.get("internal"):
        return not prog._called.get(f.id)
    return True


def all_roots(prog, prefix="kanon::"):
    return [f for f in prog.funcs.values() if is_root(prog, f)]
