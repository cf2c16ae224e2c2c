"""Private names are not part of any property: a member, function or variable
of the analysed tree that was renamed since the rules were written gets its
recorded name back, so that the rules judge what the code does and not what its
parts are called. names.json lists, per class, the members and their types and,
per function, its signature and what it uses (tools/names.py writes it). A name
is only replaced when the recorded one is gone and exactly the declarations of
the same class, type and signature remain to take its place."""
import difflib, json, os, re

HERE = os.path.dirname(os.path.abspath(__file__))
PATH = os.path.join(HERE, "names.json")


def own(file):
    return "/kanon/" in file and "/verif/" not in file and not file.endswith(".inst.cc")


def body(f):
    """what a function mentions"""
    out = set()
    for n in f.get("x") or []:
        k = n.get("k")
        if k in ("call", "ctor"):
            out.add(n.get("q"))
        elif k == "field":
            out.add(n["n"])
        elif k == "var" and str(n.get("v", "")).startswith("g:"):
            out.add(n["v"])
    out.discard(None)
    return sorted(out)


def sig(f):
    return "|".join([f.get("cls") or f["q"].rsplit("::", 1)[0], f["kind"], f["ret"], ",".join(p["t"] for p in f["params"]), str(f.get("const")), str(f.get("static"))])


def describe(data):
    funcs, recs, enums, globs = data[:4]
    R, F, G = {}, {}, {}
    for r in recs.values():
        if own(r["file"]) and r["fields"]:
            R.setdefault(r["q"], [[f["n"], f["t"]] for f in r["fields"]])
    for f in funcs.values():
        if own(f["file"]) and f["kind"] == "fn" and "$lambda" not in f["q"] and "operator" not in f["name"] and f["q"].startswith("kanon::"):
            e = F.setdefault(f["q"], {"sigs": [], "uses": []})
            if sig(f) not in e["sigs"]:
                e["sigs"].append(sig(f))
            if f.get("blocks") and not e["uses"]:
                e["uses"] = body(f)
    for g in globs.values():
        if own(g["file"]) and g["q"].startswith("kanon::"):
            G[g["q"]] = g["t"]
    for e in F.values():
        e["sigs"].sort()
    return {"fields": R, "functions": F, "globals": G}


def alike(a, b):
    return difflib.SequenceMatcher(None, a.rsplit("::", 1)[-1].lower(), b.rsplit("::", 1)[-1].lower()).ratio()


def pair(missing, new, score, least):
    """greedy one-to-one pairing by the best score"""
    out = {}
    c = sorted(((score(m, n), m, n) for m in missing for n in new), key=lambda t: (-t[0], t[1], t[2]))
    for s, m, n in c:
        if s >= least and m not in out and n not in out.values():
            out[m] = n
    return out


def renames(ref, cur):
    """{current name: recorded name}"""
    out = {}
    for q, fs in ref["fields"].items():
        now = cur["fields"].get(q)
        if not now:
            continue
        names, was = {n for n, _ in now}, {n for n, _ in fs}
        for t in {t for n, t in fs if n not in names}:
            miss = [n for n, u in fs if u == t and n not in names]
            new = [n for n, u in now if u == t and n not in was]
            if len(miss) == len(new):
                # the order of declaration tells them apart, unless names do
                p = dict(zip(miss, new))
                if len(miss) > 1:
                    b = pair(miss, new, alike, 0.6)
                    if len(b) == len(miss):
                        p = b
            else:
                p = pair(miss, new, alike, 0.6)
            out.update({n: m for m, n in p.items()})
    R, N = ref["functions"], cur["functions"]
    undo = lambda u: {out.get(x, x) for x in u}
    miss = [q for q in R if q not in N]
    new = [q for q in N if q not in R]
    groups = {}
    for q in miss:
        groups.setdefault(tuple(R[q]["sigs"]), ([], []))[0].append(q)
    for q in new:
        if tuple(N[q]["sigs"]) in groups:
            groups[tuple(N[q]["sigs"])][1].append(q)
    for ms, ns in groups.values():
        def score(m, n):
            a, b = set(R[m]["uses"]), undo(N[n]["uses"])
            j = len(a & b) / len(a | b) if a | b else 0.5
            return max(alike(m, n) * 0.5 + j * 0.5, j)
        out.update({n: m for m, n in pair(ms, ns, score, 0.45 if len(ms) == len(ns) == 1 else 0.6).items()})
    miss = [q for q in ref["globals"] if q not in cur["globals"]]
    new = [q for q in cur["globals"] if q not in ref["globals"]]
    ok = lambda m, n: alike(m, n) + 0.5 if ref["globals"][m] == cur["globals"][n] and m.rsplit("::", 1)[0] == n.rsplit("::", 1)[0] else 0
    out.update({n: m for m, n in pair(miss, new, ok, 0.5).items()})
    return out


def normalise(data):
    if not os.path.exists(PATH):
        return data, {}
    with open(PATH) as fp:
        ref = json.load(fp)
    m = renames(ref, describe(data))
    if not m:
        return data, {}
    rx = re.compile(r"(?<!\w)(?:%s)(?!\w)" % "|".join(re.escape(k) for k in sorted(m, key=len, reverse=True)))
    funcs, recs, enums, globs = json.loads(rx.sub(lambda k: m[k.group()], json.dumps(data[:4])))
    for f in funcs.values():
        if f["kind"] == "fn" and "$lambda" not in f["q"] and "operator" not in f["name"]:
            f["name"] = f["q"].rsplit("::", 1)[-1]
    for r in recs.values():
        for f in r["fields"]:
            if "sn" in f:
                f["sn"] = f["n"].rsplit("::", 1)[-1]
    return (funcs, recs, enums, globs) + tuple(data[4:]), m
