#!/usr/bin/env python3
"""puts DESIGN.md together (see its section 1)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from registry import PROPS, TECH, BASE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = json.load(open(os.path.join(V, "design/notes.json")))
man = json.load(open(os.path.join(V, "MANIFEST.json")))
na = {e["property"]: e["reason"] for e in man["not_applicable"]}
out = [open(os.path.join(V, "design/head.md")).read()]
seeds = {}
sd = os.path.join(V, "seeded")
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    seeds.setdefault(m["property"], []).append((s, m))
rules_file = os.path.join(V, "design/rules.json")
rules = json.load(open(rules_file)) if os.path.exists(rules_file) else {}
for p in props:
    f = os.path.join(V, "evidence", p["id"] + ".json")
    if os.path.exists(f):
        e = json.load(open(f))
        rules[p["id"]] = {k: v["rule"] for k, v in e["coverage"].get("rules", {}).items()}
json.dump(rules, open(rules_file, "w"), indent=1, sort_keys=True)
out.append("\n## 4. Properties and how each is decided\n")
for p in props:
    pid = p["id"]
    if pid not in PROPS:
        continue
    mod, how = PROPS[pid]
    out.append("### %s — %s" % (pid, p["title"]))
    out.append("*%s* (`lib/%s.py`). %s" % (TECH[pid], mod, how.replace(BASE, "")))
    out.append("")
    for k, t in rules.get(pid, {}).items():
        out.append("- `%s`: %s" % (k, t))
    n = notes.get(pid)
    if n:
        out += ["", n]
    out += ["", "Why not by tests: %s" % p["why_tests_cant"]]
    for s, m in seeds.get(pid, []):
        out.append("Seeded: `%s` (%s)." % (s, m["needs"]))
    out.append("")
out.append("## 5. Not applicable\n")
for p in props:
    if p["id"] in na:
        out.append("- **%s** %s: %s" % (p["id"], p["title"], na[p["id"]]))
out.append("\n## 6. Planted bugs and what catches them\n")
out.append("| change | property | what it needs | caught |\n|---|---|---|---|")
caught = notes.get("caught", {})
for pid in sorted(seeds):
    for s, m in seeds[pid]:
        out.append("| %s | %s | %s | %s |" % (s, pid, m["needs"].replace("|", "/"), caught.get(s, "by %s" % pid)))
out.append("")
out.append(open(os.path.join(V, "design/tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
