"""Result collection, known findings, evidence files and exit codes."""
import json, os, sys, time
from program import REPO, VERIF, Broken

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.viol = {}          # key -> dict
        self.obl = {}           # rule -> count
        self.rules = {}         # rule -> text
        self.funcs = set()
        self.notes = []
        self.assumptions = []
        self.t0 = time.time()
        self.states = 0
        self.calls = 0

    def rule(self, rid, text):
        self.rules[rid] = text
        self.obl.setdefault(rid, 0)

    def ob(self, rid, n=1):
        self.obl[rid] = self.obl.get(rid, 0) + n

    def scope(self, *fs):
        for f in fs:
            self.funcs.add(f if isinstance(f, str) else f.q)

    def violate(self, rule, fn, where, msg, stack=(), key=None):
        key = key or "%s|%s" % (rule, fn)
        if key not in self.viol:
            self.viol[key] = {"rule": rule, "function": fn, "where": where, "msg": msg,
                              "path": list(stack), "key": key}

    def take(self, v):
        """absint Violation"""
        self.violate(v.rule, v.fn, v.where, v.msg, v.stack, v.key)

    def need(self, rid, least=1):
        """a rule that found nothing to check is a broken analysis"""
        if self.obl.get(rid, 0) < least:
            raise Broken("rule %s found %d obligation(s), expected at least %d: anchor vanished?" %
                         (rid, self.obl.get(rid, 0), least))


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: "):
                # finding: property=P01 key=<rule|function> :: text
                head, _, text = line[len("finding: "):].partition(" :: ")
                p, _, key = head.partition(" key=")
                if p.strip() == "property=" + pid:
                    out[key.strip()] = text.strip()
    return out


def finish(rep, level, explanation, tier):
    kf = known_findings(rep.pid)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    new = []
    for k, v in sorted(rep.viol.items()):
        if k in kf:
            print("KNOWN-FINDING: property=%s %s [%s at %s]" % (rep.pid, kf[k], k, v["where"]))
        else:
            new.append(v)
    total = sum(rep.obl.values())
    print("%s: %d rule(s), %d obligation(s), %d function(s) analysed, %.1f s" %
          (rep.pid, len(rep.rules), total, len(rep.funcs), time.time() - rep.t0))
    for r, t in rep.rules.items():
        print("  %-28s %6d  %s" % (r, rep.obl.get(r, 0), t))
    ev = {
        "property": rep.pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "wall_s": round(time.time() - rep.t0, 2),
        "coverage": {
            "explanation": explanation,
            "obligations": total,
            "discharged": total - len(rep.viol) if total >= len(rep.viol) else 0,
            "rules": {r: {"obligations": rep.obl.get(r, 0), "rule": t} for r, t in rep.rules.items()},
            "functions_analysed": len(rep.funcs),
            "functions": sorted(rep.funcs)[:400],
            "abstract_exit_states": rep.states,
            "calls_inlined": rep.calls,
            "notes": rep.notes,
            "known_findings": sorted(k for k in rep.viol if k in kf),
        },
        "assumptions": rep.assumptions,
        "violations": len(new),
    }
    ed = os.path.join(VERIF, "evidence")
    os.makedirs(ed, exist_ok=True)
    path = os.path.join(ed, rep.pid + ".json")
    with open(path, "w") as fp:
        json.dump(ev, fp, indent=1)
    if not new:
        print("%s: holds on the current tree" % rep.pid)
        return 0
    rd = os.path.join(VERIF, "build", "replay")
    os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, rep.pid + ".txt")
    with open(rp, "w") as fp:
        for v in new:
            fp.write("%s [%s] in %s: %s\n" % (v["where"], v["rule"], v["function"], v["msg"]))
            for s in v["path"]:
                fp.write("      %s\n" % s)
            fp.write("   key=%s\n" % v["key"])
    for v in new:
        print("  %s [%s] in %s: %s" % (v["where"], v["rule"], v["function"], v["msg"]))
        if len(v["path"]) > 1:
            print("      call path: " + " <- ".join(v["path"]))
        print("      key=%s" % v["key"])
    print("VIOLATION property=%s replay=%s" % (rep.pid, rp))
    return 1
