"""plant.py: helper to write a planted bug.
spec file (python): ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (shell text), FILES={name: text}
Makes the patch from edits of a scratch copy, writes seeded/ID, runs the demo
on both trees (library rebuilt in scratch by the demo itself or from _build) and
the checks named on the command line against the patched copy."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    pids = sys.argv[2:] or [ns["PROP"]]
    d = os.path.join(V, "seeded", ns["ID"])
    w = "/tmp/plant-%s" % ns["ID"]
    subprocess.run(["rm", "-rf", w])
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    os.makedirs(w)
    subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s" % w, shell=True)
    subprocess.check_call("cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm x" % w, shell=True)
    for f, old, new in ns["EDITS"]:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit("%s: %d matches for %r" % (f, s.count(old), old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w, "diff"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    for n, t in ns.get("FILES", {}).items():
        open(os.path.join(d, n), "w").write(t)
    open(os.path.join(d, "demo.sh"), "w").write(ns["DEMO"])
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    subprocess.check_call("git -C /repo apply --check %s/patch.diff" % d, shell=True)
    for pid in pids:
        r = subprocess.run([sys.executable, os.path.join(V, "check.py"), pid], env=dict(os.environ, KANON_REPO=w),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(pid, "exit", r.returncode)
        print("\n".join(r.stdout.splitlines()[-12:]))
    if not os.environ.get("NODEMO"):
        # original tree
        r = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("demo on HEAD: exit", r.returncode, "\n".join(r.stdout.splitlines()[-6:]))
        subprocess.check_call("git -C /repo apply %s/patch.diff" % d, shell=True)
        try:
            b = subprocess.run("bash /opt/vp/build.sh 2>&1 | tail -5", shell=True, stdout=subprocess.PIPE, text=True)
            if "FAILED" in b.stdout or "error" in b.stdout:
                print(b.stdout)
            r = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print("demo patched: exit", r.returncode, "\n".join(r.stdout.splitlines()[-6:]))
            if os.environ.get("TESTS", "1") == "1":
                subprocess.run("bash /opt/vp/test.sh /tmp/plant.json", shell=True, stdout=subprocess.DEVNULL)
                base = json.load(open("/opt/vp/BASELINE.json"))
                st = set(base.get("passed") or base.get("stable") or base.get("tests"))
                got = set(json.load(open("/tmp/plant.json"))["passed"])
                print("stable tests lost:", sorted(st - got))
        finally:
            subprocess.check_call("git -C /repo checkout -- .", shell=True)
            subprocess.run("bash /opt/vp/build.sh > /dev/null 2>&1", shell=True)
    subprocess.run(["rm", "-rf", w])


main()
