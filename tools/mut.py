"""mut.py spec.py [name...]: runs checks on edited copies of the tree (rule development).
spec: MUTS = [(name, "P05 P06", [(file, old, new), ...], expect)]  expect: 1 (caught) / 0 (quiet)"""
import os, subprocess, sys, concurrent.futures, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = set(sys.argv[2:])
q = queue.Queue()
N = 4
for i in range(N):
    w = "/tmp/mutw%d" % i
    subprocess.run(["rm", "-rf", w])
    os.makedirs(w)
    subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s" % w, shell=True)
    q.put(w)


def one(m):
    name, pids, edits, exp = m
    w = q.get()
    try:
        old = {}
        for f, a, b in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            old.setdefault(p, s)
            if s.count(a) < 1:
                return name, "NOMATCH %r" % a[:60]
            open(p, "w").write(s.replace(a, b, 1))
        out = []
        for pid in pids.split():
            r = subprocess.run(["timeout", "300", sys.executable, os.path.join(V, "check.py"), pid], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, env=dict(os.environ, KANON_REPO=w, KANON_SCRATCH="1"))
            out.append((pid, r.returncode, [l.strip()[:230] for l in r.stdout.splitlines() if "] in " in l or "BROKEN" in l or "cannot" in l or "error:" in l][:3]))
        for p, s in old.items():
            open(p, "w").write(s)
        ok = any(r == 1 for _, r, _ in out) if exp == 1 else all(r == 0 for _, r, _ in out)
        return name, ("ok  " if ok else "BAD ") + " ".join("%s=%d" % (p, r) for p, r, _ in out) + \
            ("" if ok and not os.environ.get("VERB") else "\n      " + "\n      ".join(l for _, _, ls in out for l in ls))
    finally:
        q.put(w)


ms = [m for m in ns["MUTS"] if not want or m[0] in want]
with concurrent.futures.ThreadPoolExecutor(N) as ex:
    for n, r in ex.map(one, ms):
        print("%-28s %s" % (n, r), flush=True)
for i in range(N):
    subprocess.run(["rm", "-rf", "/tmp/mutw%d" % i])
