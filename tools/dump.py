"""dump.py <qualified name> [opaque fn,...]: events and exit states of one function (for rule development)"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from absint import *
import program
prog = program.load()
kinds = set(os.environ.get("KINDS", "call,ret,read,write,branch,mutate,callback,deref,new,delete,return,leave,enter,index,ctor,dtor,declare").split(","))


def short(v):
    s = repr(v)
    return s.replace("('s', 'nn', 'this')", "THIS").replace("kanon::", "")[:int(os.environ.get("W", "160"))]


class D(Monitor):
    def event(self, ex, st, ev):
        if ev.kind in kinds and ev.fr.depth <= int(os.environ.get("DEPTH", "1")):
            if (ev.q or "").startswith("kanon::Logger") or "LexicalStream" in (ev.q or ""):
                return
            print("  " * ev.fr.depth, ev.line, ev.kind, (ev.q or "").replace("kanon::", ""), "loc=" + short(ev.loc) if ev.loc else "",
                  "obj=" + short(ev.obj) if ev.obj else "", "args=" + short(ev.args) if ev.args else "",
                  "val=" + short(ev.val) if ev.val else "", "ret=" + short(ev.ret) if ev.ret else "", ev.extra if ev.kind != "call" else "")


kw = {}
if len(sys.argv) > 2:
    kw["opaque_fn"] = set(sys.argv[2].split(","))
for f in prog.funcs.values():
    if f.q == sys.argv[1] and f.has_body:
        print("=====", f.id, [(p["n"], p["t"]) for p in f.params])
        ex = Exec(prog, [D()], havoc_cb=not os.environ.get("NOHAVOC"), **kw)
        out = ex.run(f)
        for r, s in out:
            print("EXIT", short(r), len(s.mem), {short(k): v[:2] for k, v in list(s.facts.items())[:30]})
