"""P33: owning and identity classes cannot be copied.

A generated translation unit instantiates the copy and move traits of every class with the repository's own headers; the
compiler decides them (-fsyntax-only).  Which classes release something in their destructor is read off the destructor."""
import os
import re
import subprocess
import tempfile
from absint import *
import program
from program import Broken
from drive import drive
from rules_lock import THIS

# classes with an identity or a resource: a copy of one is never meaningful
IDENTITY = ["Socket", "Channel", "PollerBase", "Poller", "Epoller", "EventLoop", "EventLoopThread", "EventLoopPool", "Thread",
            "ThreadPool", "MutexLock", "MutexGuard", "MutexGuardT", "Condition", "RWLock", "RLockGuard", "WLockGuard",
            "CountDownLatch", "TimerQueue", "Timer", "AppendFile", "LogFile", "AsyncLog", "Logger", "Acceptor", "Connector",
            "TcpServer", "TcpClient", "ConnectionBase", "TcpConnection", "UnixConnection", "FixedChunkMemoryPool"]
TRAITS = [("CC", "is_copy_constructible", "copy-constructed"), ("CA", "is_copy_assignable", "copy-assigned"),
          ("MC", "is_move_constructible", "move-constructed"), ("MA", "is_move_assignable", "move-assigned")]
LET_GO = re.compile(r"^(?:::)?(free|close|fclose|munmap|pclose|closedir|freeaddrinfo|sem_destroy|pthread_\w*destroy|pthread_detach|"
                    r"pthread_join|pthread_\w*unlock|operator delete(\[\])?)$")


def classes(prog):
    out = []
    for q, rs in sorted(prog.records.items()):
        for r in rs:
            if not r["file"].startswith(program.REPO) or not r["file"].endswith(".h") and not r.get("t", "").endswith(">"):
                continue
            if "(anonymous" in r["t"] or "lambda" in r["t"]:
                continue
            out.append(r)
    return out


def headers(prog, rs):
    hs = []
    for r in rs:
        h = os.path.relpath(r["file"], program.REPO)
        if h.endswith(".h") and h not in hs:
            hs.append(h)
    return hs


def traits(prog, rs):
    """which traits hold: {type text: {trait: True/False/None}}; None when the type cannot be named from outside"""
    lines = ["#include <type_traits>", "#include <sys/uio.h>"] + ["#include \"%s\"" % h for h in headers(prog, rs)]
    # the guards are hidden behind function-like macros of the same name to catch unnamed guards
    lines += ["#undef RLockGuard", "#undef WLockGuard", "#undef MutexGuard", "#undef MutexGuardT"]
    at = {}
    for r in rs:
        for k, tr, _ in TRAITS:
            lines.append("static_assert(!std::%s<%s >::value, \"HOLDS\");" % (tr, r["t"]))
            at[len(lines)] = (r["t"], k)
    d = tempfile.mkdtemp(prefix="p33")
    src = os.path.join(d, "copies.cc")
    with open(src, "w") as fp:
        fp.write("\n".join(lines) + "\n")
    cmd = ["clang++", "-fsyntax-only", "-ferror-limit=0", "-fno-caret-diagnostics", "-fno-color-diagnostics"] + program.FLAGS + [src]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    os.remove(src)
    os.rmdir(d)
    out = {r["t"]: {k: False for k, _, _ in TRAITS} for r in rs}
    cur = None
    for ln in p.stdout.splitlines():
        m = re.match(r"(.*?):(\d+):\d+: (fatal error|error|note): (.*)", ln)
        if not m:
            continue
        if m.group(1) == src and int(m.group(2)) in at:
            t, k = at[int(m.group(2))]
            if m.group(3) == "error":
                if "static assertion failed" in m.group(4) or "static_assert failed" in m.group(4):
                    if out[t][k] is False:
                        out[t][k] = True
                else:
                    out[t][k] = None
            elif m.group(3) == "note" and "in instantiation of" in m.group(4) and cur:
                out[t][k] = None
        elif m.group(3) != "note":
            cur = ln
            if m.group(1) == src:
                raise Broken("the generated file does not compile: " + ln)
    return out


class Frees(Monitor):
    """what a destructor lets go of through a handle of its own: a pointer, a reference, a number or a C structure"""

    def __init__(self, handles, root, col):
        self.names, self.root, self.col = handles, root, col

    def initial(self):
        return ()

    def own(self, v, depth=0):
        if isinstance(v, tuple):
            if len(v) >= 3 and v[0] == 'f' and v[1] == THIS and v[2] in self.names:
                return v[2]
            if depth < 12:
                for x in v:
                    r = self.own(x, depth + 1)
                    if r:
                        return r
        return None

    def event(self, ex, st, ev):
        n, what = None, ""
        if ev.kind == "delete":
            n, what = self.own(ev.val), "deletes"
        elif ev.kind == "call" and LET_GO.match(ev.q or ""):
            n = next((r for r in (self.own(a) for a in (ev.args or ())) if r), None)
            what = "calls %s on" % ev.q
        elif ev.kind == "call" and (ev.q or "").endswith("::deallocate"):
            n = next((r for r in (self.own(a) for a in (ev.args or ())) if r), None)
            what = "deallocates"
        elif ev.kind == "write" and ev.loc:
            b = ev.loc                   # a state change in the object that a reference or pointer of its own designates
            while isinstance(b, tuple) and b[0] in ('f', 'i', 'e'):
                b = b[1]
            if isinstance(b, tuple) and b[0] == 'p' and b != THIS:
                n, what = self.own(b), "changes the object behind"
        if n:
            self.col.data.append((self.root.cls, n, what, ev.line))
        return None


def P33(prog, rep, tier):
    rep.rule("identity", "classes that own a descriptor, thread, lock, loop, timer, file or pool, or whose address is registered elsewhere, "
             "are neither copy-constructible nor copy-assignable (decided by the compiler on the traits of each class)")
    rep.rule("three", "a class whose destructor lets go of something through a pointer, reference, number or C structure of its own "
             "is copied or moved only by an operation that it defines itself")
    rs = classes(prog)
    byq = {}
    for r in rs:
        byq.setdefault(r["q"], []).append(r)
    ident = ["kanon::" + n for n in IDENTITY]
    gone = [q for q in ident if q not in byq]
    if gone:
        raise Broken("classes not found: " + ", ".join(gone))
    want = [r for r in rs if r["q"] in ident or r["userdtor"]]
    tr = traits(prog, want)
    name = dict((k, w) for k, _, w in TRAITS)
    for r in want:
        if r["q"] not in ident:
            continue
        for k in ("CC", "CA"):
            v = tr[r["t"]][k]
            if v is None:
                raise Broken("the compiler does not decide whether %s can be %s" % (r["t"], name[k]))
            if v:
                rep.violate("identity", r["q"], "%s:%d" % (os.path.relpath(r["file"], program.REPO), r["line"]),
                            "%s can be %s: two objects would then stand for one resource or identity" % (r["t"], name[k]),
                            ["std::%s<%s>::value is true" % (dict((a, b) for a, b, _ in TRAITS)[k], r["t"])], r["t"] + ":" + k)
            rep.ob("identity")
    # rule of three
    roots, handles = [], {}
    for r in want:
        f = prog.funcs.get(r.get("dtor"))
        if not f or not f.has_body:
            continue
        hs = set()
        for fl in r["fields"]:
            t = fl["t"].strip()
            if not fl.get("c") or t.endswith(("*", "&")) or t.startswith(("pthread_", "sem_")):
                hs.add(fl["n"])
        handles[f.id] = (r, hs)
        roots.append(f)
    found = drive(prog, roots, lambda p, f, c: [Frees(handles[f.id][1], f, c)], rep)
    owns = {}
    for cls, n, what, line in found:
        owns.setdefault(cls, (n, what, line))
    for f in roots:
        r, hs = handles[f.id]
        o = owns.get(f.cls)
        if not o:
            continue
        for k, _, w in TRAITS:
            rep.ob("three")
            v = tr[r["t"]][k]
            # a move trait also holds where only a copy exists
            if v and not r["own" + k] and not (k in ("MC", "MA") and r["ownC" + k[1]]):
                rep.violate("three", r["q"], "%s:%d" % (os.path.relpath(r["file"], program.REPO), r["line"]),
                            "%s can be %s member by member, but its destructor (line %d) %s %s: done twice" %
                            (r["t"], w, o[2], o[1], o[0].rsplit("::", 1)[-1]), [], r["t"] + ":three:" + k)
    rep.need("identity", 2 * len(ident))
    rep.need("three", 20)
