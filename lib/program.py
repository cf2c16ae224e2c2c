"""Loads the compiler-resolved facts of /repo's current tree (built fresh by the
kfacts extractor; results are cached by the exact content of every input)."""
import names
import concurrent.futures, glob, hashlib, json, os, pickle, subprocess, sys, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KANON_REPO", "/repo")
FLAGS = ["-std=gnu++11", "-I" + REPO, "-pthread", "-march=x86-64", "-w"]
KFACTS = os.path.join(VERIF, "build", "kfacts")


class Broken(Exception):
    """the analysis itself cannot decide (missing anchor, unparsable source)"""


def sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "kanon")):
        rel = os.path.relpath(root, os.path.join(REPO, "kanon"))
        top = rel.split(os.sep)[0]
        if top in ("win", "protobuf", "rpc"):
            dirs[:] = []
            continue
        for f in files:
            if f.endswith(".cc"):
                out.append(os.path.join(root, f))
    return sorted(out)


def input_digest(srcs):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "kanon")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith((".cc", ".h", ".inl", ".c", ".hpp", ".ipp")):
                h.update(p.encode())
                with open(p, "rb") as fp:
                    h.update(fp.read())
    for root, dirs, files in os.walk(os.path.join(REPO, "third-party", "xxHash")):
        for f in sorted(files):
            if f.endswith((".h", ".c")):
                with open(os.path.join(root, f), "rb") as fp:
                    h.update(fp.read())
    for p in [os.path.join(VERIF, "extract", "extract.cc"), os.path.abspath(__file__), names.__file__] + ([names.PATH] if os.path.exists(names.PATH) else []) + \
            sorted(glob.glob(os.path.join(VERIF, "extract", "*.inst.cc"))):
        with open(p, "rb") as fp:
            h.update(fp.read())
    h.update("\n".join(srcs).encode())
    h.update(" ".join(FLAGS).encode())
    return h.hexdigest()[:24]


def ensure_extractor():
    r = subprocess.run([os.path.join(VERIF, "extract", "build.sh")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Broken("extractor does not build:\n" + r.stdout[-2000:])


def _one(args):
    src, out = args
    r = subprocess.run([KFACTS, REPO + "/kanon/", out, src, "--"] + FLAGS,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return src, out, r.returncode, r.stdout[-3000:]


class Func:
    __slots__ = ("d", "id", "q", "name", "file", "line", "cls", "params", "x",
                 "blocks", "entry", "exit", "kind", "_prep", "parent")

    def __init__(self, d):
        self.d = d
        self.id = d["id"]
        self.q = d["q"]
        self.name = d["name"]
        self.file = d["file"]
        self.line = d["line"]
        self.cls = d.get("cls", "")
        self.params = d["params"]
        self.x = d.get("x")
        self.kind = d["kind"]
        self.parent = d.get("parent")
        self.blocks = {b["b"]: b for b in d.get("blocks", [])}
        self.entry = d.get("entry")
        self.exit = d.get("exit")
        self._prep = None

    @property
    def has_body(self):
        return bool(self.blocks)

    @property
    def loc(self):
        return "%s:%d" % (os.path.relpath(self.file, REPO), self.line)

    def __repr__(self):
        return "<%s %s>" % (self.q, self.loc)


class Program:
    def __init__(self, funcs, records, enums, globs, tus):
        self.funcs = funcs
        self.records = records          # q -> list of record dicts
        self.enums = enums
        self.globals = globs
        self.tus = tus
        self.byq = {}
        for f in funcs.values():
            self.byq.setdefault(f.q, []).append(f)
        self.over = {}
        for f in funcs.values():
            for o in f.d.get("overrides", []):
                self.over.setdefault(o, set()).add(f.id)
        self.fields = {}
        for rs in records.values():
            for r in rs:
                for fl in r["fields"]:
                    self.fields.setdefault(fl["n"], fl)
        self.enumval = {}
        for e in enums.values():
            for n, v in e["vals"]:
                self.enumval[n] = v

    def witness(self, name):
        """functions of one of our witness files, added to the program"""
        if name in self.failed:
            raise Broken("%s does not compile against the current tree:\n%s" % (name, self.failed[name]))
        out = {k: f for k, f in self.witnesses.items() if os.path.basename(f.file) == name}
        if not out:
            raise Broken("%s has no functions" % name)
        for k, f in out.items():
            self.funcs[k] = f
        return {f.q: f for f in out.values()}

    def fn(self, q, body=True):
        """all (instantiated) functions with this qualified name"""
        r = [f for f in self.byq.get(q, []) if (f.has_body or not body)]
        return sorted(r, key=lambda f: f.id)

    def need(self, q):
        r = self.fn(q)
        if not r:
            raise Broken("anchor vanished: no function body named %s" % q)
        return r

    def record(self, q):
        r = self.records.get(q)
        if not r:
            raise Broken("anchor vanished: no class named %s" % q)
        return r[0]

    def enum(self, n):
        if n not in self.enumval:
            raise Broken("anchor vanished: no enumerator %s" % n)
        return self.enumval[n]

    def field(self, n):
        if n not in self.fields:
            raise Broken("anchor vanished: no field named %s" % n)
        return self.fields[n]

    def overriders(self, fid):
        out, todo = set(), [fid]
        while todo:
            x = todo.pop()
            for o in self.over.get(x, ()):
                if o not in out:
                    out.add(o)
                    todo.append(o)
        return out

    def children(self, fid):
        return [f for f in self.funcs.values() if f.parent == fid]

    def derives(self, cls, base):
        if cls == base:
            return True
        for r in self.records.get(cls, []):
            for b in r["bases"]:
                if self.derives(b, base):
                    return True
        return False


def load(verbose=False):
    return build(gather())


def gather(verbose=False):
    srcs = sources()
    if len(srcs) < 30:
        raise Broken("only %d source files found below %s/kanon" % (len(srcs), REPO))
    insts = sorted(glob.glob(os.path.join(VERIF, "extract", "*.inst.cc")))
    dg = input_digest(srcs)
    cdir = os.path.join(VERIF, "build", "cache")
    cpath = os.path.join(cdir, dg + ".pickle")
    if os.path.exists(cpath):
        try:
            with open(cpath, "rb") as fp:
                return pickle.load(fp)
        except Exception:
            pass
    ensure_extractor()
    tmp = tempfile.mkdtemp(prefix="kfacts.")
    try:
        jobs = []
        for i, s in enumerate(srcs + insts):
            jobs.append((s, os.path.join(tmp, "%d.json" % i)))
        funcs, recs, enums, globs = {}, {}, {}, {}
        failed = {}
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for src, out, rc, log in ex.map(_one, jobs):
                if (rc != 0 or not os.path.exists(out)) and src in insts:
                    failed[os.path.basename(src)] = log
                    continue
                if rc != 0 or not os.path.exists(out):
                    raise Broken("cannot parse %s:\n%s" % (src, log))
                with open(out) as fp:
                    d = json.load(fp)
                os.unlink(out)
                for f in d["functions"]:
                    o = funcs.get(f["id"])
                    if o is None or (not o.get("blocks") and f.get("blocks")):
                        funcs[f["id"]] = f
                for r in d["records"]:
                    recs.setdefault(r["t"], r)
                for e in d["enums"]:
                    enums.setdefault(e["q"], e)
                for g in d["globals"]:
                    globs.setdefault(g["q"] + "@" + g["file"], g)
        data = (funcs, recs, enums, globs, [os.path.relpath(s, REPO) for s in srcs], failed)
        data, renamed = names.normalise(data)
        if renamed and verbose:
            print("renamed:", renamed)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    try:
        os.makedirs(cdir, exist_ok=True)
        old = sorted(glob.glob(os.path.join(cdir, "*.pickle")), key=os.path.getmtime)
        for o in old[:-3]:
            os.unlink(o)
        t = cpath + ".%d" % os.getpid()
        with open(t, "wb") as fp:
            pickle.dump(data, fp, protocol=4)
        os.replace(t, cpath)
    except OSError:
        pass
    return data


def build(data):
    funcs, recs, enums, globs, tus, failed = data
    F = {k: Func(v) for k, v in funcs.items()}
    W = {k: f for k, f in F.items() if f.file.endswith(".inst.cc")}
    F = {k: f for k, f in F.items() if k not in W}
    R = {}
    for r in recs.values():
        R.setdefault(r["q"], []).append(r)
    G = {}
    for g in globs.values():
        G.setdefault(g["q"], []).append(g)
    p = Program(F, R, enums, G, tus)
    p.witnesses, p.failed = W, failed
    return p


if __name__ == "__main__":
    import time
    t = time.time()
    p = load()
    print(len(p.funcs), len(p.records), len(p.enums), len(p.globals), len(p.tus), time.time() - t)
