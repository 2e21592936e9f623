"""Extraction of facts from /repo's current sources and the in-memory database."""
import glob, hashlib, json, os, pickle, subprocess, sys, tempfile, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class AnalysisBroken(Exception):
    """The analysis cannot be carried out (exit status 2, never a violation)."""


def build_tool():
    exe = os.path.join(BUILD, "extract")
    src = os.path.join(VERIF, "tool", "extract.cpp")
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    r = subprocess.run(["make", "-B", "-C", os.path.join(VERIF, "tool"), "OUT=" + BUILD],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(exe):
        raise AnalysisBroken("cannot build the fact extractor:\n" + r.stdout[-3000:])
    return exe


def source_files(repo=REPO):
    return sorted(glob.glob(repo + "/lib/src/**/*.cpp", recursive=True) +
                  glob.glob(repo + "/app/*/src/**/*.cpp", recursive=True))


def all_inputs(repo=REPO):
    r = []
    for base in [repo + "/lib/src", repo + "/lib/include"] + sorted(glob.glob(repo + "/app/*/src")):
        for d, _, fs in os.walk(base):
            for f in fs:
                if f.endswith((".cpp", ".h", ".hpp", ".cc", ".cxx", ".c", ".inl")):
                    r.append(os.path.join(d, f))
    return sorted(r)


WARN = ["uninitialized", "sometimes-uninitialized", "uninitialized-const-reference", "static-self-init", "return-stack-address", "dangling", "dangling-gsl",
        "return-type", "infinite-recursion", "for-loop-analysis", "pessimizing-move", "self-move"]


def flags_for(repo, app):
    fl = ["-std=c++17", "-Wno-everything"] + ["-W" + w for w in WARN] + ["-fparse-all-comments", "-I" + repo + "/lib/include", "-I" + repo + "/lib/src",
          "-I/usr/include/libxml2", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18",
          '-DCOMMS_TAG="tag"', '-DCC_TOOLS_QT_TAG="tag"']
    if app:
        fl.insert(fl.index("-fparse-all-comments") + 1, "-I" + repo + "/app/" + app + "/src")
    return fl


def extract(repo=REPO, log=None):
    """Runs the extractor on every translation unit, returns the list of fact files."""
    exe = build_tool()
    files = source_files(repo)
    if len(files) < 200:
        raise AnalysisBroken("only %d source files found under %s" % (len(files), repo))
    out = tempfile.mkdtemp(prefix="sa_facts_")
    jobs = []
    groups = {}
    for f in files:
        rel = os.path.relpath(f, repo)
        app = rel.split("/")[1] if rel.startswith("app/") else ""
        groups.setdefault(app, []).append(f)
    work = []
    for app, fs in sorted(groups.items()):
        n = max(1, min(8, (len(fs) + 11) // 12))
        for i in range(n):
            part = fs[i::n]
            if part:
                work.append((app, part))
    work.sort(key=lambda w: -len(w[1]))
    running = []
    res = []
    errs = []

    def reap(block_all=False):
        while running and (block_all or len(running) >= max(2, os.cpu_count() or 4)):
            for r in list(running):
                if r[0].poll() is not None:
                    running.remove(r)
                    if r[0].returncode != 0:
                        errs.append(open(r[2]).read()[-4000:])
                    break
            else:
                time.sleep(0.02)
    for i, (app, part) in enumerate(work):
        reap()
        lst = os.path.join(out, "l%d" % i)
        o = os.path.join(out, "o%d" % i)
        lg = os.path.join(out, "log%d" % i)
        with open(lst, "w") as fh:
            fh.write("\n".join(part))
        p = subprocess.Popen([exe, repo, o, lst, "--"] + flags_for(repo, app),
                             stdout=open(lg, "w"), stderr=subprocess.STDOUT)
        running.append((p, o, lg))
        res.append(o)
    reap(True)
    if errs:
        shutil.rmtree(out, ignore_errors=True)
        raise AnalysisBroken("the current sources do not compile for the extractor:\n" + "\n".join(errs)[:6000])
    return out, res, files


class Fn:
    __slots__ = ("id", "q", "n", "f", "l", "el", "ret", "p", "parent", "cls", "inits", "b", "types",
                 "inst", "dep", "lams", "_cfg", "decl")

    def __repr__(self):
        return "<Fn %s %s:%d>" % (self.q, self.f, self.l)

    def where(self, line=None):
        return "%s:%d" % (self.f, line or self.l)


class DB:
    def __init__(self):
        self.fns = {}       # id -> Fn
        self.decls = {}     # id -> dict
        self.records = {}   # qname -> dict (list of fields etc.)
        self.enums = {}     # qname -> dict
        self.globals = {}   # id -> dict
        self.tus = []
        self.diags = []     # warnings of the compiler's flow analyses: f, l, o(ption), t(ext)
        self.overriders = {}  # id -> set of directly/indirectly overriding ids


def load(files):
    db = DB()
    import gc
    gc.disable()
    seen_diag = set()
    for path in files:
        pend = []
        with open(path) as fh:
            for ln in fh:
                o = json.loads(ln)
                k = o["k"]
                if k == "tu":
                    db.tus.append(o)
                    if o["err"]:
                        raise AnalysisBroken("errors while type-checking " + o["f"])
                elif k == "types":
                    t = o["t"]
                    for x in pend:
                        finish(db, x, t)
                    pend = []
                    cur = t
                elif k == "diag":
                    if (o["f"], o["l"], o["t"]) not in seen_diag:
                        seen_diag.add((o["f"], o["l"], o["t"]))
                        db.diags.append(o)
                elif k == "decls":
                    for u, d in o["d"].items():
                        if u in db.decls:
                            continue
                        d["ret"] = cur[d["ret"]]
                        d["pt"] = [cur[i] for i in d["pt"]]
                        if "targs" in d:
                            d["targs"] = [cur[i] for i in d["targs"]]
                        d["id"] = u
                        db.decls[u] = d
                else:
                    pend.append(o)
    for u, d in db.decls.items():
        for ov in d.get("over", ()):
            db.overriders.setdefault(ov, set()).add(u)
    # transitive closure
    changed = True
    while changed:
        changed = False
        for u, s in list(db.overriders.items()):
            add = set()
            for x in s:
                add |= db.overriders.get(x, set())
            if not add <= s:
                s |= add
                changed = True
    for fn in db.fns.values():
        if fn.parent and fn.parent in db.fns:
            db.fns[fn.parent].lams.append(fn.id)
        fn.decl = db.decls.get(fn.id)
    gc.enable()
    return db


def finish(db, o, t):
    k = o["k"]
    if k == "fn":
        if o["id"] in db.fns:
            return
        f = Fn()
        f.id = o["id"]; f.q = o["q"]; f.n = o["n"]; f.f = o["f"]; f.l = o["l"]; f.el = o["el"]
        f.ret = t[o["ret"]]
        f.p = [(p[0], p[1], t[p[2]]) for p in o["p"]]
        f.parent = o.get("parent"); f.cls = o.get("cls"); f.inits = o.get("inits")
        f.b = o["b"]; f.types = t; f.inst = o.get("inst"); f.dep = o.get("dep"); f.lams = []; f._cfg = None
        f.decl = None
        db.fns[f.id] = f
    elif k == "rec":
        if o["q"] in db.records:
            return
        o["fields"] = [{"name": x[0], "ty": t[x[1]], "line": x[2], "init": x[3], "cat": x[4]} for x in o["fields"]]
        o["types"] = t
        db.records[o["q"]] = o
    elif k == "enum":
        db.enums[o["q"]] = o
    elif k == "gv":
        o["ty"] = t[o["ty"]]
        o["types"] = t
        db.globals[o["id"]] = o


def inputs_hash(repo=REPO):
    h = hashlib.sha256()
    for f in all_inputs(repo) + [os.path.join(VERIF, "tool", "extract.cpp"), os.path.abspath(__file__)]:
        h.update(os.path.relpath(f, repo).encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


_cached = None


def get_db(repo=None):
    """Facts for the current working tree (cached by content hash of every source and header)."""
    global _cached
    repo = repo or REPO
    if _cached and _cached[0] == repo:
        return _cached[1]
    hs = inputs_hash(repo)
    cache = os.path.join(BUILD, "facts")
    path = os.path.join(cache, hs[:24] + ".pkl")
    sys.setrecursionlimit(20000)
    if os.path.exists(path):
        try:
            import gc
            gc.disable()
            with open(path, "rb") as fh:
                db = pickle.load(fh)
            gc.enable()
            _cached = (repo, db)
            return db
        except Exception:
            pass
    out, res, files = extract(repo)
    try:
        db = load(res)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    got = {t["f"] for t in db.tus}
    miss = [f for f in files if os.path.relpath(f, repo) not in got]
    if miss:
        raise AnalysisBroken("translation units without facts: " + ", ".join(miss[:5]))
    try:
        os.makedirs(cache, exist_ok=True)
        for old in sorted(glob.glob(cache + "/*.pkl"), key=os.path.getmtime)[:-3]:
            os.unlink(old)
        tmp = path + ".%d" % os.getpid()
        with open(tmp, "wb") as fh:
            pickle.dump(db, fh, protocol=4)
        os.replace(tmp, path)
    except OSError:
        pass
    _cached = (repo, db)
    return db
