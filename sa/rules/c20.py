"""C20: code-injection snippets are consumed, not copied to the output."""
import re
from sa import core, status, tables

RULE = ("per generator: every file-name suffix under which injected code is looked up must be in the list of reserved extensions handed to "
        "genCopyExtraSourceFiles(), every reserved extension must be a suffix some generator looks up, and the copy must be skipped for reserved files")
EXPLAIN = ("Enumerated: the arguments of all code-injection reads (genReadCodeInjectCode & co., file names built for them) are evaluated to their "
           "trailing suffix, as are all uses of the commsdsl::gen::strings suffix functions; the reserved list of each generator is evaluated from "
           "what reaches genCopyExtraSourceFiles(). Reported: a suffix that is read but not reserved (the snippet would also be copied verbatim), a "
           "reserved suffix nobody reads (the user's file would be dropped), a path on which a reserved file reaches the copy.")


def where(f, ln):
    return "%s:%d" % (f.f, ln)


def name(db, n):
    d = db.decls.get(core.callee(n)) if n[0] in ("call", "op") else None
    return d["n"] if d else ""


class Suf:
    def __init__(self, db):
        self.db, self.S, self.T = db, status.get(db), tables.get(db)
        self.fns = {}
        for f in db.fns.values():
            if "strings" in f.q and f.b and not f.p:
                v = self.T.fn_value(f)
                if v and v[0] == "s":
                    self.fns[f.id] = v[1]

    def tail(self, f, e, depth=4):
        """possible constant tails of a string expression"""
        e = core.strip(e) if e else None
        while e and e[0] == "ctor" and len([x for x in e[4] if x and x[0] != "dflt"]) == 1:
            e = core.strip([x for x in e[4] if x and x[0] != "dflt"][0])
        if not e or not depth:
            return set()
        v = self.T.ev(f, e)
        if v and v[0] == "s":
            return {v[1]}
        if e[0] == "op" and e[3] == "+":
            r = self.tail(f, e[5][1], depth)
            l = self.tail(f, e[5][0], depth)
            return {a + b for a in l for b in r} if l and r else r
        if e[0] == "cond":
            return self.tail(f, e[4], depth) | self.tail(f, e[5], depth)
        if e[0] == "call" and e[3] in self.fns:
            return {self.fns[e[3]]}
        if e[0] == "call":
            out = set()
            for t in self.S.targets(f, e) or ():
                g = self.db.fns.get(t)
                if g is not None and g.b and g.f.startswith(("app/", "lib/src/gen")):
                    for s in core.stmts(g.b):
                        if s[0] == "ret" and s[2]:
                            out |= self.tail(g, s[2], depth - 1)
            return out
        if e[0] == "v":
            i = self.T.var_init(core.root_fn(self.db, f), e[3]) or self.T.var_init(f, e[3])
            out = set()
            if i:
                out |= self.tail(i[0] if isinstance(i, tuple) and hasattr(i[0], "id") else f, i[1], depth - 1)
            return out
        return set()


def ext(s):
    """extension as std::filesystem::path::extension would give it"""
    b = s.rsplit("/", 1)[-1]
    return b[b.rindex("."):] if "." in b else None


def run(db, rep, thorough):
    P = Suf(db)
    apps = {}
    reads, allread = {}, set()
    suffix_fns = {i: v for i, v in P.fns.items() if v.startswith(".") and (db.fns[i].n.endswith("FileSuffixStr"))}
    n = 0
    copiers = [f for f in db.fns.values() if f.n == "genCopyExtraSourceFiles" and f.b]
    for f in db.fns.values():
        if not f.b or not f.f.startswith("app/"):
            continue
        app = f.f.split("/")[1]
        root = core.root_fn(db, f)
        isx = any(e[0] == "call" and name(db, e) == "genCopyExtraSourceFiles" for e in core.all_exprs(db, root))
        for e in core.fn_exprs(f):
            if e[0] != "call":
                continue
            nm = name(db, e)
            if nm == "genCopyExtraSourceFiles" and e[4]:
                apps.setdefault(app, []).append((f, e))
            elif e[3] in suffix_fns and not isx and not listed(db, P, f, e):
                reads.setdefault(app, {}).setdefault(suffix_fns[e[3]], where(f, e[1]))
            elif re.match(r"^genRead\w*InjectCode$|^genReadFileContents$", nm) and e[4]:
                n += 1
                for t in P.tail(f, e[4][0]):
                    x = ext(t)
                    if x and x in suffix_fns.values():
                        reads.setdefault(app, {}).setdefault(x, where(f, e[1]))
    for app in reads:
        allread |= set(reads[app])
    rep.set("code-injection reads", n, 60)
    rep.set("generators copying extra sources", len(apps), 7)
    tot = 0
    for app in sorted(set(reads) | set(apps)):
        if app not in apps:
            rep.note("%s reads injected code and never copies extra sources" % app)
            continue
        for f, e in apps[app]:
            vals, exact = reserved(db, P, f, e[4][0])
            if vals is None:
                rep.note("%s: list of reserved extensions not evaluable" % app)
                continue
            tot += len(vals)
            for x, w in sorted(reads.get(app, {}).items()):
                if x not in vals and exact:
                    rep.violation("%s:%s" % (app, x), w, "read but copied", "%s looks up injected code in \"*%s\" files, which it does not exclude when copying extra sources"
                                  % (app, x), [w, where(f, e[1])])
            for x in sorted(vals):
                if x not in allread:
                    rep.violation("%s:unread:%s" % (app, x), where(f, e[1]), "reserved but never read", "%s does not copy \"*%s\" files although no generator looks them up"
                                  % (app, x), [where(f, e[1])])
            rep.sample("reserved", "%s: %s" % (app, " ".join(sorted(vals))))
    rep.set("reserved extensions", tot, 40)
    for f in copiers:
        skip(db, P, rep, f)
    rep.set("copying functions", len(copiers), 1)


def listed(db, P, f, e):
    """is this suffix call inside a constant list of suffixes (global or in a helper returning the list)?"""
    return "vector<std::basic_string<char>" in (f.ret or "").replace("std::string", "std::basic_string<char>")


def reserved(db, P, f, e, depth=4):
    """values of the list -> (set, complete?)"""
    e = core.strip(e) if e else None
    if not e or not depth:
        return None, False
    if e[0] == "v":
        root = core.root_fn(db, f)
        i = P.T.var_init(root, e[3]) or P.T.var_init(f, e[3])
        if not i:
            return None, False
        vals, ex = reserved(db, P, f, i[1], depth - 1)
        vals = set(vals or ())
        for x in core.all_exprs(db, root):
            if x[0] == "call" and name(db, x) in ("push_back", "emplace_back", "insert") and x[5] and core.strip(x[5])[0] == "v" and core.strip(x[5])[3] == e[3]:
                for a in x[4]:
                    t = P.tail(f, a)
                    vals |= t
                    ex = ex and bool(t) or name(db, x) != "insert"
        return vals, ex
    if e[0] == "gv":
        g = db.globals.get(e[3])
        if not g or not g.get("init"):
            return None, False

        class F:
            pass
        ff = F()
        ff.types, ff.id, ff.q, ff.b, ff.f, ff.l, ff.p, ff.parent = g.get("types", []), e[3], g["q"], None, g.get("f", ""), 0, [], None
        return strs(db, P, ff, g["init"])
    if e[0] == "call" and e[3] in db.fns:
        out, ok = set(), True
        g = db.fns[e[3]]
        for s in core.stmts(g.b):
            if s[0] == "ret" and s[2]:
                v, x = reserved(db, P, g, s[2], depth - 1)
                if v is None:
                    ok = False
                else:
                    out |= v
        return out, ok
    return strs(db, P, f, e)


def strs(db, P, f, e):
    out, ok = set(), True
    found = False
    work = [e]
    while work:
        x = core.strip(work.pop())
        if not x:
            continue
        if x[0] == "init":
            found = True
            for y in x[3]:
                t = P.tail(f, y)
                if t:
                    out |= t
                else:
                    work.append(y)
            continue
        if x[0] == "ctor":
            work.extend(y for y in x[4] if y and y[0] != "dflt")
            continue
        if x[0] in ("cast", "icast", "x"):
            work.extend(y for y in core.kids(x) if isinstance(y, list))
            continue
        t = P.tail(f, x)
        if t:
            out |= t
        else:
            ok = False
    return (out if found else out or set()), ok and found


def skip(db, P, rep, f):
    """no reserved file reaches the copy"""
    prm = [p[0] for p in f.p]
    if not prm:
        rep.note("genCopyExtraSourceFiles has no list parameter")
        return
    derived = set(prm[-1:])
    # flags computed from the list
    flags = {}
    for s in core.stmts(f.b):
        if s[0] == "decl":
            for v in s[2]:
                if v[3] and any(x[0] == "v" and x[3] in derived for x in core.walk(v[3])):
                    flags[v[0]] = v[3]

    def kind(e, depth=3):
        """True: e is true for reserved files; False: e is false for them"""
        e = core.strip(e)
        if not e or not depth:
            return None
        if e[0] == "un" and e[3] == "!":
            k = kind(e[4], depth)
            return None if k is None else not k
        if e[0] == "v" and e[3] in flags:
            return kind(flags[e[3]], depth - 1)
        if e[0] in ("bin", "op") and e[3] in ("==", "!=", ">", "<"):
            a, b = (e[4], e[5]) if e[0] == "bin" else (e[5][0], e[5][1])
            for x, y in ((a, b), (b, a)):
                x, y = core.strip(x), core.strip(y)
                if x and x[0] == "call" and name(db, x) in ("end", "cend") and uses(x) and uses(y):
                    return e[3] == "!="
                if x and x[0] == "int" and y and y[0] == "call" and name(db, y) in ("count", "count_if") and uses(y):
                    return e[3] != "=="
            return None
        if e[0] == "call" and uses(e):
            nm = name(db, e)
            if nm in ("any_of", "contains", "count"):
                return True
            if nm == "none_of":
                return False
            for t in P.S.targets(f, e) or ():
                g = db.fns.get(t)
                if g is not None and g.f.startswith(("lib/", "app/")):
                    return True if not re.search("(?i)not|should|need|can", g.n) else False
        if e[0] == "icast" or e[0] == "cast":
            return kind(e[5] if e[0] == "cast" else e[4], depth)
        return None

    def uses(e):
        return any(x[0] == "v" and (x[3] in derived or x[3] in flags) for x in core.walk(e))
    g = core.cfg(db, f, asserts=False)
    copies = [0]
    copyset = {"copy_file", "copy"}
    memo = {}

    def copying(c, h=f, seen=()):
        if name(db, c) in copyset and "filesystem" in (c[3] or ""):
            return True
        for t in P.S.targets(h, c) or ():
            k = db.fns.get(t)
            if k is not None and k.b and k.f.startswith(("lib/src/gen", "app/")) and t not in seen:
                if t not in memo:
                    memo[t] = False
                    memo[t] = any(x[0] == "call" and copying(x, k, seen + (t,)) for x in core.fn_exprs(k))
                if memo[t]:
                    return True
        return False
    bad = []

    def step(n, st):
        if n.k == "loop":
            st = "new"
        if n.e is not None and n.k != "br":
            for c in core.walk_eval(n.e):
                if c[0] == "call" and copying(c):
                    copies[0] += 1
                    if st != "safe":
                        bad.append((n, st))
        if n.k == "br":
            k = kind(n.e)
            # new iteration of a for loop: its condition tests the iterator
            if k is None and any(c[0] == "op" and "directory_iterator" in (c[4] or "") for c in core.walk(n.e)):
                return [("*", "new")]
            if k is not None:
                return [(k, "reserved"), (not k, "safe")]
            for c in core.walk_eval(n.e):
                if c[0] == "call" and copying(c):
                    copies[0] += 1
                    if st != "safe":
                        bad.append((n, st))
        return [("*", st)]
    par = None
    for n, st, par in core.explore(g, "new", step):
        pass
    if copies[0] == 0:
        # copying moved elsewhere: the list must still be handed on
        rep.note("%s: no copy operation found" % f.q)
    for n, st in bad:
        if True:
            rep.violation("copy-reserved", where(f, n.ln), "reserved file copied", "%s copies a file without having established that its extension is not reserved" % f.q,
                          core.path_lines(g, par, n, st) if par else [])
            break
    rep.count("copy operations", copies[0])
