"""C13: generators write only below the chosen output directory."""
import re
from sa import core, status
from sa.facts import AnalysisBroken

RULE = "the leading component of every path given to a file-system modifying operation is the configured output directory"
EXPLAIN = ("Sinks: opening an output stream, creating directories, copying/renaming/removing files (anywhere in lib/src and app). For the path "
           "argument of each sink the leading component is computed by backward value flow through locals, parameters (all call sites), "
           "returned values, path-joining helpers, std::filesystem::path joins and string concatenation; it must be the generator's "
           "configured output directory on every flow. Reported: every flow with another origin (input/code directory, current directory, "
           "literal, schema text). The configured directory itself may only be set from the command line option or its default.")
ASSUME = ["relative tails produced from schema names contain no '..' components (names are restricted to identifier characters)",
          "symbolic links inside the output directory are the user's own"]

MODIFY = {"create_directories", "create_directory", "copy_file", "copy", "rename", "remove", "remove_all", "resize_file", "create_symlink"}
CUTS = {"genPathUp", "parent_path"}


class Origin:
    def __init__(self, db):
        self.db = db
        self.S = status.get(db)
        self.callers = {}
        for f in self.S.fns:
            for e in core.fn_exprs(f):
                if e[0] in ("call", "op"):
                    for t in self.S.targets(f, e) or ():
                        self.callers.setdefault(t, []).append((f, e))
        self.active = set()
        self.memo = {}
        self.assigns = {}

    def var_defs(self, f, vid):
        """Expressions whose leading part a local may have: initialiser and plain assignments."""
        root = core.root_fn(self.db, f)
        key = root.id
        if key not in self.assigns:
            m = {}
            for g in core.family(self.db, root):
                for s in core.stmts(g.b) if g.b else ():
                    if s[0] == "decl":
                        for v in s[2]:
                            if v[3]:
                                m.setdefault(v[0], []).append((g, v[3]))
                    elif s[0] == "rfor" and s[2]:
                        m.setdefault(s[2][0], []).append((g, ["elem", s[1], 0, s[3]]))
                for e in core.fn_exprs(g):
                    t = None
                    if e[0] == "bin" and e[3] == "=":
                        t, r = e[4], e[5]
                    elif e[0] == "op" and e[3] == "=" and len(e[5]) == 2:
                        t, r = e[5]
                    elif e[0] == "call" and e[3] and self.db.decls[e[3]]["n"] in ("insert", "assign", "replace", "swap") and e[5]:
                        t, r = e[5], ["other", e[1], 0, self.db.decls[e[3]]["n"] + "() on the path"]
                        if self.db.decls[e[3]]["n"] == "assign" and e[4]:
                            r = e[4][0]
                    if t is not None:
                        x = core.strip(t)
                        if x and x[0] == "v":
                            m.setdefault(x[3], []).append((g, r))
            self.assigns[key] = m
        return self.assigns[key].get(vid, [])

    def ret_origins(self, fid, args, caller):
        """Origins of a function's result, parameters replaced by the caller's arguments."""
        f = self.db.fns[fid]
        key = fid
        if key in self.active:
            return set()
        if key not in self.memo:
            self.active.add(key)
            r = set()
            for s in core.stmts(f.b) if f.b else ():
                if s[0] == "ret" and s[2]:
                    r |= self.of(f, s[2], up=False)
            self.active.discard(key)
            self.memo[key] = r
        out = set()
        for o in self.memo[key]:
            if o[0] == "param" and o[1] == fid:
                if o[2] < len(args):
                    out |= self.of(caller, args[o[2]])
            else:
                out.add(o)
        return out

    def of(self, f, e, up=False):
        """Origins of the leading component of a string/path expression."""
        db = self.db
        x = core.strip(e)
        if not x:
            return {("unknown", "?", "%s:%d" % (f.f, f.l))}
        k = x[0]
        here = "%s:%d" % (f.f, x[1] if isinstance(x[1], int) else f.l)
        if k == "elem":
            return self.of(f, x[3])
        if k == "other":
            return {("other", x[3], here)}
        if k == "v":
            for i, p in enumerate(f.p or ()):
                if p[0] == x[3]:
                    if f.n == "<lambda>":
                        pass
                    return {("param", f.id, i)}
            root = core.root_fn(db, f)
            for g in core.family(db, root):
                for i, p in enumerate(g.p or ()):
                    if p[0] == x[3]:
                        return {("param", g.id, i)}
            key = ("v", x[3])
            if key in self.active:
                return set()
            self.active.add(key)
            r = set()
            ds = self.var_defs(f, x[3])
            for g, d in ds:
                r |= self.of(g, d)
            self.active.discard(key)
            return r if ds else {("unknown", x[4], here)}
        if k == "mem":
            n = x[3].rsplit("::", 1)[-1]
            if re.match(r"m_outputDir$", n):
                return {("OUT",)}
            if x[4] and core.strip(x[4])[0] in ("v", "op", "call"):
                return self.of(f, x[4])     # field of an element: the element's origin
            return {("other", x[3], here)}
        if k == "op" and x[3] in ("+", "/") and x[5]:
            return self.of(f, x[5][0])
        if k == "op" and x[3] in ("+=", "/=") and x[5]:
            return self.of(f, x[5][0])
        if k == "op" and x[3] in ("*", "->", "[]") and x[5]:
            return self.of(f, x[5][0])
        if k == "cond":
            return self.of(f, x[4]) | self.of(f, x[5])
        if k == "str":
            return {("other", "literal \"%s\"" % x[2], here)}
        if k in ("ctor", "init"):
            args = [a for a in (x[4] if k == "ctor" else x[3]) if a[0] != "dflt"]
            if args:
                return self.of(f, args[0])
            return set()        # an empty path names nothing
        if k == "call" and x[3]:
            d = db.decls[x[3]]
            if d["n"] == "genGetOutputDir":
                return {("OUT",)}
            t = self.S.targets(f, x)
            if t:
                r = set()
                for y in t:
                    r |= self.ret_origins(y, x[4], f)
                return r
            if d["n"] in ("string", "c_str", "parent_path", "native", "generic_string", "lexically_normal", "str", "data", "get", "u8string"):
                return self.of(f, x[5])
            if d["n"] in ("move", "forward", "absolute", "weakly_canonical") and x[4]:
                return self.of(f, x[4][0])
            if d["n"] == "substr":
                z = core.strip(x[4][0]) if x[4] else None
                if z and z[0] == "int" and str(z[3]).rstrip("UuLl") == "0":
                    return self.of(f, x[5])
                return {("other", "part of a path", here)}
            return {("other", d["q"], here)}
        return {("unknown", core.show(db, x, 4), here)}

    def resolve(self, os, seen=()):
        """Replaces parameters by what all call sites pass."""
        out = set()
        for o in os:
            if o[0] != "param":
                out.add(o)
                continue
            if o in seen:
                continue
            cs = self.callers.get(o[1], [])
            g = self.db.fns[o[1]]
            if g.n == "<lambda>" and not cs:
                cs = self.lam_calls(g)
            if not cs:
                # not called: nothing reaches it
                continue
            for f, e in cs:
                args = e[4] if e[0] == "call" else e[5][1:]
                if o[2] < len(args):
                    out |= self.resolve(self.of(f, args[o[2]]), seen + (o,))
                else:
                    out.add(("other", "default argument", "%s:%d" % (f.f, e[1])))
        return out

    def lam_calls(self, lf):
        r = []
        root = core.root_fn(self.db, lf)
        for g in core.family(self.db, root):
            for e in core.fn_exprs(g):
                if e[0] == "op" and e[3] == "()" and e[5] and core.lambda_of(self.db, g, e[5][0]) == lf.id:
                    r.append((g, e))
        return r


def run(db, rep, thorough):
    S = status.get(db)
    O = Origin(db)
    sinks = []
    for f in S.fns:
        if not f.f.startswith(("lib/", "app/")):
            continue
        for e in core.fn_exprs(f):
            if e[0] == "ctor" and e[3]:
                d = db.decls.get(e[3])
                if d and d.get("cls", "").startswith(("std::basic_ofstream", "std::basic_fstream")):
                    a = [x for x in e[4] if x[0] != "dflt"]
                    if a and d["pt"] and "stream" not in d["pt"][0]:
                        sinks.append((f, e, a[0], "output file"))
            elif e[0] == "call" and e[3]:
                d = db.decls.get(e[3])
                if d and d.get("cls", "").startswith(("std::basic_ofstream", "std::basic_fstream")) and d["n"] == "open" and e[4]:
                    sinks.append((f, e, e[4][0], "output file"))
                elif d and d["q"].startswith("std::filesystem::") and d["n"] in MODIFY and e[4]:
                    i = 1 if d["n"] in ("copy_file", "copy", "rename", "create_symlink") else 0
                    sinks.append((f, e, e[4][i], "std::filesystem::" + d["n"]))
                    if d["n"] == "rename":
                        sinks.append((f, e, e[4][0], "std::filesystem::rename"))
                elif d and d["q"] in ("remove", "rename", "unlink", "fopen", "mkdir", "open", "std::remove", "std::rename", "system", "popen", "chdir") \
                        and d["pt"] and d["pt"][0].replace("const ", "").startswith("char *") and len(e[4]) <= (1 if "remove" in d["q"] else 3):
                    rep.violation("%s.%s" % (f.q, d["n"]), "%s:%d" % (f.f, e[1]), "sink", "%s modifies the file system through %s()" % (f.q, d["q"]))
    rep.set("file-system modifying sites", len(sinks), 50)
    flows = 0
    for f, e, a, what in sinks:
        os = O.resolve(O.of(f, a))
        for o in sorted(os, key=str):
            flows += 1
            if o[0] == "OUT":
                continue
            rep.violation("%s.%s" % (f.q if f.n != "<lambda>" else core.root_fn(db, f).q, o[1]), "%s:%d" % (f.f, e[1]), "origin",
                          "the path of the %s in %s starts with %s (%s), not with the output directory" % (what, f.q, o[1], o[2]))
        if any(o[0] == "OUT" for o in os):
            rep.sample("sinks", "%s in %s (%s:%d)" % (what, f.q, f.f, e[1]))
    rep.set("path flows", flows, 50)
    # who sets the output directory
    n = 0
    for f in S.fns:
        for e in core.fn_exprs(f):
            l = None
            if e[0] == "bin" and e[3] == "=":
                l, r = e[4], e[5]
            elif e[0] == "op" and e[3] in ("=", "+=") and len(e[5]) == 2:
                l, r = e[5]
            if l is not None:
                x = core.strip(l)
                if x and x[0] == "mem" and x[3].endswith("::m_outputDir"):
                    n += 1
                    os = O.resolve(O.of(f, r))
                    for o in os:
                        if o[0] == "OUT" or "current_path" in o[1] or "GenProgramOptions" in o[2] or "GenProgramOptions" in o[1]:
                            continue
                        else:
                            rep.violation("%s.m_outputDir" % f.q, "%s:%d" % (f.f, e[1]), "origin",
                                          "the output directory is set from %s (%s)" % (o[1], o[2]))
    rep.set("assignments of the output directory", n, 1)
