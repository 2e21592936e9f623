"""Nullness of lookup results: pointers, iterators and first/last elements, per access path, flow-sensitive."""
from sa import core, status

FINDS = {"find", "find_if", "find_if_not", "lower_bound", "upper_bound", "max_element", "min_element", "search", "adjacent_find",
         "find_first_of", "find_end"}
ENDS = {"end", "cend", "rend", "crend"}
XMLNULL = {"xmlGetProp", "xmlNodeListGetString", "xmlNodeGetContent", "xmlGetNoNsProp", "xmlDocGetRootElement", "xmlReadFile", "xmlReadMemory",
           "xmlStrdup", "xmlHasProp", "xmlGetLastError", "xmlGetNodePath", "xmlReadDoc", "xmlStrstr", "xmlCtxtGetLastError",
           "getenv", "fopen", "strchr", "strrchr", "strstr", "xmlNewParserCtxt", "xmlCtxtReadFile", "xmlCtxtReadMemory"}
# deref of these arguments happens inside library code
LIBDEREF = {"strlen", "strcmp", "xmlStrEqual_", "atoi"}
GROW = {"push_back", "emplace_back", "emplace_front", "push_front", "insert", "emplace"}
SHRINK = {"clear", "pop_back", "pop_front", "erase", "resize", "swap"}
M, N, Z = "M", "N", "Z"


# Pointer members that are tested somewhere but set before any other use of the object (read and confirmed): the referee
# of a parsed ref field, the node of an element under parsing, the schema being parsed, ...
ALWAYS_SET = {
    "commsdsl::parse::ParseRefFieldImpl::m_field", "commsdsl::parse::ParseFieldImpl::ParseFieldRefInfo::m_field",
    "commsdsl::parse::ParseOptionalFieldImpl::m_field", "commsdsl::parse::ParseProtocolImpl::m_currSchema",
    "commsdsl::parse::ParseNamespaceImpl::m_node", "commsdsl::gen::GenRefFieldImpl::m_referencedField",
    "commsdsl2tools_qt::ToolsQtPlugin::m_toolsInterfacePtr", "commsdsl2tools_qt::ToolsQtPlugin::m_toolsFramePtr",
}


class Nullness:
    def __init__(self, db):
        self.db = db
        self.keep_asserts = True    # does an assertion count as a test
        self.S = status.get(db)
        self.nullret = {}       # fn id -> may return null
        self.req = {}           # fn id -> set of param indices that must not be null
        self.bout = {}
        self.sites = 0
        self.fns = [f for f in db.fns.values() if f.b and (f.f.startswith("lib/src") or f.f.startswith("app/") or f.f.startswith("lib/include"))]

    # ---- helpers
    def cfg(self, f):
        """assertions vanish in release builds: they do not count as tests in the parser, whose lookups are driven by the input"""
        return core.cfg(self.db, f, self.keep_asserts and not f.f.startswith("lib/src/parse"))

    def ty(self, f, e):
        try:
            return f.types[e[2]]
        except Exception:
            return ""

    def isptr(self, f, e):
        t = self.ty(f, e).strip()
        return t.endswith("*") or t.endswith("*const") or t.endswith("* const")

    def key(self, e):
        e = core.strip(e)
        while e and e[0] == "cast" and len(e) > 5:
            e = core.strip(e[5])
        if not e:
            return None
        if e[0] == "v":
            return "v%s" % e[3]
        if e[0] == "call" and e[3] and self.db.decls.get(e[3]) and self.db.decls[e[3]]["n"] == "get" and e[5] and not e[4]:
            return self.key(e[5])
        a = self.passthrough(e)
        if a is not None:
            return self.key(a)
        return self.cshow(e)

    def passthrough(self, e):
        """the argument of a call that yields null exactly when that argument is null"""
        if e[0] != "call" or not e[4] or not e[3]:
            return None
        t = self.nullret.get(e[3])
        if isinstance(t, int) and t is not True and t < len(e[4]):
            return e[4][t]
        return None

    def cshow(self, e):
        """canonical text with variable identities"""
        e = core.strip(e)
        if e is None:
            return "?"
        if e[0] == "call":
            a = self.passthrough(e)
            if a is not None:
                return self.cshow(a)
        k = e[0]
        if k == "v":
            return "v%s" % e[3]
        if k == "call":
            d = self.db.decls.get(e[3]) if e[3] else None
            return "%s.%s(%s)" % (self.cshow(e[5]) if e[5] else "", d["n"] if d else "?%d" % id(e), ",".join(self.cshow(x) for x in e[4]))
        if k == "mem":
            return "%s.%s" % (self.cshow(e[4]) if e[4] else "this", e[3])
        if k == "this":
            return "this"
        if k == "op":
            if e[3] in ("->", "*") and len(e[5]) == 1:
                return self.cshow(e[5][0])
            return "(%s %s)" % (e[3], " ".join(self.cshow(x) for x in e[5]))
        if k == "un":
            if e[3] == "*" or e[3] == "&":
                return self.cshow(e[4])
            return "(%s %s)" % (e[3], self.cshow(e[4]))
        if k == "bin":
            return "(%s %s %s)" % (self.cshow(e[4]), e[3], self.cshow(e[5]))
        if k in ("str",):
            return repr(e[2])
        if k == "int":
            return str(e[3])
        if k in ("cast", "icast"):
            return self.cshow(core.kids(e)[0]) if core.kids(e) else k
        if k in ("gv", "enumr", "fref"):
            return "%s" % (e[4] if k == "gv" else e[3])
        if k == "ctor" and len(e[4]) == 1:
            return self.cshow(e[4][0])
        return "%s#%d" % (k, id(e))

    def dn(self, e):
        if e and e[0] == "call" and e[3]:
            d = self.db.decls.get(e[3])
            return d["n"] if d else None
        return None

    # ---- value classification; returns (class, container key or None)
    def value(self, f, e, depth=0):
        e = core.strip(e)
        while e and e[0] == "cast" and len(e) > 5:
            if e[3] == "dynamic":
                return M, None
            e = core.strip(e[5])
        if not e:
            return N, None
        if e[0] == "null":
            return Z, None
        if e[0] == "int" and e[3] == 0:
            return Z, None
        if e[0] == "ctor" and e[5] in ("copy", "move") and e[4]:
            return self.value(f, e[4][0])
        if e[0] == "ctor" and e[3] and any(x in (self.db.decls.get(e[3], {}).get("cls") or "") for x in ("unique_ptr", "shared_ptr")):
            a = [x for x in e[4] if x and x[0] != "dflt"]
            if not a:
                return Z, None
            # owner of a raw pointer handed out by a C library
            r = core.strip(a[0])
            if r and r[0] == "call" and self.dn(r) in XMLNULL:
                return M, None
            return N, None
        if e[0] == "call":
            n = self.dn(e)
            if n in FINDS:
                d = self.db.decls[e[3]]
                if d.get("cls"):
                    if "string" in d["cls"] or "basic_string" in d["cls"]:
                        return N, None
                    return M, self.cshow(e[5])
                if e[4] and d["q"].startswith("std::"):
                    a = core.strip(e[4][0])
                    if n == "search" and "*" in self.ty(f, e):
                        return N, None
                    # range end
                    b = core.strip(e[4][1]) if len(e[4]) > 1 else None
                    return M, ("=" + self.cshow(b)) if b else None
            if n in XMLNULL:
                return M, None
            if n == "get" and e[5] and not e[4]:
                return N, None
            if n in ("begin", "cbegin", "rbegin") and e[5]:
                return "B", self.cshow(e[5])
            if n in ENDS and e[5]:
                return Z, self.cshow(e[5])
            if self.isptr(f, e):
                ts = [t for t in self.S.targets(f, e) or () if t in self.db.fns]
                if any(self.nullret.get(t) is True for t in ts):
                    return M, None
                for t in ts:
                    if isinstance(self.nullret.get(t), int) and depth < 4:
                        # null exactly when its argument is
                        i = self.nullret[t]
                        if i < len(e[4]):
                            v = self.value(f, e[4][i], depth + 1)[0]
                            if v in (M, Z):
                                return M, None
        if e[0] == "mem" and e[3] in getattr(self, "memevid", ()):
            return M, None
        if e[0] == "mem" and e[3].endswith("::first") and e[4] and self.isptr(f, e):
            b = core.strip(e[4])
            i = core.strip(self.single_def(f, b[3])) if b and b[0] == "v" and self.single_def(f, b[3]) else b
            while i and i[0] == "ctor" and len(i[4]) == 1:
                i = core.strip(i[4][0])
            if i and i[0] == "call" and any(self.pairnull(t) for t in self.S.targets(f, i) or ()):
                return M, None
        if e[0] == "op" and e[3] == "()":
            ts = [t for t in self.S.targets(f, e) or () if t in self.db.fns]
            if self.isptr(f, e) and any(self.nullret.get(t) is True for t in ts):
                return M, None
        return N, None

    def either_or(self, f, r, vid):
        """second half of the pair: a list's element (an optional's field) is either a member or an external field"""
        r = core.strip(r)
        while r and r[0] == "cast" and len(r) > 5:
            r = core.strip(r[5])
        n = self.dn(r)
        if n not in ("genExternalElementField", "genExternalField", "genMemberElementField", "genMemberField"):
            return False
        d = self.db.decls[r[3]]
        if not (d.get("cls") or "").endswith(("GenListField", "GenOptionalField")):
            return False
        other = n.replace("External", "#").replace("Member", "External").replace("#", "Member")
        for g in core.family(self.db, core.root_fn(self.db, f)):
            for st in core.stmts(g.b) if g.b else ():
                if st[0] == "decl":
                    for v in st[2]:
                        if v[0] == vid and v[3]:
                            i = core.strip(v[3])
                            while i and i[0] == "cast" and len(i) > 5:
                                i = core.strip(i[5])
                            return self.dn(i) == other
        return False

    # ---- tests: (key, kind) on branch expr -> value of key when the branch is taken: returns (True-state, False-state) or None
    def test(self, f, e, key, end, depth=0):
        e = core.strip_implicit(e)
        if e is None:
            return None
        s = core.strip(e)
        if s is None:
            return None
        if s[0] == "cast" and len(s) > 5:
            if self.key(s) == key:
                return N, Z
            return self.test(f, s[5], key, end, depth)
        if self.key(s) == key and s[0] != "bin":
            return N, Z
        if s[0] == "call" and self.dn(s) == "operator bool" and s[5] is not None and self.key(s[5]) == key:
            return N, Z
        if s[0] == "un" and s[3] == "!":
            r = self.test(f, s[4], key, end, depth)
            return (r[1], r[0]) if r else None
        if s[0] == "bin" and s[3] in ("==", "!="):
            l, r = s[4], s[5]
            op = s[3]
        elif s[0] == "op" and s[3] in ("==", "!=") and len(s[5]) == 2:
            l, r = s[5]
            op = s[3]
        else:
            l = None
        if l is not None:
            for a, b in ((l, r), (r, l)):
                if self.key(a) == key:
                    bb = core.strip(b)
                    while bb and bb[0] == "cast" and len(bb) > 5:
                        bb = core.strip(bb[5])
                    if not bb:
                        return None
                    if bb[0] == "null" or (bb[0] == "int" and bb[3] == 0):
                        return (Z, N) if op == "==" else (N, Z)
                    if self.isend(f, bb, end):
                        return (Z, N) if op == "==" else (N, Z)
                    v = self.value(f, bb)[0]
                    if v == N and op == "==" and not end:
                        # equal to something that is not null
                        return (N, M) if self.isptr(f, bb) and bb[0] in ("un", "this") else None
                    return None
        if s[0] == "v" and depth < 3:
            # boolean local holding the result of a test
            ini = self.single_def(f, s[3])
            if ini is not None:
                i = core.strip(ini)
                if i and i[0] == "bin" and i[3] == "&&":
                    for x in (i[4], i[5]):
                        r = self.test(f, x, key, end, depth + 1)
                        if r:
                            return r[0], M
                    return None
                return self.test(f, ini, key, end, depth + 1)
        if s[0] in ("call", "op") and depth < 3:
            return self.call_test(f, s, key)
        return None

    def prefact(self, f, d):
        """the same lookup was established not to come back empty on every path to this one"""
        k = (f.id, d.i)
        c = getattr(self, "_pf", None)
        if c is None:
            c = self._pf = {}
        if k in c:
            return c[k]
        c[k] = False
        e = core.strip(d.e)
        while e and e[0] in ("cast", "ctor") and core.kids(e):
            if e[0] == "cast" and e[3] == "dynamic" or e[0] == "ctor" and len(e[4]) != 1:
                return False
            e = core.strip(e[5] if e[0] == "cast" else e[4][0])
        if not e or e[0] != "call":
            return False
        key, end = self.cshow(e), self.value(f, e)[1]
        g = self.cfg(f)
        sts = [st for n, st, par in core.explore(g, M, lambda n, st: self.step(f, n, st, key, end, None), 60000) if n is d]
        c[k] = bool(sts) and all(st == N for st in sts)
        return c[k]

    def pred_test(self, f, s, dshow):
        """bool method without arguments on this whose result tells whether the same lookup comes back empty"""
        ts = [t for t in self.S.targets(f, s) or () if t in self.db.fns]
        if not ts:
            return None
        out = None
        for t in ts:
            g = self.db.fns[t]
            ks = [dshow]
            for st in core.stmts(g.b) if g.b else ():
                if st[0] == "decl":
                    for v in st[2]:
                        if v[3] and self.cshow(v[3]) == dshow:
                            ks.append("v%s" % v[0])
            o = None
            for k in ks:
                r = self.outcomes_from(g, k, N if k != dshow else Z, Z)
                if r == {False} or r == {True}:
                    o = r
            if o is None:
                return None
            out = o if out is None else out | o
        if out == {False}:
            return N, M
        if out == {True}:
            return M, N
        return None

    def outcomes_from(self, g, key, init, forced):
        k = (g.id, key, init)
        if k in self.bout:
            return self.bout[k]
        self.bout[k] = None
        gr = self.cfg(g)
        res = set()

        def step(n, st):
            if n.k == "d" and key == "v%s" % n.x[0]:
                return [("*", forced)]
            return self.step(g, n, st, key, None, None)
        try:
            for n, st, par in core.explore(gr, init, step, 20000):
                if n.k == "ret" and n.e:
                    r = core.strip(n.e)
                    t = self.test(g, n.e, key, None, 2)
                    if r and r[0] == "bool":
                        res.add(bool(r[2]))
                    elif t and st == Z and set(t) == {N, Z}:
                        res.add(t[0] == Z)
                    else:
                        res.update((True, False))
        except RuntimeError:
            return None
        self.bout[k] = res or None
        return self.bout[k]

    def call_test(self, f, s, key):
        if s[0] == "call" and not s[4] and (not s[5] or core.strip(s[5])[0] == "this"):
            d = key
            if key[0] == "v" and key[1:].isdigit():
                ini = self.single_def(f, int(key[1:])) or self.single_def(f, key[1:])
                d = self.cshow(ini) if ini else None
            if d:
                return self.pred_test(f, s, d)
            return None
        args = s[4] if s[0] == "call" else s[5][1:]
        hit = [i for i, a in enumerate(args) if self.key(a) == key]
        if not hit:
            return None
        out = None
        ts = [t for t in self.S.targets(f, s) or () if t in self.db.fns]
        if not ts:
            return None
        for t in ts:
            o = self.null_outcomes(self.db.fns[t], hit[0])
            if o is None:
                return None
            out = o if out is None else out | o
        if out == {False}:
            return N, M
        if out == {True}:
            return M, N
        return None

    def null_outcomes(self, g, i):
        """possible boolean results of g when its i-th parameter is null"""
        k = (g.id, i)
        if k in self.bout:
            return self.bout[k]
        self.bout[k] = None
        if not g.b or i >= len(g.p):
            return None
        key = "v%s" % g.p[i][0]
        res = set()
        gr = self.cfg(g)
        try:
            for n, st, par in core.explore(gr, Z, lambda n, st: self.step(g, n, st, key, None, None), 20000):
                if n.k == "ret" and n.e:
                    r = core.strip(n.e)
                    if r and r[0] == "bool":
                        res.add(bool(r[2]))
                    else:
                        t = self.test(g, n.e, key, None)
                        if t and st == Z:
                            res.add(False if t[0] == N else True) if Z in t and N in t else res.update((True, False))
                        else:
                            res.update((True, False))
        except RuntimeError:
            return None
        self.bout[k] = res or None
        return self.bout[k]

    def isend(self, f, b, end):
        v, c = self.value(f, b)
        if v == Z and b[0] == "call":
            if not end:
                return True
            if end.startswith("="):
                return self.cshow(b) == end[1:] or True and self.samecont(end, c)
            return c == end
        if end and end.startswith("=") and self.cshow(b) == end[1:]:
            return True
        if b[0] == "v":
            ini = self.single_def(f, b[3])
            if ini is not None:
                i = core.strip(ini)
                if i and i[0] == "ctor" and len(i[4]) == 1:
                    i = core.strip(i[4][0])
                return bool(i) and i[0] == "call" and self.isend(f, i, end)
        if b[0] == "call" and b[3] and self.dn(b) in ("end", "cend") and not b[5]:
            return True
        if b[0] == "mem" and b[3].endswith("::second") or b[0] == "mem" and b[3].endswith("::first"):
            return True
        return False

    def samecont(self, end, c):
        return ("%s." % c) in end[1:] or c in end[1:]

    def single_def(self, f, vid):
        r = core.root_fn(self.db, f)
        c = getattr(self, "_sd", None)
        if c is None:
            c = self._sd = {}
        if r.id not in c:
            m, w = {}, {}
            for g in core.family(self.db, r):
                for s in core.stmts(g.b) if g.b else ():
                    if s[0] == "decl":
                        for v in s[2]:
                            m[v[0]] = v[3]
                    if s[0] == "if" and s[3]:
                        m[s[3][0]] = s[3][3]
                for e in core.fn_exprs(g):
                    t = None
                    if e[0] == "bin" and e[3].endswith("=") and e[3] not in ("==", "!=", "<=", ">="):
                        t = core.strip(e[4])
                    elif e[0] == "op" and e[3] in ("=", "+=", "-=", "++", "--") and e[5]:
                        t = core.strip(e[5][0])
                    elif e[0] == "un" and (e[3].startswith("++") or e[3].startswith("--") or e[3] == "&" or "post" in e[3]):
                        t = core.strip(e[4])
                    if t and t[0] == "v":
                        w[t[3]] = 1
            c[r.id] = {k: v for k, v in m.items() if k not in w}
        return c[r.id].get(vid)

    # ---- transfer
    def step(self, f, n, st, key, end, initkind):
        if n.k == "br":
            t = self.test(f, n.e, key, end)
            st2 = self.effects(f, n.e, st, key)
            if t:
                out = []
                for lab, v in ((True, t[0]), (False, t[1])):
                    if v == M:
                        out.append((lab, st2))
                    elif st2 == M or st2 == v:
                        out.append((lab, v))
                return out
            return [("*", st2)]
        if n.k == "d":
            if key == "v%s" % n.x[0]:
                v = self.value(f, n.e)[0] if n.e else N
                if v == "B" or (v == M and (self.musthave(f, n) or self.prefact(f, n))):
                    v = N
                return [("*", v)]
            if n.e:
                st = self.effects(f, n.e, st, key)
            return [("*", st)]
        if n.k == "loop":
            if key == "v%s" % (n.x[0][0] if n.x and n.x[0] else None):
                return [("*", N)]
            return [("*", st)]
        if n.e:
            st = self.effects(f, n.e, st, key)
        return [("*", st)]

    def effects(self, f, e, st, key):
        if not key.startswith("v") or not key[1:].isdigit():
            if key.startswith("this.") or "." in key:
                for x in core.walk(e):
                    if x[0] == "bin" and x[3] == "=" and self.key(x[4]) == key or x[0] == "op" and x[3] == "=" and len(x[5]) == 2 and self.key(x[5][0]) == key:
                        v = self.value(f, x[5] if x[0] == "bin" else x[5][1])[0]
                        st = N if v in (N, "B") else v
                return st
            return st
        for x in core.walk(e):
            l = r = None
            if x[0] == "bin" and x[3] == "=":
                l, r = x[4], x[5]
            elif x[0] == "op" and x[3] == "=" and len(x[5]) == 2:
                l, r = x[5]
            if l is not None:
                ll = core.strip(l)
                if ll and ll[0] == "v" and "v%s" % ll[3] == key:
                    v = self.value(f, r)[0]
                    st = N if v in (N, "B") or self.either_or(f, r, ll[3]) else v
            elif x[0] == "un" and x[3] == "&":
                ll = core.strip(x[4])
                if ll and ll[0] == "v" and "v%s" % ll[3] == key:
                    st = N
            elif x[0] == "call" and self.dn(x) == "advance" and x[4]:
                if self.key(x[4][0]) == key:
                    st = N
            elif x[0] == "op" and x[3] in ("--", "-=") and x[5] and self.key(x[5][0]) == key:
                st = N
        return st

    def musthave(self, f, d):
        """the looked-up key was established to be present: every path to the lookup passes the success edge of
        parseValidateSinglePropInstance(..., <same key>, ..., true) (that helper's contract is checked by the C04 rule)"""
        e = core.strip(d.e)
        while e and e[0] == "ctor" and len(e[4]) == 1:
            e = core.strip(e[4][0])
        if not e or e[0] != "call" or self.dn(e) != "find" or len(e[4]) != 1:
            return False
        want = self.cshow(e[4][0])
        g = self.cfg(f)

        def has(x):
            if not x or x[0] != "call" or self.dn(x) != "parseValidateSinglePropInstance":
                return False
            a = [y for y in x[4] if y and y[0] != "dflt"]
            last = core.strip(a[-1]) if a else None
            return bool(last) and last[0] == "bool" and last[2] and any(self.cshow(y) == want for y in a)
        if not any(n.k == "br" and has(core.strip(n.e)) for n in g.nodes):
            return False

        def step(n, st):
            if n.k == "br" and has(core.strip(n.e)):
                return [(True, True), (False, st)]
            return [("*", st)]
        return all(st for n, st, par in core.explore(g, False, step) if n is d)

    # ---- dereferences in an expression, evaluated parts only: yields (key, node, what)
    def derefs(self, f, e, nested=False):
        e0 = e
        stack = [(e, False)]
        while stack:
            x, nst = stack.pop()
            if not isinstance(x, list) or not x:
                continue
            if x[0] == "lam":
                continue
            if x[0] == "bin" and x[3] in ("&&", "||"):
                stack.append((x[4], nst)); stack.append((x[5], True)); continue
            if x[0] == "cond":
                stack.append((x[3], nst)); stack.append((x[4], True)); stack.append((x[5], True)); continue
            if not nst:
                if x[0] == "mem" and len(x) > 5 and x[5] and x[4]:
                    b = core.strip(x[4])
                    if b and b[0] != "this" and b[0] != "op":
                        yield b, x, "->" + x[3].rsplit("::", 1)[-1]
                elif x[0] == "call" and x[5] and len(x) > 6 and x[6] != 2:
                    b = core.strip(x[5])
                    if b and b[0] not in ("this", "op") and self.isptr(f, b):
                        yield b, x, "->%s()" % (self.dn(x) or "?")
                    if self.dn(x) == "erase" and len(x[4]) == 1:
                        b = core.strip(x[4][0])
                        while b and b[0] == "ctor" and len(b[4]) == 1:
                            b = core.strip(b[4][0])
                        if b and b[0] == "v" and "terator" in self.ty(f, b):
                            yield b, x, "erase()"
                elif x[0] == "un" and x[3] == "*":
                    b = core.strip(x[4])
                    if b and b[0] != "this":
                        yield b, x, "*"
                elif x[0] == "op" and x[3] in ("*", "->") and len(x[5]) == 1:
                    b = core.strip(x[5][0])
                    if b:
                        yield b, x, x[3]
                elif x[0] == "ctor" and x[4] and "char" in self.ty(f, x[4][0]) and self.isptr(f, x[4][0]):
                    d = self.db.decls.get(x[3])
                    if d and "basic_string" in (d.get("cls") or ""):
                        yield core.strip(x[4][0]), x, "std::string()"
                if x[0] == "call" and len(x[4]) == 2 and self.dn(x) == "distance" and f.f.startswith("lib/src/parse"):
                    b = core.strip(x[4][1])
                    while b and b[0] == "ctor" and len(b[4]) == 1:
                        b = core.strip(b[4][0])
                    if b and b[0] == "v":
                        yield b, x, "position of"
                if x[0] == "bin" and x[3] == "->*" and x[4]:
                    b = core.strip(x[4])
                    if b and b[0] not in ("this", "op"):
                        yield b, x, "->*"
                if x[0] in ("call", "ctor", "op") and x[3]:
                    d = self.db.decls.get(x[3])
                    if d and d["q"].startswith("std::") and (d["n"] in ("make_pair", "emplace", "emplace_back", "append", "assign", "insert", "operator+",
                                                                      "operator+=", "operator==", "operator=", "strlen", "strcmp") or x[0] == "ctor" and "pair" in (d.get("cls") or "")):
                        for a in (x[4] if x[0] != "op" else x[5]):
                            if a and "char" in self.ty(f, a) and self.isptr(f, a):
                                b = core.strip(a)
                                while b and b[0] == "cast" and len(b) > 5:
                                    b = core.strip(b[5])
                                if b and b[0] in ("v", "call"):
                                    yield b, x, "characters of"
            for c in core.kids(x):
                if isinstance(c, list):
                    stack.append((c, nst))

    # ---- analysis of one function
    def analyse(self, f, report):
        g = self.cfg(f)
        nodes = [n for n in g.nodes if n.e]
        cand = {}
        for n in nodes:
            for b, x, what in self.derefs(f, n.e):
                bb = b
                while bb and bb[0] == "cast" and len(bb) > 5:
                    if bb[3] == "dynamic":
                        break
                    bb = core.strip(bb[5])
                if bb and bb[0] == "call" and self.dn(bb) == "get" and bb[5] and not bb[4]:
                    bb = core.strip(bb[5])
                k = self.key(bb)
                if k is None:
                    continue
                cand.setdefault(k, []).append((n, bb, x, what))
            for b, x, i, t in self.passes(f, n.e):
                k = self.key(b)
                cand.setdefault(k, []).append((n, b, x, "argument %d of %s" % (i + 1, self.db.fns[t].n)))
        params = {"v%s" % p[0]: i for i, p in enumerate(f.p)}
        for k, uses in cand.items():
            isvar = k[0] == "v" and k[1:].isdigit()
            if isvar:
                defs = []
                for n in nodes + [n for n in g.nodes if n.k == "d" and not n.e]:
                    if n.k == "d" and "v%s" % n.x[0] == k:
                        defs.append(n.e)
                    elif n.e:
                        for x in core.walk(n.e):
                            if x[0] == "bin" and x[3] == "=" and self.key(x[4]) == k:
                                defs.append(x[5])
                            elif x[0] == "op" and x[3] == "=" and len(x[5]) == 2 and self.key(x[5][0]) == k and core.strip(x[5][0])[0] == "v":
                                defs.append(x[5][1])
                vals = [self.value(f, d) for d in defs if d]
                if k in params:
                    i = params[k]
                    init = M
                    if not self.isptrty(f.p[i][2]):
                        if not any(v[0] in (M, Z) for v in vals):
                            continue
                        init = N
                elif any(v[0] in (M, Z) for v in vals):
                    init = N
                else:
                    continue
                ends = {v[1] for v in vals if v[1] and v[0] == M}
                end = ends.pop() if len(ends) == 1 else None
            else:
                v = self.value(f, uses[0][1])
                if v[0] != M:
                    continue
                init, end = M, v[1]
            self.sites += len(uses)
            byn = {}
            for u in uses:
                byn.setdefault(u[0].i, []).append(u)
            bad = {}
            for n, st, par in core.explore(g, init, lambda n, st: self.step(f, n, st, k, end, None), 60000):
                if n.i in byn and st in (M, Z):
                    # the test itself may be the use
                    for u in byn[n.i]:
                        kk = id(u[2])
                        if kk not in bad:
                            bad[kk] = (u, core.path_lines(g, par, n, st), st)
            if not bad:
                continue
            if k in params and init == M:
                # requirement on the caller (unless reassigned)
                self.newreq.setdefault(f.id, set()).add(params[k])
                continue
            for u, path, st in bad.values():
                report(f, k, u, path, end)

    def isptrty(self, t):
        t = t.strip()
        return t.endswith("*") or t.endswith("*const") or t.endswith("* const")

    def passes(self, f, e):
        """maybe-null candidates passed to a parameter that must not be null"""
        for x in core.walk_eval(e):
            if x[0] != "call" or not x[4]:
                continue
            ts = None
            for i, a in enumerate(x[4]):
                if not self.isptr(f, a):
                    continue
                if ts is None:
                    ts = [t for t in self.S.targets(f, x) or () if t in self.db.fns]
                for t in ts:
                    if i in self.req.get(t, ()):
                        b = core.strip(a)
                        if b and b[0] not in ("this",):
                            yield b, x, i, t
                        break

    def compute_nullret(self):
        """fn id -> True: may return null whatever its arguments; int i: may return null when its i-th argument is null"""
        ptrf = [f for f in self.fns if self.isptrty(f.ret or "")]
        self.evidence()
        ch = True
        while ch:
            ch = False
            for f in ptrf:
                if self.nullret.get(f.id) is True:
                    continue
                ps = [i for i, p in enumerate(f.p) if self.isptrty(p[2])]
                if self.mayret(f, None):
                    self.nullret[f.id] = True
                    ch = True
                elif f.id not in self.nullret:
                    for i in ps:
                        if self.mayret(f, i):
                            self.nullret[f.id] = i
                            ch = True
                            break

    def pairnull(self, t):
        """may the function return a pair whose first element is null"""
        c = getattr(self, "_pn", None)
        if c is None:
            c = self._pn = {}
        if t not in c:
            c[t] = False
            f = self.db.fns.get(t)
            if f and f.b and "pair<" in (f.ret or ""):
                for st in core.stmts(f.b):
                    if st[0] == "ret" and st[2]:
                        for x in core.walk(st[2]):
                            a = x[4] if x[0] in ("call", "ctor") and len(x[4]) == 2 else x[3] if x[0] == "init" and len(x[3]) == 2 else None
                            if a and core.strip(a[0]) and core.strip(a[0])[0] == "null":
                                c[t] = True
                            if x[0] == "call" and not c[t] and x[3] and any(self.pairnull(y) for y in self.S.targets(f, x) or ()):
                                c[t] = True
                    if st[0] == "decl":
                        for v in st[2]:
                            i = core.strip(v[3]) if v[3] else None
                            if i and i[0] == "init" and "pair" in v[2] and i[3] and core.strip(i[3][0]) and core.strip(i[3][0])[0] == "null":
                                c[t] = True
        return c[t]

    def evidence(self):
        """getters of pointer members whose result is tested for null somewhere (outside assertions): their null is meaningful"""
        self.evid = {}
        for f in self.fns:
            g = self.cfg(f)
            for nd in g.nodes:
                if nd.k != "br" or nd.i in g.assert_br:
                    continue
                e = core.strip(nd.e)
                for a in [e] + ([core.strip(x) for x in e[4:6]] if e and e[0] == "bin" and e[3] in ("==", "!=") else []):
                    if not a:
                        continue
                    if a[0] == "v":
                        i = self.single_def(f, a[3])
                        a = core.strip(i) if i else None
                        while a and a[0] == "cast" and len(a) > 5 and a[3] != "dynamic":
                            a = core.strip(a[5])
                    if a and a[0] == "call" and not a[4] and self.isptr(f, a):
                        for t in self.S.targets(f, a) or ():
                            if t in self.db.fns and not self.db.fns[t].q.endswith("GenElem::genGetParent"):
                                self.evid[t] = self.evid.get(t, 0) + 1
        for t in self.evid:
            if self.getter(self.db.fns[t]):
                self.nullret[t] = True

        # pointer members whose null is tested for somewhere
        self.memevid = set()
        for f in self.fns:
            g = self.cfg(f)
            for nd in g.nodes:
                if nd.k != "br" or nd.i in g.assert_br:
                    continue
                e = core.strip(nd.e)
                if e and e[0] == "un" and e[3] == "!":
                    e = core.strip(e[4])
                c = [e]
                if e and e[0] == "bin" and e[3] in ("==", "!="):
                    c = [core.strip(x) for x in e[4:6]] if any(y and core.strip(y)[0] == "null" for y in e[4:6]) else []
                elif e and e[0] == "op" and e[3] in ("==", "!="):
                    c = [core.strip(x) for x in e[5]] if any(y and core.strip(y)[0] == "null" for y in e[5]) else []
                for a in c:
                    if a and a[0] == "call" and a[5] and self.dn(a) in ("operator bool", "get"):
                        a = core.strip(a[5])
                    if a and a[0] == "mem" and a[3] not in ALWAYS_SET and not a[3].startswith("std::") and (self.isptr(f, a) or "unique_ptr" in self.ty(f, a) or "shared_ptr" in self.ty(f, a)):
                        self.memevid.add(a[3])

    def getter(self, f, depth=0):
        """returns the value of a pointer member (directly or through the implementation object)"""
        if not f.b or depth > 3:
            return False
        for st in core.stmts(f.b):
            if st[0] == "ret" and st[2]:
                e = core.strip(st[2])
                while e and e[0] == "cast" and len(e) > 5:
                    e = core.strip(e[5])
                if e and e[0] == "mem":
                    return True
                if e and e[0] == "call":
                    if self.dn(e) == "get" and e[5] and core.strip(e[5]) and core.strip(e[5])[0] == "mem":
                        return True
                    return any(t in self.db.fns and self.getter(self.db.fns[t], depth + 1) for t in self.S.targets(f, e) or ())
        return False

    def mayret(self, f, nullparam):
        """may f return null when the given parameter is null (None: when no parameter is)"""
        g = self.cfg(f)
        pk = None
        if nullparam is not None:
            pk = "v%s" % f.p[nullparam][0]
        elif any(self.isptrty(p[2]) for p in f.p):
            pk = None
        live = None
        for n in g.nodes:
            if n.k != "ret" or not n.e:
                continue
            e = core.strip(n.e)
            while e and e[0] == "cast" and len(e) > 5 and e[3] != "dynamic":
                e = core.strip(e[5])
            if not e:
                continue
            v, end = self.value(f, e)
            key = self.key(e)
            if v in (M, Z) and e[0] in ("null", "int", "cast"):
                if live is None:
                    live = self.live(g, f, nullparam)
                if n.i in live:
                    return True
                continue
            if v == M:
                for m, st, par in core.explore(g, M, lambda a, st: self.step(f, a, st, key, end, None), 60000):
                    if m is n and st in (M, Z):
                        return True
                continue
            if e[0] == "v":
                ps = {p[0]: i for i, p in enumerate(f.p)}
                init = N
                if e[3] in ps:
                    if ps[e[3]] != nullparam:
                        continue
                    init = Z
                for m, st, par in core.explore(g, init, lambda a, st: self.step(f, a, st, key, None, None), 60000):
                    if m is n and st in (M, Z):
                        return True
            elif e[0] == "call" and nullparam is not None:
                for t in self.S.targets(f, e) or ():
                    i = self.nullret.get(t)
                    if isinstance(i, int) and i is not True and i < len(e[4]) and self.key(e[4][i]) == pk:
                        return True
        return False

    def live(self, g, f, nullparam):
        """nodes reachable when the pointer parameters other than nullparam are not null"""
        keys = [("v%s" % p[0], Z if i == nullparam else N) for i, p in enumerate(f.p) if self.isptrty(p[2])]
        r = None
        for k, init in keys or [("", N)]:
            s = {n.i for n, st, par in core.explore(g, init, (lambda a, st, k=k: self.step(f, a, st, k, None, None)) if k else (lambda a, st: None), 60000)}
            r = s if r is None else r & s
        return r

    def reaches(self, g, f, n):
        return n in g.reachable() if not isinstance(g.reachable(), set) else (n in g.reachable() or n.i in g.reachable())

    def run(self):
        self.compute_nullret()
        # requirements fixpoint
        for _ in range(6):
            self.newreq = {}
            self.sites = 0
            out = []
            for f in self.fns:
                self.analyse(f, lambda *a: out.append(a))
            if self.newreq == self.req:
                break
            self.req = self.newreq
        self.out = out
        return out


def get(db):
    x = getattr(db, "_nullness", None)
    if x is None:
        x = db._nullness = Nullness(db)
        x.run()
    return x


class Emptiness(Nullness):
    """First/last element accesses of containers that may be empty, per access path."""
    def __init__(self, db, nl):
        super().__init__(db)
        self.keep_asserts = False
        self.nullret = nl.nullret

    def ckey(self, e):
        e = core.strip(e)
        if e and e[0] == "v":
            return "v%s" % e[3]
        return self.cshow(e) if e else None

    def uses(self, f, e):
        stack = [(e, False)]
        while stack:
            x, nst = stack.pop()
            if not isinstance(x, list) or not x or x[0] == "lam":
                continue
            if x[0] == "bin" and x[3] in ("&&", "||"):
                stack.append((x[4], nst)); stack.append((x[5], True)); continue
            if x[0] == "cond":
                stack.append((x[3], nst)); stack.append((x[4], True)); stack.append((x[5], True)); continue
            if not nst and x[0] == "call" and x[5] and not x[4] and self.dn(x) in ("front", "back", "pop_back", "pop_front", "top"):
                d = self.db.decls[x[3]]
                if (d.get("cls") or "").startswith("std::"):
                    yield core.strip(x[5]), x, self.dn(x) + "()"
            if not nst and x[0] == "op" and x[3] == "*" and len(x[5]) == 1:
                b = core.strip(x[5][0])
                while b and b[0] == "ctor" and len(b[4]) == 1:
                    b = core.strip(b[4][0])
                if b and b[0] == "call" and self.dn(b) in ("begin", "rbegin", "cbegin") and b[5]:
                    yield core.strip(b[5]), x, "*begin()"
            if not nst and x[0] == "op" and x[3] == "->" and len(x[5]) == 1:
                b = core.strip(x[5][0])
                while b and b[0] == "ctor" and len(b[4]) == 1:
                    b = core.strip(b[4][0])
                if b and b[0] == "call" and self.dn(b) in ("begin", "rbegin", "cbegin") and b[5]:
                    yield core.strip(b[5]), x, "begin()->"
            if not nst and x[0] == "op" and x[3] == "[]" and len(x[5]) == 2:
                i = core.strip(x[5][1])
                if i and i[0] == "int" and i[3] == 0:
                    t = self.ty(f, x[5][0])
                    if "vector" in t or "List" in t:
                        yield core.strip(x[5][0]), x, "[0]"
            for c in core.kids(x):
                if isinstance(c, list):
                    stack.append((c, nst))

    def size_of(self, e, key):
        """e is key.size()"""
        e = core.strip(e)
        while e and e[0] == "cast" and len(e) > 5:
            e = core.strip(e[5])
        return bool(e) and e[0] == "call" and self.dn(e) in ("size", "length") and e[5] is not None and self.ckey(e[5]) == key

    def intval(self, e):
        e = core.strip(e)
        while e and e[0] == "cast" and len(e) > 5:
            e = core.strip(e[5])
        return e[3] if e and e[0] == "int" else None

    def test(self, f, e, key, end=None, depth=0):
        s = core.strip(core.strip_implicit(e))
        if not s:
            return None
        if s[0] == "un" and s[3] == "!":
            r = self.test(f, s[4], key, end, depth)
            return (r[1], r[0]) if r else None
        if s[0] == "call" and self.dn(s) == "empty" and s[5] is not None and self.ckey(s[5]) == key:
            return Z, N
        if self.size_of(s, key):
            return N, Z
        if s[0] == "bin" and s[3] in ("==", "!=", "<", "<=", ">", ">="):
            l, r, op = s[4], s[5], s[3]
            if not self.size_of(l, key):
                l, r = r, l
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if self.size_of(l, key):
                k = self.intval(r)
                if k is None and op in ("==", "!=") and depth < 2:
                    o = core.strip(r)
                    while o and o[0] == "cast" and len(o) > 5:
                        o = core.strip(o[5])
                    if o and o[0] == "call" and self.dn(o) in ("size", "length") and o[5] is not None and self.always(f, s, self.ckey(o[5])):
                        return (N, M) if op == "==" else (M, N)
                    return None
                if k is None:
                    if op == ">":
                        return N, M
                    if op == "<=":
                        return M, N
                    return None
                k = int(k)
                pos = {"==": N if k > 0 else Z, "!=": M if k > 0 else N, "<": (Z if k <= 1 else M), "<=": (Z if k == 0 else M),
                       ">": N, ">=": N if k > 0 else M}[op]
                neg = {"==": M if k > 0 else N, "!=": N if k > 0 else Z, "<": N if k >= 1 else M, "<=": N,
                       ">": Z if k == 0 else M, ">=": (Z if k == 1 else M)}[op]
                return pos, neg
        if s[0] == "v" and depth < 3:
            ini = self.single_def(f, s[3])
            if ini is not None:
                i = core.strip(ini)
                if i and i[0] == "bin" and i[3] == "&&":
                    for x in (i[4], i[5]):
                        r = self.test(f, x, key, end, depth + 1)
                        if r:
                            return r[0], M
                    return None
                return self.test(f, ini, key, end, depth + 1)
        if s[0] in ("call", "op") and depth < 3:
            args = s[4] if s[0] == "call" else s[5][1:]
            hit = [i for i, a in enumerate(args) if self.ckey(a) == key]
            if hit:
                out = set()
                ts = [t for t in self.S.targets(f, s) or () if t in self.db.fns]
                for t in ts:
                    o = self.empty_outcomes(self.db.fns[t], hit[0])
                    if o is None:
                        return None
                    out |= o
                if out == {False}:
                    return N, M
                if out == {True}:
                    return M, N
            elif not args and s[0] == "call" and (not s[5] or core.strip(s[5])[0] == "this"):
                d = key
                if key[0] == "v" and key[1:].isdigit():
                    ini = self.single_def(f, int(key[1:]))
                    d = self.xshow(f, ini) if ini else None
                if not d or not d.startswith("this") and not d.startswith("."):
                    return None
                ts = [t for t in self.S.targets(f, s) or () if t in self.db.fns]
                out = set()
                for t in ts:
                    o = self.pred_outcomes(self.db.fns[t], d)
                    if o is None:
                        return None
                    out |= o
                if out == {False}:
                    return N, M
                if out == {True}:
                    return M, N
        return None

    def xshow(self, f, e, depth=0):
        """access path with local variables replaced by their definitions"""
        t = self.cshow(e)
        if depth > 4:
            return t
        for x in core.walk(e):
            if x[0] == "v":
                ini = self.single_def(f, x[3])
                if ini is not None:
                    i = core.strip(ini)
                    while i and i[0] == "ctor" and len(i[4]) == 1:
                        i = core.strip(i[4][0])
                    import re
                    t = re.sub(r"\bv%s\b" % x[3], lambda m: self.xshow(f, i, depth + 1), t)
        return t

    def pred_outcomes(self, g, key):
        for st in core.stmts(g.b) if g.b else ():
            if st[0] == "decl":
                for v in st[2]:
                    if v[3] and self.xshow(g, v[3]) == key:
                        r = self._outs(g, "v%s" % v[0], True)
                        if r and len(r) == 1:
                            return r
        return self._outs(g, key)

    def empty_outcomes(self, g, i):
        if not g.b or i >= len(g.p):
            return None
        return self._outs(g, "v%s" % g.p[i][0])

    def _outs(self, g, key, forced=False):
        k = (g.id, key, forced)
        if k in self.bout:
            return self.bout[k]
        self.bout[k] = None
        if not g.b:
            return None
        res = set()
        gr = self.cfg(g)
        def step(n, st):
            if forced and n.k == "d" and key == "v%s" % n.x[0]:
                return [("*", Z)]
            return self.cstep(g, n, st, key)
        try:
            for n, st, par in core.explore(gr, Z, step, 20000):
                if n.k == "ret" and n.e:
                    r = core.strip(n.e)
                    t = self.test(g, n.e, key, None, 2)
                    if r and r[0] == "bool":
                        res.add(bool(r[2]))
                    elif t and st == Z and set(t) == {N, Z}:
                        res.add(t[0] == Z)
                    else:
                        res.update((True, False))
        except RuntimeError:
            return None
        self.bout[k] = res or None
        return self.bout[k]

    def always(self, f, at, k):
        """container k is not empty whenever the test `at` is evaluated"""
        c = getattr(self, "_al", None)
        if c is None:
            c = self._al = {}
        kk = (f.id, id(at), k)
        if kk not in c:
            c[kk] = False
            g = self.cfg(f)
            sts = [st for n, st, par in core.explore(g, M, lambda n, st: self.cstep(f, n, st, k), 60000)
                   if n.e is not None and any(x is at for x in core.walk(n.e))]
            c[kk] = bool(sts) and all(st == N for st in sts)
        return c[kk]

    def cvalue(self, f, e):
        """emptiness of a container value"""
        s = core.strip(e)
        while s and s[0] == "cast" and len(s) > 5:
            s = core.strip(s[5])
        if not s:
            return M
        if s[0] == "init":
            return N if s[3] else Z
        if s[0] == "str":
            return N if s[2] else Z
        if s[0] == "ctor":
            a = [x for x in s[4] if x and x[0] != "dflt"]
            if not a:
                return Z
            if s[5] in ("copy", "move"):
                return self.cvalue(f, a[0])
            i = core.strip(a[0])
            if i and i[0] == "init":
                return N if i[3] else Z
            if i and i[0] == "str":
                return N if i[2] else Z
            return M
        if s[0] in ("op", "bin") and s[3] == "+":
            v = [self.cvalue(f, x) for x in (s[5] if s[0] == "op" else s[4:6])]
            return N if N in v else M
        return M

    def cstep(self, f, n, st, key):
        if n.k == "br":
            t = self.test(f, n.e, key)
            st2 = self.ceffects(f, n.e, st, key)
            if t:
                out = []
                for lab, v in ((True, t[0]), (False, t[1])):
                    if v == M:
                        out.append((lab, st2))
                    elif st2 in (M, v):
                        out.append((lab, v))
                return out
            return [("*", st2)]
        if n.k == "loop":
            if n.e is not None and self.ckey(n.e) == key:
                return [(True, N)] * (st != Z) + [(False, st)]
            b = n.x[0][0] if n.x and n.x[0] else None
            if key == "v%s" % b:
                return [("*", N)]
            return [("*", st)]
        if n.k == "d" and key == "v%s" % n.x[0]:
            t = f.types[n.x[2]] if isinstance(n.x[2], int) else ""
            if n.e is None:
                return [("*", Z)]
            v = self.cvalue(f, n.e)
            if v == M and self.cprefact(f, n):
                v = N
            return [("*", v)]
        if n.e:
            st = self.ceffects(f, n.e, st, key)
        return [("*", st)]

    def cprefact(self, f, d):
        e = core.strip(d.e)
        k = self.ckey(e)
        c = (f.id, d.i, "c")
        cache = getattr(self, "_pf", None)
        if cache is None:
            cache = self._pf = {}
        if c in cache:
            return cache[c]
        cache[c] = False
        if not k or k.startswith("v") and k[1:].isdigit() and False:
            return False
        g = self.cfg(f)
        for kk in {k, self.xshow(f, e)}:
            sts = [st for n, st, par in core.explore(g, M, lambda n, st: self.cstep(f, n, st, kk), 60000) if n is d]
            cache[c] = cache[c] or bool(sts) and all(st == N for st in sts)
        return cache[c]

    def ceffects(self, f, e, st, key):
        for x in core.walk_eval(e):
            if x[0] == "lam":
                continue
            if x[0] in ("bin", "op") and x[3] in ("=", "+="):
                l, r = (x[4], x[5]) if x[0] == "bin" else (x[5][0], x[5][1]) if len(x[5]) == 2 else (None, None)
                if l is not None and self.ckey(l) == key:
                    v = self.cvalue(f, r)
                    if x[3] == "=":
                        st = v
                    elif v == N:
                        st = N
                    elif st == Z:
                        st = M
            elif x[0] == "call":
                n = self.dn(x)
                if x[5] is not None and self.ckey(x[5]) == key:
                    if n in ("push_back", "emplace_back", "emplace_front", "push_front", "emplace", "append"):
                        st = N if n != "append" else (N if x[4] and self.cvalue(f, x[4][0]) == N else (M if st == Z else st))
                    elif n == "insert":
                        st = N if len([a for a in x[4] if a[0] != "dflt"]) < 3 else (M if st == Z else st)
                    elif n in ("clear",):
                        st = Z
                    elif n in ("pop_back", "pop_front", "erase", "swap", "assign"):
                        st = M
                    elif n == "resize":
                        k = self.intval(x[4][0]) if x[4] else None
                        a = core.strip(x[4][0]) if x[4] else None
                        plus = a and a[0] == "bin" and a[3] == "+" and any((self.intval(y) or 0) > 0 for y in a[4:6])
                        st = N if k or plus else M
                else:
                    for a in x[4]:
                        aa = core.strip(a)
                        if aa and self.ckey(aa) == key:
                            if n in ("move", "swap", "exchange"):
                                st = M
                            elif st == Z:
                                st = M
                        elif aa and aa[0] == "call" and self.dn(aa) in ("back_inserter", "inserter") and aa[4] and self.ckey(aa[4][0]) == key and st == Z:
                            st = M
                    if st == Z and (n is None or (x[5] is not None and core.strip(x[5]) and core.strip(x[5])[0] in ("this", "v"))):
                        # a lambda or a method of this object may fill it
                        if n is None or key.startswith("this"):
                            st = M
            if x[0] == "op" and x[3] == "()" and st == Z:
                st = M
            if x[0] == "op" and x[3] == ">>" and st == Z:
                st = M
        return st

    def tested(self, f):
        """member containers of the class that some member function tests for emptiness (assertions aside)"""
        r = core.root_fn(self.db, f)
        c = getattr(self, "_tst", None)
        if c is None:
            c = self._tst = {}
            for g in self.fns:
                cls = core.root_fn(self.db, g).cls
                gr = self.cfg(g)
                for n in gr.nodes:
                    if n.k == "br" and n.i not in gr.assert_br:
                        for x in core.walk(n.e):
                            if x[0] == "call" and self.dn(x) in ("empty", "size") and x[5] is not None:
                                b = core.strip(x[5])
                                if b and b[0] == "mem":
                                    c.setdefault(cls, set()).add(self.cshow(b))
        return c.get(r.cls, ())

    def run_empty(self, report):
        self.csites = 0
        for f in self.fns:
            g = self.cfg(f)
            cand = {}
            for n in g.nodes:
                if n.e:
                    for b, x, what in self.uses(f, n.e):
                        if b:
                            cand.setdefault(self.ckey(b), []).append((n, b, x, what))
            for k, uses in cand.items():
                self.csites += len(uses)
                if k.startswith("this.") and k.count(".") == 1 and k not in self.tested(f):
                    continue    # no member function ever considers it empty: filled by construction
                if uses[0][1][0] == "call" and self.dn(uses[0][1]) in ("front", "back") or uses[0][1][0] == "op" and uses[0][1][3] == "[]":
                    continue    # element of a container of containers
                init = M
                isvar = k[0] == "v" and k[1:].isdigit()
                if isvar and not any(n.k == "d" and "v%s" % n.x[0] == k for n in g.nodes):
                    if k not in {"v%s" % p[0] for p in f.p}:
                        init = N      # captured or loop variable
                byn = {}
                for u in uses:
                    byn.setdefault(u[0].i, []).append(u)
                bad = {}
                for n, st, par in core.explore(g, init, lambda n, st: self.cstep(f, n, st, k), 60000):
                    if n.i in byn and st in (M, Z):
                        for u in byn[n.i]:
                            if id(u[2]) not in bad:
                                bad[id(u[2])] = (u, core.path_lines(g, par, n, st))
                for u, path in bad.values():
                    report(f, k, u, path)


def get_empty(db):
    x = getattr(db, "_emptiness", None)
    if x is None:
        x = db._emptiness = Emptiness(db, get(db))
        x.cout = []
        x.run_empty(lambda *a: x.cout.append(a))
    return x

