"""C27: named values (special values, enumerators) of other versions are not emitted."""
import re
from sa import core, mini
from sa.facts import AnalysisBroken
from sa.rules.c15 import ty
from sa.rules.c11 import closure, implied

RULE = ("a generator's loop over special values or enumerators adds an item to its output only on paths where genDoesElementExist() accepted that very item's since and deprecated versions; "
        "genDoesElementExist() itself accepts exactly since <= schema version and (not removed or minimal remote version < deprecated)")
EXPLAIN = ("(1) genDoesElementExist() and genIsElementOptional() of the schema and every forwarding layer above it: all paths are propagated symbolically, the order facts collected on the branches must "
           "imply the documented condition for each result, and forwarding functions must pass their parameters in order. (2) Every loop (and for_each function) in the generators whose items are special values or enumerators of the parsed schema: every "
           "growth of an output container or string inside the loop is reached only after the existence test of the item being visited was true; the list of special values shared by the generators is filtered the same way when it is filled, "
           "in which case loops over it need no test of their own.")
ASSUME = ["items are ParseSpecialValueInfo / ParseEnumField::ParseValueInfo records or looked up from the sorted reverse maps of enumerators",
          "the table of names indexed by numeric value deliberately covers every value of the schema: it doesn't refer to the named constants"]

ITEM = re.compile(r"Parse(?:Int|Float)Field::ParseSpecialValueInfo|ParseEnumField::ParseValueInfo|ParseSpecialValueInfo\b|ParseEnumValueInfo")
# ranges of the documentation (in the code of the protocol they are versioned themselves)
RANGE = re.compile(r"Parse(?:Int|Float)Field::ParseValidRangeInfo|ParseValidRangeInfo\b")
TEXT = re.compile(r"string|stream")
GROW = {"push_back", "emplace_back", "append", "insert", "emplace", "push_front", "emplace_front", "insert_or_assign", "assign"}
LISTS = ("genSpecialsSortedByValue",)
REVS = ("genSortedRevValues", "parseRevValues")
# the table of names indexed by numeric value doesn't refer to named constants; validity ranges
EXEMPT = re.compile(r"ValueNamesMapDirect|PrepareValidRanges|DefaultValue|ValidRanges")


class Sem(mini.Mini):
    def __init__(self, db):
        super().__init__(db)

    def relevant(self, g):
        return g.f.startswith("lib/src/gen") and g.n not in ("genDoesElementExist", "genIsElementOptional", "genIsElementDeprecated") and any("unsigned" in p[2] or p[2] == "bool" for p in g.p)


def lastn(s):
    return s[-1] if isinstance(s, tuple) and s and s[0] in ("m", "mem") else (lastn(s[1]) if isinstance(s, tuple) and s and s[0] == "val" else (s[1].split("::")[-1] if isinstance(s, tuple) and len(s) > 1 and s[0] == "call" and isinstance(s[1], str) else ""))


def role(s, since, dep):
    if s == since:
        return "since"
    if s == dep:
        return "dep"
    n = lastn(s).lower()
    if "minremoteversion" in n:
        return "minremote"
    if "schemaversion" in n or n == "parseversion":
        return "schema"
    if "notyetdeprecated" in n:
        return "never"
    return None


def decompose(s, val):
    """conditions of a boolean result given as one expression"""
    if isinstance(s, tuple) and s[:1] == ("bin",):
        if s[1] == "&&":
            return None if not val else [x for p in s[2:4] for x in (decompose(p, True) or [])]
        if s[1] == "||":
            return None if val else [x for p in s[2:4] for x in (decompose(p, False) or [])]
        if s[1] in mini.OPS:
            op = s[1] if val else mini.NEG[s[1]]
            a, b = s[2], s[3]
            if op in (">", ">="):
                a, b, op = b, a, mini.SWAP[op]
            return [(op, a, b)]
    if isinstance(s, tuple) and s[:1] == ("un",) and s[1] == "!":
        return decompose(s[2], not val)
    return [("true" if val else "false", s, None)]


def cases(r):
    """[(result, extra facts)] for a returned symbol: disjunctive cases"""
    if r == ("k", "true"):
        return [(True, [])]
    if r == ("k", "false"):
        return [(False, [])]
    out = []
    for val in (True, False):
        for c in dnf(r, val):
            out.append((val, c))
    return out


def dnf(s, val):
    if isinstance(s, tuple) and s[:1] == ("un",) and s[1] == "!":
        return dnf(s[2], not val)
    if isinstance(s, tuple) and s[:1] == ("bin",) and s[1] in ("&&", "||"):
        a, b = s[2], s[3]
        if (s[1] == "&&") == val:
            return [x + y for x in dnf(a, val) for y in dnf(b, val)]
        return dnf(a, val) + [x + y for x in dnf(a, not val) for y in dnf(b, val)]
    if isinstance(s, tuple) and s[:1] == ("cond",) and len(s) >= 4:
        return [x + y for x in dnf(s[1], True) for y in dnf(s[2], val)] + [x + y for x in dnf(s[1], False) for y in dnf(s[3], val)]
    if s == ("k", "true"):
        return [[]] if val else []
    if s == ("k", "false"):
        return [] if val else [[]]
    return [decompose(s, val)]


def semantics(db, rep):
    """the deciding functions and the layers forwarding to them"""
    names = ("genDoesElementExist", "genIsElementOptional")
    n = npath = 0
    for f in sorted(db.fns.values(), key=lambda f: f.q):
        if f.n not in names or not f.b or f.dep:
            continue
        where = "%s:%d" % (f.f, f.l)
        M = Sem(db)
        st, ctx = M.start(f)
        ps = [("val", ("v", p[0])) for p in f.p]
        leaf = not any(e[0] == "call" and db.decls.get(e[3], {}).get("n") == f.n for e in core.fn_exprs(f))
        n += 1
        for s, r in M.run(f, st, ctx):
            npath += 1
            if not leaf:
                if not (isinstance(r, tuple) and r[:1] == ("call",) and r[1].endswith("::" + f.n) and list(r[3:]) == ps and "genProtocolSchema" not in repr(r[2])):
                    rep.violation("forward " + f.q, where, "existence test", "%s doesn't answer by asking the schema at hand with its parameters unchanged" % f.q, [where])
                continue
            since, dep, rem = ps[:3]
            for val, facts in ((v, set(x) | set(y)) for v, x in cases(r) for y in expand(s[1])):
                rel = {}
                named = []
                for op, a, b in facts:
                    if op in ("true", "false") and a == rem:
                        named.append((op, "removed", None))
                    else:
                        named.append((op, role(a, since, dep), role(b, since, dep) if b is not None else None))
                # contradiction within the facts of the path: impossible
                fs = set(named)
                if any((mini.NEG[op], a, b) in fs for op, a, b in fs if op in mini.NEG):
                    continue
                rel = closure(fs)
                if not feasible(rel):
                    continue
                P = lambda a, op, b: implied(rel, a, op, b)
                REM, NREM = ("true", "removed", None) in fs, ("false", "removed", None) in fs
                if f.n == "genDoesElementExist":
                    ok = (P("since", "<=", "schema") and (NREM or P("minremote", "<", "dep"))) if val else (P("schema", "<", "since") or (REM and P("dep", "<=", "minremote")))
                else:
                    ok = (P("minremote", "<", "since") or (REM and (P("dep", "<", "never") or ("!=", "dep", "never") in fs or ("!=", "never", "dep") in fs))) if val else (P("since", "<=", "minremote") and (NREM or P("never", "<=", "dep") or ("==", "dep", "never") in fs))
                if not ok:
                    rep.violation("semantics %s %s" % (f.q, val), where, "existence test", "%s answers %s on a path where the conditions %s don't establish it" % (f.q, str(val).lower(), sorted(map(str, fs))[:4]), [where])
    return n, npath


def expand(facts):
    """compound conditions held in variables, as alternatives of plain facts"""
    alts = [[]]
    for op, a, b in facts:
        if op in ("true", "false") and isinstance(a, tuple) and a[:1] in (("bin",), ("un",), ("cond",)):
            alts = [x + y for x in alts for y in dnf(a, op == "true")]
        else:
            alts = [x + [(op, a, b)] for x in alts]
    return alts


def feasible(rel):
    return not any(w == 2 and a == b for (a, b), w in rel.items())


class Loop(mini.Mini):
    """follows one function; growth inside the item loops is judged"""

    def __init__(self, db, bodies, lams, rep):
        super().__init__(db)
        self.bodies, self.lams, self.rep = bodies, lams, rep
        self.sites = {}
        self.inside = 0

    def relevant(self, g):
        if not (g.f.startswith("app/") or g.f.startswith("lib/src/gen")):
            return False
        if g.n == "genDoesElementExist":
            return False
        return any(ITEM.search(p[2]) for p in g.p) or g.ret == "bool" and self.tests(g)

    def tests(self, g, depth=0):
        """a helper that asks for existence"""
        c = self.__dict__.setdefault("_tst", {})
        if g.id not in c:
            c[g.id] = False
            for e in core.all_exprs(self.db, g):
                if e[0] == "call":
                    if self.nm(e) == "genDoesElementExist":
                        c[g.id] = True
                    elif depth < 3 and e[3] in self.db.fns and self.db.fns[e[3]].ret == "bool" and self.db.fns[e[3]].f.startswith(("app/", "lib/src/gen")) and self.tests(self.db.fns[e[3]], depth + 1):
                        c[g.id] = True
        return c[g.id]

    def keep(self, a):
        return a[0] in ("true", "false") and isinstance(a[1], tuple) and (a[1][:1] == ("exist",)) or a[0] == "!=" and any(isinstance(x, tuple) and x[:1] == ("found",) for x in a[1:])

    def call(self, f, e, st, ctx):
        if e[0] == "call" and self.nm(e) == "genDoesElementExist" and len(e[4]) >= 2:
            return [(("exist", self.sym(e[4][0], st, ctx), self.sym(e[4][1], st, ctx)), st)]
        if e[0] == "call" and self.nm(e) == "find_if" and len(e[4]) == 3:
            l = core.lambda_of(self.db, f, e[4][2])
            if l in self.db.fns and self.picks_existing(self.db.fns[l]):
                s = ("found", e[1])
                return [(s, (st[0], frozenset(a for a in st[1] if s not in a)))]
        return None

    def indirect(self, f, e):
        """the call of a local function, not followed, that adds to an output"""
        if e[0] != "op" or e[3] != "()":
            return False
        l = core.lambda_of(self.db, f, e[5][0])
        g = self.db.fns.get(l)
        if g is None or self.relevant(g):
            return False
        loc = {x for _, x in self.locals(g)}
        for x in core.fn_exprs(g):
            t = growth(self, x)
            if t is not None and root(t) is not None and root(t) not in loc and TEXT.search(ty(g, core.strip(t)) or ""):
                return True
        return False

    def picks_existing(self, lam):
        """the predicate accepts existing items only"""
        M = Loop(self.db, {}, set(), self.rep)
        s0, c0 = M.start(lam)
        for s, r in M.run(lam, s0, c0):
            if r == ("k", "false"):
                continue
            if not (isinstance(r, tuple) and r[:1] == ("exist",) and same_item(r[1], r[2]) or r == ("k", "true") and any(op == "true" and a[:1] == ("exist",) and same_item(a[1], a[2]) for op, a, b in s[1])):
                return False
        return True

    def assign(self, st, l, s):
        if isinstance(s, tuple) and s[:1] in (("elem",), ("upd",)):
            def has(x):
                return x == s or isinstance(x, tuple) and any(has(y) for y in x)
            st = (st[0], frozenset(a for a in st[1] if not has(a)))
            st = (frozenset((k, v) for k, v in st[0] if not has(v)), st[1])
        return super().assign(st, l, s)

    def inline(self, f, g, x, st, ctx):
        inb = self.inside or (ctx.depth == 0 and id(x) in self.bodies)
        old, self.inside = self.inside, inb
        try:
            return super().inline(f, g, x, st, ctx)
        finally:
            self.inside = old

    def at(self, f, n, st, ctx):
        if not n.e:
            return
        for e in core.walk(n.e):
            if self.indirect(f, e):
                if id(e) in self.bodies and ctx.depth == 0 or ctx.depth > 0 and self.inside or f.id in self.lams:
                    ok = any(op == "!=" or op == "true" and same_item(a[1], a[2]) for op, a, b in st[1])
                    self.sites.setdefault((f.id, e[1]), [f, True])
                    if not ok:
                        self.sites[(f.id, e[1])][1] = False
                continue
            tgt = growth(self, e)
            if tgt is None:
                continue
            if not (ctx.depth == 0 and id(e) in self.bodies or ctx.depth > 0 and self.inside or f.id in self.lams):
                continue
            if ctx.depth > 0 and ("v", root(tgt)) in self.locals(f) and root(tgt) not in ctx.refs:
                continue
            if not TEXT.search(ty(f, core.strip(tgt)) or ""):
                continue
            r = root(tgt)
            if ctx.depth == 0 and r is not None and r in self.bodies.get("locals", ()):
                continue
            ok = any(op == "!=" or op == "true" and same_item(a[1], a[2]) for op, a, b in st[1])
            k = (f.id, e[1])
            self.sites.setdefault(k, [f, True])
            if not ok:
                self.sites[k][1] = False


def same_item(s, d):
    """m_sinceVersion and m_deprecatedSince of one record"""
    def split(x):
        if isinstance(x, tuple) and x[:1] == ("val",) and isinstance(x[1], tuple) and x[1][0] == "m":
            return ("val", x[1][1]), x[1][2]
        if isinstance(x, tuple) and x[:1] == ("mem",):
            return x[1], x[2]
        return None, None
    (b1, n1), (b2, n2) = split(s), split(d)
    return b1 is not None and b1 == b2 and n1 == "m_sinceVersion" and n2 == "m_deprecatedSince"


def root(e):
    e = core.strip(e)
    while e and e[0] in ("mem",):
        e = core.strip(e[4])
    return e[3] if e and e[0] == "v" else None


def growth(M, e):
    """target expression that an expression adds to"""
    if e[0] == "call" and len(e) > 5 and isinstance(e[5], list) and M.nm(e) in GROW:
        return e[5]
    if e[0] == "op" and e[3] == "+=" and len(e[5]) == 2:
        return e[5][0]
    if e[0] == "op" and e[3] == "<<" and len(e[5]) == 2:
        return e[5][0]
    return None


def body_exprs(db, f, s):
    r = set()
    loc = set()
    if s[0] == "rfor":
        b = s[4]
    else:
        b = s
    for t in core.stmts(b):
        if t[0] == "decl":
            loc |= {v[0] for v in t[2]}
        for x in core.stmt_exprs(t):
            if x:
                for y in core.walk(x):
                    r.add(id(y))
    return r, loc


def calls_in(db, f, e, depth=0):
    """names of the functions a range expression comes from"""
    r = set()
    for x in core.walk(e):
        if x[0] == "call":
            r.add(db.decls.get(x[3], {}).get("n"))
        if x[0] == "v" and depth < 3:
            for g in core.family(db, core.root_fn(db, f)):
                for s in core.stmts(g.b):
                    if s[0] == "decl":
                        for v in s[2]:
                            if v[0] == x[3] and v[3]:
                                r |= calls_in(db, f, v[3], depth + 1)
    return r


def looks_up(f, body):
    """the loop's body fetches item records"""
    for t in core.stmts(body):
        if t[0] == "decl":
            for v in t[2]:
                if isinstance(v[2], int) and v[2] < len(f.types) and ITEM.search(f.types[v[2]]):
                    return True
    return False


def run(db, rep, thorough):
    n, npath = semantics(db, rep)
    if n < 4:
        raise AnalysisBroken("existence tests not found")
    rep.set("existence_functions", n, 4)
    rep.set("existence_paths", npath, 6)
    loops = []
    for f in sorted(db.fns.values(), key=lambda f: (f.f, f.l)):
        if not f.b or f.dep or not (f.f.startswith("app/") or f.f.startswith("lib/src/gen")):
            continue
        for s in core.stmts(f.b):
            if s[0] == "rfor":
                x = s[2]
                t = f.types[x[2]] if isinstance(x, (list, tuple)) and len(x) > 2 and isinstance(x[2], int) and x[2] < len(f.types) else ""
                src = calls_in(db, f, s[3])
                if f.f.startswith("app/commsdsl2latex") and RANGE.search(t) or ITEM.search(t) or ITEM.search(ty(f, core.strip(s[3])) or "") or src & set(REVS) or looks_up(f, s[4]):
                    loops.append((f, s, src))
            elif s[0] in ("for", "while", "do"):
                src = set()
                for x in core.stmt_exprs(s):
                    if x:
                        src |= calls_in(db, f, x)
                init = [y for y in s if isinstance(y, list)]
                if src & (set(REVS) | set(LISTS) | {"parseSpecialValues", "parseValues"}) and src & {"begin", "end", "size"} or looks_up(f, s):
                    loops.append((f, s, src))
    lib = [(f, s, c) for f, s, c in loops if f.f.startswith("lib/")]
    app = [(f, s, c) for f, s, c in loops if not f.f.startswith("lib/")]
    # the shared list
    safe = {}
    sites = nl = 0
    bad_lib = []
    for f, s, c in lib:
        if "parseSpecialValues" not in c:
            continue
        k = "Int" if "IntField" in f.f else "Float"
        res = judge(db, rep, f, [s])
        safe[k] = bool(res) and all(ok for g, ok in res.values())
        nl += 1
    covered = 0
    for f, s, c in app:
        if EXEMPT.search(f.q.split("::")[-1]) or f.parent and EXEMPT.search(core.root_fn(db, f).q.split("::")[-1]):
            continue
        nl += 1
        k = "Int" if "IntField" in f.f else "Float" if "FloatField" in f.f else None
        if c & set(LISTS) and k and safe.get(k):
            covered += 1
            continue
        res = judge(db, rep, f, [s])
        for (fid, ln), (g, ok) in sorted(res.items(), key=repr):
            sites += 1
            rep.sample("emissions", "%s:%d" % (g.f, ln))
            if not ok:
                rep.violation("emission %s" % f.q, "%s:%d" % (g.f, ln), "emission", "%s adds an item to its output without having tested that the item exists in the selected version" % f.q, ["%s:%d" % (f.f, s[1]), "%s:%d" % (g.f, ln)])
    # item lambdas given to algorithms
    for f in db.fns.values():
        if not f.parent or f.dep or not f.f.startswith("app/") or not any(ITEM.search(p[2]) for p in f.p):
            continue
        r = core.root_fn(db, f)
        if EXEMPT.search(r.q.split("::")[-1]) or not passed_to(db, r, f, {"for_each"}):
            continue
        k = "Int" if "IntField" in f.f else "Float" if "FloatField" in f.f else None
        if k and safe.get(k):
            continue
        M = Loop(db, {}, {f.id}, rep)
        st, ctx = M.start(f)
        M.run(f, st, ctx)
        for (fid, ln), (g, ok) in M.sites.items():
            sites += 1
            if not ok:
                rep.violation("emission %s" % r.q, "%s:%d" % (g.f, ln), "emission", "%s adds an item to its output without having tested that the item exists in the selected version" % r.q, ["%s:%d" % (g.f, ln)])
    for k, v in safe.items():
        rep.note("the shared list of special values of %s fields is %s when it is filled" % (k.lower(), "filtered" if v else "not filtered"))
    rep.set("item_loops", nl, 5)
    rep.set("emissions_tested", sites, 1)
    rep.set("loops_over_filtered_lists", covered)


def passed_to(db, r, lam, names):
    for e in core.all_exprs(db, r):
        if e[0] == "call" and db.decls.get(e[3], {}).get("n") in names:
            if any(y[0] == "lam" and y[3] == lam.id for a in e[4] if a for y in core.walk(a)):
                return True
    return False


class Bodies(set):
    def get(self, k, d=None):
        return self.loc if k == "locals" else d


def judge(db, rep, f, ss):
    b = Bodies()
    b.loc = set()
    for s in ss:
        r, l = body_exprs(db, f, s)
        b |= r
        b.loc |= l
    M = Loop(db, b, set(), rep)
    st, ctx = M.start(f)
    M.run(f, st, ctx)
    return M.sites
