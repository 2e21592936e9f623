"""C22: free text of the schema is escaped before it becomes part of the LaTeX document."""
import re
from sa import core
from sa.facts import AnalysisBroken
from sa.rules.c15 import ty

RULE = ("no text that comes from the schema reaches a template expansion or output stream of the LaTeX generator without having passed latexEscString()/latexEscDisplayName() exactly once; "
        "the escaping function gives each of the ten LaTeX-special characters an escape and does not apply a later replacement to the text inserted by an earlier one")
EXPLAIN = ("(1) Taint analysis over all functions of commsdsl2latex and of the shared generation library: sources are the texts handed out by the parse API (names, display names, descriptions, keys and members of the value, bit and special records); "
           "labels are propagated flow-sensitively through locals, and through members, containers, parameters, returned values, lambdas and string operations over the whole program to a fix-point; the escaping functions turn a raw label into an escaped one; "
           "sinks are the values given to genProcessTemplate() and everything put into an output stream by the LaTeX generator. A raw label at a sink, and an escaped label given to an escaping function, are reported with origin and sink. "
           "(2) The escaping function: the characters it handles (case labels, search sets, replacement calls, table keys) must include every special character, what is emitted for each must be its escape, positions found in one text must not be used in another, "
           "and of consecutive replacement passes no later one may handle characters that an earlier one inserts.")
ASSUME = ["labels and file paths (latexLabelId, the genScope/genRelPath families) are built from identifiers and are not free text",
          "code-injection snippets are LaTeX written by the user and are not escaped",
          "texts produced from numbers, enumerations and fixed words contain no special characters beyond those the templates intend"]

APP = "app/commsdsl2latex/src"
ESC = ("latexEscString", "latexEscDisplayName")
CLEAN = re.compile(r"^(latexLabelId|latexRefLabelId\w*|latexRelPath\w*|latexLabelPrefix|latexSectionElem\w*|genScope\w*|genRelPath\w*|genCommonScope\w*|genReadCodeInjectCode|genReadFileContents|genPathUp|genGetOutputDir|genGetCodeDir|genClassName|genNumToString|to_string|latexIntegralToStr|latexOpt\w*|latexSectionDirective|genRel\w*|latex\w*FileName|latex\w*Path\w*|genHeader\w*|genBoolToString|genStringsList\w*|size|length|empty|find\w*|compare|begin|end|cbegin|cend|fileName|what)$")
GROW = {"push_back", "emplace_back", "append", "insert", "emplace", "push_front", "emplace_front", "insert_or_assign", "assign", "replace"}
SPECIAL = "\\{}#%$_&^~"
NUM = re.compile(r"^(const )?(bool|char|signed char|unsigned char|short|unsigned short|int|unsigned int|unsigned|long|unsigned long|long long|unsigned long long|float|double|void|std::size_t|std::ptrdiff_t|std::u?int\w+)( &)?$")


def texty(t):
    return "string" in t or "stream" in t


def carries(t):
    """types whose objects hold text"""
    return bool(re.search(r"string|char|stream|Parse\w*(Info|List|Map)\b|iterator", t)) and not NUM.match(re.sub(r"[ &]+$", "", t))


class Taint:
    APP, ESC, CLEAN = APP, ESC, CLEAN

    def __init__(self, db, rep):
        self.db, self.rep = db, rep
        self.ret, self.fld, self.glob = {}, {}, {}
        self.sinks = {}
        self.double = {}
        self.sources = set()
        self.escaped = set()
        self.fns = [f for f in db.fns.values() if f.b and f.f.startswith(self.APP) and f.n not in self.ESC]
        self.changed = False
        self.params = {self.vk(f, p[0]) for f in self.fns for p in f.p if carries(p[2])}
        self.sinkpar = {}
        self.parg, self.kept = {}, set()
        self.libcalls = {}

    def vk(self, f, vid):
        """variables are numbered per translation unit"""
        return (core.root_fn(self.db, f).id, vid)

    def is_source(self, n, q):
        """functions handing out free text"""
        return q.startswith("commsdsl::parse::") or n == "genName"

    def nm(self, e):
        return (self.db.decls.get(core.callee(e)) or {}).get("n", "")

    def join(self, m, k, v):
        if v:
            o = m.get(k, frozenset())
            if not v <= o:
                m[k] = o | v
                self.changed = True

    # ---- expression labels
    def ev(self, f, e, env):
        e0 = e
        e = core.strip(e)
        if not e or not isinstance(e, list):
            return frozenset()
        k = e[0]
        if k in ("int", "str", "chr", "bool", "null", "flt", "enumr", "this", "fref"):
            return frozenset()
        if k == "v":
            if e[3] in env:
                return env[e[3]]
            return self.glob.get(self.vk(f, e[3]), frozenset()) | self.symbolic(self.vk(f, e[3]))
        if k == "gv":
            return self.glob.get(e[3], frozenset())
        t = ty(f, e) or ""
        r = self.ev1(f, e, k, env, t)
        return r if carries(t) else frozenset()

    def symbolic(self, vid):
        """a text parameter stands for itself until a call supplies the argument"""
        if vid in self.params:
            return frozenset([("par", vid)])
        return frozenset()

    def subst(self, f, g, args, env, labels):
        r = set()
        m = {self.vk(g, p[0]): a for p, a in zip(g.p, args)}
        for l in labels:
            if l[0] == "par" and l[1] in m:
                r |= self.ev(f, m[l[1]], env)
            elif l[0] == "par" and l[1] in {self.vk(g, p[0]) for p in g.p}:
                continue
            else:
                r.add(l)
        return frozenset(r)

    def src(self, f, e, what):
        self.sources.add((f.id, e[1], what))
        return frozenset([("raw", f.f, e[1], what)])

    def ev1(self, f, e, k, env, t):
        U = frozenset()
        if k == "mem":
            cls = e[3].rsplit("::", 1)[0]
            n = e[3].split("::")[-1]
            if re.search(r"^(commsdsl::)?parse::|commsdsl::parse::", e[3]) and texty(t):
                return self.src(f, e, n) if self.is_source(n, "commsdsl::parse::") else U
            b = self.ev(f, e[4], env) if e[4] else U
            if n in ("first", "second"):
                return b
            return self.fld.get(e[3], U)
        if k == "call":
            n = self.nm(e)
            q = self.db.decls.get(core.callee(e), {}).get("q", "")
            args = [a for a in e[4] if a]
            if n in self.ESC:
                for a in args:
                    la = self.ev(f, a, env)
                    if any(x[0] == "esc" for x in la):
                        self.double[(f.id, e[1])] = f
                    if any(x[0] == "raw" for x in la):
                        self.escaped.add((f.id, e[1]))
                return frozenset([("esc", f.f, e[1], n)])
            obj = self.ev(f, e[5], env) if len(e) > 5 and isinstance(e[5], list) else U
            if self.is_source(n, q):
                return self.src(f, e, n) if texty(t) else U
            g = self.db.fns.get(core.callee(e))
            if g is not None and not g.f.startswith(self.APP):
                g = None
                self.libcalls.setdefault(q, set()).add(f.n)
            if self.CLEAN.match(n) and not (n in ("find", "begin", "end", "cbegin", "cend")):
                return U
            if n == "genProcessTemplate":
                return frozenset(x for a in args for x in self.ev(f, a, env) if x[0] == "esc")
            gs = ([g] if g is not None and g.b else []) + [self.db.fns[o] for o in self.overrides(core.callee(e))]
            if gs:
                outs = U
                for h in gs:
                    outs |= self.subst(f, h, args, env, self.ret.get(h.id, U))
                    self.pass_down(f, h, args, env)
                return outs
            r = obj
            for a in args:
                r |= self.ev(f, a, env)
            return r
        if k == "op":
            if e[3] == "()":
                l = core.lambda_of(self.db, f, e[5][0])
                if l in self.db.fns:
                    g = self.db.fns[l]
                    args = [a for a in e[5][1:] if a]
                    self.pass_down(f, g, args, env)
                    return self.subst(f, g, args, env, self.ret.get(l, U))
                return U
            if e[3] in ("==", "!=", "<", ">", "<=", ">=", "!"):
                return U
            r = U
            for a in e[5]:
                if a:
                    r |= self.ev(f, a, env)
            return r
        if k == "lam":
            return U
        if k == "cond":
            r = U
            for x in e[4:]:
                if isinstance(x, list):
                    r |= self.ev(f, x, env)
            return r
        if k == "bin" and e[3] in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"):
            return U
        r = U
        for x in core.kids(e):
            if isinstance(x, list):
                r |= self.ev(f, x, env)
        return r

    def overrides(self, i):
        c = self.__dict__.setdefault("_ov", {})
        if i not in c:
            r, st = set(), [i]
            while st:
                for o in self.db.overriders.get(st.pop(), ()):
                    if o not in r:
                        r.add(o)
                        st.append(o)
            c[i] = [o for o in r if o in self.db.fns and self.db.fns[o].f.startswith(self.APP)]
        return c[i]

    def pass_down(self, f, g, args, env):
        """arguments of parameters that reach a sink inside the callee"""
        for p, a in zip(g.p, args):
            pk = self.vk(g, p[0])
            if pk in self.kept and pk in self.params:
                self.join(self.parg, pk, self.real(self.ev(f, a, env)))
            if pk in self.sinkpar:
                h, ln = self.sinkpar[pk]
                self.sink(f, a, self.ev(f, a, env), (h, ln))

    # ---- statements
    def root(self, e):
        e = core.strip(e)
        while e:
            if e[0] == "v":
                return ("v", e[3])
            if e[0] == "gv":
                return ("g", e[3])
            if e[0] == "mem":
                n = e[3].split("::")[-1]
                if n in ("first", "second"):
                    e = core.strip(e[4])
                    continue
                return ("f", e[3])
            if e[0] == "op" and e[3] in ("[]", "*", "->", "<<") and e[5]:
                e = core.strip(e[5][0])
                continue
            if e[0] == "un" and e[3] in ("*", "&"):
                e = core.strip(e[4])
                continue
            if e[0] == "call" and self.nm(e) in ("back", "front", "at", "move", "get", "value", "append", "insert", "push_back") and len(e) > 5 and isinstance(e[5], list):
                e = core.strip(e[5])
                continue
            return None
        return None

    def put(self, f, env, l, v, strong):
        if l is None:
            return env
        if l[0] == "v":
            if strong:
                env = dict(env)
                env[l[1]] = v
            else:
                o = env.get(l[1], self.symbolic(self.vk(f, l[1])))
                env = dict(env)
                env[l[1]] = o | v
            self.join(self.glob, self.vk(f, l[1]), v)
            # a reference parameter set by a helper
            return env
        if l[0] == "f":
            self.join(self.fld, l[1], self.real(v))
        else:
            self.join(self.glob, l[1], self.real(v))
        return env

    def real(self, v):
        """labels of parameters that are kept beyond the call: those of all calls"""
        r = set()
        for l in v:
            if l[0] == "par":
                if l[1] not in self.kept:
                    self.kept.add(l[1])
                    self.changed = True
                r |= self.parg.get(l[1], frozenset())
            else:
                r.add(l)
        return frozenset(r)

    def effects(self, f, e, env):
        for x in reversed(list(core.walk(e))):
            if x[0] == "lam":
                continue
            if x[0] == "op" and x[3] == "=" and len(x[5]) == 2:
                l = core.strip(x[5][0])
                strong = bool(l) and l[0] == "v"
                env = self.put(f, env, self.root(x[5][0]), self.ev(f, x[5][1], env), strong)
            elif x[0] == "bin" and x[3] == "=":
                l = core.strip(x[4])
                env = self.put(f, env, self.root(x[4]), self.ev(f, x[5], env), bool(l) and l[0] == "v")
            elif x[0] == "op" and x[3] in ("+=", "<<") and len(x[5]) == 2:
                v = self.ev(f, x[5][1], env)
                tl = ty(f, core.strip(x[5][0])) or ""
                if x[3] == "<<" and re.search(r"basic_o?f?stream|ofstream|ostream", tl) and not "stringstream" in tl:
                    self.sink(f, x, v)
                env = self.put(f, env, self.root(x[5][0]), v, False)
            elif x[0] == "call" and len(x) > 5 and isinstance(x[5], list) and self.nm(x) in GROW:
                v = frozenset()
                for a in x[4]:
                    if a:
                        v |= self.ev(f, a, env)
                env = self.put(f, env, self.root(x[5]), v, False)
            elif x[0] == "call" and self.nm(x) == "genProcessTemplate":
                v = frozenset()
                for a in x[4][1:]:
                    if a:
                        v |= self.ev(f, a, env)
                self.sink(f, x, v)
            elif x[0] == "call":
                self.ev(f, x, env)
                d = self.db.decls.get(core.callee(x)) or {}
                g = self.db.fns.get(core.callee(x))
                # what a helper puts into its reference parameters
                if g is not None and g.b:
                    for p, a in zip(g.p, x[4]):
                        if p[2].endswith("&") and not p[2].startswith("const ") and texty(p[2] + ("string" if "List" in p[2] or "Map" in p[2] else "")):
                            env = self.put(f, env, self.root(a), self.subst(f, g, x[4], env, self.glob.get(self.vk(g, p[0]), frozenset())), False)
            elif x[0] == "op" and x[3] == "()":
                self.ev(f, x, env)
        return env

    def sink(self, f, x, v, at=None):
        if at is None and not f.f.startswith(self.APP):
            return
        at = at or (f.id, x[1])
        for l in v:
            if l[0] == "raw":
                self.sinks.setdefault((l, at[0]), at[1])
            elif l[0] == "par" and l[1] not in self.sinkpar:
                self.sinkpar[l[1]] = at
                self.changed = True

    def function(self, f):
        g = core.cfg(self.db, f, True)
        states = {g.entry.i: {}}
        work = [g.entry]
        own = {p[0] for p in f.p}
        n = 0
        while work:
            nd = work.pop()
            n += 1
            if n > 20000:
                raise RuntimeError("no fix-point in " + f.q)
            env = states[nd.i]
            if nd.k in ("abort", "throw"):
                continue
            if nd.e and nd.k != "loop":
                env = self.effects(f, nd.e, env)
            if nd.k == "d" and nd.x:
                v = self.ev(f, nd.e, env) if nd.e else frozenset()
                t = f.types[nd.x[2]] if isinstance(nd.x[2], int) and nd.x[2] < len(f.types) else ""
                if not carries(t):
                    v = frozenset()
                env = dict(env)
                env[nd.x[0]] = v
                self.join(self.glob, self.vk(f, nd.x[0]), v)
                # a reference to a container or record: growth goes to the original as well
            elif nd.k == "loop" and nd.x and nd.x[0]:
                env = self.effects(f, nd.e, env)
                v = self.ev(f, nd.e, env)
                var = nd.x[0][0] if isinstance(nd.x[0], (list, tuple)) else nd.x[0]
                env = dict(env)
                env[var] = v
                self.join(self.glob, self.vk(f, var), v)
                for b in (nd.x[1] or []) if len(nd.x) > 1 else []:
                    bid = b[0] if isinstance(b, (list, tuple)) else b
                    env[bid] = v
                    self.join(self.glob, self.vk(f, bid), v)
            elif nd.k == "ret" and nd.e:
                if not NUM.match(re.sub(r"[ &]+$", "", f.ret or "")):
                    self.join(self.ret, f.id, self.ev(f, nd.e, env))
            for t, lab in nd.succ:
                o = states.get(t.i)
                if o is None:
                    states[t.i] = env
                    work.append(t)
                elif o is not env:
                    m = dict(o)
                    ch = False
                    for k in set(o) | set(env):
                        j = o.get(k, frozenset()) | env.get(k, frozenset())
                        if j != o.get(k):
                            m[k] = j
                            ch = True
                    if ch:
                        states[t.i] = m
                        work.append(t)

    def solve(self):
        for i in range(40):
            self.changed = False
            self.sinks, self.double = {}, {}
            for f in self.fns:
                self.function(f)
            if not self.changed:
                return i + 1
        raise AnalysisBroken("taint analysis did not converge")


def chars(e):
    if e[0] == "chr":
        v = e[-1]
        return {chr(v) if isinstance(v, int) else v}
    if e[0] == "int":
        return set()
    if e[0] == "str":
        return set(e[-1]) if isinstance(e[-1], str) else set()
    return set()


def escaping(db, rep):
    """the escaping function handles every special character"""
    fs = [f for f in db.fns.values() if f.n == ESC[0] and f.b and f.f.startswith(APP) and not f.parent]
    if len(fs) != 1:
        raise AnalysisBroken("latexEscString not found")
    f = fs[0]
    where = "%s:%d" % (f.f, f.l)
    fam = []
    st = [f]
    seen = set()
    while st:
        g = st.pop()
        if g.id in seen:
            continue
        seen.add(g.id)
        fam += core.family(db, g)
        for h in core.family(db, g):
            for e in core.fn_exprs(h):
                if e[0] == "call" and e[3] in db.fns and db.fns[e[3]].f.startswith(APP):
                    st.append(db.fns[e[3]])
    handled, passes = {}, []
    pos_of = {}
    for g in fam:
        # order of replacement passes
        for e in core.fn_exprs(g):
            if e[0] == "call" and db.decls.get(e[3], {}).get("n") == "genStrReplace" and len(e[4]) >= 3:
                a, b = strs(db, e[4][1]), strs(db, e[4][2])
                if a and b:
                    passes.append((e[1], set(a), b))
                    for c in a:
                        handled.setdefault(c, set()).add(b)
            if e[0] == "call" and db.decls.get(e[3], {}).get("n") in ("find", "strchr", "count", "contains") and e[4]:
                # a set of characters that is searched for the current one
                o = core.strip(e[5]) if isinstance(e[5], list) else core.strip(e[4][0])
                a = strs(db, o)
                if o and o[0] == "v":
                    a = next((strs(db, v[3]) for s in core.stmts(g.b) if s[0] == "decl" for v in s[2] if v[0] == o[3] and v[3]), None)
                for c in a or "":
                    handled.setdefault(c, set())
            if e[0] == "call" and db.decls.get(e[3], {}).get("n") in ("find_first_of", "find") and len(e[4]) >= 1:
                a = strs(db, e[4][0])
                if a and set(a) & set(SPECIAL):
                    for c in a:
                        handled.setdefault(c, set())
                    passes.append((e[1], set(a), "\\"))
        for s in core.stmts(g.b):
            if s[0] == "switch":
                cases(db, g, s, handled)
            for x in core.stmt_exprs(s):
                for e in core.walk(x) if x else ():
                    if e[0] in ("bin", "op") and e[3] == "==":
                        ops = e[4:6] if e[0] == "bin" else e[5]
                        for y in ops:
                            y = core.strip(y) if isinstance(y, list) else None
                            if y and y[0] == "chr":
                                for c in chars(y):
                                    handled.setdefault(c, set())
        # tables
        for s in core.stmts(g.b):
            if s[0] == "decl":
                for v in s[2]:
                    if v[3]:
                        table(db, v[3], handled)
        for e in core.fn_exprs(g):
            if e[0] == "gv":
                gi = (db.globals.get(e[3]) or {}).get("init")
                if gi:
                    table(db, gi, handled)
    miss = [c for c in SPECIAL if c not in handled]
    if miss:
        rep.violation("escape missing", where, "escaping", "%s leaves the special character(s) %s as they are" % (f.q, " ".join(miss)), [where])
    # what is emitted
    for c, outs in sorted(handled.items()):
        for o in sorted(outs):
            if c in SPECIAL and o and not good(c, o):
                rep.violation("escape of %s" % c, where, "escaping", "%s replaces '%s' by '%s', which is not its escape" % (f.q, c, o), [where])
    # later pass over inserted text
    passes.sort()
    for i in range(len(passes)):
        for j in range(i + 1, len(passes)):
            ins = set(passes[i][2]) - (passes[i][1] if False else set())
            hit = passes[j][1] & ins
            if hit:
                rep.violation("escape twice", "%s:%d" % (f.f, passes[j][0]), "escaping", "a later replacement handles characters (%s) that an earlier one has inserted" % " ".join(sorted(hit)), [where])
    # positions found in one text, used in another
    for g in fam:
        found = {}
        for s in core.stmts(g.b):
            if s[0] == "decl":
                for v in s[2]:
                    x = core.strip(v[3]) if v[3] else None
                    if x and x[0] == "call" and db.decls.get(x[3], {}).get("n", "").startswith("find") and isinstance(x[5], list):
                        o = core.strip(x[5])
                        if o and o[0] == "v":
                            found[v[0]] = o[3]
        for e in core.fn_exprs(g):
            obj, idx = None, []
            if e[0] == "op" and e[3] == "[]" and len(e[5]) == 2:
                obj, idx = core.strip(e[5][0]), [e[5][1]]
            elif e[0] == "call" and db.decls.get(e[3], {}).get("n") in ("append", "substr", "assign") and e[4]:
                obj = core.strip(e[4][0]) if db.decls[e[3]]["n"] != "substr" else core.strip(e[5]) if isinstance(e[5], list) else None
                idx = e[4][1:] if db.decls[e[3]]["n"] != "substr" else e[4]
            if not obj or obj[0] != "v":
                continue
            for x in idx:
                for y in core.walk(x) if x else ():
                    if y[0] == "v" and y[3] in found and found[y[3]] != obj[3]:
                        rep.violation("escape position", "%s:%d" % (g.f, e[1]), "escaping", "a position found in one text is used in another", [where])
    return len([c for c in SPECIAL if c in handled])


def strs(db, e):
    for y in core.walk(e) if e else ():
        if y[0] == "str" and isinstance(y[-1], str):
            return y[-1]
        if y[0] == "gv":
            gi = (db.globals.get(y[3]) or {}).get("init")
            if gi:
                r = strs(db, gi)
                if r:
                    return r
    return None


def good(c, o):
    if c == "\\":
        return o.startswith("\\textbackslash")
    if c in "^~":
        return o in ("\\%s{}" % c, "\\textasciicircum{}", "\\textasciitilde{}", "{\\textasciicircum}", "{\\textasciitilde}", "\\")
    return o in ("\\" + c, "\\")


def table(db, e, handled):
    for y in core.walk(e):
        if y[0] in ("ctor", "init"):
            a = [core.strip(x) for x in (y[4] if y[0] == "ctor" else y[3]) if x]
            if len(a) == 2:
                k, v = deep(a[0]), deep(a[1])
                if k is not None and v is not None and len(k) == 1:
                    handled.setdefault(k, set()).add(v)


def deep(e):
    if not e:
        return None
    ys = [y for y in core.walk(e) if y[0] in ("str", "chr")]
    if len(ys) != 1:
        return None
    y = ys[0]
    v = y[-1]
    return (chr(v) if isinstance(v, int) else v)


def flat(b):
    """statements in order, case labels included"""
    return b


def cases(db, g, s, handled):
    """characters of case labels; the text appended under each group of labels"""
    cur = []
    out = []
    fresh = True

    def flush():
        for c in cur:
            handled.setdefault(c, set())
            t = "".join(c if o is None else o for o in out)
            if t:
                handled[c].add(t)

    def visit(t):
        nonlocal cur, out, fresh
        if t is None:
            return
        if t[0] in ("case", "default"):
            if out:
                flush()
                cur, out = [], []
            if t[0] == "case":
                for x in t[2:]:
                    if isinstance(x, list) and x and isinstance(x[0], str):
                        for y in core.walk(x):
                            if y[0] == "chr":
                                cur.extend(chars(y))
                            elif y[0] == "int" and isinstance(y[-1], (int, str)) and 0 < int(y[-1]) < 128:
                                cur.append(chr(int(y[-1])))
            else:
                cur = cur + []
            return
        if t[0] == "break":
            flush()
            cur, out = [], []
            return
        for x in core.stmt_exprs(t):
            for e in core.walk(x) if x else ():
                if e[0] == "call" and db.decls.get(e[3], {}).get("n") in ("append", "push_back") and e[4] or e[0] == "op" and e[3] == "+=" and len(e[5]) == 2:
                    a = core.strip(e[4][0] if e[0] == "call" else e[5][1])
                    v = deep(a)
                    out.append(v)
    for t in order(s):
        visit(t)
    flush()


def order(s):
    """all statements below a switch in textual order"""
    r = [t for t in core.stmts(s[-1] if isinstance(s[-1], list) else s)]
    return r


def run(db, rep, thorough):
    n = escaping(db, rep)
    T = Taint(db, rep)
    rounds = T.solve()
    done = set()
    for (l, fid), ln in sorted(T.sinks.items(), key=repr):
        k = (l[1], l[2], l[3])
        if k in done:
            continue
        done.add(k)
        f = db.fns[fid]
        rep.violation("raw %s %s" % (l[1].split("/")[-1], l[3]), "%s:%d" % (l[1], l[2]), "taint", "%s goes into the document unescaped (by way of %s, line %d)" % (l[3], f.q.split("::", 1)[-1], ln), ["%s:%d" % (l[1], l[2]), "%s:%d" % (f.f, ln)])
    for (fid, ln), f in sorted(T.double.items()):
        rep.violation("twice %s" % f.q, "%s:%d" % (f.f, ln), "taint", "%s escapes a text that has been escaped already" % f.q, ["%s:%d" % (f.f, ln)])
    rep.set("functions", len(T.fns), 200)
    rep.set("sources", len(T.sources), 20)
    rep.set("escaped_texts", len(T.escaped), 5)
    rep.set("special_characters", n)
    rep.set("rounds", rounds)
