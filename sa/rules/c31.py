"""C31: every name the schema gives is checked to be an identifier before its element is accepted."""
import re
from sa import core, mini
from sa.facts import AnalysisBroken

RULE = ("on every path from reading a 'name' property of an XML element to a successful result (or to the next element of a loop) the value has passed parseIsValidName(), or is empty where the name may be omitted; "
        "and parseIsValidName() accepts nothing but letters, digits and the underscore, a digit not being first")
EXPLAIN = ("Path-sensitive propagation over the control-flow graphs of the parsers: reading the value of the 'name' property (through the property helpers, or by looking it up in the property map) creates an unchecked value; "
           "it follows the value through members, locals, references and inlined helpers; a positive answer of parseIsValidName() about it, or a positive empty(), discharges it; every successful outcome of the outermost function, and the next reading at the same place, must find it discharged. "
           "The checking function itself: every comparison and character class it accepts is enumerated.")
ASSUME = ["isalpha() and isalnum() are those of the \"C\" locale (no tool calls setlocale)",
          "file names and class names are made of element names and of fixed words"]

KEYS = {"parseNameStr", "parseAlgNameStr"}
CHECK = "parseIsValidName"


class Names(mini.Mini):
    def __init__(self, db, rel):
        super().__init__(db, 6)
        self.rel = rel
        self.fetches = {}
        self.checks = set()
        self.again = {}

    def keep(self, atom):
        return False

    def relevant(self, g):
        return g.id in self.rel

    def is_key(self, e):
        e = self.strip(e)
        return bool(e) and e[0] == "call" and self.nm(e) in KEYS

    def sym(self, e, st, ctx, depth=0):
        s = super().sym(e, st, ctx, depth)
        return self.fold(s)

    def fold(self, s):
        if isinstance(s, tuple) and s[:1] == ("bin",) and len(s) == 4 and s[1] in ("&&", "||"):
            a, b = self.fold(s[2]), self.fold(s[3])
            stop = ("k", "false") if s[1] == "&&" else ("k", "true")
            go = ("k", "true") if s[1] == "&&" else ("k", "false")
            if a == stop or b == stop:
                return stop
            if a == go:
                return b
            if b == go:
                return a
        if isinstance(s, tuple) and s[:2] == ("un", "!") and len(s) == 3:
            a = self.fold(s[2])
            if a[:1] == ("k",) and a[1] in ("true", "false"):
                return ("k", "false" if a[1] == "true" else "true")
        return s

    def tags(self, s, out=None):
        out = set() if out is None else out
        if isinstance(s, tuple):
            if s[:1] == ("name!",):
                out.add(s)
            else:
                for x in s:
                    self.tags(x, out)
        return out

    def raw(self, st, tag):
        return (frozenset((k, v) for k, v in st[0] if k != ("raw", tag)) | {(("raw", tag), True)}, st[1])

    def done(self, st, tags):
        return (frozenset((k, v) for k, v in st[0] if not (k[0] == "raw" and k[1] in tags)), st[1])

    def fetch(self, f, x, st):
        tag = ("name!", f.f, x[1])
        self.fetches[tag] = f
        if (("raw", tag), True) in st[0]:
            self.again[tag] = f
        return tag

    def call(self, f, e, st, ctx):
        if e[0] == "call":
            n = self.nm(e)
            args = [a for a in e[4] if a]
            d = self.db.decls.get(core.callee(e)) or {}
            if n == CHECK and args:
                t = self.tags(self.sym(args[0], st, ctx))
                self.checks.add((f.f, e[1]))
                return [(("k", "true"), self.done(st, t)), (("k", "false"), st)]
            if n == "empty" and len(e) > 5 and isinstance(e[5], list):
                t = self.tags(self.sym(e[5], st, ctx))
                if t:
                    return [(("k", "true"), self.done(st, t)), (("k", "false"), st)]
                return None
            if any(self.is_key(a) for a in args):
                ty = f.types[e[2]] if isinstance(e[2], int) else ""
                if n in ("find", "at", "operator[]") or "string" in ty and n not in ("operator<<",):
                    tag = self.fetch(f, e, st)
                    return [(tag, self.raw(st, tag))]
                pt = d.get("pt") or []
                outs = [a for a, p in zip(e[4], pt) if re.search(r"string<?.*&$|string &$", p) and not mini.const_ref(p)]
                if outs:
                    tag = self.fetch(f, e, st)
                    l = self.lv(outs[0], ctx, st)
                    if l:
                        s2 = self.raw(self.assign(st, l, tag), tag)
                        return [(("k", "true"), s2), (("k", "false"), st)]
        if e[0] == "op" and e[3] in ("==", "!=") and len(e[5]) == 2:
            a = [self.sym(x, st, ctx) for x in e[5]]
            t = [x for x in a if x[:1] == ("name!",)]
            if t and any(isinstance(x, tuple) and x[:1] == ("call",) and str(x[1]).endswith("end") for x in a):
                eq = ("k", "true" if e[3] == "==" else "false")
                ne = ("k", "false" if e[3] == "==" else "true")
                return [(eq, self.done(st, set(t))), (ne, st)]
        if e[0] == "op" and e[3] == "[]" and len(e[5]) == 2 and self.is_key(e[5][1]):
            tag = self.fetch(f, e, st)
            return [(tag, self.raw(st, tag))]
        return None

    def atom(self, e, val, st, ctx):
        s = self.sym(e, st, ctx)
        if s == ("k", "true"):
            return True if val else False
        if s == ("k", "false"):
            return False if val else True
        return super().atom(e, val, st, ctx)


def calls(db, f):
    """functions a function refers to, its lambdas included"""
    r = set()
    for g in core.family(db, f):
        for e in core.fn_exprs(g):
            if e[0] in ("call", "fref", "ctor"):
                r.add(core.callee(e) if e[0] != "fref" else e[3])
    return r


def run(db, rep, thorough):
    fns = [f for f in db.fns.values() if f.b and f.f.startswith("lib/src/parse") and not f.parent and not f.dep]
    cs = {f.id: calls(db, f) for f in fns}
    keyid = {i for i, d in db.decls.items() if d.get("n") in KEYS}
    chkid = {i for i, d in db.decls.items() if d.get("n") == CHECK}
    if not keyid or not chkid:
        raise AnalysisBroken("parseNameStr/parseIsValidName not found")
    base = {i for i in cs if (cs[i] & (keyid | chkid)) and not (db.decls.get(i, {}).get("n") == CHECK)}
    rel = set(base)
    while True:
        more = {i for i in cs if i not in rel and cs[i] & rel}
        if not more:
            break
        rel |= more
    # only what holds a fetch or a check below it is followed into; lambdas go along
    lams = {g.id for f in fns if f.id in rel for g in core.family(db, f)}
    direct = {i for i in base if cs[i] & keyid}
    follow = set(base) | {g.id for i in base if i in db.fns for g in core.family(db, db.fns[i])}
    # callers whose callee leaves a name unchecked are examined in turn
    todo = sorted(direct)
    seen = set()
    tags, good = {}, set()
    nroot = npath = 0
    pend = {}
    while todo:
        i = todo.pop(0)
        if i in seen:
            continue
        seen.add(i)
        f = db.fns[i]
        M = Names(db, follow)
        st, ctx = M.start(f)
        nroot += 1
        bad = {}
        for s, r in M.run(f, st, ctx):
            npath += 1
            if r == ("k", "false"):
                continue
            for k, v in s[0]:
                if k[0] == "raw":
                    bad[k[1]] = True
        for t, g in M.fetches.items():
            tags.setdefault(t, g)
        for t, g in M.again.items():
            rep.violation("next %s" % g.q, "%s:%d" % (t[1], t[2]), "name check", "%s goes on to the next element without having checked the name of the one before" % core.root_fn(db, g).q, ["%s:%d" % (t[1], t[2])])
        good |= M.checks
        if not bad:
            continue
        callers = [j for j in cs if i in cs[j] and j != i]
        if not callers:
            for t in bad:
                pend[t] = f
            continue
        for j in callers:
            # examined with this one followed into
            follow.add(i)
            todo.append(j)
    for t, f in sorted(pend.items()):
        rep.violation("name %s" % tags[t].q, "%s:%d" % (t[1], t[2]), "name check", "the name read by %s is accepted by %s without having been checked to be an identifier" % (tags[t].q, f.q), ["%s:%d" % (t[1], t[2]), "%s:%d" % (f.f, f.l)])
    checker(db, rep)
    rep.set("names_read", len(tags), 12)
    rep.set("checks", len(good), 8)
    rep.set("outermost_functions", nroot)
    rep.set("outcomes", npath)
    for t, g in sorted(tags.items(), key=repr)[:20]:
        rep.sample("read", "%s:%d %s" % (t[1], t[2], g.q))


IDENT = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_")
FIRST = IDENT - set("0123456789")
CLASSES = {"isalpha": str.isalpha, "isalnum": str.isalnum, "isdigit": str.isdigit, "isupper": str.isupper, "islower": str.islower, "isspace": str.isspace,
           "isxdigit": lambda c: c in "0123456789abcdefABCDEF", "isprint": str.isprintable, "ispunct": lambda c: c.isprintable() and not c.isalnum() and c != " ", "isgraph": lambda c: c.isprintable() and c != " "}
CHARS = [chr(i) for i in range(128)]


class Unknown(Exception):
    pass


def value(db, e, c, who):
    """value of an expression for the character c; who collects which characters are looked at"""
    e = core.strip(e)
    while e and e[0] in ("cast", "icast", "dflt"):
        e = core.strip(core.kids(e)[0])
    if not e:
        raise Unknown()
    k = e[0]
    if k in ("int", "chr"):
        v = e[-1]
        return v if isinstance(v, int) else (int(v) if k == "int" else ord(v))
    if k == "bool":
        return 1 if str(e[-1]).lower() in ("1", "true") else 0
    if k == "v":
        who.add(("v", e[3]))
        return ord(c)
    if k in ("op", "un") and (e[3] == "[]" or e[3] == "*"):
        a = e[5] if k == "op" else [e[4]]
        first = False
        if e[3] == "[]":
            x = core.strip(a[1])
            first = bool(x) and x[0] == "int" and str(x[-1]) == "0"
        else:
            x = core.strip(a[0])
            first = bool(x) and x[0] == "call" and db.decls.get(x[3], {}).get("n") in ("begin", "cbegin")
        who.add(("first",) if first else ("elem",))
        return ord(c)
    if k == "call":
        n = db.decls.get(e[3], {}).get("n", "")
        if n in ("front", "at") and isinstance(e[5], list):
            who.add(("first",))
            return ord(c)
        if n in CLASSES and e[4]:
            v = value(db, e[4][0], c, who)
            return 1 if 0 <= v < 128 and CLASSES[n](chr(v)) else 0
        vs = [value(db, a, c, who) for a in e[4] if a]
        g = db.fns.get(e[3])
        rets = [x for x in core.stmts(g.b) if x[0] != "block"] if g is not None and g.b else []
        if len(vs) == 1 and len(g.p if rets else ()) == 1 and len(rets) == 1 and rets[0][0] == "ret":
            x = next((y for y in core.stmt_exprs(rets[0]) if y), None)
            return value(db, x, chr(vs[0]) if 0 <= vs[0] < 128 else "\0", set())
        raise Unknown()
    if k == "un" and e[3] == "!":
        return 0 if value(db, e[4], c, who) else 1
    if k in ("bin", "op"):
        a, b = (e[4], e[5]) if k == "bin" else (e[5] + [None, None])[:2]
        if e[3] == "&&":
            return 1 if value(db, a, c, who) and value(db, b, c, who) else 0
        if e[3] == "||":
            return 1 if value(db, a, c, who) or value(db, b, c, who) else 0
        x, y = value(db, a, c, who), value(db, b, c, who)
        ops = {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}
        if e[3] in ops:
            return 1 if ops[e[3]] else 0
        if e[3] == "-":
            return x - y
    if k == "cond":
        xs = [y for y in e[3:] if isinstance(y, list)]
        return value(db, xs[1] if value(db, xs[0], c, who) else xs[2], c, who)
    raise Unknown()


def charset(db, e):
    who = set()
    try:
        s = {c for c in CHARS if value(db, e, c, who)}
    except Unknown:
        return None, who
    return s, who


def checker(db, rep):
    """which characters parseIsValidName() accepts"""
    fs = [f for f in db.fns.values() if f.n == CHECK and f.b and not f.parent]
    if len(fs) != 1:
        raise AnalysisBroken("one %s expected" % CHECK)
    f = fs[0]
    where = "%s:%d" % (f.f, f.l)
    firsts, alls, unknown = [], [], 0
    for g in core.family(db, f):
        use = None
        if g.parent:
            # the algorithm the lambda is given to
            for e in core.fn_exprs(db.fns[g.parent]):
                if e[0] == "call" and any(core.lambda_of(db, db.fns[g.parent], a) == g.id for a in e[4] if a):
                    use = db.decls.get(e[3], {}).get("n")
        for n in core.cfg(db, g, True).nodes:
            if n.k == "ret" and n.e and g.parent:
                s, who = charset(db, n.e)
                if s is None:
                    unknown += 1
                    continue
                if not who:
                    continue
                acc = s if use == "all_of" else set(CHARS) - s if use in ("none_of", "any_of", "find_if") else s if use == "find_if_not" else None
                if acc is None:
                    unknown += 1
                else:
                    alls.append((acc, n.ln))
    # the tests of the function itself, followed for each character
    for which in ("first", "elem"):
        acc = set()
        ok = True
        for c in CHARS:
            r = reach(db, f, c, which)
            if r is None:
                ok = False
                break
            if r:
                acc.add(c)
        if ok and which == "first":
            firsts.append((acc, f.l))
        elif ok and acc:
            alls.append((acc, f.l))
    rep.set("accepting_tests", len(firsts) + len(alls))
    if unknown or not firsts:
        rep.note("part of %s has a form that is not evaluated" % CHECK)
    if firsts:
        bad = set.intersection(*[a for a, _ in firsts]) - (set.intersection(*[a for a, _ in alls]) if False else FIRST)
        if bad:
            rep.violation("first character", where, "name check", "%s accepts a name beginning with %r" % (f.q, "".join(sorted(bad))[:20]), [where])
    if alls:
        bad = set.intersection(*[a for a, _ in alls]) - IDENT
        if bad:
            rep.violation("character", where, "name check", "%s accepts a name containing %r" % (f.q, "".join(sorted(bad))[:20]), [where])
    elif not unknown:
        rep.violation("characters", where, "name check", "%s does not look at the characters after the first" % f.q, [where])


def reach(db, f, c, which):
    """can the function return something other than false when the first (or every looped-over) character is c; None when not understood"""
    g = core.cfg(db, f, True)
    start = (g.entry, which == "first")
    work, seen = [start], {(g.entry.i, start[1])}
    while work:
        n, tested = work.pop()
        if n.k == "ret":
            e = core.strip(n.e) if n.e else None
            if tested and not (e and e[0] == "bool" and str(e[-1]).lower() in ("0", "false")):
                return True
            continue
        succ = n.succ
        if n.k == "br" and n.e:
            s, who = charset(db, n.e)
            mine = who and (("first",) in who if which == "first" else ("first",) not in who)
            if s is None and mine:
                return None
            if s is not None and mine:
                tested = True
                succ = [(t, lab) for t, lab in n.succ if lab is None or bool(lab) == (c in s)]
        for t, lab in succ:
            if (t.i, tested) not in seen:
                seen.add((t.i, tested))
                work.append((t, tested))
    return False
