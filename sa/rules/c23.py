"""C23: length computations saturate instead of wrapping around."""
import re
from sa import core
from sa.facts import AnalysisBroken
from sa.rules.c15 import ty, bare

RULE = ("serialisation lengths are added and multiplied only where a test of the operands proves that the result fits, the other outcome of that test yields the unlimited length, "
        "no divisor can be zero and no length is converted to a narrower or signed type")
EXPLAIN = ("Lengths are followed from the virtual parseMinLength/parseMaxLength and commsMinLength/commsMaxLength families and the unlimited-length constant through variables, members, parameters, "
           "lambdas and return values over the whole program (fix-point). Inside everything that computes or receives a length every addition, subtraction, multiplication, shift and increment of a value that is not "
           "small by its origin (literal, container size, length of a scalar field) must be dominated on the control-flow graph by a comparison that excludes wrap-around "
           "(e.g. b <= MAX - a, or a <= (MAX - 1) / b), the opposite outcome must set the unlimited length, divisors must be proved non-zero, "
           "and lengths must not be converted to narrower or signed types or accumulated in one.")
ASSUME = ["the length of a scalar field (integer, enumeration, set, float) and a bit length are small: they are validated against the type's size when the field is parsed",
          "std::accumulate accumulates in the type of its initial value"]

SEED = re.compile(r"^(parse|comms|gen)M(in|ax)(imal|imum)?Length(Impl)?$")
BITS = re.compile(r"^parseBitLength(Impl)?$")
U64 = {"unsigned long", "unsigned long long", "std::size_t", "size_t", "std::uint64_t", "uint64_t", "std::uintmax_t", "uintmax_t"}
ARITH = {"+", "*", "<<", "+=", "*=", "<<=", "-", "-=", "/", "%", "/=", "%="}
NARROW = re.compile(r"^(const )?(unsigned |signed )?(char|short|int|long|long long|unsigned|std::u?int(8|16|32)_t|std::int64_t|std::intmax_t|bool)( int)?$")
FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}


def run(db, rep, thorough):
    fns = [f for f in db.fns.values() if f.b and f.f.startswith(("lib/", "app/")) and not f.dep]
    decl = lambda e: db.decls.get(e[3], {}) if e and e[0] == "call" and e[3] else {}
    recs = {r["q"]: r for r in (db.records.values() if isinstance(db.records, dict) else db.records)}
    supers = {}
    for q, r in recs.items():
        supers.setdefault(q, set()).update(bare(b) if isinstance(b, str) else bare(b[0]) for b in (r.get("bases") or []))

    def up(q):
        seen, st = set(), [q]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(supers.get(x, ()))
        return seen

    # ---- the unlimited length
    def is_max(e, depth=0):
        e = core.strip(e)
        while e and e[0] in ("cast", "icast"):
            e = core.strip(core.kids(e)[0])
        if not e or depth > 4:
            return False
        if e[0] == "int":
            return str(e[3]) in ("18446744073709551615", "-1")
        if e[0] == "un" and e[3] == "~":
            z = core.strip(e[4])
            while z and z[0] in ("cast", "icast"):
                z = core.strip(core.kids(z)[0])
            return bool(z and z[0] == "int" and str(z[3]) == "0")
        if e[0] == "gv":
            g = db.globals.get(e[3]) if isinstance(db.globals, dict) else None
            if g and g.get("init") and g.get("const") and bare(g.get("ty", "")) in U64:
                return is_max(g["init"], depth + 1)
            return False
        if e[0] == "call":
            d = decl(e)
            if d.get("n") == "max" and "numeric_limits" in d.get("q", "") + str(d.get("cls")) and not e[4]:
                return bare(d.get("ret", "")) in U64
            t = [f for f in fns if f.id == e[3]]
            if t and not t[0].p:
                rs = [n.e for n in core.cfg(db, t[0], False).nodes if n.k == "ret" and n.e]
                return bool(rs) and all(is_max(x, depth + 1) for x in rs)
        return False
    maxcache = {}

    def ismax(e):
        k = id(e)
        if k not in maxcache:
            maxcache[k] = (is_max(e), e)
        return maxcache[k][0]

    seeds = {d for d, x in db.decls.items() if SEED.match(x["n"]) and x.get("cls") and bare(x["ret"]) in U64 and not x.get("pt")}
    if len(seeds) < 20:
        raise AnalysisBroken("length accessors not found (%d)" % len(seeds))
    byid = db.fns
    # ---- classes whose lengths are small: the implementation that a call on them reaches combines nothing
    impl = {}
    for s in seeds:
        f = byid.get(s)
        if f and f.b:
            impl.setdefault(f.cls, {})[f.n] = f

    def simple(f):
        for e in core.fn_exprs(f):
            if e[0] in ("call", "op") and core.callee(e):
                d = db.decls.get(core.callee(e), {})
                if core.callee(e) in seeds or "Length" in d["n"] and d.get("cls") != f.cls and "Type" not in d["n"]:
                    return False
                if d["n"].endswith("ToLength") or "MulLength" in d["n"] or d["n"] == "accumulate":
                    return False
            if ismax(e):
                return False
        return True
    small_cls = {}

    def small_class(q, n):
        """calls of accessor n on static class q reach simple implementations only"""
        base = n[:-4] if n.endswith("Impl") else n
        key = (q, base)
        if key in small_cls:
            return small_cls[key]
        small_cls[key] = False
        cands = [q]
        if q + "Impl" in recs:
            cands = [q + "Impl"]
        ok = False
        for c in cands:
            # nearest override at or above the class
            def find(c, seen):
                if c in seen:
                    return None
                seen.add(c)
                m = impl.get(c, {}).get(base + "Impl")
                if m:
                    return m
                for b in supers.get(c, ()):
                    r = find(b, seen)
                    if r:
                        return r
            m = find(c, set())
            if m and c in up(m.cls) | {c} and m.cls == c and simple(m):
                subs = [x for x in impl if x != c and c in up(x) and (base + "Impl") in impl[x]]
                ok = all(simple(impl[x][base + "Impl"]) for x in subs)
        small_cls[key] = ok
        return ok

    def recv(f, e):
        o = e[5] if len(e) > 5 else None
        o = core.strip(o)
        if not o:
            return None
        if o[0] == "this":
            return core.root_fn(db, f).cls
        if o[0] == "op" and o[3] == "->":
            t = ty(f, o)
        else:
            t = ty(f, o)
        return bare(t).rstrip("*").strip() or None

    def small_call(f, e):
        d = decl(e)
        if d and BITS.match(d["n"]):
            return True
        if e[3] in seeds:
            c = recv(f, e)
            return bool(c) and small_class(c, d["n"])
        return False

    # ---- flow of lengths
    tv, tm, tr, tl = set(), set(), set(), set()  # tainted (root,var), members, functions, lambdas
    roots = {f.id: core.root_fn(db, f).id for f in fns}

    def tainted(f, e):
        if not e:
            return False
        k = e[0]
        if k in ("icast", "cast"):
            return tainted(f, core.kids(e)[0]) if core.kids(e) else False
        if k == "v":
            return (roots[f.id], e[3]) in tv
        if k == "mem":
            return e[3] in tm
        if k == "cond":
            return tainted(f, e[4]) or tainted(f, e[5])
        if ismax(e) and (k == "gv" or k == "call" and e[3] in byid):
            return True
        if k == "un":
            return e[3] in ("++", "--", "post++", "post--", "-", "+", "~") and tainted(f, e[4])
        if k == "bin":
            if e[3] in ("+", "-", "*", "/", "<<", ">>"):
                return tainted(f, e[4]) or tainted(f, e[5])
            if e[3] in ("=", "+=", "-=", "*=", "/=", "<<="):
                return tainted(f, e[4]) or tainted(f, e[5])
            if e[3] == ",":
                return tainted(f, e[5])
            return False
        if k == "call":
            if e[3] in seeds:
                return not small_call(f, e)
            if e[3] in tr:
                return True
            d = decl(e)
            if d.get("q", "").startswith("std::max") or d.get("q", "").startswith("std::clamp"):
                return any(tainted(f, a) for a in e[4])
            if d.get("q", "").startswith("std::min"):
                return bool(e[4]) and all(tainted(f, a) for a in e[4] if core.strip(a) and core.strip(a)[0] != "lam")
            if d.get("q", "").startswith(("std::accumulate", "std::reduce", "std::transform_reduce")):
                return any(core.lambda_of(db, f, a) in tl for a in e[4]) or len(e[4]) > 2 and tainted(f, e[4][2])
            if d.get("q", "").startswith(("std::move", "std::forward", "std::as_const")):
                return any(tainted(f, a) for a in e[4])
        if k == "op" and e[3] == "()":
            l = core.lambda_of(db, f, e[5][0])
            return l in tl
        if k in ("init",) and len(e[3]) == 1:
            return tainted(f, e[3][0])
        return False

    def rets(f):
        for s in core.stmts(f.b):
            if s[0] == "ret" and s[2]:
                yield s[2]
    lamids = {f.id for f in fns if f.parent}
    numeric = re.compile(r"^(const )?(unsigned |signed )?(char|short|int|long|long long|unsigned|float|double)( int| long)?( ?&)?$")
    changed, rounds = True, 0
    while changed and rounds < 30:
        changed, rounds = False, rounds + 1

        def add(s, x):
            nonlocal changed
            if x not in s:
                s.add(x); changed = True
        for f in fns:
            R = roots[f.id]
            for s in core.stmts(f.b):
                if s[0] == "decl":
                    for v in s[2]:
                        if v[3] and tainted(f, v[3]):
                            add(tv, (R, v[0]))
            for e in core.fn_exprs(f):
                if e[0] == "bin" and e[3] in ("=", "+=", "*=", "-=", "<<="):
                    l = core.strip(e[4])
                    if l and tainted(f, e[5]):
                        if l[0] == "v":
                            add(tv, (R, l[3]))
                        elif l[0] == "mem":
                            add(tm, l[3])
                elif e[0] == "call" and e[3] in byid and e[3] not in lamids:
                    g = byid[e[3]]
                    if not g.f.startswith(("lib/", "app/")):
                        continue
                    for i, a in enumerate(e[4]):
                        if i < len(g.p) and numeric.match(g.p[i][2]):
                            if tainted(f, a):
                                add(tv, (roots.get(g.id, g.id), g.p[i][0]))
                            if g.p[i][2].endswith("&") and (roots.get(g.id, g.id), g.p[i][0]) in tv and not g.p[i][2].startswith("const"):
                                l = core.strip(a)
                                if l and l[0] == "v":
                                    add(tv, (R, l[3]))
                                elif l and l[0] == "mem":
                                    add(tm, l[3])
                elif e[0] == "op" and e[3] == "()":
                    l = core.lambda_of(db, f, e[5][0])
                    if l in byid:
                        for i, a in enumerate(e[5][1:]):
                            if i < len(byid[l].p) and tainted(f, a) and numeric.match(byid[l].p[i][2]):
                                add(tv, (R, byid[l].p[i][0]))
                elif e[0] == "call" and decl(e).get("q", "").startswith("std::accumulate"):
                    l = core.lambda_of(db, f, e[4][-1]) if len(e[4]) > 3 else None
                    if l in tl and byid[l].p:
                        add(tv, (R, byid[l].p[0][0]))
            if numeric.match(f.ret) and any(tainted(f, e) for e in rets(f)):
                add(tl if f.parent else tr, f.id)
    # ---- scope: everything that computes lengths
    scope = [f for f in fns if f.id in tr or f.id in tl or f.id in seeds or core.root_fn(db, f).id in seeds]
    inscope = {f.id for f in scope}

    def small(f, e):
        e = core.strip(e)
        if not e:
            return False
        if ismax(e):
            return False
        if e[0] in ("icast", "cast"):
            return small(f, core.kids(e)[0])
        if e[0] in ("int", "chr", "sizeof", "x", "enumr"):
            return True
        if e[0] == "gv":
            g = db.globals.get(e[3]) if isinstance(db.globals, dict) else None
            return bool(g and g.get("const"))
        if e[0] == "call":
            if small_call(f, e):
                return True
            d = decl(e)
            return d.get("n") in ("size", "length", "count", "distance", "find", "index")
        if e[0] == "bin" and e[3] in ("+", "*", "-", "/", "<<"):
            return small(f, e[4]) and small(f, e[5])
        if e[0] == "cond":
            return small(f, e[4]) and small(f, e[5])
        if e[0] == "v" and (roots[f.id], e[3]) not in tv:
            # a local all of whose values are small
            ok, any_ = True, False
            rf = byid[roots[f.id]]
            for g in core.family(db, rf):
                for q in g.p:
                    if q[0] == e[3]:
                        # the accumulator of a sum of small values
                        if g.parent and g.p[0][0] == e[3] and g.id not in tl:
                            return True
                        return False
                for s in core.stmts(g.b):
                    if s[0] == "decl":
                        for v in s[2]:
                            if v[0] == e[3]:
                                any_ = True
                                if v[3] and not (core.strip(v[3]) and core.strip(v[3])[0] == "v" and core.strip(v[3])[3] == e[3]) and not small(g, v[3]):
                                    ok = False
                for x in core.fn_exprs(g):
                    if x[0] == "bin" and x[3].endswith("=") and x[3] not in ("==", "!=", "<=", ">="):
                        l = core.strip(x[4])
                        if l and l[0] == "v" and l[3] == e[3]:
                            if x[3] == "=" and not small(g, x[5]):
                                ok = False
                            if x[3] in ("+=", "-=", "*=", "<<=") and not (small_literal(x[5]) or small(g, x[5])):
                                ok = False
            return ok and any_
        return False

    def small_literal(e):
        e = core.strip(e)
        while e and e[0] in ("icast", "cast"):
            e = core.strip(core.kids(e)[0])
        return bool(e and e[0] == "int")

    def const_nonzero(e):
        e = core.strip(e)
        while e and e[0] in ("icast", "cast"):
            e = core.strip(core.kids(e)[0])
        if not e:
            return False
        if e[0] == "int":
            return str(e[3]) != "0"
        if e[0] == "gv":
            g = db.globals.get(e[3]) if isinstance(db.globals, dict) else None
            return bool(g and g.get("const") and ("digits" in str(g.get("init")) or const_nonzero(g.get("init"))))
        return e[0] == "x"

    def key(e):
        e = core.strip(e)
        while e and e[0] in ("icast", "cast"):
            e = core.strip(core.kids(e)[0])
        if not e:
            return None
        if ismax(e):
            return "MAX"
        if e[0] == "int":
            return "#%s" % e[3]
        if e[0] == "v":
            return "v%s" % e[3]
        if e[0] == "mem":
            return "%s(%s)" % (e[3], key(e[4]) if e[4] else "")
        if e[0] == "this":
            return "this"
        if e[0] == "bin":
            return "(%s%s%s)" % (key(e[4]), e[3], key(e[5]))
        if e[0] == "call":
            return "%s(%s;%s)" % (decl(e).get("q"), key(e[5]) if len(e) > 5 and isinstance(e[5], list) else "", ",".join(str(key(a)) for a in e[4]))
        if e[0] == "op":
            return "op%s(%s)" % (e[3], ",".join(str(key(a)) for a in e[5]))
        return core.show(db, e)

    def canon(e):
        """the expression with constant locals replaced is not needed: structure only"""
        e = core.strip(e)
        while e and e[0] in ("icast", "cast"):
            e = core.strip(core.kids(e)[0])
        return e

    MAXISH = re.compile(r"^(MAX|\(MAX-#\d+\))$")

    def add_ok(facts, a, b):
        for x, y in ((a, b), (b, a)):
            for (l, op, r) in facts:
                # x <= MAX - y
                if l == x and op in ("<", "<=") and re.match(r"^\((MAX|\(MAX-#\d+\))-%s\)$" % re.escape(y), r):
                    return True
        return False

    def mul_ok(facts, a, b):
        for x, y in ((a, b), (b, a)):
            for (l, op, r) in facts:
                if l != x:
                    continue
                for lim in (r"MAX", r"\(MAX-#\d+\)"):
                    if op in ("<", "<=") and re.match(r"^\(%s/%s\)$" % (lim, re.escape(y)), r):
                        return True
                    if op == "<" and re.match(r"^\(\(%s/%s\)\+#1\)$" % (lim, re.escape(y)), r):
                        return True
            if any(l == x and op == "==" and r in ("#0", "#1") for (l, op, r) in facts):
                return True
        return False

    def nonzero(facts, y):
        for (l, op, r) in facts:
            if l == y and (op == "!=" and r == "#0" or op == ">" and r.startswith("#") or op == ">=" and r.startswith("#") and r != "#0" or op == "T"):
                return True
        return False

    def fact_of(e, val):
        """facts established by an atomic condition with the given outcome"""
        e = canon(e)
        out = []
        if e and e[0] == "bin" and e[3] in FLIP:
            op = e[3] if val else NEG[e[3]]
            a, b = key(e[4]), key(e[5])
            out.append((a, op, b))
            out.append((b, FLIP[op], a))
        elif e and val:
            out.append((key(e), "T", ""))
        elif e:
            out.append((key(e), "==", "#0"))
        return out

    def assigned(n):
        """keys of variables a node writes"""
        w = set()
        if n.k == "d":
            w.add("v%s" % n.x[0])
        if n.e:
            for x in core.walk(n.e):
                if x[0] == "bin" and x[3].endswith("=") and x[3] not in ("==", "!=", "<=", ">="):
                    w.add(key(x[4]))
                elif x[0] == "un" and ("++" in x[3] or "--" in x[3]):
                    w.add(key(x[4]))
                elif x[0] in ("call",):
                    d = decl(x)
                    for i, a in enumerate(x[4]):
                        pt = (d.get("pt") or [])
                        t = pt[i] if i < len(pt) else ""
                        if t.endswith("&") and not t.startswith("const"):
                            w.add(key(a))
        if n.k == "as":
            pass
        return {x for x in w if x}

    def ops_of(n):
        if not n.e:
            return
        for x in core.walk(n.e):
            if x[0] == "bin" and x[3] in ARITH:
                yield x
            elif x[0] == "un" and x[3].replace("post", "") in ("++", "--", "-"):
                yield x
    nops = nguard = nconv = nsat = ndiv = 0
    reported = set()

    def bad(f, ln, rule, text, path=None):
        q = core.root_fn(db, f).q
        k = "%s %s" % (rule, q)
        if (k, ln) in reported:
            return
        reported.add((k, ln))
        rep.violation(k, "%s:%d" % (f.f, ln), rule, "%s: %s" % (q, text), path or [])
    interesting = []
    for f in fns:
        ops = []
        for e in core.fn_exprs(f):
            if e[0] == "bin" and e[3] in ARITH or e[0] == "un" and e[3].replace("post", "") in ("++", "--", "-"):
                t = ty(f, e)
                if not numeric.match(bare(t)) or bare(t) in ("float", "double"):
                    continue
                opn = [e[4], e[5]] if e[0] == "bin" else [e[4]]
                if any(ty(f, o).rstrip(" &").endswith("*") for o in opn):
                    continue
                anyt = any(tainted(f, o) for o in opn)
                if anyt or (f.id in inscope and not all(small(f, o) for o in opn)):
                    ops.append(e)
                elif f.id in inscope:
                    nops += 1
        if ops:
            interesting.append((f, ops))
    helpers = set()
    for f, ops in interesting:
        g = core.cfg(db, f, False)
        opids = {id(e): e for e in ops}
        verdict = {}

        def step(n, st):
            facts, ov, sat = st
            if n.k == "br":
                outs = []
                for val in (True, False):
                    nf = set(facts)
                    new = fact_of(n.e, val)
                    nf.update(new)
                    o = ov
                    # the outcome that refutes a proof of fitting
                    opp = fact_of(n.e, not val)
                    if any(fits(x) for x in opp) and not any(fits(x) for x in new):
                        o = True
                    outs.append((val, (frozenset(nf), o, sat)))
                return outs
            w = assigned(n)
            if n.k == "d":
                # a local holding a limit: remember its definition
                nf = {x for x in facts if not any(k in x[0] or k in x[2] for k in w)}
                if n.e:
                    nf.add(("v%s" % n.x[0], "==", key(n.e)))
                return [("*", (frozenset(nf), ov, sat))]
            s2 = sat
            if n.e and n.k == "e":
                x = canon(n.e)
                if x and x[0] == "bin" and x[3] == "=" and ismax(core.strip(x[5])):
                    s2 = True
            if w:
                facts = frozenset(x for x in facts if not any(k in x[0] or k in x[2] for k in w))
            return [("*", (facts, ov, s2))]

        def expand(facts):
            """replace locals by their definitions in facts"""
            defs = {l: r for (l, op, r) in facts if op == "==" and re.match(r"^v\d+$", l) and re.match(r"^\(", r or "")}
            if not defs:
                return facts
            out = set(facts)
            for (l, op, r) in facts:
                for d, x in defs.items():
                    if r == d:
                        out.add((l, op, x))
                    if l == d and op in FLIP:
                        out.add((x, op, r))
                    if r and ("(" in r) and d in r:
                        out.add((l, op, re.sub(r"\b%s\b" % d, lambda m, x=x: x, r)))
            return out

        def fits(x):
            l, op, r = x
            if not r:
                return False
            return op in ("<", "<=") and bool(re.match(r"^\((MAX|\(MAX-#\d+\))-", r) or re.match(r"^\(?\(?(MAX|\(MAX-#\d+\))/", r)) and not (l or "").startswith("#")
        try:
            for n, st, par in core.explore(g, (frozenset(), False, False), step):
                facts, ov, sat = st
                fx = None
                for e in ops_of(n):
                    if id(e) not in opids:
                        continue
                    if fx is None:
                        fx = expand(facts)
                    a = key(e[4])
                    b = key(e[5]) if e[0] == "bin" else "#1"
                    o = e[3].replace("post", "").rstrip("=") or e[3]
                    ok = True
                    why = ""
                    if o in ("+", "++"):
                        ok = add_ok(fx, a, b) or (small(f, e[4]) and small(f, e[5]) if e[0] == "bin" else False)
                        if not ok and e[0] == "bin" and MAXDIV.match(a or "") and (b or "").startswith("#"):
                            ok = True  # (MAX - 1) / x + 1
                        why = "adding lengths without excluding wrap-around"
                    elif o in ("*", "<<"):
                        ok = o == "*" and mul_ok(fx, a, b)
                        why = "multiplying lengths without excluding wrap-around"
                    elif o in ("-", "--"):
                        ok = bool(MAXISH.match(a or "")) or any((l == a and op in (">", ">=") and r == b) for (l, op, r) in fx) or \
                            (b.startswith("#") and any(l == a and op in (">", "!=") and r == "#0" for (l, op, r) in fx))
                        why = "subtracting from a length that may be smaller"
                    elif o in ("/", "%"):
                        ok = const_nonzero(e[5]) or nonzero(fx, b)
                        why = "divisor may be zero"
                    if not ok and e[0] == "bin" and o == "+" and post_check(f, e):
                        ok = True
                    if not ok:
                        verdict.setdefault(id(e), (e, why, core.path_lines(g, par, n, st)))
                    if ok and o in ("+", "*"):
                        helpers.add(f.id)
                if n.k == "ret" or n.k == "endfn":
                    if ov and not sat and f.id in (tr | tl | helpers) | voids(f):
                        if n.k == "ret" and n.e and ismax(core.strip(n.e)):
                            nsat += 1
                        elif n.k == "ret" and n.e and not tainted(f, n.e) and f.id not in tr | tl:
                            pass
                        else:
                            key_ = ("sat", n.ln)
                            verdict.setdefault(key_, (["x", n.ln or f.el], "the outcome where the result does not fit does not yield the unlimited length", core.path_lines(g, par, n, st)))
        except RuntimeError as x:
            raise AnalysisBroken(str(x))
        for e in ops:
            nguard += 1
            rep.sample("guarded", "%s:%d %s" % (f.f, e[1], core.show(db, e)), 12)
        for e, why, path in verdict.values():
            bad(f, e[1], "saturate", "%s%s" % (why, ": " + core.show(db, e) if e[0] in ("bin", "un") else ""), ["%s:%d" % (f.f, l) for l in path])
    # ---- conversions
    for f in fns:
        for e in core.fn_exprs(f):
            if e[0] in ("icast", "cast") and core.kids(e) and tainted(f, core.kids(e)[0]):
                t = bare(ty(f, e))
                nconv += 1
                if NARROW.match(t) and t not in U64 and t != "bool" and not (e[0] == "cast" and t == "void"):
                    bad(f, e[1], "narrow", "a length is converted to '%s': %s" % (t, core.show(db, e)))
            elif e[0] == "call" and decl(e).get("q", "").startswith(("std::accumulate", "std::reduce")) and len(e[4]) >= 3:
                t = bare(ty(f, e))
                l = core.lambda_of(db, f, e[4][-1])
                if l in tl or any(tainted(f, a) for a in e[4]):
                    nconv += 1
                    if t not in U64:
                        bad(f, e[1], "narrow", "lengths are accumulated in '%s'" % t)
        if f.id in tr | tl and bare(f.ret) not in U64 and numeric.match(bare(f.ret)):
            bad(f, f.l, "narrow", "a length is returned as '%s'" % f.ret)
    rep.set("length accessors", len([s for s in seeds if s in byid and byid[s].b]), 25)
    rep.set("functions and lambdas computing lengths", len(scope), 30)
    rep.set("operations that need a proof", nguard, 3)
    rep.set("small operations in length computations", nops)
    rep.set("conversions of lengths examined", nconv, 3)
    rep.set("variables carrying lengths", len(tv), 20)
    rep.set("saturating outcomes", nsat, 1)
    for m in sorted(tm):
        rep.sample("members carrying lengths", m, 12)


MAXDIV = re.compile(r"^\((MAX|\(MAX-#\d+\))/")


def post_check(f, e):
    """r = a + b followed by a comparison of r with an operand"""
    names = set()
    for s in core.stmts(f.b):
        if s[0] == "decl":
            for v in s[2]:
                if v[3] and any(x is e for x in core.walk(v[3])):
                    names.add(v[0])
    for x in core.fn_exprs(f):
        if x[0] == "bin" and x[3] == "=" and any(y is e for y in core.walk(x[5])):
            l = core.strip(x[4])
            if l and l[0] == "v":
                names.add(l[3])
    opn = {y[3] for y in (core.strip(e[4]), core.strip(e[5])) if y and y[0] == "v"}
    for x in core.fn_exprs(f):
        if x[0] == "bin" and x[3] in ("<", ">"):
            s = {y[3] for y in (core.strip(x[4]), core.strip(x[5])) if y and y[0] == "v"}
            if s & names and s & opn:
                return True
    return False


def voids(f):
    return {f.id} if f.ret == "void" and any(p[2].endswith("&") and not p[2].startswith("const") for p in f.p) else set()
