"""C03: malformed numbers, booleans and units are rejected, never read as 0."""
from .. import core, status

EXPLAIN = ("Two obligations. (1) Every call of a text-to-value conversion reports through a success flag; a path-sensitive must-check "
           "dataflow follows each flag from the call: it has to be tested on every path before the converted value is read, before "
           "the flag is reused and before the function returns, and on the failing branch the value is neither read nor left in "
           "effect under a successful return. (2) The conversion functions themselves: the flag is set on every path, is true only "
           "after the whole text was consumed (end position compared) and, when narrowed, after a range comparison, and rejects a "
           "sign for unsigned types; the C/C++ primitives (std::sto*, strto*, ato*) are used nowhere without such protection.")
RULE = ("R1 flag examined before use/overwrite/return; R2 no success with a value whose conversion failed; R3 conversion called with a "
        "flag; R4 converters: flag set on every path, whole text consumed, result fits, sign checked; R5 no unguarded primitive conversion")
ASSUME = ["value texts the generators re-read (default values, comparison values) were validated by the parser with the same literals"]

PRIM = {"stoi", "stol", "stoll", "stoul", "stoull", "stod", "stof", "stold", "strtol", "strtoul", "strtoll", "strtoull", "strtod",
        "atoi", "atol", "atoll", "atof", "sscanf"}


def okparam(f):
    """index of the success-flag parameter of a conversion function"""
    for i, p in enumerate(f.p):
        if p[2].replace(" ", "") in ("bool*", "bool*const"):
            return i
    return None


def dn(db, e):
    if e and e[0] == "call" and e[3]:
        d = db.decls.get(e[3])
        return d["n"] if d else None
    return None


def prim(db, e):
    n = dn(db, e)
    return n if n in PRIM and not (db.decls[e[3]].get("cls")) else None


def converters(db, S, fns):
    """functions with a bool* flag that convert text: call a primitive, or are named as a conversion, or forward to one"""
    r = {}
    for f in fns:
        i = okparam(f)
        if i is None or not any("string" in p[2] for p in f.p):
            continue
        if any(prim(db, e) for e in core.fn_exprs(f)) or "StrTo" in f.n or f.n == "parseRange":
            r[f.id] = i
    ch = True
    while ch:
        ch = False
        for f in fns:
            i = okparam(f)
            if i is None or f.id in r:
                continue
            for e in core.fn_exprs(f):
                if e[0] == "call" and any(strip(a) and strip(a)[0] == "v" and strip(a)[3] == f.p[i][0] for a in e[4]) and \
                        any(t in r for t in S.targets(f, e) or ()):
                    r[f.id] = i
                    ch = True
                    break
    return r


def strip(e):
    e = core.strip(e)
    while e and e[0] == "cast" and len(e) > 5:
        e = core.strip(e[5])
    return e


def flagvar(e):
    """id of the variable whose address is passed"""
    e = strip(e)
    if e and e[0] == "un" and e[3] == "&":
        v = core.strip(e[4])
        if v and v[0] == "v":
            return v[3]
    return None


def path(e):
    """access path of an assignment target"""
    e = core.strip(e)
    if not e:
        return None
    if e[0] == "v":
        return "v%s" % e[3]
    if e[0] == "mem":
        b = path(e[4]) if e[4] and core.strip(e[4])[0] != "this" else "this"
        return (b or "?") + "." + e[3]
    if e[0] == "op" and e[3] in ("->", "*") and len(e[5]) == 1:
        return path(e[5][0])
    if e[0] == "un" and e[3] == "*":
        return path(e[4])
    if e[0] == "this":
        return "this"
    return None


def call_sites(db, S, f, conv):
    for e in core.fn_exprs(f):
        if e[0] == "call":
            t = [x for x in S.targets(f, e) or () if x in conv]
            if t:
                yield e, conv[t[0]], db.fns[t[0]]


def contains(e, c):
    return any(x is c for x in core.walk(e))


def check_sites(db, S, rep, fns, conv):
    for f in fns:
        sites = list(call_sites(db, S, f, conv))
        if not sites:
            continue
        g = core.cfg(db, f, not f.f.startswith("lib/src/parse"))
        refs = {"v%s" % p[0] for p in f.p if "&" in p[2] or "*" in p[2]}
        for c, oi, tf in sites:
            rep.count("conversion call sites")
            arg = c[4][oi] if oi < len(c[4]) else None
            a = strip(arg)
            if f.id in conv and a and a[0] == "v" and a[3] == f.p[conv[f.id]][0]:
                rep.count("flag handed on to the caller")
                continue
            var = flagvar(arg)
            if var is None:
                rep.violation("noflag %s in %s" % (tf.n, f.q), f.where(c[1]), "R3",
                              "%s calls %s without asking whether the conversion succeeded" % (f.q, tf.n))
                continue
            outer = not any(n.k == "d" and n.x[0] == var for n in g.nodes)
            follow(db, S, rep, f, g, c, tf, var, refs, outer)


def follow(db, S, rep, f, g, c, tf, var, refs, outer):
    node, target = None, None
    for n in g.nodes:
        if n.e and contains(n.e, c):
            node = n
            if n.k == "d":
                target = "v%s" % n.x[0]
            else:
                for x in core.walk(n.e):
                    if x[0] == "bin" and x[3] == "=" and contains(x[5], c):
                        target = path(x[4])
                    elif x[0] == "op" and x[3] == "=" and len(x[5]) == 2 and contains(x[5][1], c):
                        target = path(x[5][0])
            break
    if node is None:
        return
    v = "v%s" % var
    tv = target.split(".")[0] if target else None
    persistent = bool(target) and (target.startswith("this") or tv in refs)

    def reads(e, what):
        """occurrences of an access path other than as an assignment target"""
        w = set()
        for x in core.walk_eval(e):
            l = None
            if x[0] == "bin" and x[3] == "=":
                l = x[4]
            elif x[0] == "op" and x[3] == "=" and len(x[5]) == 2:
                l = x[5][0]
            if l is not None and path(l) == what:
                w.add(id(core.strip(l)))
            if x[0] == "call":
                for i, a in enumerate(x[4]):
                    if a and path(a) == what and refarg(db, x, i):
                        w.add(id(core.strip(a)))
        return any(path(x) == what and id(x) not in w and x[0] in ("v", "mem") for x in core.walk_eval(e))

    def writes(e, what):
        for x in core.walk_eval(e):
            if x[0] == "bin" and x[3] == "=" and path(x[4]) == what:
                return True
            if x[0] == "op" and x[3] == "=" and len(x[5]) == 2 and path(x[5][0]) == what:
                return True
            if x[0] == "un" and x[3] == "&" and path(x[4]) == what:
                return True
            if x[0] in ("call", "ctor") and what.startswith("v"):
                for a in x[4]:
                    aa = core.strip(a)
                    if aa and aa[0] == "v" and "v%s" % aa[3] == what and x[0] == "call" and refarg(db, x, x[4].index(a)):
                        return True
        return False

    def test(e):
        """(value of ok on true edge, on false edge) or None"""
        e = core.strip(e)
        neg = False
        while e and e[0] == "un" and e[3] == "!":
            neg, e = not neg, core.strip(e[4])
        if e and e[0] == "bin" and e[3] in ("==", "!=") and any((core.strip(x) or [0])[0] == "bool" for x in e[4:6]):
            b = [core.strip(x) for x in e[4:6]]
            lit = [x for x in b if x[0] == "bool"][0][-1]
            e2 = [x for x in b if x[0] != "bool"]
            if e2 and e2[0][0] == "v":
                if (e[3] == "==") != bool(lit):
                    neg = not neg
                e = e2[0]
        if e and e[0] == "v" and e[3] == var:
            return (False, True) if neg else (True, False)
        return None

    bad = {}

    def step(n, st):
        if st is None:
            if n is node:
                if n.k == "br":
                    # the value is consumed in the condition itself
                    return [("*", "P")]
                if n.k == "ret" and not reads(n.e, v):
                    bad.setdefault("R1", (n, st, "is returned without"))
                return [("*", "P")]
            return [("*", None)]
        if n is node:
            if st == "P":
                bad.setdefault("R1", (n, st, "is overwritten by the next conversion without"))
            return [("*", "P")]
        if n.k == "br":
            t = test(n.e)
            if t:
                if st == "P":
                    return [(True, "T" if t[0] else "F"), (False, "T" if t[1] else "F")]
                want = st == "T"
                return [(True, st)] if t[0] == want else [(False, st)]
        if n.k == "d" and n.x[0] == var:
            if st == "P":
                bad.setdefault("R1", (n, st, "goes out of scope without"))
            return [("*", None)]
        e = n.e
        if e:
            if st == "P" and reads(e, v) and n.k in ("ret", "d", "e", "br"):
                # handed on in an expression: `return ok`, `result = ok && ...`
                if n.k == "ret":
                    return [("*", "X")]
                if n.k == "e" and (core.strip(e)[0] == "cast" or core.strip(e)[0] == "v"):
                    return [("*", st)]        # static_cast<void>(ok)
                for x in core.walk_eval(e):
                    if x[0] == "un" and x[3] == "&" and path(x[4]) == v:
                        bad.setdefault("R1", (n, st, "is overwritten by the next conversion without"))
                        return [("*", "X")]
                return [("*", "X")]
            if target and st == "P" and not persistent and reads(e, target) and n.k != "ret":
                bad.setdefault("R1", (n, st, "is used without"))
            if target and st == "P" and n.k == "ret" and reads(e, target):
                bad.setdefault("R1", (n, st, "is returned without"))
            if target and st == "F" and reads(e, target):
                bad.setdefault("R2", (n, st, ""))
            if st == "F" and target and writes(e, target):
                return [("*", None)]
            if st in ("F", "T") and writes(e, v):
                return [("*", None if not persistent or st == "T" else st)]
        if n.k == "ret":
            if st == "P":
                bad.setdefault("R1", (n, st, "is given up without"))
            elif st == "F" and persistent and n.e and core.strip(n.e)[0] == "bool" and core.strip(n.e)[-1]:
                bad.setdefault("R2", (n, st, ""))
        if n.k == "endfn" and st == "P" and not outer:
            bad.setdefault("R1", (n, st, "is given up without"))
        return [("*", st)]

    pars = {}
    for n, st, par in core.explore(g, None, step):
        for r, b in bad.items():
            if r not in pars and b[0] is n and b[1] == st:
                pars[r] = core.path_lines(g, par, n, st)
    for r, (n, st, how) in bad.items():
        if r == "R1":
            rep.violation("flag %s in %s" % (tf.n, f.q), f.where(c[1]), r,
                          "in %s the result of %s %s a test of its success" % (f.q, tf.n, how), pars.get(r))
        else:
            rep.violation("failed value %s in %s" % (tf.n, f.q), f.where(c[1]), r,
                          "in %s the value of a failed %s takes effect" % (f.q, tf.n), pars.get(r))


def refarg(db, x, i):
    d = db.decls.get(x[3]) if x[3] else None
    pt = d.get("pt") if d else None
    if pt and i < len(pt):
        t = pt[i]
        t = t if isinstance(t, str) else ""
        return t.endswith("&") and not t.startswith("const ")
    return False


def check_converters(db, S, rep, fns, conv):
    for fid, oi in conv.items():
        f = db.fns[fid]
        rep.count("conversion functions")
        okv = f.p[oi][0]
        fam = core.family(db, f)
        vals = set()
        setters = {}        # lambdas that set the flag from their parameter
        for h in fam:
            for e in core.fn_exprs(h):
                if e[0] == "bin" and e[3] == "=":
                    l = core.strip(e[4])
                    if l and l[0] == "un" and l[3] == "*" and core.strip(l[4]) and core.strip(l[4])[0] == "v" and core.strip(l[4])[3] == okv:
                        r = core.strip(e[5])
                        vals.add(bool(r[-1]) if r and r[0] == "bool" else None)
                        if h is not f:
                            setters[h.id] = r
        fwd = [e for e in core.fn_exprs(f) if e[0] in ("call", "op") and any(
            strip(a) and strip(a)[0] == "v" and strip(a)[3] == okv for a in (e[4] if e[0] == "call" else e[5]))
            and any(t in conv for t in S.targets(f, e) or ())]

        def lit(r):
            if not r:
                return "?"
            if r[0] == "bool":
                return "T" if r[-1] else "F"
            if r[0] == "v":
                got = set()
                for h in fam:
                    for st in core.stmts(h.b) if h.b else ():
                        if st[0] == "decl":
                            got |= {lit0(v[3]) for v in st[2] if v[0] == r[3]}
                    for y in core.fn_exprs(h):
                        if y[0] == "bin" and y[3].endswith("=") and y[3] not in ("==", "!=", "<=", ">=") and path(y[4]) == "v%s" % r[3]:
                            got.add(lit0(y[5]))
                if got == {"T"}:
                    return "T"
                if got == {"F"}:
                    return "F"
            return "?"

        def lit0(y):
            y = core.strip(y) if y else None
            return "?" if not y or y[0] != "bool" else "T" if y[-1] else "F"

        for h in fam:
            for t in handlers(h):
                for hd in t[3]:
                    for st in core.stmts(hd[1]):
                        for y in core.stmt_exprs(st):
                            if any(z[0] == "bool" and z[-1] for z in core.walk(y)):
                                rep.violation("converter-handler %s" % f.q, h.where(st[1]), "R4",
                                              "%s reports success after the conversion threw" % f.q)

        def sets(e):
            for x in core.walk_eval(e):
                if x[0] == "bin" and x[3] == "=":
                    l = core.strip(x[4])
                    if l and l[0] == "un" and l[3] == "*" and core.strip(l[4])[0] == "v" and core.strip(l[4])[3] == okv:
                        return lit(core.strip(x[5]))
                if x[0] in ("op", "call") and any(t in setters for t in S.targets(f, x) or ()):
                    a = [core.strip(y) for y in (x[5][1:] if x[0] == "op" else x[4])]
                    return lit(a[0] if a else None)
                if any(x is y for y in fwd):
                    return "?"
                # handed to a helper that stores through the pointer
                if x[0] == "call" and any(strip(a) and strip(a)[0] == "v" and strip(a)[3] == okv for a in x[4]):
                    return "?"
            return None

        g = core.cfg(db, f)
        seen = set()
        bad = {}

        def step(n, st):
            s, t = st
            if n.k == "br":
                e, neg = core.strip(n.e), False
                if e and e[0] == "un" and e[3] == "!":
                    neg, e = True, core.strip(e[4])
                if e and e[0] == "bin" and e[3] in ("==", "!=") and any(strip(x) and strip(x)[0] == "v" and strip(x)[3] == okv for x in e[4:6]):
                    if e[3] == "==":
                        neg = not neg
                    return [(not neg, st), (neg, ("null", t))]
                if e and strip(e) and strip(e)[0] == "v" and strip(e)[3] == okv:
                    return [(not neg, st), (neg, ("null", t))]
            if n.e:
                x = sets(n.e)
                if x and s != "null":
                    s = x
            if n.k in ("ret", "endfn"):
                seen.add(s)
                if s == "unset":
                    bad["unset"] = n
            return [("*", (s, t))]
        for n, st, par in core.explore(g, ("unset", False), step):
            pass
        if "unset" in bad:
            rep.violation("converter-unset %s" % f.q, f.where(bad["unset"].ln), "R4", "%s can return without setting its success flag" % f.q)
        if not ({"F", "?"} & seen):
            rep.violation("converter-always-ok %s" % f.q, f.where(f.l), "R4", "%s never reports a failed conversion" % f.q)
        # primitives inside
        for h in fam:
            for e in core.fn_exprs(h):
                p = prim(db, e)
                if not p:
                    continue
                rep.count("primitive conversions inside converters")
                pos = strip(e[4][1]) if len(e[4]) > 1 else None
                pv = flagvar(e[4][1]) if len(e[4]) > 1 else None
                if pv is None or not position_checked(db, fam, pv):
                    rep.violation("converter-prefix %s" % f.q, h.where(e[1]), "R4",
                                  "%s accepts text of which only a prefix is a literal (end position of %s not examined)" % (f.q, p))
                if p in ("stoul", "stoull", "strtoul", "strtoull") and not sign_checked(db, fam):
                    rep.violation("converter-sign %s" % f.q, h.where(e[1]), "R4",
                                  "%s turns a negative literal into a huge unsigned value (%s accepts a minus sign)" % (f.q, p))
                if narrowed(db, h, f, e):
                    rep.violation("converter-narrow %s" % f.q, h.where(e[1]), "R4",
                                  "%s drops the high bits of a literal that does not fit its result type" % f.q)


def position_checked(db, fam, pv):
    for h in fam:
        for e in core.fn_exprs(h):
            if e[0] == "bin" and e[3] in ("==", "!=", "<", ">", "<=", ">=") or e[0] == "call":
                args = e[4:6] if e[0] == "bin" else e[4]
                if any(strip(x) and strip(x)[0] == "v" and strip(x)[3] == pv for x in args):
                    return True
    return False


def sign_checked(db, fam):
    """somewhere in the function the text is examined for a minus sign"""
    for h in fam:
        for e in core.fn_exprs(h):
            if e[0] == "chr" and e[-1] == 45:
                return True
            if e[0] == "str" and e[2] == "-":
                return True
    return helper_sign(db, fam)


def helper_sign(db, fam):
    for h in fam:
        for e in core.fn_exprs(h):
            if e[0] == "call" and e[3] in db.fns and db.fns[e[3]].f == h.f and db.fns[e[3]].ret == "bool":
                t = db.fns[e[3]]
                for x in core.fn_exprs(t):
                    if x[0] == "chr" and x[-1] == 45 or x[0] == "str" and x[2] == "-":
                        return True
    return False


WIDTH = {"unsigned int": 32, "int": 32, "unsigned long": 64, "long": 64, "unsigned long long": 64, "long long": 64, "double": 64,
         "float": 32, "unsigned char": 8, "signed char": 8, "char": 8, "unsigned short": 16, "short": 16, "long double": 80}


def narrowed(db, h, f, c):
    """the result of the primitive goes into a narrower integer and is never compared"""
    w = WIDTH.get(h.types[c[2]])
    fam = core.family(db, core.root_fn(db, h))
    for e in core.fn_exprs(h):
        if e[0] in ("cast", "icast") and contains(e, c) and strip(e) is c:
            t = WIDTH.get(h.types[e[2]])
            if t and w and t < w:
                return True
    # kept in a wide variable that is narrowed later: needs a comparison
    for s in core.stmts(h.b):
        if s[0] == "decl":
            for v in s[2]:
                if v[3] and contains(v[3], c):
                    vid = v[0]
                    cmp_ = nar = False
                    for e in core.fn_exprs(h):
                        if e[0] == "bin" and e[3] in ("<", ">", "<=", ">=", "==", "!="):
                            cmp_ = cmp_ or any(x[0] == "v" and x[3] == vid for y in e[4:6] for x in core.walk(y))
                        if e[0] in ("cast", "icast"):
                            x = strip(e)
                            t = WIDTH.get(h.types[e[2]])
                            nar = nar or bool(x and x[0] == "v" and x[3] == vid and t and w and t < w)
                    return nar and not cmp_
    return False


def handlers(f):
    """(try statement) list"""
    return [s for s in core.stmts(f.b) if s[0] == "try"]


def in_try(f, c):
    for s in handlers(f):
        for x in core.stmts(s[2]):
            for e in core.stmt_exprs(x):
                if contains(e, c):
                    return s
    return None


def primitives(db, rep, fns, conv):
    for f in fns:
        r = core.root_fn(db, f)
        if r.id in conv:
            continue
        for e in core.fn_exprs(f):
            p = prim(db, e)
            if not p:
                continue
            rep.count("primitive conversions elsewhere")
            rep.sample("primitive conversions elsewhere", "%s in %s" % (p, f.q))
            t = in_try(f, e)
            if t is None and p.startswith("sto"):
                rep.violation("primitive %s in %s" % (p, f.q), f.where(e[1]), "R5",
                              "%s converts with std::%s outside a handler: malformed text ends the program" % (f.q, p))
                continue
            if not p.startswith("sto"):
                rep.violation("primitive %s in %s" % (p, f.q), f.where(e[1]), "R5",
                              "%s converts with %s, which reads malformed text as 0" % (f.q, p))
                continue
            if f.f.startswith("lib/src/parse"):
                pv = flagvar(e[4][1]) if len(e[4]) > 1 else None
                chars = any(dn(db, x) in ("all_of", "any_of", "none_of", "find_if", "find_if_not", "isxdigit", "isdigit", "find_first_not_of")
                            for x in core.fn_exprs(r))
                if not chars and (pv is None or not position_checked(db, core.family(db, r), pv)):
                    rep.violation("prefix %s in %s" % (p, f.q), f.where(e[1]), "R5",
                                  "%s accepts text of which only a prefix is a number (%s)" % (f.q, p))
            # handler may not substitute a number
            for h in t[3]:
                for s in core.stmts(h[1]):
                    if s[0] == "ret" and s[2]:
                        x = strip(s[2])
                        if x and x[0] in ("int", "float", "bool") and f.ret != "bool" or x and x[0] == "un":
                            rep.violation("default %s in %s" % (p, f.q), f.where(s[1]), "R5",
                                          "%s reads malformed text as a fixed number" % f.q)


def run(db, rep, thorough):
    S = status.get(db)
    fns = [f for f in db.fns.values() if f.b and (f.f.startswith("lib/src") or f.f.startswith("app/"))]
    conv = converters(db, S, fns)
    check_sites(db, S, rep, fns, conv)
    check_converters(db, S, rep, fns, conv)
    primitives(db, rep, fns, conv)
    rep.floor("conversion call sites", 35)
    rep.floor("conversion functions", 6)
    rep.floor("primitive conversions inside converters", 3)
