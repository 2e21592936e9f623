"""C16: no decision is taken on an uninitialised value."""
import re
from sa import core, status
from sa.facts import AnalysisBroken
from sa.rules.c15 import ty, bare

RULE = ("every scalar member has an in-class initialiser or is initialised by every constructor before it is read; every scalar local is assigned on every path before "
        "it is read; nothing refers to a dead object")
EXPLAIN = ("For every class and struct of the library and the generators: each scalar member (number, flag, enumeration, pointer) without an initialiser at its declaration must be "
           "set by every constructor (initialiser list, delegation, or assignment on every path through the body before it is read); members of classes without constructors must have "
           "an initialiser at the declaration unless every object is value- or aggregate-initialised where it is made. Initialisers must not read members declared later. Every scalar local declared without a value must be assigned "
           "on every path of the control-flow graph before it is read. new-expressions must not leave scalars unset. In addition the compiler's own flow analyses "
           "(uninitialised and sometimes-uninitialised variables, references to locals and temporaries, missing return value) must report nothing.")
ASSUME = ["a variable passed by non-const reference or by address is taken to be set by the callee",
          "containers of the standard library value-initialise their elements"]

SCALAR = ("arith", "enum", "ptr")


def is_scalar_type(t, enums):
    t = bare(t)
    if t.endswith("*"):
        return True
    if t in enums:
        return True
    return bool(re.match(r"(unsigned |signed )?(bool|char|short|int|long|long long|float|double|long double|unsigned|char\d+_t|wchar_t)( int| long| char| short)?( int)?$", t))


def uses(db, e, pred, ref=False):
    """(node, line, 'r' or 'w') for every mention: read as a value, or set / handed out by reference."""
    if not e:
        return
    x = core.strip_implicit(e)
    if not x:
        return
    if pred(x):
        yield x, x[1], "w" if ref else "r"
        return
    k = x[0]
    if k == "bin" and x[3] == "=":
        yield from uses(db, x[4], pred, True)
        yield from uses(db, x[5], pred)
    elif k == "un" and x[3] == "&":
        yield from uses(db, x[4], pred, True)
    elif k in ("call", "op", "ctor"):
        d = db.decls.get(core.callee(x)) or {}
        args = list(x[5] if k == "op" else x[4])
        pt = d.get("pt") or []
        off = len(args) - len(pt) if k == "op" else 0
        if k == "call" and len(x) > 5 and isinstance(x[5], list):
            yield from uses(db, x[5], pred, False)
        for i, a in enumerate(args):
            if not a:
                continue
            t = pt[i - off] if 0 <= i - off < len(pt) else ""
            yield from uses(db, a, pred, t.endswith("&") and not t.startswith("const ") and not t.endswith("&&"))
    elif k == "lam":
        for c in x[3]:
            y = c[3] or (["v", x[1], 0, c[0], c[1]] if c[0] else None)
            if y:
                yield from uses(db, y, pred, bool(c[2]))
    elif k in ("cast",):
        yield from uses(db, x[5], pred, ref)
    elif k == "cond":
        yield from uses(db, x[3], pred)
        yield from uses(db, x[4], pred, ref)
        yield from uses(db, x[5], pred, ref)
    else:
        for c in core.kids(x):
            yield from uses(db, c, pred)


def rvalue_reads(db, e, pred, ref=False):
    return ((n, ln) for n, ln, k in uses(db, e, pred, ref) if k == "r")


def writes(db, e, pred, ref=False):
    return (n for n, ln, k in uses(db, e, pred, ref) if k == "w")


def isref(f, n):
    """declaration of a non-const reference (the variable it is bound to may be set through it)"""
    if n.k != "d" or not n.x:
        return False
    t = f.types[n.x[2]] if isinstance(n.x[2], int) and n.x[2] < len(f.types) else str(n.x[2])
    return t.endswith("&")


def decl_uninit(f):
    for s in core.stmts(f.b):
        if s[0] == "decl":
            for v in s[2]:
                if not v[3]:
                    yield v, s[1]


def run(db, rep, thorough):
    S = status.get(db)
    enums = set(db.enums)
    recs = {q: r for q, r in db.records.items() if r["f"].startswith(("lib/", "app/"))}
    fns = [f for f in db.fns.values() if f.b and f.f.startswith(("lib/", "app/"))]
    ctors = {}
    for f in db.fns.values():
        if f.cls in recs and f.inits is not None and f.n == f.cls.rsplit("::", 1)[-1]:
            ctors.setdefault(f.cls, []).append(f)
    nm = nc = nl = nnew = nord = 0

    def bad(key, file, ln, rule, text, path=None):
        rep.violation(key, "%s:%d" % (file, ln), rule, text, path or [])

    made = None
    for q, r in sorted(recs.items()):
        order = {x["name"]: i for i, x in enumerate(r["fields"])}
        sc = [x for x in r["fields"] if x["cat"] in SCALAR or (x["cat"] == "array" and is_scalar_type(x["ty"].split("[")[0], enums))]
        nm += len(sc)
        todo = [x for x in sc if not x["init"] and not x.get("static")]
        own = [c for c in ctors.get(q, ()) if not copyctor(q, c)]
        for x in todo:
            m = q + "::" + x["name"]
            if not own:
                if made is None:
                    made = creations(db, fns)
                for f, ln, how in made.get(q, ()):
                    if how[0] == "default":
                        w = member_unset(db, f, how[1], m)
                        if w:
                            bad("%s::%s" % (q, x["name"]), r["f"], x["line"], "member",
                                "%s has no initialiser and %s makes and uses a %s without setting it" % (m, f.q, q.rsplit("::", 1)[-1]), w)
                if made.get("*" + q) or used_as_base(db, q):
                    bad("%s::%s" % (q, x["name"]), r["f"], x["line"], "member",
                        "%s has no initialiser and objects of %s are default-initialised (member, base or container element)" % (m, q))
                continue
            for c in own:
                nc += 1
                if any(i[0] == m for i in c.inits) or any(str(i[0]) == q or str(i[0]).endswith("::" + q.rsplit("::", 1)[-1]) and i[0] == "delegate" for i in c.inits):
                    continue
                if any(i[0] in ("this", "delegating") for i in c.inits):
                    continue
                p = unset(db, c, lambda t, m=m: t[0] == "mem" and t[3] == m, "end")
                if p:
                    bad("%s::%s" % (q, x["name"]), c.f, c.l, "member", "%s leaves %s unset on a path" % (c.q, m), p)
        # reads of members initialised later
        for c in ctors.get(q, ()):
            ini = {}
            for i in c.inits:
                if isinstance(i[0], str) and i[0].startswith(q + "::") and i[0].rsplit("::", 1)[-1] in order:
                    ini[i[0].rsplit("::", 1)[-1]] = i[2]
            for x in r["fields"]:
                if x["init"] and x["name"] not in ini:
                    ini[x["name"]] = x["init"]
            for n, e in ini.items():
                if not e:
                    continue
                nord += 1
                for y, ln in rvalue_reads(db, e, lambda t: t[0] == "mem" and core.strip(t[4] or ["this"])[0] == "this" and t[3].startswith(q + "::")):
                    o = y[3].rsplit("::", 1)[-1]
                    if o in order and order[o] >= order[n]:
                        bad("%s::%s.order" % (q, n), c.f, c.l, "order", "%s is initialised from %s, which is initialised later" % (q + "::" + n, o))
    for f in fns:
        g = None
        for v, ln in decl_uninit(f):
            t = f.types[v[2]] if isinstance(v[2], int) else v[2]
            if not is_scalar_type(t, enums):
                continue
            nl += 1
            p = unset(db, f, lambda y, i=v[0]: y[0] == "v" and y[3] == i, "read", start=v[0])
            if p:
                bad("%s.%s" % (core.root_fn(db, f).q, bare(t)), f.f, ln, "local", "local '%s' of %s may be read before it is assigned" % (v[1], f.q), p)
        for e in core.fn_exprs(f):
            if e[0] == "new":
                nnew += 1
                t = ty(f, e) if not isinstance(e[2], str) else e[2]
                b = bare(f.types[e[2]] if isinstance(e[2], int) and e[2] < len(f.types) else str(e[2]))
                if not e[3] and b.endswith("*") and is_scalar_type(b[:-1].strip(), enums):
                    bad("%s.new" % f.q, f.f, e[1], "new", "%s allocates an unset %s" % (f.q, b[:-1].strip()))
    nd = 0
    for d in db.diags:
        if d["o"] in ("uninitialized", "sometimes-uninitialized", "uninitialized-const-reference", "static-self-init", "return-stack-address", "dangling",
                      "dangling-gsl", "dangling-field", "dangling-initializer-list", "return-type", "return-local-addr", "conditional-uninitialized"):
            nd += 1
            bad("diag.%s.%s" % (d["f"], d["o"]), d["f"], d["l"], "compiler", "%s [%s]" % (d["t"], d["o"]))
    rep.set("scalar members", nm, 300)
    rep.set("constructor obligations", nc, 9)
    rep.set("member initialisers checked for order", nord, 300)
    rep.count("scalar locals without a value", nl)
    rep.set("functions", len(fns), 3000)
    rep.count("new-expressions", nnew)
    rep.set("translation units put through the compiler's flow analyses", len(db.tus), 200)
    for q, r in sorted(recs.items())[::60]:
        rep.sample("classes", "%s: %s" % (q, ", ".join(x["name"] for x in r["fields"] if x["cat"] in SCALAR)[:120]))


def copyctor(q, c):
    return len(c.p) == 1 and bare(c.p[0][2]).rstrip("&").strip() == q


def unset(db, f, pred, want, start=None):
    """Path on which the target is not set at the end of the constructor ('end') or read before it is set ('read')."""
    g = core.cfg(db, f)

    def has(n):
        return any(True for _ in writes(db, n.e, pred, isref(f, n)))

    def is_target(n):
        t = n.x if isinstance(n.x, list) else None
        t = core.strip(t) if t else None
        return bool(t and isinstance(t[0], str) and pred(t))

    def step(n, st):
        if st == "set" or n.e is None:
            if n.k == "d" and n.x and start is not None and isinstance(n.x, (list, tuple)) and n.x[0] == start:
                return [("*", "unset")]
            return [("*", st)]
        if st == "unset" and (has(n) or n.k == "as" and is_target(n)):
            return [("*", "set")]
        return [("*", st)]
    init = "unset" if start is None else "none"
    for n, st, par in core.explore(g, init, step):
        if st != "unset":
            continue
        if n.e is not None:
            # evaluation order inside one expression is not looked at: an expression that also sets the variable is fine
            if not has(n):
                for y, ln in rvalue_reads(db, n.e, pred, isref(f, n)):
                    return ["%s:%s" % (f.f, l) for l in core.path_lines(g, par, n, st)] or ["%s:%d" % (f.f, ln)]
        if want == "end" and n.k == "exit":
            return ["%s:%s" % (f.f, l) for l in core.path_lines(g, par, n, st)] or ["%s:%d" % (f.f, f.l)]
    return None


def creations(db, fns):
    """record -> places where objects without constructor are made: (function, line, default|value)"""
    r = {}
    for f in fns:
        for s in core.stmts(f.b):
            if s[0] == "decl":
                for v in s[2]:
                    t = bare(f.types[v[2]] if isinstance(v[2], int) else v[2])
                    e = core.strip(v[3]) if v[3] else None
                    if e is None or (e[0] == "ctor" and not e[4] and e[5] not in ("value", "list", "zero")):
                        r.setdefault(t, []).append((f, s[1], ("default", v[0])))
                    else:
                        r.setdefault(t, []).append((f, s[1], ("value",)))
    for q, rec in db.records.items():
        for x in rec["fields"]:
            if x["cat"] == "class" and not x["init"]:
                r.setdefault("*" + bare(x["ty"]), []).append((None, x["line"], ("member",)))
    return r


def used_as_base(db, q):
    return any(q in (b if isinstance(b, str) else b[0] for b in r["bases"]) for r in db.records.values())


def member_unset(db, f, vid, m):
    """Path on which the local object is used as a whole, or its member read, before the member was assigned."""
    g = core.cfg(db, f)

    def pred(t):
        return t[0] == "mem" and t[3] == m and (core.strip(t[4]) or ["?"])[0] == "v" and core.strip(t[4])[3] == vid

    def whole(e):
        """the object itself mentioned other than as the base of a member access"""
        if not e:
            return False
        if e[0] == "v" and e[3] == vid:
            return True
        if e[0] == "mem" and (core.strip(e[4]) or ["?"])[0] == "v":
            return False
        if e[0] == "lam":
            return any(c[0] == vid or (c[3] and whole(c[3])) for c in e[3])
        return any(whole(k) for k in core.kids(e))

    def assigned(e):
        x = core.strip(e)
        if x and x[0] == "op" and x[3] == "=" and (core.strip(x[5][0]) or ["?"])[0] == "v" and core.strip(x[5][0])[3] == vid:
            return True
        return any(True for _ in writes(db, e, pred))

    def step(n, st):
        if st == "unset" and n.e is not None and assigned(n.e):
            return [("*", "set")]
        return [("*", st)]
    born = None
    for n, st, par in core.explore(g, "none", lambda n, st: [("*", "unset" if st == "none" and n.k == "d" and n.x and n.x[0] == vid else step(n, st)[0][1])]):
        if st != "unset" or n.e is None or (n.k == "d" and n.x and n.x[0] == vid):
            continue
        if assigned(n.e):
            continue
        if whole(n.e) or any(True for _ in rvalue_reads(db, n.e, pred)):
            return ["%s:%s" % (f.f, l) for l in core.path_lines(g, par, n, st)] or ["%s:%d" % (f.f, f.l)]
    return None
