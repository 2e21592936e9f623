"""C18: XML library memory is owned and released exactly once."""
import re
from sa import core, status
from sa.facts import AnalysisBroken
from sa.rules.c15 import ty, bare, args

RULE = ("every result of an allocating libxml2 function goes at once into a smart pointer with the matching deallocator (or is released exactly once on every path); "
        "nothing else is released; no borrowed pointer outlives its owner; documents are kept for the life of the parser")
EXPLAIN = ("Every call of a libxml2 function whose result the caller must free (by result type: text, buffers, documents, contexts, new nodes): its result must initialise or reset a std::unique_ptr whose deleter "
           "calls exactly the matching deallocator with its argument, or be returned as such, or be held in a local that typestate analysis over the control-flow graph shows to be released "
           "exactly once on every path (null branches excepted) and not used afterwards. Every call of a deallocator is accounted for: inside a deleter, or on such a local. Owning pointers are never made from "
           "borrowed pointers (get(), members, parameters), release() results are treated as newly allocated, pointers obtained from an owner (get(), buffer contents, document nodes) do not leave the "
           "scope of the owner by return, by assignment to a member or to a longer-lived local, and are not used after the owner was reset or moved from. The list of documents the elements' node pointers refer into only grows.")
ASSUME = ["libxml2's ownership conventions as documented (results of type xmlChar* are the caller's, const xmlChar* are not)",
          "elements keep node pointers only into documents held by the protocol object"]

FREE = {"unsigned char *": {"xmlFree"}, "_xmlBuffer *": {"xmlBufferFree"}, "_xmlDoc *": {"xmlFreeDoc"}, "_xmlParserCtxt *": {"xmlFreeParserCtxt"},
        "_xmlXPathContext *": {"xmlXPathFreeContext"}, "_xmlXPathObject *": {"xmlXPathFreeObject"}, "_xmlNode *": {"xmlFreeNode", "xmlFreeNodeList"},
        "_xmlTextReader *": {"xmlFreeTextReader"}, "_xmlSchema *": {"xmlSchemaFree"}, "_xmlNs *": {"xmlFreeNs"}, "_xmlAttr *": {"xmlFreeProp"}}
NEWLY = re.compile(r"New|Copy|Create|Parse|Read|Eval|Clone|Dup|Detach|Load")
DEALLOC = {n for s in FREE.values() for n in s} | {"free", "xmlFreeFunc", "xmlCleanupParser", "xmlUnlinkNode", "xmlFreePropList", "xmlFreeDtd"}
SHRINK = {"clear", "erase", "pop_back", "pop_front", "resize", "assign", "swap", "shrink"}


def cname(db, e):
    """name of the C function called, also through libxml2's function variables"""
    if e[0] != "call":
        return None
    if e[3]:
        d = db.decls.get(e[3])
        return d["n"] if d and d["q"] == d["n"] else None
    o = core.strip(e[5]) if len(e) > 5 and e[5] else None
    while o and o[0] == "un":
        o = core.strip(o[4])
    if o and o[0] in ("gv", "v", "fref"):
        return o[4] if len(o) > 4 and isinstance(o[4], str) else None
    return None


def resource(db, e):
    """resource type when the expression is a call of an allocating function"""
    n = cname(db, e)
    if not n or not n.startswith("xml") or not e[3]:
        return None
    r = bare(db.decls[e[3]]["ret"])
    if db.decls[e[3]]["ret"].startswith("const "):
        return None
    if r not in FREE:
        return None
    if r in ("_xmlNode *", "_xmlDoc *", "_xmlNs *", "_xmlAttr *") and not NEWLY.search(n):
        return None
    return r


def owner_type(t):
    """(pointee, deleter) of a unique_ptr type"""
    t = bare(t)
    if not t.startswith(("std::unique_ptr<", "std::shared_ptr<")):
        return None
    a = args(t)
    return bare(a[0]) + " *", (bare(a[1]) if len(a) > 1 else "")


def run(db, rep, thorough):
    S = status.get(db)
    fns = [f for f in db.fns.values() if f.b and f.f.startswith(("lib/", "app/"))]
    nalloc = nfree = nown = nborrow = ndoc = 0

    def bad(key, f, ln, rule, text, path=None):
        rep.violation(key, "%s:%d" % (f.f, ln), rule, text, path or [])

    def name(f):
        return core.root_fn(db, f).q

    # deleters
    deleters, delset = {}, set()
    for f in fns:
        if f.n == "operator()" and f.cls and len(f.p) == 1:
            cs = [cname(db, e) for e in core.fn_exprs(f) if cname(db, e) in DEALLOC]
            if cs:
                deleters.setdefault(f.cls, []).append((f, cs))
    for c, l in deleters.items():
        for f, cs in l:
            want = FREE.get(bare(f.p[0][2]))
            delset.add(f.id)
            ok = len(cs) == 1 and want and cs[0] in want
            for e in core.fn_exprs(f):
                if cname(db, e) in DEALLOC:
                    a = core.strip(e[4][0]) if e[4] else None
                    if not a or a[0] != "v" or a[3] != f.p[0][0]:
                        ok = False
            if not ok:
                bad("%s.deleter" % c, f, f.l, "deleter", "the deleter %s releases a %s with %s" % (c, bare(f.p[0][2]), ", ".join(cs)))
    rep.set("deleters", len(deleters), 0)

    def good_owner(t, res):
        o = owner_type(t)
        if not o:
            return None
        return o[0] == res and any(bare(f.p[0][2]) == res for f, cs in deleters.get(o[1], ()))

    for f in fns:
        es = list(core.fn_exprs(f))
        allocs = [(e, resource(db, e)) for e in es if e[0] == "call" and resource(db, e)]
        rel = [e for e in es if e[0] == "call" and e[3] and db.decls[e[3]]["n"] == "release" and owner_type(ty(f, core.strip(e[5])) if e[5] else "")
               and owner_type(ty(f, core.strip(e[5])))[0] in FREE]
        allocs += [(e, owner_type(ty(f, core.strip(e[5])))[0]) for e in rel]
        held = {}       # local id -> resource
        for e, res in allocs:
            nalloc += 1
            how = sink(db, f, e)
            rep.sample("allocations", "%s in %s (%s:%d) -> %s" % (cname(db, e) or "release()", name(f), f.f, e[1], how[0]), 20)
            if how[0] == "owner":
                if not good_owner(how[1], res) and not (len(how) > 2 and fn_deleter(db, f, how[1], how[2], res)):
                    bad("%s.owner" % name(f), f, e[1], "deleter", "%s puts a %s under %s, which does not release it with %s" % (name(f), res, how[1], "/".join(sorted(FREE.get(res, ())))))
            elif how[0] == "ret":
                if good_owner(f.ret, res) is None:
                    bad("%s.ret" % name(f), f, e[1], "owned", "%s returns an allocated %s without ownership" % (name(f), res))
            elif how[0] == "local":
                held[how[1]] = res
            else:
                bad("%s.%s" % (name(f), cname(db, e) or "release"), f, e[1], "owned", "the result of %s in %s is not put under ownership" % (cname(db, e) or "release()", name(f)))
        for v, res in held.items():
            g = core.cfg(db, f)
            for kind, ln, path in typestate(db, f, g, v, res, good_owner):
                bad("%s.%s" % (name(f), kind), f, ln, "typestate", "%s: %s held in a local is %s" % (name(f), res, kind), path)
        # releases
        for e in es:
            n = cname(db, e)
            if n in DEALLOC:
                nfree += 1
                if f.id in delset or f.n == "<lambda>" and len(f.p) == 1 and frees_param(db, f, bare(f.p[0][2])) and as_deleter(db, f):
                    continue
                a = core.strip(e[4][0]) if e[4] else None
                if a and a[0] == "v" and a[3] in held:
                    continue
                if n == "free" and not any("xml" in ty(f, x) for x in core.walk(e)):
                    continue
                bad("%s.%s" % (name(f), n), f, e[1], "foreign", "%s calls %s() on something it does not own" % (name(f), n))
        # owners made from borrowed pointers
        for e in es:
            src = None
            if e[0] == "ctor" and owner_type(ty(f, e)) and owner_type(ty(f, e))[0] in FREE:
                nown += 1
                a = [x for x in e[4] if x and x[0] != "dflt"]
                if a and e[5] not in ("copy", "move"):
                    src = a[0]
            elif e[0] == "call" and e[3] and db.decls[e[3]]["n"] == "reset" and e[5] and owner_type(ty(f, core.strip(e[5]))) and \
                    owner_type(ty(f, core.strip(e[5])))[0] in FREE:
                nown += 1
                a = [x for x in e[4] if x and x[0] != "dflt"]
                src = a[0] if a else None
            if src is None:
                continue
            x = core.strip(src)
            if x[0] in ("null",) or resource(db, x) or any(x is r for r in rel) or owner_type(ty(f, x)):
                continue
            if x[0] == "v" and x[3] in held:
                continue
            if x[0] == "call" and x[3] and x[3] in db.fns and db.fns[x[3]].f.startswith(("lib/", "app/")):
                continue
            if x[0] == "cond" and all(core.strip(y)[0] == "null" or resource(db, core.strip(y)) for y in x[4:6]):
                continue
            if ty(f, x) == "nullptr_t" or x[0] == "int":
                continue
            bad("%s.borrowed" % name(f), f, e[1], "foreign", "%s takes ownership of a pointer it does not own" % name(f))
        # borrowed pointers leaving the owner
        own = {}
        scopes = {}
        depth(f.b, [], scopes)
        for s in core.stmts(f.b):
            if s[0] == "decl":
                for v in s[2]:
                    t = f.types[v[2]] if isinstance(v[2], int) else v[2]
                    if not t.endswith("&") and (owner_type(t) and owner_type(t)[0] in FREE or v[0] in held):
                        own[v[0]] = v
        if own:
            tainted = {}
            for _ in range(3):
                for s in core.stmts(f.b):
                    if s[0] == "decl":
                        for v in s[2]:
                            t = f.types[v[2]] if isinstance(v[2], int) else v[2]
                            o = borrow(db, f, v[3], own, tainted) if v[3] else None
                            if o is not None and pointer_like(t) and v[0] not in own:
                                tainted[v[0]] = o
                for e in es:
                    if e[0] == "bin" and e[3] == "=":
                        o = borrow(db, f, e[5], own, tainted)
                        t = core.strip(e[4])
                        if o is not None and t and pointer_like(ty(f, t)):
                            nborrow += 1
                            if t[0] == "v":
                                tainted.setdefault(t[3], o)
                                if t[3] not in own and not inside(scopes.get(t[3]), scopes.get(o)):
                                    bad("%s.escape" % name(f), f, e[1], "borrow", "%s keeps a pointer into %s beyond its owner" % (name(f), own[o][1]))
                            elif t[0] == "mem" and not (core.strip(t[4]) or [""])[0] == "v":
                                bad("%s.escape" % name(f), f, e[1], "borrow", "%s stores a pointer into the local owner %s in a member" % (name(f), own[o][1]))
            for s in core.stmts(f.b):
                if s[0] == "ret" and s[2] and pointer_like(f.ret):
                    o = borrow(db, f, s[2], own, tainted)
                    if o is not None and not (owner_type(f.ret)):
                        bad("%s.escape" % name(f), f, s[1], "borrow", "%s returns a pointer into the local owner %s" % (name(f), own[o][1]))
            nborrow += len(tainted)
            kill = after_kill(db, f, own, tainted)
            for ln, v, path in kill:
                bad("%s.dead" % name(f), f, ln, "borrow", "%s uses a pointer into %s after it was reset or moved away" % (name(f), v), path)
        # lists of documents only grow
        for e in es:
            if e[0] == "call" and e[3] and e[5] and isinstance(e[5], list):
                o = core.strip(e[5])
                if o and o[0] == "mem" and doclist(ty(f, o)):
                    ndoc += 1
                    if db.decls[e[3]]["n"] in SHRINK:
                        bad("%s.docs" % name(f), f, e[1], "documents", "%s drops documents elements may still point into (%s)" % (name(f), db.decls[e[3]]["n"]))
            elif e[0] == "op" and e[3] == "=" and e[5]:
                o = core.strip(e[5][0])
                if o and o[0] == "mem" and doclist(ty(f, o)):
                    bad("%s.docs" % name(f), f, e[1], "documents", "%s replaces the documents elements may still point into" % name(f))
        # a document that was parsed and accepted must be kept
        for v, d in own.items():
            t = f.types[d[2]] if isinstance(d[2], int) else d[2]
            if owner_type(t) and owner_type(t)[0] == "_xmlDoc *":
                ndoc += 1
                p = not_kept(db, f, v)
                if p:
                    bad("%s.kept" % name(f), f, f.l, "documents", "%s succeeds without keeping the document it parsed" % name(f), p)
    rep.set("allocating calls", nalloc, 3)
    rep.set("deallocator calls", nfree, 1)
    rep.set("owning pointers made", nown, 0)
    rep.count("borrowed pointers", nborrow)
    rep.set("uses of document owners", ndoc, 1)


def doclist(t):
    t = bare(t)
    return "_xmlDoc" in t and t.startswith(("std::vector<", "std::list<", "std::deque<", "std::map<"))


def pointer_like(t):
    t = bare(t)
    return t.endswith("*") or t.startswith("std::basic_string_view")


def fn_deleter(db, f, t, ctor, res):
    """an owner whose deleter is a function pointer or lambda given where it is made"""
    o = owner_type(t)
    if not o or o[0] != res:
        return False
    for a in ctor[4][1:]:
        for x in core.walk(a):
            if x[0] == "fref" and (db.decls.get(x[3]) or {}).get("n") in FREE.get(res, ()):
                return True
            if x[0] in ("v", "gv") and isinstance(x[4], str) and x[4] in FREE.get(res, ()):
                return True
        l = core.lambda_of(db, f, a)
        if l is None:
            l = next((core.lambda_of(db, f, x) for x in core.walk(a) if core.lambda_of(db, f, x)), None)
        if l and l in db.fns and frees_param(db, db.fns[l], res):
            return True
    m = re.search(r"lambda", o[1])
    if m:
        for g in core.family(db, core.root_fn(db, f)):
            if g.n == "<lambda>" and frees_param(db, g, res):
                return True
    return False


def as_deleter(db, g):
    """is the lambda only given to owning pointers?"""
    root = core.root_fn(db, g)
    for f in core.family(db, root):
        for e in core.fn_exprs(f):
            if e[0] == "op" and e[3] == "()" and e[5] and core.lambda_of(db, f, e[5][0]) == g.id:
                return False
    return True


def frees_param(db, g, res):
    cs = [e for e in core.fn_exprs(g) if cname(db, e) in DEALLOC]
    return len(cs) == 1 and cname(db, cs[0]) in FREE.get(res, ()) and len(g.p) == 1 and bool(cs[0][4]) and \
        (core.strip(cs[0][4][0]) or [""])[0] == "v" and core.strip(cs[0][4][0])[3] == g.p[0][0]


def sink(db, f, call):
    """where the result of an allocating call goes"""
    for s in core.stmts(f.b):
        if s[0] == "decl":
            for v in s[2]:
                if v[3] is not None and core.strip(v[3]) is call:
                    return ("local", v[0])
                x = core.strip(v[3]) if v[3] else None
                if x and x[0] == "cond" and any(core.strip(y) is call for y in x[4:6]):
                    return ("local", v[0])
        elif s[0] == "ret" and s[2] is not None and core.strip(s[2]) is call:
            return ("ret",)
    for e in core.fn_exprs(f):
        if e[0] == "ctor" and owner_type(ty(f, e)) and any(core.strip(a) is call or (core.strip(a) or [""])[0] == "cond" and
                                                              any(core.strip(y) is call for y in core.strip(a)[4:6]) for a in e[4] if a):
            return ("owner", ty(f, e), e)
        if e[0] == "call" and e[3] and db.decls[e[3]]["n"] == "reset" and e[5] and owner_type(ty(f, core.strip(e[5]))) and any(core.strip(a) is call for a in e[4]):
            return ("owner", ty(f, core.strip(e[5])))
        if e[0] in ("call", "op") and core.callee(e):
            d = db.decls.get(core.callee(e)) or {}
            if d.get("n") in ("emplace_back", "push_back", "emplace") and e[0] == "call" and e[5]:
                el = args(bare(ty(f, core.strip(e[5]))))
                if el and owner_type(el[0]) and any(core.strip(a) is call for a in e[4]):
                    return ("owner", el[0])
        if e[0] == "bin" and e[3] == "=" and core.strip(e[5]) is call:
            t = core.strip(e[4])
            if t and t[0] == "v":
                return ("local", t[3])
        if e[0] == "init" and any(core.strip(a) is call for a in e[3] if a) and owner_type(ty(f, e)):
            return ("owner", ty(f, e))
    return ("lost",)


def typestate(db, f, g, v, res, good_owner):
    out = []

    def step(n, st):
        if n.e is None:
            return [("*", st)]
        s = st
        if n.k == "d" and n.x and n.x[0] == v:
            x = core.strip(n.e)
            return [("*", "owned" if x and x[0] != "null" else "none")]
        if n.k == "br":
            x = core.strip(n.e)
            t = f_test(x, v)
            if t is not None and st == "owned":
                return [(t, "owned"), (not t, "none")]
        for e in core.walk_eval(n.e):
            c = cname(db, e)
            if c in FREE.get(res, ()) and e[4] and (core.strip(e[4][0]) or [""])[0] == "v" and core.strip(e[4][0])[3] == v:
                s = "double" if s == "freed" else "freed"
            elif e[0] == "bin" and e[3] == "=" and (core.strip(e[4]) or [""])[0] == "v" and core.strip(e[4])[3] == v:
                r = core.strip(e[5])
                s = "lost" if s == "owned" and not (r and r[0] == "v" and r[3] == v) else ("none" if r and r[0] == "null" else "owned")
            elif e[0] == "ctor" and good_owner(ty(f, e), res) and any((core.strip(a) or [""])[0] == "v" and core.strip(a)[3] == v for a in e[4] if a):
                s = "moved"
            elif e[0] == "call" and e[3] and db.decls[e[3]]["n"] == "reset" and e[5] and good_owner(ty(f, core.strip(e[5])), res) and \
                    any((core.strip(a) or [""])[0] == "v" and core.strip(a)[3] == v for a in e[4] if a):
                s = "moved"
        return [("*", s)]
    seen = set()
    for n, st, par in core.explore(g, "none", step):
        if n.k == "ret" and st == "owned" and n.e is not None and (core.strip(n.e) or [""])[0] == "v" and core.strip(n.e)[3] == v:
            out.append(("returned without ownership", n.ln, None)) if "r" not in seen else None
            seen.add("r")
        kind = None
        if n.k == "exit" and st == "owned":
            kind = "not released on a path"
        elif st in ("double", "lost"):
            kind = {"double": "released twice", "lost": "overwritten without being released"}[st]
        elif st == "freed" and n.e is not None:
            for e in core.walk_eval(n.e):
                if e[0] == "v" and e[3] == v and not (n.k == "d" and n.x and n.x[0] == v):
                    par_free = any(cname(db, x) in FREE.get(res, ()) for x in core.walk_eval(n.e))
                    asg = any(x[0] == "bin" and x[3] == "=" and (core.strip(x[4]) or [""])[0] == "v" and core.strip(x[4])[3] == v for x in core.walk_eval(n.e))
                    if not par_free and not asg:
                        kind = "used after release"
        if kind and kind not in seen:
            seen.add(kind)
            out.append((kind, n.ln or f.l, ["%s:%s" % (f.f, l) for l in core.path_lines(g, par, n, st)]))
    return out


def f_test(x, v):
    """branch truth value meaning 'not null'"""
    if not x:
        return None
    if x[0] == "v" and x[3] == v:
        return True
    if x[0] == "un" and x[3] == "!" and (core.strip(x[4]) or [""])[0] == "v" and core.strip(x[4])[3] == v:
        return False
    if x[0] == "bin" and x[3] in ("==", "!="):
        a, b = core.strip(x[4]), core.strip(x[5])
        for p, q in ((a, b), (b, a)):
            if p and q and p[0] == "v" and p[3] == v and q[0] in ("null", "int"):
                return x[3] == "!="
    return None


def depth(s, chain, out):
    """scope chain of every declared local"""
    if not s:
        return
    k = s[0]
    if k == "{}":
        c = chain + [id(s)]
        for x in s[2]:
            depth(x, c, out)
    elif k == "decl":
        for v in s[2]:
            out[v[0]] = tuple(chain)
    else:
        c = chain + [id(s)] if k in ("if", "for", "rfor", "while", "do", "switch", "try") else chain
        for x in s:
            if isinstance(x, list) and x and isinstance(x[0], str) and x[0] in ("{}", "decl", "if", "for", "rfor", "while", "do", "switch", "case", "default", "try", "expr", "ret"):
                depth(x, c, out)


def inside(a, b):
    """is scope a (of the pointer) not longer-lived than scope b (of the owner)?"""
    if a is None or b is None:
        return True
    return a[:len(b)] == b


def borrow(db, f, e, own, tainted):
    """owner whose memory a pointer expression points into"""
    x = core.strip(e)
    while x and x[0] == "cast":
        x = core.strip(x[5])
    if not x:
        return None
    if x[0] == "v":
        return tainted.get(x[3]) if x[3] not in own else (x[3] if not owner_type(ty(f, x)) else None)
    if x[0] == "call" and x[3]:
        d = db.decls[x[3]]
        if d["n"] == "get" and x[5] and (core.strip(x[5]) or [""])[0] == "v" and core.strip(x[5])[3] in own:
            return core.strip(x[5])[3]
        if d["q"] == d["n"] and d["n"].startswith("xml") and bare(d["ret"]).endswith("*") and not resource(db, x):
            for a in x[4]:
                o = borrow(db, f, a, own, tainted)
                if o is not None:
                    return o
    if x[0] == "op" and x[3] in ("->", "*") and x[5]:
        y = core.strip(x[5][0])
        if y and y[0] == "v" and y[3] in own:
            return y[3]
    if x[0] == "mem" and x[4]:
        return borrow(db, f, x[4], own, tainted)
    if x[0] == "cond":
        return borrow(db, f, x[4], own, tainted) or borrow(db, f, x[5], own, tainted)
    return None


def after_kill(db, f, own, tainted):
    out = []
    if not tainted and not own:
        return out
    g = core.cfg(db, f)

    def step(n, st):
        if n.e is None:
            return [("*", st)]
        s = set(st)
        if n.k == "d" and n.x:
            s.discard(n.x[0])
        for e in core.walk_eval(n.e):
            if e[0] == "call" and e[3]:
                d = db.decls[e[3]]
                if d["n"] in ("reset", "release") and e[5] and (core.strip(e[5]) or [""])[0] == "v" and core.strip(e[5])[3] in own:
                    s.add(core.strip(e[5])[3])
                    if not [a for a in e[4] if a and a[0] not in ("dflt", "null")]:
                        s.add(("moved", core.strip(e[5])[3]))
                    else:
                        s.discard(("moved", core.strip(e[5])[3]))
                elif d["q"] == "std::move" and e[4] and (core.strip(e[4][0]) or [""])[0] == "v" and core.strip(e[4][0])[3] in own:
                    # the memory lives on in its new owner; only the old pointer is empty
                    s.add(("moved", core.strip(e[4][0])[3]))
            elif e[0] == "bin" and e[3] == "=" and (core.strip(e[4]) or [""])[0] == "v":
                s.discard(core.strip(e[4])[3])
        return [("*", frozenset(s))]
    done = set()
    for n, st, par in core.explore(g, frozenset(), step):
        if n.e is None or not st:
            continue
        for e in core.walk_eval(n.e):
            if e[0] == "v" and e[3] in tainted and tainted[e[3]] in st and ("t", e[3]) not in done:
                done.add(("t", e[3]))
                out.append((n.ln, own[tainted[e[3]]][1], ["%s:%s" % (f.f, l) for l in core.path_lines(g, par, n, st)]))
            if e[0] == "call" and e[3] and db.decls[e[3]]["n"] == "get" and e[5] and (core.strip(e[5]) or [""])[0] == "v":
                o = core.strip(e[5])[3]
                if ("moved", o) in st and ("g", o) not in done:
                    done.add(("g", o))
                    out.append((n.ln, own[o][1], ["%s:%s" % (f.f, l) for l in core.path_lines(g, par, n, st)]))
    return out


def not_kept(db, f, v):
    """Path that returns true although the document was not moved into a longer-lived owner."""
    if f.ret != "bool":
        return None
    g = core.cfg(db, f)

    def step(n, st):
        if n.e is None:
            return [("*", st)]
        if n.k == "d" and n.x and n.x[0] == v:
            return [("*", "local")]
        if st == "local":
            for e in core.walk_eval(n.e):
                if e[0] == "call" and e[3] and db.decls[e[3]]["q"] == "std::move" and e[4] and (core.strip(e[4][0]) or [""])[0] == "v" and core.strip(e[4][0])[3] == v:
                    return [("*", "kept")]
                if e[0] == "call" and e[3] and db.decls[e[3]]["n"] in ("release", "swap"):
                    return [("*", "kept")]
        return [("*", st)]
    for n, st, par in core.explore(g, "none", step):
        if st == "local" and n.k == "ret" and n.e is not None:
            x = core.strip(n.e)
            if x and x[0] == "bool" and not x[2]:
                continue
            return ["%s:%s" % (f.f, l) for l in core.path_lines(g, par, n, st)]
    return None
