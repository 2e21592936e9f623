"""C04: failed lookups are never dereferenced."""
import os, re
from .. import core, nullness

EXPLAIN = ("Path-sensitive dataflow over every function of the parser, the generation library and the generators. Lookup results "
           "(find against end of the same container, functions that can return null on some path, parent accessors, strings of the "
           "XML library, first/last element of containers) are followed to every dereference, through locals, members, pass-through "
           "casts, predicates and callees that dereference their parameter; every path reaching a dereference must have passed a test "
           "that excludes the empty outcome. In the parser assertions do not count as tests.")
RULE = ("every path from a lookup that can come back empty to a dereference of its result passes a test excluding the empty result; "
        "front()/back()/[0] of a container is dominated by a test or fill that makes it non-empty")
ASSUME = ["the invariants listed in REVIEWED were confirmed by reading the code (each names class and lookup)",
          "pointers kept in containers are non-null; a member container no member function ever tests for emptiness is filled by construction",
          "generator code (not the parser): an assertion on a lookup states an invariant the parser has established",
          "GenElem::genGetParent is non-null for every element below the schema"]

# (class or file stem, lookup) -> why the lookup cannot come back empty there
REVIEWED = {
    ("ParseFloatFieldImpl", "null-initialised const std::basic_string<char> *"):
        "prevDefName is set on both branches that set reportError",
    ("ParseLayerImpl", "find in static map of layer kinds"):
        "the caller passes only the index of a layer whose kind was just looked up in the same kinds",
    ("ParseFrameImpl", "parseGetParent"): "frames always have a parent namespace (parseSetParent right after construction)",
    ("ParseMessageImpl", "parseGetParent"): "messages always have a parent namespace (parseSetParent right after construction)",
    ("ParseInterfaceImpl", "parseGetParent"): "interfaces always have a parent namespace (parseSetParent right after construction)",
    ("ParseNamespaceImpl", "parseGetParent"): "namespaces always have a parent namespace or schema (parseSetParent right after construction)",
    ("ParseSetFieldImpl", "find in ParseSetFieldImpl::ParseState::m_bits"):
        "m_revBits values are inserted together with the m_bits entry of that name",
    ("ParseFieldImpl", "parseFieldImpl"): "a parsed ref field always has its referee (parseImpl fails otherwise)",
    ("ParseProtocolImpl", "find in parseNamespaces"): "element inserted under that key in the statement before",
    ("ParseNamespaceImpl", "find in ParseNamespaceImpl::m_namespaces"): "element inserted under that key in the statement before",
    ("CommsVariantField", "null-initialised const CommsField *"): "a variant has at least one member; the first iteration sets it",
    ("ParseLayerImpl", "front of parseGetChildren"): "empty exactly when fieldNode was set (checked before)",
    ("ParseListFieldImpl", "front of parseGetChildren"): "empty exactly when fieldNode was set (checked before)",
    ("ParseOptionalFieldImpl", "front of parseGetChildren"): "empty exactly when fieldNode was set (checked before)",
    ("GenEnumFieldImpl", "front of member second"): "second is the name of an enumerator, which the parser has verified to be a valid identifier",
    ("CommsMsgFactory", "front of member second"): "entries are created only by inserting a message",
    ("CommsVariantField", "front of commsMembers"): "bundle member of a variant with a common key field was checked to be non-empty",
    ("CommsDoxygen", "front of genGetAllInterfaces"): "the generators always create a default interface",
    ("ToolsQtGenerator", "front of genGetAllInterfaces"): "the generators always create a default interface",
    ("TestCmake", "front of genGetAllInterfaces"): "the generators always create a default interface",
}


def owner(db, f):
    r = core.root_fn(db, f)
    c = r.cls or ""
    c = c.split("<")[0].rsplit("::", 1)[-1]
    return c or os.path.splitext(os.path.basename(r.f))[0]


def strip_casts(e):
    e = core.strip(e)
    while e and e[0] == "cast" and len(e) > 5:
        e = core.strip(e[5])
    return e


def container(n, f, e, depth=0):
    e = strip_casts(e)
    if not e:
        return "?"
    if e[0] == "mem":
        return e[3]
    if e[0] == "call":
        return n.dn(e) or "call"
    if e[0] == "op" and e[3] in ("*", "->"):
        return container(n, f, e[5][0], depth)
    if e[0] == "v" and depth < 4:
        ini = n.single_def(f, e[3])
        if ini is not None and core.strip(ini) and core.strip(ini)[0] in ("mem", "call", "v", "op"):
            return container(n, f, ini, depth + 1)
        return "local " + n.ty(f, e)
    if e[0] == "ctor" and len(e[4]) == 1:
        return container(n, f, e[4][0], depth + 1)
    if e[0] in ("ctor", "init"):
        return "table of " + n.ty(f, e)
    return "gv" if e[0] == "gv" else e[0]


def definitions(n, f, vid):
    for g in core.family(n.db, core.root_fn(n.db, f)):
        for st in core.stmts(g.b) if g.b else ():
            if st[0] == "decl":
                for v in st[2]:
                    if v[0] == vid and v[3]:
                        yield v[3]
            if st[0] in ("if", "while") and len(st) > 3 and isinstance(st[3], list) and st[3] and st[3][0] == vid and st[0] == "if":
                yield st[3][3]
        for e in core.fn_exprs(g):
            if e[0] == "bin" and e[3] == "=" and core.strip(e[4]) and core.strip(e[4])[:1] == ["v"] and core.strip(e[4])[3] == vid:
                yield e[5]
            elif e[0] == "op" and e[3] == "=" and len(e[5]) == 2 and core.strip(e[5][0])[0] == "v" and core.strip(e[5][0])[3] == vid:
                yield e[5][1]


def lookup(n, f, base, depth=0):
    """what was looked up, independent of local names and positions"""
    e = strip_casts(base)
    if not e:
        return {"?"}
    if e[0] == "call":
        d = n.dn(e)
        if d == "get" and e[5] and not e[4]:
            return lookup(n, f, e[5], depth)
        if d in nullness.FINDS and e[5]:
            return {"find in " + container(n, f, e[5])}
        a = n.passthrough(e)
        if a is not None:
            return lookup(n, f, a, depth)
        return {d or "call"}
    if e[0] == "ctor" and len(e[4]) == 1:
        return lookup(n, f, e[4][0], depth)
    if e[0] == "v" and depth < 3:
        r = set()
        for d in definitions(n, f, e[3]):
            c = n.value(f, d)[0]
            if c == nullness.Z and (strip_casts(d) or ["?"])[0] in ("null", "int"):
                r.add("null-initialised " + n.ty(f, e))
            elif c in (nullness.M, nullness.Z):
                r |= lookup(n, f, d, depth + 1)
        if len(r) > 1:
            r = {x for x in r if not x.startswith("null-init")} or r
        return r or {"local " + n.ty(f, e)}
    if e[0] == "mem":
        return {"member " + e[3]}
    return {e[0]}


def first_of(n, f, base, depth=0):
    e = strip_casts(base)
    if e and e[0] == "v" and depth < 3:
        r = set()
        for d in definitions(n, f, e[3]):
            x = strip_casts(d)
            while x and x[0] == "ctor" and len(x[4]) == 1:
                x = strip_casts(x[4][0])
            if x and x[0] == "call":
                r.add(n.dn(x) or "call")
            elif x and x[0] in ("v", "mem", "op"):
                r |= first_of(n, f, x, depth + 1)
        return r or {"local " + n.ty(f, e)}
    if e and e[0] == "op" and e[3] in ("->", "*") and len(e[5]) == 1 or e and e[0] == "un" and e[3] in ("*", "&"):
        return first_of(n, f, e[5][0] if e[0] == "op" else e[4], depth)
    if e and e[0] == "mem":
        return {"member " + e[3].rsplit("::", 1)[-1]}
    if e and e[0] == "call":
        return {n.dn(e) or "call"}
    return {"?"}


def norm(s):
    s = s.replace("commsdsl::gen::", "").replace("commsdsl::parse::", "").replace("commsdsl2comms::", "").replace("class ", "").replace("struct ", "")
    if s.startswith("find in local") and "map<" in s and ("ParseKind" in s or "Kind" in s):
        return "find in static map of layer kinds"
    return s


def run(db, rep, thorough):
    n = nullness.get(db)
    for f, k, u, path, end in n.out:
        o = owner(db, f)
        lk = sorted(norm(x) for x in lookup(n, f, u[1]))
        if all((o, x) in REVIEWED for x in lk):
            rep.count("dereferences covered by a reviewed invariant")
            rep.sample("reviewed", "%s: %s" % (o, ", ".join(lk)), 30)
            continue
        rep.violation("deref %s <- %s" % (core.root_fn(db, f).q, ", ".join(lk)), f.where(u[2][1]), "R1",
                      "%s uses %s (%s) on a path where %s may have come back empty" %
                      (f.q, core.show(db, u[1])[:80], u[3], ", ".join(lk)), path)
    m = nullness.get_empty(db)
    for f, k, u, path in m.cout:
        o = owner(db, f)
        lk = sorted("front of " + norm(x) for x in first_of(m, f, u[1]))
        if all((o, x) in REVIEWED for x in lk):
            rep.count("first/last accesses covered by a reviewed invariant")
            rep.sample("reviewed", "%s: %s" % (o, ", ".join(lk)), 30)
            continue
        rep.violation("first %s <- %s" % (core.root_fn(db, f).q, ", ".join(lk)), f.where(u[2][1]), "R2",
                      "%s takes the first or last element of %s, which may be empty here" % (f.q, core.show(db, u[1])[:80]), path)
    rep.set("dereferences of lookup results", n.sites, 550)
    rep.set("first/last element accesses", m.csites, 70)
    rep.set("functions that may return null", sum(1 for v in n.nullret.values() if v), 50)
    rep.set("functions requiring a non-null argument", len(n.req), 60)
    rep.set("functions analysed", len(n.fns), 2000)
    contract(db, rep)


def contract(db, rep):
    """the one summary taken on trust by the analysis: a property parsed as mandatory is present when the call succeeds"""
    for f in db.fns.values():
        if f.n == "parseValidateSinglePropInstance" and f.b and len(f.p) > 3:
            must = f.p[-1]
            g = core.cfg(db, f)

            def step(n, st):
                if n.k == "br":
                    e, neg = core.strip(n.e), False
                    while e and e[0] == "un" and e[3] == "!":
                        neg, e = not neg, core.strip(e[4])
                    if e and e[0] == "v" and e[3] == must[0]:
                        return [(True, "opt" if neg else "must"), (False, "must" if neg else "opt")]
                return [("*", st)]
            rejects = False
            for n, st, par in core.explore(g, "", step):
                if n.k == "ret" and st == "must" and n.e and core.strip(n.e)[0] == "bool" and not core.strip(n.e)[-1]:
                    rejects = True
            rep.count("contracts checked")
            if not rejects:
                rep.violation("contract %s" % f.q, f.where(f.l), "R3",
                              "%s never rejects a missing property that must be there" % f.q)
