"""C05: recognised schema properties are consumed, consumed ones are recognised."""
import json, os
from sa import attrs, core, facts, tables
from sa.facts import AnalysisBroken

RULE = ("per element class: property names declared as recognised == property names looked up in the element's property map; "
        "a property that is looked up reaches the state of the element")
EXPLAIN = ("Recognised names: every constant name list that reaches ParseXmlWrap::parseChildrenAsProps (directly or through a virtual "
           "function, then per override). Consumed names: every property-map lookup whose key is a constant named in the class, found by "
           "interprocedural value flow over all functions reachable from ParseProtocol::parse/parseValidate. Reported: a consumed but "
           "unrecognised name, a recognised but never consumed one, and every (element class, property) pair of sa/data/props.json "
           "(the CommsDSL property table) that is no longer recognised, no longer consumed, or no longer reaches any member.")
ASSUME = ["a lookup that is executed only under an additional condition still counts as consumption",
          "the class of a property use is the source file naming the property"]
DATA = os.path.join(facts.VERIF, "sa", "data", "props.json")
PRE = "commsdsl::parse::"


def strs(v):
    if v is None:
        return set()
    if v[0] == "s":
        return {v[1]} if v[1] else set()
    if v[0] in ("list", "tup"):
        r = set()
        for x in v[1]:
            r |= strs(x)
        return r
    return set()


def stem(f):
    return f.f.rsplit("/", 1)[-1].split(".")[0]


def recognised(db, A):
    """(class stem, 'props'|'local') -> {name: place}"""
    T, S = tables.get(db), A.S
    R = {}
    nsites = 0
    A.local_lists = {}  # class stem -> list of name sets, one per constant list used for an element that is not a class of its own
    for f in A.parse_fns:
        for e in core.fn_exprs(f):
            if e[0] != "call" or not e[3]:
                continue
            n = db.decls[e[3]]["n"]
            if n != "parseChildrenAsProps" or len(e[4]) < 4:
                continue
            nsites += 1
            dst = core.strip(e[4][3])
            kind = "props" if dst and dst[0] == "mem" else "local"
            a = core.strip(e[4][1])
            if a and a[0] == "v":
                vi = T.var_init(f, a[3])
                if vi:
                    a2 = core.strip(vi[1])
                    if a2 and a2[0] == "call":
                        a = a2
            done = False
            if a and a[0] == "call":
                for t in S.targets(f, a) or ():
                    tf = db.fns[t]
                    v = T.fn_value(tf)
                    if v is not None:
                        done = True
                        if kind == "local":
                            A.local_lists.setdefault(stem(tf), []).append(strs(v))
                        for x in strs(v):
                            R.setdefault((stem(tf), kind), {})[x] = "%s:%d" % (tf.f, tf.l)
            if not done:
                v = T.ev(f, e[4][1])
                if v is None:
                    raise AnalysisBroken("property list passed in %s (%s:%d) is not constant" % (f.q, f.f, e[1]))
                if kind == "local":
                    A.local_lists.setdefault(stem(f), []).append(strs(v))
                for x in strs(v):
                    R.setdefault((stem(f), kind), {})[x] = "%s:%d" % (f.f, e[1])
    return R, nsites


def consumed(db, A):
    """class stem -> {name: set of kinds 'props'/'local'/'plain'}"""
    U = {}
    for f, k, rc in A.events:
        key, o = k.split("|")
        kinds = U.setdefault(o, {}).setdefault(key, set())
        if any(x[0] == "M" for x in rc):
            kinds.add("props")
        elif rc:
            kinds.add("local")
        else:
            kinds.add("plain")
    # children fetched by name count as consumption of the child-element form
    T, S = tables.get(db), A.S
    for f in A.parse_fns:
        if f.id not in A.reach:
            continue
        for g in core.family(db, f):
            for e in core.fn_exprs(g):
                if e[0] == "call" and e[3] and db.decls[e[3]]["n"] == "parseGetChildren" and len(e[4]) > 1:
                    for x in strs(T.ev(g, e[4][1])):
                        U.setdefault(stem(f), {}).setdefault(x, set()).add("child")
    return U


def effects(A):
    """class stem -> names stored in at least one member."""
    E = {}
    for m, ks in A.member_keys_origin.items():
        if m.endswith("::m_props") or m.endswith("m_logger"):
            continue
        for k in ks:
            if "|" in k:
                key, o = k.split("|")
                E.setdefault(o, {}).setdefault(key, set()).add(m.rsplit("::", 1)[-1])
    return E


def lineage(db):
    """class stem -> stems of its bases and of the classes derived from it."""
    up = {}
    for n, r in db.records.items():
        if n.startswith(PRE):
            for b in r["bases"]:
                b = b if isinstance(b, str) else b.get("q", "")
                if b.startswith(PRE):
                    up.setdefault(n[len(PRE):], set()).add(b[len(PRE):])

    def ups(c):
        o, w = set(), [c]
        while w:
            for b in up.get(w.pop(), ()):
                if b not in o:
                    o.add(b)
                    w.append(b)
        return o
    U = {c: ups(c) for c in up}
    D = {}
    for c, bs in U.items():
        for b in bs:
            D.setdefault(b, set()).add(c)
    return U, D


def run(db, rep, thorough):
    A = attrs.get(db)
    R, nsites = recognised(db, A)
    U = consumed(db, A)
    E = effects(A)
    up, down = lineage(db)
    rep.set("recognised-list sites", nsites, 8)

    def near(c):
        return {c, "ParseXmlWrap", "parse_common"} | up.get(c, set()) | down.get(c, set())

    def place(c, k=None):
        for kind in ("props", "local"):
            p = R.get((c, kind), {}).get(k)
            if p:
                return p
        return "lib/src/parse/%s.cpp" % c
    nr = 0
    for (c, kind), names in sorted(R.items()):
        for k, wh in sorted(names.items()):
            nr += 1
            if not any(k in U.get(x, {}) for x in near(c)):
                rep.violation("%s.%s.unused" % (c, k), wh, "recognised-not-consumed",
                              "%s declares the property '%s' as recognised but nothing reads it" % (c, k))
    nu = 0
    for c, names in sorted(U.items()):
        if c in ("ParseXmlWrap", "ParseProtocolImpl", "parse_common"):
            continue
        for k, kinds in sorted(names.items()):
            if "props" not in kinds:
                continue
            nu += 1
            if not any(k in R.get((x, "props"), {}) for x in near(c)):
                rep.violation("%s.%s.undeclared" % (c, k), place(c), "consumed-not-recognised",
                              "%s reads the property '%s' but does not declare it as recognised" % (c, k))
    rep.set("recognised properties", nr, 130)
    rep.set("consumed properties", nu, 90)
    rep.set("functions in the value-flow closure", A.nfns, 500)
    spec = json.load(open(DATA))
    have = {n[len(PRE):] for n in db.records if n.startswith(PRE)} | {"ParseXmlWrap"}
    m = 0
    for c, d in spec.items():
        if c not in have:
            continue
        for k in d["recognised"]:
            m += 1
            if not any(k in R.get((x, "props"), {}) for x in {c} | up.get(c, set())):
                rep.violation("%s.%s.dropped" % (c, k), "lib/src/parse/%s.cpp" % c, "recognised",
                              "the property '%s' is no longer recognised by %s" % (k, c))
        cur = [y for x in {c} | up.get(c, set()) | down.get(c, set()) for y in A.local_lists.get(x, ())]
        for want in d["nested"]:
            m += len(want)
            if any(set(want) <= y for y in cur):
                continue
            best = max(cur, key=lambda y: len(y & set(want)), default=set())
            rep.violation("%s.nested.%s.dropped" % (c, "+".join(sorted(set(want) - best))), place(c, want[0]), "recognised",
                          "no property list of %s recognises all of: %s (missing: %s)" % (
                              c, ", ".join(want), ", ".join(sorted(set(want) - best))))
        for k in d["consumed"]:
            m += 1
            if not any(k in U.get(x, {}) for x in {c} | up.get(c, set())):
                rep.violation("%s.%s.unread" % (c, k), place(c, k), "consumed", "the property '%s' is no longer read by %s" % (k, c))
            elif k in d["effect"] and not any(k in E.get(x, {}) for x in {c} | up.get(c, set())):
                rep.violation("%s.%s.noeffect" % (c, k), place(c, k), "effect",
                              "the property '%s' read by %s no longer reaches any member" % (k, c))
    rep.set("pairs of the property table", m, 200)
    for (c, kind), names in sorted(R.items()):
        rep.sample("recognised", "%s (%s): %s" % (c, kind, ", ".join(sorted(names))))
