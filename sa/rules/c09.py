"""C09: public accessors return the attribute they are named after."""
import json, os, re
from sa import attrs, core, facts
from sa.facts import AnalysisBroken

RULE = ("value flow property-name lookup -> member -> accessor; every public accessor (and every field of the public "
        "info records) must be reached by the property it is named after and by no other attribute's storage")
EXPLAIN = ("For every accessor of the public parse API: the members its result can come from (interprocedural value flow through the "
           "wrapper and *Impl layers) and, for these members, the schema property names whose looked-up values are stored in them by "
           "code reachable from ParseProtocol::parse/parseValidate. The table sa/data/accessors.json states per accessor which "
           "CommsDSL property it must deliver. Reported: an accessor that no longer delivers its property, that reads the storage of "
           "another attribute, whose wrapper bypasses the same-named implementation accessor, or that alters the stored value.")
ASSUME = ["aliasing of members is only tracked through references and pointers to them passed as arguments or held in locals",
          "numeric correctness of the conversion itself is outside this rule"]

DATA = os.path.join(facts.VERIF, "sa", "data", "accessors.json")
ARITH = {"+", "-", "*", "/", "%", "<<", ">>", "^", "|", "&"}


def norm(m):
    n = m.rsplit("::", 1)[-1]
    return re.sub("^m_", "", n).lower()


def chain(db, S, f, depth=3):
    seen, work = {f.id: f}, [(f, depth)]
    while work:
        g, d = work.pop()
        if not d:
            continue
        for e in core.fn_exprs(g):
            if e[0] in ("call", "op"):
                for t in S.targets(g, e) or ():
                    tf = db.fns[t]
                    if t not in seen and tf.f.startswith("lib/") and tf.n != "<lambda>":
                        seen[t] = tf
                        work.append((tf, d - 1))
    return seen.values()


def altering(db, S, f):
    """The first value-altering operation on the way from the member to the result, for straight forwarding accessors."""
    for g in chain(db, S, f):
        for s in core.stmts(g.b) if g.b else ():
            if s[0] == "ret" and s[2]:
                for e in core.walk(s[2]):
                    if e[0] == "un" and e[3] in ("!", "-", "~") or e[0] == "bin" and e[3] in ARITH:
                        return g, s[1]
            elif s[0] in ("for", "rfor", "while", "do", "if", "switch"):
                return g, s[1]
    return None


def plain(db, S, f):
    return altering(db, S, f) is None


def run(db, rep, thorough):
    A = attrs.get(db)
    T = json.load(open(DATA))
    mk = A.member_keys
    have = {norm(m) for r in db.records.values() for m in [x["name"] for x in r["fields"]]}
    # the storage member of each single-attribute accessor
    owner = {}
    for n, a in T["accessors"].items():
        if len(a["members"]) == 1:
            owner.setdefault(a["members"][0], set()).add(n)
    cnt = 0
    for c, n, f, ms in A.accessors:
        name = c[5:] + "::" + re.sub("^parse", "", n)
        a = T["accessors"].get(name)
        if a is None:
            continue
        cnt += 1
        where = "%s:%d" % (f.f, f.l)
        ks = set()
        for m in ms:
            ks |= mk.get(m, set())
        nm = {norm(m) for m in ms}
        miss = [k for k in a["keys"] if k not in ks]
        if miss:
            rep.violation("%s.%s" % (name, miss[0]), where, "delivers",
                          "%s no longer returns the schema property '%s' (it returns %s, which receives %s)" % (
                              f.q, "', '".join(miss), ", ".join(sorted(nm)) or "no member", ", ".join(sorted(ks)) or "no property"))
        else:
            gone = [m for m in a["members"] if m not in nm and m in have]
            if gone and not (a["keys"] and len(a["members"]) == 1):
                rep.violation("%s.%s" % (name, gone[0]), where, "storage",
                              "%s no longer returns %s (it returns %s)" % (f.q, ", ".join(gone), ", ".join(sorted(nm)) or "no member"))
            cross = [m for m in nm - set(a["members"]) if m in owner]
            if cross:
                rep.violation("%s.+%s" % (name, cross[0]), where, "foreign",
                              "%s also returns the storage of %s" % (f.q, ", ".join(sorted(owner[cross[0]])[:3])))
        if a["plain"]:
            x = altering(db, A.S, f)
            # a loop or a branch alone is no alteration
            if x and any(e[0] == "un" and e[3] in ("!", "-", "~") or e[0] == "bin" and e[3] in ARITH
                         for g in chain(db, A.S, f) for s in (core.stmts(g.b) if g.b else ()) if s[0] == "ret" and s[2]
                         for e in core.walk(s[2])):
                rep.violation(name + ".altered", "%s:%d" % (x[0].f, x[1]), "alters", "the value returned by %s is altered in %s" % (f.q, x[0].q))
    rep.set("accessors", cnt, 120)
    n = 0
    for s, req in T["structs"].items():
        ks = mk.get("commsdsl::parse::" + s)
        rec = s.rsplit("::", 1)
        if ks is None:
            r = db.records.get("commsdsl::parse::" + rec[0])
            if not r or rec[1] not in [x["name"] for x in r["fields"]]:
                continue
            ks = set()
        n += 1
        miss = [k for k in req if k not in ks]
        if miss:
            r = db.records.get("commsdsl::parse::" + rec[0])
            rep.violation("%s.%s" % (s, miss[0]), "lib/include/commsdsl/parse/%s.h" % rec[0].split("::")[0], "delivers",
                          "%s no longer receives the schema property '%s' (it receives %s)" % (s, "', '".join(miss), ", ".join(sorted(ks)) or "none"))
    rep.set("record fields", n, 20)
    rep.set("members with property flow", sum(1 for v in mk.values() if v), 60)
    for m in sorted(mk)[:400:40]:
        rep.sample("member <- properties", "%s <- %s" % (m.replace("commsdsl::parse::", ""), ",".join(sorted(mk[m])) or "-"))

