"""C02: a rejected schema always comes with an error diagnostic."""
from .. import core, status, tables

EXPLAIN = ("From the public parse and validate operations downwards, every path to a failing result is required to "
           "pass an emission of an error-level diagnostic. Functions whose failing results are always diagnosed are "
           "summarised ('loud'); when an operation is not, the analysis descends into the callee whose failure was "
           "not diagnosed and reports the return statement where the silent failure originates.")
RULE = ("on every path of the call graph from ParseProtocol::parse / parseValidate that ends in a failing result an "
        "error-level diagnostic (message log at level Error, or the error report of the XML library) is emitted")
ASSUME = ["the XML library invokes the installed structured error callback when it fails to read a document",
          "tables dispatching on child-element names contain every name their list of recognised children contains "
          "(checked by this rule)"]

ROOTS = ("commsdsl::parse::ParseProtocol::parse", "commsdsl::parse::ParseProtocol::parseValidate")


def run(db, rep, thorough):
    dead = unreachable_returns(db, rep)
    S = status.Status(db, dead)
    S.track = True
    roots = [f for f in S.fns if f.q in ROOTS]
    rep.set("public operations", len(roots), 2)
    # everything reachable
    reach = set()
    work = [f.id for f in roots]
    while work:
        x = work.pop()
        if x in reach:
            continue
        reach.add(x)
        f = db.fns[x]
        for e in core.fn_exprs(f):
            if e[0] in ("call", "op", "ctor"):
                work.extend(S.targets(f, e) or ())
                for a in (e[4] if e[0] != "op" else e[5]):
                    l = core.lambda_of(db, f, a)
                    if l:
                        work.append(l)
            elif e[0] == "fref" and e[3] in db.fns:
                work.append(e[3])
    rep.set("functions reachable from the public operations", len(reach), 900)
    loud = [x for x in reach if x in S.sum and S.is_status_ret(db.fns[x]) and S.sum[x].loud and S.sum[x].retF]
    rep.set("functions whose every failing result is diagnosed", len(loud), 200)
    for x in sorted(loud, key=lambda x: db.fns[x].q)[:8]:
        rep.sample("always diagnosed", db.fns[x].q)
    seen = set()
    work = list(roots)
    while work:
        f = work.pop(0)
        if f.id in seen or S.sum[f.id].loud:
            continue
        seen.add(f.id)
        g = core.cfg(db, f)
        for n, st, parent in core.explore(g, (frozenset(), ()), lambda n, st: S.step(f, n, st)):
            if n.k != "ret" or not n.e or S.dead(f, n.e) or (f.id, n.ln) in dead:
                continue
            flag, vars_ = st
            flag, vars_ = S.eval_effects(f, n.e, flag, vars_)
            S.in_ret = True
            val = S.pending(f, n.e)
            S.in_ret = False
            if val is None:
                if "D" not in flag:
                    silent(db, S, rep, f, n, dict(vars_).get(-1), work, core.path_lines(g, parent, n, st))
                continue
            for o, fl, vs in S.split(val, flag, vars_):
                if not o and "D" not in fl:
                    silent(db, S, rep, f, n, dict(vs).get(-1), work, core.path_lines(g, parent, n, st))
    rep.set("functions not always diagnosing, descended into", len(seen))


def silent(db, S, rep, f, n, last, work, path):
    calls = [db.fns[x] for x in last or () if x in db.fns]
    # a failing callee that is itself expected to diagnose: one that diagnoses on some failing path
    down = [c for c in calls if partly_loud(db, S, c)]
    if down:
        work.extend(down)
        return
    rep.violation("silent %s" % f.q, f.where(n.ln), "C02",
                  "%s fails here without any error diagnostic%s" %
                  (f.q, " (after %s failed)" % calls[0].q if calls else ""), path)


_pl = {}


def partly_loud(db, S, c):
    """The callee emits a diagnostic somewhere on the way to some failing result."""
    if c.id in _pl:
        return _pl[c.id]
    r = False
    for g, n, st, par, out, flag in S.outcomes(c):
        if out in ("F", "?") and "D" in flag:
            r = True
            break
    _pl[c.id] = r
    return r


def unreachable_returns(db, rep):
    """Returns taken only when a name is absent from a static dispatch table, in functions that are only handed names
    out of a static list all of whose members are keys of that table."""
    r = set()
    for f in db.fns.values():
        if f.dep or not f.q.startswith("commsdsl::parse::"):
            continue
        its = {}
        for s in core.stmts(f.b):
            if s[0] == "decl":
                for v in s[2]:
                    e = core.strip(v[3]) if v[3] else None
                    if e and e[0] == "call" and e[3] in db.decls and db.decls[e[3]]["n"] == "find" and e[5]:
                        o = core.strip(e[5])
                        if o and o[0] in ("gv", "v") and e[4] and node_name(db, f, e[4][0]):
                            its[v[0]] = o
        for s in core.stmts(f.b):
            if s[0] != "if" or not its:
                continue
            c = core.strip(s[4])
            if c and c[0] == "op" and c[3] == "==":
                ids = [core.strip(x)[3] for x in c[5] if core.strip(x) and core.strip(x)[0] == "v"]
                ids = [x for x in ids if x in its]
                if not ids:
                    continue
                keys = tables.string_keys(db, f, its[ids[0]])
                if keys and callers_pass_known_names(db, f, keys):
                    for t in core.stmts(s[5]):
                        if t[0] == "ret":
                            r.add((f.id, t[1]))
                            rep.count("silent returns proved unreachable (dispatch table complete)")
    return r


def node_name(db, f, e):
    """The expression is the name of an XML node handed in as parameter."""
    e = core.strip(e)
    if e and e[0] == "v":
        for s in core.stmts(f.b):
            if s[0] == "decl":
                for v in s[2]:
                    if v[0] == e[3] and v[3]:
                        return any(x[0] == "mem" and x[3] == "_xmlNode::name" for x in core.walk(v[3]))
        return False
    return bool(e) and any(x[0] == "mem" and x[3] == "_xmlNode::name" for x in core.walk(e))


def callers_pass_known_names(db, f, keys):
    n = 0
    for c in db.fns.values():
        if c.dep:
            continue
        for e in core.fn_exprs(c):
            if e[0] == "call" and e[3] == f.id:
                n += 1
                names = children_lists(db, c)
                if names is None or not names <= keys:
                    return False
    return n > 0


def children_lists(db, c):
    """Union of the static name lists by which the calling function selects child elements."""
    best = None
    for e in core.all_exprs(db, core.root_fn(db, c)):
        if e[0] != "call" or not e[3] or db.decls[e[3]]["n"] != "parseGetChildren":
            continue
        got = False
        for a in e[4][1:]:
            t = tables.string_keys(db, c, a)
            if t:
                best = (best or set()) | t
                got = True
        if not got:
            return None
    return best
