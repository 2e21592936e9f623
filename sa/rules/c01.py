"""C01: a failed or rejected step makes the whole operation fail."""
from .. import core, status

EXPLAIN = ("Interprocedural success/failure analysis of every function of the parser library, the generator "
           "library and the generator applications: for every path to a return, which steps failed (call of a "
           "fallible function returning false/null, stream test, exception, emitted error diagnostic) and what is "
           "returned. Plus result-use rules over every call of a fallible function.")
RULE = ("R1 no path returns success after a failed step; R2 no result of a fallible function is discarded; "
        "R3 a result kept in a variable is examined on every path before it is overwritten or goes out of scope; "
        "R4 fallible predicates are only used where the first failure decides (all_of), never in "
        "any_of/none_of/find_if/count_if/for_each; R5 a function that cannot report failure emits no error "
        "diagnostic on some of its paths only; R6 entry points map every failure to a non-zero status")
ASSUME = ["ParseOptCondExprImpl::parse: parseHasUpdatedValue() is true where parse() returns it (read and confirmed)",
          "pointers stored in containers by this code base are never null when fetched with .get()",
          "a call through a function pointer reaches one of the functions whose address the enclosing function takes"]

LOSSY = {"any_of", "none_of", "find_if", "find_if_not", "count_if", "for_each", "remove_if", "partition", "copy_if", "erase_if"}


def is_fallible(S, fid):
    s = S.sum.get(fid)
    return s is not None and s.fail and s.retF and not s.opaque


def run(db, rep, thorough):
    S = status.get(db)
    nret = 0
    writers = output_functions(db, S)
    for f in S.fns:
        st = S.is_status_ret(f)
        bad = {}
        vd = [0, 0]
        seen_v = frozenset()
        for g, n, s, par, out, flag in S.outcomes(f):
            nret += 1
            if st and out in ("T", "?") and "F" in flag:
                key = n.ln
                if key not in bad:
                    bad[key] = (out, "D" in flag, core.path_lines(g, par, n, s))
            if not st:
                seen_v |= flag
                vd["D" in flag] += 1
                if "D" in flag and "vp" not in bad:
                    vd_path = core.path_lines(g, par, n, s)
                    bad["vp"] = vd_path
        vp = bad.pop("vp", None)
        for ln, (out, d, path) in sorted(bad.items()):
            rep.violation("success-after-failure %s" % f.q, f.where(ln), "R1",
                          "%s can return %s after %s" % (f.q, "success" if out == "T" else "a result unrelated to the failure",
                                                         "an error was reported" if d else "a failed step"), path)
        if not st and vd[0] and vd[1]:
            rep.violation("diagnosed-but-lost %s" % f.q, f.where(f.l), "R5",
                          "%s reports an error on some paths but cannot tell its caller" % f.q, vp)
        rep.count("functions analysed")
        if st:
            rep.count("fallible-typed functions")
        if not st and "F" in seen_v and not vd[1]:
            w = [db.fns[t].q for e in core.fn_exprs(f) if e[0] in ("call", "op") for t in S.targets(f, e) or ()
                 if t in writers and S.is_status_ret(db.fns[t])]
            if w:
                rep.violation("lost-write-failure %s" % f.q, f.where(f.l), "R5",
                              "%s cannot report the failure of %s, which writes output" % (f.q, w[0]))
    rep.set("return outcomes examined", nret, 2500)
    rep.set("functions that reach file output", len(writers), 250)
    rep.floor("fallible-typed functions", 700)
    fall = [x for x in S.sum if is_fallible(S, x)]
    rep.set("functions proved to fail only after a failed step", len(fall), 150)
    results_used(db, S, rep)
    entry_points(db, S, rep)


OUT_OPS = ("std::filesystem::copy_file", "std::filesystem::create_directories", "std::filesystem::create_directory",
           "std::filesystem::copy", "std::filesystem::rename")


def output_functions(db, S):
    """Functions from which a file-output operation is reachable in the call graph."""
    callers = {}
    seed = set()
    for f in S.fns:
        for e in core.fn_exprs(f):
            if e[0] in ("call", "op", "ctor"):
                c = core.callee(e)
                d = db.decls.get(c) if c else None
                if d and (d["q"] in OUT_OPS or d.get("cls", "").startswith("std::basic_ofstream") and e[0] == "ctor"):
                    seed.add(f.id)
                for t in S.targets(f, e) or ():
                    callers.setdefault(t, set()).add(f.id)
    r = set()
    work = list(seed)
    while work:
        x = work.pop()
        if x in r:
            continue
        r.add(x)
        work.extend(callers.get(x, ()))
    return r


def results_used(db, S, rep):
    for f in S.fns:
        for st in core.stmts(f.b):
            if st[0] != "expr":
                continue
            e = core.strip(st[2])
            if e and e[0] == "cast":
                e = core.strip(e[-1])
            if not e or e[0] not in ("call", "op"):
                continue
            for t in S.targets(f, e) or ():
                tf = db.fns[t]
                if e[0] == "op" and e[3] not in ("()",):
                    continue
                if tf.ret == "bool" and S.sum.get(t) and (S.sum[t].retF or True) or S.is_int_status(tf) or tf.ret in S.enum_types:
                    if tf.ret == "bool" and S.sum.get(t) and not S.sum[t].retF:
                        continue        # can only succeed
                    rep.violation("discarded %s in %s" % (tf.q, f.q), f.where(e[1]), "R2",
                                  "result of %s is discarded in %s" % (tf.q, f.q))
        for e in core.fn_exprs(f):
            if e[0] == "call" and e[3] in db.decls:
                d = db.decls[e[3]]
                ts = S.targets(f, e)
                if ts and any(db.fns[t].ret == "bool" for t in ts):
                    rep.count("calls of boolean functions")
                if d["q"].startswith("std::") and d["n"] in LOSSY and e[4]:
                    l = core.lambda_of(db, f, e[4][-1])
                    if l is None:
                        a = core.strip(e[4][-1])
                        if a and a[0] == "fref":
                            l = a[3]
                    if l:
                        rep.count("predicates of searching algorithms examined")
                    if l and l in S.sum and db.fns[l].ret == "bool" and is_fallible(S, l):
                        rep.violation("lossy %s in %s" % (d["n"], f.q), f.where(e[1]), "R4",
                                      "std::%s swallows failures of its fallible predicate in %s" % (d["n"], f.q))
        unread(db, S, rep, f)
    rep.floor("calls of boolean functions", 1200)


def unread(db, S, rep, f):
    """R3: local holding a fallible result must be read on every path before overwrite / exit."""
    g = core.cfg(db, f)
    cand = set()
    def res_call(e):
        s = core.strip(e) if e else None
        if s and s[0] in ("call", "op"):
            ts = S.targets(f, s)
            if ts and all(db.fns[t].ret == "bool" for t in ts) and any(is_fallible(S, t) for t in ts):
                return s
        return None
    for n in g.nodes:
        if n.k == "d" and n.e is not None and f.types[n.x[2]] in ("bool", "const bool") and res_call(n.e):
            cand.add(n.x[0])
        if n.k == "e":
            s = core.strip_implicit(n.e)
            if s and s[0] == "bin" and s[3] == "=":
                x = core.strip(s[4])
                if x and x[0] == "v" and res_call(s[5]):
                    cand.add(x[3])
    if not cand:
        return
    # variables captured by reference by a lambda may be read there
    local = set()
    for st in core.stmts(f.b):
        pass
    for v in cand:
        name = [None]
        def reads(e):
            for y in core.walk(e):
                if y[0] == "v" and y[3] == v:
                    name[0] = y[4]
                    return True
                if y[0] == "lam":
                    lf = db.fns.get(y[2])
                    if lf and any(z[0] == "v" and z[3] == v for z in core.all_exprs(db, lf)):
                        return True
            return False
        hits = []
        def step(n, st):
            # st: 0 nothing pending, (line) pending unread result
            if n.k in ("endfn",) or n.k == "ret" and not (n.e is not None and reads(n.e)):
                if st:
                    hits.append(st)
                return [("*", 0)]
            if n.e is None:
                if n.k == "d" and n.x[0] == v and st:
                    hits.append(st)
                return [("*", st)] if n.x != "try" else [("body", st), ("exc", st)]
            if n.k == "d" and n.x[0] == v:
                if st:
                    hits.append(st)
                return [("*", n.ln if res_call(n.e) else 0)]
            if n.k == "e":
                s = core.strip_implicit(n.e)
                if s and s[0] == "bin" and s[3] == "=":
                    x = core.strip(s[4])
                    if x and x[0] == "v" and x[3] == v:
                        if reads(s[5]):
                            st = 0
                        if st:
                            hits.append(st)
                        return [("*", n.ln if res_call(s[5]) else 0)]
            if reads(n.e):
                st = 0
            return [("*", st)]
        for _ in core.explore(g, 0, step):
            pass
        rep.count("result variables followed")
        for ln in sorted(set(hits)):
            rep.violation("unread result in %s" % f.q, f.where(ln), "R3",
                          "the result kept in '%s' is overwritten or dropped without being examined in %s" % (name[0], f.q))


def entry_points(db, S, rep):
    """R6: main returns the run's status; genExec returns non-zero for each failing phase (R1 covers values)."""
    mains = [f for f in S.fns if f.n == "main" and "/app/" in "/" + f.f]
    rep.set("generator entry points", len(mains), 5)
    for f in mains:
        for g, n, st, par, out, flag in S.outcomes(f):
            if out in ("V",) and n.k == "ret":
                rep.violation("main-void", f.where(n.ln), "R6", "main does not return a status")
