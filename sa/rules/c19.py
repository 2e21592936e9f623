"""C19: exit status tells success, also for warnings treated as errors."""
import re
from sa import callgraph, core, status

RULE = ("typestate over the driver functions: a run may report success only if genHadWarning() was tested (and found false) after the last "
        "call that can issue a warning; main() must return the generator's status and turn exceptions into a message and a non-zero status")
EXPLAIN = ("Explored: every path of main() of each generator, of the driver functions between main() and the warning tests (with the "
           "summaries of the drivers they call), of the option processing and of the logger. Call-graph reachability decides which calls "
           "can issue a warning. Reported: a path on which a warning-capable call is followed by success without a test, a "
           "warning that bypasses the logger or is not recorded by it, an option evaluated too late, an exception that would end in "
           "status 0 or without message, an error path reported as early exit.")


def where(f, ln):
    return "%s:%d" % (f.f, ln)


def name(db, n):
    d = db.decls.get(core.callee(n)) if n[0] in ("call", "op") else None
    return d["n"] if d else ""


def src(f):
    return f.f.startswith(("lib/src", "lib/include", "app/"))


def reach_to(db, S, prims):
    """functions from which one of the primitives (names) is reachable"""
    rev, direct = {}, set()
    for f in db.fns.values():
        if not f.b or f.dep:
            continue
        for e in core.fn_exprs(f):
            if e[0] == "call" and name(db, e) in prims:
                direct.add(f.id)
        for t in callgraph.edges(db, S, f):
            rev.setdefault(t, set()).add(f.id)
    seen, work = set(direct), list(direct)
    while work:
        x = work.pop()
        for y in rev.get(x, ()):
            if y not in seen:
                seen.add(y)
                work.append(y)
    return seen


def truth(f, e):
    """constant outcome of a returned expression: True/False/None"""
    e = core.strip(e) if e else None
    if not e:
        return None
    if e[0] == "bool":
        return bool(e[2])
    if e[0] == "int":
        return int(e[3]) == 0 if "int" == f.types[e[2]] else bool(int(e[3]))
    if e[0] == "un" and e[3] == "-":
        return False
    if e[0] == "enumr":
        n = e[3].rsplit("::", 1)[-1]
        return "early" if "EarlyExit" in n else False if "Fail" in n else True
    return None


class Drive:
    def __init__(self, db, S):
        self.db, self.S = db, S
        self.warns = reach_to(db, S, {"genWarning", "parseLogWarning"})
        self.tests = reach_to(db, S, {"genHadWarning"})
        self.writes = self.file_writers()
        self.memo = {}
        self.n = 0

    def file_writers(self):
        rev, direct = {}, set()
        for f in self.db.fns.values():
            if not f.b or f.dep:
                continue
            for e in core.fn_exprs(f):
                if e[0] == "ctor" and "basic_ofstream" in (e[3] or "") and e[4]:
                    direct.add(f.id)
            for t in callgraph.edges(self.db, self.S, f):
                rev.setdefault(t, set()).add(f.id)
        seen, work = set(direct), list(direct)
        while work:
            x = work.pop()
            for y in rev.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return seen

    def calls(self, f, e):
        for x in core.walk_eval(e):
            if x[0] in ("call", "op"):
                yield x

    def outcomes(self, f, din):
        """set of (truth, frozenset of unchecked calls) at return"""
        key = (f.id, din)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = {(True, din), (False, din)}      # recursion
        g = core.cfg(self.db, f, asserts=False)
        out = set()

        def effects(e, st, want=None):
            """-> list of (state, truth of the driver call that is the value of e)"""
            sts = [(st, None)]
            if not e:
                return sts
            for c in self.calls(f, e):
                nm = name(self.db, c)
                if nm in ("genHadWarning",):
                    continue
                ts = list(self.S.targets(f, c) or ())
                dr = [t for t in ts if t in self.tests and t != f.id and t in self.db.fns and src(self.db.fns[t])]
                new = []
                for (d, early, vs, had), tr in sts:
                    if nm in ("genWarning", "parseLogWarning"):
                        new.append(((d | {nm}, early, vs, had), tr))
                    elif dr:
                        for t in dr:
                            for r, d2 in self.outcomes(self.db.fns[t], d):
                                new.append(((d2, early, vs, had), r))
                    elif any(t in self.warns for t in ts):
                        w = any(t in self.writes for t in ts)
                        new.append(((d | {"write-phase" if w else nm}, early, vs, had), tr))
                    else:
                        new.append(((d, early, vs, had), tr))
                sts = list(dict.fromkeys(new))
            return sts

        def step(n, st):
            d, early, vs, had = st
            if n.k == "br":
                e = core.strip(n.e)
                neg = False
                while e and e[0] == "un" and e[3] == "!":
                    neg, e = not neg, core.strip(e[4])
                if e and e[0] == "call" and name(self.db, e) == "genHadWarning":
                    return [(not neg, (d | {"warned"}, early, vs, True)), (neg, (frozenset(), early, vs, had))]
                if e and e[0] == "v":
                    v = dict(vs).get(e[3])
                    if v == "had":
                        return [(not neg, (d | {"warned"}, early, vs, True)), (neg, (frozenset(), early, vs, had))]
                    if v is not None:
                        return [(bool(v) != neg, st)]
                if e and e[0] == "bin" and e[3] in ("==", "!="):
                    for a, b in ((e[4], e[5]), (e[5], e[4])):
                        a, b = core.strip(a), core.strip(b)
                        if a and a[0] == "enumr" and "EarlyExit" in a[3] and b:
                            lab = (e[3] == "==") != neg
                            res = []
                            for s2, tr in effects(e, st):
                                v = dict(s2[2]).get(b[3]) if b[0] == "v" else tr
                                if v in (None, "early"):
                                    res.append((lab, (s2[0], True, s2[2], s2[3])))
                                if v != "early":
                                    res.append((not lab, s2))
                            return res
                        if a and a[0] == "enumr" and "Fail" in a[3] and b and b[0] == "v":
                            v = dict(vs).get(b[3])
                            lab = (e[3] == "==") != neg
                            if v is False:
                                return [(lab, st)]
                            if v is not None:
                                return [(not lab, st)]
                res = []
                direct = e and e[0] in ("call", "op")
                for s2, tr in effects(n.e, st):
                    if direct and tr in (True, False):
                        res.append((tr != neg, s2))
                    else:
                        res.append(("*", s2))
                return res
            if n.k == "d" and n.e is not None:
                v = n.x[0]
                e = core.strip(n.e)
                if e and e[0] == "call" and name(self.db, e) == "genHadWarning":
                    return [("*", (d, early, tuple(sorted(dict(vs, **{}).items() | {(v, "had")}, key=str)), had))]
                res = []
                for s2, tr in effects(n.e, st):
                    m = dict(s2[2])
                    m.pop(v, None)
                    t = tr if e and e[0] in ("call", "op") else truth(f, e) if e and e[0] in ("bool", "enumr") else None
                    if t is not None:
                        m[v] = t
                    res.append(("*", (s2[0], s2[1], tuple(sorted(m.items(), key=str)), s2[3])))
                return res
            if n.k == "e" and n.e is not None:
                e = core.strip(n.e)
                if e and e[0] == "bin" and e[3] == "=" and core.strip(e[4]) and core.strip(e[4])[0] == "v":
                    v = core.strip(e[4])[3]
                    r = core.strip(e[5])
                    res = []
                    for s2, tr in effects(n.e, st):
                        m = dict(s2[2])
                        m.pop(v, None)
                        t = tr if r and r[0] in ("call", "op") else truth(f, r)
                        if t is not None:
                            m[v] = t
                        res.append(("*", (s2[0], s2[1], tuple(sorted(m.items(), key=str)), s2[3])))
                    return res
            if n.k == "ret":
                for s2, tr in effects(n.e, st):
                    e = core.strip(n.e) if n.e else None
                    t = tr if e and e[0] in ("call", "op") else None
                    if t is None:
                        t = truth(f, e)
                    if t is None and e and e[0] == "v":
                        t = dict(s2[2]).get(e[3])
                        t = None if t == "had" else t
                    if t is True and s2[1]:
                        t = "early"
                    if t is None and e and e[0] == "un" and e[3] == "!" and name(self.db, core.strip(e[4])) == "genHadWarning":
                        out.add((True, frozenset()))
                        t = False
                    for tt in ([t] if t is not None else [True, False]):
                        out.add((tt, s2[0]))
                        if tt is True:
                            self.bad.setdefault((f.id, s2[0]), (g, n, st))
                return []
            return [("*", s2) for s2, tr in effects(n.e, st)] if n.e is not None and n.k in ("e", "d", "loop", "sw", "throw") else [("*", st)]
        self.bad = getattr(self, "bad", {})
        for n, st, par in core.explore(g, (din, False, (), False), step):
            self.n += 1
            if n.k in ("exit", "endfn"):
                if f.types and True:
                    pass
        if not out:
            out = {(True, din), (False, din)}
        self.memo[key] = out
        return out


def mains(db, S, rep):
    execs, k = set(), 0
    for f in db.fns.values():
        if f.n != "main" or not f.f.startswith("app/"):
            continue
        k += 1
        app = f.f.split("/")[1]
        tries = [s for s in core.stmts(f.b) if s[0] == "try"]
        inside, handlers = set(), []
        for t in tries:
            for s in core.stmts(t[2]) if isinstance(t[2], list) and t[2] and isinstance(t[2][0], str) else core.stmts(["{}", 0, t[2], 0]):
                for e in core.stmt_exprs(s):
                    for x in core.walk(e):
                        inside.add(id(x))
            handlers += t[3]
        texts = [str(h) for h in handlers]
        for s in core.stmts(f.b):
            for e in core.stmt_exprs(s):
                for x in core.walk(e):
                    if x[0] in ("call", "ctor") and x[3] and x[3] in db.decls and "commsdsl" in x[3] and id(x) not in inside:
                        c = db.decls[x[3]]
                        in_handler = any(h is s for h in handlers)
                        if not in_handler and not re.search(r"@N@std@", x[3][:8]):
                            rep.violation("%s:main:outside-try" % app, where(f, x[1]), "exception", "%s runs outside the try block of main" % (c["n"] or "constructor"), [where(f, x[1])])
        caught = False
        for h in handlers:
            decl, body = h[0], h[1]
            ty = str(decl)
            tys = [f.types[x] for x in (decl if isinstance(decl, list) else []) if isinstance(x, int) and x < len(f.types)]
            if decl in (None, []) or "exception" in ty or any(t.replace("const ", "").strip(" &") in ("std::exception",) for t in tys):
                caught = True
            msg = any(e[0] in ("op", "call") and any(x[0] in ("gv",) and ("cerr" in str(x) or "cout" in str(x)) for x in core.walk(e))
                      for s in core.stmts(body) for e in core.stmt_exprs(s))
            if not msg and not any(e[0] == "throw" for s in core.stmts(body) for e in core.stmt_exprs(s)):
                rep.violation("%s:main:silent-catch" % app, where(f, body[1]), "exception", "the handler of main prints no message", [where(f, body[1])])
        if not caught:
            rep.note("%s: no handler for std::exception in main (the runtime then ends the program with abort)" % app)
        # paths
        g = core.cfg(db, f, asserts=False)
        for n, st, par in core.explore(g, (), lambda n, st: [("*", st)]):
            if n.k == "ret":
                e = core.strip(n.e) if n.e else None
                if e and e[0] == "v":
                    i = [v[3] for s in core.stmts(f.b) if s[0] == "decl" for v in s[2] if v[0] == e[3]]
                    e2 = core.strip(i[0]) if i and i[0] else None
                    if e2 and e2[0] in ("call", "int", "un"):
                        assigned = [x for s in core.stmts(f.b) for y in core.stmt_exprs(s) for x in core.walk(y)
                                    if x[0] == "bin" and x[3] == "=" and core.strip(x[4]) and core.strip(x[4])[0] == "v" and core.strip(x[4])[3] == e[3]]
                        if any(core.strip(x[5]) and core.strip(x[5])[0] == "int" and int(core.strip(x[5])[3]) == 0 for x in assigned):
                            rep.violation("%s:main:zero" % app, where(f, n.ln), "exit status", "main can return 0 although the generator did not report success", [where(f, n.ln)])
                        e = next((core.strip(x[5]) for x in assigned if core.strip(x[5]) and core.strip(x[5])[0] == "call"), e2)
                if e and e[0] == "call":
                    execs.update(t for t in S.targets(f, e) or ())
                elif e and e[0] == "int" and int(e[3]) == 0 or e and e[0] == "gv" and "SUCCESS" in str(e):
                    rep.violation("%s:main:zero" % app, where(f, n.ln), "exit status", "main returns 0 without the generator's status", core.path_lines(g, par, n, st))
                elif e and e[0] in ("cond", "bin"):
                    for x in core.walk(e):
                        if x[0] == "call":
                            execs.update(t for t in S.targets(f, x) or ())
            elif n.k in ("endfn",):
                rep.violation("%s:main:falls-off" % app, where(f, f.l), "exit status", "control reaches the end of main, which returns 0", core.path_lines(g, par, n, st))
    rep.set("main functions", k, 7)
    return {t for t in execs if t in db.fns and src(db.fns[t])}


def drivers(db, S, rep, execs):
    D = Drive(db, S)
    ok = False
    for t in sorted(execs):
        f = db.fns[t]
        if t not in D.tests:
            rep.violation("untested:%s" % f.n, where(f, f.l), "warnings as errors", "%s never tests genHadWarning()" % f.q, [where(f, f.l)])
            continue
        ok = True
        for st in core.stmts(f.b):
            if st[0] == "ret" and st[2]:
                x = core.strip(st[2])
                if x and x[0] == "un" and x[3] == "-":
                    x = core.strip(x[4])
                if x and x[0] == "int" and int(x[3]) and int(x[3]) % 256 == 0:
                    rep.violation("status-wraps", where(f, st[1]), "exit status", "%s returns %s, of which the system only keeps the low byte, 0" % (f.q, x[3]), [where(f, st[1])])
        names = set()
        for r, d in D.outcomes(f, frozenset()):
            if r is True:
                names |= d
        for x in sorted(names):
            rep.violation("unchecked:%s" % x, where(f, f.l), "warnings as errors",
                          "%s can return success although %s issued a warning that is to be treated as an error: genHadWarning() is not tested after it"
                          % (f.q, "the writing phase" if x == "write-phase" else x), [where(f, f.l)])
    rep.set("driver functions", len(D.memo), 2)
    rep.set("driver states explored", D.n, 40)
    return D


def options(db, S, rep, D):
    n = 0
    for f in db.fns.values():
        if not f.b or not f.f.startswith(("lib/src/gen", "app/")):
            continue
        es = list(core.fn_exprs(f))
        if not any(e[0] == "call" and name(db, e) == "genWarnAsErrRequested" for e in es) or f.n == "genWarnAsErrRequested":
            continue
        n += 1
        g = core.cfg(db, f, asserts=False)
        sets = reach_to(db, S, {"genSetWarnAsError"})

        def step(nd, st):
            req, done, bad = st
            if nd.e is not None:
                for c in core.walk_eval(nd.e):
                    if c[0] in ("call", "op"):
                        nm = name(db, c)
                        ts = S.targets(f, c) or ()
                        if nm == "genSetWarnAsError" or nm != "genWarnAsErrRequested" and any(t in sets for t in ts):
                            done = True
                        elif nm == "genWarning" or any(t in D.warns for t in ts):
                            if not done and req is not False:
                                bad = bad or (nm, c[1])
            if nd.k == "br":
                e = core.strip(nd.e)
                neg = False
                while e and e[0] == "un" and e[3] == "!":
                    neg, e = not neg, core.strip(e[4])
                if e and e[0] == "call" and name(db, e) == "genWarnAsErrRequested":
                    return [(not neg, (True, done, bad)), (neg, (False, done, None))]
            return [("*", (req, done, bad))]
        seen = set()
        for nd, st, par in core.explore(g, (None, False, None), step):
            req, done, bad = st
            if nd.k in ("exit", "endfn") or nd.k == "ret":
                if nd.k == "ret" and nd.e is not None and truth(f, nd.e) in (False, "early"):
                    continue
                if req and done and bad and "late" not in seen:
                    seen.add("late")
                    rep.violation("late:%s" % bad[0], where(f, bad[1]), "warnings as errors", "%s can warn before the option \"treat warnings as errors\" is applied in %s" % (bad[0], f.q), core.path_lines(g, par, nd, st))
                if req and not done and nd.k != "ret" and "lost" not in seen:
                    seen.add("lost")
                    rep.violation("option-lost", where(f, f.l), "warnings as errors", "%s: the requested option is not applied on some path" % f.q, core.path_lines(g, par, nd, st))
    rep.set("places applying the option", n, 1)


def error_status(db, S, rep):
    """enum-status functions: an error path must yield the failure value"""
    n = 0
    for f in db.fns.values():
        if not f.b or not f.f.startswith(("lib/src/gen", "app/")) or not (f.ret or "").endswith("OptsProcessResult"):
            continue
        n += 1
        g = core.cfg(db, f, asserts=False)

        def step(nd, st):
            if nd.e is not None:
                for c in core.walk_eval(nd.e):
                    if c[0] == "call" and name(db, c) == "genError":
                        st = True
            return [("*", st)]
        for nd, st, par in core.explore(g, False, step):
            if nd.k == "ret" and st and nd.e is not None and truth(f, nd.e) in (True, "early"):
                rep.violation("error-as-success:%s" % f.q, where(f, nd.ln), "exit status", "%s reports an error and then returns %s" % (f.q, core.show(db, nd.e)), core.path_lines(g, par, nd, st))
                break
    rep.set("option processing functions", n, 2)


def logger(db, S, rep):
    k = 0
    warn = {}
    for q, e in db.enums.items():
        if q.endswith("::ParseErrorLevel"):
            warn = {n: int(v) for n, v in e["vals"]}
    wl = warn.get("ParseErrorLevel_Warning")
    # the recorder of warnings
    setters, flags = set(), set()
    for f in db.fns.values():
        if not f.b or "Logger" not in (f.cls or ""):
            continue
        if f.n in ("genHadWarning",):
            for g in [f] + [db.fns[t] for e in core.fn_exprs(f) if e[0] == "call" for t in S.targets(f, e) or () if t in db.fns]:
                for e in core.fn_exprs(g):
                    if e[0] == "mem" and f.types[0:0] == [] and re.search("(?i)warn", e[3]) and "::m_" in e[3] and not e[3].endswith("m_impl"):
                        flags.add(e[3])
    if not flags:
        rep.note("flag behind genHadWarning() not identified")
    ass = []
    for f in db.fns.values():
        if not f.b or "Logger" not in (f.cls or ""):
            continue
        for e in core.fn_exprs(f):
            if e[0] == "bin" and e[3] == "=" and core.strip(e[4]) and core.strip(e[4])[0] == "mem" and core.strip(e[4])[3] in flags:
                v = core.strip(e[5])
                ass.append(f)
                k += 1
                keeps = v and (v[0] == "bool" and v[2] or v[0] == "bin" and v[3] in ("||", "|") and any(x[0] == "mem" and x[3] in flags for x in core.walk(v))
                               or v[0] not in ("bool", "un", "bin", "int"))
                if not keeps:
                    rep.violation("flag-reset", where(f, e[1]), "warning flag", "%s can clear the record of warnings" % f.q, [where(f, e[1])])
                else:
                    setters.add(f.id)
        for e in core.fn_exprs(f):
            if e[0] == "un" and False:
                pass
    for q in flags:
        c, m = q.rsplit("::", 1)
        for x in (db.records.get(c) or {}).get("fields", ()):
            pass
    # every path of genLog records a warning
    for f in db.fns.values():
        if f.n != "genLog" or not f.b or f.cls is None or f.cls.endswith("Impl") or not f.cls.endswith("GenLogger"):
            continue
        k += 1
        g = core.cfg(db, f, asserts=False)

        def atom(e):
            """'asErr' / ('warn', truth when warning) / 'min'"""
            e = core.strip(e)
            if not e:
                return None
            if e[0] == "call" and re.search("(?i)warnaserr", name(db, e)):
                return ("aserr", True)
            if e[0] == "mem" and re.search("(?i)warnaserr", e[3]):
                return ("aserr", True)
            if e[0] == "bin":
                a, b = core.strip(e[4]), core.strip(e[5])
                for x, y, op in ((a, b, e[3]), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(e[3], e[3]))):
                    if y and y[0] == "enumr" and x and x[0] == "v":
                        v = warn.get(y[3].rsplit("::", 1)[-1])
                        if v is None or wl is None:
                            return None
                        t = {"==": wl == v, "!=": wl != v, "<": wl < v, ">": wl > v, "<=": wl <= v, ">=": wl >= v}.get(op)
                        return ("lvl", t)
                    if x and x[0] == "v" and y and y[0] in ("call", "mem") and re.search("(?i)minlevel", str(y[3])):
                        return ("lvl", {"<": False, ">=": True, "<=": None, ">": None}.get(op))
            return None

        def step(nd, st):
            if nd.e is not None:
                for c in core.walk_eval(nd.e):
                    if c[0] == "call" and any(t in setters for t in S.targets(f, c) or ()):
                        st = "set"
                    if c[0] == "bin" and c[3] in ("=", "|=") and core.strip(c[4]) and core.strip(c[4])[0] == "mem" and core.strip(c[4])[3] in flags:
                        st = "set"
            if nd.k == "br":
                e = core.strip(nd.e)
                neg = False
                while e and e[0] == "un" and e[3] == "!":
                    neg, e = not neg, core.strip(e[4])
                a = atom(e)
                if a and a[1] is not None:
                    return [(a[1] != neg, st)]
            return [("*", st)]
        for nd, st, par in core.explore(g, "", step):
            if nd.k in ("exit",) and st != "set":
                rep.violation("not-recorded", where(f, f.l), "warning flag", "%s: a warning that is to be treated as an error is not recorded on some path" % f.q, core.path_lines(g, par, nd, st))
                break
    # minimum level never above warning
    for f in db.fns.values():
        if not f.b or not src(f):
            continue
        for e in core.fn_exprs(f):
            if e[0] == "call" and name(db, e) in ("genSetMinLevel", "parseSetMinErrorLevel", "parseSetMinLevel") and e[4]:
                a = core.strip(e[4][0])
                if a and a[0] == "enumr":
                    k += 1
                    v = warn.get(a[3].rsplit("::", 1)[-1])
                    if v is not None and wl is not None and v > wl:
                        rep.violation("min-level:%s" % f.q, where(f, e[1]), "warning flag", "%s suppresses warnings altogether, also those to be treated as errors" % f.q, [where(f, e[1])])
            # warnings printed behind the logger's back
            if e[0] == "op" and e[3] == "<<":
                xs = list(core.walk(e))
                if any(x[0] == "gv" and x[4].startswith("std::c") for x in xs if len(x) > 4 and isinstance(x[4], str)):
                    for x in xs:
                        if x[0] == "str" and re.search(r"(?i)\bwarning\b", x[2] if isinstance(x[2], str) else str(x[3:])):
                            if "Logger" not in (f.cls or ""):
                                rep.violation("bypass:%s" % f.q, where(f, e[1]), "warning flag", "%s prints a warning without the logger, so it is not counted when warnings are errors" % f.q, [where(f, e[1])])
        # program exit elsewhere
        for e in core.fn_exprs(f):
            if e[0] == "call" and name(db, e) in ("exit", "_exit", "_Exit", "quick_exit"):
                a = core.strip(e[4][0]) if e[4] else None
                if a and a[0] == "int" and int(a[3]) == 0:
                    rep.violation("exit:%s" % f.q, where(f, e[1]), "exit status", "%s ends the program with status 0" % f.q, [where(f, e[1])])
    rep.set("logger obligations", k, 4)


def callback(db, S, rep):
    """parser diagnostics reach the generator's logger with their level, before anything is parsed"""
    n = 0
    for f in db.fns.values():
        if not f.b or not f.f.startswith("lib/src/gen"):
            continue
        cs = [e for e in core.fn_exprs(f) if e[0] == "call" and name(db, e) == "parse" and "ParseProtocol" in (e[3] or "")]
        if not cs:
            continue
        n += 1
        g = core.cfg(db, f, asserts=False)

        def step(nd, st):
            if nd.e is not None:
                for c in core.walk_eval(nd.e):
                    if c[0] == "call" and name(db, c) == "parseSetErrorReportCallback":
                        st = True
                    elif c[0] == "call" and name(db, c) == "parse" and "ParseProtocol" in (c[3] or "") and not st:
                        return [("*", "bad")]
            return [("*", st)]
        for nd, st, par in core.explore(g, False, step):
            if st == "bad":
                # set by a caller?
                rep.note("%s parses without setting the report callback itself" % f.q)
                break
        for e in core.fn_exprs(f):
            if e[0] == "call" and name(db, e) == "parseSetErrorReportCallback":
                lam = next((db.fns.get(x[2]) for a in e[4] for x in core.walk(a) if x[0] == "lam"), None)
                if lam is None:
                    continue
                p = lam.p[0][0] if lam.p else None
                fw = False
                for x in core.fn_exprs(lam):
                    if x[0] == "call" and name(db, x) == "genLog" and x[4]:
                        a = core.strip(x[4][0])
                        fw = fw or bool(a and a[0] == "v" and a[3] == p)
                    elif x[0] == "call" and any(core.strip(a) and core.strip(a)[0] == "v" and core.strip(a)[3] == p for a in x[4]):
                        fw = True
                if not fw:
                    rep.violation("callback-level", where(f, e[1]), "warning flag", "%s does not hand the level of parser diagnostics to the logger" % f.q, [where(f, e[1])])
    rep.set("parser drivers", n, 1)


def phases(db, rep, thorough):
    """failing phases of the generators (the analysis of C01, restricted to preparation and writing)"""
    from sa.report import Report
    from sa.rules import c01
    sub = Report("C01")
    c01.run(db, sub, thorough)
    for v in sub.viol:
        if v["where"].startswith(("app/", "lib/src/gen")):
            rep.violation("phase:" + v["key"], v["where"], v["rule"], v["text"] + " (so the exit status can be zero)", v["path"])
    rep.set("failing-step obligations of generators (C01 analysis)", sum(sub.counts.values()))


def run(db, rep, thorough):
    S = status.get(db)
    ex = mains(db, S, rep)
    rep.set("generator entry points", len(ex), 1)
    D = drivers(db, S, rep, ex)
    options(db, S, rep, D)
    error_status(db, S, rep)
    logger(db, S, rep)
    callback(db, S, rep)
    phases(db, rep, thorough)
