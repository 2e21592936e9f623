"""C21: every command-line option that is offered takes effect."""
import json, os, re
from sa import callgraph, core, facts, status, tables

RULE = ("registered option names = queried option names per program; every accessor queries the option it is named after (sa/data/options.json), is "
        "used by the generator, and feeds the configuration item it always fed; every configuration item fed is read")
EXPLAIN = ("For each generator's option class: the option specifications registered by its constructor (through the shared genAdd...Options "
           "functions) are evaluated to constants; all genIsOptUsed()/genValue() arguments likewise. For each accessor: the calls its result feeds "
           "(argument or controlling condition). For each configuration setter: the members it stores to and where these are read. Reported: "
           "option offered but never queried, queried but not offered, value queried of an option that takes none, name clash, accessor "
           "of another option, unused result, configuration fed from another option, stored value nobody reads.")
ASSUME = ["whether the feature behind a configuration item does what its help text says is outside this rule"]
DATA = os.path.join(facts.VERIF, "sa", "data", "options.json")


def where(f, ln):
    return "%s:%d" % (f.f, ln)


def name(db, n):
    d = db.decls.get(core.callee(n)) if n[0] in ("call", "op", "ctor") else None
    return d["n"] if d else ""


def norm(q):
    return (q or "").rsplit("::", 1)[-1]


class Opts:
    def __init__(self, db):
        self.db, self.S, self.T = db, status.get(db), tables.get(db)
        self.cls = sorted(q for q in db.records if norm(q).endswith("ProgramOptions"))
        self.base = next((c for c in self.cls if c.endswith("::GenProgramOptions")), None)

    def s(self, f, e):
        v = self.T.ev(f, e)
        return v[1] if v and v[0] == "s" else None

    def regs(self, f, seen=None):
        """registrations made by f and the members it calls: list of (spec, hasParam, default?, where) / removals"""
        seen = seen if seen is not None else set()
        if f.id in seen or not f.b:
            return [], []
        seen.add(f.id)
        add, rem = [], []
        for e in core.all_exprs(self.db, f):
            if e[0] == "op" and e[3] == "()" and "ProgramOptions" in (e[4] or ""):
                a = e[5][1:]
                # chained calls are the first operand
                spec = self.s(f, a[0]) if a else None
                has = None
                if len(a) > 2:
                    x = core.strip(a[2])
                    if x and x[0] == "bool":
                        has = bool(x[2])
                    elif x and x[0] == "dflt":
                        y = core.strip(x[2]) if len(x) > 2 else None
                        has = bool(y[2]) if y and y[0] == "bool" else False
                    else:
                        v = self.T.ev(f, a[2])
                        has = True if v is None or v[0] == "s" else bool(v[1])
                else:
                    has = False
                add.append((spec, has, where(f, e[1])))
            elif e[0] in ("call", "ctor"):
                nm = name(self.db, e)
                if nm in ("genRemove", "genAdd") and e[4] and "Impl" in (e[3] or ""):
                    x = self.s(f, e[4][0])
                    if nm == "genRemove" and x:
                        rem.append((x, where(f, e[1])))
                    continue
                for t in self.S.targets(f, e) or ():
                    g = self.db.fns.get(t)
                    if g is not None and norm(g.cls or "").endswith("ProgramOptions") and g.n != "operator()":
                        a, r = self.regs(g, seen)
                        add += a
                        rem += r
        return add, rem

    def queries(self, f):
        for e in core.all_exprs(self.db, f):
            if e[0] == "call" and name(self.db, e) in ("genIsOptUsed", "genValue") and e[4]:
                yield name(self.db, e), self.s(f, e[4][0]), e[1]


def fields(spec):
    t = [x for x in spec.split(",") if x]
    short = t[0] if t and len(t[0]) == 1 else ""
    longs = [x for x in t if x != short]
    return short, longs[0] if longs else ""


def is_accessor(O, f):
    return norm(f.cls or "").endswith("ProgramOptions") and f.n not in ("genIsOptUsed", "genValue") and any(True for _ in O.queries(f))


def feeds(O, acc):
    """accessor fn id -> list of (consumer, fn, line); consumer is a callee name (with constant arguments when controlled by a condition)"""
    db, S = O.db, O.S
    out, used = {}, {}
    for f in db.fns.values():
        if not f.b or not f.f.startswith(("lib/src/gen", "app/")) or norm(f.cls or "").endswith("ProgramOptions") or norm(f.cls or "").endswith("ProgramOptionsImpl"):
            continue
        ids = {}

        def accs(e, depth=3):
            r = set()
            for x in core.walk(e):
                if x[0] == "call":
                    r |= {t for t in S.targets(f, x) or () if t in acc}
                elif x[0] == "v" and depth:
                    i = O.T.var_init(f, x[3])
                    if i and i[1] is not e:
                        r |= accs(i[1], depth - 1)
            return r
        if not any(e[0] == "call" and any(t in acc for t in S.targets(f, e) or ()) for e in core.fn_exprs(f)):
            continue
        for e in core.fn_exprs(f):
            if e[0] in ("call", "ctor"):
                nm = name(db, e)
                for i, a in enumerate(e[4] or ()):
                    if not a:
                        continue
                    for t in accs(a):
                        used.setdefault(t, where(f, e[1]))
                        if db.decls.get(e[3], {}).get("q", "").startswith("commsdsl") and not any(x in acc for x in S.targets(f, e) or ()):
                            out.setdefault(t, set()).add((nm, f.id, e[1]))
            elif e[0] in ("op", "bin") and e[3] in ("=", "+=", "<<", "==", "!=", "+"):
                for t in accs(e[5] if e[0] == "bin" else (e[5][1] if len(e[5]) > 1 else e[5][0])):
                    used.setdefault(t, where(f, e[1]))

        def cond(c):
            return accs(c, 2)
        for s in core.stmts(f.b):
            if s[0] == "ret" and s[2]:
                for t in accs(s[2]):
                    used.setdefault(t, where(f, s[1]))
            if s[0] == "rfor":
                for t in accs(s[3]):
                    used.setdefault(t, where(f, s[1]))
            c = s[4] if s[0] == "if" else None
            if c is None:
                continue
            ts = cond(c)
            for t in ts:
                used.setdefault(t, where(f, s[1]))
            x = core.strip(c)
            if len(ts) == 1 and x and x[0] == "call" and s[5]:
                for st in core.stmts(s[5]):
                    for e0 in core.stmt_exprs(st):
                        for e in core.walk(e0):
                            if e[0] == "call" and re.match("genSet|genForce|[a-z]+Set", name(db, e)):
                                cs = [O.T.ev(f, a) for a in e[4] if a]
                                if all(v is not None for v in cs):
                                    k = name(db, e) + "(" + ",".join(norm(str(v[1])) for v in cs) + ")"
                                    for t in ts:
                                        out.setdefault(t, set()).add((k, f.id, e[1]))
    return out, used


def stored(O, f, depth=3, seen=None):
    """members a setter stores its parameter to"""
    db, S = O.db, O.S
    seen = seen if seen is not None else set()
    if f.id in seen or not f.b or not depth:
        return set()
    seen.add(f.id)
    ps = {p[0] for p in f.p}
    out = set()

    def par(e):
        return e and any(x[0] == "v" and x[3] in ps for x in core.walk(e))

    def member(e):
        e = core.strip(e)
        while e and e[0] == "call" and e[5] and False:
            e = core.strip(e[5])
        return e[3] if e and e[0] == "mem" else None
    for e in core.all_exprs(db, f):
        if e[0] == "bin" and e[3].endswith("=") and e[3] not in ("==", "!=", "<=", ">="):
            m = member(e[4])
            if m and par(e[5]):
                out.add(m)
        elif e[0] == "op" and e[3] in ("=", "+=") and len(e[5]) > 1:
            m = member(e[5][0])
            if m and par(e[5][1]):
                out.add(m)
        elif e[0] == "call":
            if name(db, e) in ("push_back", "emplace_back", "insert", "assign", "swap", "emplace", "append") and len(e) > 5 and e[5]:
                m = member(e[5])
                if m:
                    out.add(m)
            if any(par(a) for a in e[4] if a):
                for t in S.targets(f, e) or ():
                    g = db.fns.get(t)
                    if g is not None and g.f.startswith(("lib/", "app/")):
                        out |= stored(O, g, depth - 1, seen)
    return out


def run(db, rep, thorough):
    O = Opts(db)
    data = json.load(open(DATA)) if os.path.exists(DATA) else {"accessors": {}, "consumers": {}}
    meth = {}
    for f in db.fns.values():
        if f.b and f.cls in O.cls:
            meth.setdefault(f.cls, []).append(f)
    acc = {}
    for c in O.cls:
        for f in meth.get(c, ()):
            if is_accessor(O, f):
                acc[f.id] = f
    out, used = feeds(O, acc)
    # accessors used by other accessors
    for f in acc.values():
        for e in core.all_exprs(db, f):
            if e[0] == "call":
                for t in O.S.targets(f, e) or ():
                    if t in acc and f.id in used:
                        used.setdefault(t, where(f, e[1]))
    nreg = nq = 0
    offered = {}
    qby = {}
    for f in acc.values():
        for k, o, ln in O.queries(f):
            qby.setdefault(o, []).append((f, k, ln))
    for c in O.cls:
        if c == O.base:
            continue
        add, rem = [], []
        seen = set()
        for f in db.fns.values():
            if f.cls == c and f.n == norm(c) and f.b:
                a, r = O.regs(f, seen)
                add += a
                rem += r
        app = c.split("::")[0]
        if not add:
            rep.note("%s registers no options" % c)
        names = {}
        gone = set()
        offered[app] = set()
        for x, w in rem:
            gone |= {t for t in x.split(",") if t}
        lst = []
        for spec, has, w in add:
            nreg += 1
            if spec is None:
                rep.note("%s: option specification at %s not constant" % (app, w))
                continue
            s, l = fields(spec)
            for n in (s, l):
                if n and n in names and names[n] != w:
                    rep.violation("%s:clash:%s" % (app, n), w, "option clash", "%s: option name \"%s\" is registered twice (%s)" % (app, n, names[n]), [w, names[n]])
                elif n:
                    names[n] = w
            if s in gone and s or l in gone:
                continue
            lst.append((s, l, has, w))
            offered[app] |= {s, l}
        avail = {n: has for s, l, has, w in lst for n in (s, l) if n}
        # queries made by this class, or by the base for options this class registers
        for f in meth.get(c, ()):
            for k, o, ln in O.queries(f):
                nq += 1
                if o is None:
                    rep.note("%s: query at %s:%d not constant" % (app, f.f, ln))
                elif o not in avail:
                    rep.violation("%s:query:%s" % (app, o), where(f, ln), "option not offered", "%s asks for option \"%s\", which %s does not offer" % (f.q, o, app), [where(f, ln)])
                elif k == "genValue" and avail[o] is False:
                    rep.violation("%s:value:%s" % (app, o), where(f, ln), "option without value", "%s reads the value of option \"%s\", which takes none" % (f.q, o), [where(f, ln)])
        for s, l, has, w in lst:
            qs = [(f, k, ln) for o in (s, l) if o for f, k, ln in qby.get(o, ()) if f.cls in (c, O.base)]
            if not qs:
                rep.violation("%s:unqueried:%s" % (app, l or s), w, "option ignored", "%s offers option \"%s\" but never asks for it" % (app, l or s), [w])
                continue
            if has and not any(k == "genValue" for f, k, ln in qs):
                rep.violation("%s:novalue:%s" % (app, l or s), w, "option ignored", "%s offers option \"%s\" with a parameter but never reads its value" % (app, l or s), [w])
            us = [f for f, k, ln in qs if f.id in used]
            if not us:
                f, k, ln = qs[0]
                rep.violation("%s:unused:%s" % (app, l or s), where(f, f.l), "option ignored", "option \"%s\": the result of %s is used nowhere" % (l or s, f.q), [w, where(f, f.l)])
            for f, k, ln in qs:
                if k == "genValue" and f.id not in used and f.id not in [x.id for x in us] and any(kk == "genValue" for ff, kk, _ in qs) and not any(
                        ff.id in used for ff, kk, _ in qs if kk == "genValue"):
                    rep.violation("%s:unused:%s" % (app, l or s), where(f, f.l), "option ignored", "option \"%s\": its value (%s) is used nowhere" % (l or s, f.q), [w])
    rep.set("registered options", nreg, 90)
    rep.set("queries of generator-specific options", nq, 8)
    # shared accessors against the options of the shared registrations
    shared = {}
    for f in meth.get(O.base, ()):
        a, r = O.regs(f, set()) if re.match("genAdd", f.n) else ([], [])
        for spec, has, w in a:
            if spec:
                for n in fields(spec):
                    if n:
                        shared[n] = has
    for f in meth.get(O.base, ()):
        for k, o, ln in O.queries(f) if f.id in acc else ():
            nq += 1
            if o is None:
                rep.note("query at %s:%d not constant" % (f.f, ln))
            elif o not in shared:
                rep.violation("query:%s" % o, where(f, ln), "option not offered", "%s asks for option \"%s\", which is registered nowhere" % (f.q, o), [where(f, ln)])
            elif k == "genValue" and shared[o] is False:
                rep.violation("value:%s" % o, where(f, ln), "option without value", "%s reads the value of option \"%s\", which takes none" % (f.q, o), [where(f, ln)])
    # accessor -> option
    k = 0
    for f in acc.values():
        key = "%s::%s" % (norm(f.cls), f.n)
        want = data["accessors"].get(key)
        got = sorted({o for _, o, _ in O.queries(f) if o})
        if want is not None and got:
            k += 1
            for o in got:
                if o not in want:
                    rep.violation("accessor:%s" % key, where(f, f.l), "option mix-up", "%s asks for option \"%s\" instead of \"%s\"" % (f.q, o, "/".join(want)), [where(f, f.l)])
            for o in want:
                if o not in got:
                    rep.violation("accessor:%s" % key, where(f, f.l), "option mix-up", "%s no longer asks for option \"%s\"" % (f.q, o), [where(f, f.l)])
    rep.set("option accessors", k, 20)
    # consumer <- accessor
    rev = {}
    for t, cs in out.items():
        for cn, fid, ln in cs:
            rev.setdefault(cn, []).append((acc[t], fid, ln))
    k = 0
    for cn, want in data["consumers"].items():
        got = rev.get(cn, ())
        k += bool(got)
        names = {g.n for g, _, _ in got}
        for g, fid, ln in got:
            if g.n not in want and not (set(want) <= names):
                rep.violation("fed:%s" % cn, where(db.fns[fid], ln), "option mix-up", "%s is fed from %s instead of %s" % (cn, g.n, "/".join(want)), [where(db.fns[fid], ln)])
    rep.set("configuration items fed from options", k, 12)
    # setters: distinct members, each read
    mem = {}
    readers = {}
    for f in db.fns.values():
        if not f.b or not f.f.startswith(("lib/", "app/")):
            continue
        lhs = set()
        for e in core.fn_exprs(f):
            if e[0] == "bin" and e[3] == "=" and core.strip(e[4]):
                lhs.add(id(core.strip(e[4])))
            elif e[0] == "op" and e[3] == "=" and core.strip(e[5][0]):
                lhs.add(id(core.strip(e[5][0])))
        for e in core.fn_exprs(f):
            if e[0] == "mem" and id(e) not in lhs:
                readers.setdefault(e[3], []).append((f, e[1]))
    k = 0
    setters = {}
    for t, cs in out.items():
        for cn, fid, ln in cs:
            if "(" in cn:
                continue
            for e in core.fn_exprs(db.fns[fid]):
                if e[0] == "call" and name(db, e) == cn and e[1] == ln:
                    for tt in O.S.targets(db.fns[fid], e) or ():
                        g = db.fns.get(tt)
                        if g is not None and g.f.startswith(("lib/src/gen", "app/")):
                            setters.setdefault(g.id, (g, acc[t]))
    for g, a in setters.values():
        ms = {m for m in stored(O, g) if not norm(m) in ("m_impl",)}
        k += bool(ms)
        if not ms:
            continue
        if not any(readers.get(m) for m in ms):
            rep.violation("unread:%s" % g.n, where(g, g.l), "option ignored", "the value of %s is stored by %s in %s, which is never read" % (a.n, g.q, "/".join(sorted(map(norm, ms)))), [where(g, g.l)])
        if len(ms) == 1:
            m = next(iter(ms))
            if m in mem and mem[m][1].n != a.n:
                rep.violation("shared:%s" % norm(m), where(g, g.l), "option mix-up", "%s and %s store different options (%s, %s) in the same member %s"
                              % (g.q, mem[m][0].q, a.n, mem[m][1].n, norm(m)), [where(g, g.l), where(mem[m][0], mem[m][0].l)])
            mem.setdefault(m, (g, a))
    rep.set("configuration setters", k, 10)
    effect(O, rep, acc, out, offered, readers)
    parsing(O, rep)
    if os.environ.get("SA_FREEZE"):
        json.dump({"accessors": {"%s::%s" % (norm(f.cls), f.n): sorted({o for _, o, _ in O.queries(f) if o}) for f in acc.values()},
                   "consumers": {cn: sorted({g.n for g, _, _ in v}) for cn, v in rev.items()}}, open(DATA, "w"), indent=1, sort_keys=True)


def effect(O, rep, acc, out, offered, readers):
    """per program: the configuration an offered option feeds is read by code the program runs"""
    db, S = O.db, O.S
    n = 0
    for m in sorted((f for f in db.fns.values() if f.n == "main" and f.f.startswith("app/")), key=lambda f: f.f):
        app = m.f.split("/")[1]
        seen, work = set(), [m.id]
        while work:
            x = work.pop()
            f = db.fns.get(x)
            if f is None or x in seen or not f.f.startswith(("lib/", "app/%s/" % app)):
                continue
            seen.add(x)
            if not f.dep:
                work.extend(callgraph.edges(db, S, f))
        for t, cs in out.items():
            opts = {o for _, o, _ in O.queries(acc[t])}
            if not opts & offered.get(app, set()):
                continue
            for cn, fid, ln in cs:
                if "(" in cn or fid not in seen:
                    continue
                for e in core.fn_exprs(db.fns[fid]):
                    if e[0] != "call" or name(db, e) != cn or e[1] != ln:
                        continue
                    for tt in S.targets(db.fns[fid], e) or ():
                        g = db.fns.get(tt)
                        if g is None or tt not in seen:
                            continue
                        ms = {x for x in stored(O, g) if norm(x) != "m_impl"}
                        if not ms:
                            continue
                        n += 1
                        if not any(r.id in seen and r.id != g.id for x in ms for r, _ in readers.get(x, ())):
                            rep.violation("%s:ineffective:%s" % (app, "/".join(sorted(opts))), where(g, g.l), "option ignored",
                                          "%s offers option \"%s\", but nothing it runs reads the configuration (%s) the option is stored in"
                                          % (app, "/".join(sorted(opts)), "/".join(sorted(map(norm, ms)))), [where(db.fns[fid], ln), where(g, g.l)])
    rep.set("option effects per generator", n, 60)


def parsing(O, rep):
    """a recognised option is marked as used and keeps its parameter"""
    db = O.db
    n = 0
    rec = next((q for q in db.records if q.endswith("ProgramOptionsImpl::OptInfo")), None)
    if rec is None:
        rep.note("option record not found")
        return
    used = rec + "::m_wasUsed"
    val = rec + "::m_value"
    sets = {used: 0, val: 0}
    reads = {used: 0, val: 0}
    for f in db.fns.values():
        if not f.b or not f.f.startswith("lib/src/gen"):
            continue
        for e in core.fn_exprs(f):
            l = None
            if e[0] == "bin" and e[3] == "=":
                l, r = core.strip(e[4]), core.strip(e[5])
            elif e[0] == "op" and e[3] == "=":
                l, r = core.strip(e[5][0]), core.strip(e[5][1])
            if l and l[0] == "mem" and l[3] in sets:
                sets[l[3]] += 1
                n += 1
                if l[3] == used and r and r[0] == "bool" and not r[2]:
                    rep.violation("used-cleared", where(f, e[1]), "option ignored", "%s marks an option as not used" % f.q, [where(f, e[1])])
            if e[0] == "mem" and e[3] in reads:
                reads[e[3]] += 1
    for m in sets:
        if not sets[m] or reads[m] <= sets[m]:
            rep.violation("record:%s" % norm(m), "lib/src/gen/GenProgramOptions.cpp:1", "option ignored", "%s of a given option is %s" % (norm(m), "never set" if not sets[m] else "never read"), [])
    rep.set("updates of option records", n, 3)
