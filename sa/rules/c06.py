"""C06: features and properties take effect only from the DSL version that introduced them."""
import json, os
from sa import core, facts, tables, status
from sa.facts import AnalysisBroken

RULE = ("the version threshold of every feature and property equals the specification's, and at every place where the parser asks for it the "
        "unsupported answer dominates: the effect is unreachable, undone, or the element is rejected")
EXPLAIN = ("(1) The functions ParseProtocolImpl::parseIs*Supported are reduced to the number they hand to parseIsFeatureSupported, the property "
           "maps of parseIsPropertySupported/Deprecated are evaluated row by row, and the comparison itself is evaluated symbolically for "
           "the orderings of schema version and threshold (0, below, equal, above). (2) Every branch on such an answer is a gate; for each "
           "the control-flow graph gives what can only happen on the supported side (members written, results handed out, functions called), "
           "what the unsupported side undoes, and whether it ends in rejection. sa/data/versions.json states per gate and element class "
           "which of these must hold. Property names handed to shared helpers are resolved through their callers. (3) Direct comparisons of "
           "the DSL version are evaluated for every version 0..12.")
ASSUME = ["thresholds of the specification are those of sa/data/versions.json (reviewed copy)"]

NS = "commsdsl::parse::"
DATA = os.path.join(facts.VERIF, "sa", "data", "versions.json")
ASG = ("==", "!=", "<=", ">=")
FILL = {"push_back", "emplace_back", "insert", "assign", "append", "emplace", "reset", "swap", "clear", "erase"}


def nm(db, e):
    d = db.decls.get(core.callee(e))
    if d:
        return d["q"].rsplit("::", 1)[-1]
    f = db.fns.get(core.callee(e))
    return f.n if f else ""


class Gates:
    def __init__(self, db):
        self.db = db
        self.T = tables.get(db)
        self.S = status.get(db)
        self.eff = {}
        self._inner = {}
        self._inner_ids = set()
        self.thresholds = {}
        self.callers = {}
        for f in db.fns.values():
            if f.b and f.f.startswith("lib/src/parse"):
                for g in core.family(db, f):
                    for e in core.fn_exprs(g):
                        if e[0] == "call":
                            self.callers.setdefault(core.callee(e), []).append((g, e))

    # ---- effects
    def node_effects(self, f, n, depth):
        r = set()
        if n.e is None:
            return r
        outs = {p[0] for p in f.p or () if p[2].endswith("&") and not p[2].startswith("const ")}
        for e in core.walk_eval(n.e):
            t = None
            if e[0] in ("bin", "op") and e[3].endswith("=") and e[3] not in ASG:
                t = e[4] if e[0] == "bin" else e[5][0]
            elif e[0] == "call":
                name = nm(self.db, e)
                o = core.strip(e[5]) if len(e) > 5 and isinstance(e[5], list) else None
                if o is not None and name in FILL:
                    t = e[5]
                if o is None or o[0] == "this" or True:
                    tg = self.db.fns.get(core.callee(e))
                    if tg and tg.b and tg.f.startswith("lib/src/parse"):
                        if "Log" not in tg.n and not tg.n.startswith("parseIs") and not tg.n.endswith("Str"):
                            r.add("call:" + tg.n)
                            if depth and (tg.cls == f.cls or o is None or o[0] == "this"):
                                for x in self.effects(tg.id, depth - 1):
                                    if x != "out":
                                        r.add(x)
                    # address of a member handed out
                for a in e[4] or []:
                    x = core.strip_implicit(a)
                    if x and x[0] == "mem" and tg_out(self.db, e, a):
                        m = mem_of(x)
                        if m:
                            r.add("w:" + m)
            x = core.strip(t) if t is not None else None
            while x is not None and x[0] in ("idx", "un"):
                x = core.strip(x[3] if x[0] == "idx" else x[4])
            if x is not None:
                if x[0] == "mem":
                    m = mem_of(x)
                    if m:
                        r.add("w:" + m)
                        if e[0] == "bin" and e[3] == "=":
                            c = core.strip(e[5])
                            if c and c[0] == "bool":
                                r.add("set:%s:%d" % (m, c[2]))
                elif x[0] == "v" and x[3] in outs:
                    r.add("out")
        if n.k == "ret":
            x = core.strip(n.e)
            r.add("ret:" + ("true" if x[0] == "bool" and x[2] else "false" if x[0] == "bool" else "value"))
        return r

    def effects(self, fid, depth=2):
        k = (fid, depth)
        if k not in self.eff:
            self.eff[k] = set()
            f = self.db.fns[fid]
            r = set()
            for g in core.family(self.db, f):
                c = core.cfg(self.db, g, asserts=False)
                for n in c.nodes:
                    r |= {x for x in self.node_effects(g, n, depth) if not x.startswith("ret:")}
            self.eff[k] = r
        return self.eff[k]

    # ---- gates
    def gate_of(self, f, e, depth=0):
        """[(gate name, calling class)] if the branch atom e asks whether something is supported"""
        if e[0] == "v" and depth < 2:
            i = self.local_init(f, e[3])
            i = core.strip(i) if i else None
            return self.gate_of(f, i, depth + 1) if i else []
        if e[0] != "call":
            return []
        name = nm(self.db, e)
        d = self.db.decls.get(core.callee(e)) or {}
        q = d.get("q") or ""
        if not q.startswith(NS):
            return []
        if "ParseProtocolImpl::" in q:
            if name in ("parseIsPropertySupported", "parseIsPropertyDeprecated"):
                return [(("prop:" if name.endswith("ported") else "depr:") + k, c) for k, c in self.keys(f, e[4][0])]
            if name in self.thresholds:
                return [("feature:" + name, core.root_fn(self.db, f).cls)]
            return []
        # a helper without effects that answers with the gate
        t = self.db.fns.get(core.callee(e))
        if t and t.b and depth < 2 and t.f.startswith("lib/src/parse") and t.types and self.pure(t):
            r = []
            for g, n in self.inner(t):
                for name, c in g:
                    r.append((name, core.root_fn(self.db, f).cls))
            return r
        return []

    def pure(self, t):
        return not any(x.startswith("w:") or x == "out" for x in self.effects(t.id, 1))

    def inner(self, t):
        if t.id not in self._inner:
            self._inner[t.id] = []
            r = []
            g = core.cfg(self.db, t, asserts=False)
            for n in g.nodes:
                if n.e is None or n.k not in ("br", "ret"):
                    continue
                e = core.strip(n.e)
                gs = self.gate_of(t, e, 1) if e[0] == "call" else []
                if gs and (n.k == "ret" or self.rets(g, n, False) == {"ret:false"}):
                    r.append((gs, n))
            self._inner[t.id] = r
        return self._inner[t.id]

    def rets(self, g, n, lab):
        """return kinds reachable from the lab edge of n"""
        seen, work, r = set(), [t for t, l in n.succ if l == lab or l is None], set()
        while work:
            m = work.pop()
            if m.i in seen:
                continue
            seen.add(m.i)
            if m.k == "ret":
                r |= {x for x in self.node_effects(g.fn, m, 0) if x.startswith("ret:")}
            if m.k == "endfn":
                r.add("ret:void")
            work += [t for t, _ in m.succ]
        return r

    def local_init(self, f, vid):
        r = core.root_fn(self.db, f)
        for g in core.family(self.db, r):
            for s in core.stmts(g.b) if g.b else ():
                if s[0] == "decl":
                    for v in s[2]:
                        if v[0] == vid:
                            return v[3]
        return None

    def keys(self, f, a, depth=0):
        v = self.T.ev(f, a)
        if v and v[0] == "s":
            return {(v[1], core.root_fn(self.db, f).cls)}
        x = core.strip(a)
        r = set()
        if x and x[0] == "v" and depth < 4:
            for i, p in enumerate(f.p or ()):
                if p[0] == x[3]:
                    for g, e in self.callers.get(f.id, ()):
                        if i < len(e[4]):
                            r |= self.keys(g, e[4][i], depth + 1)
        return r

    def sites(self):
        """(gate, class) -> [site]"""
        res = {}
        for f in self.db.fns.values():
            if not f.b or not f.f.startswith("lib/src/parse") or f.cls == NS + "ParseProtocolImpl" and f.n.startswith("parseIs"):
                continue
            if f.id in self._inner_ids:
                continue
            g = core.cfg(self.db, f, asserts=False)
            for n in g.nodes:
                if n.k not in ("br", "ret", "d", "e") or n.e is None:
                    continue
                e = core.strip(n.e)
                if n.k == "br":
                    gs = self.gate_of(f, e)
                    if gs:
                        full = self.reach(f, g, None)
                        dom = full - self.reach(f, g, (n.i, True))
                        d0 = self.db.decls.get(core.callee(e)) or {} if e[0] == "call" else {}
                        wrap = e[0] == "call" and "ParseProtocolImpl::" not in (d0.get("q") or "")
                        site = {"f": f, "ln": n.ln, "wrap": wrap, "dom": dom, "un": self.region(f, g, n, False), "sup": self.region(f, g, n, True),
                                "rej": self.rets(g, n, False) == {"ret:false"}}
                        for name, c in gs:
                            res.setdefault((name, (c or "").replace(NS, "")), []).append(site)
                else:
                    for y in core.walk_eval(n.e):
                        if y[0] != "call":
                            continue
                        for name, c in self.gate_of(f, y):
                            tgt = None
                            if n.k == "e" and e[0] == "bin" and e[3] == "=":
                                l = core.strip(e[4])
                                tgt = mem_of(l) if l and l[0] == "mem" else None
                            if tgt:
                                neg = any(z[0] == "un" and z[3] == "!" for z in core.walk(e[5]))
                                site = {"f": f, "ln": n.ln, "dom": {"value:%s:%s" % (tgt, "not" if neg else "is")}, "un": set(), "sup": set(), "rej": False}
                                res.setdefault((name, (c or "").replace(NS, "")), []).append(site)
        return res

    def region(self, f, g, n, lab):
        """Effects reachable from the lab edge of n"""
        seen, work, r = set(), [t for t, l in n.succ if l == lab], set()
        while work:
            m = work.pop()
            if m.i in seen:
                continue
            seen.add(m.i)
            r |= self.node_effects(f, m, 2)
            work += [t for t, _ in m.succ]
        return r

    def reach(self, f, g, cut):
        """Effects reachable from the entry when edge cut = (node, label) is removed."""
        seen, work, r = set(), [g.entry], set()
        while work:
            n = work.pop()
            if n.i in seen:
                continue
            seen.add(n.i)
            r |= self.node_effects(f, n, 2)
            for t, l in n.succ:
                if cut and n.i == cut[0] and l == cut[1]:
                    continue
                work.append(t)
        return r


def mem_of(x):
    p = []
    while x and x[0] == "mem":
        p.append(x[3].rsplit("::", 1)[-1])
        x = core.strip(x[4])
    return ".".join(q for q in reversed(p) if q not in ("m_state", "m_rState"))


def tg_out(db, e, a):
    t = db.fns.get(core.callee(e)) or None
    p = None
    if t and t.p:
        i = [k for k, x in enumerate(e[4]) if x is a][0]
        if i < len(t.p):
            p = t.p[i][2]
    return bool(p) and p.endswith("&") and not p.startswith("const ")


# ---- evaluation of the version functions
class Unknown(Exception):
    pass


def value(G, f, e, env, depth=0):
    """Value of an expression over integers and booleans; env: {"ver": schema version, parameter id: value}."""
    e = core.strip(e)
    if e is None or depth > 8:
        raise Unknown()
    k = e[0]
    if k == "int":
        return int(e[3])
    if k == "bool":
        return bool(e[2])
    if k == "v":
        if e[3] in env:
            return env[e[3]]
        i = G.local_init(f, e[3])
        if i:
            return value(G, f, i, env, depth + 1)
        raise Unknown()
    if k == "gv":
        g = G.db.globals.get(e[3])
        if g and g.get("init"):
            return value(G, f, g["init"], env, depth + 1)
        raise Unknown()
    if k == "mem" and e[3].endswith("m_dslVersion"):
        return env["ver"]
    if k == "call":
        name = nm(G.db, e)
        if name == "parseDslVersion":
            return env["ver"]
        t = G.db.fns.get(core.callee(e))
        if t and t.b and t.p is not None and len(t.p) == len(e[4]):
            return result(G, t, dict([("ver", env["ver"])] + [(p[0], value(G, f, a, env, depth + 1)) for p, a in zip(t.p, e[4])]), depth + 1)
        if t and t.b and not t.p:
            return result(G, t, {"ver": env["ver"]}, depth + 1)
        raise Unknown()
    if k == "bin":
        op = e[3]
        if op == "&&":
            return bool(value(G, f, e[4], env, depth)) and bool(value(G, f, e[5], env, depth))
        if op == "||":
            return bool(value(G, f, e[4], env, depth)) or bool(value(G, f, e[5], env, depth))
        a, b = value(G, f, e[4], env, depth), value(G, f, e[5], env, depth)
        fn = {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b,
              "+": lambda: a + b, "-": lambda: a - b}.get(op)
        if fn:
            return fn()
    if k == "un" and e[3] == "!":
        return not value(G, f, e[4], env, depth)
    if k == "cond":
        return value(G, f, e[4] if value(G, f, e[3], env, depth) else e[5], env, depth)
    raise Unknown()


def result(G, f, env, depth=0):
    """Result of a loop-free function under env."""
    g = core.cfg(G.db, f, asserts=False)
    n, env = g.entry, dict(env)
    for _ in range(400):
        if n.k == "ret":
            return value(G, f, n.e, env, depth)
        if n.k == "br":
            v = bool(value(G, f, n.e, env, depth))
            n = [t for t, l in n.succ if l == v][0]
            continue
        if n.k == "d" and n.e is not None:
            try:
                env[n.x[0]] = value(G, f, n.e, env, depth)
            except Unknown:
                env.pop(n.x[0], None)
        elif n.k == "e":
            e = core.strip(n.e)
            if e[0] == "bin" and e[3] == "=":
                l = core.strip(e[4])
                if l and l[0] == "v":
                    env[l[3]] = value(G, f, e[5], env, depth)
        if not n.succ:
            raise Unknown()
        n = n.succ[0][0]
    raise Unknown()


MAXV = 13


def threshold(G, f, env=None, invert=False):
    """Smallest version v such that the function answers true exactly for 0 and every version >= v; None if it is no threshold."""
    vals = [result(G, f, dict(env or {}, ver=v)) for v in range(MAXV)]
    return shape(vals, invert)


def shape(vals, invert=False):
    if invert:
        # deprecated from v on, never for 0
        if vals[0]:
            return None
    elif not vals[0]:
        return None
    on = [v for v in range(1, MAXV) if vals[v]]
    if not on:
        return 99
    if on != list(range(on[0], MAXV)):
        return None
    return on[0]


def prop_rows(G, f):
    """{property: number} of the static map of f"""
    T = G.T
    for g in core.family(G.db, f):
        for s in core.stmts(g.b):
            if s[0] == "decl":
                for v in s[2]:
                    if v[3]:
                        val = T.ev(g, v[3])
                        rows = T.rows(T.unwrap(val)) if val else None
                        if rows and len(rows) > 2:
                            r = {}
                            for row in rows:
                                if len(row) == 2 and row[0] and row[0][0] == "s":
                                    r[row[0][1]] = row[1][1] if row[1] and isinstance(row[1][1], int) else None
                            if r:
                                return r
    return None


def analyse(db):
    G = Gates(db)
    th, props, depr = {}, None, None
    base = {}
    for f in db.fns.values():
        if f.cls != NS + "ParseProtocolImpl" or not f.b or not f.n.startswith("parseIs"):
            continue
        if f.n in ("parseIsFeatureSupported", "parseIsFeatureDeprecated"):
            base[f.n] = f
        elif f.n == "parseIsPropertySupported":
            props = (f, prop_rows(G, f))
        elif f.n == "parseIsPropertyDeprecated":
            depr = (f, prop_rows(G, f))
        elif not f.p:
            try:
                th[f.n] = (f, threshold(G, f))
            except Unknown:
                pass
    G.thresholds = th
    return G, th, props, depr, base


def records(sites):
    """Frozen form of the sites of one (gate, class)."""
    out = []
    for s in sites:
        if s.get("wrap"):
            continue
        dom = sorted(x for x in s["dom"] if x.startswith(("w:", "out", "value:")))
        if s["rej"]:
            out.append({"kind": "reject", "fn": s["f"].n})
        elif dom:
            out.append({"kind": "block", "fn": s["f"].n, "effects": dom[:12]})
        else:
            undo = sorted(x for x in s["un"] - s["sup"] if x.startswith("w:"))
            calls = sorted(x for x in s["dom"] if x.startswith("call:"))
            if undo:
                out.append({"kind": "undo", "fn": s["f"].n, "effects": undo})
            elif calls:
                out.append({"kind": "block", "fn": s["f"].n, "effects": calls[:12]})
            elif s["un"] != s["sup"]:
                out.append({"kind": "differs", "fn": s["f"].n, "sup": sorted(s["sup"] - s["un"])[:8], "un": sorted(s["un"] - s["sup"])[:8]})
    return out


def fits(rec, s):
    if rec["kind"] == "reject":
        return s["rej"]
    if rec["kind"] == "undo":
        e = set(rec["effects"])
        return e <= s["un"] - s["sup"] or e <= s["dom"] or s["rej"]
    if rec["kind"] == "block":
        e = set(rec["effects"])
        return s["rej"] or any(x in s["dom"] for x in e) and not any(x in s["un"] and x not in s["dom"] and x != "out" for x in e)
    return set(rec["sup"]) & (s["sup"] - s["un"]) or set(rec["un"]) & (s["un"] - s["sup"]) or s["rej"]


def freeze(db):
    G, th, props, depr, base = analyse(db)
    sites = G.sites()
    d = {"features": {n: t for n, (f, t) in sorted(th.items())}, "props": props[1], "deprecated": depr[1], "gates": {}}
    for (name, c), ss in sorted(sites.items()):
        if name.startswith("prop:") and name[5:] not in props[1] or name.startswith("depr:") and name[5:] not in depr[1]:
            continue
        r = records(ss)
        if r:
            d["gates"]["%s|%s" % (name, c)] = r
    return d


def run(db, rep, thorough):
    D = json.load(open(DATA))
    G, th, props, depr, base = analyse(db)
    loc = lambda f: "%s:%d" % (f.f, f.l)
    n = 0
    for name, want in sorted(D["features"].items()):
        if name not in th:
            f = [x for x in db.fns.values() if x.cls == NS + "ParseProtocolImpl" and x.n == name]
            if f and f[0].b:
                raise AnalysisBroken("cannot evaluate %s" % name)
            rep.note("feature function %s no longer exists" % name)
            continue
        n += 1
        f, got = th[name]
        if got != want:
            rep.violation("threshold." + name, loc(f), "threshold",
                          "%s answers true %s, the feature belongs to DSL version %s and above (and to 0)" % (
                              name, "from version %s on" % got if got else "for a set of versions that is no threshold", want))
    rep.set("feature thresholds", n, 20)
    for what, cur, want in (("supported", props, D["props"]), ("deprecated", depr, D["deprecated"])):
        if not cur or cur[1] is None:
            raise AnalysisBroken("property version table (%s) not found" % what)
        f, rows = cur
        for k, v in sorted(want.items()):
            if rows.get(k) != v:
                rep.violation("table.%s.%s" % (what, k), loc(f), "threshold", "%s gives version %s for the property '%s', the specification says %s" % (
                    f.n, rows.get(k), k, v))
        rep.count("property thresholds", len(rows))
    rep.floor("property thresholds", 22)
    # the comparison itself
    for name, inv in (("parseIsFeatureSupported", False), ("parseIsFeatureDeprecated", True)):
        f = base.get(name)
        if not f:
            raise AnalysisBroken(name + " not found")
        for m in (1, 2, 5, 8):
            try:
                got = threshold(G, f, {f.p[0][0]: m}, inv)
            except Unknown:
                raise AnalysisBroken("cannot evaluate " + name)
            if got != m:
                rep.violation("compare." + name, loc(f), "compare",
                              "%s(%d) does not mean 'version %d and above%s'" % (name, m, m, "" if inv else ", or 0"))
                break
        rep.count("comparison functions", 1)
    # property functions hand the row's number to the comparison
    for (f, rows), cmp in ((props, "parseIsFeatureSupported"), (depr, "parseIsFeatureDeprecated")):
        calls = [e for e in core.all_exprs(db, f) if e[0] == "call" and nm(db, e).startswith("parseIsFeature")]
        if not calls or any(nm(db, e) != cmp for e in calls):
            rep.violation("compare." + f.n, loc(f), "compare", "%s does not compare the row's version with %s" % (f.n, cmp))
    # gates
    sites = G.sites()
    ng = 0
    for key, recs in sorted(D["gates"].items()):
        name, c = key.split("|")
        cur = list(sites.get((name, c), ()))
        ng += len(recs)
        used = []
        for r in recs:
            m = None
            order = sorted(range(len(cur)), key=lambda i: (cur[i]["f"].n != r["fn"]))
            for i in order:
                if i not in used and fits(r, cur[i]):
                    m = i
                    break
            if m is None:
                # moved into a common caller or helper: one gate may stand for several
                fns = {x["fn"] for x in recs}
                for i in order:
                    if cur[i]["f"].n not in fns and fits(r, cur[i]):
                        m = i
                        break
            if m is None:
                f = [x for x in db.fns.values() if x.n == r["fn"] and x.b and (x.cls or "").replace(NS, "") == c] or \
                    [x for x in db.fns.values() if x.n == r["fn"] and x.b and x.f.startswith("lib/src/parse")]
                w = loc(f[0]) if f else "lib/src/parse/%s.cpp" % c
                what = name.split(":", 1)[1]
                eff = ", ".join(x.replace("w:", "").replace("call:", "") for x in r.get("effects", ())[:3])
                rep.violation("gate.%s.%s.%s" % (name, c, r["fn"]), w, "gate", {
                    "reject": "%s in %s no longer rejects what needs '%s' when the DSL version does not support it",
                    "undo": "%s in %s no longer undoes what needs '%s' when the DSL version does not support it",
                }.get(r["kind"], "%s in %s takes effect without '%s' being supported by the DSL version") % (r["fn"], c, what)
                    + (" (%s)" % eff if eff else ""))
            else:
                used.append(m)
                rep.sample("gates", "%s: %s %s" % (key, r["kind"], ",".join(r.get("effects", ())[:3])), 20)
    rep.set("gates", ng, 85)
    direct(db, rep, G)


def direct(db, rep, G):
    """comparisons of the version outside ParseProtocolImpl: the schema's own displayName"""
    n = 0
    for f in db.fns.values():
        if f.cls != NS + "ParseSchemaImpl" or not f.b:
            continue
        g = core.cfg(db, f, asserts=False)
        tests = [x for x in g.nodes if x.k == "br" and any(y[0] == "mem" and y[3].endswith("m_dslVersion") for y in core.walk(x.e))]
        if not tests or f.n != "parseUpdateDisplayName":
            continue
        clr = []
        for v in range(MAXV):
            seen, work, hit = set(), [g.entry], False
            after = False
            while work:
                x = work.pop()
                if x.i in seen:
                    continue
                seen.add(x.i)
                for e in core.walk_eval(x.e) if x.e is not None else ():
                    if e[0] == "call" and nm(db, e) == "clear" or e[0] == "op" and e[3] == "=" and "m_displayName" in str(e[5][0]):
                        hit = True
                if x.k == "br" and x in tests:
                    try:
                        b = bool(value(G, f, x.e, {"ver": v}))
                        work += [t for t, l in x.succ if l == b]
                        continue
                    except Unknown:
                        pass
                work += [t for t, _ in x.succ]
            clr.append(hit)
        n += 1
        if clr != [1 <= v < 7 for v in range(MAXV)]:
            rep.violation("direct.displayName", "%s:%d" % (f.f, f.l), "threshold",
                          "the schema's displayName is ignored for the DSL versions %s instead of 1..6" % [v for v in range(MAXV) if clr[v]])
    rep.set("direct version comparisons", n, 1)
