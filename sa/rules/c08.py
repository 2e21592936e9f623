"""C08: reuse and copying transfer the complete definition."""
from sa import core, facts, status, tables
from sa.facts import AnalysisBroken

RULE = ("must-transfer dataflow over every copy constructor, copy assignment, parseReuseImpl and parseCheckReuse: on each successful path "
        "every data member of the class has received the corresponding member of the original (or the original's is empty)")
EXPLAIN = ("For every user-written copy operation of the parse classes (copy constructors, copy assignments, overrides of "
           "ParseFieldImpl::parseReuseImpl, the parseCheckReuse functions and the helpers they hand the original to) the control-flow "
           "graph is explored with the set of members already transferred. A member counts as transferred when it is initialised from, "
           "assigned from, or filled with clones of the same member of the original, or when the branch taken says that the original's "
           "member is empty; a loop over the original's list must transfer the element in every iteration. Further: every concrete class "
           "clones itself as its own type, every class with members of its own that can be reused overrides parseReuseImpl, reuse precedes "
           "every other write of the definition in parse(), nothing but the documented overrides is dropped after the transfer, an absent "
           "property does not reset a reused value, and raw pointers in the copied state only refer to globally registered fields.")
ASSUME = ["the free attributes and elements kept for injection (m_extraAttrs, m_extraChildren) of messages and interfaces are not part of "
          "the reusable definition; identity members (XML node, protocol, parent, property map) stay the element's own",
          "the code-override policy of an element (the xxxOverride properties) is its own and is not inherited on reuse",
          "unique_ptr members cannot be shared: the type system rules out a copy of the pointer"]

NS = "commsdsl::parse::"
FILL = {"push_back", "emplace_back", "insert", "assign", "append", "push_front", "emplace", "reset", "swap"}
KILL = {"clear", "reset", "erase", "pop_back", "resize"}
# member -> property that may switch its reuse off
OVERRIDE = {"m_aliases": "reuseAliases"}
FEATURE = {"parseIsFieldAliasSupported": "m_aliases"}
REPLACED = {"m_copyCodeFrom"}     # decided by reuseCode alone
IDENT = {"m_node", "m_protocol", "m_parent", "m_props", "m_extraAttrs", "m_extraChildren"}


def ctype(fn, t):
    s = fn.types[t] if isinstance(t, int) else t
    return s.replace("const ", "").replace("&", "").replace("*", "").replace("const", "").strip()


def short(m):
    return m.rsplit("::", 1)[-1]


class Copy:
    """Must-transfer analysis of one function; other: {var id} standing for the original."""

    def __init__(self, db, f, cls, other, depth=0, active=None, late=False):
        self.db, self.f, self.cls = db, f, cls
        self.T = tables.get(db)
        self.S = status.get(db)
        self.depth = depth
        self.active = active if active is not None else {}
        self.other = set(other)
        self.late = late            # the original is a local: nothing is required before it is found
        self.src = {}               # local -> set of member paths of the original it derives from
        self.dst = {}               # local -> member path of this object (reference)
        self.flags = {}             # local bool -> property name
        self.fam = core.family(db, f)
        self.fields = [x["name"] for x in db.records[cls]["fields"]] if cls in db.records else []
        self.own = {NS_ + x["name"] for NS_ in [cls + "::"] for x in (db.records[cls]["fields"] if cls in db.records else [])}
        self._env()

    # ---- paths
    def root_path(self, e, root):
        """Path of members when e is  <root>.a.b  (root: predicate on the innermost expression)."""
        e = core.strip(e)
        p = []
        while e is not None:
            if root(e):
                return tuple(reversed(p))
            if e[0] == "mem":
                p.append(short(e[3]))
                e = core.strip(e[4])
                continue
            if e[0] == "un" and e[3] == "*":
                e = core.strip(e[4])
                continue
            return None
        return None

    def is_this(self, e):
        return e[0] == "this"

    def is_other(self, e):
        return e[0] == "v" and e[3] in self.other

    def dpath(self, e):
        e0 = core.strip(e)
        if e0 is None:
            return None
        if e0[0] == "v" and e0[3] in self.dst:
            return self.dst[e0[3]]
        p = self.root_path(e0, self.is_this)
        if p:
            return p
        # through a reference local
        p = self.root_path(e0, lambda x: x[0] == "v" and x[3] in self.dst)
        if p is not None:
            e1 = e0
            while e1[0] != "v":
                e1 = core.strip(e1[4])
            return self.dst[e1[3]] + p
        return None

    def getter(self, e):
        """Member path an accessor called on the original returns."""
        c = core.callee(e)
        if e[0] == "op" or len(e) < 6 or not isinstance(e[5], list):
            return None
        o = core.strip(e[5])
        while o and o[0] == "un" and o[3] == "*":
            o = core.strip(o[4])
        if not o or not self.is_other(o):
            return None
        cls = ctype(self.f, o[2])
        return self.returned(self.f, e, cls)

    def returned(self, f, e, cls, depth=0):
        """Path of the member a call (on an object of class cls) gives back, through forwarding accessors."""
        ts = [self.db.fns[t] for t in self.S.targets(f, e) or () if t in self.db.fns and self.db.fns[t].b]
        own = [g for g in ts if g.cls == cls]
        for g in own or ts:
            for s in core.stmts(g.b):
                if s[0] == "ret" and s[2]:
                    p = self.root_path(s[2], lambda x: x[0] == "this")
                    if p:
                        return p
                    x = core.strip(s[2])
                    if x and x[0] == "call" and depth < 3 and len(x) > 5 and isinstance(x[5], list):
                        o = core.strip(x[5])
                        if o and o[0] == "this":
                            p = self.returned(g, x, cls, depth + 1)
                            if p:
                                return p
        return None

    def sources(self, e):
        """Member paths of the original mentioned in e."""
        r = set()
        st = [e]
        while st:
            x = st.pop()
            if not isinstance(x, list) or not x:
                continue
            if isinstance(x[0], str):
                if x[0] == "mem":
                    p = self.root_path(x, self.is_other)
                    if p:
                        r.add(p)
                        continue
                    b = core.strip(x[4])
                    if b and b[0] == "v" and b[3] in self.src:
                        for q in self.src[b[3]]:
                            r.add(q + (short(x[3]),) if q in self.refsrc.get(b[3], ()) else q)
                        continue
                elif x[0] == "v" and x[3] in self.src:
                    r |= self.src[x[3]]
                    continue
                elif x[0] == "call":
                    p = self.getter(x)
                    if p:
                        r.add(p)
            st.extend(core.kids(x))
        return r

    def _env(self):
        self.refsrc = {}
        for _ in range(4):
            for g in self.fam:
                for s in core.stmts(g.b) if g.b else ():
                    vs = []
                    if s[0] == "decl":
                        vs = [(v[0], v[3]) for v in s[2] if v[3]]
                    elif s[0] == "if" and s[3] and s[3][3]:
                        vs = [(s[3][0], s[3][3])]
                    elif s[0] == "rfor":
                        v = s[2]
                        if v:
                            self.src.setdefault(v[0], set()).update(self.sources(s[3]))
                            if not self.src[v[0]]:
                                del self.src[v[0]]
                        continue
                    for vid, ini in vs:
                        i = core.strip(ini)
                        if not i:
                            continue
                        p = self.root_path(i, self.is_other)
                        if p == ():
                            self.other.add(vid)
                            continue
                        if p:
                            self.src.setdefault(vid, set()).add(p)
                            self.refsrc.setdefault(vid, set()).add(p)
                            continue
                        d = self.dpath(i)
                        if d:
                            self.dst[vid] = d
                            continue
                        q = self.sources(i)
                        if q:
                            self.src.setdefault(vid, set()).update(q)
                # a local container filled with clones
                for e in core.fn_exprs(g):
                    if e[0] == "call" and len(e) > 5 and isinstance(e[5], list):
                        o = core.strip(e[5])
                        if o and o[0] == "v" and o[3] not in self.other and self.name(e) in FILL and o[3] not in self.dst:
                            q = set()
                            for a in e[4]:
                                q |= self.sources(a)
                            if q:
                                self.src.setdefault(o[3], set()).update(q)
        for g in self.fam:
            for e in core.fn_exprs(g):
                if e[0] == "call" and self.name(e) == "parseValidateAndUpdateBoolPropValue" and len(e[4]) > 1:
                    v = self.T.ev(g, e[4][0])
                    x = core.strip(e[4][1])
                    if v and v[0] == "s" and x and x[0] == "v":
                        self.flags[x[3]] = v[1]

    def name(self, e):
        c = core.callee(e)
        d = self.db.decls.get(c)
        if d:
            return d["q"].rsplit("::", 1)[-1]
        f = self.db.fns.get(c)
        return f.n if f else ""

    # ---- events of one node
    def events(self, n):
        """[("set", path) | ("kill", path) | ("part", name)]"""
        if n.e is None:
            return []
        if n.x and n.k == "e" and n.x[0] == "init":
            m = n.x[1]
            if m == "base":
                return [("base",)] if self.sources_root(n.e) else []
            name = short(m)
            if (name,) in self.sources(n.e):
                return [("set", (name,))]
            return []
        out = []
        for e in core.walk_eval(n.e):
            k = e[0]
            if k == "bin" and e[3] == "=" or k == "op" and e[3] == "=":
                l, r = (e[4], e[5]) if k == "bin" else (e[5][0], e[5][1])
                d = self.dpath(l)
                if d:
                    out.append(("set", d) if d in self.sources(r) else ("kill", d))
                    continue
                # a tuple of references on both sides
                a, b = core.strip(l), core.strip(r)
                if a and b and a[0] == "call" and b[0] == "call":
                    o1 = core.strip(a[5]) if len(a) > 5 and isinstance(a[5], list) else None
                    o2 = core.strip(b[5]) if len(b) > 5 and isinstance(b[5], list) else None
                    if o1 and o2 and self.is_this(o1) and self.is_other(o2) and self.name(a) == self.name(b):
                        for p in self.tuple_members(core.callee(a)) & self.tuple_members(core.callee(b)):
                            out.append(("set", p))
            elif k == "call":
                nm = self.name(e)
                o = core.strip(e[5]) if len(e) > 5 and isinstance(e[5], list) else None
                args = e[4] or []
                if o is not None:
                    d = self.dpath(o) if not self.is_this(o) else None
                    if d:
                        q = set()
                        for a in args:
                            q |= self.sources(a)
                        if nm in FILL and d in q:
                            out.append(("set", d))
                            continue
                        if nm in KILL and not q:
                            out.append(("kill", d))
                            continue
                    if d is None and o[0] == "v" and o[3] in self.src and nm in FILL:
                        # a local container on its way to the member takes the element
                        for a in args:
                            for p in self.sources(a):
                                out.append(("stash", p))
                    if nm == "swap" and args:
                        a = self.dpath(args[0])
                        if a and a in self.sources(e[5]):
                            out.append(("set", a))
                    if self.is_this(o):
                        for i, a in enumerate(args):
                            x = core.strip(a)
                            while x and x[0] == "un" and x[3] in ("*", "&"):
                                x = core.strip(x[4])
                            if x and self.is_other(x):
                                out.append(("part", nm))
                                for t in self.S.targets(self.f, e) or ():
                                    for p in summary(self.db, t, self.cls, i, self.depth + 1, self.active):
                                        out.append(("set", p))
                else:
                    ds, q = set(), set()
                    for a in args:
                        for x in core.walk(a):
                            if x[0] in ("mem", "v"):
                                p = self.dpath(x)
                                if p:
                                    ds.add(p)
                        q |= self.sources(a)
                    for p in ds & q:
                        out.append(("set", p))
        return out

    def sources_root(self, e):
        return any(x[0] == "v" and x[3] in self.other for x in core.walk(e))

    def tuple_members(self, fid, depth=0):
        f = self.db.fns.get(fid)
        r = set()
        if not f or not f.b or depth > 2:
            return r
        for e in core.fn_exprs(f):
            if e[0] == "mem":
                b = core.strip(e[4])
                if b and b[0] == "this":
                    r.add((short(e[3]),))
            elif e[0] == "call":
                t = self.db.fns.get(core.callee(e))
                if t and t.cls == f.cls and t.n == f.n and t.id != f.id:
                    r |= self.tuple_members(t.id, depth + 1)
        return r

    # ---- exploration
    def run(self):
        """[(missing, lost, killed, parts, path)] per successful exit; members: set of full paths"""
        g = core.cfg(self.db, self.f, asserts=False)
        exits = []

        def step(n, st):
            have, pend, lost, killed, parts, on, off = st
            if n.k in ("e", "d", "as", "ret", "br", "sw", "loop"):
                if not on and n.e is not None and (self.late is None or (n.k == "d" and n.x[0] in self.latevars)):
                    on = True
                ex = n.e
                for ev in self.events(n) if n.k != "loop" else ():
                    if ev[0] == "set":
                        have = have | {ev[1]}
                        pend = frozenset(p for p in pend if p[0] != ev[1])
                        killed = frozenset(k for k in killed if k != ev[1])
                    elif ev[0] == "stash":
                        pend = frozenset(p for p in pend if p[0] != ev[1])
                    elif ev[0] == "kill":
                        p = ev[1]
                        if p in have or any(p[:len(h)] == h for h in have):
                            if not (p[-1] in REPLACED or p[-1] in off):
                                killed = killed | {p}
                            elif p in have:
                                pass
                    elif ev[0] == "part":
                        parts = parts | {ev[1]}
                    elif ev[0] == "base":
                        parts = parts | {"<base>"}
            if n.k == "d" and n.e is not None and n.x[0] in self.src:
                # a local taking a whole clone/copy does not transfer yet
                pass
            base = (have, pend, lost, killed, parts, on, off)
            if n.k == "loop":
                q = self.sources(n.e)
                if q:
                    l2 = lost
                    p2 = pend
                    for m in q:
                        if (m, n.i) in pend:
                            l2 = l2 | {m}
                    inb = (have, frozenset(p for p in p2 if p[1] != n.i) | {(m, n.i) for m in q}, l2, killed, parts, on, off)
                    out = (have | q, frozenset(p for p in p2 if p[1] != n.i), l2, killed, parts, on, off)
                    return [(True, inb), (False, out)]
                return [("*", base)]
            if n.k == "br":
                e = core.strip(n.e)
                res = []
                q = self.sources(e)
                if q:
                    ex_lab = False
                    x = e
                    if x[0] == "call" and self.name(x) == "empty" or x[0] in ("bin", "op") and x[3] == "==":
                        ex_lab = True
                    for lab in (True, False):
                        if lab == ex_lab:
                            l2 = lost | {m for m in q if (m, n.i) in pend}
                            res.append((lab, (have | q, frozenset(p for p in pend if p[1] != n.i), l2, killed, parts, on, off)))
                        else:
                            l2 = lost | {m for m in q if (m, n.i) in pend}
                            res.append((lab, (have, frozenset(p for p in pend if p[1] != n.i) | {(m, n.i) for m in q},
                                              l2, killed, parts, on, off)))
                    return res
                m = None
                if e[0] == "v" and e[3] in self.flags:
                    for k, v in OVERRIDE.items():
                        if v == self.flags[e[3]]:
                            m = k
                elif e[0] == "call":
                    m = FEATURE.get(self.name(e))
                if m:
                    return [(True, base), (False, (have, pend, lost, killed, parts, on, off | {m}))]
                return [("*", base)]
            if n.k == "ret":
                x = core.strip(n.e) if n.e is not None else None
                if x is not None and x[0] == "bool" and not x[2]:
                    return []
            return [("*", base)]

        F0 = frozenset()
        for n, st, parent in core.explore(g, (F0, F0, F0, F0, F0, not self.late, F0), step, 400000):
            if n is g.exit:
                exits.append((st, core.path_lines(g, parent, n, st)))
        return exits

    latevars = ()


def covered(path, have):
    return any(path[:len(h)] == h for h in have)


def member_ok(db, cls, m, have, depth=0):
    """Member m (path) transferred as a whole or part by part."""
    if covered(m, have):
        return True
    if depth > 2:
        return False
    r = db.records.get(cls)
    fld = [x for x in r["fields"] if x["name"] == m[-1]] if r else []
    sub = db.records.get(fld[0].get("ty")) if fld else None
    if sub and sub["fields"] and sub["f"].startswith("lib/"):
        return all(member_ok(db, sub["q"], m + (x["name"],), have, depth + 1) for x in sub["fields"])
    return False


def summary(db, fid, cls, argi, depth, active):
    """Member paths a method transfers from its argument number argi on all its successful paths."""
    f = db.fns.get(fid)
    if not f or not f.b or depth > 3 or not f.p or argi >= len(f.p) or not f.f.startswith("lib/"):
        return frozenset()
    key = (fid, argi)
    if key in active:
        return active[key] or frozenset()
    active[key] = None
    c = f.cls if f.cls else cls
    r = None
    for st, _ in Copy(db, f, c, [f.p[argi][0]], depth, active).run():
        h = st[0] - st[2] - st[3]
        r = h if r is None else r & h
    active[key] = r or frozenset()
    return active[key]


def derived(db, base):
    r = {base}
    ch = True
    while ch:
        ch = False
        for q, rec in db.records.items():
            if q not in r and any(b in r for b in rec.get("bases") or ()):
                r.add(q)
                ch = True
    return r


def judge(db, rep, f, cls, C, required, kind, exempt=()):
    ex = C.run()
    if not ex:
        raise AnalysisBroken("no successful path through " + f.q)
    bad = {}
    for st, path in ex:
        have, pend, lost, killed, parts, on, off = st
        if not on:
            continue
        for m in required:
            if m in off or m in exempt:
                continue
            if not member_ok(db, cls, (m,), have):
                bad.setdefault((m, "skips"), path)
        for m in lost:
            if m[0] in required and m[-1] not in off:
                bad.setdefault((".".join(m), "misses elements of"), path)
        for m in killed:
            bad.setdefault((".".join(m), "drops"), path)
    for (m, how), path in sorted(bad.items()):
        rep.violation("%s.%s" % (cls.replace(NS, ""), m), "%s:%d" % (f.f, f.l), kind,
                      "%s %s %s of the original: the copied definition is incomplete" % (f.q.replace(NS, ""), how, m),
                      ["%s:%s" % (f.f, l) for l in path])
    return len(required)


def run(db, rep, thorough):
    T = tables.get(db)
    S = status.get(db)
    nobl = nops = 0
    rec = {q: r for q, r in db.records.items() if q.startswith(NS) and r["f"].startswith("lib/")}
    # user-written copy constructors and assignments
    seen = set()
    for f in db.fns.values():
        if not f.b or f.cls not in rec or not f.p or len(f.p) != 1 or f.id in seen:
            continue
        if f.parent and f.parent in db.fns:
            continue
        t = f.p[0][2]
        if ctype(f, t) != f.cls or "&&" in t:
            continue
        isctor = f.n == f.cls.rsplit("::", 1)[-1] and f.inits is not None
        isasg = f.n == "operator="
        if not (isctor or isasg):
            continue
        d = db.decls.get(f.id) or {}
        seen.add(f.id)
        fields = [x["name"] for x in rec[f.cls]["fields"]]
        C = Copy(db, f, f.cls, [f.p[0][0]])
        if isctor and rec[f.cls]["bases"]:
            nobl += 1
            if not any(i[0] == "base" and C.sources_root(i[2]) for i in f.inits if i[2]):
                rep.violation(f.cls.replace(NS, "") + ".<base>", "%s:%d" % (f.f, f.l), "copy",
                              "%s does not copy its base class: everything the base holds is reset" % f.q.replace(NS, ""))
        nops += 1
        nobl += judge(db, rep, f, f.cls, C, fields, "copy")
        rep.sample("copy operations", "%s (%d members)" % (f.q.replace(NS, "") + ("" if isctor else " of " + f.cls.replace(NS, "")), len(fields)), 30)
    # parseReuseImpl
    fam = derived(db, NS + "ParseFieldImpl")
    reuse = {f.cls: f for f in db.fns.values() if f.n == "parseReuseImpl" and f.b and f.cls in fam}
    for c in sorted(fam):
        if c == NS + "ParseFieldImpl":
            continue
        fields = [x["name"] for x in rec[c]["fields"]] if c in rec else []
        f = reuse.get(c)
        if f is None:
            if fields:
                rep.violation(c.replace(NS, "") + ".parseReuseImpl", "%s:%d" % (rec[c]["f"], rec[c]["l"]), "reuse",
                              "%s has members of its own but does not take them over on reuse" % c.replace(NS, ""))
            continue
        nops += 1
        nobl += judge(db, rep, f, c, Copy(db, f, c, [f.p[0][0]]), fields, "reuse")
        rep.sample("reuse operations", "%s (%d members)" % (f.q.replace(NS, ""), len(fields)), 30)
    # parseCheckReuse
    ncheck = 0
    for f in [x for x in db.fns.values() if x.n == "parseCheckReuse" and x.b and x.cls in rec]:
        lv = []
        for s in core.stmts(f.b):
            if s[0] == "decl":
                for v in s[2]:
                    ty = f.types[v[2]] if isinstance(v[2], int) else v[2]
                    if ctype(f, ty) == f.cls and ("*" in ty or "&" in ty):
                        lv.append(v[0])
            elif s[0] == "if" and s[3]:
                ty = f.types[s[3][2]]
                if ctype(f, ty) == f.cls:
                    lv.append(s[3][0])
        if not lv:
            raise AnalysisBroken(f.q + ": no local holding the reused element")
        C = Copy(db, f, f.cls, lv, late=True)
        C.latevars = set(lv)
        ncheck += 1
        nops += 1
        nobl += judge(db, rep, f, f.cls, C, ["m_state"], "reuse")
        need = {"parseReuseState"} | ({"parseReuseImpl"} if f.cls == NS + "ParseFieldImpl" else set())
        for st, path in C.run():
            if st[5]:
                # transitively: helpers receiving the original
                miss = need - closure_parts(db, S, f, st[4])
                for m in sorted(miss):
                    rep.violation("%s.%s" % (f.cls.replace(NS, ""), m), "%s:%d" % (f.f, f.l), "reuse",
                                  "%s finishes without %s of the reused element" % (f.q.replace(NS, ""), m), ["%s:%s" % (f.f, l) for l in path])
                nobl += len(need)
    rep.set("parseCheckReuse functions", ncheck, 3)
    # ParseObject::parseReuseState
    for f in [x for x in db.fns.values() if x.q == NS + "ParseObject::parseReuseState" and x.b]:
        nops += 1
        nobl += judge(db, rep, f, f.cls, Copy(db, f, f.cls, [f.p[0][0]]), ["m_rState"], "reuse")
    rep.set("copy and reuse operations", nops, 21)
    rep.set("member obligations", nobl, 75)
    clones(db, rep, rec)
    order(db, rep, S, rec)
    copies(db, rep, rec)
    raw(db, rep, rec)
    absent(db, rep, rec, T, S)
    aliasref(db, rep, S)


def closure_parts(db, S, f, parts):
    r = set(parts)
    work = [g for g in db.fns.values() if g.n in r and g.cls == f.cls and g.b]
    for g in work:
        for e in core.all_exprs(db, g):
            if e[0] == "call":
                t = db.decls.get(core.callee(e))
                if t:
                    r.add(t["q"].rsplit("::", 1)[-1])
    return r


def clones(db, rep, rec):
    """every concrete class clones itself as itself"""
    n = 0
    for f in db.fns.values():
        if f.n != "parseCloneImpl" or not f.b or f.cls not in rec:
            continue
        n += 1
        ok = False
        for e in core.all_exprs(db, f):
            ty = None
            if e[0] == "new":
                ty = e
            elif e[0] == "call" and "make_unique" in str(core.callee(e)):
                ty = e
            if ty is not None:
                names = [x for x in core.walk(e) if x[0] == "ctor"]
                for x in names:
                    if ctype(f, x[2]) == f.cls and x[5] == "copy" and any(y[0] == "this" for y in core.walk(x)):
                        ok = True
                if e[0] == "call" and f.cls in (f.types[e[2]] if isinstance(e[2], int) else "") and any(y[0] == "this" for y in core.walk(e)):
                    ok = True
        if not ok:
            rep.violation(f.cls.replace(NS, "") + ".clone", "%s:%d" % (f.f, f.l), "clone",
                          "%s does not return a copy of the object as %s" % (f.q.replace(NS, ""), f.cls.replace(NS, "")))
    for base in ("ParseFieldImpl", "ParseOptCondImpl"):
        for c in derived(db, NS + base):
            if c == NS + base or c not in rec:
                continue
            if not any(f.n == "parseCloneImpl" and f.cls == c and f.b for f in db.fns.values()):
                kids = [k for k in derived(db, c) if k != c]
                if not kids:
                    rep.violation(c.replace(NS, "") + ".clone", "%s:%d" % (rec[c]["f"], rec[c]["l"]), "clone",
                                  "%s does not override parseCloneImpl: a clone loses what it adds" % c.replace(NS, ""))
    rep.set("clone functions", n, 12)


def writes_state(db, S, rec, cls):
    """Functions of cls (and its bases) that write m_state/m_rState of the object, transitively over calls on this."""
    own = {}
    for f in db.fns.values():
        if f.cls in rec and f.b and f.f.startswith("lib/"):
            own[f.id] = f
    direct = set()
    calls = {}
    for fid, f in own.items():
        for e in core.all_exprs(db, f):
            tgt = None
            if e[0] == "bin" and e[3].endswith("=") and e[3] not in ("==", "!=", "<=", ">="):
                tgt = e[4]
            elif e[0] == "op" and e[3].endswith("=") and e[3] not in ("==", "!=", "<=", ">="):
                tgt = e[5][0]
            elif e[0] == "call" and len(e) > 5 and isinstance(e[5], list):
                d = db.decls.get(core.callee(e))
                o = core.strip(e[5])
                if o and o[0] == "this":
                    calls.setdefault(fid, set()).add(core.callee(e))
                elif d and d["q"].rsplit("::", 1)[-1] in FILL | KILL:
                    tgt = e[5]
            if e[0] == "call":
                t = db.fns.get(core.callee(e))
                for i, a in enumerate(e[4] or []):
                    x = core.strip_implicit(a)
                    if x and x[0] == "mem" and any(y[0] == "mem" and short(y[3]) in ("m_state", "m_rState") and core.strip(y[4])
                                                   and core.strip(y[4])[0] == "this" for y in core.walk(x)):
                        if t and t.p and i < len(t.p) and t.p[i][2].endswith("&") and not t.p[i][2].startswith("const "):
                            direct.add(fid)
            while tgt is not None:
                tgt = core.strip(tgt)
                if tgt and tgt[0] == "mem":
                    if short(tgt[3]) in ("m_state", "m_rState"):
                        b = core.strip(tgt[4])
                        if b and b[0] == "this":
                            direct.add(fid)
                    tgt = tgt[4]
                elif tgt and tgt[0] in ("idx",):
                    tgt = tgt[3]
                else:
                    break
    ch = True
    while ch:
        ch = False
        for fid, cs in calls.items():
            if fid not in direct and cs & direct:
                direct.add(fid)
                ch = True
    return direct


def order(db, rep, S, rec):
    """reuse precedes every other write of the definition"""
    W = writes_state(db, S, rec, None)
    n = 0
    for f in db.fns.values():
        if not f.b or f.cls not in rec or f.n == "parseCheckReuse" or f.parent:
            continue
        if not any(e[0] == "call" and calls_name(db, e) == "parseCheckReuse" for e in core.fn_exprs(f)):
            continue
        n += 1
        g = core.cfg(db, f, asserts=False)

        def step(nd, st):
            if nd.e is not None:
                for e in core.walk_eval(nd.e):
                    if e[0] == "call":
                        if calls_name(db, e) == "parseCheckReuse":
                            if st:
                                rep.violation("%s.order.%s" % (f.cls.replace(NS, ""), st), "%s:%d" % (f.f, e[1]), "order",
                                              "%s runs before the reused definition is taken over, which overwrites its result" % st)
                            return []
                        o = core.strip(e[5]) if len(e) > 5 and isinstance(e[5], list) else None
                        if o and o[0] == "this" and core.callee(e) in W and not st:
                            st = calls_name(db, e)
            return [("*", st)]
        for _ in core.explore(g, "", step):
            pass
    rep.set("parse functions with reuse", n, 3)


def calls_name(db, e):
    d = db.decls.get(core.callee(e))
    if d:
        return d["q"].rsplit("::", 1)[-1]
    f = db.fns.get(core.callee(e))
    return f.n if f else ""


def copies(db, rep, rec):
    """members holding the source of copyFieldsFrom: both the fields and the aliases are cloned from it, element by element"""
    n = 0
    for c, r in sorted(rec.items()):
        if "m_state" not in [x["name"] for x in r["fields"]]:
            continue
        st = db.records.get([x["ty"] for x in r["fields"] if x["name"] == "m_state"][0])
        lists = [x["name"] for x in st["fields"] if x["name"] in ("m_fields", "m_aliases")] if st else []
        if len(lists) != 2:
            continue
        for fld in r["fields"]:
            ty = fld.get("ty") or ""
            if "*" not in ty or ctype(None, ty) not in rec or fld["name"] in IDENT:
                continue
            got = set()
            for f in db.fns.values():
                if f.cls != c or not f.b:
                    continue
                alias = {v[0] for s in core.stmts(f.b) if s[0] == "decl" for v in s[2] if v[3] and
                         any(x[0] == "mem" and short(x[3]) == fld["name"] for x in core.walk(v[3]))}
                for e in core.fn_exprs(f):
                    if e[0] != "call":
                        continue
                    for i, a in enumerate(e[4] or []):
                        x = core.strip(a)
                        while x and x[0] == "un" and x[3] == "*":
                            x = core.strip(x[4])
                        if x and (x[0] == "mem" and short(x[3]) == fld["name"] or x[0] == "v" and x[3] in alias):
                            t = db.fns.get(core.callee(e))
                            if t and t.b and t.p and i < len(t.p):
                                got |= cloned_lists(db, t, i, c)
            for l in lists:
                n += 1
                if l not in got:
                    rep.violation("%s.%s<-%s" % (c.replace(NS, ""), l, fld["name"]), "%s:%d" % (r["f"], fld["line"]), "copy",
                                  "%s of the element %s points to are never cloned (or not all of them)" % (l, fld["name"]))
    rep.set("copyFieldsFrom obligations", n, 6)


def cloned_lists(db, f, argi, cls):
    """Which of m_state's lists every successful path fills with all elements of a list of the argument."""
    C = Copy(db, f, f.cls or cls, [f.p[argi][0]])
    r = None
    g = core.cfg(db, f, asserts=False)
    # fields of another kind of element: the original's list has another name, so equality of the paths is not required
    LISTS = {"m_fields": {"m_fields", "m_members"}, "m_aliases": {"m_aliases"}}
    out = set()
    for want, srcs in LISTS.items():
        ok = None

        def ev(n):
            if n.e is None:
                return False
            for e in core.walk_eval(n.e):
                if e[0] == "call":
                    o = core.strip(e[5]) if len(e) > 5 and isinstance(e[5], list) else None
                    args = e[4] or []
                    ds, q = set(), set()
                    for a in args:
                        q |= C.sources(a)
                    if o is not None and C.name(e) in FILL:
                        d = C.dpath(o)
                        if d:
                            ds.add(d)
                    elif o is None:
                        for a in args:
                            for x in core.walk(a):
                                if x[0] in ("mem", "v"):
                                    p = C.dpath(x)
                                    if p:
                                        ds.add(p)
                    if any(d[-1] == want for d in ds) and any(p[-1] in srcs for p in q):
                        return True
            return False

        def step(n, st):
            done, pend, lost = st
            if n.k == "loop":
                q = C.sources(n.e)
                if any(p[-1] in srcs for p in q):
                    return [(True, (done, True, lost or pend)), (False, (True, False, lost or pend))]
            elif n.k == "br":
                q = C.sources(n.e)
                if any(p[-1] in srcs for p in q):
                    x = core.strip(n.e)
                    lab = x[0] == "call" and C.name(x) == "empty" or x[0] in ("bin", "op") and x[3] == "=="
                    return [(lab, (True, pend, lost)), (not lab, st)]
            if ev(n):
                return [("*", (True, False, lost))]
            return [("*", st)]
        good = True
        for n, st, _ in core.explore(g, (False, False, False), step):
            if n is g.exit and (not st[0] or st[2]):
                good = False
        if good:
            out.add(want)
    return out


def raw(db, rep, rec):
    """raw pointers in the copied state refer to registered fields only"""
    n = 0
    for c, r in sorted(rec.items()):
        if not c.rsplit("::", 1)[-1] in ("ParseState", "ParseReusableState"):
            continue
        for fld in r["fields"]:
            if "*" not in (fld.get("ty") or ""):
                continue
            full = c + "::" + fld["name"]
            for f in db.fns.values():
                if not f.b or not f.f.startswith("lib/"):
                    continue
                for e in core.fn_exprs(f):
                    if e[0] == "bin" and e[3] == "=":
                        l = core.strip(e[4])
                        if l and l[0] == "mem" and l[3] == full:
                            n += 1
                            if not registered(db, f, e[5], full):
                                rep.violation("%s.%s" % (c.replace(NS, ""), fld["name"]), "%s:%d" % (f.f, e[1]), "pointer",
                                              "%s in %s receives a pointer that does not come from the protocol's registry: a copy would "
                                              "keep pointing into the original" % (fld["name"], f.q.replace(NS, "")))
            # by-reference parameters: a helper writing through T*& p
            for f in db.fns.values():
                if not f.b or not f.f.startswith("lib/"):
                    continue
                for e in core.fn_exprs(f):
                    if e[0] != "call":
                        continue
                    for i, a in enumerate(e[4] or []):
                        x = core.strip_implicit(a)
                        if x and x[0] == "mem" and x[3] == full:
                            t = db.fns.get(core.callee(e))
                            if t and t.b and t.p and i < len(t.p) and "&" in t.p[i][2]:
                                for e2 in core.all_exprs(db, t):
                                    if e2[0] == "bin" and e2[3] == "=":
                                        l = core.strip(e2[4])
                                        if l and l[0] == "v" and l[3] == t.p[i][0]:
                                            n += 1
                                            if not registered(db, t, e2[5], None):
                                                rep.violation("%s.%s" % (c.replace(NS, ""), fld["name"]), "%s:%d" % (t.f, e2[1]), "pointer",
                                                              "%s receives a pointer that does not come from the protocol's registry" % fld["name"])
    rep.set("raw pointer assignments", n, 16)


def registered(db, f, e, full, depth=0):
    x = core.strip(e)
    if x is None or depth > 3:
        return False
    if x[0] == "null":
        return True
    if x[0] == "call":
        nm = calls_name(db, x)
        if nm.startswith("parseFind"):
            return True
        t = db.fns.get(core.callee(x))
        if t and t.b and nm and t.f.startswith("lib/"):
            rs = [s[2] for s in core.stmts(t.b) if s[0] == "ret" and s[2]]
            return bool(rs) and all(registered(db, t, r, full, depth + 1) for r in rs)
        return False
    if x[0] == "mem" and full and x[3] == full:
        return True
    if x[0] == "cond":
        return registered(db, f, x[4], full, depth + 1) and registered(db, f, x[5], full, depth + 1)
    if x[0] == "v":
        ini = [v[3] for s in core.stmts(f.b) if s[0] == "decl" for v in s[2] if v[0] == x[3]]
        asg = [y[5] for y in core.fn_exprs(f) if y[0] == "bin" and y[3] == "=" and core.strip(y[4]) and core.strip(y[4])[0] == "v"
               and core.strip(y[4])[3] == x[3]]
        src = [i for i in ini if i] + asg
        return bool(src) and all(registered(db, f, s, full, depth + 1) for s in src)
    if x[0] == "un" and x[3] == "*":
        return registered(db, f, x[4], full, depth + 1)
    return False


def absent(db, rep, rec, T, S):
    """a property that is not given leaves the (possibly reused) value alone"""
    ASG = ("==", "!=", "<=", ">=")
    nf = nb = 0
    scope = derived(db, NS + "ParseFieldImpl") | {f.cls for f in db.fns.values() if f.n == "parseCheckReuse"} | {NS + "ParseObject"}
    for f in db.fns.values():
        if not f.b or f.cls not in scope or not f.f.startswith("lib/"):
            continue
        lv = {}
        for s in core.stmts(f.b):
            for v in s[2] if s[0] == "decl" else [s[3]] if s[0] == "if" and s[3] else ():
                i = core.strip(v[3]) if v[3] else None
                if i and i[0] == "call" and calls_name(db, i) == "find" and len(i) > 5 and isinstance(i[5], list) and is_props(db, f, i[5]):
                    lv[v[0]] = i
        if not lv:
            continue
        nf += 1
        refs = {p[0]: p[1] for p in f.p or () if p[2].endswith("&") and not p[2].startswith("const ")}
        g = core.cfg(db, f, asserts=False)
        hit = [0]

        def step(n, st):
            if n.k == "br":
                e = core.strip(n.e)
                if e[0] in ("op", "bin") and e[3] in ("==", "!="):
                    vs = [x[3] for x in core.walk(e) if x[0] == "v" and x[3] in lv]
                    if vs and any(x[0] == "call" and calls_name(db, x) in ("end", "cend") for x in core.walk(e)):
                        hit[0] += 1
                        ab, pr = st
                        return [(e[3] == "==", (ab | {vs[0]}, pr)), (e[3] != "==", (ab, pr | {vs[0]}))]
            return [("*", st)]
        F0 = frozenset()
        for n, (ab, pr), par in core.explore(g, (F0, F0), step):
            if not ab or pr or n.e is None:
                continue
            for e in core.walk_eval(n.e):
                t = r = None
                if e[0] in ("bin", "op") and e[3].endswith("=") and e[3] not in ASG:
                    t, r = (e[4], e[5]) if e[0] == "bin" else (e[5][0], e[5][1])
                elif e[0] == "call" and len(e) > 5 and isinstance(e[5], list) and calls_name(db, e) in KILL and not e[4]:
                    t = e[5]
                x = core.strip(t) if t is not None else None
                if x is None:
                    continue
                m = None
                if x[0] == "mem" and any(y[0] == "mem" and short(y[3]) in ("m_state", "m_rState") for y in core.walk(x)):
                    m = x[3]
                elif x[0] == "v" and x[3] in refs:
                    m = x[4]
                if m is None:
                    continue
                if "OverrideType" in (f.types[x[2]] if isinstance(x[2], int) else ""):
                    continue
                # a value computed from something else of the definition is no reset
                if r is not None and any(y[0] == "v" and not const_local(f, y) or y[0] == "mem" for y in core.walk(r)):
                    continue
                rep.violation("%s.absent.%s" % (f.q.replace(NS, ""), short(m)), "%s:%d" % (f.f, e[1]), "absent",
                              "%s writes %s although the property was not given: a reused value is lost" % (f.q.replace(NS, ""), short(m)),
                              ["%s:%s" % (f.f, l) for l in core.path_lines(g, par, n, (ab, pr))])
        nb += 1 if hit[0] else 0
    rep.set("property update functions", nf, 70)
    rep.set("of them branching on absence", nb, 65)


def is_props(db, f, e):
    for x in core.walk(e):
        if x[0] == "mem" and short(x[3]) == "m_props":
            return True
        if x[0] == "call" and calls_name(db, x) in ("parseProps",):
            return True
        if x[0] in ("v", "gv") and "ultimap" in (f.types[x[2]] if isinstance(x[2], int) else ""):
            return True
    return False


def const_local(f, v):
    """a local that only ever holds constants on the way here (initialised from literals; later writes are not looked at)"""
    for s in core.stmts(f.b):
        if s[0] == "decl":
            for d in s[2]:
                if d[0] == v[3]:
                    return not d[3] or not any(x[0] in ("v", "mem", "call", "this") for x in core.walk(d[3]))
    return False


def aliasref(db, rep, S):
    """An alias' reference may lead into a member ('$m.sub'): which member it refers to is told by the part before the dot."""
    WHOLE = NS + "ParseAliasImpl::parseFieldName"
    fns = [f for f in db.fns.values() if f.b and f.f.startswith("lib/src/parse/")]
    whole, ndef, ncmp = set(), 0, 0

    def is_whole(e):
        e = core.strip(e)
        while e and e[0] == "ctor" and len([a for a in e[4] if a and a[0] != "dflt"]) == 1:
            e = core.strip(e[4][0])
        if not e:
            return False
        if e[0] == "v":
            return e[3] in whole
        if e[0] == "call":
            d = db.decls.get(e[3]) or {}
            return d.get("q") == WHOLE or d.get("q") == WHOLE.replace("ParseAliasImpl", "ParseAlias")
        return False

    rel = {core.root_fn(db, f).id for f in fns if any(is_whole(e) for e in core.fn_exprs(f))}
    work, done = list(rel), set()
    while work:
        i = work.pop()
        if i in done:
            continue
        done.add(i)
        fam = core.family(db, db.fns[i])
        for _ in range(3):
            n0 = len(whole)
            for f in fam:
                for s in core.stmts(f.b) if f.b else ():
                    if s[0] == "decl":
                        whole |= {v[0] for v in s[2] if v[3] and is_whole(v[3])}
                for e in core.fn_exprs(f):
                    if e[0] == "lam":
                        for c in e[3]:
                            if c[3] and is_whole(c[3]) and c[0]:
                                whole.add(c[0])
            if len(whole) == n0:
                break
        for f in fam:
            for e in core.fn_exprs(f):
                if e[0] == "call":
                    ws = [k for k, a in enumerate(e[4]) if a and is_whole(a)]
                    for t in (S.targets(f, e) or ()) if ws else ():
                        tf = db.fns.get(t)
                        if tf and tf.f.startswith("lib/src/parse/") and len(tf.p) > max(ws) and tf.cls != NS + "ParseAliasImpl":
                            n0 = len(whole)
                            whole |= {tf.p[k][0] for k in ws}
                            r = core.root_fn(db, tf).id
                            if len(whole) > n0:
                                done.discard(r)
                                work.append(r)
    for i in sorted(done):
        for f in core.family(db, db.fns[i]):
            if f.cls == NS + "ParseAliasImpl" and not any(is_whole(e) for e in core.fn_exprs(f)):
                continue
            ndef += sum(1 for e in core.fn_exprs(f) if e[0] == "call" and is_whole(e))
            for e in core.fn_exprs(f):
                if e[0] in ("op", "bin") and e[3] in ("==", "!="):
                    a, b = (e[5][0], e[5][1]) if e[0] == "op" else (e[4], e[5])
                elif e[0] == "call" and calls_name(db, e) == "compare" and e[5] and e[4]:
                    a, b = e[5], e[4][-1]
                else:
                    continue
                if not is_whole(a) and not is_whole(b):
                    continue
                ncmp += 1
                o = core.strip(b if is_whole(a) else a)
                if any(x[0] in ("call", "dcall") and calls_name(db, x) == "parseName" or "parseName" in str(x[3:4]) for x in core.walk(o)):
                    rep.violation("aliasref.%s" % core.root_fn(db, f).q.replace(NS, ""), "%s:%d" % (f.f, e[1]), "aliasref",
                                  "the whole reference of an alias (which may be '$member.sub') is compared with a member's name in %s: "
                                  "aliases of nested members are taken for dangling ones" % core.root_fn(db, f).q.replace(NS, ""))
    rep.set("uses of an alias' reference", ndef, 3)
