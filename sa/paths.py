"""Facts on paths: a path-sensitive, interprocedural must-fact engine over canonical terms.

A term denotes a value by how it is obtained, so that it does not depend on the names of locals or on a part of the code having been
moved to a helper: ("p", i) parameter, ("this",), ("v", id) a local that is not merely another name for something, ("g", name),
("m", member, base), ("c", function, object, args...), ("s", text), ("k", constant), ("x", ...).

A client supplies
  atoms(P, f, e)   -> (facts when the condition e is true, facts when it is false)       [facts: tuples of terms and strings]
  event(P, f, e)   -> (facts gained, predicate on facts killed) for an evaluated call/operation, or None
and gets summaries of functions (facts about parameters and *this holding for each outcome) and an exploration of a function's paths."""
from sa import core, facts, status, tables

MUT = {"push_back", "insert", "emplace", "emplace_back", "clear", "reset", "append", "erase", "swap", "assign", "pop_back", "resize",
       "release", "push_front", "replace", "operator+=", "operator=", "merge", "extract", "operator++", "operator--"}
VALT = ("std::vector<", "std::set<", "std::map<", "std::multimap<", "std::list<", "std::unordered", "std::multiset<", "std::basic_stringstream",
        "std::basic_ostringstream", "std::deque<")


def nm(db, e):
    c = core.callee(e)
    d = db.decls.get(c)
    if d:
        return d["q"].rsplit("::", 1)[-1]
    f = db.fns.get(c)
    return f.n if f else ""


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


def subst(t, m):
    """Replace ("p", i) / ("this",) by the terms in m; None when something has no translation."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "p" and len(t) == 2:
        return m.get(t)
    if t == ("this",):
        return m.get(t)
    r = []
    for x in t:
        y = subst(x, m)
        if y is None and x is not None:
            return None
        r.append(y)
    return tuple(r)


class Paths:
    def __init__(self, db, atoms, event=None, maxdepth=5, filt=None, enter=None):
        self.db = db
        self.S = status.get(db)
        self.T = tables.get(db)
        self.atoms, self.event = atoms, event
        self.maxdepth = maxdepth
        self.filt = filt
        self.enter = enter or (lambda g: g.f.startswith(("lib/", "app/")))
        self._defs = {}
        self._sum = {}
        self._cfg = {}
        self._written = {}
        self.active = set()
        self.prunefacts = None

    def cfg(self, f):
        g = self._cfg.get(f.id)
        if g is None:
            g = self._cfg[f.id] = core.cfg(self.db, f, asserts=False)
        return g

    # ---- definitions of locals
    def defs(self, f):
        """var id -> (initialiser or None, type, owning function) for locals that keep their first value; others are absent"""
        r = core.root_fn(self.db, f)
        d = self._defs.get(r.id)
        if d is not None:
            return d
        init, bad, par, loopv = {}, set(), {}, set()
        for g in core.family(self.db, r):
            for i, p in enumerate(g.p or ()):
                if g is r:
                    par[p[0]] = ("p", i)
            for s in core.stmts(g.b) if g.b else ():
                if s[0] == "decl":
                    for v in s[2]:
                        if v[0] in init:
                            bad.add(v[0])
                        init[v[0]] = (v[3], g.types[v[2]] if isinstance(v[2], int) else v[2], g)
                elif s[0] == "if" and s[3]:
                    v = s[3]
                    init[v[0]] = (v[3], g.types[v[2]] if isinstance(v[2], int) else v[2], g)
                elif s[0] == "rfor" and s[2]:
                    loopv.add(s[2][0])
            for e in core.fn_exprs(g):
                k = e[0]
                t = None
                if k == "bin" and (e[3] == "=" or e[3].endswith("=") and e[3] not in ("==", "!=", "<=", ">=")):
                    t = e[4]
                elif k == "op" and e[3] in ("=", "+=", "-=", "++", "--", "<<=", ">>=", "*="):
                    t = e[5][0] if e[5] else None
                elif k == "un" and e[3] in ("++", "--", "&", "post++", "post--", "++pre", "pre++"):
                    t = e[4]
                elif k == "call":
                    o = core.strip(e[5]) if len(e) > 5 and isinstance(e[5], list) else None
                    if o and o[0] == "v" and nm(self.db, e) in MUT:
                        bad.add(o[3])
                    t = None
                    pt = self.ptypes(e) if nm(self.db, e) not in ("move", "forward") else None
                    for i, a in enumerate(e[4] or []):
                        x = core.strip_implicit(a)
                        if x and x[0] == "v":
                            ty = pt[i] if pt and i < len(pt) else ""
                            if ty.endswith("&") and not ty.endswith("&&") and not ty.startswith("const "):
                                bad.add(x[3])
                x = core.strip_implicit(t) if t else None
                if x and x[0] == "v":
                    bad.add(x[3])
        refs = {v for v, (i, ty, g) in init.items() if ty.endswith("&")}
        d = {"init": init, "bad": bad - refs, "par": par, "loop": loopv}
        # a reference bound to something is another name for it even when it is written through
        self._defs[r.id] = d
        return d

    def ptypes(self, e):
        c = core.callee(e)
        f = self.db.fns.get(c)
        if f and f.p is not None:
            return [p[2] for p in f.p]
        d = self.db.decls.get(c)
        if d:
            return d.get("pt") or []
        return []

    # ---- canonical terms
    def term(self, f, e, depth=0):
        e = core.strip(e)
        if e is None or depth > 14:
            return ("?",)
        k = e[0]
        if k == "this":
            return ("this",)
        if k == "v":
            d = self.defs(f)
            if e[3] in d["par"]:
                if e[3] in d["bad"]:
                    return ("v", e[3])
                return d["par"][e[3]]
            i = d["init"].get(e[3])
            if i and i[0] and e[3] not in d["bad"]:
                if self.resolvable(i[1], i[0]):
                    return self.term(i[2], i[0], depth + 1)
            return ("v", e[3])
        if k == "gv":
            return ("g", e[4] if len(e) > 4 and isinstance(e[4], str) else str(e[3]))
        if k == "enumr":
            return ("k", str(e[-2]) if len(e) > 4 else str(e[3]))
        if k == "mem":
            return ("m", e[3].rsplit("::", 1)[-1], self.term(f, e[4], depth + 1) if e[4] else ("this",))
        if k == "un" and e[3] in ("*", "&"):
            return self.term(f, e[4], depth + 1)
        if k == "op" and e[3] in ("->", "*") and len(e[5]) == 1:
            return self.term(f, e[5][0], depth + 1)
        if k == "op" and e[3] == "[]":
            return ("x", "[]", self.term(f, e[5][0], depth + 1), self.term(f, e[5][1], depth + 1))
        if k == "str":
            return ("s", e[2])
        if k == "int":
            return ("k", e[3])
        if k == "bool":
            return ("k", bool(e[2]))
        if k == "null":
            return ("k", None)
        if k == "call":
            n = nm(self.db, e)
            o = e[5] if len(e) > 5 and isinstance(e[5], list) else None
            a = e[4] or []
            if n in ("move", "forward", "as_const") and len(a) == 1 and o is None:
                return self.term(f, a[0], depth + 1)
            if n in ("get", "operator->", "operator*") and o is not None and not a:
                return self.term(f, o, depth + 1)
            if n in ("cend", "cbegin"):
                n = n[1:]
            if n in ("begin", "end", "size", "empty") and o is None and len(a) == 1:
                return ("c", n, self.term(f, a[0], depth + 1))
            return ("c", n, self.term(f, o, depth + 1) if o is not None else None) + tuple(self.term(f, x, depth + 1) for x in a if x and x[0] != "dflt")
        if k == "ctor":
            a = [x for x in e[4] or [] if x and x[0] != "dflt"]
            if len(a) == 1:
                return self.term(f, a[0], depth + 1)
            return ("x", "ctor") + tuple(self.term(f, x, depth + 1) for x in a)
        if k in ("bin", "un", "op"):
            ks = core.kids(e)
            return ("x", e[3]) + tuple(self.term(f, x, depth + 1) for x in ks)
        return ("x", k) + tuple(self.term(f, x, depth + 1) for x in core.kids(e)[:6])

    def resolvable(self, ty, ini):
        if ty.endswith(("&", "*")):
            return True
        if "unique_ptr<" in ty.split("iterator")[0] and "iterator" not in ty:
            x = core.strip(ini)
            while x and x[0] == "call" and nm(self.db, x) in ("move", "forward") and x[4]:
                x = core.strip(x[4][0])
            return bool(x) and x[0] == "v"
        if ty.replace("const ", "").startswith(VALT):
            return ty.startswith("const ")
        x = core.strip(ini)
        if x and x[0] == "lam":
            return False
        return True

    # ---- summaries
    def tmap(self, f, call):
        m = {}
        o = call[5] if call[0] == "call" and len(call) > 5 and isinstance(call[5], list) else None
        args = call[4] if call[0] in ("call", "ctor") else call[5]
        if call[0] == "op":
            args = call[5][1:]
        for i, a in enumerate(args or []):
            if a is not None:
                m[("p", i)] = self.term(f, a)
        if o is not None:
            m[("this",)] = self.term(f, o)
        elif call[0] == "op":
            m[("this",)] = ("this",)      # a lambda called by name: captures keep their meaning
        else:
            m[("this",)] = ("this",)
        return m

    def call_facts(self, f, call, outcome):
        """Facts (in the caller's terms) that hold after the call when it had the outcome (True, False, "null", "nonnull" or "*")."""
        ts = self.S.targets(f, call)
        if not ts:
            return frozenset()
        r = None
        for t in ts:
            g = self.db.fns.get(t)
            if not g or not g.b or not self.enter(g):
                return frozenset()
            s = self.summary(g).get(outcome)
            if s is None:
                continue        # this target never has the outcome
            m = self.tmap(f, call)
            if g.parent and g.parent in self.db.fns:
                # a lambda: captured variables are shared, its own parameters are translated
                m = dict(m)
                for i, p in enumerate(g.p or ()):
                    m[("v", p[0])] = m.get(("p", i))
                x = frozenset(y for y in (substv(z, m) for z in s) if y)
            else:
                x = frozenset(y for y in (subst(z, m) for z in s) if y)
            r = x if r is None else r & x
        return r or frozenset()

    def summary(self, g):
        """outcome -> facts holding on every path with that outcome"""
        if g.id in self._sum:
            return self._sum[g.id]
        if g.id in self.active or len(self.active) > self.maxdepth:
            return {}
        self.active.add(g.id)
        res = {}
        isb = g.ret == "bool" or (isinstance(g.ret, str) and g.ret.endswith("bool"))

        def put(o, fs):
            res[o] = fs if o not in res else res[o] & fs
        lam = bool(g.parent and g.parent in self.db.fns)

        def local(fs):
            if lam:
                return fs
            return frozenset(x for x in fs if not mentions(x, lambda t: isinstance(t, tuple) and t and t[0] == "v"))
        try:
            for n, st, _ in self.explore(g):
                if n.k == "ret":
                    fs = st
                    e = core.strip(n.e) if n.e is not None else None
                    if e is not None:
                        st2 = self.effects(g, n, st)
                        fs = st2
                        if e[0] == "bool":
                            put(bool(e[2]), local(fs))
                        elif isb:
                            t, u = self.cond_facts(g, n.e)
                            if not self.contradict(fs, t):
                                put(True, local(fs | t))
                            if not self.contradict(fs, u):
                                put(False, local(fs | u))
                        elif e[0] == "null" or e[0] == "ctor" and not e[4]:
                            put("null", local(fs))
                        else:
                            t, u = self.cond_facts(g, n.e, nul=True)
                            rt = self.term(g, n.e)
                            if not self.contradict(fs, t) and ("isnull", rt) not in fs:
                                put("nonnull", self.ret_facts(local_keep(fs | t, rt, lam), rt))
                            if not self.contradict(fs, u) and not (e[0] == "this" or e[0] == "un" and e[3] == "&"):
                                put("null", local(fs | u))
                    put("*", local(fs))
                elif n.k == "endfn":
                    put("*", local(st))
        finally:
            self.active.discard(g.id)
        if not self.active or True:
            self._sum[g.id] = res
        return res

    def ret_facts(self, fs, rt):
        """facts about the returned local become facts about ("ret",)"""
        return frozenset(replace(x, rt, ("ret",)) for x in fs if mentions(x, lambda t: t == rt) or
                         not mentions(x, lambda t: isinstance(t, tuple) and t and t[0] == "v"))

    def contradict(self, fs, add):
        return False

    # ---- conditions
    def cond_facts(self, f, e, nul=False, depth=0):
        """(facts if true, facts if false) of an atomic condition"""
        e = core.strip(e)
        E = frozenset()
        if e is None or depth > 6:
            return E, E
        while e and e[0] == "un" and e[3] == "!":
            t, u = self.cond_facts(f, e[4], nul, depth + 1)
            return u, t
        r = self.atoms(self, f, e)
        t, u = (frozenset(r[0]), frozenset(r[1])) if r else (E, E)
        if e[0] == "bin" and e[3] in ("&&", "||"):
            a, b = self.cond_facts(f, e[4], nul, depth + 1), self.cond_facts(f, e[5], nul, depth + 1)
            if e[3] == "&&":
                return t | a[0] | b[0], u | (a[1] & b[1])
            return t | (a[0] & b[0]), u | a[1] | b[1]
        if e[0] == "v":
            d = self.defs(f)
            i = d["init"].get(e[3])
            if i and i[0] and e[3] not in d["bad"]:
                x = core.strip(i[0])
                if x and x[0] != "bool":
                    a, b = self.cond_facts(i[2], i[0], nul or self.ptrlike(i[1]), depth + 1)
                    # facts about the value returned are facts about the variable
                    a = frozenset(replace(y, ("ret",), ("v", e[3])) for y in a)
                    return t | a, u | b
        if e[0] in ("call", "op") and self.S.targets(f, e):
            isb = self.boolish(f, e)
            if isb:
                return t | self.call_facts(f, e, True), u | self.call_facts(f, e, False)
            return t | self.call_facts(f, e, "nonnull"), u | self.call_facts(f, e, "null")
        if e[0] == "call" and nm(self.db, e) == "operator bool" and len(e) > 5 and isinstance(e[5], list):
            a, b = self.cond_facts(f, e[5], True, depth + 1)
            return t | a, u | b
        if e[0] in ("bin", "op") and e[3] in ("==", "!="):
            l, r2 = (e[4], e[5]) if e[0] == "bin" else (e[5][0], e[5][1])
            for a, b in ((l, r2), (r2, l)):
                sb = core.strip(b)
                if sb and sb[0] == "null":
                    x, y = self.cond_facts(f, a, True, depth + 1)
                    return (t | y, u | x) if e[3] == "==" else (t | x, u | y)
        return t, u

    def ptrlike(self, ty):
        return ty.endswith("*") or "unique_ptr<" in ty

    def boolish(self, f, e):
        try:
            return f.types[e[2]] == "bool"
        except Exception:
            return False

    # ---- effects of a node
    def effects(self, f, n, st):
        if n.e is None:
            return st
        for e in core.walk_eval(n.e):
            if e[0] in ("call", "op", "bin", "un", "ctor"):
                st = self.eff1(f, n, e, st)
        return st

    def eff1(self, f, n, e, st):
        # facts that hold whatever the outcome
        if e[0] in ("call", "op") and self.S.targets(f, e):
            add = self.call_facts(f, e, "*")
            add = frozenset(x for x in add if not mentions(x, lambda t: t == ("ret",)))
            if add:
                st = st | add
        # a flag handed over by address or reference, or captured by reference, may come back changed
        if st and e[0] in ("call", "op", "ctor"):
            fl = {x[1][1] for x in st if x[0] == "flag"}
            if fl:
                ch = set()
                pt = self.ptypes(e) if e[0] != "op" else []
                for i, a in enumerate((e[4] if e[0] in ("call", "ctor") else e[5]) or []):
                    x = core.strip_implicit(a)
                    if x and x[0] == "un" and x[3] == "&":
                        y = core.strip_implicit(x[4])
                        if y and y[0] == "v":
                            ch.add(y[3])
                    elif x and x[0] == "v" and x[3] in fl:
                        ty = pt[i] if i < len(pt) else ""
                        if ty.endswith("&") and not ty.startswith("const ") and not ty.endswith("&&"):
                            ch.add(x[3])
                if e[0] == "op" and e[3] == "()" and self.S.targets(f, e):
                    for t in self.S.targets(f, e):
                        g = self.db.fns.get(t)
                        if g and g.parent:
                            ch |= self.written(g) & fl
                elif e[0] == "call":
                    for a in e[4] or []:
                        l = core.lambda_of(self.db, f, a) if a else None
                        if l and l in self.db.fns:
                            ch |= self.written(self.db.fns[l]) & fl
                if ch:
                    st = frozenset(x for x in st if not (x[0] == "flag" and x[1][1] in ch))
        # a write kills what was known about the variable
        t = None
        if e[0] == "bin" and e[3].endswith("=") and e[3] not in ("==", "!=", "<=", ">="):
            t = e[4]
        elif e[0] == "op" and e[3] in ("=", "++", "--", "+=", "-=") and e[5]:
            t = e[5][0]
        elif e[0] == "un" and ("++" in e[3] or "--" in e[3]):
            t = e[4]
        x = core.strip_implicit(t) if t else None
        if x and x[0] == "v":
            st = self.kill_var(st, x[3])
        if self.event:
            r = self.event(self, f, e, st)
            if r:
                add, kill = r
                if kill:
                    st = frozenset(y for y in st if not kill(y))
                if add:
                    st = st | frozenset(add)
        return st

    def written(self, g):
        """variables written in a lambda"""
        r = self._written.get(g.id)
        if r is None:
            r = set()
            for e in core.fn_exprs(g):
                t = e[4] if e[0] == "bin" and e[3].endswith("=") and e[3] not in ("==", "!=", "<=", ">=") or e[0] == "un" and e[3] != "*" else \
                    e[5][0] if e[0] == "op" and e[5] and e[3] in ("=", "++", "--", "+=", "-=") else None
                x = core.strip_implicit(t) if t else None
                if x and x[0] == "v":
                    r.add(x[3])
            self._written[g.id] = r
        return r

    def kill_var(self, st, vid):
        k = ("v", vid)
        return frozenset(y for y in st if not mentions(y, lambda t: t == k))

    # ---- exploration
    def explore(self, f, init=frozenset(), limit=300000, hook=None):
        """Yields (node, facts before the node, parent).  Loop bodies are entered with facts about the loop variable dropped."""
        g = self.cfg(f)
        flt = self.filt

        def norm(st):
            return frozenset(x for x in st if flt(x)) if flt else st

        def step(n, st):
            if n.k in ("abort", "throw"):
                return []
            if n.k == "d":
                if n.x and n.x[0] is not None:
                    st = self.kill_var(st, n.x[0])
                st = self.effects(f, n, st)
                # constants of flags
                e = core.strip(n.e) if n.e is not None else None
                if e is not None and e[0] == "bool" and n.x[0] in self.defs(f)["bad"]:
                    st = st | {("flag", ("v", n.x[0]), bool(e[2]))}
                return [("*", norm(self.after(f, n, st)))]
            if n.k == "as":
                x = core.strip_implicit(n.x) if isinstance(n.x, list) else None
                st = self.effects(f, n, st)
                if x and x[0] == "v":
                    st = self.kill_var(st, x[3])
                    e = core.strip(n.e) if n.e is not None else None
                    if e is not None and e[0] == "bool":
                        st = st | {("flag", ("v", x[3]), bool(e[2]))}
                return [("*", norm(self.after(f, n, st)))]
            if n.k == "loop":
                st = self.effects(f, n, st)
                vid = n.x[0][0] if n.x and n.x[0] else None
                st = self.loop_arrive(f, n, st)
                out = self.loop_out(f, n, st)
                inn = self.loop_in(f, n, self.kill_var(st, vid) if vid is not None else st)
                return [(True, norm(inn)), (False, norm(self.kill_var(out, vid) if vid is not None else out))]
            if n.k == "br":
                st0 = st
                st = self.effects(f, n, st)
                e = core.strip(n.e)
                if e and e[0] == "v":
                    fl = [x for x in st if x[0] == "flag" and x[1] == ("v", e[3])]
                    if fl:
                        return [(fl[0][2], norm(st))]
                t, u = self.cond_facts(f, n.e)
                res = []
                for lab, add in ((True, t), (False, u)):
                    if self.contradict(st, add):
                        continue
                    res.append((lab, norm(st | add)))
                return res
            if n.k in ("e", "sw", "ret"):
                st2 = self.effects(f, n, st)
                if n.k == "e" and n.e is not None:
                    e = core.strip(n.e)
                    if e and e[0] in ("bin",) and e[3] == "=":
                        x, r = core.strip_implicit(e[4]), core.strip(e[5])
                        if x and x[0] == "v" and r and r[0] == "bool":
                            st2 = st2 | {("flag", ("v", x[3]), bool(r[2]))}
                if n.k == "sw":
                    return self.switch(f, n, st2, norm)
                return [("*", norm(self.after(f, n, st2)))]
            return [("*", st)]
        yield from core.explore(g, init, step, limit)

    def switch(self, f, n, st, norm):
        return [("*", norm(st))]

    def after(self, f, n, st):
        return st

    def loop_in(self, f, n, st):
        return st

    def loop_out(self, f, n, st):
        return st

    def loop_arrive(self, f, n, st):
        return st


def substv(t, m):
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    r = []
    for x in t:
        y = substv(x, m)
        if y is None and x is not None:
            return None
        r.append(y)
    return tuple(r)


def replace(t, a, b):
    if t == a:
        return b
    if not isinstance(t, tuple):
        return t
    return tuple(replace(x, a, b) for x in t)


def local_keep(fs, rt, lam):
    return fs
