"""Value flow of schema property keys into members, and of members into results.

Taints are "K:<text>" (a constant string equal to a property/element name of interest) and "M:<Class::member>".
Flow-insensitive inside a function family (function plus its lambdas), context-sensitive over calls
(memoised per argument taints)."""
from . import core, tables, status

EMPTY = frozenset()
MUTATORS = {"push_back", "emplace_back", "insert", "emplace", "assign", "append", "push_front", "reset", "swap", "operator=",
            "operator+=", "operator[]", "at", "resize", "splice", "merge", "insert_or_assign", "try_emplace"}

LOOKUPS = {"find", "equal_range", "count", "lower_bound", "at", "contains"}
FORWARDERS = {"make_pair", "make_tuple", "make_unique", "make_shared", "tie", "forward", "move", "find_if", "any_of", "all_of",
              "none_of", "count_if", "for_each", "min", "max", "swap"}


class Flow:
    def __init__(self, db, keys, members=None, sources=None, maxdepth=9, origin=False):
        """members: predicate selecting the members whose reads are tracked (None: no member);
        sources: names of functions whose result gets the taint "L:<calling function>"."""
        self.db = db
        self.keys = keys
        self.members = members or (lambda m: False)
        self.sources = sources or ()
        self.T = tables.get(db)
        self.S = status.get(db)
        self.memo = {}
        self.active = set()
        self.maxdepth = maxdepth
        self.origin = origin    # key taints carry the source file stem of the place naming the key: "K:<key>|<stem>"
        self.cmemo = {}

    # ---- constants
    def const(self, f, e):
        k = id(e)
        r = self.cmemo.get(k)
        if r is None:
            v = self.T.ev(f, e) if e[0] in ("str", "call", "ctor", "v", "gv", "op") else None
            t = EMPTY
            if v and v[0] == "s" and v[1] in self.keys:
                t = frozenset(["K:" + v[1] + ("|" + f.f.rsplit("/", 1)[-1].split(".")[0] if self.origin else "")])
            r = (e, t)
            self.cmemo[k] = r
        return r[1]

    # ---- analysis of one function under argument taints
    def run(self, fid, args=None, depth=0):
        """(taint of the result, {param index: taint}, {member: taint}, lookup events (key, receiver taints))"""
        f = self.db.fns[fid]
        np = len(f.p or ())
        args = tuple((args or ())[:np]) + (EMPTY,) * (np - len(args or ()))
        key = (fid, args)
        if key in self.memo:
            return self.memo[key]
        if depth > self.maxdepth or fid in self.active:
            # no further descent: everything flows into the result
            u = frozenset().union(*args) if args else EMPTY
            return (u, {}, {}, EMPTY)
        self.active.add(fid)
        A = _Fn(self, f, args, depth)
        r = A.solve()
        self.active.discard(fid)
        self.memo[key] = r
        return r


class _Fn:
    def __init__(self, F, f, args, depth):
        self.F = F
        self.db = F.db
        self.f = f
        self.depth = depth
        self.env = {}
        self.envf = {}          # local variable -> {member: taint}
        self.ret = set()
        self.mem = {}
        self.lamret = {}
        self.events = set()
        self.params = [p[0] for p in f.p or ()]
        for p, t in zip(self.params, args):
            if t:
                self.env.setdefault(p, set()).update(t)
        self.changed = True
        self.init = {p: set(t) for p, t in zip(self.params, args)}
        self.ctl = []

    def add(self, s, t):
        if t - s if isinstance(t, (set, frozenset)) else set(t) - s:
            s |= t
            self.changed = True

    def addv(self, v, t):
        if t:
            self.add(self.env.setdefault(v, set()), t)

    def whole(self, v):
        r = frozenset(self.env.get(v, ()))
        for t in self.envf.get(v, {}).values():
            r = r | t
        return r

    def addm(self, m, t):
        if t:
            self.add(self.mem.setdefault(m, set()), t)

    def solve(self):
        n = 0
        while self.changed and n < 8:
            self.changed = False
            n += 1
            self.body(self.f)
        out = {}
        for i, p in enumerate(self.params):
            t = self.whole(p)
            if t:
                out[i] = t
        return (frozenset(self.ret), out, {m: frozenset(t) for m, t in self.mem.items()}, frozenset(self.events))

    def body(self, f):
        for i in f.inits or ():
            if i[2]:
                t = self.ex(f, i[2])
                if "::" in i[0]:
                    self.addm(i[0], t)
        self.st(f, f.b)

    def st(self, f, s):
        if not s:
            return
        k = s[0]
        if k == "{}":
            for c in s[2]:
                self.st(f, c)
        elif k == "expr":
            self.ex(f, s[2])
        elif k == "decl":
            for v in s[2]:
                if v[3]:
                    self.addv(v[0], self.ex(f, v[3]) | self.control())
        elif k == "if":
            self.st(f, s[2])
            if s[3] and s[3][3]:
                self.addv(s[3][0], self.ex(f, s[3][3]))
            t = self.ex(f, s[4]) if s[4] else EMPTY
            if s[3] and s[3][3]:
                t = t | frozenset(self.env.get(s[3][0], ()))
            self.ctl.append(t)
            self.st(f, s[5])
            self.st(f, s[6])
            self.ctl.pop()
        elif k == "for":
            self.st(f, s[2])
            t = self.ex(f, s[3]) if s[3] else EMPTY
            self.ctl.append(t)
            if s[4]:
                self.ex(f, s[4])
            self.st(f, s[5])
            self.ctl.pop()
        elif k == "rfor":
            t = self.ex(f, s[3]) if s[3] else EMPTY
            v = s[2]
            if v:
                self.addv(v[0], t)
            self.ctl.append(t)
            self.st(f, s[4])
            self.ctl.pop()
        elif k == "while":
            t = self.ex(f, s[2])
            self.ctl.append(t)
            self.st(f, s[3])
            self.ctl.pop()
        elif k == "do":
            self.st(f, s[2])
            self.ex(f, s[3])
        elif k == "ret":
            if s[2]:
                t = self.ex(f, s[2]) | self.control()
                self.add(self.ret if f is self.f else self.lamret.setdefault(f.id, set()), t)
        elif k == "switch":
            t = self.ex(f, s[2])
            self.ctl.append(t)
            self.st(f, s[3])
            self.ctl.pop()
        elif k == "case":
            self.st(f, s[3])
        elif k == "default":
            self.st(f, s[2])
        elif k == "try":
            self.st(f, s[2])
            for h in s[3]:
                self.st(f, h[1])
        elif k in ("label", "attr"):
            for c in s[2:]:
                if isinstance(c, list) and c and isinstance(c[0], str):
                    self.st(f, c)

    def control(self):
        r = EMPTY
        for t in self.ctl:
            r = r | t
        return r

    def assign(self, f, lhs, t):
        """Taint an lvalue: the members named on its path and the local at its base."""
        x = core.strip(lhs)
        first = True
        while x:
            k = x[0]
            if k == "v":
                self.addv(x[3], t)
                return
            if k == "mem":
                self.addm(x[3], t)
                m = x[3]
                x = core.strip(x[4]) if x[4] else None
                if x and x[0] == "v":
                    if t:
                        self.add(self.envf.setdefault(x[3], {}).setdefault(m, set()), t)
                    return
                # the enclosing object only when it is a local
                b = x
                while b and b[0] == "mem":
                    b = core.strip(b[4]) if b[4] else None
                if b and b[0] in ("v", "op", "call", "idx", "un"):
                    x = b
                    continue
                return
            if k == "idx":
                self.ex(f, x[4])
                x = core.strip(x[3])
            elif k == "op" and x[3] in ("*", "->", "[]") and x[5]:
                x = core.strip(x[5][0])
            elif k == "un" and x[3] in ("*", "&"):
                x = core.strip(x[4])
            elif k == "call" and x[5]:
                x = core.strip(x[5])
            elif k == "cond":
                self.assign(f, x[4], t)
                x = core.strip(x[5])
            else:
                return

    def lam(self, f, a):
        l = core.lambda_of(self.db, f, a)
        return self.db.fns.get(l) if l else None

    def run_lam(self, lf, t):
        for p in lf.p or ():
            self.addv(p[0], t)
        if lf.id in self.F.active:
            return EMPTY
        self.F.active.add(lf.id)
        self.body_l(lf)
        self.F.active.discard(lf.id)
        return frozenset(self.lamret.get(lf.id, ()))

    def body_l(self, lf):
        self.st(lf, lf.b)

    def ex(self, f, e):
        if not e:
            return EMPTY
        k = e[0]
        if k in ("int", "bool", "null", "chr", "enumr", "this", "fref"):
            return EMPTY
        if k == "str":
            return self.F.const(f, e)
        if k == "v":
            c = self.F.const(f, e)
            return self.whole(e[3]) | c
        if k == "gv":
            return self.F.const(f, e)
        if k == "icast":
            return self.ex(f, e[4])
        if k == "cast":
            return self.ex(f, e[5])
        if k == "mem":
            b = core.strip(e[4]) if e[4] else None
            t = EMPTY
            if b and b[0] == "v":
                r = frozenset(self.env.get(b[3], ())) | frozenset(self.envf.get(b[3], {}).get(e[3], ()))
                if self.F.members(e[3]):
                    r = r | frozenset(["M:" + e[3]])
                return r
            if b and b[0] not in ("this", "mem"):
                t = self.ex(f, b)
            elif b and b[0] == "mem":
                bb = b
                while bb and bb[0] == "mem":
                    bb = core.strip(bb[4]) if bb[4] else None
                if bb and bb[0] != "this":
                    t = self.ex(f, bb)
            r = t | frozenset(self.mem.get(e[3], ()))
            if self.F.members(e[3]):
                r = r | frozenset(["M:" + e[3]])
            return r
        if k == "bin" or k == "op" and len(e[5]) == 2 and (e[3].endswith("=") or e[3] == "<<"):
            op = e[3]
            l, r = (e[4], e[5]) if k == "bin" else e[5]
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                t = self.ex(f, r)
                if op != "=":
                    t = t | self.ex(f, l)
                self.assign(f, l, t | self.control())
                return t
            if op in ("==", "!=") and k == "op":
                # comparing with a key is no flow of the key, except through what is looked up
                return self.ex(f, l) | self.ex(f, r)
            return self.ex(f, l) | self.ex(f, r)
        if k == "un":
            t = self.ex(f, e[4])
            if "++" in e[3] or "--" in e[3]:
                self.assign(f, e[4], t | self.control())
            return t
        if k in ("call", "op", "ctor"):
            return self.call(f, e)
        if k in ("lam", "init"):
            if k == "init" and len(e[3]) == 1:
                x = core.strip(e[3][0])
                ty = f.types[e[2]] if isinstance(e[2], int) and e[2] < len(f.types) else ""
                if x and "basic_string<char>[" not in ty and "initializer_list" not in ty:
                    return self.ex(f, e[3][0])
            # a list of names is no use of any one of them
            r = EMPTY
            if k == "init":
                for x in e[3]:
                    if not self.F.const(f, core.strip(x) or x):
                        r = r | frozenset(t for t in self.ex(f, x) if t[0] == "M")
            return r
        r = EMPTY
        for x in core.kids(e):
            r = r | self.ex(f, x)
        return r

    def call(self, f, e):
        k = e[0]
        args = e[4] if k != "op" else e[5]
        c = self.F.const(f, e) if k != "op" else EMPTY
        if c:
            return c
        obj = e[5] if k == "call" else None
        ts = []
        lams = []
        for a in args:
            lf = self.lam(f, a)
            if lf:
                lams.append(lf)
                ts.append(EMPTY)
            else:
                ts.append(self.ex(f, a))
        ot = self.ex(f, obj) if obj else EMPTY
        targets = [] if k == "ctor" else (self.F.S.targets(f, e) or [])
        if k == "ctor" and e[3] in self.db.fns:
            targets = [e[3]]
        allt = frozenset().union(*ts) if ts else EMPTY
        d = self.db.decls.get(core.callee(e)) if core.callee(e) else None
        name = d["n"] if d else ""
        # a local lambda called directly
        if k == "op" and e[3] == "()" and args:
            lf = self.lam(f, args[0])
            if lf:
                for p, t in zip(lf.p or (), ts[1:]):
                    self.addv(p[0], t)
                r = self.run_lam(lf, EMPTY)
                for p, a in zip(lf.p or (), args[1:]):
                    if p[0] in self.env and self.env[p[0]]:
                        self.assign(f, a, frozenset(self.env[p[0]]))
                return r
        if lams:
            r = allt | ot
            for lf in lams:
                r = r | self.run_lam(lf, allt | ot)
            lr = r
        else:
            lr = EMPTY
        if name in self.F.sources:
            lr = lr | frozenset(["L:" + core.root_fn(self.db, f).id])
        real = [t for t in targets if self.db.fns[t].n != "<lambda>"]
        if real:
            r = lr
            for t in real:
                tr, out, mem, ev = self.F.run(t, tuple(ts), self.depth + 1)
                r = r | tr
                self.events |= ev
                tf = self.db.fns[t]
                for i, o in out.items():
                    if i < len(args) and i < len(tf.p):
                        extra = o - ts[i]
                        if extra and self.mutable(tf, i):
                            self.assign(f, args[i], extra | self.control())
                for m, o in mem.items():
                    self.addm(m, o)
            # the object keeps what it is given
            if ot:
                r = r | ot
            if k == "ctor":
                r = r | allt
            if obj and allt and d and not d.get("c"):
                self.assign_local(f, obj, allt)
            return r
        if obj is not None and args and name in LOOKUPS:
            o = frozenset(t for t in ot if t[0] in "ML")
            for t in ts[0]:
                if t[0] == "K":
                    self.events.add((t[2:], o))
        # outside the repository: result and mutated receivers take every argument
        r = allt | ot | lr
        if obj is not None and (name in MUTATORS or d and not d.get("c") and name not in ("find", "begin", "end", "size", "empty", "front", "back", "get", "str", "data", "count")):
            if allt:
                self.assign(f, obj, allt | self.control())
        if k == "op" and e[3] in ("<<", ">>") and args:
            self.assign_local(f, args[0], allt)
        if d and args and k == "call" and name not in MUTATORS and name not in FORWARDERS:
            for i, a in enumerate(args):
                if i < len(d.get("pt", ())):
                    pt = d["pt"][i]
                    if pt.endswith("&") and not pt.startswith("const ") or pt.endswith("*") and not pt.startswith("const "):
                        if "iterator" in pt:
                            continue
                        o = frozenset().union(EMPTY, *[t for j, t in enumerate(ts) if j != i])
                        if o:
                            self.assign(f, a, o)
            if name in ("copy", "transform", "move", "back_inserter", "inserter", "copy_if") and len(args) > 1:
                for a in args:
                    x = core.strip(a)
                    if x and x[0] == "call" and x[3] and self.db.decls[x[3]]["n"] in ("back_inserter", "inserter") and x[4]:
                        self.assign(f, x[4][0], r)
        return r

    def mutable(self, tf, i):
        t = tf.p[i][2]
        if t.endswith("*&") or t.endswith("* &"):
            return True
        return (t.endswith("&") or t.endswith("*")) and not t.startswith("const ")

    def assign_local(self, f, e, t):
        x = core.strip(e)
        while x and x[0] in ("op", "un", "call") and (x[0] != "call" or x[5]):
            x = core.strip(x[5][0] if x[0] == "op" else (x[4] if x[0] == "un" else x[5]))
        if x and x[0] == "v":
            self.addv(x[3], t)
