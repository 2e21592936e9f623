"""A small path-sensitive symbolic propagation over control-flow graphs, with inlining of helpers.

Values are hashable symbols; conditions become atomic facts about symbols; contradicting facts prune a path.
A client subclasses Mini and overrides
  keep(atom)            - which facts are remembered
  relevant(fn)          - which called functions are entered
  call(f, e, st, ctx)   - meaning of a call: None (default), or a list of (symbol, state)
  at(f, n, st, ctx)     - invoked for every node and state reached
State: (env, facts) with env a frozenset of (lvalue, symbol) and facts a frozenset of (op, a, b)."""
from sa import core

NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "==", "true": "false", "false": "true"}
SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
OPS = set(SWAP)


def const_ref(t):
    import re
    while re.search(r"<[^<>]*>", t):
        t = re.sub(r"<[^<>]*>", "", t)
    return bool(re.search(r"^const [^*]*&$|\*\s*const\s*&$", t))


class Ctx:
    """one activation: function, what its reference parameters and 'this' stand for"""
    def __init__(self, f, depth, refs, this, stack):
        self.f, self.depth, self.refs, self.this, self.stack = f, depth, refs, this, stack


class Mini:
    def __init__(self, db, maxdepth=4):
        self.db = db
        self.maxdepth = maxdepth
        self.limit = 60000
        self.asserts = True

    # ---- to override
    def keep(self, atom):
        return True

    def relevant(self, f):
        return False

    def call(self, f, e, st, ctx):
        return None

    def at(self, f, n, st, ctx):
        pass

    def leaf(self, lv, ctx):
        """symbol of a location that was never written on this path"""
        return ("val", lv)

    # ---- helpers
    def nm(self, e):
        d = self.db.decls.get(core.callee(e)) or {}
        return d.get("n", "")

    def strip(self, e):
        e = core.strip(e)
        while e and (e[0] in ("cast", "icast", "dflt") or e[0] == "ctor" and e[5] in ("copy", "move") and e[4]):
            e = core.strip(core.kids(e)[0]) if core.kids(e) else None
        return e

    def lv(self, e, ctx, st=None):
        e = self.strip(e)
        if not e:
            return None
        if e[0] == "v":
            if e[3] in ctx.refs:
                return ctx.refs[e[3]]
            if st is not None:
                a = dict(st[0]).get(("alias", e[3]))
                if a:
                    return a
            return ("v", e[3])
        if e[0] == "gv":
            return ("g", e[4])
        if e[0] == "this":
            return ctx.this
        if e[0] == "mem":
            b = self.lv(e[4], ctx, st) if e[4] else ctx.this
            return ("m", b, e[3].split("::")[-1]) if b else None
        if e[0] == "un" and e[3] in ("*", "&"):
            return self.lv(e[4], ctx, st)
        if e[0] == "op" and e[3] in ("->", "*") and len(e[5]) == 1:
            b = self.lv(e[5][0], ctx, st)
            return ("m", b, "*") if b else None
        if e[0] == "call" and self.nm(e) in ("move", "forward", "get") and (e[4] or isinstance(e[5], list)):
            return self.lv(e[4][0] if e[4] else e[5], ctx, st)
        return None

    def symlv(self, l, st, ctx):
        d = dict(st[0])
        if l in d:
            return d[l]
        if isinstance(l, tuple) and len(l) == 3 and l[0] == "m" and l[1] != ("this",):
            b = self.symlv(l[1], st, ctx)
            if b[:1] != ("val",):
                return b if l[2] == "*" else ("mem", b, l[2])
        return self.leaf(l, ctx)

    def sym(self, e, st, ctx, depth=0):
        e = self.strip(e)
        if not e or depth > 10:
            return ("?",)
        k = e[0]
        if k in ("int", "str", "chr"):
            return ("k", str(e[-1]))
        if k == "bool":
            return ("k", "true" if str(e[-1]).lower() in ("1", "true") else "false")
        if k in ("null",):
            return ("k", "null")
        if k == "enumr":
            return ("k", e[3])
        if k in ("v", "gv", "mem", "this"):
            l = self.lv(e, ctx, st)
            if l is None and k == "mem":
                return ("mem", self.sym(e[4], st, ctx, depth + 1), e[3].split("::")[-1])
            return self.symlv(l, st, ctx)
        if k == "call":
            if ("res", id(e)) in dict(st[0]):
                return dict(st[0])[("res", id(e))]
            n = self.nm(e)
            o = self.sym(e[5], st, ctx, depth + 1) if len(e) > 5 and isinstance(e[5], list) else None
            if n in ("move", "forward", "get", "as_const") and (e[4] or o):
                return self.sym(e[4][0], st, ctx, depth + 1) if e[4] else o
            return ("call", self.db.decls.get(e[3], {}).get("q", n), o) + tuple(self.sym(a, st, ctx, depth + 1) for a in e[4] if a and a[0] != "dflt")
        if k == "op":
            if ("res", id(e)) in dict(st[0]):
                return dict(st[0])[("res", id(e))]
            if e[3] in ("->", "*") and len(e[5]) == 1:
                return self.sym(e[5][0], st, ctx, depth + 1)
            return ("op", e[3]) + tuple(self.sym(a, st, ctx, depth + 1) for a in e[5])
        if k in ("bin", "un"):
            if k == "un" and e[3] in ("*", "&"):
                return self.sym(e[4], st, ctx, depth + 1)
            return (k, e[3]) + tuple(self.sym(x, st, ctx, depth + 1) for x in e[4:] if isinstance(x, list))
        if k in ("ctor", "init"):
            a = [x for x in (e[4] if k == "ctor" else e[3]) if x and x[0] != "dflt"]
            if len(a) == 1:
                return self.sym(a[0], st, ctx, depth + 1)
            return ("make",) + tuple(self.sym(x, st, ctx, depth + 1) for x in a)
        if k == "cond":
            return ("cond",) + tuple(self.sym(x, st, ctx, depth + 1) for x in e[3:] if isinstance(x, list))
        return ("?", k)

    def atom(self, e, val, st, ctx):
        """fact when condition e has the value val: (op, a, b), True (nothing known) or False (impossible)"""
        e = self.strip(e)
        while e and e[0] == "un" and e[3] == "!":
            e, val = self.strip(e[4]), not val
        if not e:
            return True
        op = None
        if e[0] == "bin" and e[3] in OPS:
            op, a, b = e[3], e[4], e[5]
        elif e[0] == "op" and e[3] in OPS and len(e[5]) == 2:
            op, (a, b) = e[3], e[5]
        if op:
            a, b = self.sym(a, st, ctx), self.sym(b, st, ctx)
            if not val:
                op = NEG[op]
            if op in (">", ">="):
                a, b, op = b, a, SWAP[op]
            if op in ("==", "!=") and repr(b) < repr(a):
                a, b = b, a
            if a[0] == "k" and b[0] == "k" and op in ("==", "!="):
                return (a == b) == (op == "==")
            return (op, a, b)
        s = self.sym(e, st, ctx)
        while isinstance(s, tuple) and s[:1] == ("un",) and s[1] == "!" and len(s) == 3:
            s, val = s[2], not val
        if isinstance(s, tuple) and s[:1] in (("bin",), ("op",)) and s[1] in OPS and len(s) == 4:
            op, a, b = (s[1] if val else NEG[s[1]]), s[2], s[3]
            if op in (">", ">="):
                a, b, op = b, a, SWAP[op]
            if op in ("==", "!=") and repr(b) < repr(a):
                a, b = b, a
            return (op, a, b)
        if s == ("k", "true"):
            return val
        if s in (("k", "false"), ("k", "null")):
            return not val
        return ("true" if val else "false", s, None)

    def negated(self, a):
        op, x, y = a
        op = NEG[op]
        if op in (">", ">="):
            return (SWAP[op], y, x)
        return (op, x, y)

    def kill(self, env, facts, l):
        """a location changes: forget the facts and values that were stated through it"""
        def has(s):
            return isinstance(s, tuple) and (s == ("val", l) or any(has(x) for x in s))
        env = frozenset((k, v) for k, v in env if k != l and not self.within(l, k))
        return env, facts

    def within(self, l, k):
        while isinstance(k, tuple) and len(k) == 3 and k[0] == "m":
            k = k[1]
            if k == l:
                return True
        return False

    def assign(self, st, l, s):
        env, facts = self.kill(st[0], st[1], l)
        return (env | {(l, s)}, facts)

    # ---- expression effects, calls first
    def effects(self, f, e, st, ctx):
        """states after evaluating e (its calls and assignments, inner first)"""
        sts = [st]
        for x in self.order(e):
            nxt = []
            for s in sts:
                nxt += self.apply(f, x, s, ctx)
            sts = list(dict.fromkeys(nxt))
        return sts

    def order(self, e):
        e0 = e
        if not e0 or not isinstance(e0, list):
            return
        if e0[0] == "lam":
            return
        for k in core.kids(e0):
            yield from self.order(k)
        if e0[0] in ("call", "op", "bin", "un", "ctor"):
            yield e0

    def apply(self, f, x, st, ctx):
        k = x[0]
        if k == "bin" and x[3] == "=":
            l = self.lv(x[4], ctx, st)
            return [self.assign(st, l, self.sym(x[5], st, ctx))] if l else [st]
        if k == "op" and x[3] == "=" and len(x[5]) == 2:
            l = self.lv(x[5][0], ctx, st)
            return [self.assign(st, l, self.sym(x[5][1], st, ctx))] if l else [st]
        if k == "bin" and x[3].endswith("=") and x[3] not in OPS or k == "op" and x[3] in ("+=", "-=", "++", "--") or k == "un" and ("++" in x[3] or "--" in x[3]):
            l = self.lv(x[5][0] if k == "op" else x[4], ctx, st)
            return [self.assign(st, l, ("upd", x[1]))] if l else [st]
        if k in ("call", "op", "ctor"):
            r = self.call(f, x, st, ctx)
            if r is not None:
                return [((self.kill(s[0], s[1], ("res", id(x)))[0] | {(("res", id(x)), sy)}, s[1]) if sy is not None else s) for sy, s in r]
            t = None
            if k == "call":
                t = x[3]
            elif k == "op" and x[3] == "()":
                t = core.lambda_of(self.db, f, x[5][0])
            g = self.db.fns.get(t) if t else None
            if g is not None and g.b and ctx.depth < self.maxdepth and g.id not in ctx.stack and not self.db.decls.get(t, {}).get("virt") and self.relevant(g):
                return self.inline(f, g, x, st, ctx)
            # reference arguments are set by the callee
            d = self.db.decls.get(core.callee(x)) or {}
            pt = d.get("pt") or []
            args = x[4] if k != "op" else x[5][1:]
            for i, a in enumerate(args):
                if i < len(pt) and pt[i].endswith("&") and not pt[i].endswith("&&") and not const_ref(pt[i]) and not d.get("q", "").startswith("std::"):
                    l = self.lv(a, ctx, st)
                    if l and l[0] != "g":
                        st = self.assign(st, l, ("out", x[1], i))
                elif i < len(pt) and pt[i].endswith("*") and not pt[i].startswith("const "):
                    s = self.strip(a)
                    if s and s[0] == "un" and s[3] == "&":
                        l = self.lv(s[4], ctx, st)
                        if l:
                            st = self.assign(st, l, ("out", x[1], i) + tuple(self.sym(y, st, ctx) for y in args[:i]))
        return [st]

    def inline(self, f, g, x, st, ctx):
        args = x[4] if x[0] == "call" else x[5][1:]
        refs = dict(ctx.refs) if g.parent else {}
        env = st[0]
        for p, a in zip(g.p, args):
            s = self.strip(a)
            if p[2].endswith("&") or p[2].endswith("*"):
                l = self.lv(a, ctx, st)
                if s and s[0] == "un" and s[3] == "&":
                    l = self.lv(s[4], ctx, st)
                if l:
                    refs[p[0]] = l
                    continue
            env = frozenset((k, v) for k, v in env if k != ("v", p[0])) | {(("v", p[0]), self.sym(a, st, ctx))}
        this = ctx.this
        if x[0] == "call" and len(x) > 5 and isinstance(x[5], list) and g.cls:
            this = self.lv(x[5], ctx, st) or ("obj", self.sym(x[5], st, ctx))
        c2 = Ctx(g, ctx.depth + 1, refs, this, ctx.stack + (g.id,))
        outs = {}
        mine = {k for k, _ in env}
        for s, rs in self.run(g, (env, st[1]), c2):
            # locals of the callee go out of scope
            loc = self.locals(g)
            e2 = frozenset((k, v) for k, v in s[0] if not (self.base(k) in loc) and not (k[0] == "res" and k not in mine))
            outs[(rs, e2, s[1])] = None
        res = []
        for rs, e2, fa in outs:
            e3 = frozenset((k, v) for k, v in e2 if k != ("res", id(x)))
            if rs is not None:
                e3 |= {(("res", id(x)), rs)}
            res.append((e3, fa))
        return res

    def base(self, k):
        while isinstance(k, tuple) and len(k) == 3 and k[0] == "m":
            k = k[1]
        return k

    def locals(self, g):
        c = getattr(self, "_loc", None)
        if c is None:
            c = self._loc = {}
        if g.id not in c:
            s = {("v", p[0]) for p in g.p}
            for t in core.stmts(g.b):
                if t[0] == "decl":
                    s |= {("v", v[0]) for v in t[2]} | {("alias", v[0]) for v in t[2]}
                elif t[0] == "rfor" and t[2]:
                    s.add(("v", t[2][0] if isinstance(t[2], (list, tuple)) else t[2]))
            c[g.id] = s
        return c[g.id]

    def start(self, f):
        return (frozenset(), frozenset()), Ctx(f, 0, {}, ("this",), (f.id,))

    def run(self, f, st, ctx):
        """outcomes [(state, returned symbol)]"""
        g = core.cfg(self.db, f, self.asserts)
        outs = []
        work = [(g.entry, st)]
        seen = {(g.entry.i, st)}
        self.trail = getattr(self, "trail", {})
        while work:
            n, s = work.pop()
            if len(seen) > self.limit:
                raise RuntimeError("too many states in " + f.q)
            self.at(f, n, s, ctx)
            if n.k in ("abort", "throw"):
                continue
            if n.k in ("exit", "endfn"):
                if n.k == "endfn" or not n.succ:
                    outs.append((s, dict(s[0]).get(("ret", ctx.depth))))
                    if n.k == "endfn" and n.succ:
                        outs.pop()
                if not n.succ:
                    continue
            sts = [s]
            if n.e and n.k != "loop":
                sts = self.effects(f, n.e, s, ctx)
            for s2 in sts:
                if n.k == "d" and n.x:
                    l = ("v", n.x[0])
                    t = f.types[n.x[2]] if isinstance(n.x[2], int) and n.x[2] < len(f.types) else ""
                    s2 = self.declare(f, n, l, t, s2, ctx)
                elif n.k == "loop" and n.x and n.x[0]:
                    v = n.x[0][0] if isinstance(n.x[0], (list, tuple)) else n.x[0]
                    s2 = self.assign(s2, ("v", v), ("elem", n.ln))
                elif n.k == "ret":
                    rs = self.sym(n.e, s2, ctx) if n.e else None
                    s2 = (frozenset((k, v) for k, v in s2[0] if k != ("ret", ctx.depth)) | {(("ret", ctx.depth), rs)}, s2[1])
                for t, lab in n.succ:
                    s3 = s2
                    if n.k == "br" and lab is not None:
                        a = self.atom(n.e, bool(lab), s2, ctx)
                        if a is False:
                            continue
                        if a is not True:
                            if self.negated(a) in s2[1]:
                                continue
                            if self.keep(a):
                                s3 = (s2[0], s2[1] | {a})
                        # results of calls are consumed by the test
                    s3 = (frozenset((k, v) for k, v in s3[0] if k[0] != "res"), s3[1])
                    key = (t.i, s3)
                    if key not in seen:
                        seen.add(key)
                        work.append((t, s3))
        return outs

    def declare(self, f, n, l, t, st, ctx):
        if n.e:
            if t.endswith("&"):
                a = self.lv(n.e, ctx, st)
                if a and a != l:
                    return (frozenset((k, v) for k, v in st[0] if k != ("alias", l[1])) | {(("alias", l[1]), a)}, st[1])
            return self.assign(st, l, self.sym(n.e, st, ctx))
        return self.assign(st, l, ("uninit",))
