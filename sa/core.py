"""AST helpers, control-flow graphs and path exploration over the extracted facts."""
from collections import deque

EXPR_KIDS = {
    "call": lambda n: (n[4] + ([n[5]] if n[5] else [])),
    "op": lambda n: n[5],
    "ctor": lambda n: n[4],
    "mem": lambda n: [n[4]] if n[4] else [],
    "bin": lambda n: [n[4], n[5]],
    "un": lambda n: [n[4]],
    "cond": lambda n: [n[3], n[4], n[5]],
    "new": lambda n: [n[3]] if n[3] else [],
    "del": lambda n: [n[2]],
    "init": lambda n: n[3],
    "idx": lambda n: [n[3], n[4]],
    "throw": lambda n: [n[2]] if n[2] else [],
    "x": lambda n: n[5],
    "cast": lambda n: [n[5]],
    "icast": lambda n: [n[4]],
    "dflt": lambda n: [n[2]] if n[2] else [],
    "lam": lambda n: [c[3] for c in n[3] if c[3]],
}


def kids(n):
    f = EXPR_KIDS.get(n[0])
    if f is None:
        return ()
    return [k for k in f(n) if k]


def walk(n):
    """All expressions nested in an expression (itself included), outside lambda bodies."""
    st = [n]
    while st:
        x = st.pop()
        if not x:
            continue
        yield x
        ks = kids(x)
        if ks:
            st.extend(reversed(ks))


def walk_eval(n):
    """Nested expressions, operands before operators."""
    if not n:
        return
    for k in kids(n):
        yield from walk_eval(k)
    yield n


def stmt_exprs(s):
    """Top-level expressions of a statement and of everything nested in it, in source order."""
    if not s:
        return
    k = s[0]
    if k == "expr":
        yield s[2]
    elif k == "{}":
        for c in s[2]:
            yield from stmt_exprs(c)
    elif k == "decl":
        for v in s[2]:
            if v[3]:
                yield v[3]
    elif k == "if":
        yield from stmt_exprs(s[2])
        if s[3] and s[3][3]:
            yield s[3][3]
        if s[4]:
            yield s[4]
        yield from stmt_exprs(s[5])
        yield from stmt_exprs(s[6])
    elif k == "for":
        yield from stmt_exprs(s[2])
        if s[3]:
            yield s[3]
        if s[4]:
            yield s[4]
        yield from stmt_exprs(s[5])
    elif k == "rfor":
        if s[3]:
            yield s[3]
        yield from stmt_exprs(s[4])
    elif k == "while":
        yield s[2]
        yield from stmt_exprs(s[3])
    elif k == "do":
        yield from stmt_exprs(s[2])
        yield s[3]
    elif k == "ret":
        if s[2]:
            yield s[2]
    elif k == "switch":
        yield s[2]
        yield from stmt_exprs(s[3])
    elif k == "case":
        yield from stmt_exprs(s[3])
    elif k == "default":
        yield from stmt_exprs(s[2])
    elif k == "try":
        yield from stmt_exprs(s[2])
        for h in s[3]:
            yield from stmt_exprs(h[1])


def stmts(s):
    """All statements nested in a statement (itself included)."""
    if not s:
        return
    yield s
    k = s[0]
    if k == "{}":
        for c in s[2]:
            yield from stmts(c)
    elif k == "if":
        yield from stmts(s[2])
        yield from stmts(s[5])
        yield from stmts(s[6])
    elif k == "for":
        yield from stmts(s[2])
        yield from stmts(s[5])
    elif k == "rfor":
        yield from stmts(s[4])
    elif k == "while":
        yield from stmts(s[3])
    elif k == "do":
        yield from stmts(s[2])
    elif k in ("switch", "case"):
        yield from stmts(s[3])
    elif k == "default":
        yield from stmts(s[2])
    elif k == "try":
        yield from stmts(s[2])
        for h in s[3]:
            yield from stmts(h[1])


def fn_exprs(fn):
    """All expressions in a function body (and constructor initialisers), outside lambda bodies."""
    for i in fn.inits or ():
        if i[2]:
            yield from walk(i[2])
    for e in stmt_exprs(fn.b):
        yield from walk(e)


def strip(n):
    """Removes casts, default-argument wrappers and copies."""
    while n:
        k = n[0]
        if k == "icast":
            n = n[4]
        elif k == "cast":
            n = n[5]
        elif k == "dflt":
            n = n[2]
        elif k == "ctor" and n[5] in ("copy", "move") and len(n[4]) >= 1:
            n = n[4][0]
        elif k == "init" and len(n[3]) == 1:
            n = n[3][0]
        else:
            return n
    return n


def strip_implicit(n):
    while n:
        k = n[0]
        if k == "icast":
            n = n[4]
        elif k == "dflt":
            n = n[2]
        else:
            return n
    return n


def callee(n):
    k = n[0]
    if k == "call":
        return n[3]
    if k == "op":
        return n[4]
    if k == "ctor":
        return n[3]
    return None


def is_assert_fail(db, n):
    n = strip(n)
    if n and n[0] == "call" and n[3]:
        d = db.decls.get(n[3])
        return bool(d and d["n"] in ("__assert_fail", "__assert", "__assert_rtn"))
    return False


def is_noreturn(db, n):
    n = strip(n)
    if n and n[0] == "call" and n[3]:
        d = db.decls.get(n[3])
        return bool(d and (d.get("nr") or d["n"] in ("__assert_fail", "abort", "exit", "terminate")))
    return False


class Node:
    __slots__ = ("i", "k", "e", "ln", "succ", "x")

    # k: "e"    evaluate expression e
    #    "d"    declare variable x=(id,name,type-idx,static) with initialiser e (may be None)
    #    "as"   assign boolean constant/expr e to lvalue x  (from lowering of && / || / ?:)
    #    "br"   branch on atomic expression e (labels True / False)
    #    "loop" range-for: x=(var decl, bindings), e=range (labels True / False)
    #    "sw"   switch on e (labels ("case", expr) / "default")
    #    "ret"  return e (may be None)
    #    "throw"/"abort"  path ends
    #    "entry"/"exit"/"nop"/"endfn"
    def __init__(self, i, k, e=None, ln=0, x=None):
        self.i = i; self.k = k; self.e = e; self.ln = ln; self.x = x; self.succ = []

    def __repr__(self):
        return "<%d %s l%d -> %s>" % (self.i, self.k, self.ln, [(t.i, l) for t, l in self.succ])


BOOLOPS = ("&&", "||")


class CFG:
    def __init__(self, db, fn, keep_asserts=True):
        self.db = db
        self.fn = fn
        self.keep_asserts = keep_asserts
        self.nodes = []
        self.exit = self.new("exit")
        self.abort = self.new("abort")
        self.assert_br = set()
        end = self.new("endfn", ln=fn.el)
        end.succ.append((self.exit, None))
        self.brk = []
        self.cnt = []
        self.handlers = []
        first = self.stmt(fn.b, end)
        for ini in reversed(fn.inits or []):
            if ini[2]:
                n = self.new("e", ini[2], ini[2][1], x=("init", ini[0]))
                n.succ.append((first, None))
                first = n
        self.entry = self.new("entry", ln=fn.l)
        self.entry.succ.append((first, None))

    def new(self, k, e=None, ln=0, x=None):
        n = Node(len(self.nodes), k, e, ln, x)
        self.nodes.append(n)
        return n

    # ---- conditions
    def cond(self, e, t, f):
        e0 = e
        e = strip_implicit(e)
        if e is None:
            return t
        k = e[0]
        if k == "un" and e[3] == "!":
            return self.cond(e[4], f, t)
        if k == "bin" and e[3] == "&&":
            return self.cond(e[4], self.cond(e[5], t, f), f)
        if k == "bin" and e[3] == "||":
            return self.cond(e[4], t, self.cond(e[5], t, f))
        if k == "bin" and e[3] == ",":
            return self.eval(e[4], self.cond(e[5], t, f))
        if k == "cond":
            return self.cond(e[3], self.cond(e[4], t, f), self.cond(e[5], t, f))
        if k == "bool":
            return t if e[2] else f
        if k == "cast" and e[3] in ("static", "func", "c") and self._isbool(e):
            return self.cond(e[5], t, f)
        if k == "bin" and e[3] in ("==", "!="):
            for a, b in ((e[4], e[5]), (e[5], e[4])):
                sb = strip(b)
                if sb and sb[0] == "bool":
                    same = bool(sb[2]) == (e[3] == "==")
                    return self.cond(a, t, f) if same else self.cond(a, f, t)
        n = self.new("br", e, e[1])
        n.succ.append((t, True))
        n.succ.append((f, False))
        return n

    def _isbool(self, e):
        try:
            return self.fn.types[e[2]] == "bool"
        except Exception:
            return False

    def _lowerable(self, e):
        e = strip_implicit(e)
        if not e:
            return False
        if e[0] == "bin" and e[3] in BOOLOPS:
            return True
        if e[0] == "un" and e[3] == "!":
            return True
        if e[0] == "cond":
            return True
        return False

    def value(self, e, mk, nxt, ln):
        """mk(expr) -> node consuming a value; lowers short-circuit operators into branches."""
        s = strip_implicit(e)
        if s and s[0] == "cond" and not is_noreturn(self.db, s[5]) and not is_noreturn(self.db, s[4]):
            return self.cond(s[3], self.value(s[4], mk, nxt, ln), self.value(s[5], mk, nxt, ln))
        if s and ((s[0] == "bin" and s[3] in BOOLOPS) or (s[0] == "un" and s[3] == "!" and self._isbool(s))):
            nt = mk(["bool", ln, 1])
            nf = mk(["bool", ln, 0])
            if s[0] == "bin":
                # keep the last operand as the value so that callee results stay visible
                if s[3] == "&&":
                    return self.cond(s[4], self.value(s[5], mk, nxt, ln), nf)
                return self.cond(s[4], nt, self.value(s[5], mk, nxt, ln))
            return self.cond(s[4], nf, nt)
        return mk(e)

    def eval(self, e, nxt):
        s = strip_implicit(e)
        if s is None:
            return nxt
        while s and s[0] == "cast" and s[4] == "ToVoid":
            s = strip_implicit(s[5])
        if s[0] == "cond":
            if is_noreturn(self.db, s[5]):
                if is_assert_fail(self.db, s[5]):
                    if not self.keep_asserts:
                        return nxt
                    ab = self.new("abort", s[5], s[1], x="assert")
                    before = len(self.nodes)
                    r = self.cond(s[3], nxt, ab)
                    for n in self.nodes[before:]:
                        if n.k == "br":
                            self.assert_br.add(n.i)
                    return r
                ab = self.new("abort", s[5], s[1])
                return self.cond(s[3], nxt, ab)
            return self.cond(s[3], self.eval(s[4], nxt), self.eval(s[5], nxt))
        if s[0] == "bin" and s[3] in BOOLOPS:
            if s[3] == "&&":
                return self.cond(s[4], self.eval(s[5], nxt), nxt)
            return self.cond(s[4], nxt, self.eval(s[5], nxt))
        if s[0] == "bin" and s[3] == ",":
            return self.eval(s[4], self.eval(s[5], nxt))
        if is_noreturn(self.db, s):
            return self.new("abort", s, s[1])
        if s[0] == "throw":
            n = self.new("throw", s, s[1])
            tgt = self.handlers[-1] if self.handlers else None
            if tgt:
                for h in tgt:
                    n.succ.append((h, None))
            else:
                n.succ.append((self.abort, None))
            return n
        if s[0] == "bin" and s[3] == "=" and self._lowerable(s[5]):
            def mk(v, s=s):
                n = self.new("e", ["bin", s[1], s[2], "=", s[4], v], s[1])
                n.succ.append((nxt, None))
                return n
            return self.value(s[5], mk, nxt, s[1])
        n = self.new("e", s, s[1])
        n.succ.append((nxt, None))
        return n

    def decl(self, v, nxt):
        x = (v[0], v[1], v[2], v[4])
        init = v[3]
        if init and self._lowerable(init) and not v[4]:
            def mk(val):
                n = self.new("d", val, v[5] or (val[1] if val else 0), x)
                n.succ.append((nxt, None))
                return n
            return self.value(init, mk, nxt, v[5])
        n = self.new("d", init, v[5] or (init[1] if init else 0), x)
        n.succ.append((nxt, None))
        return n

    def stmt(self, s, nxt):
        if not s:
            return nxt
        k = s[0]
        if k == "{}":
            for c in reversed(s[2]):
                nxt = self.stmt(c, nxt)
            return nxt
        if k == "expr":
            return self.eval(s[2], nxt)
        if k == "decl":
            for v in reversed(s[2]):
                nxt = self.decl(v, nxt)
            return nxt
        if k == "if":
            t = self.stmt(s[5], nxt)
            f = self.stmt(s[6], nxt)
            r = self.cond(s[4], t, f) if s[4] else t
            if s[3]:
                r = self.decl(s[3], r)
            if s[2]:
                r = self.stmt(s[2], r)
            return r
        if k == "ret":
            def mk(val):
                n = self.new("ret", val, s[1])
                n.succ.append((self.exit, None))
                return n
            return self.value(s[2], mk, None, s[1]) if s[2] else mk(None)
        if k == "while":
            head = self.new("nop", ln=s[1], x="loophead")
            self.brk.append(nxt)
            self.cnt.append(head)
            body = self.stmt(s[3], head)
            self.brk.pop(); self.cnt.pop()
            c = self.cond(s[2], body, nxt)
            head.succ.append((c, None))
            return head
        if k == "do":
            c0 = strip_implicit(s[3])
            if c0 and c0[0] == "bool" and not c0[2]:
                # do { ... } while (false)
                self.brk.append(nxt)
                self.cnt.append(nxt)
                body = self.stmt(s[2], nxt)
                self.brk.pop(); self.cnt.pop()
                return body
            head = self.new("nop", ln=s[1], x="loophead")
            chead = self.new("nop", ln=s[1])
            self.brk.append(nxt)
            self.cnt.append(chead)
            body = self.stmt(s[2], chead)
            self.brk.pop(); self.cnt.pop()
            c = self.cond(s[3], head, nxt)
            chead.succ.append((c, None))
            head.succ.append((body, None))
            return head
        if k == "for":
            head = self.new("nop", ln=s[1], x="loophead")
            inc = self.eval(s[4], head) if s[4] else head
            self.brk.append(nxt)
            self.cnt.append(inc)
            body = self.stmt(s[5], inc)
            self.brk.pop(); self.cnt.pop()
            c = self.cond(s[3], body, nxt) if s[3] else body
            head.succ.append((c, None))
            return self.stmt(s[2], head) if s[2] else head
        if k == "rfor":
            head = self.new("loop", s[3], s[1], x=(s[2], s[5]))
            self.brk.append(nxt)
            self.cnt.append(head)
            body = self.stmt(s[4], head)
            self.brk.pop(); self.cnt.pop()
            head.succ.append((body, True))
            head.succ.append((nxt, False))
            return head
        if k == "break":
            return self.brk[-1] if self.brk else nxt
        if k == "cont":
            return self.cnt[-1] if self.cnt else nxt
        if k == "switch":
            sw = self.new("sw", s[2], s[1])
            self.brk.append(nxt)
            self._cases = getattr(self, "_cases", [])
            self._cases.append([])
            body = self.stmt(s[3], nxt)
            cases = self._cases.pop()
            self.brk.pop()
            has_def = False
            for lab, tgt in cases:
                sw.succ.append((tgt, lab))
                if lab == "default":
                    has_def = True
            if not has_def:
                sw.succ.append((nxt, "default"))
            return sw
        if k == "case":
            t = self.stmt(s[3], nxt)
            n = self.new("nop", ln=s[1])
            n.succ.append((t, None))
            self._cases[-1].append((("case", str(s[2])), n))
            return n
        if k == "default":
            t = self.stmt(s[2], nxt)
            n = self.new("nop", ln=s[1])
            n.succ.append((t, None))
            self._cases[-1].append(("default", n))
            return n
        if k == "try":
            hs = [self.stmt(h[1], nxt) for h in s[3]]
            self.handlers.append(hs)
            body = self.stmt(s[2], nxt)
            self.handlers.pop()
            n = self.new("nop", ln=s[1], x="try")
            n.succ.append((body, "body"))
            for h in hs:
                n.succ.append((h, "exc"))
            return n
        return nxt

    def preds(self):
        p = {}
        for n in self.nodes:
            for t, l in n.succ:
                p.setdefault(t.i, []).append((n, l))
        return p

    def reachable(self):
        seen = set()
        st = [self.entry]
        while st:
            n = st.pop()
            if n.i in seen:
                continue
            seen.add(n.i)
            for t, _ in n.succ:
                st.append(t)
        return seen


def cfg(db, fn, asserts=True):
    c = getattr(db, "_cfgs", None)
    if c is None:
        c = db._cfgs = {}
    key = (fn.id, asserts)
    if key not in c:
        c[key] = CFG(db, fn, asserts)
    return c[key]


def explore(g, init, step, limit=200000):
    """Explores (node, state) pairs from the entry.  step(node, state) returns an iterable of
    (label, state); an edge is followed when its label is None or equals label (label "*": all).
    Yields (node, state, path()) for every pair reached."""
    start = (g.entry, init)
    parent = {(g.entry.i, init): None}
    q = deque([start])
    cnt = 0
    while q:
        n, st = q.popleft()
        cnt += 1
        if cnt > limit:
            raise RuntimeError("state space too large in " + g.fn.q)
        yield n, st, parent
        outs = step(n, st)
        if outs is None:
            outs = [("*", st)]
        for lab, ns in outs:
            for t, l in n.succ:
                if lab == "*" or l is None or l == lab:
                    key = (t.i, ns)
                    if key not in parent:
                        parent[key] = (n.i, st)
                        q.append((t, ns))


def path_lines(g, parent, node, st):
    r = []
    key = (node.i, st)
    while key is not None:
        n = g.nodes[key[0]]
        if n.ln and (not r or r[-1] != n.ln):
            r.append(n.ln)
        key = parent.get(key)
    return list(reversed(r))


def lambda_of(db, fn, n, env=None):
    """Lambda id a callable expression denotes (a lambda expression or a variable holding one)."""
    n = strip(n)
    if not n:
        return None
    if n[0] == "lam":
        return n[2]
    if n[0] == "v":
        return lam_vars(db, fn).get(n[3])
    return None


def root_fn(db, fn):
    while fn.parent and fn.parent in db.fns:
        fn = db.fns[fn.parent]
    return fn


def lam_vars(db, fn):
    c = getattr(db, "_lamvars", None)
    if c is None:
        c = db._lamvars = {}
    r = root_fn(db, fn)
    if r.id in c:
        return c[r.id]
    m = {}
    st = [r]
    while st:
        f = st.pop()
        for s in stmts(f.b):
            if s[0] == "decl":
                for v in s[2]:
                    e = strip(v[3]) if v[3] else None
                    if e and e[0] == "lam":
                        m[v[0]] = e[2]
        st.extend(db.fns[x] for x in f.lams if x in db.fns)
    c[r.id] = m
    return m


def family(db, fn):
    """The function and all lambdas nested in it."""
    r = [fn]
    for x in fn.lams:
        if x in db.fns:
            r.extend(family(db, db.fns[x]))
    return r


def all_exprs(db, fn):
    for f in family(db, fn):
        yield from fn_exprs(f)


def show(db, n, depth=4):
    """Readable rendering of an expression."""
    if n is None:
        return ""
    if depth < 0:
        return "..."
    k = n[0]
    s = lambda x: show(db, x, depth - 1)
    if k == "call":
        nm = db.decls[n[3]]["n"] if n[3] in db.decls else "<indirect>"
        a = ", ".join(s(x) for x in n[4])
        if n[5] and n[6] != 2:
            o = s(n[5])
            if o == "this":
                return "%s(%s)" % (nm, a)
            return "%s.%s(%s)" % (o, nm, a)
        if n[6] == 2:
            return "(%s)(%s)" % (s(n[5]), a)
        return "%s(%s)" % (nm, a)
    if k == "op":
        a = [s(x) for x in n[5]]
        if len(a) == 2:
            if n[3] == "[]":
                return "%s[%s]" % (a[0], a[1])
            return "%s %s %s" % (a[0], n[3], a[1])
        if n[3] == "()":
            return "%s(%s)" % (a[0], ", ".join(a[1:]))
        return "%s%s" % (n[3], "".join(a))
    if k == "ctor":
        if n[5] in ("copy", "move") and n[4]:
            return s(n[4][0])
        cls = db.decls[n[3]]["cls"].split("::")[-1] if n[3] in db.decls else "?"
        return "%s(%s)" % (cls, ", ".join(s(x) for x in n[4] if x[0] != "dflt"))
    if k == "v":
        return n[4]
    if k in ("gv", "enumr"):
        return (n[4] if k == "gv" else n[3]).split("::")[-1]
    if k == "mem":
        b = s(n[4]) if n[4] else ""
        f = n[3].split("::")[-1]
        return f if b in ("", "this") else "%s.%s" % (b, f)
    if k == "str":
        return repr(n[2][:40])
    if k == "int":
        return str(n[3])
    if k == "bool":
        return "true" if n[2] else "false"
    if k == "null":
        return "nullptr"
    if k == "this":
        return "this"
    if k == "bin":
        return "%s %s %s" % (s(n[4]), n[3], s(n[5]))
    if k == "un":
        return "%s%s" % (n[3].replace("post", ""), s(n[4]))
    if k == "cond":
        return "%s ? %s : %s" % (s(n[3]), s(n[4]), s(n[5]))
    if k == "fref":
        return db.decls[n[3]]["n"] if n[3] in db.decls else "&?"
    if k in ("icast", "cast", "dflt"):
        return s(kids(n)[0]) if kids(n) else ""
    if k == "lam":
        return "[lambda]"
    if k == "init":
        return "{%s}" % ", ".join(s(x) for x in n[3][:4])
    if k == "idx":
        return "%s[%s]" % (s(n[3]), s(n[4]))
    return k
