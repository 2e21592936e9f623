"""Interprocedural success/failure analysis.

For every function the analysis explores its control-flow graph with the state
   (flag, vars): flag  = set of events seen on the path: "D" an error diagnostic was emitted,
                         "F" a step failed (diagnosed, or a fallible call / stream test failed)
                 vars  = what is known about local bool / pointer variables: True / False (null)
                         or the call whose pending result they hold.
Summaries per function (greatest fixpoint over the call graph):
   loud   failing results (false / null) only after an error diagnostic
   fail   failing results only after a failure event
   diag   an error diagnostic on every path to return
"""
import re
from . import core

FAILVALS = ("F",)


def is_bool(t):
    return t == "bool"


def is_ptr(t):
    return t.endswith("*") or t.startswith("std::unique_ptr<") or t.startswith("std::shared_ptr<")


def is_status_type(t):
    return is_bool(t) or is_ptr(t)


SUCCESS_PARAM = re.compile(r"^(success|ok|result)$")
FAILNAME = re.compile(r"fail|err|reject|invalid", re.I)

# Results that are known to be true where they are used (confirmed by reading the code); the
# argument is part of the assumptions of the checks that use it.
#  - ParseOptCondExprImpl::parse ends with "... && parseCheckBool() && parseHasUpdatedValue()":
#    every successful parseCheckComparison()/parseCheckBool() sequence has set m_right.
ALWAYS_TRUE = {("commsdsl::parse::ParseOptCondExprImpl::parse", "parseHasUpdatedValue")}


ALG_ALL = {"std::all_of", "std::none_of"}


class Summary:
    __slots__ = ("loud", "fail", "diag", "retF", "noret", "opaque", "wit_loud", "wit_fail", "wit_diag")

    def __init__(self):
        self.loud = True; self.fail = True; self.diag = True; self.retF = True; self.noret = False; self.opaque = False
        self.wit_loud = None; self.wit_fail = None; self.wit_diag = None


class Status:
    def __init__(self, db, unreach=()):
        self.db = db
        self.unreach = set(unreach)     # (function id, line) of returns proved unreachable
        self.sum = {}
        self.frefs_cache = {}
        self.asg_cache = {}
        self.tgt_cache = {}
        self.track = False
        self.in_ret = False
        self.enum_cache = {}
        self.enum_types = set()
        self.fns = [f for f in db.fns.values() if not f.dep]
        self.solve()

    # ---- call targets
    def targets(self, fn, n):
        """Function ids an evaluated call may reach (in-repo bodies), or None when unknown/external."""
        key = id(n)
        r = self.tgt_cache.get(key)
        if r is None:
            r = (n, self._targets(fn, n))
            self.tgt_cache[key] = r
        return r[1]

    def _targets(self, fn, n):
        db = self.db
        k = n[0]
        if k == "op" and n[3] == "()":
            l = core.lambda_of(db, fn, n[5][0]) if n[5] else None
            if l and l in db.fns:
                return [l]
        c = core.callee(n)
        if k == "call" and c is None:
            return self.indirect(fn, n)
        if c is None:
            return None
        d = db.decls.get(c)
        if d and d["n"] == "operator()" and k == "op":
            return None
        if k == "call" and d and d.get("virt") and n[6] != 1:
            r = [x for x in ({c} | db.overriders.get(c, set())) if x in db.fns]
            return r or None
        if c in db.fns:
            return [c]
        return None

    def indirect(self, fn, n):
        """Call through a pointer: any function whose address is taken in the enclosing function."""
        r = core.root_fn(self.db, fn)
        if r.id not in self.frefs_cache:
            ids = []
            for e in core.all_exprs(self.db, r):
                if e[0] == "fref" and e[3] in self.db.fns:
                    ids.append(e[3])
                if e[0] == "gv" and e[3] in self.db.globals:
                    g = self.db.globals[e[3]]
                    if g.get("init"):
                        for x in core.walk(g["init"]):
                            if x[0] == "fref" and x[3] in self.db.fns:
                                ids.append(x[3])
            self.frefs_cache[r.id] = sorted(set(ids))
        return self.frefs_cache[r.id] or None

    # ---- primitives
    def prim_diag(self, n):
        """The call emits an error-level diagnostic."""
        if n[0] not in ("call",):
            return False
        d = self.db.decls.get(n[3]) if n[3] else None
        if not d:
            return False
        if d["n"] in ("parseSetCurrLevel", "genLog", "genLogImpl"):
            for a in n[4]:
                a = core.strip(a)
                if a and a[0] == "enumr" and a[3].endswith("ParseErrorLevel_Error"):
                    return True
        return False

    def stream_test(self, fn, n):
        """+1: true means ok (stream.good()), -1: true means failure (stream.fail(), !stream, error_code)."""
        if n[0] == "call" and n[3]:
            d = self.db.decls.get(n[3])
            if d and d.get("cls", "").startswith("std::basic_ios") or d and d.get("cls", "").startswith("std::basic_ofstream") \
                    or d and d.get("cls", "").startswith("std::basic_ifstream"):
                if d["n"] in ("good", "operator bool", "is_open"):
                    return 1
                if d["n"] in ("fail", "bad", "operator!"):
                    return -1
            if d and d.get("cls") == "std::error_code" and d["n"] == "operator bool":
                return -1
        if n[0] == "op" and n[3] == "!" and n[4]:
            d = self.db.decls.get(n[4])
            if d and d.get("cls", "").startswith("std::basic_ios"):
                return -1
        return 0

    def call_sum(self, fn, n):
        """(always diag, loud on failing, fail on failing, known) of a call expression."""
        if self.prim_diag(n):
            return (True, False, False, False)
        t = self.targets(fn, n)
        if t:
            ss = [self.sum[x] for x in t if x in self.sum]
            if ss:
                return (all(s.diag for s in ss), all(s.loud for s in ss), all(s.fail for s in ss), True)
        # std algorithms over a predicate
        c = core.callee(n)
        d = self.db.decls.get(c) if c else None
        if d and d["q"] == "std::all_of" and n[0] == "call" and n[4]:
            l = core.lambda_of(self.db, fn, n[4][-1])
            if l in self.sum:
                return (False, self.sum[l].loud, self.sum[l].fail, True)
            a = core.strip(n[4][-1])
            if a and a[0] == "fref" and a[3] in self.sum:
                return (False, self.sum[a[3]].loud, self.sum[a[3]].fail, True)
        return (False, False, False, False)

    def lam_assigned(self, lid):
        """Variables of enclosing functions a lambda (or one nested in it) assigns."""
        if lid in self.asg_cache:
            return self.asg_cache[lid]
        r = set()
        f = self.db.fns.get(lid)
        if f:
            for e in core.all_exprs(self.db, f):
                if e[0] == "bin" and e[3].endswith("=") and e[3] not in ("==", "!=", "<=", ">="):
                    x = core.strip(e[4])
                    if x and x[0] == "v":
                        r.add(x[3])
        self.asg_cache[lid] = r
        return r

    # ---- state
    @staticmethod
    def setv(vars_, v, val):
        d = dict(vars_)
        if val is None:
            d.pop(v, None)
        else:
            d[v] = val
        return tuple(sorted(d.items()))

    def eval_effects(self, fn, e, flag, vars_):
        """Flag changes through calls nested in an evaluated expression; forgets escaping variables."""
        for n in core.walk_eval(e):
            k = n[0]
            if k in ("call", "op", "ctor"):
                diag = self.call_sum(fn, n)[0]
                if diag:
                    flag = flag | frozenset("DF")
                args = n[4] if k != "op" else n[5]
                for a in args:
                    l = core.lambda_of(self.db, fn, a)
                    if l:
                        for v in self.lam_assigned(l):
                            vars_ = self.setv(vars_, v, None)
                c = core.callee(n)
                d = self.db.decls.get(c) if c else None
                for i, a in enumerate(args):
                    a = core.strip(a)
                    # variable handed out by reference or address
                    if a and a[0] == "un" and a[3] == "&":
                        b = core.strip(a[4])
                        if b and b[0] == "v":
                            vars_ = self.setv(vars_, b[3], None)
                    elif a and a[0] == "v" and d and k != "op" and i < len(d["pt"]):
                        pt = d["pt"][i]
                        if pt == "bool &" and i < len(d.get("pn", ())) and SUCCESS_PARAM.match(d["pn"][i]):
                            vars_ = self.setv(vars_, a[3], ("c", False, True))
                        elif pt.endswith("&") and not pt.startswith("const ") and "const &" not in pt:
                            vars_ = self.setv(vars_, a[3], None)
                        elif pt.endswith("&&"):
                            vars_ = self.setv(vars_, a[3], None)
        return flag, vars_

    def pending(self, fn, e):
        """Abstract value of an expression in boolean/pointer context."""
        s = core.strip(e)
        if not s:
            return None
        k = s[0]
        if k == "bool":
            return "T" if s[2] else "F"
        if k == "null":
            return "F"
        if k == "int":
            if self.is_int_status(fn):
                return "T" if str(s[3]) in ("0", "0U") else "F"
            return None
        if k == "un" and s[3] == "-" and self.is_int_status(fn):
            return "F"
        if k == "enumr" and self.enum_status(s):
            return self.enum_status(s)
        if k == "ctor":
            d = self.db.decls.get(s[3])
            if d and d["q"].startswith("std::unique_ptr") or d and "unique_ptr" in d["cls"]:
                a = [x for x in s[4] if x[0] != "dflt"]
                if not a:
                    return "F"
                return self.pending(fn, a[0])
            return None
        if k == "new":
            return "T"
        if k == "this":
            return "T"
        if k == "un" and s[3] == "&":
            return "T"
        if k == "v":
            return ("v", s[3])
        if k == "call" and s[3]:
            d = self.db.decls.get(s[3])
            if d and d["q"].startswith("std::make_unique"):
                return "T"
            if d and d["n"] == "move" and d["q"].startswith("std::") and s[4]:
                return self.pending(fn, s[4][0])
            if d and d["n"] == "get" and s[5] and "_ptr" in d.get("cls", ""):
                o = core.strip(s[5])
                if o and (o[0] == "op" and o[3] in ("*", "->", "[]") or o[0] == "mem" and core.strip(o[4] or ["this"])[0] in ("op", "v")):
                    return "T"      # an element of a container: never null in this code base
                return self.pending(fn, s[5])
            if d and d["n"] == "operator bool" and s[5] and "_ptr" in d.get("cls", ""):
                return self.pending(fn, s[5])
        if k in ("call", "op"):
            st = self.stream_test(fn, s)
            if st:
                return ("st", st)
            cs = self.call_sum(fn, s)
            if self.in_ret and s[0] == "call" and s[3] and (fn.q, self.db.decls[s[3]]["n"]) in ALWAYS_TRUE:
                return "T"
            if cs[3]:
                t = self.targets(fn, s)
                if t and any(self.sum[x].opaque for x in t if x in self.sum):
                    return None
                if t and not any(self.sum[x].retF for x in t if x in self.sum):
                    return "T"
                if self.track:
                    return ("c", cs[1], cs[2], tuple(t) if t else ("algo",))
                return ("c", cs[1], cs[2])
        return None

    def is_end(self, e):
        """The expression is the past-the-end iterator of some container."""
        s = core.strip(e)
        if s and s[0] == "call" and s[3]:
            d = self.db.decls.get(s[3])
            return bool(d and d["n"] in ("end", "cend") and not s[4] or d and d["q"] in ("std::end", "std::cend"))
        return False

    def resolve(self, val, vars_):
        seen = set()
        while isinstance(val, tuple) and val[0] == "v":
            if val[1] in seen:
                return None
            seen.add(val[1])
            nv = dict(vars_).get(val[1])
            if nv is None:
                return None
            val = nv
        return val

    def split(self, val, flag, vars_):
        """(outcome True/False, flag, vars) for testing a pending value."""
        var = None
        if isinstance(val, tuple) and val[0] == "v":
            var = val[1]
        r = self.resolve(val, vars_)
        def upd(o, fl):
            vs = vars_
            if var is not None:
                vs = self.setv(vs, var, "T" if o else "F")
            return (o, fl, vs)
        if r == "T":
            return [upd(True, flag)]
        if r == "F":
            return [upd(False, flag)]
        if isinstance(r, tuple) and r[0] == "iv":
            if r[1] == r[2] == 0:
                return [upd(False, flag)]
            if r[1] > 0 or r[2] < 0:
                return [upd(True, flag)]
            return [upd(True, flag), upd(False, flag)]
        if isinstance(r, tuple) and r[0] == "c":
            fl = flag
            if r[1]:
                fl = fl | frozenset("DF")
            if r[2]:
                fl = fl | frozenset("F")
            res = [upd(True, flag), upd(False, fl)]
            if self.track and not r[1]:
                o, f2, vs = res[1]
                res[1] = (o, f2, self.setv(vs, -1, r[3]))
            return res
        if isinstance(r, tuple) and r[0] == "st":
            bad = flag | frozenset("F")
            return [upd(True, flag if r[1] > 0 else bad), upd(False, bad if r[1] > 0 else flag)]
        return [upd(True, flag), upd(False, flag)]

    def is_int_status(self, fn):
        """Exit-status functions: main() and functions whose result main() returns."""
        if fn.ret != "int":
            return False
        return fn.n == "main" or fn.n.endswith("Exec") or fn.q.endswith("::genExec")

    def enum_status(self, e):
        """T/F for enumerators of a status enumeration (one with a failure enumerator)."""
        if not self.enum_cache:
            self.enum_cache[""] = None
            for q, en in self.db.enums.items():
                t = q.split("::")[-1]
                if "Result" in t or "Status" in t:
                    names = [v[0].split("::")[-1] for v in en["vals"]]
                    if any(FAILNAME.search(x) for x in names):
                        self.enum_types.add(q)
                        for x in names:
                            self.enum_cache[x] = "F" if FAILNAME.search(x) else "T"
        return self.enum_cache.get(e[3].split("::")[-1])

    def is_status_ret(self, fn):
        if is_status_type(fn.ret) or self.is_int_status(fn):
            return True
        self.enum_status(["enumr", 0, 0, "", 0])
        return fn.ret in self.enum_types

    # ---- integer facts about local variables (intervals)
    CMP = {"<", "<=", ">", ">=", "==", "!="}

    def cmp_atom(self, e):
        """(variable, op, constant) of a comparison of a local variable with an integer literal."""
        if not e or e[0] != "bin" or e[3] not in self.CMP:
            return None
        flip = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
        for a, b, op in ((e[4], e[5], e[3]), (e[5], e[4], flip[e[3]])):
            a = core.strip(a); b = core.strip(b)
            if a and b and a[0] == "v" and b[0] == "un" and b[3] == "-" and core.strip(b[4]) and core.strip(b[4])[0] == "int":
                try:
                    return a[3], op, -int(core.strip(b[4])[3])
                except ValueError:
                    return None
            if a and b and a[0] == "v" and b[0] == "int":
                try:
                    return a[3], op, int(b[3])
                except ValueError:
                    return None
        return None

    def split_cmp(self, atom, flag, vars_):
        v, op, c = atom
        old = dict(vars_).get(v)
        lo, hi = (old[1], old[2]) if isinstance(old, tuple) and old[0] == "iv" else (-1 << 70, 1 << 70)
        outs = []
        for o in (True, False):
            p = op if o else {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
            l, h = lo, hi
            if p == "<":
                h = min(h, c - 1)
            elif p == "<=":
                h = min(h, c)
            elif p == ">":
                l = max(l, c + 1)
            elif p == ">=":
                l = max(l, c)
            elif p == "==":
                l = max(l, c); h = min(h, c)
            elif p == "!=":
                if l == c:
                    l = c + 1
                if h == c:
                    h = c - 1
            if l > h:
                continue
            outs.append((o, flag, self.setv(vars_, v, ("iv", l, h))))
        return outs

    def dead(self, fn, e):
        """The expression calls a function that never returns normally (asserts on every path)."""
        for n in core.walk(e):
            if n[0] in ("call", "op"):
                t = self.targets(fn, n)
                if t and all(x in self.sum and self.sum[x].noret for x in t):
                    return True
        return False

    # ---- per function exploration
    def step(self, fn, n, st):
        flag, vars_ = st
        k = n.k
        if n.e is not None and k in ("e", "d", "br", "loop", "sw") and self.dead(fn, n.e):
            return []
        if k in ("entry", "nop", "exit", "abort", "endfn"):
            if n.x == "try":
                return [("body", st), ("exc", (flag | frozenset("F"), vars_))]
            return [("*", st)]
        if k == "ret":
            return [("*", st)]
        if k == "d":
            flag, vars_ = self.eval_effects(fn, n.e, flag, vars_) if n.e else (flag, vars_)
            t = fn.types[n.x[2]]
            lit = core.strip(n.e) if n.e else None
            if t == "const bool" and lit and lit[0] == "bool":
                vars_ = self.setv(vars_, n.x[0], "T" if lit[2] else "F")
            elif (is_status_type(t) or t in self.enum_types) and n.x[3] == 0:
                v = self.pending(fn, n.e) if n.e else ("F" if "_ptr<" in t else None)
                if isinstance(v, tuple) and v[0] == "v":
                    v = self.resolve(v, vars_)
                vars_ = self.setv(vars_, n.x[0], v)
            elif n.x[0] in dict(vars_):
                vars_ = self.setv(vars_, n.x[0], None)
            return [("*", (flag, vars_))]
        if k == "e":
            e = n.e
            flag, vars_ = self.eval_effects(fn, e, flag, vars_)
            s = core.strip_implicit(e)
            if s and s[0] == "bin" and s[3] == "=" or s and s[0] == "op" and s[3] == "=" and len(s[5]) == 2:
                lhs, rhs = (s[4], s[5]) if s[0] == "bin" else s[5]
                x = core.strip(lhs)
                if x and x[0] == "v":
                    v = self.pending(fn, rhs)
                    if isinstance(v, tuple) and v[0] == "v":
                        v = self.resolve(v, vars_)
                    vars_ = self.setv(vars_, x[3], v)
            elif s and (s[0] == "bin" and s[3].endswith("=") and s[3] not in ("&=", "|=", "==", "!=", "<=", ">=") or
                        s[0] == "un" and ("++" in s[3] or "--" in s[3])):
                x = core.strip(s[4])
                if x and x[0] == "v":
                    vars_ = self.setv(vars_, x[3], None)
            elif s and s[0] == "bin" and s[3] in ("&=", "|="):
                x = core.strip(s[4])
                if x and x[0] == "v":
                    outs = []
                    old = self.split(("v", x[3]), flag, vars_)
                    for o1, f1, v1 in old:
                        for o2, f2, v2 in self.split(self.pending(fn, s[5]), f1, v1):
                            r = (o1 and o2) if s[3] == "&=" else (o1 or o2)
                            outs.append(("*", (f2, self.setv(v2, x[3], "T" if r else "F"))))
                    return outs
            elif s and s[0] == "call" and s[3]:
                d = self.db.decls.get(s[3])
                if d and d["n"] == "reset" and s[5] and "unique_ptr" in d.get("cls", ""):
                    x = core.strip(s[5])
                    if x and x[0] == "v":
                        a = [y for y in s[4] if y[0] != "dflt"]
                        vars_ = self.setv(vars_, x[3], self.pending(fn, a[0]) if a else "F")
            return [("*", (flag, vars_))]
        if k == "br":
            e = core.strip_implicit(n.e)
            flag, vars_ = self.eval_effects(fn, e, flag, vars_)
            neg = False
            val = None
            atom = self.cmp_atom(e)
            if atom:
                return [(o, (fl, vs)) for o, fl, vs in self.split_cmp(atom, flag, vars_)]
            if e and e[0] == "bin" and e[3] in ("==", "!="):
                for a, b in ((e[4], e[5]), (e[5], e[4])):
                    sb = core.strip(b)
                    if sb and sb[0] == "null":
                        val = self.pending(fn, a)
                        neg = e[3] == "=="
                    elif sb and sb[0] == "enumr" and self.enum_status(sb):
                        val = self.pending(fn, a)
                        if self.enum_status(sb) == "F":
                            neg = e[3] == "=="
                        else:
                            # equality with one of the non-failing enumerators
                            ok = [(e[3] == "==", (fl, vs)) for o, fl, vs in self.split(val, flag, vars_) if o]
                            return ok + [(e[3] != "==", (flag, vars_))]
            elif e and e[0] == "op" and e[3] in ("==", "!=") and len(e[5]) == 2:
                for a, b in ((e[5][0], e[5][1]), (e[5][1], e[5][0])):
                    sb = core.strip(b)
                    if sb and sb[0] == "null" or self.is_end(b):
                        val = self.pending(fn, a)
                        neg = e[3] == "=="
            else:
                val = self.pending(fn, e)
            return [((not o) if neg else o, (fl, vs)) for o, fl, vs in self.split(val, flag, vars_)]
        if k in ("loop", "sw"):
            flag, vars_ = self.eval_effects(fn, n.e, flag, vars_)
            return [("*", (flag, vars_))]
        if k == "throw":
            return [("*", st)]
        return [("*", st)]

    def outcomes(self, fn):
        """Every (return node, state before, abstract outcome, flag) of a function."""
        g = core.cfg(self.db, fn)
        bt = self.is_status_ret(fn)
        def step(n, st):
            return self.step(fn, n, st)
        for n, st, parent in core.explore(g, (frozenset(), ()), step):
            if n.k == "ret":
                if n.e is not None and self.dead(fn, n.e):
                    continue
                if (fn.id, n.ln) in self.unreach:
                    continue
                flag, vars_ = st
                flag, vars_ = self.eval_effects(fn, n.e, flag, vars_) if n.e else (flag, vars_)
                if n.e is not None and bt:
                    atom = self.cmp_atom(core.strip(n.e))
                    if atom:
                        for o, fl, vs in self.split_cmp(atom, flag, vars_):
                            yield g, n, st, parent, "T" if o else "F", fl
                        continue
                    self.in_ret = True
                    val = self.pending(fn, n.e)
                    self.in_ret = False
                    if val is None:
                        yield g, n, st, parent, "?", flag
                        continue
                    r0 = self.resolve(val, vars_)
                    for o, fl, vs in self.split(val, flag, vars_):
                        oo = "T" if o else "F"
                        if r0 is None:
                            oo = "?"
                        yield g, n, st, parent, oo, fl
                else:
                    yield g, n, st, parent, "V", flag
            elif n.k == "endfn":
                yield g, n, st, parent, "V", st[0]

    def solve(self):
        db = self.db
        for f in self.fns:
            self.sum[f.id] = Summary()
        callers = {}
        for f in self.fns:
            for e in core.fn_exprs(f):
                if e[0] in ("call", "op", "ctor"):
                    for t in self.targets(f, e) or ():
                        callers.setdefault(t, set()).add(f.id)
                    for a in (e[4] if e[0] != "op" else e[5]):
                        l = core.lambda_of(db, f, a)
                        if l:
                            callers.setdefault(l, set()).add(f.id)
                        a = core.strip(a)
                        if a and a[0] == "fref":
                            callers.setdefault(a[3], set()).add(f.id)
        work = [f.id for f in self.fns]
        inwork = set(work)
        work.reverse()
        while work:
            fid = work.pop()
            inwork.discard(fid)
            f = db.fns[fid]
            s = self.sum[fid]
            loud = fail = diag = True
            anyF = False
            some = False
            wl = wf = wd = None
            for g, n, st, parent, out, flag in self.outcomes(f):
                some = True
                if out == "?" and is_ptr(f.ret):
                    anyF = True
                    s.opaque = True
                elif out in ("F", "?"):
                    anyF = True
                    if "D" not in flag:
                        loud = False
                        wl = wl or (n.ln, core.path_lines(g, parent, n, st))
                    if "F" not in flag:
                        fail = False
                        wf = wf or (n.ln, core.path_lines(g, parent, n, st))
                if "D" not in flag:
                    diag = False
            ns = (loud and s.loud, fail and s.fail, diag and s.diag)
            s.wit_loud = s.wit_loud or wl
            s.wit_fail = s.wit_fail or wf
            if not some and not s.noret:
                s.noret = True
                for c in callers.get(fid, ()):
                    if c not in inwork:
                        inwork.add(c)
                        work.append(c)
            if ns != (s.loud, s.fail, s.diag) or s.retF != (s.retF and anyF):
                s.loud, s.fail, s.diag = ns
                s.retF = s.retF and anyF
                for c in callers.get(fid, ()):
                    if c not in inwork:
                        inwork.add(c)
                        work.append(c)


_st = {}


def get(db):
    if id(db) not in _st:
        _st[id(db)] = Status(db)
    return _st[id(db)]
