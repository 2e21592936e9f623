"""C24: processing always terminates."""
import re
from sa import core, status, callgraph
from sa.facts import AnalysisBroken
from sa.rules.c15 import ty, bare

RULE = ("every cycle of every control-flow graph contains a step that strictly advances one and the same quantity (counter, position, iterator, chain pointer, container size) which is nowhere "
        "moved back inside the cycle and whose growth forces an exit; every cycle of the call graph contains calls that move to another element, all in one direction")
EXPLAIN = ("Each strongly connected part of each function's control-flow graph is decomposed: a range loop over a container that the loop does not grow; or a quantity for which a relational "
           "analysis (>= and > relative to its value, 'not found' tracked) shows that the advancing nodes lie on every cycle, that no other node in the cycle moves it back, and that an exit test against a bound the cycle does not move "
           "(or the end of the text or list searched) is passed on every round. Advances by the length of a caller-supplied text are turned into obligations at every call site. "
           "In the call graph (virtual calls resolved to all overriders, implementation objects identified with their owners) the calls that stay on the same element are taken out: what remains of each recursion must go to "
           "members or list elements only, or to parents only. The compiler's own infinite-recursion and loop-variable diagnostics must be empty.")
ASSUME = ["element trees, parent chains, sibling lists and reference chains are finite and acyclic (an element is registered, and can be referred to, only after it has been parsed)",
          "the repeated reordering of a frame's layers (exit decided by genForceCommsOrder) terminates: the order relation between layers is not modelled",
          "counters of 32 bits or more do not wrap around before their container's size or bit count is reached"]

FINDS = {"find", "find_first_of", "find_first_not_of"}
STDFIND = {"std::find", "std::find_if", "std::find_if_not", "std::lower_bound", "std::upper_bound", "std::adjacent_find", "std::search", "std::find_first_of", "std::partition_point"}
GROW = {"push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace", "append", "resize", "assign", "operator+=", "insert_or_assign", "try_emplace", "splice", "merge", "push", "operator="}
SHRINK = {"pop_back", "pop_front", "erase", "clear", "pop", "remove_prefix", "remove_suffix", "shrink_to_fit", "swap"}
SCALARS = {"unsigned long", "unsigned int", "int", "long", "unsigned long long", "long long", "unsigned short", "bool"}
STDWRITE = {"swap", "exchange", "advance", "getline", "iter_swap", "stoul", "stoull", "stoll", "stoi", "stod", "strtol", "strtoll", "strtoull", "strtod"}
CHAIN = re.compile(r"next|prev|parent|sibling|child|refere|fieldimpl|last", re.I)
ORDER_CALL = "genForceCommsOrder"
GE, GT = 1, 2


def const_ref(t):
    while re.search(r"<[^<>]*>", t):
        t = re.sub(r"<[^<>]*>", "", t)
    return bool(re.search(r"^const [^*]*&$|\*\s*const\s*&$|&&$", t))


def boolval(e):
    return str(e[-1]).lower() in ("true", "1")


def within(k, a):
    """key k occurs in key a"""
    return re.search(r"(?<![\w])%s(?![\w])" % re.escape(k), a) is not None


class Loops:
    def __init__(self, db, f, oblig, asserts=False):
        self.db, self.f, self.oblig = db, f, oblig
        self.g = core.cfg(db, f, asserts)
        self.nodes = {n.i: n for n in self.g.nodes}
        self.succ = {n.i: [t.i for t, _ in n.succ] for n in self.g.nodes}
        reach = self.g.reachable()
        self.reach = reach
        self.defs = {}

    # ---- keys
    def key(self, e):
        e = self.strip(e)
        if not e:
            return None
        k = e[0]
        if k == "v":
            return "v%s" % e[3]
        if k == "gv":
            return "g%s" % e[4]
        if k == "this":
            return "this"
        if k == "mem":
            return "%s.%s" % (self.key(e[4]) if e[4] else "this", e[3].split("::")[-1])
        if k == "int":
            return "#%s" % e[3]
        if k == "call":
            d = self.db.decls.get(e[3], {})
            o = self.key(e[5]) if len(e) > 5 and isinstance(e[5], list) else ""
            n = d.get("n", "?")
            return "%s.%s(%s)" % (o, "size" if n == "length" else n, ",".join(str(self.key(a)) for a in e[4]))
        if k == "op":
            if e[3] in ("->", "*") and len(e[5]) == 1:
                return "*%s" % self.key(e[5][0])
            return "op%s(%s)" % (e[3], ",".join(str(self.key(a)) for a in e[5]))
        if k == "bin":
            return "(%s%s%s)" % (self.key(e[4]), e[3], self.key(e[5]))
        if k == "un":
            return "%s%s" % (e[3], self.key(e[4]))
        if k == "ctor" and len(e[4]) == 1:
            return self.key(e[4][0])
        return core.show(self.db, e)

    def strip(self, e):
        e = core.strip(e)
        while e and (e[0] in ("cast", "icast", "dflt") or e[0] == "ctor" and e[5] in ("copy", "move") and e[4]):
            e = core.strip(core.kids(e)[0]) if core.kids(e) else None
        return e

    def decl(self, e):
        return self.db.decls.get(core.callee(e), {}) if e and e[0] in ("call", "op", "ctor") else {}

    def is_npos(self, e):
        e = self.strip(e)
        return bool(e) and (e[0] == "gv" and e[4].endswith("::npos") or e[0] == "int" and str(e[3]) in ("-1", "18446744073709551615") or
                            e[0] == "mem" and e[3].endswith("::npos"))

    # ---- SCCs
    def sccs(self, nodes):
        nodes = set(nodes)
        index, low, st, on, out, c = {}, {}, [], set(), [], [0]
        for r in nodes:
            if r in index:
                continue
            work = [(r, iter(self.succ[r]))]
            index[r] = low[r] = c[0]; c[0] += 1
            st.append(r); on.add(r)
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in nodes:
                        continue
                    if w not in index:
                        index[w] = low[w] = c[0]; c[0] += 1
                        st.append(w); on.add(w)
                        work.append((w, iter(self.succ[w])))
                        break
                    if w in on:
                        low[v] = min(low[v], index[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == index[v]:
                        comp = set()
                        while True:
                            w = st.pop(); on.discard(w); comp.add(w)
                            if w == v:
                                break
                        if len(comp) > 1 or v in self.succ[v]:
                            out.append(comp)
        return out

    # ---- container effects within a component
    def effects(self, comp):
        """(node, key of container, method) for mutating calls, lambda bodies included"""
        for i in comp:
            n = self.nodes[i]
            if not n.e:
                continue
            for e, inl in self.exprs(n.e):
                if e[0] == "call" and len(e) > 5 and isinstance(e[5], list):
                    nm = self.decl(e).get("n")
                    if nm in GROW | SHRINK:
                        yield i, self.key(e[5]), nm, e
                elif e[0] == "op" and e[3] in ("+=", "="):
                    yield i, self.key(e[5][0]), "operator" + e[3], e
                elif e[0] == "call" and self.decl(e).get("q", "").startswith(("std::back_inserter", "std::inserter", "std::front_inserter")):
                    yield i, self.key(e[4][0]), "push_back", e

    def exprs(self, e, depth=0):
        """expressions evaluated at a node, bodies of local lambdas called or passed there included"""
        for x in core.walk(e):
            yield x, depth > 0
            if depth < 3:
                l = None
                if x[0] == "lam":
                    l = x[2]
                elif x[0] == "op" and x[3] == "()":
                    l = core.lambda_of(self.db, self.f, x[5][0])
                elif x[0] == "v":
                    l = core.lambda_of(self.db, self.f, x)
                if l and l in self.db.fns:
                    for y in core.fn_exprs(self.db.fns[l]):
                        yield y, True

    def writes(self, n):
        """(key, kind, rhs) of variables written at a node"""
        if n.k == "d":
            yield "v%s" % n.x[0], "=", n.e
        if n.k == "loop" and n.x and n.x[0]:
            pass
        if not n.e:
            return
        for x in core.walk(n.e):
            if x[0] == "bin" and x[3].endswith("=") and x[3] not in ("==", "!=", "<=", ">="):
                yield self.key(x[4]), x[3], x[5]
            elif x[0] == "un" and x[3].replace("post", "") in ("++", "--"):
                yield self.key(x[4]), x[3].replace("post", ""), None
            elif x[0] == "op" and x[3] in ("++", "--", "+=", "-=", "="):
                yield self.key(x[5][0]), x[3], (x[5][1] if len(x[5]) > 1 and x[3] not in ("++", "--") else None)
            elif x[0] in ("call", "ctor") or x[0] == "op" and x[3] == "()":
                l = core.lambda_of(self.db, self.f, x[5][0]) if x[0] == "op" else None
                if l and l in self.db.fns:
                    yield from self.lam_writes(l, x[5][1:])
                    continue
                d = self.decl(x)
                pt = d.get("pt") or []
                if x[0] == "call" and x[3] in self.db.fns and self.db.fns[x[3]].b and not d.get("virt") and \
                        any(p[2].endswith("&") and not const_ref(p[2]) and re.sub(r"[ &]+$", "", p[2]) in SCALARS for p in self.db.fns[x[3]].p):
                    yield from self.lam_writes(x[3], x[4])
                    continue
                for i, a in enumerate(x[4] if x[0] != "op" else x[5][1:]):
                    t = pt[i] if i < len(pt) else ""
                    s = self.strip(a)
                    if s and s[0] == "lam" and s[2] in self.db.fns:
                        yield from self.lam_writes(s[2], None)
                        continue
                    if d.get("q", "").startswith(("std::", "__gnu_cxx::")) and d.get("n") not in STDWRITE:
                        continue
                    if t.endswith("&") and not const_ref(t) and s and s[0] in ("v", "mem"):
                        yield self.key(s), "?", None
                    if s and s[0] == "un" and s[3] == "&" and not t.startswith("const "):
                        yield self.key(s[4]), "?", None

    def lam_writes(self, l, args, depth=0):
        """writes made by a called lambda or function to what its caller can see; a write that some path through it leaves out is marked with '~'"""
        lf = self.db.fns[l]
        byval, byref = set(), {}
        for i, p in enumerate(lf.p):
            t = p[2]
            if args is not None and i < len(args) and t.endswith("&") and not const_ref(t):
                byref[p[0]] = args[i]
            else:
                byval.add(p[0])
        local = set()
        for s in core.stmts(lf.b):
            if s[0] == "decl":
                local |= {v[0] for v in s[2]}
            elif s[0] == "rfor" and s[2]:
                local.add(s[2][0] if isinstance(s[2], (list, tuple)) else s[2])
        sub = {p[0]: a for p, a in zip(lf.p, args)} if args is not None else {}
        found, at = [], {}
        g = core.cfg(self.db, lf, False)
        for n in g.nodes:
            if not n.e:
                continue
            for x in core.walk(n.e):
                k = None
                if x[0] == "bin" and x[3].endswith("=") and x[3] not in ("==", "!=", "<=", ">="):
                    k, op, r = x[4], x[3], x[5]
                elif x[0] == "un" and x[3].replace("post", "") in ("++", "--"):
                    k, op, r = x[4], x[3].replace("post", ""), None
                elif x[0] == "op" and x[3] in ("++", "--", "+=", "-=", "="):
                    k, op, r = x[5][0], x[3], (x[5][1] if len(x[5]) > 1 and x[3] not in ("++", "--") else None)
                elif x[0] == "call" and x[3] in self.db.fns and depth < 3:
                    for i, a in enumerate(x[4]):
                        sa = self.strip(a)
                        pp = self.db.fns[x[3]].p
                        if sa and sa[0] == "v" and i < len(pp) and pp[i][2].endswith("&") and not const_ref(pp[i][2]) and sa[3] not in byval and sa[3] not in local:
                            kk = self.key(byref[sa[3]]) if sa[3] in byref else self.key(sa)
                            found.append((kk, "?", None))
                    continue
                if k is None:
                    continue
                s = self.strip(k)
                if s and s[0] == "v" and (s[3] in byval or s[3] in local):
                    continue
                kk = self.key(byref[s[3]]) if s and s[0] == "v" and s[3] in byref else self.key(k)
                if s and s[0] == "mem" and lf.cls and not lf.parent and (not s[4] or s[4][0] == "this"):
                    pass
                found.append((kk, op, ("sub", r, sub) if r is not None else None))
                at.setdefault(kk, set()).add(n.i)
        for kk, op, r in found:
            skip = False
            for n, st, par in core.explore(g, False, lambda n, st: [("*", st or n.i in at.get(kk, ()))]):
                if n.k == "exit" and not st:
                    skip = True
            yield kk, ("~" if skip else "") + op, r

    # ---- constants
    def nonempty(self, e, depth=0):
        """True: text or container cannot be empty; ("param", i): when the parameter is not"""
        e = self.strip(e)
        if not e or depth > 5:
            return False
        if e[0] == "str":
            return len(e[2]) > 0
        if e[0] == "ctor":
            return bool(e[4]) and self.nonempty(e[4][0], depth + 1) is True
        if e[0] == "bin" and e[3] == "+" or e[0] == "op" and e[3] == "+":
            a = [e[4], e[5]] if e[0] == "bin" else e[5]
            return any(self.nonempty(x, depth + 1) is True for x in a)
        if e[0] == "chr":
            return True
        if e[0] == "gv":
            g = self.db.globals.get(e[3])
            return bool(g and g.get("const") and g.get("init") and self.nonempty(g["init"], depth + 1) is True)
        if e[0] == "call" and e[3] in self.db.fns and not self.db.fns[e[3]].p:
            rf = self.db.fns[e[3]]
            rs = [x for x in core.stmts(rf.b) if x[0] == "ret"]
            L = Loops(self.db, rf, self.oblig) if rs else None
            return bool(rs) and all(r[2] and L.nonempty(r[2], depth + 1) is True for r in rs)
        if e[0] == "v":
            rf = core.root_fn(self.db, self.f)
            for g in core.family(self.db, rf):
                for i, p in enumerate(g.p):
                    if p[0] == e[3]:
                        return ("param", g.id, i) if not g.parent else False
                for s in core.stmts(g.b):
                    if s[0] == "decl":
                        for v in s[2]:
                            if v[0] == e[3]:
                                cst = "const" in (g.types[v[2]] if isinstance(v[2], int) else str(v[2])) or v[4]
                                return bool(v[3]) and (cst or not self.modified(rf, e[3])) and self.nonempty(v[3], depth + 1) is True
        return False

    def modified(self, rf, vid):
        for g in core.family(self.db, rf):
            for x in core.fn_exprs(g):
                if x[0] == "op" and x[3] in ("=", "+=") and self.key(x[5][0]) == "v%s" % vid:
                    return True
                if x[0] == "call" and len(x) > 5 and isinstance(x[5], list) and self.key(x[5]) == "v%s" % vid and self.decl(x).get("n") in GROW | SHRINK:
                    return True
        return False

    # ---- relational evaluation: (rel, may be npos, [pending obligations])
    def ev(self, e, st, v, sub=None, depth=0):
        if isinstance(e, tuple) and e and e[0] == "sub":
            return self.ev(e[1], st, v, e[2], depth)
        e = self.strip(e)
        if not e or depth > 12:
            return (0, True, ())
        rec = lambda x: self.ev(x, st, v, sub, depth + 1)
        if e[0] == "v" and sub and e[3] in sub:
            return self.ev(sub[e[3]], st, v, None, depth + 1)
        k = self.key(e) if not sub or not any(x[0] == "v" and x[3] in sub for x in core.walk(e)) else None
        d = dict(st)
        if k in d:
            return (d[k][0], d[k][1], ())
        if e[0] == "init" and len(e[3]) == 1:
            return rec(e[3][0])
        if e[0] == "cond":
            a, b = rec(e[4]), rec(e[5])
            return (min(a[0], b[0]), a[1] or b[1], a[2] + b[2])
        if e[0] == "un":
            o = e[3]
            if o in ("*", "&"):
                return rec(e[4])
            return (0, True, ())
        if e[0] == "bin" and e[3] == "+" or e[0] == "op" and e[3] == "+" and len(e[5]) == 2:
            a, b = (e[4], e[5]) if e[0] == "bin" else e[5]
            for x, y in ((a, b), (b, a)):
                r = rec(x)
                if r[0]:
                    if r[1]:
                        return (0, True, ())  # npos + n wraps around
                    ys = self.strip(y)
                    if ys and ys[0] == "int":
                        return (GT if int(ys[3]) > 0 else r[0], False, r[2])
                    if ys and ys[0] == "gv" and (self.db.globals.get(ys[3]) or {}).get("const") and self.strip((self.db.globals[ys[3]].get("init"))) and \
                            self.strip(self.db.globals[ys[3]]["init"])[0] == "int":
                        return (GT if int(self.strip(self.db.globals[ys[3]]["init"])[3]) > 0 else r[0], False, r[2])
                    if ys and ys[0] == "call" and self.decl(ys).get("n") in ("size", "length") and len(ys) > 5 and isinstance(ys[5], list):
                        ne = self.nonempty(ys[5])
                        if ne is True:
                            return (GT, False, r[2])
                        if isinstance(ne, tuple):
                            return (GT, False, r[2] + (ne,))
                        return (r[0], False, r[2])
                    t = bare(ty(self.f, y))
                    if t.startswith("unsigned") or t in ("size_t", "std::size_t"):
                        return (r[0], False, r[2])
            return (0, True, ())
        if e[0] == "call":
            dd = self.decl(e)
            n, q = dd.get("n", ""), dd.get("q", "")
            obj = e[5] if len(e) > 5 and isinstance(e[5], list) else None
            if n in FINDS and obj is not None and len(e[4]) >= 2:
                r = rec(e[4][1])
                return (r[0], True, r[2])
            base = q.split("<")[0]
            if base in STDFIND and len(e[4]) >= 2:
                r = rec(e[4][0])
                if r[0] == GE and base == "std::find_if" and self.rejects_first(e[4][0], e[4][2]):
                    return (GT, r[1], r[2])
                if r[0] == GE and base in ("std::upper_bound",):
                    return (GE, r[1], r[2])
                return r
            if base in ("std::next",):
                r = rec(e[4][0])
                s = self.strip(e[4][1]) if len(e[4]) > 1 else None
                if len(e[4]) < 2 or not s or s[0] == "int" and int(s[3]) > 0:
                    return (GT, r[1], r[2]) if r[0] else r
                return (0, True, ())
            if base in ("std::min",):
                a = [rec(x) for x in e[4][:2]]
                return (min(x[0] for x in a), all(x[1] for x in a), sum((x[2] for x in a), ()))
            if base in ("std::max",):
                a = [rec(x) for x in e[4][:2]]
                return (max(x[0] for x in a), any(x[1] for x in a), sum((x[2] for x in a), ()))
            if base in ("std::move", "std::forward", "std::as_const", "std::addressof"):
                return rec(e[4][0])
            if n == "erase" and obj is not None and e[4]:
                r = rec(e[4][0])
                return (GT, False, r[2]) if r[0] else r
            r = self.returned(e, st, v, sub, depth)
            if r and r[0]:
                return r
            # chains of elements
            t = ty(self.f, e)
            if t.rstrip(" &").endswith("*") or t.endswith("&"):
                if obj is not None:
                    r = rec(obj)
                    if r[0] and CHAIN.search(n):
                        return (GT, False, r[2])
                    if r[0] and n in ("get", "operator->", "operator*"):
                        return r
                if re.search("cast", n, re.I):
                    for a in e[4]:
                        r = rec(a)
                        if r[0]:
                            return r
                if CHAIN.search(n):
                    for a in e[4]:
                        r = rec(a)
                        if r[0]:
                            return (GT, False, r[2])
            return (0, True, ())
        if e[0] == "mem":
            r = rec(e[4]) if e[4] else (0, True, ())
            if r[0] and CHAIN.search(e[3].split("::")[-1]) and ty(self.f, e).rstrip(" &").endswith("*"):
                return (GT, False, r[2])
            return (0, True, ())
        if e[0] == "op" and e[3] in ("->", "*") and len(e[5]) == 1:
            return rec(e[5][0])
        if e[0] == "ctor" and len(e[4]) == 1:
            return rec(e[4][0])
        return (0, True, ())

    def returned(self, e, st, v, sub, depth):
        """value returned by a helper: the weakest of its return expressions over the arguments"""
        g = self.db.fns.get(e[3])
        if not g or not g.b or depth > 6 or self.db.decls.get(e[3], {}).get("virt"):
            return None
        m = dict((p[0], a) for p, a in zip(g.p, e[4]) if not self.modified(g, p[0]))
        for s in core.stmts(g.b):
            if s[0] == "decl":
                for x in s[2]:
                    if x[3] and not self.assigned(g, x[0]):
                        m[x[0]] = ("sub", x[3], m)
        rs = [s for s in core.stmts(g.b) if s[0] == "ret"]
        if not rs or len(rs) > 4 or len(m) > 12:
            return None
        res = None
        for r in rs:
            if not r[2]:
                return None
            x = self.ev(("sub", r[2], m), st, v, None, depth + 2)
            res = x if res is None else (min(res[0], x[0]), res[1] or x[1], res[2] + x[2])
        return res

    def assigned(self, g, vid):
        for h in core.family(self.db, g):
            for x in core.fn_exprs(h):
                t = x[4] if x[0] == "bin" and x[3].endswith("=") and x[3] not in ("==", "!=", "<=", ">=") or x[0] == "un" and ("++" in x[3] or "--" in x[3] or x[3] == "&") else \
                    x[5][0] if x[0] == "op" and x[3] in ("=", "+=", "-=", "++", "--") else None
                t = self.strip(t) if t else None
                if t and t[0] == "v" and t[3] == vid:
                    return True
        return False

    def rejects_first(self, it, pred):
        """the predicate of find_if is false for the element at the start: every alternative compares an attribute with the start element's own"""
        l = core.lambda_of(self.db, self.f, pred)
        if not l or l not in self.db.fns:
            return False
        lf = self.db.fns[l]
        rs = [s for s in core.stmts(lf.b) if s[0] == "ret"]
        if len(rs) != 1 or not lf.p:
            return False
        caps = {}
        for g in core.family(self.db, core.root_fn(self.db, self.f)):
            for s in core.stmts(g.b):
                if s[0] == "decl":
                    for v in s[2]:
                        if v[3]:
                            caps[v[0]] = v[3]
        start = self.key(it)

        def alt(e):
            e = self.strip(e)
            if e and e[0] == "bin" and e[3] == "||":
                return alt(e[4]) and alt(e[5])
            if e and e[0] == "bin" and e[3] == "!=":
                for a, b in ((e[4], e[5]), (e[5], e[4])):
                    a, b = self.strip(a), self.strip(b)
                    if a and a[0] == "mem" and a[4] and self.strip(a[4])[0] == "v" and self.strip(a[4])[3] == lf.p[0][0] and b and b[0] == "v" and b[3] in caps:
                        c = self.strip(caps[b[3]])
                        if c and c[0] == "mem" and c[3] == a[3] and self.key(c[4]) in (start, "*" + start):
                            return True
            return False
        return alt(rs[0][2])

    # ---- proof
    def prove(self, comp, depth=0):
        """None when the component terminates, otherwise a node to blame"""
        if depth > 8:
            return min(comp)
        heads = {t for i in self.reach if i not in comp for t in self.succ[i] if t in comp} or {min(comp)}
        for r in self.attempts(comp, heads):
            rest = self.sccs(comp - r)
            if all(self.prove(c, depth + 1) is None for c in rest):
                return None
        # the sub-loops may be the problem
        return min(comp, key=lambda i: (self.nodes[i].ln or 10 ** 9))

    def attempts(self, comp, heads):
        # range loops entered only at their head
        for h in heads:
            n = self.nodes[h]
            if n.k == "loop" and heads == {h}:
                rk = self.key(n.e)
                if not any(k == rk and m in GROW and m not in ("operator=", "operator+=") for _, k, m, _ in self.effects(comp)):
                    yield {h}
        cands = {}
        for i in comp:
            for k, op, r in self.writes(self.nodes[i]):
                if k and (k.startswith("v") or k.startswith("this") or k.startswith("g")):
                    cands.setdefault(k, set()).add(i)
        for v in sorted(cands):
            p = self.advance(comp, heads, v)
            if p:
                yield p
        # container growing towards a bound, or shrinking
        conts = {}
        for i, k, m, e in self.effects(comp):
            conts.setdefault(k, []).append((i, m, e))
        for c in sorted(x for x in conts if x):
            p = self.growth(comp, c, conts[c])
            if p:
                yield p
        # reordering of layers (assumed)
        for i in comp:
            n = self.nodes[i]
            if n.e and any(x[0] == "call" and self.decl(x).get("n") == ORDER_CALL for x in core.walk(n.e)):
                yield {i} | {j for j in comp if self.nodes[j].k == "br" and any(t not in comp for t in self.succ[j])}

    def exits(self, comp):
        for i in comp:
            n = self.nodes[i]
            if n.k == "br" and any(t.i not in comp for t, _ in n.succ):
                for t, l in n.succ:
                    if t.i not in comp:
                        yield n, l

    def passes(self, comp, b, p):
        """every cycle through p passes b"""
        for c in self.sccs(comp - {b}):
            if c & p:
                return False
        return True

    def grown(self, comp, e):
        """a container whose size the bound depends on grows inside the component"""
        ks = {k for _, k, m, _ in self.effects(comp) if m in GROW}
        bk = {self.key(x) for x in core.walk(e) if x[0] in ("v", "mem", "gv", "call", "op")}
        if ks & bk:
            return True
        ws = {k for i in comp for k, op, r in self.writes(self.nodes[i]) if not (op == "=" and self.nodes[i].k == "d" and False)}
        return bool({self.key(x) for x in core.walk(e) if x[0] in ("v", "mem")} & ws)

    def bound_ok(self, comp, v, p, st_at):
        """an exit test that growth of v forces"""
        best = False
        for b, lab in self.exits(comp):
            e = self.strip(b.e)
            if not e or not self.passes(comp, b.i, p):
                continue
            sides = None
            if e[0] == "bin" and e[3] in ("<", "<=", ">", ">=", "==", "!="):
                sides = (e[4], e[3], e[5])
            elif e[0] == "op" and e[3] in ("<", "<=", ">", ">=", "==", "!=") and len(e[5]) == 2:
                sides = (e[5][0], e[3], e[5][1])
            if not sides:
                continue
            l, op, r = sides
            if not lab:
                op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
            for x, o, y in ((l, op, r), (r, {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op], l)):
                # the loop is left when  x o y
                xr = min((self.ev(x, s, v)[0] for s in st_at.get(b.i, [()])), default=0)
                xv = self.mentions(x, v)
                if not (xr or xv):
                    continue
                if o in (">", ">=") and not self.grown(comp, y) and not self.mentions(y, v):
                    return True
                if o == "==" and self.is_npos(y) and xr:
                    return True
                if o == "==" and not self.grown(comp, y) and not self.mentions(y, v):
                    best = "eq"
        return best

    def mentions(self, e, v):
        e = self.strip(e)
        if not e:
            return False
        if self.key(e) == v:
            return True
        if e[0] == "bin" and e[3] in ("+",):
            return self.mentions(e[4], v) or self.mentions(e[5], v)
        if e[0] == "bin" and e[3] == "=":
            return self.key(e[4]) == v
        if e[0] in ("un",) and "++" in e[3]:
            return self.key(e[4]) == v
        return False

    def advance(self, comp, heads, v):
        """nodes of the component that strictly advance v; None when v may be moved back"""
        verdict, pend, st_at = {}, {}, {}
        seen = set()
        work = [(h, ((v, (GE, False)),)) for h in heads]
        down = False
        unit = True
        chain = False
        # decreasing counters
        ws = [(i, op, r) for i in comp for k, op, r in self.writes(self.nodes[i]) if k == v]
        if ws and all(op in ("--", "-=") for _, op, _ in ws):
            return self.countdown(comp, v, ws)
        while work:
            i, st = work.pop()
            if (i, st) in seen:
                continue
            if len(seen) > 20000:
                return None
            seen.add((i, st))
            st_at.setdefault(i, []).append(st)
            n = self.nodes[i]
            d = dict(st)
            adv = None
            wr = list(self.writes(n))
            for k, op, r in wr:
                if k == v:
                    cur = d.get(v, (GE, False))
                    weak = op.startswith("~")
                    op = op.lstrip("~")
                    if op == "++":
                        rel, np, ob = (GT, False, ()) if not cur[1] else (0, True, ())
                    elif op == "+=":
                        fake = None
                        rel, np, ob = self.plus(v, r, st)
                        unit = False
                    elif op == "=":
                        rel, np, ob = self.ev(r, st, v)
                        if rel == GT and self.pointerish(n, v):
                            chain = True
                        s = r
                        if not (rel == GT and self.is_plus_one(r)):
                            unit = False
                    else:
                        return None
                    if rel == 0:
                        return None
                    if weak:
                        rel, np, unit = GE, np or cur[1], False
                    if rel == GT:
                        adv = True
                        pend.setdefault(i, set()).update(ob)
                    else:
                        adv = False if adv is None else adv
                    # relations to the new value
                    nd = {v: (GE, np)}
                    if rel == GE:
                        nd.update({a: b for a, b in d.items() if a != v and b[0] == GT and False})
                    if r is not None and not isinstance(r, tuple):
                        kk = self.key(r)
                        if kk and re.match(r"v\d+$", kk) and kk != v:
                            nd[kk] = (GE, np)
                    d = nd
            for k, op, r in wr:
                if k == v or not k:
                    continue
                if op.startswith("~"):
                    d = {a: b for a, b in d.items() if not within(k, a)}
                elif op == "=" and r is not None:
                    rel, np, ob = self.ev(r, tuple(sorted(d.items())), v)
                    d = {a: b for a, b in d.items() if not within(k, a)}
                    if rel:
                        d[k] = (rel, np)
                        if ob:
                            d[k] = (GE, np)
                elif op in ("++", "+=") and k in d and not d[k][1]:
                    rel = GT if op == "++" else d[k][0]
                    d = {a: b for a, b in d.items() if a == k or not within(k, a)}
                    d[k] = (rel, False)
                else:
                    d = {a: b for a, b in d.items() if not within(k, a)}
            # growth of containers changes sizes
            for _, k, m, _ in self.effects({i}):
                if k:
                    d = {a: b for a, b in d.items() if (k + ".size") not in a and (k + ".end") not in a}
            if adv is not None:
                verdict[i] = verdict.get(i, True) and adv
            for t, lab in n.succ:
                if t.i not in comp:
                    continue
                nd = d
                if n.k == "br" and lab is not None:
                    nd = self.refine(dict(d), n.e, lab, v)
                    if nd is None:
                        continue
                work.append((t.i, tuple(sorted(nd.items()))))
        p = {i for i, ok in verdict.items() if ok}
        if not p:
            return None
        if not chain:
            b = self.bound_ok(comp, v, p, st_at)
            if not b:
                return None
            if b == "eq" and not unit and not self.iterish(v, comp):
                return None
            if not self.wide(v):
                return None
        for i in p:
            for ob in pend.get(i, ()):
                self.oblig.setdefault((ob[1], ob[2]), set()).add("%s:%d" % (self.f.f, self.nodes[i].ln))
        return p

    def wide(self, v):
        m = re.match(r"^v(\d+)$", v)
        if not m:
            return True
        t = self.vtype(int(m.group(1)))
        return not re.match(r"^(const )?(unsigned |signed )?(char|short)( int)?$|^(std::)?u?int(8|16)_t$|^bool$", t or "")

    def vtype(self, vid):
        for g in core.family(self.db, core.root_fn(self.db, self.f)):
            for p in g.p:
                if p[0] == vid:
                    return bare(p[2])
            for s in core.stmts(g.b):
                if s[0] == "decl":
                    for v in s[2]:
                        if v[0] == vid:
                            return bare(g.types[v[2]]) if isinstance(v[2], int) else bare(str(v[2]))
        return None

    def iterish(self, v, comp):
        m = re.match(r"^v(\d+)$", v)
        t = self.vtype(int(m.group(1))) if m else None
        return bool(t) and ("iterator" in t or t.endswith("*"))

    def pointerish(self, n, v):
        m = re.match(r"^v(\d+)$", v)
        t = self.vtype(int(m.group(1))) if m else None
        return bool(t) and t.endswith("*") and "char" not in t

    def is_plus_one(self, r):
        if isinstance(r, tuple):
            r = r[1]
        r = self.strip(r)
        if not r:
            return False
        for a in ([r[4], r[5]] if r[0] == "bin" else r[5] if r[0] == "op" else []):
            s = self.strip(a)
            if s and s[0] == "int" and str(s[3]) == "1":
                return True
        return False

    def plus(self, v, r, st):
        d = dict(st)
        cur = d.get(v, (GE, False))
        if cur[1]:
            return (0, True, ())
        sub = None
        if isinstance(r, tuple):
            r = r[1]
        s = self.strip(r)
        if s and s[0] == "int":
            return (GT if int(s[3]) > 0 else GE, False, ())
        if s and s[0] in ("str", "chr"):
            return (GT, False, ())
        if s and s[0] == "call" and self.decl(s).get("n") in ("size", "length") and len(s) > 5 and isinstance(s[5], list):
            ne = self.nonempty(s[5])
            if ne is True:
                return (GT, False, ())
            if isinstance(ne, tuple):
                return (GT, False, (ne,))
            return (GE, False, ())
        if self.nonempty(r) is True:
            return (GT, False, ())
        t = bare(ty(self.f, r)) if isinstance(r, list) else ""
        if t.startswith("unsigned"):
            return (GE, False, ())
        return (0, True, ())

    def refine(self, d, e, val, v):
        e = self.strip(e)
        if not e:
            return d
        if e[0] == "bin" and e[3] in ("<", "<=", ">", ">=", "==", "!="):
            a, op, b = e[4], e[3], e[5]
        elif e[0] == "op" and e[3] in ("<", "<=", ">", ">=", "==", "!=") and len(e[5]) == 2:
            a, op, b = e[5][0], e[3], e[5][1]
        else:
            return d
        if not val:
            op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
        if op in (">", ">="):
            a, b, op = b, a, {">": "<", ">=": "<="}[op]
        st = tuple(sorted(d.items()))
        ka, kb = self.key(a), self.key(b)
        ra, rb = self.ev(a, st, v), self.ev(b, st, v)
        if self.is_npos(b) or self.is_npos(a):
            k, r = (ka, ra) if self.is_npos(b) else (kb, rb)
            if op == "!=" and k:
                d[k] = (d.get(k, (r[0], False))[0], False)
            if op == "<" and self.is_npos(b) and r[0]:
                d[k] = (d.get(k, (r[0], False))[0], False)
            return d
        if op == "<":
            if ra[0] and kb:
                d[kb] = (GT, False)
            if ka in d:
                d[ka] = (d[ka][0], False)  # smaller than something: not the largest value
        elif op == "<=":
            if ra[0] and kb:
                old = d.get(kb, (0, rb[1]))
                d[kb] = (max(old[0], ra[0]), old[1])
            if ka in d and kb and "size" in kb:
                d[ka] = (d[ka][0], False)
        elif op == "==":
            for k, r, o in ((ka, ra, rb), (kb, rb, ra)):
                if k in d and o[0] > d[k][0]:
                    d[k] = (o[0], d[k][1] and o[1])
            if ka in d and kb and rb[0] == 0 and False:
                pass
        elif op == "!=":
            for k, r, o in ((ka, ra, kb), (kb, rb, ka)):
                if o == v and k in d and d[k][0] == GE and k != v:
                    d[k] = (GT, d[k][1])
        return d

    def countdown(self, comp, v, ws):
        p = {i for i, op, _ in ws if op == "--"}
        if len(p) != len({i for i, _, _ in ws}):
            return None
        for b, lab in self.exits(comp):
            e = self.strip(b.e)
            if not e or not self.passes(comp, b.i, p):
                continue
            if e[0] in ("v", "un") and not lab and (self.key(e) == v or e[0] == "un" and "--" in e[3] and self.key(e[4]) == v):
                return p
            if e[0] == "bin" and e[3] in ("<", "<=", ">", ">=", "==", "!="):
                op = e[3]
                if not lab:
                    op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
                for x, o, y in ((e[4], op, e[5]), (e[5], {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op], e[4])):
                    if self.mentions(x, v) and not self.grown(comp, y):
                        ys = self.strip(y)
                        uns = (self.vtype(int(v[1:])) or "").startswith("unsigned") if re.match(r"^v\d+$", v) else False
                        if o == "==" or o == "<=" or o == "<" and not (uns and ys and ys[0] == "int" and str(ys[3]) == "0"):
                            return p
        return None

    def growth(self, comp, c, effs):
        up = {i for i, m, e in effs if m in ("push_back", "emplace_back", "push_front", "emplace_front") or m in ("operator+=", "append") and self.nonempty(self.arg(e)) is True}
        dn = {i for i, m, e in effs if m in ("pop_back", "pop_front", "pop", "erase")}
        other = {i for i, m, e in effs} - up - dn
        if other:
            return None
        if up and not dn:
            for b, lab in self.exits(comp):
                if not self.passes(comp, b.i, up):
                    continue
                e = self.strip(b.e)
                sides = (e[4], e[3], e[5]) if e and e[0] == "bin" else (e[5][0], e[3], e[5][1]) if e and e[0] == "op" and len(e[5]) == 2 else None
                if not sides or sides[1] not in ("<", "<=", ">", ">=", "==", "!="):
                    continue
                l, op, r = sides
                if not lab:
                    op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
                for x, o, y in ((l, op, r), (r, {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op], l)):
                    if self.key(x) == c + ".size()" and o in (">=", ">", "==") and not self.grown(comp, y):
                        return up
                    # a new name that is not in a finite collection
                    xs = self.strip(x)
                    if o == "==" and xs and xs[0] == "call" and self.decl(xs).get("n") in ("find", "count") and xs[4] and self.key(xs[4][0]) == c and len(xs) > 5 and isinstance(xs[5], list):
                        if not any(k == self.key(xs[5]) and m in GROW for _, k, m, _ in self.effects(comp)):
                            return up
        if dn and not up:
            # erasing while a position towards the same container's size stays or advances
            for b, lab in self.exits(comp):
                if not self.passes(comp, b.i, dn):
                    continue
                e = self.strip(b.e)
                if e and any(self.key(x) in (c + ".size()", c + ".empty()", c + ".end()") for x in core.walk(b.e) if x[0] == "call"):
                    # the other quantity in the test may only grow
                    if self.monotone_test(comp, b, lab, c):
                        return dn | self.monotone_test(comp, b, lab, c)
        return None

    def monotone_test(self, comp, b, lab, c):
        """increments of the quantity compared with the size"""
        e = self.strip(b.e)
        if e[0] == "call":
            return {b.i} if False else {i for i in ()} or {-1}
        inc = {-1}
        for x in core.walk(e):
            if x[0] == "v":
                k = self.key(x)
                for i in comp:
                    for kk, op, r in self.writes(self.nodes[i]):
                        if kk == k:
                            if op == "++":
                                inc.add(i)
                            else:
                                return None
        return inc

    def arg(self, e):
        if e[0] == "op":
            return e[5][1]
        return e[4][0] if e[4] else None


def run(db, rep, thorough):
    S = status.get(db)
    fns = [f for f in db.fns.values() if f.b and f.f.startswith(("lib/", "app/")) and not f.dep]
    oblig = {}
    nloops = nfun = 0
    for f in fns:
        L = Loops(db, f, oblig)
        comps = L.sccs(L.reach)
        if not comps:
            continue
        nfun += 1
        for c in comps:
            nloops += sum(1 for i in c if L.nodes[i].k == "loop" or L.nodes[i].x == "loophead")
            b = L.prove(c)
            if b is not None:
                # with the asserted conditions as facts
                L2 = Loops(db, f, oblig, True)
                cs = L2.sccs(L2.reach)
                lines = {L.nodes[i].ln for i in c}
                cs = [x for x in cs if {L2.nodes[i].ln for i in x} & lines]
                if cs and all(L2.prove(x) is None for x in cs):
                    b = None
            if b is not None:
                # blame the innermost unproved component
                inner = c
                h = sorted(L.nodes[i].ln for i in inner if L.nodes[i].ln)
                ln = h[0] if h else f.l
                root = core.root_fn(db, f)
                rep.violation("loop %s" % root.q, "%s:%d" % (f.f, ln), "progress",
                              "%s: no quantity advances on every round of this loop towards a test that leaves it" % root.q,
                              ["%s:%d" % (f.f, l) for l in sorted(set(h))[:12]])
            else:
                rep.sample("loops", "%s:%d" % (f.f, min((L.nodes[i].ln for i in c if L.nodes[i].ln), default=f.l)), 8)
    # ---- obligations: texts whose length is the step
    done, work = set(), [(k, w) for k, w in oblig.items()]
    nob = 0
    while work:
        (fid, i), where = work.pop()
        if (fid, i) in done:
            continue
        done.add((fid, i))
        g = db.fns[fid]
        for f in fns:
            for e in core.fn_exprs(f):
                if e[0] == "call" and e[3] == fid and i < len(e[4]):
                    nob += 1
                    L = Loops(db, f, {})
                    ne = L.nonempty(e[4][i])
                    if ne is True:
                        continue
                    if isinstance(ne, tuple):
                        work.append(((ne[1], ne[2]), where))
                        continue
                    a = core.strip(e[4][i])
                    if a and guarded_nonempty(db, f, e, e[4][i], L):
                        continue
                    rep.violation("empty-step %s -> %s" % (core.root_fn(db, f).q, g.q), "%s:%d" % (f.f, e[1]), "progress",
                                  "%s may pass an empty text as parameter '%s' of %s, whose loop advances by its length (%s)" % (core.root_fn(db, f).q, g.p[i][1], g.q, ", ".join(sorted(where))), [])
    # ---- recursion
    nscc, nedges = recursion(db, S, rep, fns)
    nd = 0
    for d in db.diags:
        if d["o"] in ("infinite-recursion", "for-loop-analysis"):
            nd += 1
            rep.violation("diag %s" % d["f"], "%s:%d" % (d["f"], d["l"]), "compiler", d["t"], [])
    rep.set("functions with loops", nfun, 150)
    rep.set("loops proved", nloops, 300)
    rep.set("call sites with length obligations", nob, 20)
    rep.set("recursions", nscc, 60)
    rep.set("recursive calls examined", nedges, 150)


def guarded_nonempty(db, f, call, arg, L):
    """a test of .empty() on the same variable before the call leaves the function or the branch"""
    k = L.key(arg)
    g = L.g
    init = False

    def step(n, st):
        if n.k == "br" and n.e:
            e = core.strip(n.e)
            if e and e[0] == "call" and db.decls.get(e[3], {}).get("n") == "empty" and len(e) > 5 and isinstance(e[5], list) and L.key(e[5]) == k:
                return [(True, False), (False, True)]
        return [("*", st)]
    bad = False
    for n, st, par in core.explore(g, init, step):
        if n.e and any(x is call for x in core.walk(n.e)) and not st:
            bad = True
    return not bad


PIMPL = re.compile(r"^m_(p?impl|genField|obj|gen[A-Z]\w*|dslObj)$|^m_pImpl$", re.I)


def recursion(db, S, rep, fns):
    ids = {f.id for f in fns}
    byid = {f.id: f for f in fns}
    edges = {}
    for f in fns:
        for e in core.fn_exprs(f):
            ts = []
            if e[0] in ("call", "op", "ctor"):
                ts = [t for t in (S.targets(f, e) or ()) if t in ids]
                if e[0] == "ctor" and e[3] in ids:
                    ts.append(e[3])
            elif e[0] == "lam" and e[2] in ids:
                ts = [e[2]]
            elif e[0] == "fref" and e[3] in ids:
                ts = [e[3]]
            for t in ts:
                edges.setdefault(f.id, []).append((t, e))
    # SCCs of the call graph
    succ = {a: {t for t, _ in b} for a, b in edges.items()}
    for f in fns:
        succ.setdefault(f.id, set())
    L = Loops.__new__(Loops)
    L.succ = succ
    comps = Loops.sccs(L, set(succ))
    nedges = 0

    def pim(n):
        return bool(re.match(r"^m_(impl|pImpl)$", n)) or bool(re.match(r"^m_gen[A-Z]\w*$", n)) or n in ("m_dslObj", "m_obj", "m_parseObj")

    for comp in comps:
        same = {}
        dirs = {}
        for a in comp:
            f = byid[a]
            flow = Roots(db, f)
            passed = {}
            for e in core.fn_exprs(f):
                if e[0] in ("call", "ctor"):
                    for i, x in enumerate(e[4]):
                        for y in core.walk(x):
                            if y[0] == "fref":
                                passed.setdefault(id(y), []).append((e, i))
            for t, e in edges.get(a, []):
                if t not in comp:
                    continue
                nedges += 1
                d = flow.direction(e, byid[t])
                if e[0] == "fref" and id(e) in passed:
                    ds = {through(db, S, byid, f, c, i, ()) for c, i in passed[id(e)]}
                    d = "down" if ds == {"down"} else "same"
                if d == "same":
                    same.setdefault(a, set()).add(t)
                else:
                    dirs.setdefault(d, []).append((f, e, t))
        L2 = Loops.__new__(Loops)
        L2.succ = {a: same.get(a, set()) for a in comp}
        for c in Loops.sccs(L2, set(comp)):
            names = sorted({core.root_fn(db, byid[x]).q for x in c})
            f = min((byid[x] for x in c), key=lambda x: (x.f, x.l))
            rep.violation("recursion " + names[0], "%s:%d" % (f.f, f.l), "recursion",
                          "%s: recursion that may stay on the same element" % ", ".join(names[:6]), ["%s:%d %s" % (byid[x].f, byid[x].l, byid[x].q) for x in sorted(c, key=lambda x: byid[x].f)[:10]])
        if "up" in dirs and "down" in dirs:
            f, e, t = dirs["up"][0]
            names = sorted({core.root_fn(db, byid[x]).q for x in comp})
            rep.violation("direction " + names[0], "%s:%d" % (f.f, e[1]), "recursion",
                          "%s: recursion goes both to parents and to members" % ", ".join(names[:6]), ["%s:%d %s" % (x.f, y[1], core.show(db, y)) for x, y, _ in (dirs["up"] + dirs["down"])[:10]])
    return len(comps), nedges


def through(db, S, byid, f, call, i, seen):
    """direction in which a callback handed over as argument i of a call is invoked by the callee(s)"""
    ts = [t for t in (S.targets(f, call) or ()) if t in byid] or ([call[3]] if call[3] in byid else [])
    if not ts:
        return "same"
    res = set()
    for t in ts:
        if (t, i) in seen:
            continue
        g = byid[t]
        if i >= len(g.p):
            return "same"
        pid = g.p[i][0]
        R = Roots(db, g)
        for h in core.family(db, g):
            for e in core.fn_exprs(h):
                if e[0] == "bin" and e[3] in ("->*", ".*"):
                    fv = core.strip(e[5])
                    if fv and fv[0] == "v" and fv[3] == pid:
                        o = R.cls(e[4])
                        res.add("down" if o and "same" not in o and not o & {"up"} else "same")
                elif e[0] in ("call", "ctor", "op"):
                    for j, x in enumerate(e[4] if e[0] != "op" else e[5]):
                        sx = core.strip(x)
                        if sx and sx[0] == "v" and sx[3] == pid and e[0] != "op":
                            res.add(through(db, S, byid, h, e, j, seen + ((t, i),)))
                        elif sx and sx[0] == "v" and sx[3] == pid and e[3] == "()":
                            res.add("same")
    return "down" if res <= {"down"} else "same"


class Roots:
    """What element an expression denotes relative to the function's own: same, down (member, list element, reference), up (parent)."""

    def __init__(self, db, f):
        self.db, self.f = db, f
        self.root = core.root_fn(db, f)
        self.vals = {}
        self.params = {}
        for g in core.family(db, self.root):
            for i, p in enumerate(g.p):
                self.params[p[0]] = (g, i)
            for s in core.stmts(g.b):
                if s[0] == "decl":
                    for v in s[2]:
                        if v[3]:
                            self.vals.setdefault(v[0], []).append(v[3])
                elif s[0] == "rfor":
                    x = s[2]
                    if x:
                        vv = x[0] if isinstance(x, (list, tuple)) else x
                        self.vals.setdefault(vv, []).append(("elem", s[3]))
            for e in core.fn_exprs(g):
                if e[0] == "bin" and e[3] == "=" or e[0] == "op" and e[3] == "=":
                    l, r = (e[4], e[5]) if e[0] == "bin" else e[5]
                    l = core.strip(l)
                    if l and l[0] == "v":
                        self.vals.setdefault(l[3], []).append(r)

    def cls(self, e, depth=0, seen=()):
        """set of 'same','down','up','other' """
        if isinstance(e, tuple) and e[0] == "elem":
            r = self.cls(e[1], depth + 1, seen)
            return {"down" if x in ("same", "down", "other") else x for x in r}
        e = core.strip(e)
        if not e or depth > 14:
            return {"other"}
        k = e[0]
        rec = lambda x: self.cls(x, depth + 1, seen)
        if k == "this":
            return {"same"}
        if k in ("cast", "icast", "dflt"):
            return rec(core.kids(e)[0]) if core.kids(e) else {"other"}
        if k == "un":
            return rec(e[4])
        if k == "cond":
            return rec(e[4]) | rec(e[5])
        if k == "v":
            if e[3] in seen:
                return set()
            s2 = seen + (e[3],)
            if e[3] in self.vals:
                r = set()
                for x in self.vals[e[3]]:
                    r |= self.cls(x, depth + 1, s2)
                return r or {"other"}
            if e[3] in self.params:
                g, i = self.params[e[3]]
                if g.parent:
                    return {"down"}  # element handed to a lambda by an algorithm
                return {"same"}
            return {"other"}
        if k == "mem":
            n = e[3].split("::")[-1]
            b = rec(e[4]) if e[4] else {"same"}
            if re.match(r"^m_(impl|pImpl|dslObj|obj|parseObj)$|^m_gen(Field|Obj)?$|^m_genField$", n):
                return b
            if re.search("parent", n, re.I):
                return {"up"}
            if "m_state" == n or n.endswith("tate"):
                return b
            return {"down"} if b & {"same", "down", "other"} else b
        if k == "call":
            d = self.db.decls.get(e[3], {})
            n = d.get("n", "")
            obj = e[5] if len(e) > 5 and isinstance(e[5], list) else None
            if obj is not None:
                b = rec(obj)
                if re.search("parent", n, re.I):
                    return {"up"}
                if n in ("get", "begin", "end", "rbegin", "cbegin", "front", "back", "at", "release", "value", "second", "first"):
                    return b
                if re.search(r"parseobj$|parseObj$|DslObj$|^genField$|Cast$|^(\w*)generator$|genGenerator|genLogger|genParseObj|FieldParseObj", n, re.I):
                    return b
                if "same" in b and not e[4] or b & {"same"}:
                    return {"down"}
                return b
            if re.search("parent", n, re.I):
                return {"up"}
            if re.search("cast|move|forward|get|addressof", n, re.I) and e[4]:
                return rec(e[4][0])
            if e[4]:
                r = set()
                for a in e[4]:
                    r |= rec(a)
                return {"down"} if r & {"same", "down"} else r
            return {"other"}
        if k == "op":
            if e[3] in ("->", "*", "[]", "=") and e[5]:
                r = rec(e[5][0])
                return r
            r = set()
            for a in e[5]:
                r |= rec(a)
            return r or {"other"}
        if k == "ctor":
            if e[4]:
                return rec(e[4][0])
            return {"other"}
        if k == "idx":
            return rec(e[3])
        if k == "init":
            r = set()
            for a in e[3]:
                r |= rec(a)
            return r or {"other"}
        if k in ("str", "int", "bool", "null", "chr", "lam"):
            return set()
        return {"other"}

    def direction(self, e, g):
        if e[0] in ("lam", "fref"):
            return "same"
        if e[0] == "op" and e[3] == "()":
            return "same"
        objs = None
        if e[0] == "call" and len(e) > 5 and isinstance(e[5], list) and g.cls:
            objs = self.cls(e[5])
        elif e[0] == "op" and g.cls:
            objs = self.cls(e[5][0])
        if objs is not None and objs - {"same"} and "same" not in objs:
            if "up" in objs and not objs & {"down"}:
                return "up"
            return "down"
        # staying on this object, or a free function: some argument must be another element or a shorter text
        args = e[4] if e[0] in ("call", "ctor") else e[5][1:]
        own = {p[0]: i for i, p in enumerate(self.f.p)}
        ds = set()
        for i, a in enumerate(args):
            c = self.cls(a)
            if c and c <= {"up"}:
                ds.add("up")
            elif "down" in c and "same" not in c:
                ds.add("down")
            elif self.shorter(a):
                ds.add("down")
        if "up" in ds and "down" not in ds:
            return "up"
        if "down" in ds or self.counted(e, g, args):
            return "down"
        return "same"

    def counted(self, e, g, args):
        """a number parameter decreases (its zero is excluded on the way), or a flag parameter is turned over for good"""
        if g.id != self.f.id:
            return False
        for i, a in enumerate(args):
            if i >= len(g.p):
                break
            s = core.strip(a)
            while s and s[0] in ("cast", "icast"):
                s = core.strip(core.kids(s)[0])
            if not s:
                continue
            if s[0] == "bin" and s[3] == "-":
                l, r = core.strip(s[4]), core.strip(s[5])
                if l and l[0] == "v" and l[3] == g.p[i][0] and r and r[0] == "int" and int(r[3]) > 0 and self.implied(e, ("nonzero", g.p[i][0])):
                    return True
            if s[0] == "bool":
                # entered only while the parameter has the other value; no call from here passes that value with the numbers unchanged
                v = boolval(s)
                if self.implied(e, ("bool", g.p[i][0], not v)) and all(self.other_ok(c, g, i, v) for c in self.calls_to(g)):
                    return True
        return False

    def calls_to(self, g):
        return [c for c in core.fn_exprs(self.f) if c[0] == "call" and c[3] == g.id]

    def other_ok(self, c, g, i, v):
        """the call keeps the flag turned, or makes progress in a number"""
        s = core.strip(c[4][i]) if i < len(c[4]) else None
        if s and s[0] == "bool" and boolval(s) == v:
            return True
        for j, a in enumerate(c[4]):
            x = core.strip(a)
            if x and x[0] == "bin" and x[3] == "-" and self.counted_num(c, g, j, x):
                return True
        return False

    def counted_num(self, c, g, j, x):
        l, r = core.strip(x[4]), core.strip(x[5])
        return bool(l and l[0] == "v" and l[3] == g.p[j][0] and r and r[0] == "int" and int(r[3]) > 0 and self.implied(c, ("nonzero", g.p[j][0])))

    def implied(self, e, want):
        """the wanted fact about a parameter holds on every path to the call"""
        g = core.cfg(self.db, self.f, False)

        def facts(x, val, out):
            x = core.strip(x)
            if not x:
                return
            if x[0] == "un" and x[3] == "!":
                return facts(x[4], not val, out)
            if x[0] == "v":
                out.add(("bool", x[3], val))
                if val:
                    out.add(("nonzero", x[3]))
            if x[0] == "bin" and x[3] in ("==", "!=", "<", ">", "<=", ">="):
                for l, o, r in ((x[4], x[3], x[5]), (x[5], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(x[3], x[3]), x[4])):
                    l, r = core.strip(l), core.strip(r)
                    if l and l[0] == "v" and r and r[0] == "int":
                        n = int(r[3])
                        if (o, val) in (("==", False), ("!=", True), (">", True), ("<=", False)) and n == 0 or (o, val) in ((">=", True), ("<", False)) and n >= 1 or (o, val) == (">", True) and n >= 0:
                            out.add(("nonzero", l[3]))

        def step(n, st):
            if n.k == "br" and n.e:
                res = []
                for val in (True, False):
                    out = set()
                    facts(n.e, val, out)
                    res.append((val, st or want in out))
                return res
            return [("*", st)]
        ok = True
        for n, st, par in core.explore(g, False, step):
            if n.e and not st and any(x is e for x in core.walk(n.e)):
                ok = False
        return ok

    def shorter(self, a):
        """a proper part of a text: substr, a range constructor"""
        s = core.strip(a)
        seen = set()
        while s and s[0] == "v" and s[3] in self.vals and s[3] not in seen and len(self.vals[s[3]]) >= 1:
            seen.add(s[3])
            x = self.vals[s[3]][0]
            if isinstance(x, tuple):
                return False
            s = core.strip(x)
        while s and s[0] in ("cast", "icast"):
            s = core.strip(core.kids(s)[0])
        if not s:
            return False
        if s[0] == "call" and self.db.decls.get(s[3], {}).get("n") in ("substr",):
            return True
        if s[0] == "ctor" and len([x for x in s[4] if x and x[0] != "dflt"]) >= 2:
            return True
        if s[0] == "bin" and s[3] in ("+", "-") or s[0] == "op" and s[3] in ("+", "-"):
            return True
        return False
