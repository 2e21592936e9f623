"""C25: everything a generator knows how to emit is reachable and emitted."""
import re
from sa import callgraph, core, status
from sa.facts import AnalysisBroken
from sa.rules.c15 import ty

RULE = ("every function of a generator that expands a template, writes a stream or overrides a hook is reachable from that generator's main(); every class prepares (and where it is written, writes) the elements of each member that owns child elements; "
        "a loop that puts something together for each element of a list visits all of it and leaves an element out only when it is not referenced, does not exist in the selected version, is null, or yields no text")
EXPLAIN = ("(1) Call-graph reachability from the main() functions, with virtual calls resolved to all overriders, lambdas, function pointers and tables; obligations are all functions that expand templates or write streams and all overrides. "
           "(2) For each member of a class of the generation library that owns child elements, the methods reachable from the class's prepare (write) function must call prepare (write) on its elements, in a loop, an algorithm over the whole range or directly. "
           "(3) Every path through the body of an emitting range loop that contributes nothing is collected with the conditions taken; one of them has to be an accepted reason. Loops counting over a list start at 0, algorithms get begin() and end() of one list. "
           "(4) A writing step called on some successful path must be called, or have been decided against for an accepted reason, on every successful path of the function; a list of elements that is not empty must not be treated as empty because it is short.")
ASSUME = ["which elements are referenced and which versions exist is decided by genIsReferenced() and genDoesElementExist() (C27)"]
SCOPE = ("app/", "lib/src/gen")
EL = re.compile(r"commsdsl(2\w+|::gen)::(Gen|C|Comms|Emscripten|Swig|Latex|Test|ToolsQt)\w*(Field|Layer|Message|Interface|Namespace|Schema|Frame|Plugin)(?!\w)(?!::)")
GROW = {"push_back", "emplace_back", "append", "insert", "emplace", "push_front", "emplace_front", "insert_or_assign", "assign", "genAddToStrList", "push"}
ACT = re.compile(r"(Prepare|Write|^write|^prepare|Create)(?!.*(Statement|Str)\b)")
MAXP = 4000
# hooks whose caller was removed upstream: cHasInputMessages() of the layers of the C generator is not called at all
REASONS = {"genIsReferenced", "genDoesElementExist", "genHasFramesRecursive", "genHasMessagesRecursive", "commsHasAnyGeneratedCode", "cIsValidFrame"}
UNUSED_HOOKS = {"cHasInputMessagesImpl"}


def nm(db, e):
    return (db.decls.get(core.callee(e)) or {}).get("n", "") if e and e[0] in ("call", "op", "ctor") else ""


def emitters(db):
    """root functions that expand templates or write streams"""
    r = {}
    for f in db.fns.values():
        if not f.b or not f.f.startswith(SCOPE):
            continue
        for e in core.fn_exprs(f):
            if e[0] == "call" and nm(db, e) == "genProcessTemplate":
                r.setdefault(core.root_fn(db, f).id, "expands a template")
            elif e[0] == "ctor" and isinstance(e[2], int) and "ofstream" in f.types[e[2]]:
                r.setdefault(core.root_fn(db, f).id, "writes a file")
    return r


def reach(db, S, rep):
    roots = [f for f in db.fns.values() if f.n == "main" and f.f.startswith("app/") and f.b]
    if len(roots) < 7:
        raise AnalysisBroken("main() functions not found")
    R = callgraph.reachable(db, S, roots)
    em = emitters(db)
    n = 0
    over = set()
    for b, os in db.overriders.items():
        over |= set(os)
    for f in sorted(db.fns.values(), key=lambda f: (f.f, f.l)):
        if not f.b or f.dep or f.parent or not f.f.startswith(SCOPE):
            continue
        why = em.get(f.id)
        if not why and f.id in over and not f.n.startswith("~") and f.n not in UNUSED_HOOKS:
            why = "overrides a hook"
        if not why:
            continue
        n += 1
        if f.id not in R:
            rep.violation("unreachable %s" % f.q, "%s:%d" % (f.f, f.l), "reachability", "%s %s but no generator calls it" % (f.q, why), ["%s:%d" % (f.f, f.l)])
    rep.set("emitting_functions", n, 900)
    return R


class Skips:
    def __init__(self, db, rep):
        self.db, self.rep = db, rep
        self.loops = self.paths = self.skipped = 0
        self.reasons = {}

    def loop(self, f, g, head):
        """paths through the body of a range loop that contribute nothing"""
        var = head.x[0][0] if isinstance(head.x[0], (list, tuple)) else head.x[0]
        local = {var}
        for b in (head.x[1] or []):
            local.add(b[0] if isinstance(b, (list, tuple)) else b)
        body = [t for t, l in head.succ if l is True]
        out = [t for t, l in head.succ if l is False]
        stop = {head.i} | {t.i for t in out}
        if not body:
            return
        res = []
        any_contrib = [False]
        st = [(body[0], (), False, frozenset([head.i]), frozenset())]
        n = 0
        while st:
            nd, conds, con, seen, loc = st.pop()
            n += 1
            if n > MAXP:
                break
            if nd.i in stop or nd.k in ("ret", "exit", "endfn"):
                if nd.k in ("ret",):
                    con = con or self.contributes(f, nd, local | loc)
                    kind = "ret"
                else:
                    kind = "next" if nd.i == head.i else "leave"
                if con:
                    any_contrib[0] = True
                res.append((kind, conds, con, nd))
                continue
            if nd.k in ("abort", "throw"):
                continue
            if nd.i in seen and nd.k in ("loop", "nop"):
                continue
            if nd.k == "d" and nd.x:
                loc = loc | {nd.x[0]}
                t = f.types[nd.x[2]] if isinstance(nd.x[2], int) and nd.x[2] < len(f.types) else ""
                if "&" in t and not t.startswith("const ") and nd.e and not self.rooted(nd.e, local | loc):
                    loc = loc - {nd.x[0]}
            if nd.k == "loop":
                v = nd.x[0][0] if isinstance(nd.x[0], (list, tuple)) else nd.x[0]
                loc = loc | {v}
            con = con or self.contributes(f, nd, local | loc)
            for t, l in nd.succ:
                c = conds
                if nd.k == "br":
                    c = conds + ((nd.e, l),)
                elif nd.k == "loop" and l is False:
                    c = conds + (("nested", nd),) if nd.i not in seen else conds
                elif nd.k == "sw":
                    c = conds + (("switch", nd),)
                st.append((t, c, con, seen | {nd.i}, loc))
        return res, any_contrib[0]

    def vtype(self, f, head):
        v = head.x[0]
        t = v[2] if isinstance(v, (list, tuple)) else ""
        return f.types[t] if isinstance(t, int) and t < len(f.types) else str(t)

    def rooted(self, e, local):
        """the expression denotes (part of) something declared in the loop"""
        e = core.strip(e)
        while e:
            if e[0] == "v":
                return e[3] in local
            if e[0] == "mem":
                if not e[4]:
                    return False
                e = core.strip(e[4])
            elif e[0] == "op" and e[3] in ("[]", "*", "->") and e[5]:
                e = core.strip(e[5][0])
            elif e[0] == "un" and e[3] in ("*", "&"):
                e = core.strip(e[4])
            elif e[0] == "call" and isinstance(e[5], list):
                e = core.strip(e[5])
            else:
                return False
        return False

    def contributes(self, f, nd, local):
        db = self.db
        if not nd.e:
            return False
        for e in core.walk(nd.e):
            if e[0] == "call":
                n = nm(db, e)
                if n in GROW:
                    o = e[5] if isinstance(e[5], list) else (e[4][-1] if e[4] else None)
                    if o and not self.rooted(o, local) and not re.search(r"\bset<", ty(f, core.strip(o)) or ""):
                        return True
                elif ACT.search(n) and not re.search(r"commsdsl::parse", (db.decls.get(core.callee(e)) or {}).get("q", "")):
                    return True
                else:
                    g = db.fns.get(core.callee(e))
                    if g is not None:
                        for p, a in zip(g.p, e[4]):
                            if p[2].endswith("&") and not p[2].startswith("const ") and a and not self.rooted(a, local) and re.search("string|vector|list|map|stream", p[2]):
                                return True
            elif e[0] == "op" and e[3] in ("+=", "<<", "=") and len(e[5]) == 2:
                t = ty(f, core.strip(e[5][0])) or ""
                if re.search("string|stream|vector|map", t) and not self.rooted(e[5][0], local):
                    return True
            elif e[0] == "op" and e[3] == "()":
                l = core.lambda_of(db, f, e[5][0])
                if l in db.fns and db.fns[l].b and self.lam(db.fns[l], local):
                    return True
        return False

    def lam(self, g, local):
        return any(self.contributes(g, nd, local) for nd in core.cfg(self.db, g, True).nodes if nd.e)

    # reasons
    def inits(self, f):
        """initialisers of the local variables"""
        if not hasattr(self, "_in"):
            self._in = {}
        if f.id not in self._in:
            m = {}
            for s in core.stmts(f.b):
                if s[0] == "decl":
                    for v in s[2]:
                        if v[3]:
                            m[v[0]] = v[3]
                if s[0] == "if" and s[3]:
                    for v in (s[3][2] if s[3][0] == "decl" else []):
                        if v[3]:
                            m[v[0]] = v[3]
            self._in[f.id] = m
        return self._in[f.id]

    def text(self, f, o):
        """a string put together by the generator (not a property of the element)"""
        db = self.db
        o = core.strip(o) if isinstance(o, list) else None
        if not o or "string" not in (ty(f, o) or ""):
            return False
        if o[0] == "v" and o[3] in self.inits(f):
            o = core.strip(self.inits(f)[o[3]])
        if o and o[0] == "call":
            d = db.decls.get(core.callee(o)) or {}
            return not re.search(r"commsdsl::(parse|gen)::\w+::", d.get("q", ""))
        return bool(o)

    def gate(self, f, c):
        """reasons for not writing a file at all"""
        db = self.db
        e, pol = c
        e = core.strip(e)
        while e and e[0] == "un" and e[3] == "!":
            e, pol = core.strip(e[4]), not pol
        if not e:
            return None
        if e[0] == "bin" and e[3] in ("&&", "||"):
            a, b = self.gate(f, (e[4], pol)), self.gate(f, (e[5], pol))
            return a or b if (e[3] == "&&") == pol else a and b
        if e[0] == "v" and e[3] in self.inits(f):
            return self.gate(f, (self.inits(f)[e[3]], pol))
        if e[0] == "mem" and "bool" in (ty(f, e) or ""):
            return "flag"
        if e[0] in ("bin", "op") and e[3] in ("==", "!=") and (e[3] == "==") != pol:
            ops = [core.strip(x) for x in (e[4:6] if e[0] == "bin" else e[5])]
            if any(x and x[0] == "this" for x in ops):
                return "belongs elsewhere"
        if e[0] == "call" and not e[4]:
            g = db.fns.get(core.callee(e))
            rs = [x for x in core.stmts(g.b) if x[0] == "ret"] if g is not None and g.b else []
            if len(rs) == 1 and rs[0][2] and g is not f:
                r = self.gate(g, (rs[0][2], pol)) if core.strip(rs[0][2])[0] in ("un", "call") and len(list(core.stmts(g.b))) <= 2 else None
                if r:
                    return r
        if e[0] == "call":
            n = nm(db, e)
            if re.match(r"genIsGlobalField$|genIsCurrentProtocolSchema$|\w*HasAny\w+$|genHasReferenced\w+$|\w+IsDefined$|\w+Allowed$", n) and not pol:
                return n
            if n == "empty" and pol and isinstance(e[5], list):
                o = core.strip(e[5])
                # no interface: no code for messages; common definitions of an interface are those of its fields
                if "Interface" in (ty(f, o) or "") or re.search("Interface$", f.cls or "") and "Field" in (ty(f, o) or ""):
                    return "empty"
        return None

    def reason(self, f, c, depth=4):
        db = self.db
        e, pol = c
        if e == "nested":
            return "nothing in the inner list"
        if e == "switch":
            return None
        e = core.strip(e)
        while e and e[0] == "un" and e[3] == "!":
            e, pol = core.strip(e[4]), not pol
        if not e:
            return None
        if e[0] == "bin" and e[3] in ("&&", "||"):
            a, b = self.reason(f, (e[4], pol), depth), self.reason(f, (e[5], pol), depth)
            # what is known: both operands (a conjunction that holds, a disjunction that does not) or one of the two
            return a or b if (e[3] == "&&") == pol else a and b
        if e[0] == "v" and depth and re.search(r"\bbool\b|^auto$", ty(f, e) or "") and e[3] in self.inits(f):
            return self.reason(f, (self.inits(f)[e[3]], pol), depth - 1)
        if e[0] in ("call", "op"):
            l = core.lambda_of(db, f, e[5][0]) if e[0] == "op" and e[3] == "()" else core.callee(e) if e[0] == "call" else None
            g = db.fns.get(l)
            if g is not None and g.b and depth and (e[0] == "op" or nm(db, e) not in REASONS):
                for x in core.fn_exprs(g):
                    if x[0] == "call" and nm(db, x) in REASONS:
                        return nm(db, x)
        if e[0] == "call":
            n = nm(db, e)
            if n == "empty" and pol:
                return "empty" if self.text(f, e[5]) else None
            if n in REASONS and not pol:
                return n
            if n == "insert" or n == "second":
                return "seen"
            if n == "parseValid" and not pol:
                return "null"
        if e[0] == "op" and e[3] == "()" and not pol:
            return "not selected by the caller"
        if e[0] in ("bin", "op") and e[3] in ("==", "!="):
            eq = (e[3] == "==") == pol
            ops = e[4:6] if e[0] == "bin" else e[5]
            for x in ops:
                y = core.strip(x) if x else None
                if y and y[0] == "null" and eq:
                    return "null"
                if y and y[0] == "int" and str(y[-1]) == "0" and eq and any(nm(db, core.strip(z)) in ("size", "length") and self.text(f, core.strip(z)[5]) for z in ops if z):
                    return "empty"
                if y and y[0] == "call" and nm(db, y) in ("end", "cend") :
                    return "found" if eq else "seen"
        t = ty(f, e) or ""
        if not pol and (t.endswith("*") or "_ptr<" in t):
            return "null"
        if e[0] == "op" and e[3] == "bool" and not pol:
            return "null"
        return None

    def run(self, R):
        db = self.db
        for f in sorted(db.fns.values(), key=lambda f: (f.f, f.l)):
            if not f.b or f.dep or not f.f.startswith(SCOPE) or re.search(r"[fF]ind[A-Z]", f.n):
                continue
            g = None
            for s in core.stmts(f.b):
                if s[0] == "rfor":
                    g = core.cfg(db, f, True)
                    break
            if g is None:
                continue
            for head in g.nodes:
                if head.k != "loop":
                    continue
                if not EL.search(self.vtype(f, head)):
                    continue
                r = self.loop(f, g, head)
                if not r:
                    continue
                res, anyc = r
                if not anyc:
                    continue
                self.loops += 1
                seen = set()
                for kind, conds, con, nd in res:
                    self.paths += 1
                    if con or kind == "ret":
                        continue
                    self.skipped += 1
                    rs = [self.reason(f, c) for c in conds]
                    rs = [x for x in rs if x]
                    if rs:
                        for x in rs:
                            self.reasons[x] = self.reasons.get(x, 0) + 1
                        continue
                    k = tuple((core.show(db, c[0]) if isinstance(c[0], list) else c[0], c[1] if isinstance(c[1], bool) else None) for c in conds)
                    if k in seen:
                        continue
                    seen.add(k)
                    yield f, head, kind, k


def writers(db, rep, R, K):
    """a function that writes files succeeds without writing anything only for an accepted reason"""
    n = 0
    for f in sorted(db.fns.values(), key=lambda f: (f.f, f.l)):
        if not f.b or f.dep or f.parent or f.id not in R or not f.f.startswith("app/") or not re.search(r"^(\w+Write(Impl|\w*Internal)?|write\w*)$", f.n) or f.ret != "bool":
            continue
        g = core.cfg(db, f, True)
        params = {p[0] for p in f.p}
        st = [(g.nodes[g.entry] if isinstance(g.entry, int) else g.entry, (), False, frozenset())]
        seen = set()
        cnt = 0
        n += 1
        while st and cnt < MAXP:
            nd, conds, con, vis = st.pop()
            cnt += 1
            if nd.k in ("abort", "throw"):
                continue
            if nd.k == "ret":
                e = core.strip(nd.e) if nd.e else None
                if e and e[0] == "bool" and e[-1] and not con:
                    rs = ["nothing in the list" if c == "nested" else K.gate(f, c) or K.reason(f, c) for c in conds]
                    k = tuple((core.show(db, c[0]) if isinstance(c[0], list) else c[0], c[1] if isinstance(c[1], bool) else None) for c in conds)
                    if not any(rs) and k not in seen:
                        seen.add(k)
                        yield f, nd, k
                continue
            con = con or bool(nd.e and writes(db, f, nd.e))
            for t, l in nd.succ:
                if nd.i in vis and l is not False:
                    continue
                c = conds + ((nd.e, l),) if nd.k == "br" else conds
                if nd.k == "loop" and l is False and nd.i not in vis:
                    c = c + ("nested",)
                st.append((t, c, con, vis | ({nd.i} if nd.k in ("loop", "nop") else set())))
    rep.set("writer_functions", n, 40)


def writes(db, f, e):
    for x in core.walk(e):
        if x[0] == "call" and re.search(r"([wW]rite|Prepare|ProcessTemplate|Copy)", nm(db, x)):
            return True
        if x[0] == "ctor" and isinstance(x[2], int) and "ofstream" in f.types[x[2]]:
            return True
        if (x[0] == "call" and not x[3] or x[0] == "op" and x[3] == "()") and table_of_writers(db, f):
            return True
    return False


def table_of_writers(db, f):
    """the function mentions a writing function without calling it: the steps are called through pointers or function objects"""
    for g in core.family(db, core.root_fn(db, f)):
        for e in core.fn_exprs(g):
            if e[0] == "fref" and re.search(r"[wW]rite|Prepare|Copy", (db.decls.get(e[3]) or {}).get("n", "")):
                return True
            if g is not f and e[0] == "call" and re.search(r"[wW]rite", nm(db, e)):
                return True
    return False


STEP = re.compile(r"^(?!parse)(?!\w*(Override|Str|Code|Body|Func)(Internal|Impl)?$)(\w*Write(?!r)\w*|write\w*|genCopyExtra\w*)$")


def alts(db, e):
    """ways an expression can be true: (conditions, steps called)"""
    e = core.strip(e) if e else None
    if not e:
        return [((), frozenset())]

    def here(x):
        return frozenset((nm(db, y), core.show(db, y)) for y in core.walk(x) if y[0] == "call" and STEP.match(nm(db, y)) and not nm(db, y).endswith("Str"))
    if e[0] == "bin" and e[3] in ("&&", "||"):
        a, b = here(e[4]), here(e[5])
        if e[3] == "&&":
            return [(c1 + c2, s1 | s2) for c1, s1 in alts(db, e[4]) for c2, s2 in alts(db, e[5])][:64]
        if b and not a:
            return [(((e[4], True),), frozenset())] + [(c + ((e[4], False),), s) for c, s in alts(db, e[5])]
        if a and not b:
            return alts(db, e[4])
    if e[0] == "cond" and len(e) > 5:
        return [(((e[3], True),) + c, s) for c, s in alts(db, e[4])] + [(((e[3], False),) + c, s) for c, s in alts(db, e[5])]
    return [((), here(e))]


def steps(db, rep, R, K):
    """no step of writing is left out on the way to success, except for an accepted reason"""
    n = 0
    for f in sorted(db.fns.values(), key=lambda f: (f.f, f.l)):
        if not f.b or f.dep or f.parent or f.id not in R or not f.f.startswith(SCOPE) or f.ret != "bool":
            continue
        mine = {(nm(db, x), core.show(db, x)) for x in core.fn_exprs(f) if x[0] == "call" and STEP.match(nm(db, x)) and not nm(db, x).endswith("Str")}
        if not mine:
            continue
        n += 1
        g = core.cfg(db, f, True)
        st = [(g.nodes[g.entry] if isinstance(g.entry, int) else g.entry, (), frozenset(), frozenset())]
        cnt, seen, ends = 0, set(), []
        while st and cnt < MAXP:
            nd, conds, done, vis = st.pop()
            cnt += 1
            if nd.k in ("abort", "throw"):
                continue
            if nd.k == "ret":
                e = core.strip(nd.e) if nd.e else None
                if e and e[0] == "bool" and not e[-1]:
                    continue
                for c, s in alts(db, nd.e):
                    ends.append((nd, conds + c, done | s))
                continue
            more = frozenset()
            if nd.e:
                more = frozenset((nm(db, y), core.show(db, y)) for y in core.walk(nd.e) if y[0] == "call" and STEP.match(nm(db, y)))
            for t, l in nd.succ:
                if nd.i in vis and l is not False:
                    continue
                c = conds
                if nd.k == "br":
                    if more and not (l is (core.strip(nd.e)[0] != "un")) and len(more) > 0 and not isinstance(l, str):
                        # the step failed
                        e = core.strip(nd.e)
                        if e[0] in ("call",) and l is False or e[0] == "un" and e[3] == "!" and l is True:
                            c = conds + (("failed", l),)
                    elif not more:
                        c = conds + ((nd.e, l),)
                if nd.k == "loop" and l is False and nd.i not in vis:
                    c = c + ("nested",)
                st.append((t, c, done | more, vis | ({nd.i} if nd.k in ("loop", "nop") else set())))
        for nd, conds, done in ends:
            if any(c[0] == "failed" for c in conds if c != "nested"):
                continue
            miss = mine - done
            if not miss:
                continue
            rs = ["nothing in the list" if c == "nested" else K.gate(f, c) or K.reason(f, c) for c in conds]
            k = tuple((core.show(db, c[0]), c[1] if isinstance(c[1], bool) else None) for c in conds if c != "nested")
            if not any(rs) and k not in seen:
                seen.add(k)
                yield f, nd, k, sorted(miss)[0][0]
    rep.set("functions_with_writing_steps", n, 20)


# one member needs no selection among the members: the variant is read in the ordinary way
SMALL = {"commsOptimizedReadKeyInternal"}


def short(db, rep):
    """nothing is put together for a list of elements only where it is empty, not where it is short"""
    n = 0
    for f in sorted(db.fns.values(), key=lambda f: (f.f, f.l)):
        if not f.b or f.dep or not f.f.startswith(SCOPE) or f.n in SMALL:
            continue
        if not any(x[0] == "call" and nm(db, x) == "size" for x in core.fn_exprs(f)):
            continue
        g = core.cfg(db, f, True)
        for nd in g.nodes:
            if nd.k != "br" or not nd.e:
                continue
            e = core.strip(nd.e)
            neg = False
            while e and e[0] == "un" and e[3] == "!":
                neg, e = not neg, core.strip(e[4])
            if not e or e[0] != "bin" or e[3] not in ("<", "<=", ">", ">=", "==", "!="):
                continue
            a, b, op = core.strip(e[4]), core.strip(e[5]), e[3]
            if a and a[0] == "int":
                a, b, op = b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
            if not (a and b and a[0] == "call" and nm(db, a) == "size" and b[0] == "int" and isinstance(a[5], list)):
                continue
            t = ty(f, core.strip(a[5])) or ""
            if not EL.search(t) or "Schema" in t or not re.search(r"vector|list", t, re.I):
                continue
            try:
                c = int(str(b[-1]).rstrip("uUlL"))
            except ValueError:
                continue
            L = core.show(db, a[5])

            def same(x):
                x = core.strip(x) if x else None
                return bool(x) and x[0] in ("v", "mem") and core.show(db, x) == L
            if not any(x.k == "loop" and x.e and any(same(y) for y in core.walk(x.e)) for x in g.nodes) and \
               not any(y[0] == "call" and any(same(z) for z in y[4] or ()) for y in core.fn_exprs(f)) and \
               not any(s[0] in ("rfor", "forr", "range") and same(s[3] if len(s) > 3 else None) for s in core.stmts(f.b)):
                continue        # only the number of elements matters
            n += 1
            sat = {"<": lambda v: v < c, "<=": lambda v: v <= c, ">": lambda v: v > c, ">=": lambda v: v >= c, "==": lambda v: v == c, "!=": lambda v: v != c}[op]
            for t, l in nd.succ:
                if not isinstance(l, bool):
                    continue
                want = l != neg
                # the branch is also taken for a list with elements, but not for every such list
                some = [v for v in range(1, c + 3) if sat(v) == want]
                if not some or len(some) == c + 2:
                    continue
                if t.k == "ret" and t.e:
                    r = core.strip(t.e)
                    none = r[0] == "ctor" and not r[4] or r[0] == "call" and nm(db, r) == "genEmptyString" or r[0] == "str" and not r[-1]
                    if r[0] == "v":
                        none = all(not (y[0] in ("call", "op") and any(z[0] == "v" and z[3] == r[3] for z in core.walk(y)) and y[1] <= t.ln) for y in core.fn_exprs(f) if y is not r and y[0] in ("call", "op"))
                    if none:
                        yield f, t, core.show(db, nd.e)
    rep.set("size_tests_of_element_lists", n)


def methods(db, cls):
    """methods of a class and, for a pimpl class, of the class it implements"""
    names = {cls}
    if cls.endswith("Impl"):
        names.add(cls[:-4])
    return [f for f in db.fns.values() if f.b and not f.dep and f.cls in names]


def closure(db, S, start, file):
    """functions of one file reachable from some of them"""
    seen, st = set(), list(start)
    while st:
        x = st.pop()
        if x in seen or x not in db.fns or db.fns[x].f != file:
            continue
        seen.add(x)
        st += [t for t in callgraph.edges(db, S, db.fns[x])]
    return seen


def elements(db, rep, S):
    """members owning child elements x {prepare, write}"""
    n = 0
    is_elem = set()
    ch = True
    while ch:
        ch = False
        for q, r in db.records.items():
            if q not in is_elem and (q == "commsdsl::gen::GenElem" or any((b if isinstance(b, str) else b[0] if isinstance(b, list) else b.get("q", "")) in is_elem for b in r.get("bases", []))):
                is_elem.add(q)
                ch = True
    if len(is_elem) < 20:
        raise AnalysisBroken("element classes not found")
    for q, r in sorted(db.records.items()):
        for fl in r.get("fields", []):
            m = re.search(r"unique_ptr<([\w:]+)", fl["ty"])
            if not m or m.group(1) not in is_elem and "Plugin" not in m.group(1):
                continue
            child = m.group(1)
            ms = methods(db, q)
            for act in ("Prepare", "Write"):
                base = re.compile(r"^(gen|tools)?%s$" % act, re.I)
                own = [f for f in ms if re.match(r"^(gen|tools)?(%s|%sImpl)$" % (act, act), f.n, re.I)]
                # written: what the schemas and namespaces consist of, and plugins
                if not own:
                    if act == "Prepare":
                        own = ms
                    else:
                        continue
                cl = closure(db, S, [f.id for f in own], own[0].f)
                n += 1
                ok = False
                for i in cl:
                    f = db.fns[i]
                    if touches(db, f, q + "::" + fl["name"], base, S):
                        ok = True
                        break
                if not ok:
                    rep.violation("children %s::%s %s" % (q, fl["name"], act.lower()), "%s:%d" % (r["f"], fl["line"]), "children", "the elements of %s::%s are never %s by %s" % (q.split("::")[-1], fl["name"], "prepared" if act == "Prepare" else "written", ", ".join(sorted({f.q.split("::", 2)[-1] for f in own}))[:80]), ["%s:%d" % (r["f"], fl["line"])])
    rep.set("owning_members", n, 25)


def has_call(db, S, f, base, depth=2):
    for g in core.family(db, f):
        for e in core.fn_exprs(g):
            if e[0] == "call" and base.match(nm(db, e)):
                return True
            if depth and e[0] == "call" and e[3] in db.fns and db.fns[e[3]].b and db.fns[e[3]].id != f.id and db.fns[e[3]].f == f.f and has_call(db, S, db.fns[e[3]], base, depth - 1):
                return True
    return False


def touches(db, f, member, base, S):
    """the function calls 'base' on the elements of the member"""
    refs = {member}
    al = set()
    for s in core.stmts(f.b):
        if s[0] == "decl":
            for v in s[2]:
                if v[3] and any(y[0] == "mem" and y[3] == member for y in core.walk(v[3])):
                    al.add(v[0])

    def is_m(e):
        return any(y[0] == "mem" and y[3] == member or y[0] == "v" and y[3] in al for y in core.walk(e)) if e else False
    for s in core.stmts(f.b):
        if s[0] in ("rfor", "for"):
            rng = [s[3]] if s[0] == "rfor" else [x for x in s[2:5] if isinstance(x, list)]
            if s[0] == "rfor" and is_m(s[3]) or s[0] == "for" and any(is_m(y) for x in core.stmt_exprs(s) for y in [x]):
                for x in core.stmt_exprs(s[4] if s[0] == "rfor" else s[5]):
                    for e in core.walk(x) if x else ():
                        if e[0] == "call" and base.match(nm(db, e)):
                            return True
    # a local object that goes into the member
    into = set()
    for e in core.fn_exprs(f):
        if e[0] == "call" and nm(db, e) in GROW and isinstance(e[5], list) and is_m(e[5]):
            into |= {y[3] for a in e[4] if a for y in core.walk(a) if y[0] == "v"}
        elif e[0] == "op" and e[3] == "=" and len(e[5]) == 2 and is_m(e[5][0]):
            into |= {y[3] for y in core.walk(e[5][1]) if y[0] == "v"}
    for e in core.fn_exprs(f):
        if e[0] != "call":
            continue
        if base.match(nm(db, e)) and isinstance(e[5], list) and any(y[0] == "v" and y[3] in into for y in core.walk(e[5])):
            return True
        if base.match(nm(db, e)) and isinstance(e[5], list) and is_m(e[5]):
            return True
        if any(is_m(a) for a in e[4] if a):
            for a in e[4]:
                y = core.strip(a) if a else None
                l = core.lambda_of(db, f, y) if y else None
                if l in db.fns and has_call(db, S, db.fns[l], base):
                    return True
                if y and y[0] == "fref" and (db.decls.get(y[3]) or {}).get("n") and base.match(db.decls[y[3]]["n"]):
                    return True
            g = db.fns.get(core.callee(e))
            if g is not None and g.b and has_call(db, S, g, base):
                return True
    return False


def whole(db, rep):
    """algorithms and counting loops go over all of a list of child elements"""
    n = 0
    for f in sorted(db.fns.values(), key=lambda f: (f.f, f.l)):
        if not f.b or f.dep or not f.f.startswith(SCOPE):
            continue
        for e in core.fn_exprs(f):
            if e[0] == "call" and nm(db, e) in ("all_of", "for_each", "transform", "copy", "accumulate") and len(e[4]) >= 3:
                a, b = core.strip(e[4][0]), core.strip(e[4][1])
                if not a or not b or not EL.search(" ".join((ty(f, a) or "", ty(f, b) or ""))):
                    continue
                n += 1
                if a[0] == "call" and b[0] == "call" and nm(db, a) in ("begin", "cbegin", "rbegin") and nm(db, b) in ("end", "cend", "rend"):
                    oa = core.show(db, a[5] if isinstance(a[5], list) else a[4][0])
                    ob = core.show(db, b[5] if isinstance(b[5], list) else b[4][0])
                    if oa == ob:
                        continue
                if a[0] == "v" or b[0] == "v":
                    continue
                rep.violation("range %s" % core.root_fn(db, f).q, "%s:%d" % (f.f, e[1]), "range", "%s: %s does not go over the whole list" % (f.q, nm(db, e)), ["%s:%d" % (f.f, e[1])])
        for s in core.stmts(f.b):
            if s[0] != "for" or not s[2] or s[2][0] != "decl" or not s[3]:
                continue
            v = s[2][2][0]
            c = core.strip(s[3])
            if not c or c[0] not in ("bin", "op") or c[3] not in ("<", "!=", "<=") or not v[3]:
                continue
            ops = c[4:6] if c[0] == "bin" else c[5]
            x, y = core.strip(ops[0]), ops[1]
            if not x or x[0] != "v" or x[3] != v[0]:
                continue
            z = [q for q in core.walk(y) if q[0] == "call" and nm(db, q) in ("size", "end", "cend")] if y else []
            if not z:
                continue
            o = core.strip(z[0][5]) if isinstance(z[0][5], list) else None
            if not o or not EL.search(ty(f, o) or ""):
                continue
            n += 1
            i = core.strip(v[3])
            sized = nm(db, z[0]) == "size"
            if sized and (not i or i[0] != "int" or str(i[-1]) != "0"):
                if i and i[0] == "int":
                    rep.violation("first %s" % core.root_fn(db, f).q, "%s:%d" % (f.f, s[1]), "range", "%s: the loop leaves out the first element(s) of the list" % f.q, ["%s:%d" % (f.f, s[1])])
            y0 = core.strip(y)
            if y0 and y0[0] == "bin" and y0[3] == "-":
                rep.violation("last %s" % core.root_fn(db, f).q, "%s:%d" % (f.f, s[1]), "range", "%s: the loop leaves out the last element(s) of the list" % f.q, ["%s:%d" % (f.f, s[1])])
    rep.set("whole_list_traversals", n, 20)


def run(db, rep, thorough):
    S = status.get(db)
    R = reach(db, S, rep)
    elements(db, rep, S)
    whole(db, rep)
    K = Skips(db, rep)
    for f, head, kind, conds in K.run(R):
        rep.violation("skip %s %s" % (core.root_fn(db, f).q, conds), "%s:%d" % (f.f, head.ln), "skip", "%s: an element is left out (%s) when %s" % (f.q, kind, " and ".join("%s%s" % ("" if b else "not ", a) for a, b in conds) or "always"), ["%s:%d" % (f.f, head.ln)])
    for f, nd, conds in writers(db, rep, R, K):
        rep.violation("unwritten %s %s" % (f.q, conds), "%s:%d" % (f.f, nd.ln), "writer", "%s reports success without writing anything when %s" % (f.q, " and ".join("%s%s" % ("" if b else "not ", a) for a, b in conds) or "always"), ["%s:%d" % (f.f, nd.ln)])
    for f, nd, conds, miss in steps(db, rep, R, K):
        rep.violation("step %s %s %s" % (f.q, miss, conds), "%s:%d" % (f.f, nd.ln), "step", "%s reports success without %s when %s" % (f.q, miss, " and ".join("%s%s" % ("" if b else "not ", a) for a, b in conds) or "always"), ["%s:%d" % (f.f, nd.ln)])
    for f, t, c in short(db, rep):
        rep.violation("short %s %s" % (f.q, c), "%s:%d" % (f.f, t.ln), "short", "%s puts nothing together for a list that is not empty: %s" % (f.q, c), ["%s:%d" % (f.f, t.ln)])
    rep.set("emitting_loops", K.loops, 100)
    rep.set("paths", K.paths)
    rep.set("skipping_paths", K.skipped)
    rep.note("reasons: " + ", ".join("%s %d" % kv for kv in sorted(K.reasons.items())))
