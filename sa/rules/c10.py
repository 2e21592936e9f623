"""C10: names stay unique and elements are registered only when complete.

Must-facts on every path (sa/paths.py, interprocedural) towards every point where an element becomes findable by its name:
  parsed     a freshly created element is handed to a member container only where its own parse() (namespaces: parseProps()) succeeded
  absent     an entry of a map keyed by name is added only where a lookup of the same name in the same map found nothing
  distinct   a list of named elements that was extended leaves the function successfully only where the new name was looked up in that
             list before, or the whole list was examined for repeated names afterwards
  value      a value / bit index / special value that has to be unique is entered only where a lookup of it in the record of the values
             found nothing (or the schema allows repetitions), and the record is extended with it"""
import re
from sa import core, paths
from sa.paths import nm

EXPLAIN = ("Every insertion into a container of parsed elements, enumerators, bits or special values is reached only through a successful "
           "parse of the element and a failed lookup of its name (and value); lists are examined for repeated names before success is reported.")
RULE = ("an insertion of an element which was not parsed successfully on every path, an insertion of a name/value that was not looked up in the "
        "container before, or success reported after extending a list of named elements that was not examined for repeated names, is a violation")
ASSUME = ["std containers; a lookup is recognised as find/count/lower_bound/find_if/any_of/none_of on the container, directly or in a helper",
          "copies of already registered elements (parseClone) keep the distinct names of the original"]

INS = {"insert", "emplace", "push_back", "emplace_back", "try_emplace", "insert_or_assign", "emplace_hint"}
ELEM = re.compile(r"unique_ptr<(?:const )?(?:\w+::)*(Parse\w+Impl)\b")
ANY = ("any",)


def elem_class(t):
    m = ELEM.search(t)
    return m.group(1) if m else None


class Names(paths.Paths):
    def __init__(self, db):
        super().__init__(db, self.mk_atoms, self.mk_event, maxdepth=4, enter=lambda g: g.f.startswith("lib/src/parse"))
        self.sites = {}
        self.needs = {}
        self.loops = {}
        self.record = False
        self.maydirty = {}
        self.lists = set()

    # ---------------------------------------------------------------- conditions
    def contradict(self, fs, add):
        return ("never",) in add

    def lookup(self, f, t):
        """term of an iterator -> (container, key) looked up"""
        if isinstance(t, tuple) and t and t[0] == "v":
            t = self.same_value(f, t)
        if not isinstance(t, tuple) or not t or t[0] != "c":
            return None
        if t[1] in ("find", "lower_bound", "equal_range", "count", "contains") and t[2] is not None:
            return t[2], (t[3] if len(t) > 3 else ANY)
        if t[1] in ("find", "lower_bound", "count") and t[2] is None and len(t) > 5:
            b = t[3]
            if b[0] == "c" and b[1] == "begin":
                return (b[2], t[5])
        if t[1] in ("find_if", "count_if", "any_of", "none_of", "find_if_not", "all_of") and t[2] is None and len(t) > 5:
            b = t[3]
            if b[0] == "c" and b[1] == "begin":
                return (b[2], ANY)
        return None

    def same_value(self, f, t):
        """a local assigned several times, always the result of the same lookup"""
        d = self.defs(f)
        i = d["init"].get(t[1])
        if not i or not i[0]:
            return t
        ts = {self.term(i[2], i[0])}
        for g in core.family(self.db, core.root_fn(self.db, f)):
            for e in core.fn_exprs(g):
                l = (e[4], e[5]) if e[0] == "bin" and e[3] == "=" else tuple(e[5]) if e[0] == "op" and e[3] == "=" and len(e[5]) == 2 else None
                x = core.strip_implicit(l[0]) if l else None
                if x and x[0] == "v" and x[3] == t[1]:
                    ts.add(self.term(g, l[1]))
                elif e[0] == "op" and e[3] in ("++", "--") or e[0] == "un" and ("++" in e[3] or "--" in e[3]):
                    y = core.strip_implicit(e[5][0] if e[0] == "op" else e[4])
                    if y and y[0] == "v" and y[3] == t[1]:
                        return t
        return ts.pop() if len(ts) == 1 else t

    def fullrange(self, t):
        return not (t[2] is None and len(t) > 4) or (t[4][0] == "c" and t[4][1] == "end" and t[4][2:3] == t[3][2:3])

    def lambda_ok(self, f, e):
        """the predicate handed to find_if compares names and is not narrowed by a further condition"""
        x = core.strip(e)
        if x and x[0] == "v":
            i = self.defs(f)["init"].get(x[3])
            x = core.strip(i[0]) if i and i[0] else x
        if not x or x[0] != "call":
            return True
        a = x[4] or []
        if nm(self.db, x) not in ("find_if", "count_if", "any_of", "none_of", "all_of", "find_if_not") or not a:
            return True
        l = core.lambda_of(self.db, f, a[-1])
        g = self.db.fns.get(l) if l else None
        if not g:
            return True
        neg = nm(self.db, x) in ("all_of", "find_if_not")
        rets = [s for s in core.stmts(g.b) if s[0] == "ret"]
        if not any(nm(self.db, y) in ("parseName", "parseNames") for y in core.fn_exprs(g) if y[0] == "call"):
            return False
        for s in rets:
            r = core.strip(s[2])
            if r is None:
                continue
            n = False
            while r and r[0] == "un" and r[3] == "!":
                n, r = not n, core.strip(r[4])
            if r[0] == "bin" and r[3] in ("&&", "||"):
                if (r[3] == "&&") != (neg != n):
                    return False
                continue
            if r[0] in ("bin", "op") and r[3] in ("==", "!="):
                if (r[3] == "!=") != (neg != n):
                    return False
        return True

    def find_op(self, f, e):
        x = core.strip(e)
        if x and x[0] == "v":
            i = self.defs(f)["init"].get(x[3])
            if i and i[0] and x[3] not in self.defs(f)["bad"]:
                return self.find_op(i[2], i[0])
        return x

    def mk_atoms(self, P, f, e):
        k = e[0]
        db = self.db
        if k in ("bin", "op") and e[3] in ("==", "!=", "<", ">", "<=", ">="):
            l, r = (e[4], e[5]) if k == "bin" else (e[5][0], e[5][1]) if len(e[5]) == 2 else (None, None)
            if l is None:
                return None
            tl, tr = self.term(f, l), self.term(f, r)
            eq = e[3] in ("==", "!=")
            for a, b, ea in ((tl, tr, l), (tr, tl, r)):
                lk = self.lookup(f, a)
                if not lk:
                    continue
                if a[0] == "v":
                    a = self.same_value(f, a)
                C, key = lk
                absent = ("absent", C, key)
                n = a[1]
                if eq and b[0] == "c" and b[1] == "end" and b[2] == C and n not in ("count", "count_if"):
                    if not self.fullrange(a) or not self.lambda_ok(f, ea):
                        return None
                    return ((absent,), ()) if e[3] == "==" else ((), (absent,))
                if n in ("count", "count_if") and b[0] == "k":
                    if not self.lambda_ok(f, ea):
                        return None
                    z = str(b[1]).rstrip("Uul")
                    if eq and z == "0":
                        return ((absent,), ()) if e[3] == "==" else ((), (absent,))
                    lt = e[3] if ea is l else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(e[3])
                    if (lt, z) in ((">", "0"), (">=", "1")):
                        return (), (absent,)
                    if (lt, z) in (("<", "1"), ("<=", "0")):
                        return (absent,), ()
                if eq and n == "lower_bound" and b == key and key != ANY:
                    return ((), (absent,)) if e[3] == "==" else ((absent,), ())
            return None
        if k == "mem" and e[3].endswith("second"):
            t = self.term(f, e[4])
            if t[0] == "c" and t[1] in ("insert", "emplace", "try_emplace") and t[2] is not None:
                return (("absent", t[2], t[3] if len(t) > 3 else ANY),), ()
        if k == "mem" and re.search(r"nonunique", e[3].rsplit("::", 1)[-1], re.I) or \
           k == "call" and re.search(r"nonunique", nm(db, e), re.I):
            return (("nonuniq",),), ()
        if k == "call":
            n = nm(db, e)
            o = e[5] if len(e) > 5 and isinstance(e[5], list) else None
            if n == "isnan":
                return (("nan",),), ()
            if n in ("parse", "parseProps") and o is not None:
                g = db.fns.get(core.callee(e))
                if g and g.ret == "bool" and g.f.startswith("lib/src/parse"):
                    return (("parsed", self.term(f, o), n),), ()
            if n in ("count", "contains", "any_of", "none_of", "all_of", "count_if"):
                t = self.term(f, e)
                lk = self.lookup(f, t)
                if lk and self.fullrange(t) and self.lambda_ok(f, e):
                    a = ("absent",) + lk
                    return ((a,), ()) if n in ("none_of", "all_of") else ((), (a,))
            if n == "get" and o is not None:
                x = core.strip(o)
                if x and x[0] == "mem" and x[3].endswith("second"):
                    return (), (("never",),)        # a registered element exists
        return None

    # ---------------------------------------------------------------- insertions
    def container(self, f, e):
        return self.term(f, e)

    def mk_event(self, P, f, e, st):
        db = self.db
        k = e[0]
        if k == "call":
            n = nm(db, e)
            o = e[5] if len(e) > 5 and isinstance(e[5], list) else None
            add = []
            for t in self.S.targets(f, e) or ():
                for C in self.maydirty.get(t, ()):
                    x = paths.subst(C[1], self.tmap(f, e))
                    if x and t != f.id:
                        add.append(("dirty", x, C[2]))
            if add:
                if self.record:
                    self.obligations(f, e, st)
                return add, lambda y: y[0] == "uniq" and any(y[1] == x[1] for x in add)
            if n == "reset" and o is not None and not (e[4] or []):
                return [("isnull", self.term(f, o))], None
            if n in INS and o is not None and (e[4] or []):
                return self.insertion(f, e, o, e[4], st, n)
            if self.record:
                self.obligations(f, e, st)
        if k == "op" and e[3] == "=" and len(e[5]) == 2:
            x = core.strip(e[5][0])
            if x and x[0] == "op" and x[3] == "[]" and len(x[5]) == 2:
                return self.insertion(f, e, x[5][0], [x[5][1], e[5][1]], st, "[]=")
        return None

    def moved(self, f, args):
        for a in args:
            for x in core.walk(a):
                if x[0] == "call" and nm(self.db, x) in ("move", "forward") and len(x[4] or []) == 1:
                    v = core.strip(x[4][0])
                    if v and v[0] == "v":
                        c = elem_class(f.types[v[2]])
                        if c:
                            return v, c
            x = core.strip(a)
            if x and x[0] in ("v",) and elem_class(f.types[x[2]]):
                return x, elem_class(f.types[x[2]])
            # a freshly created element handed over at once
            for x in core.walk(a):
                if x[0] in ("call", "ctor") and elem_class(f.types[x[2]]) and "pair<" not in f.types[x[2]] and \
                   not (x[0] == "ctor" and any(y[0] in ("call", "v") for z in (x[4] or []) for y in core.walk(z))):
                    if x[0] == "call" and nm(self.db, x) in ("parseClone", "parseCreate", "make_unique") or x[0] == "ctor":
                        return x, elem_class(f.types[x[2]])
        return None, None

    def named(self, cls):
        """elements of the class are found by name"""
        if not hasattr(self, "_named"):
            self._named = {}
            has = {}
            for f in list(self.db.fns.values()):
                if f.n == "parseName" and f.cls:
                    has[f.cls.rsplit("::", 1)[-1]] = 1
            for d in self.db.decls.values():
                if d["q"].endswith("::parseName"):
                    has[d["q"].split("::")[-2]] = 1
            self._has = has
        return cls in self._has

    def insertion(self, f, e, o, args, st, n):
        C = self.container(f, o)
        ct = f.types[core.strip(o)[2]] if len(core.strip(o)) > 2 and isinstance(core.strip(o)[2], int) else ""
        key = self.keyterm(f, n, args)
        X, cls = self.moved(f, args)
        add = [("added", C, key)]
        kill = None
        member = C[0] == "m" and self.rooted(C)
        mapn = re.match(r"(?:const )?std::map<std::(?:__cxx11::)?(?:basic_)?string", ct.replace("class ", "")) and member
        reg = bool(X) and not paths.mentions(C, lambda t: t[:2] == ("c", "parseExtraAttributes"))
        if reg and self.record:
            self.need_parsed(f, e, X, cls, C, st)
        if mapn and (reg or self.valuemap(f, o)) and self.record:
            ok = any(x[0] == "absent" and x[1] == C and self.samekey(x[2], key) for x in st) or n in ("insert", "emplace", "try_emplace") and \
                self.second_tested(f, e) or self.createdhere(f, C)
            self.site(f, e, "absent", C, ok, cls, None if ok else ("absent", C, key))
        if mapn and self.valuemap(f, o):
            lk = [x for x in st if x[0] == "absent" and x[1] != C and self.numeric(f, x[1]) and self.entered(f, e, x[2])]
            if self.uniqueowner(f, C):
                ok = bool(lk) or ("nonuniq",) in st or ("nan",) in st     # not a number equals nothing in a record
                if self.record:
                    self.site(f, e, "value", C, ok, None, None)
            for x in lk:
                if not any(y[0] == "added" and y[1] == x[1] for y in st):
                    add.append(("owe", x[1], C))
        if reg and not mapn and member and self.named(cls) and "vector" in ct:
            self.lists.add((f.id, self.cname(C)))
            if not any(x[0] == "absent" and x[1] == C for x in st) and not self.cloned(f, X):
                add.append(("dirty", C, (f.id, e[1])))
            kill = lambda y: y[0] == "uniq" and y[1] == C
        if member and "vector<std::" in ct and "string" in ct and re.search("platform", C[1], re.I) and "Schema" in (core.root_fn(self.db, f).cls or ""):
            ok = any(x[0] == "absent" and x[1] == C and self.samekey(x[2], key) for x in st)
            if self.record:
                self.site(f, e, "absent", C, ok, None, None if ok else ("absent", C, key))
        k2 = lambda y: y[0] == "owe" and y[1] == C or (kill and kill(y))
        return add, k2

    def rooted(self, C):
        while isinstance(C, tuple) and C and C[0] == "m":
            C = C[2]
        return C in (("this",), ("g", "this")) or isinstance(C, tuple) and C and C[0] == "p"

    def keyterm(self, f, n, args):
        a = core.strip(args[0])
        if len(args) == 1:
            while a and a[0] in ("ctor", "cast", "icast") and (a[4] if a[0] == "ctor" else 1):
                y = core.strip(a[4][0]) if a[0] == "ctor" and len(a[4]) == 1 else None
                if not y:
                    break
                a = y
            if a and a[0] == "call" and nm(self.db, a) == "make_pair" and a[4]:
                return self.term(f, a[4][0])
            if a and a[0] == "init" and a[3]:
                return self.term(f, a[3][0])
            if a and a[0] == "ctor" and len(a[4] or []) == 2:
                return self.term(f, a[4][0])
            return self.term(f, a)
        if n == "insert" and len(args) == 2:
            return self.term(f, args[1])
        return self.term(f, args[0])

    def samekey(self, a, b):
        if a == b or a == ANY or b == ANY:
            return True
        q = lambda t: paths.mentions(t, lambda s: isinstance(s, tuple) and s and s[0] in ("?", "x"))
        if q(a) or q(b):
            return True
        # a name kept in a local string
        return a[0] == "v" or b[0] == "v"

    def numeric(self, f, C):
        return True

    def entered(self, f, e, key):
        """the key looked up is the value recorded with the new entry"""
        if key == ANY or paths.mentions(key, lambda s: isinstance(s, tuple) and s and s[0] in ("?", "x")):
            return True
        for x in core.fn_exprs(f):
            r = None
            if x[0] == "bin" and x[3] == "=":
                r = x[5]
            elif x[0] == "op" and x[3] == "=" and len(x[5]) == 2:
                r = x[5][1]
            elif x[0] == "call" and nm(self.db, x) in INS and x[4]:
                a = core.strip(x[4][0])
                while a and a[0] == "ctor" and len(a[4] or []) == 1:
                    a = core.strip(a[4][0])
                if a and a[0] == "call" and nm(self.db, a) == "make_pair":
                    a = a[4][0]
                elif a and a[0] == "ctor" and a[4]:
                    a = a[4][0]
                elif a and a[0] == "init" and a[3]:
                    a = a[3][0]
                r = a
            if r is not None and self.term(f, r) == key:
                return True
        return False

    def valuemap(self, f, o):
        t = f.types[core.strip(o)[2]] if isinstance(core.strip(o)[2], int) else ""
        x = core.strip(o)
        return x[0] == "mem" and ("ValueInfo" in t or "BitInfo" in t or "SpecialValue" in t)

    def uniqueowner(self, f, C):
        for r in self.db.records.values():
            fs = [x["name"] for x in r.get("fields", ())]
            if C[1] in fs:
                return any(re.search("nonunique", x, re.I) for x in fs)
        return False

    def second_tested(self, f, e):
        for x in core.fn_exprs(f):
            if x[0] == "mem" and x[3].endswith("second"):
                y = self.find_op(f, x[4])
                if y is e:
                    return True
        return False

    def createdhere(self, f, C):
        return False

    def cloned(self, f, X):
        o = self.find_op(f, X)
        return bool(o) and any(x[0] == "call" and nm(self.db, x) == "parseClone" for x in core.walk(o))

    def need_parsed(self, f, e, X, cls, C, st):
        if self.cloned(f, X):
            return
        if not any(g.n in ("parse", "parseProps") and g.cls and g.cls.rsplit("::", 1)[-1] in self.family(cls) for g in self.parsers()):
            return
        t = self.term(f, X) if X[0] == "v" else ("?",)
        ok = any(x[0] == "parsed" and x[1] == t and (x[2] == "parse" or "Namespace" in cls or "Schema" in cls) for x in st)
        if not ok:
            o = self.find_op(f, X)
            if o and o[0] == "call" and nm(self.db, o) not in ("parseCreate", "make_unique", "move"):
                ts = self.S.targets(f, o) or []
                ok = bool(ts) and all(self.ret_parsed(self.db.fns[q]) for q in ts if q in self.db.fns)
        self.site(f, e, "parsed", C, ok, cls, ("parsed", t))

    def ret_parsed(self, g):
        """a helper that creates, parses and returns the element"""
        s = self.summary(g)
        fs = s.get("nonnull", s.get("*", frozenset()))
        return any(x[0] == "parsed" for x in fs)

    def parsers(self):
        if not hasattr(self, "_ps"):
            self._ps = [g for g in self.db.fns.values() if g.n in ("parse", "parseProps") and g.f.startswith("lib/src/parse") and g.ret == "bool"]
        return self._ps

    def family(self, cls):
        return {cls}

    def site(self, f, e, kind, C, ok, cls, need):
        r = core.root_fn(self.db, f)
        k = (f.id, e[1], kind, self.cname(C))
        s = self.sites.setdefault(k, {"ok": True, "f": f, "ln": e[1], "kind": kind, "C": C, "cls": cls})
        if not ok:
            p = None
            if need:
                t = need[1]
                if kind == "parsed" and isinstance(t, tuple) and t and t[0] == "p":
                    p = ("parsed", t)
                elif kind == "absent" and (need[2][0] == "p" or paths.mentions(need[2], lambda s: isinstance(s, tuple) and s and s[0] == "p") and r is f):
                    p = need
            if p and self.callers(f):
                self.needs.setdefault(f.id, {})[(p, k)] = s
            else:
                s["ok"] = False

    def callers(self, f):
        if not hasattr(self, "_callers"):
            self._callers = {}
            for g in self.db.fns.values():
                if not g.b or not g.f.startswith("lib/src/parse"):
                    continue
                for x in core.fn_exprs(g):
                    if x[0] == "call":
                        for t in self.S.targets(g, x) or ():
                            self._callers.setdefault(t, []).append(g)
        return self._callers.get(f.id)

    def obligations(self, f, e, st):
        for t in self.S.targets(f, e) or ():
            if t not in self.needs or t == f.id:
                continue
            m = self.tmap(f, e)
            for (need, k), s in list(self.needs[t].items()):
                x = paths.subst(need, m)
                C = s["C"]
                if need[0] == "parsed":
                    cls = s["cls"] or ""
                    ok = x is not None and any(y[0] == "parsed" and y[1] == x[1] and (y[2] == "parse" or "Namespace" in cls or "Schema" in cls)
                                               for y in st)
                    self.site(f, e, "parsed", C, ok, s["cls"], x)
                else:
                    ok = x is not None and any(y[0] == "absent" and self.samecont(y[1], x[1]) and self.samekey(y[2], x[2]) for y in st)
                    self.site(f, e, "absent", C, ok, s["cls"], x)

    def samecont(self, a, b):
        if a == b:
            return True
        # reached through an accessor that only returns the container
        def norm(t):
            if isinstance(t, tuple) and t and t[0] == "c" and t[2] is not None and len(t) == 3:
                for g in self.db.fns.values():
                    if g.n == t[1] and g.b and not g.p:
                        rs = [s for s in core.stmts(g.b) if s[0] == "ret"]
                        if len(rs) == 1 and rs[0][2] is not None:
                            y = self.term(g, rs[0][2])
                            z = paths.subst(y, {("this",): t[2]})
                            if z and z[0] == "m":
                                yield z
        return b in list(norm(a)) or a in list(norm(b))

    def cname(self, C):
        while isinstance(C, tuple) and C and C[0] == "m":
            return C[1]
        return "a local record" if isinstance(C, tuple) and C and C[0] == "v" else str(C)[:60]

    # ---------------------------------------------------------------- loops over a list examining names
    def loop_arrive(self, f, n, st):
        lid = ("in", n.ln if hasattr(n, "ln") else id(n))
        if lid in st:
            C = self.term(f, n.e)
            v = n.x[0][0] if n.x and n.x[0] else None
            names = lambda t: paths.mentions(t, lambda s: s == ("v", v))
            got = [x for x in st if x[0] == "absent" and names(x[2]) and paths.mentions(x[2], lambda s: isinstance(s, tuple) and "parseName" in s)]
            good = any(any(y[0] == "added" and y[1] == x[1] and y[2] == x[2] for y in st) for x in got)
            st = frozenset(x for x in st if x != lid and x[0] != "absent")
            if not good:
                st = st | {("bad", lid)}
        for x in [x for x in st if x[0] == "owe"]:
            if self.record:
                self.site2(f, x)
            st = st - {x}
        return st

    def loop_in(self, f, n, st):
        lid = ("in", n.ln if hasattr(n, "ln") else id(n))
        return st | {lid}

    def loop_out(self, f, n, st):
        lid = ("in", n.ln if hasattr(n, "ln") else id(n))
        C = self.term(f, n.e)
        if ("bad", lid) in st:
            return st - {("bad", lid)}
        return frozenset(x for x in st if not (x[0] == "dirty" and x[1] == C)) | {("uniq", C)}

    def site2(self, f, x):
        k = (f.id, f.l, "owe", self.cname(x[1]))
        self.sites[k] = {"ok": False, "f": f, "ln": f.l, "kind": "owe", "C": x[1], "cls": None, "D": x[2]}

    # facts of a callee that establish uniqueness clear the mark
    def effects(self, f, n, st):
        st = super().effects(f, n, st)
        return self.clean(st)

    def clean(self, st):
        u = {x[1] for x in st if x[0] == "uniq"}
        if u and any(x[0] == "dirty" and x[1] in u for x in st):
            return frozenset(x for x in st if not (x[0] == "dirty" and x[1] in u))
        return st


TEXT = {
    "parsed": "the new element is entered in %s although parse() did not succeed for it on every path to this place",
    "absent": "an entry is added to %s without a failed lookup of the same name in it on every path to this place",
    "value": "an entry is added to %s without a failed lookup of its value on a path where repetitions are not allowed",
    "owe": "the record %s in which values are looked up is not extended with the value just registered",
}


def run(db, rep, thorough):
    N = Names(db)
    parse = [f for f in db.fns.values() if f.b and f.f.startswith("lib/src/parse") and not f.parent]

    def inserts(f):
        for g in core.family(db, f):
            for e in core.fn_exprs(g):
                if e[0] == "call" and nm(db, e) in INS or e[0] == "op" and e[3] == "[]":
                    return True
        return False
    todo = [f for f in parse if inserts(f)]
    N.callers(todo[0])
    done = {}
    nf = 0
    retd = {}
    for rnd in range(4):
        N.record = True
        new = []
        for f in todo:
            for g in core.family(db, f):
                nf += 1
                retd[g.id] = dirty_returns(N, g)
                md = {x for _, d in retd[g.id] for x in d if root_ok(x[1])}
                if md and md != N.maydirty.get(g.id):
                    N.maydirty[g.id] = md
                    new += [c for c in N._callers.get(g.id, ())]
                if g.id in N.needs:
                    new += [c for c in N._callers.get(g.id, ())]
        N._sum = {}
        nxt = []
        for c in new:
            c = core.root_fn(db, c)
            if c not in nxt and done.get(c.id, 0) < 3:
                done[c.id] = done.get(c.id, 0) + 1
                nxt.append(c)
        todo = nxt
        if not todo:
            break
    counts = {}
    for (fid, ln, kind, cn), s in sorted(N.sites.items(), key=lambda x: str(x[0])):
        counts[kind] = counts.get(kind, 0) + 1
        f = s["f"]
        if not s["ok"]:
            rep.violation("%s:%s:%s" % (kind, f.q.rsplit("::", 2)[-2] + "::" + f.n, cn), "%s:%d" % (f.f, ln), kind, TEXT[kind] % cn, [f.q])
        else:
            rep.sample(kind, "%s:%d %s: %s" % (f.f, ln, f.n, cn))
    lists = 0
    told = set()
    for fid, rd in retd.items():
        f = db.fns[fid]
        cls = f.cls
        for ln, d in rd:
            for x in d:
                lists += 1
                if any(c.cls == cls and c.id != fid and c.id in retd for c in N._callers.get(fid, ())) and root_ok(x[1]):
                    continue
                if not (x[1][0] == "m"):
                    continue
                o = db.fns[x[2][0]]
                ro = core.root_fn(db, o)
                if x[2] in told:
                    continue
                told.add(x[2])
                rep.violation("distinct:%s:%s" % (ro.q.rsplit("::", 2)[-2] + "::" + ro.n, N.cname(x[1])), "%s:%d" % (o.f, x[2][1]), "distinct",
                              "success is reported (%s:%d) although the names of the elements of %s were not examined for repetitions after it was "
                              "extended here" % (f.f, ln, N.cname(x[1])), [ro.q, f.q])
    rep.set("functions explored", nf, 20)
    rep.set("element registrations reached only after parse()", counts.get("parsed", 0), 10)
    rep.set("name lookups before insertion", counts.get("absent", 0), 6)
    rep.set("value lookups before insertion", counts.get("value", 0), 3)
    rep.set("lists examined for repeated names", len(N.lists), 6)


def root_ok(C):
    while C[0] == "m":
        C = C[2]
    return C == ("this",) or C[0] == "p"


def dirty_returns(N, g):
    res = []
    for n, st, _ in N.explore(g):
        if n.k not in ("ret", "endfn"):
            continue
        if n.k == "ret" and n.e is not None:
            e = core.strip(n.e)
            if e is not None and e[0] == "bool" and not e[-1]:
                continue
            st = N.effects(g, n, st)
            t, u = N.cond_facts(g, n.e) if g.ret == "bool" else (frozenset(), 0)
            if N.contradict(st, t):
                continue
            st = st | t
        st = N.clean(st)
        for x in st:
            if x[0] == "owe":
                N.site2(g, x)
        d = {x for x in st if x[0] == "dirty"}
        if d:
            res.append((n.ln, d))
    return res
