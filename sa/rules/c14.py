"""C14: every template placeholder is filled and every prepared value is used."""
import json, os, re
from sa import core, status, tables

RULE = ("for every genProcessTemplate() call: the placeholders of the template(s) that can reach it and the keys put into the replacement map(s) that can reach it "
        "are the same set; no key is given twice in one initialiser; no text built for the output is dropped")
EXPLAIN = ("Every call of the template processor in the library and the generators is resolved: the template argument to the string constants that can "
           "reach it (directly, through locals, pointers, returned constants and parameters), the map argument to all keys stored in it anywhere in the "
           "function, its lambdas and the functions it is handed to. Reported: a placeholder no code fills (it silently expands to nothing), a key "
           "without placeholder (its text is silently dropped), duplicate keys, a text or list of texts that is built and then never read, "
           "an expansion whose result is discarded.")
ASSUME = ["a placeholder filled on some paths only is accepted: an empty expansion is the template language's way of leaving an optional part out"]
DATA = os.path.join(os.path.dirname(__file__), "..", "data", "leftovers.json")
CODE = ("genReadCodeInjectCode", "genReadScriptCodeInjectCode")
LAST = re.compile(r"[ \t\r]*#\^#(\w+)#\$#")
PH = re.compile(r"#\^#(.*?)#\$#", re.S)


def where(f, ln):
    return "%s:%d" % (f.f, ln)


def name(db, n):
    d = db.decls.get(core.callee(n)) if n[0] in ("call", "op", "ctor") else None
    return d["n"] if d else ""


def unwrap(e):
    e = core.strip(e) if e else None
    while e and e[0] == "ctor" and len([x for x in e[4] if x and x[0] != "dflt"]) == 1:
        e = core.strip([x for x in e[4] if x and x[0] != "dflt"][0])
    return e


def mstrip(e):
    """without implicit conversions and copies (a one-element braced list stays)"""
    while e:
        if e[0] == "ctor" and e[5] in ("copy", "move") and e[4]:
            e = e[4][0]
        elif e[0] == "icast":
            e = e[4]
        elif e[0] == "cast":
            e = e[5]
        elif e[0] == "dflt":
            e = e[2]
        else:
            return e
    return e


class Tm:
    def __init__(self, db):
        self.db, self.S, self.T = db, status.get(db), tables.get(db)
        self.fam = {}
        self.callers = None

    def family(self, f):
        r = core.root_fn(self.db, f)
        if r.id not in self.fam:
            self.fam[r.id] = (r, core.family(self.db, r))
        return self.fam[r.id]

    def callsites(self, f):
        if self.callers is None:
            self.callers = {}
            for g in self.db.fns.values():
                if g.b and g.f.startswith(("lib/src", "app/")):
                    for e in core.fn_exprs(g):
                        if e[0] in ("call", "op") and e[3]:
                            for t in self.S.targets(g, e) or ():
                                self.callers.setdefault(t, []).append((g, e))
        return self.callers.get(f.id, ())

    def ids(self, f, vid):
        """(vid is shared by the lambdas of a family)"""
        return vid

    def defs(self, f, vid):
        """expressions assigned to local vid anywhere in the family of f"""
        out = []
        r, fam = self.family(f)
        for g in fam:
            for s in core.stmts(g.b):
                if s[0] == "decl":
                    for v in s[2]:
                        if v[0] == vid and v[3]:
                            out.append((g, v[3]))
                if s[0] == "if" and s[3] and isinstance(s[3], list) and len(s[3]) > 3 and s[3][0] == vid and s[3][3]:
                    out.append((g, s[3][3]))
            for e in core.fn_exprs(g):
                if e[0] == "bin" and e[3] == "=":
                    l = core.strip(e[4])
                    if l and l[0] == "v" and l[3] == vid:
                        out.append((g, e[5]))
                elif e[0] == "op" and e[3] in ("=", "+="):
                    l = core.strip(e[5][0])
                    if l and l[0] == "v" and l[3] == vid:
                        out.append((g, e[5][1]))
                elif e[0] == "call" and name(self.db, e) in ("append", "assign", "push_back", "insert") and e[5]:
                    l = core.strip(e[5])
                    if l and l[0] == "v" and l[3] == vid:
                        for a in e[4]:
                            out.append((g, a))
        return out

    def param(self, f, vid):
        r, fam = self.family(f)
        for g in fam:
            for i, p in enumerate(g.p):
                if p[0] == vid:
                    return g, i
        return None

    # templates
    def templ(self, f, e, depth=6, seen=frozenset()):
        """-> (set of constant pieces, complete?)"""
        e = unwrap(e)
        if not e or not depth:
            return set(), False
        v = self.T.ev(f, e)
        if v and v[0] == "s":
            return {v[1]}, True
        if e[0] == "un" and e[3] in ("*", "&"):
            return self.templ(f, e[4], depth, seen)
        if e[0] == "cond":
            a, x = self.templ(f, e[4], depth - 1, seen)
            b, y = self.templ(f, e[5], depth - 1, seen)
            return a | b, x and y
        if e[0] == "op" and e[3] == "+" or e[0] == "bin" and e[3] == "+":
            l, r = (e[5][0], e[5][1]) if e[0] == "op" else (e[4], e[5])
            a, x = self.templ(f, l, depth - 1, seen)
            b, y = self.templ(f, r, depth - 1, seen)
            return a | b, x and y
        if e[0] == "v":
            if e[3] in seen:
                return set(), True
            seen = seen | {e[3]}
            ds = self.defs(f, e[3])
            if ds:
                out, ok = set(), True
                for g, d in ds:
                    d2 = unwrap(d)
                    if d2 and d2[0] in ("null",) or d2 and d2[0] == "ctor" and not d2[4]:
                        continue
                    a, x = self.templ(g, d, depth - 1, seen)
                    out |= a
                    ok = ok and x
                return out, ok
            p = self.param(f, e[3])
            if p and p[0].n != "<lambda>":
                g, i = p
                out, ok = set(), True
                cs = self.callsites(g)
                for h, c in cs:
                    args = c[4] if c[0] == "call" else c[5][1:]
                    if i < len(args):
                        a, x = self.templ(h, args[i], depth - 1, seen)
                        out |= a
                        ok = ok and x
                return out, ok and bool(cs)
            return set(), False
        if e[0] == "gv":
            g = self.db.globals.get(e[3])
            return set(), False
        if e[0] == "idx" or e[0] == "op" and e[3] == "[]":
            b = unwrap(e[3] if e[0] == "idx" else e[5][0])
            if b and b[0] == "v":
                out = set()
                for g, d in self.defs(f, b[3]):
                    for x in core.walk(d):
                        v = self.T.ev(g, x)
                        if v and v[0] == "s":
                            out.add(v[1])
                return out, bool(out)
            return set(), False
        if e[0] == "call" and e[3]:
            out, ok = set(), True
            ts = [self.db.fns[t] for t in self.S.targets(f, e) or () if t in self.db.fns]
            if not ts:
                return set(), False
            for g in ts:
                if not g.b:
                    ok = False
                    continue
                for s in core.stmts(g.b):
                    if s[0] == "ret" and s[2]:
                        a, x = self.templ(g, s[2], depth - 1, seen)
                        out |= a
                        ok = ok and x
            return out, ok
        return set(), False

    # maps
    def rowkey(self, f, e):
        """key of an element initialiser {"K", value} / make_pair("K", value)"""
        e = unwrap(e)
        if not e:
            return None
        if e[0] == "init" and len(e[3]) == 2:
            return self.T.ev(f, e[3][0])
        if e[0] == "ctor" and len([x for x in e[4] if x and x[0] != "dflt"]) == 2:
            return self.T.ev(f, e[4][0])
        if e[0] == "call" and name(self.db, e) == "make_pair":
            return self.T.ev(f, e[4][0])
        return None

    def rows(self, f, e):
        """element expressions of a map initialiser"""
        e = mstrip(e)
        while e and e[0] == "ctor":
            a = [x for x in e[4] if x and x[0] != "dflt"]
            if len(a) != 1:
                return None if a else []
            e = mstrip(a[0])
        if e and e[0] == "init":
            if len(e[3]) == 1 and self.rowkey(f, e[3][0]) is None:
                return self.rows(f, e[3][0])
            return e[3]
        return None

    def keys(self, f, e, depth=6, seen=frozenset()):
        """-> (dict key -> where, complete?, list of duplicate keys)"""
        db = self.db
        e = mstrip(e)
        out, dup = {}, []
        if not e or not depth:
            return out, False, dup
        rs = self.rows(f, e) if e[0] in ("ctor", "init") else None
        if rs is not None:
            ok = True
            for r in rs:
                k = self.rowkey(f, r)
                if k and k[0] == "s":
                    if k[1] in out:
                        dup.append((k[1], where(f, r[1] if isinstance(r[1], int) else e[1])))
                    out.setdefault(k[1], where(f, r[1] if isinstance(r[1], int) and r[1] else e[1]))
                else:
                    ok = False
            return out, ok, dup
        if e[0] == "ctor":
            a = [x for x in e[4] if x and x[0] != "dflt"]
            if len(a) == 1:
                return self.keys(f, a[0], depth, seen)
        if e[0] == "call" and name(db, e) in ("move", "forward"):
            return self.keys(f, e[4][0], depth, seen)
        if e[0] == "un" and e[3] in ("*", "&"):
            return self.keys(f, e[4], depth, seen)
        if e[0] == "v":
            if e[3] in seen:
                return out, True, dup
            seen = seen | {e[3]}
            ok = True
            r, fam = self.family(f)
            p = self.param(f, e[3])
            init = False

            def add(t):
                nonlocal ok
                for k, w in t[0].items():
                    out.setdefault(k, w)
                ok = ok and t[1]
                dup.extend(t[2])
            for g in fam:
                for s in core.stmts(g.b):
                    if s[0] == "decl":
                        for v in s[2]:
                            if v[0] == e[3]:
                                init = True
                                if v[3]:
                                    d = unwrap(v[3])
                                    if d and not (d[0] == "ctor" and not d[4]):
                                        add(self.keys(g, v[3], depth - 1, seen))
                for x in core.fn_exprs(g):
                    add(self.mapop(g, x, e[3], depth, seen))
            if p and p[0].n != "<lambda>":
                g, i = p
                cs = self.callsites(g)
                for h, c in cs:
                    args = c[4] if c[0] == "call" else c[5][1:]
                    if i < len(args):
                        add(self.keys(h, args[i], depth - 1, seen))
                ok = ok and bool(cs)
            elif not init:
                ok = False
            return out, ok, dup
        if e[0] == "call" and e[3]:
            ok = False
            for t in self.S.targets(f, e) or ():
                g = self.db.fns.get(t)
                if g is None or not g.b:
                    continue
                ok = True
                for s in core.stmts(g.b):
                    if s[0] == "ret" and s[2]:
                        a = self.keys(g, s[2], depth - 1, seen)
                        out.update(a[0])
                        ok = ok and a[1]
                        dup.extend(a[2])
            return out, ok, dup
        return out, False, dup

    def may_be_empty(self, f, e, key):
        """why the text stored under key can be empty, None when no such way is known"""
        b = mstrip(e)
        vals = []
        if b and b[0] == "v":
            for g in self.family(f)[1]:
                for s in core.stmts(g.b):
                    if s[0] == "decl":
                        for v in s[2]:
                            if v[0] == b[3] and v[3]:
                                vals += self.value_of(g, v[3], key)
        else:
            vals = self.value_of(f, e, key)
        for g, v in vals:
            w = self.empty(g, v)
            if w:
                return w
        return None

    def value_of(self, f, e, key):
        out = []
        for r in self.rows(f, e) or ():
            k = self.rowkey(f, r)
            if k and k[0] == "s" and k[1] == key:
                u = unwrap(r)
                a = u[3] if u[0] == "init" else [x for x in u[4] if x and x[0] != "dflt"]
                if len(a) == 2:
                    out.append((f, a[1]))
        return out

    def empty(self, f, e, depth=3):
        e = unwrap(e)
        if not e or not depth:
            return None
        v = self.T.ev(f, e)
        if v and v[0] == "s":
            return "constant" if not v[1] else None
        if e[0] == "call" and name(self.db, e) in CODE:
            return "%s finds no code" % name(self.db, e)
        if e[0] == "ctor" and not [x for x in e[4] if x and x[0] != "dflt"]:
            return "empty string"
        if e[0] == "call" and e[3]:
            for t in self.S.targets(f, e) or ():
                g = self.db.fns.get(t)
                if g is None or not g.b or not g.f.startswith(("app/", "lib/src/gen")):
                    continue
                for s in core.stmts(g.b):
                    if s[0] == "ret" and s[2]:
                        w = self.empty(g, s[2], depth - 1)
                        if w:
                            return "%s returns it: %s" % (g.q, w)
        return None

    def mapop(self, g, x, vid, depth, seen):
        """keys stored by one expression into the map held by local vid"""
        db = self.db
        none = ({}, True, [])

        def isv(y):
            y = core.strip(y) if y else None
            while y and y[0] == "un" and y[3] in ("*", "&"):
                y = core.strip(y[4])
            return bool(y and y[0] == "v" and y[3] == vid)
        if x[0] == "op" and x[3] == "[]" and isv(x[5][0]):
            k = self.T.ev(g, x[5][1])
            return ({k[1]: where(g, x[1])}, True, []) if k and k[0] == "s" else ({}, False, [])
        if x[0] == "op" and x[3] == "=" and isv(x[5][0]):
            return self.keys(g, x[5][1], depth - 1, seen)
        if x[0] == "call" and len(x) > 5 and x[5] and isv(x[5]):
            nm = name(db, x)
            if nm in ("insert", "insert_or_assign", "emplace", "try_emplace", "at"):
                a = [y for y in x[4] if y and y[0] != "dflt"]
                if len(a) == 2:
                    k = self.T.ev(g, a[0])
                    if k and k[0] == "s":
                        return {k[1]: where(g, x[1])}, True, []
                    # range of another map
                    for y in core.walk(a[0]):
                        if y[0] == "v" and y[3] != vid:
                            return self.keys(g, y, depth - 1, seen)
                    return {}, False, []
                if len(a) == 1:
                    k = self.rowkey(g, a[0])
                    if k and k[0] == "s":
                        return {k[1]: where(g, x[1])}, True, []
                    rs = self.rows(g, a[0])
                    if rs:
                        return self.keys(g, a[0], depth - 1, seen)
                    return {}, False, []
            if nm in ("merge", "swap"):
                return self.keys(g, x[4][0], depth - 1, seen)
            return none
        if x[0] in ("call", "op"):
            args = x[4] if x[0] == "call" else x[5][1:]
            for i, a in enumerate(args or ()):
                if a and isv(a):
                    out, ok = {}, True
                    for t in self.S.targets(g, x) or ():
                        h = db.fns.get(t)
                        if h is not None and h.b and i < len(h.p):
                            if h.parent and h.n == "<lambda>" or t == "":
                                pass
                            ty = h.p[i][2]
                            if "const " in ty and "&" in ty or "&" not in ty and "*" not in ty:
                                continue
                            pv = h.p[i][0]
                            if pv in seen:
                                continue
                            r, fam = self.family(h)
                            for gg in fam:
                                for y in core.fn_exprs(gg):
                                    m = self.mapop(gg, y, pv, depth - 1, seen | {pv}) if depth else none
                                    out.update(m[0])
                                    ok = ok and m[1]
                    return out, ok, []
        return none


def dead(db, T, rep):
    """text built and never read"""
    n = 0
    seen_roots = set()
    for f in db.fns.values():
        if not f.b or not f.f.startswith(("app/", "lib/src/gen")) or f.dep:
            continue
        r, fam = T.family(f)
        if r.id in seen_roots:
            continue
        seen_roots.add(r.id)
        cand = {}
        for g in fam:
            for s in core.stmts(g.b):
                if s[0] == "decl":
                    for v in s[2]:
                        ty = g.types[v[2]] if isinstance(v[2], int) else v[2]
                        b = ty.replace("const ", "").strip()
                        if b.endswith("&") or b.endswith("*"):
                            continue
                        if re.match(r"std::(basic_string<char>|vector<std::basic_string|list<std::basic_string|map<std::basic_string<char>, std::basic_string|set<std::basic_string)", b) and len(v) > 4:
                            cand[v[0]] = (v[1], g, v[5] if len(v) > 5 and isinstance(v[5], int) else s[1])
        n += len(cand)
        if not cand:
            continue
        uses, built = {}, set()
        for g in fam:
            wr = {}
            for s in core.stmts(g.b):
                if s[0] == "expr" and s[2]:
                    e = core.strip(s[2])
                    l = None
                    if e and e[0] == "op" and e[3] in ("=", "+="):
                        l = core.strip(e[5][0])
                        if l and l[0] == "op" and l[3] == "[]":
                            l = core.strip(l[5][0])
                    elif e and e[0] == "bin" and e[3] in ("=", "+="):
                        l = core.strip(e[4])
                    elif e and e[0] == "call" and name(db, e) in ("push_back", "emplace_back", "append", "insert", "assign", "clear", "reserve", "emplace", "resize") and e[5]:
                        l = core.strip(e[5])
                    if l and l[0] == "v":
                        wr[id(l)] = l[3]
                        built.add(l[3])
            for e in core.fn_exprs(g):
                if e[0] == "v" and e[3] in cand:
                    if id(e) not in wr:
                        uses[e[3]] = uses.get(e[3], 0) + 1
        for g in fam:
            for e in core.fn_exprs(g):
                if e[0] == "lam":
                    for c in (e[3] or ()):
                        pass
        for vid, (nm, g, ln) in cand.items():
            if not uses.get(vid) and vid in built:
                rep.violation("dead:%s:%s" % (r.q, nm), where(g, ln if isinstance(ln, int) else g.l), "text dropped", "%s builds \"%s\" but nothing reads it" % (r.q, nm), [where(g, g.l)])
    rep.set("local texts and text lists", n, 1500)


def is_map(ty):
    return bool(re.match(r"(const )?(std::(__cxx11::)?map<std::(__cxx11::)?basic_string<char>, std::(__cxx11::)?basic_string<char>.*>|.*GenReplacementMap)\s*[&*]*( const)?$", ty))


class Uses:
    """which keys of a map can reach a template, or are read otherwise"""

    def __init__(self, T):
        self.T, self.db = T, T.db
        self.memo, self.st = {}, {}

    def isv(self, y, vid):
        y = core.strip(y) if y else None
        while y:
            if y[0] == "un" and y[3] in ("*", "&"):
                y = core.strip(y[4])
            elif y[0] == "ctor" and len([a for a in y[4] if a and a[0] != "dflt"]) == 1:
                y = core.strip([a for a in y[4] if a and a[0] != "dflt"][0])
            elif y[0] == "call" and name(self.db, y) in ("move", "forward", "as_const", "ref") and y[4]:
                y = core.strip(y[4][0])
            else:
                break
        return bool(y and y[0] == "v" and y[3] == vid)

    def of(self, f, vid, seen=frozenset()):
        """(keys used, unknown use?)"""
        mk = (core.root_fn(self.db, f).id, vid)
        if mk in seen:
            return set(), False
        if mk in self.memo:
            return self.memo[mk]
        top = not seen
        seen = seen | {mk}
        db, T = self.db, self.T
        out, unk = set(), False

        def add(t):
            nonlocal unk
            out.update(t[0])
            unk = unk or t[1]
        r, fam = T.family(f)
        for g in fam:
            for s in core.stmts(g.b):
                if s[0] == "decl":
                    for v in s[2]:
                        if v[3] and v[0] != vid and self.isv(v[3], vid):
                            add(self.of(g, v[0], seen))
                elif s[0] == "rfor" and self.isv(s[3], vid):
                    unk = True
                elif s[0] == "ret" and s[2] and self.isv(s[2], vid):
                    add(self.returned(g, seen))
            for x in core.fn_exprs(g):
                if x[0] == "call" and name(db, x) == "genProcessTemplate" and len(x[4]) > 1 and self.isv(x[4][1], vid):
                    ts, ok = T.templ(g, x[4][0])
                    for t in ts:
                        out.update(PH.findall(t))
                    unk = unk or not ok
                    continue
                if x[0] == "op" and x[3] == "[]" and self.isv(x[5][0], vid):
                    if id(x) not in self.stores(g):
                        k = T.T.ev(g, x[5][1])
                        if k and k[0] == "s":
                            out.add(k[1])
                        else:
                            unk = True
                    continue
                if x[0] == "op" and x[3] == "=" and len(x[5]) == 2:
                    if self.isv(x[5][1], vid):
                        l = core.strip(x[5][0])
                        if l and l[0] == "v":
                            add(self.of(g, l[3], seen))
                        else:
                            unk = True
                    continue
                if x[0] == "call" and len(x) > 5 and x[5] and self.isv(x[5], vid):
                    nm = name(db, x)
                    if nm in ("at", "find", "count", "erase", "operator[]"):
                        k = T.T.ev(g, x[4][0]) if x[4] else None
                        if k and k[0] == "s":
                            out.add(k[1])
                        else:
                            unk = True
                    elif nm in ("begin", "cbegin"):
                        unk = True
                    continue
                args = x[4] if x[0] == "call" else x[5][1:] if x[0] == "op" else ()
                for i, a in enumerate(args or ()):
                    if a and self.isv(a, vid):
                        known = False
                        for t in T.S.targets(g, x) or ():
                            h = db.fns.get(t)
                            if h is not None and h.b and i < len(h.p):
                                known = True
                                add(self.of(h, h.p[i][0], seen))
                        if not known:
                            unk = True
                if x[0] in ("ctor", "init") and x[0] == "init":
                    if any(a and self.isv(a, vid) for a in x[3]):
                        unk = True
        res = (out, unk)
        if top:
            self.memo[mk] = res
        return res

    def returned(self, g, seen):
        """uses of what g returns"""
        db, T = self.db, self.T
        out, unk = set(), False
        cs = T.callsites(g)
        if not cs:
            return out, True
        for h, c in cs:
            hit = False
            for gg in T.family(h)[1]:
                for s in core.stmts(gg.b):
                    if s[0] == "decl":
                        for v in s[2]:
                            if v[3] and any(y is c for y in core.walk(v[3])):
                                o, u = self.of(gg, v[0], seen)
                                out |= o
                                unk = unk or u
                                hit = True
                for x in core.fn_exprs(gg):
                    if x[0] == "call" and name(db, x) == "genProcessTemplate" and len(x[4]) > 1 and any(y is c for y in core.walk(x[4][1])):
                        ts, ok = T.templ(gg, x[4][0])
                        for t in ts:
                            out.update(PH.findall(t))
                        unk = unk or not ok
                        hit = True
            if not hit:
                unk = True
        return out, unk

    def stores(self, g):
        """the subscript expressions of g that are only written"""
        if g.id not in self.st:
            st = set()
            for x in core.fn_exprs(g):
                if x[0] == "op" and x[3] == "=":
                    l = core.strip(x[5][0])
                    if l and l[0] == "op":
                        st.add(id(l))
                elif x[0] == "bin" and x[3] == "=":
                    l = core.strip(x[4])
                    if l and l[0] == "op":
                        st.add(id(l))
            self.st[g.id] = st
        return self.st[g.id]


def run(db, rep, thorough):
    T = Tm(db)
    U = Uses(T)
    calls = res = nk = nph = 0
    unresolved = []
    fill = {}           # (root, placeholder, template) -> [filled somewhere, where]
    reviewed = json.load(open(DATA))
    keep = {(r["kind"], r["file"], r["key"]) for r in reviewed}
    met = set()
    for f in db.fns.values():
        if not f.b or not f.f.startswith(("lib/src", "app/")) or f.dep:
            continue
        root = core.root_fn(db, f)
        for s in core.stmts(f.b):
            if s[0] == "expr" and s[2]:
                e = core.strip(s[2])
                if e and e[0] == "call" and name(db, e) == "genProcessTemplate":
                    rep.violation("discarded:%s" % root.q, where(f, e[1]), "text dropped", "the result of genProcessTemplate is discarded in %s" % f.q, [where(f, e[1])])
            # maps held in locals
            if s[0] == "decl":
                for v in s[2]:
                    ty = f.types[v[2]] if isinstance(v[2], int) else v[2]
                    if not is_map(ty) or ty.rstrip().endswith(("&", "*")):
                        continue
                    ks, kok, dup = T.keys(f, ["v", s[1], v[2], v[0], v[1]])
                    for k, w in dup:
                        rep.violation("dup:%s:%s" % (root.q, k), w, "duplicate key", "%s gives key %s twice in one map, the second text is dropped" % (root.q, k), [w])
                    nk += len(ks)
                    used, unk = U.of(f, v[0])
                    if unk:
                        rep.count("maps with uses outside the analysis")
                        continue
                    for k, w in sorted(ks.items()):
                        if k in used:
                            continue
                        if ("key", f.f, k) in keep:
                            met.add(("key", f.f, k))
                            continue
                        rep.violation("unused:%s:%s" % (root.q, k), w, "value dropped", "%s: the text prepared for %s has no placeholder in the template" % (root.q, k), [w])
        for e in core.fn_exprs(f):
            if e[0] != "call" or name(db, e) != "genProcessTemplate" or len(e[4]) < 2 or f.n == "genProcessTemplate":
                continue
            calls += 1
            ts, tok = T.templ(f, e[4][0])
            ks, kok, dup = T.keys(f, e[4][1])
            ph = {}
            for t in ts:
                for m in PH.findall(t):
                    ph.setdefault(m, t)
                rest = PH.sub("", t)
                if tok and len(ts) == 1 and ("#^#" in rest or "#$#" in rest):
                    rep.violation("malformed:%s" % root.q, where(f, e[1]), "template", "%s: malformed placeholder in the template" % root.q, [where(f, e[1])])
            if tok or ts:
                res += 1
            else:
                unresolved.append(where(f, e[1]))
            nph += len(ph)
            if not kok:
                rep.count("maps with unknown keys")     # filled by code outside the analysis
            for t in ts:
                m = LAST.match(t.rsplit("\n", 1)[-1])
                if m and tok and kok:
                    why = T.may_be_empty(f, e[4][1], m.group(1))
                    if why:
                        rep.violation("unterminated:%s:%s" % (root.q, m.group(1)), where(f, e[1]), "template",
                                      "%s: the last line of the template starts with placeholder %s and has no line end, expanding it with an empty text (%s) fails" % (root.q, m.group(1), why), [where(f, e[1])])
            for k, t in ph.items():
                r = fill.setdefault((k, t), [False, root, where(f, e[1])])
                r[0] = r[0] or not kok or k in ks
            b = core.strip(e[4][1])
            if b and b[0] != "v" and kok:       # a map made on the spot
                nk += len(ks)
                for k, w in sorted(ks.items()):
                    if tok and k not in ph and b[0] in ("ctor", "init"):
                        rep.violation("unused:%s:%s" % (root.q, k), w, "value dropped", "%s: the text prepared for %s has no placeholder in the template" % (root.q, k), [w])
    for (k, t), (ok, root, w) in sorted(fill.items(), key=lambda x: x[1][2]):
        if not ok:
            if ("placeholder", root.f, k) in keep:
                met.add(("placeholder", root.f, k))
                continue
            rep.violation("unfilled:%s:%s" % (root.q, k), w, "placeholder", "%s: placeholder %s of the template is never given a value" % (root.q, k), [w])
    for u in unresolved:
        rep.note("template not resolved to constants at %s" % u)
    rep.set("template expansions", calls, 700)
    rep.set("expansions with resolved templates", res, 690)
    rep.set("placeholders", nph, 2300)
    rep.set("prepared values", nk, 2200)
    rep.set("reviewed leftovers without content", len(met))
    dead(db, T, rep)
