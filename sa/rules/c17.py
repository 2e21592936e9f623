"""C17: an element is treated as a specific kind only when it is of that kind.

Must-facts on every path (sa/paths.py, interprocedural) towards every conversion from a general element to a specific kind: a static_cast to
the implementation / generator class of a specific kind, and the construction of a ParseXxxField / ParseXxxLayer view of a general element.
The kind has to be established for the very element converted: by comparing its kind, by a search that compares the kind, by an earlier
helper that does so, or by the class the conversion is written in; a conversion of a parameter is judged at the callers."""
import ast
import re
from sa import core, paths
from sa.paths import nm

VIEW = {"genParseObj", "genField", "commsGenField", "parseReferee", "as_const", "cGenField", "latexGenField"} - {"parseReferee"}
KINDFN = {"parseKind", "parseObjKind", "genElemType", "genGetObjKind"}


def bare(t):
    return re.sub(r"\b(const|class|struct)\b|[&*]", "", t).strip()


EXPLAIN = ("Every conversion of a general element to a specific kind is reached only on paths where the kind of that element was compared with "
           "the kind it is converted to, or where the element is known to be of the kind by construction.")
RULE = ("a conversion (static_cast to the class of a kind, construction of a view of a kind) of an element whose kind is not established to be "
        "that kind on every path is a violation")
ASSUME = ["frames, messages and interfaces are created with a namespace as parent and layers with a frame (their only creators)",
          "the kind of a prefix field is verified where the prefix is read from the schema",
          "an element without parent namespace or field is the schema",
          "assert() is taken as established in the generator (lib/src/gen, app), where the model was verified by the parser; not in the parser",
          "tables of functions indexed by the kind are ordered as the enumeration (C07/C26 judge such tables)"]


class Kinds(paths.Paths):
    def __init__(self, db):
        super().__init__(db, self.mk_atoms, None, maxdepth=4)
        self.bases = {}
        for r in db.records.values():
            self.bases[r.get("q") or r.get("n")] = [b if isinstance(b, str) else b.get("q") if isinstance(b, dict) else b[0] for b in r.get("bases", ())]
        # an enumeration of two kinds: not one is the other
        self.other = {}
        for q, en in db.enums.items():
            if str(en.get("q", q)).endswith("ParseOptCond::ParseKind"):
                vs = [v[0] if isinstance(v, (list, tuple)) else v for v in en.get("vals", en.get("e", ()))]
                vs = [v.rsplit("::", 1)[-1] for v in vs]
                vs = [v for v in vs if v != "Invalid" and not v.startswith("NumOf")]
                if len(vs) == 2:
                    self.other = {vs[0]: vs[1], vs[1]: vs[0]}
        self.record = False
        self.sites = {}
        self.nstruct = 0
        self.needs = {}

    def cfg(self, f):
        g = self._cfg.get(f.id)
        if g is None:
            g = self._cfg[f.id] = core.cfg(self.db, f, asserts=not f.f.startswith("lib/src/parse"))
        return g

    def anc(self, c):
        s, w = set(), [c]
        while w:
            x = w.pop()
            for b in self.bases.get(x, ()):
                if b not in s:
                    s.add(b)
                    w.append(b)
        return s

    def kind(self, c):
        todo = [c]
        while todo:
            x = todo.pop(0)
            s = x.rsplit("::", 1)[-1]
            m = re.match(r"(?:Parse|Gen)(\w+?)(?:Impl)?$", s)
            if m:
                return m.group(1)
            todo += self.bases.get(x, ())
        return None

    def norm(self, t):
        while isinstance(t, tuple) and t and t[0] == "c" and t[1] in VIEW and len(t) == 3 and t[2] is not None:
            t = t[2]
        if isinstance(t, tuple) and t and t[0] == "c" and t[1] in ("commsCast", "genCast", "cCast", "latexCast") and t[2] is None and len(t) == 4:
            return self.norm(t[3])
        return t

    def kindterm(self, t):
        if isinstance(t, tuple) and t and t[0] == "c" and t[1] in KINDFN and len(t) == 3:
            return self.norm(t[2] if t[2] is not None else ("this",)), t[1]
        return None

    def kname(self, t):
        if t[0] in ("k", "g") and isinstance(t[1], str):
            s = t[1].rsplit("::", 1)[-1]
            return s.replace("GenType_", "").replace("GenElemType_", "")
        return None

    def mk_atoms(self, P, f, e):
        if e[0] in ("bin", "op") and e[3] in ("==", "!="):
            l, r = (e[4], e[5]) if e[0] == "bin" else (e[5][0], e[5][1]) if len(e[5]) == 2 else (None, None)
            if l is None:
                return None
            tl, tr = self.term(f, l), self.term(f, r)
            kl, kr = self.kindterm(tl), self.kindterm(tr)
            a = None
            for x, y in ((l, tr), (r, tl)):
                z = core.strip(x)
                if z and z[0] == "null":
                    a = ("null", self.norm(y))
                    return ((a,), ()) if e[3] == "==" else ((), (a,))
            if kl and kr:
                a = ("same", kl[0], kr[0])
            elif kl or kr:
                k = kl or kr
                n = self.kname(tr if kl else tl)
                if n:
                    a = ("kind", k[0], n)
            if a:
                b = (("kind", a[1], self.other[a[2]]),) if a[0] == "kind" and a[2] in self.other else ()
                return ((a,), b) if e[3] == "==" else (b, (a,))
            for x, y in ((tl, tr), (tr, tl)):
                if x[0] == "c" and x[1] == "find_if" and y[0] == "c" and y[1] == "end" and len(x) > 5:
                    le = self.lam_kind(f, l if x is tl else r)
                    if le:
                        a = ("kind", x, le)
                        return ((a,), ()) if e[3] == "!=" else ((), (a,))
        elif e[0] == "v":
            ty = f.types[e[2]] if isinstance(e[2], int) else ""
            if ty.endswith("*"):
                return (), (("null", self.norm(self.term(f, e))),)
        return None

    def after(self, f, n, st):
        if n.k in ("as", "d"):
            e = core.strip(n.e) if n.e is not None else None
            if e is not None and e[0] == "null":
                v = n.x[0] if n.k == "d" else None
                if n.k == "as":
                    x = core.strip_implicit(n.x) if isinstance(n.x, list) else None
                    v = x[3] if x and x[0] == "v" else None
                if v is not None:
                    return st | {("null", ("v", v))}
        elif n.k == "e" and n.e is not None:
            e = core.strip(n.e)
            if e and e[0] == "bin" and e[3] == "=":
                x, r = core.strip_implicit(e[4]), core.strip(e[5])
                if x and x[0] == "v" and r and r[0] == "null":
                    return st | {("null", ("v", x[3]))}
        return st

    def lam_kind(self, f, e):
        x = core.strip(e)
        if x and x[0] == "v":
            i = self.defs(f)["init"].get(x[3])
            x = core.strip(i[0]) if i and i[0] else x
        if not x or x[0] != "call" or not x[4]:
            return None
        l = core.lambda_of(self.db, f, x[4][-1])
        g = self.db.fns.get(l) if l else None
        if not g or not g.p:
            return None
        s = self.summary(g).get(True) or ()
        for y in s:
            if y[0] == "kind":
                return y[2]
        return None

    def switch(self, f, n, st, norm):
        k = self.kindterm(self.term(f, n.e)) if n.e is not None else None
        res = []
        for t, l in n.succ:
            add = frozenset()
            if k and isinstance(l, tuple):
                try:
                    c = self.kname(self.term(f, ast.literal_eval(l[1])))
                except (ValueError, SyntaxError):
                    c = None
                if c:
                    add = frozenset({("kind", k[0], c)})
            res.append((l, norm(st | add)))
        return res

    def under(self, f, e, st):
        """(evaluated expression, facts under which it is evaluated) inside one statement"""
        if not isinstance(e, list) or not e or not isinstance(e[0], str):
            return
        if e[0] == "cond":
            ks = core.kids(e)
            t, u = self.cond_facts(f, ks[0])
            yield e, st
            yield from self.under(f, ks[0], st)
            yield from self.under(f, ks[1], st | t)
            yield from self.under(f, ks[2], st | u)
            return
        if e[0] == "bin" and e[3] in ("&&", "||"):
            t, u = self.cond_facts(f, e[4])
            yield e, st
            yield from self.under(f, e[4], st)
            yield from self.under(f, e[5], st | (t if e[3] == "&&" else u))
            return
        yield e, st
        if e[0] == "lam":
            return
        for k in core.kids(e):
            yield from self.under(f, k, st)

    def effects(self, f, n, st):
        if self.record and n.e is not None:
            for e, fs in self.under(f, n.e, st):
                if e[0] in ("cast", "ctor"):
                    self.check(f, n, e, fs)
                elif e[0] == "call" or e[0] == "op" and e[3] == "()":
                    self.oblig(f, e, fs)
                elif e[0] == "lam":
                    for (t, ka, kb) in list(self.needs.get(e[2], ())):
                        self.judge(f, e[1], t, ka, kb, fs, (f.id, e[1], "lambda", ka, str(t)))
        return super().effects(f, n, st)

    def target(self, f, e):
        t = f.types[e[2]] if isinstance(e[2], int) else ""
        if e[0] == "ctor":
            a = [x for x in e[4] or [] if x and x[0] != "dflt"]
            if len(a) != 1 or "::parse::Parse" not in t or "Impl" in t:
                return None
            src = core.strip(a[0])
            if src and src[0] == "ctor":
                src = core.strip(src[4][0]) if len(src[4] or []) == 1 else None
        else:
            src = core.strip_implicit(e[-1]) if isinstance(e[-1], list) else core.strip_implicit(e[4])
        if not src or len(src) < 3 or not isinstance(src[2], int):
            return None
        a, b = bare(t), bare(f.types[src[2]])
        if a == b or b not in self.anc(a):
            return None
        ka, kb = self.kind(a), self.kind(b)
        if ka == kb or ka is None or ka == "Schema":
            return None
        return src, a, b, ka, kb

    def ename(self, k):
        if k.startswith("OptCond") and k != "OptCond":
            return k[7:]
        for s in ("Field", "Layer"):
            if k.endswith(s) and k != s:
                return k[:-len(s)]
        return k

    def check(self, f, n, e, st):
        r = self.target(f, e)
        if not r:
            return
        src, a, b, ka, kb = r
        t = self.norm(self.term(f, src))
        if self.structural(f, src, ka):
            self.nstruct += 1
            return
        self.judge(f, e[1], t, ka, kb, st, (f.id, e[1], a))

    def structural(self, f, src, ka):
        x = core.strip(src)
        while x and (x[0] == "un" and x[3] in ("*", "&") or x[0] == "op" and x[3] in ("->", "*")):
            x = core.strip(x[4] if x[0] == "un" else x[5][0])
        if x and x[0] == "v":
            d = self.defs(f)
            i = d["init"].get(x[3])
            if i and i[0] and x[3] not in d["bad"]:
                return self.structural(i[2], i[0], ka)
        if x and x[0] == "call" and ka == "IntField" and re.match(r"parseGet\w*PrefixField$", nm(self.db, x)):
            return True     # verified when the prefix is registered
        if not x or x[0] != "call" or nm(self.db, x) not in ("genGetParent", "parseGetParent"):
            return False
        o = core.strip(x[5]) if len(x) > 5 and isinstance(x[5], list) else None
        c = None
        if o is None or o[0] == "this":
            r = core.root_fn(self.db, f)
            c = r.cls
        elif isinstance(o[2], int):
            c = bare(f.types[o[2]])
        k = self.kind(c) if c else None
        return ka == "Namespace" and k in ("Frame", "Message", "Interface") or ka == "Frame" and bool(k) and k.endswith("Layer")

    def judge(self, f, ln, t, ka, kb, st, key):
        want = self.ename(ka)
        r = core.root_fn(self.db, f)
        own = self.kind(r.cls) if r.cls else None
        ok = t in (("this",), ("m", "m_pImpl", ("this",))) and own == ka or \
            own == ka and any(x[0] == "same" and t in x[1:] and ("this",) in x[1:] for x in st) or \
            any(x[0] == "null" and x[1] == t for x in st) or any(x[0] == "kind" and x[1] == t and x[2] == want for x in st)
        s = self.sites.setdefault(key, {"ok": True, "f": f, "ln": ln, "t": t, "ka": ka, "kb": kb})
        if not ok:
            own = {("v", p[0]) for p in f.p or ()}
            if f.parent and f.parent in self.db.fns and not any(x in own for x in paths.subterms(t)):
                self.needs.setdefault(f.id, set()).add((t, ka, kb))
            elif t and t[0] == "p" and self.callers(f):
                self.needs.setdefault(f.id, set()).add((t, ka, kb))
            else:
                s["ok"] = False

    def callers(self, f):
        if not hasattr(self, "_callers"):
            self._callers = {}
            for g in self.db.fns.values():
                if not g.b or not g.f.startswith(("lib/", "app/")):
                    continue
                for x in core.fn_exprs(g):
                    if x[0] == "call":
                        for t in self.S.targets(g, x) or ():
                            self._callers.setdefault(t, []).append(g)
        return self._callers.get(f.id)

    def oblig(self, f, e, st):
        if e[0] == "call" and core.callee(e) is None:
            return          # a table of functions indexed by the kind
        for t in self.S.targets(f, e) or ():
            for (p, ka, kb) in list(self.needs.get(t, ())):
                if t == f.id:
                    continue
                if self.db.fns[t].parent in self.db.fns:
                    continue
                m = self.tmap(f, e)
                x = self.norm(m.get(p))
                if any(y[0] == "same" and (y[1:] == (x, ("this",)) or y[1:] == (("this",), x)) for y in st):
                    continue
                self.judge(f, e[1], x, ka, kb, st, (f.id, e[1], "->" + self.db.fns[t].q, ka))


def run(db, rep, thorough):
    K = Kinds(db)
    K.record = True
    todo = [f for f in db.fns.values() if f.b and f.f.startswith(("lib/", "app/")) and
            any(e[0] in ("cast", "ctor") and K.target(f, e) for e in core.fn_exprs(f))]
    nf = len(todo)
    done = {}
    for r in range(6):
        nx = []
        for f in todo:
            before = len(K.needs.get(f.id, ()))
            for n, st, _ in K.explore(f):
                pass
            if len(K.needs.get(f.id, ())) > before:
                nx += K.callers(f) or []
                if f.parent in db.fns:
                    nx.append(db.fns[f.parent])
        todo = []
        for c in nx:
            if c not in todo and done.get(c.id, 0) < 4:
                todo.append(c)
                done[c.id] = done.get(c.id, 0) + 1
        nf += len(todo)
        if not todo:
            break
    for s in sorted(K.sites.values(), key=lambda s: (s["f"].f, s["ln"])):
        f = s["f"]
        where = "%s:%d" % (f.f, s["ln"])
        if s["ok"]:
            rep.sample("established", "%s %s: %s as %s" % (where, f.n, s["kb"], s["ka"]))
        else:
            rep.violation("kind:%s:%s" % (core.root_fn(db, f).q.split("::", 2)[-1], s["ka"]), where, "kind",
                          "an element of the general class %s is treated as %s although its kind is not established on every path" % (s["kb"], s["ka"]), [f.q])
    rep.set("functions with conversions", nf, 60)
    rep.set("conversions judged", len(K.sites), 100)
    rep.set("conversions of a parent known by construction", K.nstruct, 10)
