"""C11: version attributes are validated for every versioned element."""
import re
from sa import core, mini, status
from sa.facts import AnalysisBroken
from sa.rules.c15 import ty, bare

RULE = ("an item with its own version attributes is stored only after they were read into it, compared with the enclosing element's versions and the schema version, and accepted; what was compared is what is stored")
EXPLAIN = ("(1) All paths of the function that reads 'sinceVersion' and 'deprecated' (helpers entered) are propagated symbolically; on every path that reports success the order facts collected from the branches must imply "
           "enclosing since <= since < enclosing deprecated, since < deprecated <= enclosing deprecated, since <= schema version, and deprecated <= schema version unless it is 'never', where an attribute that is present was converted successfully and is the value kept. "
           "(2) Every local item record with version members is followed through its function (helpers entered): when it is put into a member container its versions must be the enclosing element's own, and, when the item has an XML node of its own, "
           "must have passed (1) successfully and not been changed since. (3) The same for the fields and messages themselves: initial bounds from the parent, validated, stored unchanged; every successful parse() of a field or message passes through it. "
           "(4) Every other write of a version member in the parser is one of the adjustment forms: raising a member to its container's version, resetting where versions do not apply, invalidating a merged range.")
ASSUME = ["an item record is a local struct with members m_sinceVersion and m_deprecatedSince",
          "parseNotYetDeprecated() is the largest value"]

SINCE, DEP = "m_sinceVersion", "m_deprecatedSince"
CHECK = "parseGetAndCheckVersions"


def closure(facts):
    """set of (a, strict, b) implied by the order facts"""
    rel = {}
    for op, a, b in facts:
        if op in ("<", "<="):
            rel[(a, b)] = max(rel.get((a, b), 0), 2 if op == "<" else 1)
        elif op == "==" and b is not None:
            rel[(a, b)] = max(rel.get((a, b), 0), 1)
            rel[(b, a)] = max(rel.get((b, a), 0), 1)
    ks = {x for p in rel for x in p}
    for k in ks:
        for i in ks:
            for j in ks:
                if (i, k) in rel and (k, j) in rel:
                    w = max(rel[(i, k)], rel[(k, j)])
                    if rel.get((i, j), 0) < w:
                        rel[(i, j)] = w
    return rel


def implied(rel, a, op, b):
    if a == b and op == "<=":
        return True
    if a == ("k", "0") and op == "<=":
        return True
    return rel.get((a, b), 0) >= (2 if op == "<" else 1)


class Check(mini.Mini):
    """the reader of the version attributes"""

    def __init__(self, db):
        super().__init__(db)

    def relevant(self, g):
        return g.f.startswith("lib/src/parse") and g.n != "parseStrToUnsigned" and not g.n.startswith(("parseLog", "parseReport")) and any("unsigned" in p[2] for p in g.p)

    def keep(self, a):
        return True

    def call(self, f, e, st, ctx):
        n = self.nm(e)
        q = self.db.decls.get(core.callee(e), {}).get("q", "")
        if e[0] == "call" and re.match(r"parseStrTo\w+$", n) and e[4]:
            src = self.sym(e[4][0], st, ctx)
            ok = None
            for a in e[4][1:]:
                s = self.strip(a)
                if s and s[0] == "un" and s[3] == "&":
                    ok = self.lv(s[4], ctx, st)
                elif a and a[0] != "dflt":
                    ok = self.lv(a, ctx, st)
            val = ("parsed", src, n)
            if ok:
                st = self.assign(st, ok, ("ok", val))
            return [(val, st)]
        return None


def key_of(s):
    """names of the properties a value was looked up by"""
    r = set()
    if isinstance(s, tuple):
        if s and s[0] == "call" and isinstance(s[1], str) and re.search(r"parse\w+Str$", s[1]):
            r.add(s[1].split("::")[-1])
        for x in s:
            r |= key_of(x)
    return r


def check_reader(db, rep):
    fs = [f for f in db.fns.values() if f.n == CHECK and f.b]
    main = [f for f in fs if sum(1 for p in f.p if p[2] == "unsigned int &") == 2 and any("map" in p[2] for p in f.p)]
    if len(main) != 1:
        raise AnalysisBroken("the reader of version attributes was not found")
    f = main[0]
    refs = [p for p in f.p if p[2] == "unsigned int &"]
    ls, ld = ("v", refs[0][0]), ("v", refs[1][0])
    M = Check(db)
    st, ctx = M.start(f)
    outs = M.run(f, st, ctx)
    npaths = nacc = 0
    where = "%s:%d" % (f.f, f.l)

    def bad(key, text):
        rep.violation("reader " + key, where, "reader", text, [where])
    for s, r in outs:
        npaths += 1
        if r == ("k", "false"):
            continue
        facts = set(s[1])
        if r != ("k", "true"):
            a = ("true", r, None)
            facts.add(a)
            bad("result", "%s may succeed without the comparisons having been made (result %s)" % (f.q, str(r)[:80]))
            continue
        nacc += 1
        d = dict(s[0])
        s0, d0 = ("val", ls), ("val", ld)
        S, D = d.get(ls, s0), d.get(ld, d0)
        ver = {x for op, a, b in facts for x in (a, b) if isinstance(x, tuple) and x[:1] == ("call",) and x[1].endswith("parseVersion")}
        nyd = {x for op, a, b in facts for x in (a, b) if isinstance(x, tuple) and x[:1] == ("call",) and x[1].endswith("parseNotYetDeprecated")}
        for X, X0, name in ((S, s0, "parseSinceVersionStr"), (D, d0, "parseDeprecatedStr")):
            if X == X0:
                # only when the attribute is absent
                if not any(op == "==" and name in key_of((a, b)) for op, a, b in facts):
                    bad("ignored " + name, "%s succeeds with the enclosing element's value although the attribute (%s) may be present" % (f.q, name))
            elif X[0] == "parsed":
                if key_of(X) != {name}:
                    bad("source " + name, "%s takes the value of %s from %s" % (f.q, name, sorted(key_of(X))))
                if ("true", ("ok", X), None) not in facts:
                    bad("conversion " + name, "%s succeeds although the text of %s may not be a number" % (f.q, name))
            else:
                bad("value " + name, "%s leaves something else than the attribute's value behind for %s" % (f.q, name))
        rel = closure(facts)
        V = next(iter(ver), None)
        N = next(iter(nyd), None)
        req = [("the enclosing element's since <= since", s0, "<=", S), ("since < the enclosing element's deprecated", S, "<", d0),
               ("deprecated <= the enclosing element's deprecated", D, "<=", d0), ("since < deprecated", S, "<", D)]
        if V is None:
            bad("schema", "%s succeeds without looking at the schema version" % f.q)
        else:
            req.append(("since <= schema version", S, "<=", V))
        for text, a, op, b in req:
            # the enclosing element has been validated itself
            if (a, op, b) == (s0, "<", d0):
                continue
            if not implied(rel, a, op, b):
                bad(text, "%s may succeed without '%s' having been established" % (f.q, text))
        if V is not None and not (implied(rel, D, "<=", V) or N is not None and implied(rel, N, "<=", D)):
            bad("deprecated/schema", "%s may succeed with a 'deprecated' beyond the schema version" % f.q)
    # the overload reading a node of its own
    for g in fs:
        if g is f or g.dep:
            continue
        M = Delegate(db, f)
        st, ctx = M.start(g)
        rr = [p for p in g.p if p[2] == "unsigned int &"]
        for s, r in M.run(g, st, ctx):
            if r == ("k", "false"):
                continue
            want = ("checked", ("v", rr[0][0]), ("v", rr[1][0]))
            if not (r == ("k", "true") and ("true", want, None) in s[1] or r == want):
                rep.violation("reader overload", "%s:%d" % (g.f, g.l), "reader", "%s may succeed without the attributes having been checked" % g.q, [])
        names = {db.decls.get(core.callee(e), {}).get("n") for e in core.all_exprs(db, g) if e[0] == "call"}
        for x in core.all_exprs(db, g):
            if x[0] == "gv":
                gi = (db.globals.get(x[3]) or {}).get("init")
                if gi:
                    names |= {db.decls.get(core.callee(e), {}).get("n") for e in core.walk(gi) if e[0] == "call"}
        for w in ("parseSinceVersionStr", "parseDeprecatedStr", "parseNodeProps", "parseChildrenAsProps"):
            if w not in names:
                rep.violation("reader overload " + w, "%s:%d" % (g.f, g.l), "reader", "%s does not look at %s" % (g.q, w), [])
    return npaths, nacc, [g.id for g in fs]


class Delegate(mini.Mini):
    def __init__(self, db, target):
        super().__init__(db)
        self.target = target

    def call(self, f, e, st, ctx):
        if e[0] == "call" and e[3] == self.target.id:
            r = [self.lv(a, ctx, st) for a, p in zip(e[4], self.target.p) if p[2] == "unsigned int &"]
            return [(("checked", r[0], r[1]), st)]
        return None


class Items(mini.Mini):
    """item records followed to the containers"""

    def __init__(self, db, readers, rep, recs):
        super().__init__(db)
        self.readers, self.rep, self.recs = set(readers), rep, recs
        self.inserts = {}
        self.hit = set()
        self.users = None

    def assign(self, st, l, s):
        """only what concerns records, versions and flags is remembered"""
        d = dict(st[0])
        b = self.base(l)
        if l in d or b in d or isinstance(s, tuple) and s[:1] in (("rec",), ("record",), ("chk",), ("unset",), ("checked",), ("ok",), ("parsed",)) or s in (("k", "true"), ("k", "false")) or "ersion" in repr(s) or "eprecated" in repr(s):
            return super().assign(st, l, s)
        if l[0] == "v" and self.unsigned(l[1]):
            return super().assign(st, l, s)
        return st

    def unsigned(self, vid):
        c = self.__dict__.setdefault("_u", None)
        if c is None:
            c = self._u = {}
        if vid not in c:
            c[vid] = False
            for f in self.fs:
                for s in core.stmts(f.b):
                    if s[0] == "decl":
                        for v in s[2]:
                            if v[0] == vid and isinstance(v[2], int) and f.types[v[2]] in ("unsigned int",):
                                c[vid] = True
        return c[vid]

    def start(self, f):
        self.fs = core.family(self.db, f)
        return super().start(f)

    def touches(self, g):
        """a helper that handles the records, or their versions"""
        c = self.__dict__.setdefault("_t", {})
        if g.id not in c:
            c[g.id] = any(isrec(self.recs, p[2]) or p[2] == "unsigned int &" for p in g.p) or isrec(self.recs, g.ret)
        return c[g.id]

    def relevant(self, g):
        return g.f.startswith("lib/src/parse") and g.id not in self.readers and self.touches(g)

    def keep(self, a):
        return a[1] is not None and isinstance(a[1], tuple) and a[1][:1] == ("checked",) or "parseObjKind" in repr(a) or "parseGetParent" in repr(a)

    def call(self, f, e, st, ctx):
        if e[0] == "call" and e[3] in self.readers:
            g = self.db.fns[e[3]]
            r = [self.lv(a, ctx, st) for a, p in zip(e[4], g.p) if p[2] == "unsigned int &"]
            node = self.sym(e[4][0], st, ctx)
            old = [self.symlv(x, st, ctx) if x else None for x in r]
            tok = ("checked", e[1], f.id)
            self.hit.add((f.id, e[1]))
            if r[0] is None or r[1] is None:
                return None
            ok = st
            for l, o, nme in zip(r, old, ("since", "dep")):
                ok = self.assign(ok, l, ("chk", nme, o, tok))
            return [(tok, ok)]
        return None

    def declare(self, f, n, l, t, st, ctx):
        if isrec(self.recs, t) and (not n.e or n.e[0] in ("ctor", "init") and not [a for a in (n.e[4] if n.e[0] == "ctor" else n.e[3]) if a]):
            st = self.assign(st, l, ("rec", n.ln))
            st = self.assign(st, ("m", l, SINCE), ("unset",))
            return self.assign(st, ("m", l, DEP), ("unset",))
        if isrec(self.recs, t) and n.e:
            x = self.strip(n.e)
            # a record returned by a helper
            if x and x[0] == "call" and x[3] in self.db.fns:
                g = self.db.fns[x[3]]
                # members of what the helper returned
                sy = self.sym(x, st, ctx)
                st = self.assign(st, l, ("rec", n.ln))
                if isinstance(sy, tuple) and sy[:1] == ("record",):
                    st = self.assign(st, ("m", l, SINCE), sy[1])
                    return self.assign(st, ("m", l, DEP), sy[2])
                return st
            src = self.lv(n.e, ctx, st)
            if src:
                d = dict(st[0])
                st = self.assign(st, l, ("rec", n.ln))
                for m in (SINCE, DEP):
                    v = d.get(("m", src, m), ("val", ("m", src, m)))
                    st = self.assign(st, ("m", l, m), v)
                return st
        return super().declare(f, n, l, t, st, ctx)

    def sym(self, e, st, ctx, depth=0):
        x = self.strip(e)
        if x and x[0] == "v":
            l = self.lv(x, ctx, st)
            d = dict(st[0])
            if d.get(l, ("",))[0] == "rec" and ("m", l, SINCE) in d:
                return ("record", d[("m", l, SINCE)], d[("m", l, DEP)])
        return super().sym(e, st, ctx, depth)

    def at(self, f, n, st, ctx):
        if not n.e:
            return
        for e in core.walk(n.e):
            if e[0] == "call" and len(e) > 5 and isinstance(e[5], list) and self.nm(e) in ("push_back", "emplace_back", "insert", "emplace", "insert_or_assign", "try_emplace", "push_front", "emplace_front"):
                if not member(e[5]):
                    continue
                for a in e[4]:
                    for y in core.walk(a):
                        if y[0] == "v":
                            l = self.lv(y, ctx, st)
                            d = dict(st[0])
                            if d.get(l, ("",))[0] == "rec" or l and ("m", l, SINCE) in d:
                                self.inserts.setdefault((f.id, e[1]), set()).add((f, ctx.stack, d.get(("m", l, SINCE)), d.get(("m", l, DEP)), st[1]))


def member(e):
    """a container member of the object (m_state.m_x, m_x)"""
    e = core.strip(e)
    return bool(e) and e[0] == "mem"


def isrec(recs, t):
    return re.sub(r"^const |[ &*]+$", "", t or "") in recs


def verdict(s, d, own, facts):
    """None when fine, otherwise a text"""
    def plain(x, name):
        return isinstance(x, tuple) and x[0] == "call" and x[1].split("::")[-1] == name and x[2] == ("val", ("this",))
    def base(x, name, which):
        if plain(x, name):
            return "inherit"
        if isinstance(x, tuple) and x[0] == "chk" and x[1] == which and plain(x[2], name):
            return x[3]
        return None
    bs, bd = base(s, "parseGetSinceVersion", "since"), base(d, "parseGetDeprecated", "dep")
    if bs is None:
        return "its since-version is not the validated one"
    if bd is None:
        return "its deprecated-version is not the validated one"
    if own:
        for b, w in ((bs, "since"), (bd, "deprecated")):
            if b == "inherit":
                return "its own '%s' attribute has not been read and checked" % w
        if bs != bd or ("true", bs, None) not in facts:
            return "the check of its version attributes may have failed"
    else:
        for b in (bs, bd):
            if b != "inherit" and ("true", b, None) not in facts:
                return "the check of its version attributes may have failed"
    return None


def own_node(db, f):
    """the item has an XML node of its own: a node parameter or a loop over nodes in the function"""
    for g in core.family(db, core.root_fn(db, f)):
        for p in g.p:
            if "_xmlNode" in p[2]:
                return True
        for s in core.stmts(g.b):
            if s[0] == "rfor" and s[2]:
                x = s[3]
                if "_xmlNode" in ty(g, core.strip(x)):
                    return True
            if s[0] == "decl":
                for v in s[2]:
                    t = g.types[v[2]] if isinstance(v[2], int) else ""
                    if re.match(r"^(const )?_xmlNode \*", t) and v[3]:
                        return True
    return False


def kind_facts(facts):
    """('ns'|'field'|'message', bool) known about the parent, and whether it is null"""
    r = set()
    for op, a, b in facts:
        t = repr((a, b))
        if "parseObjKind" in t:
            for k in ("Namespace", "Field", "Message"):
                if re.search(r"::%s'" % k, t):
                    r.add((k, op == "=="))
        elif "parseGetParent" in t and "null" in t:
            r.add(("null", op == "=="))
        elif "parseGetParent" in t and b is None:
            r.add(("null", op == "false"))
    return r


def check_self(db, rep, readers):
    """versions of fields and messages themselves"""
    done = []
    for f in db.fns.values():
        if not f.b or not f.f.startswith("lib/src/parse") or f.parent or f.dep:
            continue
        if not any(e[0] == "call" and db.decls.get(e[3], {}).get("n") in ("parseSetSinceVersion", "parseSetDeprecated") for e in core.all_exprs(db, f)):
            continue
        M = SelfVersions(db, readers, rep, {})
        st, ctx = M.start(f)
        M.run(f, st, ctx)
        for (ln, which), vals in sorted(M.sets.items()):
            for sy, facts, obj in sorted(vals, key=repr):
                kf = kind_facts(facts)
                t = judge(sy, which, kf, facts, obj, f)
                if t:
                    rep.violation("self %s %s" % (f.q, which), "%s:%d" % (f.f, ln), "record", "%s: %s" % (f.q, t), ["%s:%d" % (f.f, ln)])
        if M.hit:
            done.append((f, M))
    return done


class SelfVersions(Items):
    def __init__(self, *a):
        super().__init__(*a)
        self.sets = {}

    def assign(self, st, l, s):
        return mini.Mini.assign(self, st, l, s)

    def relevant(self, g):
        return g.f.startswith("lib/src/parse") and g.id not in self.readers and any(p[2] in ("unsigned int &", "bool &") for p in g.p)

    def keep(self, a):
        return super().keep(a) or isinstance(a[1], tuple) and a[1][:1] in (("ok",), ("parsed",))

    def call(self, f, e, st, ctx):
        if e[0] == "call" and re.match(r"parseStrTo\w+$", self.nm(e)):
            return Check.call(self, f, e, st, ctx)
        return super().call(f, e, st, ctx)

    def at(self, f, n, st, ctx):
        if not n.e:
            return
        for e in core.walk(n.e):
            if e[0] == "call" and self.nm(e) in ("parseSetSinceVersion", "parseSetDeprecated", "parseSetDeprecatedRemoved") and e[4]:
                w = "since" if "Since" in self.nm(e) else "removed" if "Removed" in self.nm(e) else "dep"
                self.sets.setdefault((e[1], w), set()).add((self.sym(e[4][0], st, ctx), st[1], self.lv(e[5], ctx, st) if isinstance(e[5], list) else None))


def judge(sy, which, kf, facts, obj, f):
    if which == "removed":
        if sy == ("k", "false") or sy[:1] == ("parsed",) and key_of(sy) == {"parseRemovedStr"} and ("true", ("ok", sy), None) in facts:
            return None
        return "the 'removed' mark is stored without its text having been converted successfully"
    get = "parseGetSinceVersion" if which == "since" else "parseGetDeprecated"

    def zero(x):
        return x == ("k", "0") if which == "since" else isinstance(x, tuple) and x[0] == "call" and x[1].endswith("parseNotYetDeprecated")

    def isget(x):
        return isinstance(x, tuple) and x[0] == "call" and x[1].split("::")[-1] == get
    if obj != ("this",):
        # a member is raised to its container's version
        if which == "since" and isinstance(sy, tuple) and sy[0] == "call" and sy[1].split("<")[0] == "std::max" and len(sy) == 5 and all(isget(x) for x in sy[3:]) and sy[3] != sy[4]:
            return None
        return "the version of another element is set to %s" % str(sy)[:80]
    if zero(sy):
        if ("Field", True) in kf or ("Message", True) in kf:
            return "the version is dropped for a member of a field or message"
        if not (("null", True) in kf or ("Field", False) in kf and ("Message", False) in kf):
            return "the version is dropped although it may apply here"
        return None
    if isinstance(sy, tuple) and sy[0] == "chk" and sy[1] == which:
        if ("true", sy[3], None) not in facts:
            return "the version is stored although its check may have failed"
        o = sy[2]
        if zero(o):
            if f.cls and "Message" in f.cls:
                return None
            if ("null", True) in kf or ("Namespace", True) in kf:
                return None
            return "the bounds of the check are not the enclosing element's although there is one"
        if isget(o) and "parseGetParent" in repr(o):
            return None
        return "the check is made against %s" % str(o)[:80]
    return "the stored value is not the one that was checked"


class Passes(mini.Mini):
    """does every successful path go through the target?"""

    def __init__(self, db, target):
        super().__init__(db)
        self.target, self.memo = target, {}

    def keep(self, a):
        return False

    def call(self, f, e, st, ctx):
        if e[0] == "call" and e[3] in self.db.fns and (e[3] == self.target or self.always(self.db.fns[e[3]], ctx.depth + 1)):
            return [(("k", "true"), (st[0], st[1] | {("passed", None, None)})), (("k", "false"), st)]
        return None

    def declare(self, f, n, l, t, st, ctx):
        if t == "bool" and n.e:
            return self.assign(st, l, self.sym(n.e, st, ctx))
        return st

    def assign(self, st, l, s):
        return super().assign(st, l, s) if s[:1] == ("k",) or l in dict(st[0]) else st

    def always(self, g, depth):
        if g.id in self.memo:
            return self.memo[g.id]
        self.memo[g.id] = False
        if depth > 3 or not g.b or g.ret != "bool" or not g.f.startswith("lib/src/parse"):
            return False
        st, ctx = self.start(g)
        ctx.depth = depth
        r = all(("passed", None, None) in s[1] for s, sy in self.run(g, st, ctx) if sy != ("k", "false"))
        self.memo[g.id] = r
        return r


def passes(db, rep, f, target, S):
    P = Passes(db, target)
    P.maxdepth = 0
    return P.always(f, 0)


def run(db, rep, thorough):
    npaths, nacc, readers = check_reader(db, rep)
    recs = {r["q"]: r for r in db.records.values() if r["f"].startswith("lib/") and {SINCE, DEP} <= {x["name"] for x in r["fields"]}}
    if len(recs) < 4:
        raise AnalysisBroken("item records with version members not found")
    ninsert = nown = nfn = 0
    for f in db.fns.values():
        if not f.b or not f.f.startswith("lib/src/parse") or f.parent or f.dep:
            continue
        loc = False
        for s in core.stmts(f.b):
            if s[0] == "decl":
                for v in s[2]:
                    t = f.types[v[2]] if isinstance(v[2], int) else ""
                    if isrec(recs, t) and not t.rstrip().endswith(("&", "*")):
                        loc = True
        if not loc or isrec(recs, f.ret):
            continue
        nfn += 1
        M = Items(db, readers, rep, recs)
        st, ctx = M.start(f)
        M.run(f, st, ctx)
        own = own_node(db, f)
        for (fid, ln), xs in sorted(M.inserts.items()):
            ninsert += 1
            nown += own
            for g, stack, s, d, facts in xs:
                t = verdict(s, d, own, facts)
                if t:
                    rep.violation("item %s" % f.q, "%s:%d" % (g.f, ln), "item", "%s: an item is recorded although %s" % (f.q, t), ["%s:%d" % (g.f, ln)])
                    break
            rep.sample("items", "%s:%d" % (f.f, ln), 12)
    # ---- the elements themselves
    S = status.get(db)
    selfs = check_self(db, rep, readers)
    if len(selfs) < 2:
        rep.violation("self missing", "lib/src/parse", "record", "no function reads and stores the versions of fields and of messages", [])
    ncl = 0
    for f, M in selfs:
        cls = f.cls
        ps = [g for g in db.fns.values() if g.cls == cls and g.n == "parse" and not g.p and g.b]
        for p in ps:
            ncl += 1
            if not passes(db, rep, p, f.id, S):
                rep.violation("self skipped %s" % p.q, "%s:%d" % (p.f, p.l), "record", "%s may succeed without %s" % (p.q, f.q), [])
    # ---- other writes
    nw = 0
    for f in db.fns.values():
        if not f.b or not f.f.startswith("lib/src/parse") or f.dep:
            continue
        for e in core.fn_exprs(f):
            l = None
            if e[0] == "bin" and e[3].endswith("=") and e[3] not in ("==", "!=", "<=", ">="):
                l, r = core.strip(e[4]), e[5]
            elif e[0] == "un" and ("++" in e[3] or "--" in e[3]):
                l, r = core.strip(e[4]), None
            if not l or l[0] != "mem" or l[3].split("::")[-1] not in (SINCE, DEP):
                continue
            b = core.strip(l[4]) if l[4] else None
            if b and b[0] == "v" and not ty(f, b).endswith(("*",)) and "iterator" not in ty(f, b):
                continue  # item record: followed above
            nw += 1
            n = l[3].split("::")[-1]
            if l[3].startswith("commsdsl::parse::ParseObject::") or "ReusableState" in l[3]:
                if f.n not in ("parseSetSinceVersion", "parseSetDeprecated"):
                    rep.violation("write %s" % f.q, "%s:%d" % (f.f, e[1]), "write", "%s changes a recorded version" % f.q, [])
                continue
            x = core.strip(r) if r else None
            if n == DEP and x and x[0] == "int" and str(x[3]) == "0":
                continue
            rep.violation("write %s" % core.root_fn(db, f).q, "%s:%d" % (f.f, e[1]), "write", "%s changes the version of an item already recorded" % core.root_fn(db, f).q, [])
    # accessors
    def memb(n, write, flag=False):
        for f in db.fns.values():
            if f.cls == "commsdsl::parse::ParseObject" and f.b and (f.n == n or flag and not write and re.match(r"parse(Is|Get)DeprecatedRemoved$", f.n)):
                for e in core.fn_exprs(f):
                    if write and e[0] == "bin" and e[3] == "=":
                        return core.strip(e[4])[3]
                    if not write and e[0] == "mem" and e[3].split("::")[-1].startswith("m_") and "tate" not in e[3].split("::")[-1]:
                        return e[3]
        return None
    acc = [(memb("parseGet" + n, False), memb("parseSet" + n, True)) for n in ("SinceVersion", "Deprecated")] + [(memb("parseIsDeprecatedRemoved", False, True), memb("parseSetDeprecatedRemoved", True, True))]
    if any(a is None or a != b for a, b in acc) or len({a for a, _ in acc}) != 3:
        rep.violation("accessors", "lib/src/parse/ParseObject.h", "record", "the accessors of the recorded versions do not agree: %s" % acc, [])
    rep.set("paths of the reader", npaths, 15)
    rep.set("accepting paths", nacc, 4)
    rep.set("functions recording items", nfn, 15)
    rep.set("recording sites", ninsert, 16)
    rep.set("recording sites of items with their own node", nown, 8)
    rep.set("other version writes", nw, 1)
    rep.set("parse() functions of versioned elements", ncl, 2)
