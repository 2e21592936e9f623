"""C26: free text of the schema does not end the string literals it is written to."""
import re
from sa import core
from sa.facts import AnalysisBroken
from sa.rules import c14, c22
from sa.rules.c15 import ty

RULE = ("no free text of the schema (display name, description, value of a string) reaches a place between quotes in a template, or follows an opening quote in a concatenation, "
        "of any generator without having passed a function that escapes quotes, backslashes and line ends; that function handles all of these")
EXPLAIN = ("Taint analysis over the shared generation library and all generators. Sources are the free texts handed out by the parse API. Labels are propagated flow-sensitively through locals, and through members, containers, parameters, "
           "returned values, lambdas and string operations to a fix-point; the values of a replacement map carry their key. Sinks: the placeholders which the (statically resolved) template has inside an open quote on a line that is no comment, "
           "and the operands of a concatenation or of an output operator that follow a piece of text ending inside an open quote. Escaping functions are recognised by what they do: they take and return a text and handle the quote and the backslash by putting a backslash; "
           "such a function has to handle line ends as well.")
ASSUME = ["names, references and platforms are identifiers (C31) and need no escaping",
          "quotes inside comments, documentation and diagnostics end nothing",
          "code-injection snippets are code of the target language and are not escaped"]
APP = ("lib/src/gen", "app/commsdsl2c/", "app/commsdsl2comms/", "app/commsdsl2emscripten/", "app/commsdsl2swig/", "app/commsdsl2test/", "app/commsdsl2tools_qt/")  # the LaTeX document: C22
FREE = {"parseDisplayName", "m_displayName", "parseDescription", "m_description", "parseDefaultValue", "m_value", "parseLeft", "parseRight"}
SLOT = re.compile(r"#\^#(\w+)#\$#")
LOG = re.compile(r"^(gen|parse)?(Log)?(Error|Warning|Info|Debug|log\w*)$|^gen(Error|Warning|Info|Debug)$")
COMMENT = re.compile(r"^\s*(//|\*|/\*|# |#$|%)")


def quoted(text):
    """placeholders inside an open quote, comments left out"""
    out = set()
    for line in text.split("\n"):
        if COMMENT.match(line):
            continue
        q, i, esc = None, 0, False
        while i < len(line):
            m = SLOT.match(line, i)
            if m:
                if q:
                    out.add(m.group(1))
                i = m.end()
                continue
            c = line[i]
            if q and c == "\\":
                i += 2
                continue
            if c == q:
                q = None
            elif not q and c == '"':
                q = c
            elif not q and line.startswith("//", i):
                break
            i += 1
    return out


class Scan:
    """state of a text being put together"""

    def __init__(self):
        self.q, self.line, self.opened = False, "", ""

    def feed(self, s):
        i = 0
        while i < len(s):
            c = s[i]
            if c == "\n":
                self.q, self.line = False, ""
            elif self.q and c == "\\":
                i += 2
                continue
            elif c == '"':
                if not self.q:
                    self.opened = self.line
                self.q = not self.q
                self.line += c
            else:
                self.line += c
            i += 1

    def code(self):
        """the open quote starts a literal of code, not a quotation in prose"""
        o = self.opened
        if re.search(r"//|@|<b>|^\s*(\*|#|%)", o):
            return False
        o = o.rstrip()
        if not o or o[-1] in "(,{=+:[?<>!&|;":
            return True
        return bool(re.search(r"\b(return|case|include)$", o))


class Lit(c22.Taint):
    APP = APP
    CLEAN = re.compile(r"^(genScope\w*|genRelPath\w*|genCommonScope\w*|gen\w*CodeInject\w*|genReadFileContents|genPathUp|genGetOutputDir|genGetCodeDir|genNumToString|to_string|genHeader\w*|genBoolToString|genStrToName|genStrToMacroName|size|length|empty|find\w*|compare|begin|end|cbegin|cend|fileName|what)$")

    def __init__(self, db, rep):
        self.ESC = tuple(sorted({f.n for f in escapers(db)}))
        self.tm = c14.Tm(db)
        self.tcache, self.slots = {}, {}
        self.calls = 0
        c22.Taint.__init__(self, db, rep)

    def is_source(self, n, q):
        return n in FREE and q.startswith("commsdsl::parse::")

    # keys of replacement maps
    def key(self, f, e):
        k = self.tm.T.ev(f, e)
        return k[1] if k and k[0] == "s" else None

    def tag(self, k, v):
        return frozenset(l if l[0] == "key" else ("key", k, l) for l in v)

    def untag(self, v, k=None):
        return frozenset(l[2] if l[0] == "key" else l for l in v if l[0] != "key" or k is None or l[1] == k)

    def ev1(self, f, e, k, env, t):
        if k == "mem" and e[3].split("::")[-1] == "first":
            return frozenset()
        if k in ("ctor", "init"):
            rs = self.tm.rows(f, e) if "map" in t else None
            if rs:
                r = frozenset()
                for x in rs:
                    kk = self.tm.rowkey(f, x)
                    v = self.pair(f, x, env)
                    r |= self.tag(kk[1], v) if kk and kk[0] == "s" else v
                return r
        if k == "op" and e[3] == "[]" and e[5] and len(e[5]) == 2 and "map" in (ty(f, core.strip(e[5][0])) or ""):
            return self.untag(self.ev(f, e[5][0], env), self.key(f, e[5][1]))
        if k == "call" and self.nm(e) == "at" and isinstance(e[5], list) and "map" in (ty(f, core.strip(e[5])) or ""):
            return self.untag(self.ev(f, e[5], env), self.key(f, e[4][0]))
        if k == "call" and self.nm(e) == "genProcessTemplate":
            return frozenset()
        if k == "call" and self.nm(e) == "make_pair" or k in ("ctor", "init") and t.replace("const ", "").startswith("std::pair<"):
            return self.pair(f, e, env)
        return c22.Taint.ev1(self, f, e, k, env, t)

    def pair(self, f, x, env):
        """the value of an element initialiser"""
        u = c14.unwrap(x)
        a = (u[3] if u[0] == "init" else [y for y in u[4] if y and y[0] != "dflt"]) if u and u[0] in ("init", "ctor", "call") else []
        if len(a) == 2:
            return self.ev(f, a[1], env)
        r = frozenset()
        for y in a:
            r |= self.ev(f, y, env)
        return r

    def mapkey(self, f, e):
        """key of an element of a replacement map that is assigned to"""
        e = core.strip(e)
        if e and e[0] == "op" and e[3] == "[]" and e[5] and len(e[5]) == 2 and "map" in (ty(f, core.strip(e[5][0])) or ""):
            return self.key(f, e[5][1])
        return None

    def effects(self, f, e, env):
        skip = set()
        for x in core.walk(e):
            if id(x) in skip or x[0] == "call" and LOG.match(self.nm(x) or "-"):
                for y in core.kids(x):
                    if isinstance(y, list):
                        skip.update(id(z) for z in core.walk(y))
        nested = set()
        for x in core.walk(e):
            if x[0] in ("op", "bin") and x[3] in ("+", "<<"):
                for a in (x[5] if x[0] == "op" else x[4:6]):
                    y = core.strip(a) if a else None
                    if y:
                        nested.add(id(y))
        for x in core.walk(e):
            if x[0] == "op" and x[3] in ("+", "<<") and id(x) not in nested and id(x) not in skip:
                self.chain(f, x, env)
        for x in reversed(list(core.walk(e))):
            if x[0] == "lam":
                continue
            if x[0] in ("op", "bin") and x[3] in ("=", "+="):
                ops = x[5] if x[0] == "op" else x[4:6]
                k = self.mapkey(f, ops[0])
                if k is not None:
                    v = self.tag(k, self.ev(f, ops[1], env))
                    r = self.root(ops[0])
                    if r and r[0] == "v" and x[3] == "=":
                        o = env.get(r[1], frozenset())
                        env = dict(env)
                        env[r[1]] = frozenset(l for l in o if l[0] != "key" or l[1] != k)
                    env = self.put(f, env, r, v, False)
                    continue
            if x[0] == "call" and isinstance(x[5], list) and self.nm(x) in c22.GROW and "map" in (ty(f, core.strip(x[5])) or ""):
                a = [y for y in x[4] if y and y[0] != "dflt"]
                if len(a) == 2 and self.key(f, a[0]) is not None:
                    v = self.tag(self.key(f, a[0]), self.ev(f, a[1], env))
                elif len(a) == 1:
                    kk = self.tm.rowkey(f, a[0])
                    v = self.tag(kk[1], self.pair(f, a[0], env)) if kk and kk[0] == "s" else self.ev(f, a[0], env)
                else:
                    v = frozenset(z for y in a for z in self.ev(f, y, env))
                env = self.put(f, env, self.root(x[5]), v, False)
                continue
            env = self.effect(f, x, env)
        return env

    def effect(self, f, x, env):
        if x[0] == "op" and x[3] == "=" and len(x[5]) == 2:
            l = core.strip(x[5][0])
            return self.put(f, env, self.root(x[5][0]), self.ev(f, x[5][1], env), bool(l) and l[0] == "v")
        if x[0] == "bin" and x[3] == "=":
            l = core.strip(x[4])
            return self.put(f, env, self.root(x[4]), self.ev(f, x[5], env), bool(l) and l[0] == "v")
        if x[0] == "op" and x[3] in ("+=", "<<") and len(x[5]) == 2:
            return self.put(f, env, self.root(x[5][0]), self.ev(f, x[5][1], env), False)
        if x[0] == "call" and isinstance(x[5], list) and self.nm(x) in c22.GROW:
            v = frozenset(z for a in x[4] if a for z in self.ev(f, a, env))
            return self.put(f, env, self.root(x[5]), v, False)
        if x[0] == "call" and self.nm(x) == "genProcessTemplate" and len(x[4]) >= 2:
            self.template(f, x, env)
            return env
        if x[0] == "call" or x[0] == "op" and x[3] == "()":
            self.ev(f, x, env)
            g = self.db.fns.get(core.callee(x)) if x[0] == "call" else None
            if g is not None and g.b:
                for p, a in zip(g.p, x[4]):
                    if p[2].endswith("&") and not p[2].startswith("const ") and c22.texty(p[2]):
                        env = self.put(f, env, self.root(a), self.subst(f, g, x[4], env, self.glob.get(self.vk(g, p[0]), frozenset())), False)
        return env

    def template(self, f, x, env):
        i = (f.id, x[1], repr(x[4][0])[:200])
        if i not in self.tcache:
            ts, ok = self.tm.templ(f, x[4][0])
            ks = set()
            for t in ts:
                ks |= quoted(t)
            self.tcache[i] = frozenset(ks)
            self.calls += 1
        ks = self.tcache[i]
        self.slots[i] = ks
        if not ks:
            return
        v = self.ev(f, x[4][1], env)
        self.hit(f, frozenset(l[2] for l in v if l[0] == "key" and l[1] in ks), (f.id, x[1], None))
        self.hit(f, frozenset(l for l in v if l[0] != "key"), (f.id, x[1], ks))

    def hit(self, f, v, at):
        for l in v:
            if l[0] == "raw":
                self.sinks.setdefault((l, at[0]), at[1])
            elif l[0] == "par" and (l[1] not in self.sinkpar):
                self.sinkpar[l[1]] = at
                self.changed = True

    def pass_down(self, f, g, args, env):
        for p, a in zip(g.p, args):
            pk = self.vk(g, p[0])
            if pk in self.kept and pk in self.params:
                self.join(self.parg, pk, self.real(self.ev(f, a, env)))
            if pk in self.sinkpar:
                at = self.sinkpar[pk]
                v = self.ev(f, a, env)
                if at[2] is not None:
                    v = frozenset(l[2] if l[0] == "key" else l for l in v if l[0] != "key" or l[1] in at[2])
                self.hit(f, self.untag(v), at)

    def real(self, v):
        r = set()
        for l in v:
            if l[0] == "key":
                r |= {("key", l[1], y) for y in c22.Taint.real(self, frozenset([l[2]]))}
            else:
                r |= c22.Taint.real(self, frozenset([l]))
        return frozenset(r)

    def subst(self, f, g, args, env, labels):
        r = set()
        for l in labels:
            if l[0] == "key":
                r |= {("key", l[1], y) for y in c22.Taint.subst(self, f, g, args, env, frozenset([l[2]])) if y[0] != "key"}
            else:
                r |= c22.Taint.subst(self, f, g, args, env, frozenset([l]))
        return frozenset(r)

    def chain(self, f, x, env):
        ops = []

        def flat(y):
            z = core.strip(y) if y else None
            if z and z[0] == "op" and z[3] == x[3] and len(z[5]) == 2:
                flat(z[5][0])
                flat(z[5][1])
            elif z:
                ops.append(z)
        flat(x)
        s = Scan()
        for o in ops:
            t = self.text(f, o)
            if t is not None:
                s.feed(t)
                continue
            if s.q and s.code():
                self.hit(f, self.untag(self.ev(f, o, env)), (f.id, o[1] if isinstance(o[1], int) else x[1], None))
            s.line += "x"

    def text(self, f, o):
        o = c14.unwrap(o)
        if not o:
            return None
        if o[0] == "chr":
            c = o[-1]
            return chr(c) if isinstance(c, int) else c
        if o[0] == "str":
            return o[-1] if isinstance(o[-1], str) else None
        v = self.tm.T.ev(f, o)
        return v[1] if v and v[0] == "s" else None


def escapers(db):
    """functions from text to text that handle the quote and the backslash by putting a backslash"""
    r = []
    for f in db.fns.values():
        if not f.b or f.parent or not f.f.startswith(APP) or "string" not in (f.ret or "") or not any("string" in p[2] for p in f.p):
            continue
        tests, all_ = handled(db, f)
        if {'"', "\\"} <= tests and emits(db, f):
            r.append(f)
    return r


def emits(db, f):
    """a backslash is put somewhere"""
    for g in core.family(db, f):
        for e in core.fn_exprs(g):
            a = []
            if e[0] == "call" and db.decls.get(e[3], {}).get("n") in ("push_back", "append", "insert", "genStrReplace", "replace"):
                a = e[4][-1:] if db.decls[e[3]]["n"] == "genStrReplace" else e[4]
            elif e[0] == "op" and e[3] in ("+=", "+", "<<"):
                a = e[5]
            elif e[0] == "call" and e[3] in db.fns and db.fns[e[3]].b and db.fns[e[3]].f == f.f and db.fns[e[3]].id != f.id and "string" in (db.fns[e[3]].ret or ""):
                return True
            for x in a:
                for y in core.walk(x) if isinstance(x, list) else ():
                    if y[0] in ("chr", "str") and c22.chars(y) and "\\" in c22.chars(y):
                        return True
    return False


def handled(db, f):
    tests, all_ = set(), set()
    fam, st = [], [f]
    while st:
        g = st.pop()
        if g.id in [x.id for x in fam] or len(fam) > 20:
            continue
        fam.append(g)
        st += [h for h in core.family(db, g) if h.id != g.id]
        for e in core.fn_exprs(g):
            if e[0] == "call" and e[3] in db.fns and db.fns[e[3]].b and db.fns[e[3]].f == f.f:
                st.append(db.fns[e[3]])
    for g in fam:
        for s in core.stmts(g.b):
            if s[0] == "case":
                for x in s[2:]:
                    if isinstance(x, list) and x and isinstance(x[0], str):
                        for y in core.walk(x):
                            if y[0] == "chr":
                                tests |= c22.chars(y)
                            elif y[0] == "int" and str(y[-1]).isdigit() and int(y[-1]) < 128:
                                tests.add(chr(int(y[-1])))
        for e in core.fn_exprs(g):
            ops = e[4:6] if e[0] == "bin" else e[5] if e[0] == "op" else []
            if e[0] in ("bin", "op") and e[3] == "==":
                for y in ops:
                    for z in core.walk(y) if isinstance(y, list) else ():
                        tests |= c22.chars(z) if z[0] == "chr" else set()
            if e[0] in ("bin", "op") and e[3] in ("<", "<=", ">", ">="):
                for y in ops:
                    z = core.strip(y) if isinstance(y, list) else None
                    v = None
                    if z and z[0] == "int" and str(z[-1]).isdigit():
                        v = int(z[-1])
                    elif z and z[0] == "chr":
                        v = ord(list(c22.chars(z))[0])
                    if v is not None and 14 <= v <= 32:
                        tests |= {"\n", "\r"}
            if e[0] == "call":
                n = db.decls.get(e[3], {}).get("n")
                if n in ("find", "find_first_of", "strchr", "count", "contains", "genStrReplace", "iscntrl", "isprint"):
                    if n in ("iscntrl", "isprint"):
                        tests |= {"\n", "\r"}
                    for a in list(e[4]) + ([e[5]] if isinstance(e[5], list) else []):
                        for z in core.walk(a) if a else ():
                            if z[0] in ("str", "chr"):
                                tests |= c22.chars(z)
                            if z[0] == "gv":
                                gi = (db.globals.get(z[3]) or {}).get("init")
                                for w in core.walk(gi) if gi else ():
                                    if w[0] in ("str", "chr"):
                                        tests |= c22.chars(w)
    return tests, all_


def run(db, rep, thorough):
    es = escapers(db)
    for f in es:
        t, _ = handled(db, f)
        if "\n" not in t:
            rep.violation("line end %s" % f.q, "%s:%d" % (f.f, f.l), "escaping", "%s escapes quotes and backslashes but leaves line ends as they are" % f.q, ["%s:%d" % (f.f, f.l)])
    T = Lit(db, rep)
    rounds = T.solve()
    done = set()
    for (l, fid), ln in sorted(T.sinks.items(), key=repr):
        f = db.fns[fid]
        q = core.root_fn(db, f).q
        k = (q, l[3])
        if k in done:
            continue
        done.add(k)
        rep.violation("raw %s in %s" % (l[3], q), "%s:%d" % (f.f, ln), "taint", "%s (%s:%d) is put between quotes unescaped in %s" % (l[3], l[1].split("/")[-1], l[2], q), ["%s:%d" % (l[1], l[2]), "%s:%d" % (f.f, ln)])
    for (fid, ln), f in sorted(T.double.items()):
        rep.violation("twice %s" % f.q, "%s:%d" % (f.f, ln), "taint", "%s escapes a text that has been escaped already" % f.q, ["%s:%d" % (f.f, ln)])
    rep.set("functions", len(T.fns), 1000)
    rep.set("sources", len(T.sources), 20)
    rep.set("escaped_texts", len(T.escaped), 3)
    rep.set("template_expansions", T.calls, 300)
    rep.set("quoted_placeholders", sum(len(v) for v in T.slots.values()), 50)
    rep.set("rounds", rounds)
