"""C07: kind and value tables match their enumerations entry by entry."""
import collections, json, os, re
from sa import core, enumtab, facts, tables

RULE = ("every static table that maps schema text to a kind/enumerated value, or such a value to text, type, object or handler, must have for "
        "each key / enumeration member exactly the entry the CommsDSL specification gives it; creation functions must build an object "
        "of the kind they are named after and parseKindImpl must return the kind of its class")
EXPLAIN = ("All static arrays and maps of the library and the generators are evaluated to constants from the syntax tree (enum-indexed arrays "
           "are keyed by the enumeration's current member values) and compared with sa/data/tables.json, the reviewed table of the "
           "CommsDSL vocabulary. Reported: an entry that is swapped, changed, missing or duplicated, an enumeration member without "
           "entry, a genCreate<X>Impl building an object that is not a Gen<X>, a parse-side creator or parseKindImpl of another kind.")
ASSUME = ["tables rewritten into another form (e.g. switch statements) are not recognised and are listed as notes"]
DATA = os.path.join(facts.VERIF, "sa", "data", "tables.json")
OPAQUE = re.compile(r"^(\?|var|lambda|call|x|cond|op|idx|mem|m_\w*|null\?)$")


def opaque(c):
    return OPAQUE.match(c) is not None


def norm(q):
    return q.rsplit("::", 1)[-1]


def vals(rows):
    return collections.Counter(c for r in rows for c in r if not opaque(c))


def frows(d):
    return list(d["rows"].values()) if isinstance(d["rows"], dict) else d["rows"]


def match(db, data, tabs):
    """frozen entry -> current table"""
    res, used = {}, set()
    for ph in (0, 1):
        cand = []
        for i, d in enumerate(data):
            if i in res:
                continue
            fv = vals(frows(d))
            n = max(1, sum(fv.values()))
            for j, t in enumerate(tabs):
                if j in used:
                    continue
                same = core.root_fn(db, t.fn).q == d["fn"] if hasattr(t.fn, "b") else t.fn.q == d["fn"]
                ov = sum((fv & vals(t.rows)).values()) / n
                # the same function and type, or the same contents elsewhere
                if ph == 0:
                    if same and t.ty == d["ty"] or same and ov >= 0.5:
                        cand.append((1 if t.ty == d["ty"] else 0, ov, -i, -j))
                elif ov >= 0.6 and n > 2:
                    cand.append((0, ov, -i, -j))
        for sc in sorted(cand, reverse=True):
            i, j = -sc[2], -sc[3]
            if i in res or j in used:
                continue
            # an array of unrelated size and content in the same function is no match
            if ph == 0 and sc[1] == 0 and len(tabs[j].rows) != len(data[i]["rows"]):
                continue
            res[i] = tabs[j]
            used.add(j)
    return res


def differs(a, b, vocab):
    """is cell b (current) definitely different from a (reviewed)?"""
    if a == b or opaque(a) or opaque(b):
        return False
    if norm(a) == norm(b) and "::" in a and "::" in b:
        return False
    lit = b[0] in "'&-" or re.match(r"^-?\d+$", b) or re.match(r"^[\w:]+$", b) and "::" in b or b.startswith("creates ") or b == "null"
    if re.match(r"^-?\d+$", b) and not re.match(r"^-?\d+$", a):
        return b in vocab       # a constant replaced by its value
    return bool(lit) or b in vocab


def where(t):
    return "%s:%d" % (t.fn.f, t.ln or getattr(t.fn, "l", 0))


def keyed(db, d, t):
    """member -> cells of the current table"""
    ms = enumtab.members(db, d["enum"])
    if t.kind == "map":
        return {norm(r[0]): r[1:] for r in t.rows if len(r) > 1}, ms
    return {n: t.rows[v] for n, v in ms if 0 <= v < len(t.rows)}, ms


def compare(db, rep, d, t):
    name = norm(d["fn"]) + ("[%s]" % norm(d["enum"]) if d["enum"] else "")
    vocab = set(vals(frows(d)))
    bad = 0

    def viol(key, text):
        nonlocal bad
        bad += 1
        rep.violation("%s:%s" % (name, key), where(t), "table entry", "%s: %s" % (d["fn"], text), [where(t)])
    if d["enum"]:
        if d["enum"] not in db.enums:
            rep.note("enumeration %s no longer exists" % d["enum"])
            return
        cur, ms = keyed(db, d, t)
        values = {}
        for n, v in ms:
            if n in d["rows"]:
                if v in values:
                    viol("dup:" + n, "enumerators %s and %s have the same value %d" % (values[v], n, v))
                values[v] = n
        for m, cells in d["rows"].items():
            if m not in [n for n, v in ms]:
                rep.note("%s: enumerator %s no longer exists" % (d["enum"], m))
                continue
            if m not in cur:
                viol("missing:" + m, "no entry for %s::%s" % (d["enum"], m))
                continue
            for a, b in zip(cells, cur[m]):
                if differs(a, b, vocab):
                    viol(m, "the entry of %s::%s is %s where the specification has %s" % (d["enum"], m, b, a))
        n = len(t.rows)
        if t.kind != "map":
            known = set(d["rows"])
            for m, v in ms:
                if m not in known and v >= n and not re.search(r"NumOf|Invalid|Last|Max", m) and 0 <= v:
                    viol("missing:" + m, "no entry for the enumerator %s::%s" % (d["enum"], m))
    elif d["kind"] == "map":
        keys = collections.Counter(r[0] for r in t.rows)
        for k, c in keys.items():
            if c > 1 and not opaque(k):
                viol("dup:" + k, "key %s occurs %d times (only one of the entries can be found)" % (k, c))
        cur = {r[0]: r[1:] for r in t.rows}
        for r in d["rows"]:
            if r[0] not in cur:
                viol("missing:" + r[0], "no entry for %s" % r[0])
                continue
            for a, b in zip(r[1:], cur[r[0]]):
                if differs(a, b, vocab):
                    viol(r[0], "%s is mapped to %s where the specification has %s" % (r[0], b, a))
    elif d["kind"] == "set":
        a = {r[0] for r in d["rows"] if not opaque(r[0])}
        b = {r[0] for r in t.rows}
        if not any(opaque(x) for x in b):
            for x in sorted(a - b):
                viol("missing:" + x, "%s is no longer in the set" % x)
        for x in sorted(b - a):
            if not opaque(x):
                viol("extra:" + x, "%s does not belong in the set" % x)
    else:
        if len(t.rows) < len(d["rows"]):
            viol("short", "%d entries where %d are needed" % (len(t.rows), len(d["rows"])))
        for i, (a, b) in enumerate(zip(d["rows"], t.rows)):
            for x, y in zip(a, b):
                if differs(x, y, vocab):
                    viol("row%d" % i, "entry %d is %s where the specification has %s" % (i, y, x))
    return bad


def bases(db, c, seen=None):
    seen = seen if seen is not None else set()
    for b in (db.records.get(c) or {}).get("bases", ()):
        b = re.sub(r"<.*", "", b)
        if b not in seen:
            seen.add(b)
            bases(db, b, seen)
    return seen


def created(db, f, depth=2, seen=None):
    """classes constructed for the result of f"""
    seen = seen if seen is not None else set()
    out = []
    if f.id in seen:
        return out
    seen.add(f.id)
    for e in core.fn_exprs(f):
        if e[0] == "call" and e[3]:
            n = (db.decls.get(e[3]) or {}).get("n")
            if n == "make_unique":
                t = f.types[e[2]]
                m = re.search(r"make_unique<#\$?((?:@\w+@\w+)+)", e[3])
                q = "::".join(re.findall(r"@\w+@(\w+)", m.group(1))) if m else ""
                out.append((q, e[1]))
            elif depth and e[3] in db.fns and db.fns[e[3]].f.startswith(("lib/src", "app/")):
                out += created(db, db.fns[e[3]], depth - 1, seen)
        elif e[0] == "new":
            out.append((f.types[e[2]].rstrip(" *"), e[1]))
    return out


def kinds(db, rep):
    n = 0
    for f in db.fns.values():
        if not f.b or not f.f.startswith(("lib/", "app/")):
            continue
        cls = norm(f.cls or "")
        w = "%s:%d" % (f.f, f.l)
        m = re.match(r"^genCreate(\w+?)(Impl)?$", f.n)
        if m and m.group(1) not in ("All", "Complete", "Logger", "Directory") and (m.group(2) or cls == "GenGenerator"):
            x = m.group(1)
            base = next((b for b in ("commsdsl::gen::Gen" + x,) if b in db.records), None)
            if base is None:
                continue
            if m.group(2):
                n += 1
                for q, ln in created(db, f):
                    if q and q != base and q in db.records and base not in bases(db, q):
                        rep.violation("%s::%s" % (cls, f.n), "%s:%d" % (f.f, ln), "kind", "%s creates a %s, which is not a %s" % (f.q, q, base), [w])
            else:
                n += 1
                for e in core.fn_exprs(f):
                    d = db.decls.get(core.callee(e)) if e[0] == "call" else None
                    if d and re.match(r"^genCreate\w+Impl$", d["n"]) and d["n"] != f.n + "Impl":
                        rep.violation("%s::%s" % (cls, f.n), "%s:%d" % (f.f, e[1]), "kind", "%s forwards to %s" % (f.q, d["n"]), [w])
        m = re.match(r"^Parse(\w+?)(Field|Layer|OptCond)(\w*?)Impl$", cls) if f.n == "parseKindImpl" else None
        if cls.startswith("ParseOptCond"):
            m = re.match(r"^ParseOptCond()()(\w+)Impl$", cls) if f.n == "parseKindImpl" else None
        if m:
            x = m.group(1) or m.group(3)
            n += 1
            for s in core.stmts(f.b):
                if s[0] == "ret" and s[2]:
                    v = core.strip(s[2])
                    if v and v[0] == "enumr" and norm(v[3]) != x:
                        rep.violation("%s::parseKindImpl" % cls, "%s:%d" % (f.f, s[1]), "kind", "%s reports kind %s" % (cls, norm(v[3])), [w])
    rep.set("creation functions and kind reports", n, 120)


CPP = re.compile(r"^(?:std::)?(u?)int(8|16|32|64)_t$|^(?:std::)?(size_t)$")
WIDTH = {"char": ("8",), "short": ("16",), "int": ("32",), "long": ("64",), "long long": ("64",)}


def meaning(t):
    """(unsigned, width) of a fundamental type spelled out, or None"""
    w = [x for x in t.split() if x]
    if not w or any(x not in ("signed", "unsigned", "char", "short", "int", "long") for x in w):
        return None
    if w == ["char"]:
        return None  # signedness is up to the target
    u = "unsigned" in w
    r = [x for x in w if x not in ("signed", "unsigned")]
    if len(r) > 1 and "int" in r:
        r.remove("int")
    return u, {"": "32"}.get(" ".join(r)) or (WIDTH.get(" ".join(r)) or ("?",))[0]


def ctypes(db, rep, tabs):
    """the fixed width types map to fundamental types of the same sign and width"""
    n = 0
    for t in tabs:
        rows = [r for r in t.rows if len(r) > 1 and r[0].startswith("'") and r[1].startswith("'")]
        rows = [(CPP.match(r[0].strip("'")), r) for r in rows]
        rows = [(m, r) for m, r in rows if m and not CPP.match(r[1].strip("'"))]
        for m, r in rows:
            got = meaning(r[1].strip("'"))
            want = (True, "64") if m.group(3) else (m.group(1) == "u", m.group(2))
            n += 1
            if got != want:
                rep.violation("ctype:%s:%s" % (norm(t.fn.q), r[0]), where(t), "table entry",
                              "%s: the type %s is written as %s, which is not of the same sign and width" % (t.fn.q, r[0], r[1]), [where(t)])
    rep.set("fixed width types written as fundamental ones", n, 0)


def run(db, rep, thorough):
    data = json.load(open(DATA))
    tabs = enumtab.tables_of(db)
    got = match(db, data, tabs)
    rows = 0
    for i, d in enumerate(data):
        if i not in got:
            rep.note("table of %s (%s) not found in table form" % (d["fn"], d["ty"]))
            continue
        rows += len(d["rows"])
        compare(db, rep, d, got[i])
        rep.sample("tables", "%s (%d entries)" % (d["fn"], len(d["rows"])))
    rep.set("value tables", len(got), int(len(data) * 0.7))
    rep.set("table entries compared", rows, 400)
    # any other constant map: no key twice
    k = 0
    for t in tabs:
        if t.kind == "map" and "multimap" not in t.ty:
            k += 1
            c = collections.Counter(r[0] for r in t.rows if not opaque(r[0]))
            for x, n in c.items():
                if n > 1 and x.startswith("'") and t not in got.values():
                    rep.violation("dup:%s:%s" % (t.fn.q, x), where(t), "duplicate key", "%s: key %s is given %d times in one table" % (t.fn.q, x, n), [where(t)])
    rep.set("constant maps checked for duplicate keys", k, 30)
    ctypes(db, rep, tabs)
    kinds(db, rep)
