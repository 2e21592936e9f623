"""Constant tables of the source (static arrays and maps) in canonical form."""
import re
from . import core, tables


def strip(e):
    e = core.strip(e)
    while e and e[0] == "cast" and len(e) > 5:
        e = core.strip(e[5])
    return e


def short(q):
    return q.rsplit("::", 1)[-1]


def template_args(usr):
    m = re.search(r"<([^<>]*)>", usr or "")
    return m.group(1) if m else ""


class Tab:
    """fn, var name, type, kind 'map'|'array', rows (list of tuples of cell texts), index enum (q) or None"""
    __slots__ = ("fn", "name", "ty", "kind", "rows", "enum", "ln", "vid", "cells")


def cell(db, T, f, e):
    v = T.ev(f, e)
    if v:
        if v[0] == "s":
            return "'%s'" % v[1]
        if v[0] == "en":
            return v[1]
        if v[0] in ("i", "b"):
            return str(v[1])
        if v[0] == "null":
            return "null"
        if v[0] == "f":
            d = db.decls.get(v[1])
            return "&" + (d["n"] if d else v[1])
        if v[0] == "l":
            return lamtext(db, v[1])
    e = strip(e)
    while e and e[0] == "ctor" and len([x for x in e[4] if x and x[0] != "dflt"]) == 1:
        e = strip(e[4][0])
    if not e:
        return "?"
    if e[0] == "ctor" and not [x for x in e[4] if x and x[0] != "dflt"]:
        return "''"
    if e[0] == "call" and e[3]:
        d = db.decls.get(e[3])
        if d:
            a = d.get("cls") or ""
            extra = ""
            if "numeric_limits" in e[3]:
                m = re.search(r"numeric_limits>#([^@]*)@", e[3])
                extra = "<%s>" % (m.group(1) if m else "?")
            elif "<" in a:
                extra = a[a.index("<"):]
            elif d["n"].endswith("ForType") or "#" in e[3]:
                m = re.findall(r"@F@\w+<([^>]*)>", e[3]) or re.findall(r"<#?([^>]*)>", e[3])
                extra = "<%s>" % m[0] if m and not a else ""
            args = ",".join(cell(db, T, f, x) for x in e[4] if x and x[0] != "dflt")
            return "%s%s(%s)" % (d["n"], extra, args)
    if e[0] == "un" and e[3] in ("&", "-"):
        c = cell(db, T, f, e[4])
        return e[3] + c
    if e[0] == "bin":
        return "(%s %s %s)" % (cell(db, T, f, e[4]), e[3], cell(db, T, f, e[5]))
    if e[0] == "lam":
        return lamtext(db, e[2])
    if e[0] == "mem":
        return short(e[3])
    if e[0] == "v":
        return "var"
    if e[0] == "sizeof" or e[0] == "x":
        return e[0] + "".join(str(x) for x in e[3:] if isinstance(x, (str, int)))
    return e[0]


def lamtext(db, lid):
    """what a creator lambda constructs"""
    f = db.fns.get(lid)
    if f is None:
        return "lambda"
    got = []
    for e in core.fn_exprs(f):
        if e[0] == "call" and e[3]:
            d = db.decls.get(e[3])
            if d and d["n"] in ("make_unique", "make_shared"):
                t = f.types[e[2]]
                got.append(short(re.sub(r"[>&* ]+$", "", t.split("<")[1].split(",")[0])))
        if e[0] == "new":
            got.append(short(f.types[e[2]].rstrip(" *")))
    return "creates " + ",".join(got) if got else "lambda"


def tables_of(db):
    c = getattr(db, "_enumtabs", None)
    if c is not None:
        return c
    T = tables.get(db)
    out = []
    for f in db.fns.values():
        if not f.b or not (f.f.startswith("lib/src") or f.f.startswith("app/")):
            continue
        for s in core.stmts(f.b):
            if s[0] != "decl":
                continue
            for v in s[2]:
                if not v[3]:
                    continue
                ty = f.types[v[2]] if isinstance(v[2], int) else v[2]
                t = one(db, T, f, v, ty)
                if t:
                    out.append(t)
    glob(db, T, out)
    db._enumtabs = out
    return out


def glob(db, T, out):
    class F:
        pass
    for u, g in db.globals.items():
        if not g.get("init"):
            continue
        ff = F()
        ff.types = g.get("types", [])
        ff.id = u
        ff.q = g["q"]
        ff.f = g.get("f", "")
        ff.l = g.get("l", 0)
        t = one(db, T, ff, [u, g["q"].rsplit("::", 1)[-1], None, g["init"]], g.get("ty", ""))
        if t:
            out.append(t)


def elems(e):
    """the element expressions of an aggregate initialiser"""
    e = core.strip(e)
    while e and e[0] == "ctor":
        a = [x for x in e[4] if x and x[0] != "dflt"]
        if len(a) != 1:
            return None
        e = core.strip(a[0])
    if e and e[0] == "init":
        # initializer_list wrapped
        if len(e[3]) == 1 and core.strip(e[3][0]) and core.strip(e[3][0])[0] == "init" and False:
            return elems(e[3][0])
        return e[3]
    return None


def row(e):
    e = core.strip(e)
    while e and e[0] == "ctor" and len([x for x in e[4] if x and x[0] != "dflt"]) == 1:
        e = core.strip(e[4][0])
    if e and e[0] == "call":
        return None
    if e and e[0] == "ctor":
        a = [x for x in e[4] if x and x[0] != "dflt"]
        return a if len(a) > 1 else None
    if e and e[0] == "init" and len(e[3]) > 1:
        return e[3]
    return None


def one(db, T, f, v, ty):
    b = re.sub(r"^const ", "", ty)
    ismap = b.startswith("std::map<") or b.startswith("std::unordered_map<") or b.startswith("std::multimap<")
    isarr = b.rstrip().endswith("]") or "[" in b and "(" in b or b.startswith("std::array<") or b.startswith("std::vector<std::pair")
    if not (ismap or isarr):
        return None
    es = elems(v[3])
    if not es or len(es) < 2:
        return None
    t = Tab()
    t.fn, t.name, t.ty, t.ln, t.vid = f, v[1], b, (v[3][1] if isinstance(v[3][1], int) else 0), v[0]
    t.kind = "map" if ismap else "array"
    t.rows, t.cells = [], es
    for e in es:
        x = strip(e)
        while x and x[0] == "ctor" and len([y for y in x[4] if y and y[0] != "dflt"]) == 1:
            x = strip(x[4][0])
        if x and x[0] == "call" and x[3] and (db.decls.get(x[3]) or {}).get("n") == "make_pair":
            r = x[4]
        else:
            r = row(e)
        if r is None:
            t.rows.append((cell(db, T, f, e),))
        else:
            t.rows.append(tuple(cell(db, T, f, y) for y in r))
    t.enum = None
    return t


def index_enum(db, t):
    """the enumeration an array is indexed with, from the index expressions and from casts of positions in it"""
    f = t.fn
    if not hasattr(f, "b"):
        return None
    found = set()
    for g in core.family(db, core.root_fn(db, f)):
        for e in core.fn_exprs(g):
            i = None
            if e[0] == "idx" and strip(e[3]) and strip(e[3])[0] == "v" and strip(e[3])[3] == t.vid:
                i = strip(e[4])
            elif e[0] == "op" and e[3] == "[]" and strip(e[5][0]) and strip(e[5][0])[0] == "v" and strip(e[5][0])[3] == t.vid:
                i = strip(e[5][1])
            if i is not None:
                for d in follow(db, f, i):
                    ty = g.types[d[2]] if isinstance(d[2], int) and d[2] < len(g.types) else ""
                    ty = ty.replace("const ", "").strip(" &")
                    if ty in db.enums:
                        found.add(ty)
    return sorted(found)[0] if len(found) == 1 else None


def follow(db, f, e, depth=0):
    yield e
    if e[0] == "v" and depth < 3:
        T = tables.get(db)
        i = T.var_init(f, e[3])
        if i:
            x = strip(i[1])
            if x:
                yield from follow(db, f, x, depth + 1)


def members(db, q):
    return [(n, int(v)) for n, v in db.enums[q]["vals"]]
