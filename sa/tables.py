"""Evaluation of constant strings, enumerators and static tables (maps, arrays, lists) in the source."""
from . import core


class Tables:
    def __init__(self, db):
        self.db = db
        self.fnmemo = {}
        self.gmemo = {}
        self.vmemo = {}
        self.prep = {}

    # ---- variables
    def var_inits(self, root):
        """var id -> list of (owner function, init expr or None, reassigned)."""
        r = self.prep.get(root.id)
        if r is None:
            r = {}
            for f in core.family(self.db, root):
                for s in core.stmts(f.b):
                    if s[0] == "decl":
                        for v in s[2]:
                            r.setdefault(v[0], []).append((f, v[3]))
                for e in core.fn_exprs(f):
                    t = None
                    if e[0] == "bin" and e[3].endswith("=") and e[3] not in ("==", "!=", "<=", ">="):
                        t = e[4]
                    elif e[0] == "op" and e[3].endswith("=") and e[3] not in ("==", "!=", "<=", ">=") and e[5]:
                        t = e[5][0]
                    elif e[0] == "un" and ("++" in e[3] or "--" in e[3]):
                        t = e[4]
                    t = core.strip(t) if t else None
                    if t and t[0] == "v":
                        r.setdefault(t[3], []).append((f, None))
            self.prep[root.id] = r
        return r

    def var_init(self, f, vid):
        root = core.root_fn(self.db, f)
        l = self.var_inits(root).get(vid)
        if l and len(l) == 1 and l[0][1] is not None:
            return l[0]
        return None

    # ---- values
    def ev(self, f, e, depth=0):
        if e is None or depth > 30:
            return None
        db = self.db
        k = e[0]
        if k in ("icast",):
            return self.ev(f, e[4], depth + 1)
        if k == "cast":
            return self.ev(f, e[5], depth + 1)
        if k == "dflt":
            return self.ev(f, e[2], depth + 1)
        if k == "str":
            return ("s", e[2])
        if k == "int":
            try:
                return ("i", int(str(e[3]).rstrip("uUlL")))
            except ValueError:
                return None
        if k == "chr":
            return ("ch", e[2])
        if k == "bool":
            return ("b", bool(e[2]))
        if k == "null":
            return ("null",)
        if k == "enumr":
            return ("en", e[3], e[4])
        if k == "fref":
            return ("f", e[3])
        if k == "lam":
            return ("l", e[2])
        if k == "un" and e[3] == "&":
            return self.ev(f, e[4], depth + 1)
        if k == "un" and e[3] == "-":
            v = self.ev(f, e[4], depth + 1)
            return ("i", -v[1]) if v and v[0] == "i" else None
        if k == "init":
            return ("list", [self.ev(f, x, depth + 1) for x in e[3]])
        if k == "ctor":
            a = [x for x in e[4] if x[0] != "dflt"]
            if len(a) == 1:
                return self.ev(f, a[0], depth + 1)
            if not a:
                ty = f.types[e[2]] if f is not None and isinstance(e[2], int) and e[2] < len(f.types) else ""
                return ("s", "") if "string" in ty else None
            return ("tup", [self.ev(f, x, depth + 1) for x in a])
        if k == "call":
            d = db.decls.get(e[3]) if e[3] else None
            if d and d["n"] in ("make_pair", "make_tuple"):
                return ("tup", [self.ev(f, x, depth + 1) for x in e[4]])
            if d and d["n"] in ("move", "forward") and e[4]:
                return self.ev(f, e[4][0], depth + 1)
            if d and d["n"] == "c_str" and e[5]:
                return self.ev(f, e[5], depth + 1)
            if e[3] in db.fns:
                return self.fn_value(db.fns[e[3]], depth)
            return None
        if k == "op" and e[3] == "+" and len(e[5]) == 2 or k == "bin" and e[3] == "+":
            l, r = e[5] if k == "op" else (e[4], e[5])
            l = self.ev(f, l, depth + 1)
            r = self.ev(f, r, depth + 1)
            if l and r and l[0] in ("s", "ch") and r[0] in ("s", "ch"):
                return ("s", self.txt(l) + self.txt(r))
            return None
        if k == "v":
            i = self.var_init(f, e[3])
            if i:
                return self.ev(i[0], i[1], depth + 1)
            return None
        if k == "gv":
            return self.gvar(e[3], depth)
        if k == "mem":
            return None
        return None

    @staticmethod
    def txt(v):
        if v[0] == "s":
            return v[1]
        try:
            return chr(int(v[1]))
        except (ValueError, TypeError):
            return str(v[1])

    def gvar(self, usr, depth=0):
        if usr in self.gmemo:
            return self.gmemo[usr]
        self.gmemo[usr] = None
        g = self.db.globals.get(usr)
        if g and g.get("init"):
            class F:
                pass
            ff = F()
            ff.types = g.get("types", [])
            ff.id = usr
            self.gmemo[usr] = self.ev_g(ff, g["init"], depth)
        return self.gmemo[usr]

    def ev_g(self, ff, e, depth):
        return self.ev(ff, e, depth + 1)

    def fn_value(self, f, depth=0):
        """Value of a parameterless constant accessor."""
        if f.id in self.fnmemo:
            return self.fnmemo[f.id]
        self.fnmemo[f.id] = None
        if f.p:
            return None
        rets = [s for s in core.stmts(f.b) if s[0] == "ret" and s[2]]
        if len(rets) == 1:
            self.fnmemo[f.id] = self.ev(f, rets[0][2], depth + 1)
        return self.fnmemo[f.id]

    # ---- tables
    def rows(self, v):
        """Rows of a list-like value: list of lists of scalar cells."""
        if not v or v[0] not in ("list", "tup"):
            return None
        r = []
        for x in v[1]:
            if x and x[0] in ("list", "tup"):
                # unwrap singletons
                while x and x[0] in ("list", "tup") and len(x[1]) == 1 and x[1][0] and x[1][0][0] in ("list", "tup"):
                    x = x[1][0]
                r.append(list(x[1]))
            else:
                r.append([x])
        return r

    def unwrap(self, v):
        while v and v[0] in ("list", "tup") and len(v[1]) == 1 and v[1][0] and v[1][0][0] in ("list", "tup"):
            v = v[1][0]
        return v


_t = {}


def get(db):
    if id(db) not in _t:
        _t[id(db)] = Tables(db)
    return _t[id(db)]


def string_keys(db, f, o):
    """First-column strings of a static table, or None."""
    T = get(db)
    v = T.unwrap(T.ev(f, o))
    rows = T.rows(v)
    if not rows:
        return None
    ks = set()
    for r in rows:
        if r and r[0] and r[0][0] == "s":
            ks.add(r[0][1])
        else:
            return None
    return ks
