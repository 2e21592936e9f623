"""Call-graph reachability."""
from . import core


def edges(db, S, f):
    for e in core.fn_exprs(f):
        if e[0] in ("call", "op", "ctor"):
            for t in S.targets(f, e) or ():
                yield t
            if e[0] == "ctor" and e[3] in db.fns:
                yield e[3]
        elif e[0] == "fref" and e[3] in db.fns:
            yield e[3]
        elif e[0] == "lam":
            yield e[2]
        elif e[0] == "gv":
            g = db.globals.get(e[3])
            if g and g.get("init"):
                for x in core.walk(g["init"]):
                    if x[0] == "fref" and x[3] in db.fns:
                        yield x[3]
                    if x[0] == "lam":
                        yield x[2]


def reachable(db, S, roots):
    seen = set()
    work = [f if isinstance(f, str) else f.id for f in roots]
    while work:
        x = work.pop()
        if x in seen or x not in db.fns:
            continue
        seen.add(x)
        f = db.fns[x]
        if not f.dep:
            work.extend(edges(db, S, f))
    return seen
