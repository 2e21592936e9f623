"""Which schema properties reach which members of the parser's objects, and which members the public accessors read."""
import os, re
from . import facts, core, tables, flow, callgraph, status
from .facts import AnalysisBroken

PRE = "commsdsl::parse::"


def keys(db):
    T = tables.get(db)
    r = {}
    for f in db.fns.values():
        if f.q.startswith(PRE + "common::") and not f.p and "string" in (f.ret or ""):
            v = T.fn_value(f)
            if v and v[0] == "s" and v[1]:
                r[v[1]] = f
    return r


class Attrs:
    def __init__(self, db):
        self.db = db
        self.S = status.get(db)
        self.keys = set(keys(db))
        roots = [f for f in self.S.fns if f.q in (PRE + "ParseProtocol::parse", PRE + "ParseProtocol::parseValidate")]
        if len(roots) != 2:
            raise AnalysisBroken("public parse/validate entry points not found")
        self.reach = callgraph.reachable(db, self.S, roots)
        self.parse_fns = [f for f in self.S.fns if f.f.startswith("lib/src/parse") and f.n != "<lambda>"]
        self._mk = None
        self._ev = None
        self._acc = None

    def _run_keys(self):
        F = flow.Flow(self.db, self.keys, members=lambda m: m.endswith("::m_props"), sources=("parseNodeProps",),
                      origin=True)
        mk, ev = {}, []
        for f in self.parse_fns:
            if f.id not in self.reach:
                continue
            r, o, m, e = F.run(f.id)
            for k, t in m.items():
                mk.setdefault(k, set()).update(x[2:] for x in t if x[0] == "K")
            for k, rc in e:
                ev.append((f, k, rc))
        self._mko, self._ev = mk, ev
        self._mk = {m: {k.split("|")[0] for k in ks} for m, ks in mk.items()}
        self.nfns = len(F.memo)

    @property
    def member_keys(self):
        if self._mk is None:
            self._run_keys()
        return self._mk

    @property
    def member_keys_origin(self):
        if self._mk is None:
            self._run_keys()
        return self._mko

    @property
    def events(self):
        if self._ev is None:
            self._run_keys()
        return self._ev

    def public_classes(self):
        return {n[len(PRE):] for n, r in self.db.records.items()
                if n.startswith(PRE) and r["f"].startswith("lib/include/commsdsl/parse/")}

    @property
    def accessors(self):
        """[(class, name, fn, leaf members)]"""
        if self._acc is None:
            G = flow.Flow(self.db, set(), members=lambda m: True)
            pub = self.public_classes()
            out = []
            for f in sorted(self.parse_fns, key=lambda f: (f.q, f.l)):
                c = f.cls or ""
                if not c.startswith(PRE) or f.ret == "void":
                    continue
                short = c[len(PRE):]
                if short not in pub or f.n in (short, "~" + short) or f.n.startswith("operator"):
                    continue
                r = G.run(f.id)[0]
                ms = {x[2:] for x in r if x.startswith("M:") and not x.endswith("::m_pImpl")}
                out.append((short, f.n, f, ms))
            self._acc = out
        return self._acc


def get(db):
    a = getattr(db, "_attrs", None)
    if a is None:
        a = db._attrs = Attrs(db)
    return a
