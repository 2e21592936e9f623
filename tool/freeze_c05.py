#!/usr/bin/env python3
"""Regenerates sa/data/props.json, the table of (element class, property) pairs of CommsDSL, from a tree known to be right."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from sa import facts, attrs
from sa.rules import c05
db = facts.get_db()
A = attrs.get(db)
R, _ = c05.recognised(db, A)
U = c05.consumed(db, A)
E = c05.effects(A)
out = {}
for c in sorted({c for c, _ in R} | set(U)):
    rec = sorted(R.get((c, "props"), {}))
    nested = sorted({tuple(sorted(x)) for x in A.local_lists.get(c, ())})
    con = sorted(k for k, kinds in U.get(c, {}).items() if kinds & {"props", "local", "child"} and k)
    eff = sorted(k for k in con if k in E.get(c, {}))
    if rec or con or nested:
        out[c] = {"recognised": rec, "nested": nested, "consumed": con, "effect": eff}
json.dump(out, open(c05.DATA, "w"), indent=0, sort_keys=True)
print(len(out), sum(len(d["recognised"]) + len(d["consumed"]) for d in out.values()), sum(len(d["effect"]) for d in out.values()))
for c, d in out.items():
    x = set(d["consumed"]) - set(d["effect"])
    if x:
        print("no member:", c, sorted(x))
