#!/usr/bin/env python3
"""Regenerates sa/data/dirs.json: writers that create the directory of their file."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from sa import facts, report
from sa.rules import c12
db = facts.get_db()
r = report.Report("C12")
c12.run(db, r, False)
json.dump(sorted(r.having), open(c12.DATA, "w"), indent=0)
print(len(r.having))
