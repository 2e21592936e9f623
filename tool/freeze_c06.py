#!/usr/bin/env python3
"""Rewrites sa/data/versions.json from the current tree (to be reviewed against the CommsDSL specification before committing)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from sa import facts
from sa.rules import c06
d = c06.freeze(facts.get_db())
json.dump(d, open(c06.DATA, "w"), indent=1, sort_keys=True)
