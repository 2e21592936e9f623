#!/usr/bin/env python3
"""DESIGN.md = tool/design_head.md + one section per property (from the rules themselves and NOTES below) + tool/design_tail.md."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tool.design_notes import NOTES

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = json.load(open(os.path.join(V, "MANIFEST.json")))
claimed = {c["property"]: c for c in man["checks"]}
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
seeded = {}
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    seeded.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d["what_it_breaks"], d["needs"]))
known = [l.strip() for l in open(os.path.join(V, "known-findings.txt")) if l.strip() and not l.startswith("#")]
out = [open(os.path.join(V, "tool", "design_head.md")).read().rstrip(), "", "## Properties", ""]
for p in props:
    i = p["id"]
    out += ["### %s %s" % (i, p["title"]), ""]
    if i not in claimed:
        out += ["Not claimed: %s" % na.get(i, ""), ""]
        n = NOTES.get(i)
        if n:
            out += [n.strip(), ""]
        continue
    m = importlib.import_module("sa.rules." + i.lower())
    out += ["*Rule.* %s." % m.RULE.rstrip("."), "", "*How it is decided.* %s" % m.EXPLAIN, ""]
    if getattr(m, "ASSUME", None):
        out += ["*Assumed.* " + "; ".join(m.ASSUME) + ".", ""]
    n = NOTES.get(i)
    if n:
        out += [n.strip(), ""]
    for name, what, needs in seeded.get(i, []):
        out += ["- planted and caught: `seeded/%s`: %s (needs: %s)" % (name, what, needs)]
    for k in known:
        if "property=%s " % i in k:
            out += ["- " + k.replace("property=%s " % i, "")]
    if seeded.get(i) or any("property=%s " % i in k for k in known):
        out.append("")
out += [open(os.path.join(V, "tool", "design_tail.md")).read().rstrip(), ""]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
