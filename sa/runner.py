"""Command-line driver: runs a rule module, writes evidence, prints verdicts."""
import importlib, json, os, sys, time, traceback
from . import facts
from .facts import VERIF, AnalysisBroken
from .report import Report

RULES = os.path.join(VERIF, "sa", "rules")
KNOWN = os.path.join(VERIF, "known-findings.txt")


def known(prop):
    """key -> text of the findings recorded for a property."""
    r = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % prop):
                rest = ln[len("known: property=%s " % prop):]
                key, _, text = rest.partition(" :: ")
                r[key.strip()] = text.strip()
    return r


def claimed():
    return sorted(f[:-3].upper() for f in os.listdir(RULES) if f.startswith("c") and f.endswith(".py"))


def run_one(prop, tier, quiet=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    mod = importlib.import_module("sa.rules." + prop.lower())
    db = facts.get_db()
    rep = Report(prop)
    mod.run(db, rep, tier == "thorough")
    kf = known(prop)
    new = [v for v in rep.viol if v["key"] not in kf]
    old = [v for v in rep.viol if v["key"] in kf]
    if not new:
        rep.verify_floors()
    for k in sorted({v["key"] for v in old}):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, kf[k]))
    cov = {"explanation": mod.EXPLAIN}
    cov["rule"] = mod.RULE
    cov["analysed"] = {"translation_units": len(db.tus), "functions": len(db.fns)}
    cov["counts"] = dict(rep.counts)
    cov["samples"] = [{k: v} for k, v in rep.samples.items()] or [{"rule": mod.RULE}]
    if rep.notes:
        cov["notes"] = rep.notes
    cov["known_findings"] = sorted({v["key"] for v in old})
    cov["reports"] = [{k: v[k] for k in ("key", "where", "rule", "text", "path")} for v in new[:200]]
    out = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
           "assumptions": getattr(mod, "ASSUME", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(ev, prop + ".json"), "w") as fh:
        json.dump(out, fh, indent=1)
        fh.write("\n")
    if new:
        rp = os.path.join(ev, prop + ".violations.txt")
        with open(rp, "w") as fh:
            for v in new:
                fh.write("%s: [%s] %s\n    key: %s\n" % (v["where"], v["rule"], v["text"], v["key"]))
                if v["path"]:
                    fh.write("    path: %s\n" % " -> ".join(map(str, v["path"])))
        for v in new[:40]:
            print("%s: [%s] %s   {%s}" % (v["where"], v["rule"], v["text"], v["key"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s: held on everything analysed: %s" % (prop, ", ".join("%s=%s" % x for x in rep.counts.items())))
    return 0


def main(args):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    args = [a for a in args if not a.startswith("--") or a == "--all"]
    props = claimed() if args == ["--all"] else args
    if not props:
        print(__doc__)
        return 2
    rc = 0
    for p in props:
        try:
            r = run_one(p, tier)
        except AnalysisBroken as e:
            print("ANALYSIS-BROKEN property=%s: %s" % (p, e))
            r = 2
        except Exception:
            traceback.print_exc()
            print("ANALYSIS-BROKEN property=%s" % p)
            r = 2
        if r == 1 or (r and rc == 0):
            rc = r
    return rc
