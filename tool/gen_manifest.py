#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the rule modules in sa/rules and the not-applicable list below."""
import glob, importlib, json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)

TECH = {
    "C01": "static analysis: interprocedural success/failure dataflow over control-flow graphs",
    "C02": "static analysis: interprocedural must-diagnose dataflow on rejecting paths",
    "C03": "static analysis: must-check dataflow of conversion status + lint of the converters",
    "C04": "static analysis: nullness/end-iterator typestate dataflow",
    "C05": "static analysis: interprocedural value flow of property names (recognised == consumed)",
    "C06": "static analysis: gate dominance over control-flow graphs + version table evaluation",
    "C07": "static analysis: constant evaluation of tables against enumerations",
    "C08": "static analysis: member-coverage of reuse/clone operations, ownership of nested members",
    "C09": "static analysis: value flow property -> member -> accessor against a frozen specification",
    "C10": "static analysis: find-before-insert and parse-before-insert dominance",
    "C11": "static analysis: must-validate dataflow of version attributes",
    "C12": "static analysis: typestate of output streams and error codes",
    "C13": "static analysis: backward origin flow of file-system paths",
    "C14": "static analysis: matching of template placeholders and replacement keys",
    "C15": "static analysis: effect analysis for non-deterministic sources and orders",
    "C16": "static analysis: definite initialisation of scalar members and locals",
    "C17": "static analysis: kind-guard dataflow before downcasts",
    "C18": "static analysis: ownership typestate of XML library objects",
    "C19": "static analysis: exit-status dataflow and exception-effect analysis",
    "C20": "static analysis: set equality of looked-up and reserved snippet suffixes",
    "C21": "static analysis: option-name flow registration -> query -> configuration",
    "C22": "static analysis: taint analysis of schema text into LaTeX output",
    "C23": "static analysis: effect lint of length arithmetic + guard dominance in the saturating helpers",
    "C24": "static analysis: loop-progress (ranking) analysis and recursion structure",
    "C25": "static analysis: call-graph reachability of emitters, child-traversal obligations and skip-path analysis",
    "C26": "static analysis: taint analysis of schema text into quoted literals",
    "C27": "static analysis: filter dominance over traversals of versioned items",
    "C31": "static analysis: path-sensitive must-check propagation of names",
}
NA = {
    "C28": "round-tripping of generated code quantifies over the behaviour of the generated programs on all message values; no "
           "static argument over the generator's source bounds it (it would need a semantics of the emitted text and of the external "
           "COMMS library, which is not part of this repository)",
    "C29": "exactness of range arithmetic on 64-bit values is a numeric property of runtime quantities (merge of arbitrary interval lists, "
           "signed/unsigned reinterpretation); an abstract interpreter precise enough to decide equality with the union of intervals is out "
           "of reach and handing paths to a solver is another technique",
    "C30": "the repository uses assertions for conditions established by other parts of the program (well over a thousand of them, many about "
           "contents of containers); proving each unreachable needs whole-program value invariants that no sound dataflow here can derive",
}
PENDING = "no rule is registered for this property yet"


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        f = os.path.join(V, "sa", "rules", p.lower() + ".py")
        if os.path.exists(f):
            m = importlib.import_module("sa.rules." + p.lower())
            note = m.EXPLAIN + " Trusted: clang's AST, the fact extractor and the analyses in /verif/sa."
            if getattr(m, "ASSUME", None):
                note += " Assumes: " + "; ".join(m.ASSUME) + "."
            checks.append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "./check %s --thorough" % p,
                           "technique": TECH[p], "level": "other", "level_note": note})
        else:
            na.append({"property": p, "reason": NA.get(p, PENDING)})
    m = {"version": 1, "setup_cmd": "make -C tool", "checks": checks, "not_applicable": na,
         "notes": "All checks are static: ./check extracts facts from /repo's current sources with a clang-based tool (no build of /repo is "
                  "used) and decides the rule in sa/rules/<id>.py. No hooks in /repo."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


main()
