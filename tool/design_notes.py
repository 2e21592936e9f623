"""Handwritten remarks per property for DESIGN.md."""
NOTES = {
    "C01": "*Reach.* About 2000 calls of fallible functions; tests exercise few of the failures (unwritable files, failing children in the middle of a list). *Limit:* failures signalled through other means than the result, stream state, exceptions or error diagnostics.",
    "C02": "*Limit.* A rejection inside third-party code is taken to be reported through the XML error callback.",
    "C03": "*Limit.* Correct rounding of floating point texts is the C library's business.",
    "C04": "*Limit.* Trusted invariants are listed one by one in the rule (REVIEWED), with the reason.",
    "C06": "*Oracle.* `sa/data/versions.json`, written from the CommsDSL specification's version notes in the headers and documentation.",
    "C07": "*Oracle.* `sa/data/tables.json`.",
    "C09": "*Oracle.* `sa/data/accessors.json`.",
    "C12": "*Limit.* What the operating system acknowledges but later loses is out of scope.",
    "C19": "*Known finding.* Warnings issued during the write phase do not fail the run; a repair means restructuring genWrite of every generator.",
    "C21": "*Known finding.* commsdsl2tools_qt offers --force-main-ns-in-options without effect; implementing it is a feature, not a small repair.",
    "C23": "*Limit.* Only wrap-around; that the formulas add up the right parts is not decided.",
    "C24": "*Limit.* Termination of the C++ library's algorithms and of libxml2 is assumed.",
    "C10": "*Reach.* Every insertion of a named element, enumerator, bit, special value or platform, in whatever function it happens, with the lookups followed through helpers, lambdas and algorithm calls. *Limit.* A lookup is taken to compare the whole name when it compares it at all; case folding of names is the generators' concern.",
    "C17": "*Reach.* About 260 functions with conversions; tests only hit the kinds the sample schemas combine. *Limit.* The trusted facts (a frame's parent is a namespace, a prefix field was verified when read, ...) are listed in the rule.",
    "C27": "*Limit.* Optional members are not judged; of the validity ranges only those the LaTeX documentation prints are.",
}
