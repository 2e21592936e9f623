#!/usr/bin/env python3
"""Writes sa/data/tables.json: the reviewed value tables (run once, result read and committed)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from sa import facts, core, enumtab
E = "commsdsl::parse::"
HAND = {("parseUpdateType", 2): E + "ParseFloatField::ParseType", ("parseUpdateLength", 2): E + "ParseFloatField::ParseType",
        ("parseMinValueForType", 2): E + "ParseFloatField::ParseType", ("parseMaxValueForType", 2): E + "ParseFloatField::ParseType",
        ("parseMaxTypeLength", 10): E + "ParseIntField::ParseType", ("parseMinTypeValue", 10): E + "ParseIntField::ParseType",
        ("parseMaxTypeValue", 10): E + "ParseIntField::ParseType", ("parseUpdateSender", 3): E + "ParseMessage::ParseSender",
        ("parseEndian", 2): E + "ParseEndian", ("parseUpdateSemanticType", 4): E + "ParseField::ParseSemanticType",
        ("commsAddModeOptInternal", 3): E + "ParseOptionalField::ParseMode",
        ("commsDefIncludesImpl", 6): E + "ParseChecksumLayer::ParseAlg", ("commsDefAlgInternal", 6): E + "ParseChecksumLayer::ParseAlg",
        ("latexLabelPrefix", 8): "commsdsl::gen::GenElem::GenType", ("<lambda>", 4): E + "ParseErrorLevel", ("commsSetCustomizationLevel", 3): "commsdsl2comms::CommsGenerator::CommsCustomizationLevel"}
SETS = {"genIsUnsignedType", "parseIsUnsigned", "parseIsTypeUnsigned", "parseIsComparableToValue", "parseIsFpSpecial", "parseStrToBool"}
SKIP = {"parseIsPropertySupported", "parseIsPropertyDeprecated"}     # C06
db = facts.get_db()
out = []
for t in sorted(enumtab.tables_of(db), key=lambda t: (t.fn.q, t.ln)):
    if t.kind == "map" and "std::basic_string<char>, std::basic_string" in t.ty or t.fn.q.rsplit("::", 1)[-1] in SKIP:
        continue
    n = t.fn.q.rsplit("::", 1)[-1]
    en = enumtab.index_enum(db, t) or HAND.get((n, len(t.rows))) if t.kind == "array" and n not in SETS else None
    d = {"fn": core.root_fn(db, t.fn).q, "ty": t.ty, "kind": "set" if n in SETS else t.kind, "enum": en}
    if en:
        if en not in db.enums:
            sys.exit("no enum " + en)
        d["rows"] = {m[0]: list(t.rows[m[1]]) for m in enumtab.members(db, en) if 0 <= m[1] < len(t.rows)}
        assert len(d["rows"]) == len(t.rows), (t.fn.q, en)
    else:
        d["rows"] = [list(r) for r in t.rows]
    out.append(d)
json.dump(out, open(os.path.join(facts.VERIF, "sa", "data", "tables.json"), "w"), indent=1, sort_keys=True)
print(len(out))
