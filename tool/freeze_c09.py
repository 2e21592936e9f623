#!/usr/bin/env python3
"""Regenerates sa/data/accessors.json (the specification C09 checks) from a tree known to be right; the keys an accessor
must deliver are chosen from its name (the CommsDSL property it is named after), not from the code."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from sa import facts, attrs
from sa.rules import c09

MANUAL = {"DataField::DetachedPrefixFieldName": ["lengthPrefix"], "StringField::DetachedPrefixFieldName": ["lengthPrefix"],
          "DataField::FixedLength": ["length"], "StringField::FixedLength": ["length"],
          "SetField::DefaultBitValue": ["defaultValue"], "SetField::ReservedBitValue": ["reservedValue"],
          "SetField::Bits": ["idx", "name", "defaultValue", "deprecated", "sinceVersion", "description", "displayName", "reserved", "reservedValue"],
          "SetField::RevBits": ["idx", "name"], "EnumField::RevValues": ["val", "name"],
          "EnumField::Values": ["val", "name", "deprecated", "sinceVersion", "description", "displayName"],
          "IntField::SpecialValues": ["val", "name", "deprecated", "sinceVersion", "description", "displayName"],
          "FloatField::SpecialValues": ["val", "name", "deprecated", "sinceVersion", "description", "displayName"],
          "IntField::ValidRanges": ["validRange", "validValue", "validMin", "validMax", "sinceVersion", "deprecated"],
          "FloatField::ValidRanges": ["validRange", "validValue", "validMin", "validMax", "sinceVersion", "deprecated"],
          "DataField::ValidValues": ["validValue", "sinceVersion", "deprecated"],
          "StringField::ValidValues": ["validValue", "sinceVersion", "deprecated"],
          "Alias::FieldName": ["field"], "Field::IsDeprecatedRemoved": ["removed"], "Message::IsDeprecatedRemoved": ["removed"],
          "Field::DeprecatedSince": ["deprecated"], "Message::DeprecatedSince": ["deprecated"],
          "FloatField::HasNonUniqueSpecials": ["nonUniqueSpecialsAllowed"],
          "EnumField::IsNonUniqueAllowed": ["nonUniqueAllowed"], "SetField::IsNonUniqueAllowed": ["nonUniqueAllowed"],
          "ListField::FixedCount": ["count"], "ListField::ElementField": ["element"],
          "ListField::DetachedCountPrefixFieldName": ["countPrefix"], "ListField::DetachedElemLengthPrefixFieldName": ["elemLengthPrefix"],
          "ListField::DetachedLengthPrefixFieldName": ["lengthPrefix"], "ListField::DetachedTermSuffixFieldName": ["termSuffix"],
          "StringField::EncodingStr": ["encoding"], "StringField::HasZeroTermSuffix": ["zeroTermSuffix"],
          "ChecksumLayer::FromLayer": ["from"], "ChecksumLayer::UntilLayer": ["until"], "ChecksumLayer::CustomAlgName": ["algName"],
          "CustomLayer::ChecksumFromLayer": ["checksumFrom"], "CustomLayer::ChecksumUntilLayer": ["checksumUntil"],
          "SyncLayer::FromLayer": ["from"], "ValueLayer::FieldName": ["interfaceFieldName"],
          "VariantField::DefaultMemberIdx": ["defaultMember"], "Schema::Platforms": [], "Interface::Fields": [], "Message::Fields": []}
STRUCT = {"m_value": None, "m_sinceVersion": ["sinceVersion"], "m_deprecatedSince": ["deprecated"], "m_description": ["description"],
          "m_displayName": ["displayName"], "m_idx": ["idx"], "m_defaultValue": ["defaultValue"], "m_reserved": ["reserved"],
          "m_reservedValue": ["reservedValue"]}
SV = {"ParseEnumField::ParseValueInfo": ["val"], "ParseIntField::ParseSpecialValueInfo": ["val"], "ParseFloatField::ParseSpecialValueInfo": ["val"],
      "ParseDataField::ParseValidValueInfo": ["validValue"], "ParseStringField::ParseValidValueInfo": ["validValue"]}
RANGE = {"m_min": ["validRange", "validValue", "validMin"], "m_max": ["validRange", "validValue", "validMax"]}
SKIP = {"Protocol::", "Protocol::Validate", "Protocol::GetMultipleSchemasEnabled", "Field::IsValidInnerRef", "Field::MaxLength",
        "Field::MinLength", "Message::MaxLength", "Message::MinLength", "Field::SchemaPos"}

db = facts.get_db()
A = attrs.get(db)
mk = A.member_keys
acc, st = {}, {}
low = {k.lower(): k for k in A.keys}
for c, n, f, ms in A.accessors:
    name = c[5:] + "::" + re.sub("^parse", "", n)
    if name in SKIP or not f.ret or n == "parse" or name.endswith("::Valid"):
        continue
    ks = set()
    for m in ms:
        ks |= mk.get(m, set())
    if name in MANUAL:
        req = MANUAL[name]
    else:
        b = re.sub("^(Is|Has)", "", name.split("::")[1])
        cand = [b, re.sub("Field$", "", b)]
        req = []
        for x in cand:
            if x.lower() in low and low[x.lower()] in ks:
                req = [low[x.lower()]]
                break
    miss = [k for k in req if k not in ks]
    if miss:
        print("NOT DELIVERED", name, miss)
        req = [k for k in req if k in ks]
    acc[name] = {"keys": req, "members": sorted({c09.norm(m) for m in ms}), "plain": c09.plain(db, A.S, f)}
for m in sorted(mk):
    p = m.replace("commsdsl::parse::", "").rsplit("::", 1)
    if "Info" not in p[0] or "Impl" in p[0]:
        continue
    req = SV.get(p[0]) if p[1] == "m_value" else (RANGE.get(p[1]) or STRUCT.get(p[1]))
    if req:
        miss = [k for k in req if k not in mk[m]]
        if miss:
            print("NOT DELIVERED", m, miss)
        st["::".join(p)] = [k for k in req if k in mk[m]]
json.dump({"accessors": acc, "structs": st}, open(os.path.join(facts.VERIF, "sa/data/accessors.json"), "w"), indent=0, sort_keys=True)
print(len(acc), len(st))
