#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": m[0], "where": m[1]} for m in mech],
                          "observe_at": observe or [], "hook_needed": None}})

prop("C01", "A failed or rejected step makes the whole operation fail",
     "Whenever any step of parsing a schema, preparing it for generation, or writing output fails or reports an error, the operation that step belongs to also fails, all the way up to the public parse/validate calls and the generator's exit status. No failing step is ignored, and no operation that has emitted an error diagnostic goes on to report success.",
     ["inputs", "fault_sequences", "configurations"],
     "every schema, every option set and every fallible step (parse, lookup, conversion, directory creation, file write), at every level of nesting, in the library and in all seven generators",
     "Tests feed a few hundred schemas and check the verdict; each drives at most one failing step, and generator tests only see runs in which nothing fails.",
     ["lib/src/parse", "lib/src/gen", "app"],
     [("bool results chained with && or tested with early return", "lib/src/parse/ParseFieldImpl.cpp, lib/src/parse/ParseMessageImpl.cpp, lib/src/gen/GenGenerator.cpp, app/*/src/*Generator.cpp")],
     observe=["commsdsl::parse::ParseProtocol::parse / parseValidate", "exit status of commsdsl2*"])

prop("C02", "A rejected schema always comes with an error diagnostic",
     "Whenever the schema parser rejects an input (parsing or validation of a schema, namespace, field, message, interface, frame, layer or condition fails), it has emitted at least one error-level diagnostic on the way to the rejection. There is no silent rejection and no rejection announced only as a warning.",
     ["inputs"],
     "every input document for which parsing or validation returns failure, and every path to that failure",
     "Tests count errors for a few dozen invalid schemas; the parser has over a thousand rejecting paths and most are never driven.",
     ["lib/src/parse"],
     [("parseLogError() before every return false", "lib/src/parse/*Impl.cpp, lib/src/parse/ParseXmlWrap.cpp")],
     observe=["error reporting callback of ParseProtocol"])

prop("C03", "Malformed numbers, booleans and units are rejected, never read as 0",
     "Every conversion of schema or command-line text into a number, boolean or unit has its success indicator examined before the converted value takes effect, and a failed conversion leads to rejection or to an alternative interpretation, never to silent use of a default value. The conversions themselves report failure for text that is not wholly a literal of the requested type or does not fit in it.",
     ["inputs"],
     "every attribute or option value text, at every place where it is converted",
     "Tests pass well-formed numbers plus a handful of malformed ones, at a small part of the conversion sites.",
     ["lib/src/parse/parse_common.cpp", "lib/src/parse", "lib/src/gen", "app"],
     [("bool* ok out-parameter of parseStrTo* helpers", "lib/src/parse/parse_common.h"), ("tests of ok at call sites", "lib/src/parse/*Impl.cpp")])

prop("C04", "Failed lookups are never dereferenced",
     "The result of every lookup that can come back empty (map or list search, search for a referenced field, message or interface, access to the parent element, values handed out by the XML library, optional pointer members) is checked before it is dereferenced, and the first or last element of a list is accessed only where the list is known not to be empty. So no schema, however its references dangle or its parts are left out or empty, makes the tools read through an end iterator or null pointer or into an empty list.",
     ["inputs"],
     "every schema document and option set, at every lookup in the parser, the generation library and the generators",
     "A missing check is only visible for the input whose lookup fails; test schemas make nearly every lookup succeed.",
     ["lib/src/parse", "lib/src/gen", "app"],
     [("comparison with end() / nullptr dominating the dereference", "throughout"), ("null handling of libxml2 strings", "lib/src/parse/ParseXmlWrap.cpp")])

prop("C05", "Every recognised schema property takes effect, every used one is recognised",
     "For each kind of schema element, the properties the parser declares as recognised are exactly the ones it reads: a recognised property is always consumed (so it is never silently ignored), and each property that is consumed is declared (so it works both as an attribute and as a child element and is never reported as unknown).",
     ["inputs", "configurations"],
     "every element kind and every property name, in attribute and in child-element form",
     "Tests use a property mostly in one form on one kind of element; there are some 15 field kinds, 7 layer kinds, messages, interfaces, frames and aliases with dozens of properties each.",
     ["lib/src/parse"],
     [("parseCommonProps / parseExtraPropsNamesImpl / parseExtraPossiblePropsNamesImpl / parseExtraChildrenNamesImpl lists", "lib/src/parse/*Impl.cpp")])

prop("C06", "Features take effect only from the DSL version that introduced them",
     "A property or construct that a later DSL version introduced (or removed) takes effect only when the schema's declared DSL version supports it, with the version thresholds of the CommsDSL specification; otherwise it is reported and ignored or rejected. Undeclared DSL version (0) enables everything.",
     ["inputs", "configurations"],
     "every version-gated property and construct, for every declared dslVersion",
     "Tests exercise few (feature, dslVersion) pairs around a boundary.",
     ["lib/src/parse/ParseProtocolImpl.cpp", "lib/src/parse"],
     [("parseIsPropertySupported version table, parseIs*Supported predicates", "lib/src/parse/ParseProtocolImpl.cpp"), ("gate test before use", "lib/src/parse/*Impl.cpp")])

prop("C07", "Kind and value tables match their enumerations entry by entry",
     "Wherever the text of a schema is mapped to a kind or an enumerated value (field, layer and condition kinds, numeric types, endian, units, senders, layer algorithms, semantic types and so on) or such a value is mapped back to text, to an object, or to a handler, every enumeration member has exactly its own entry and no entry is swapped, missing or duplicated. The element named X therefore always yields an object of kind X, also in every generator.",
     ["inputs", "configurations"],
     "every member of every enumeration, in every table indexed by or mapping to it, in the parser and in all seven generators",
     "Tests name only some of the values and none compares generated output; an exchanged pair of entries only shows for these two values.",
     ["lib/src/parse", "lib/src/gen", "app"],
     [("creation maps", "lib/src/parse/ParseFieldImpl.cpp, lib/src/parse/ParseLayerImpl.cpp"), ("name tables with static_assert on size", "lib/src/parse/parse_common.cpp, lib/src/parse/*Impl.cpp"), ("factories", "lib/src/gen/GenField.cpp, app/*/src/*Generator.cpp")])

prop("C08", "Reusing or copying an element transfers its complete definition",
     "When an element is defined by reusing or copying another one (fields of every kind with their nested members, messages, interfaces, their fields and aliases, and conditions), every part of the original definition is carried over, except what the new definition overrides; the code-override policy and, for messages and interfaces, unknown extra attributes and elements stay the element's own. The reused definition is taken over before the new one is applied, and a property that is not given leaves the taken-over value alone. The copy owns its nested elements: none of them is shared with the original.",
     ["inputs", "histories"],
     "every element kind, every attribute and nested element of the reused definition, and chains of reuse",
     "Tests reuse a few kinds and look at a few attributes; a forgotten member of the state needs exactly that attribute on the original.",
     ["lib/src/parse"],
     [("parseReuseImpl / parseCloneImpl / parseReuseState", "lib/src/parse/*Impl.cpp")])

prop("C09", "Public accessors return the attribute they are named after",
     "Each accessor of the public parse API returns the attribute of the underlying element that its name states, and nothing else: no accessor returns another element's attribute, a constant, or an attribute of the same type but other meaning.",
     ["inputs"],
     "every public accessor and every schema element behind it",
     "Many attributes share a type and a default, so the wrong one goes unnoticed unless both are set and compared; most accessors are never called by the tests.",
     ["lib/src/parse/Parse*.cpp", "lib/include/commsdsl/parse"],
     [("wrappers forwarding to the *Impl classes", "lib/src/parse/Parse*.cpp")])

prop("C10", "Names stay unique and elements are registered only when complete",
     "An element (field, message, interface, frame, platform, enumerator, bit, special value, alias, member) is entered in the registry or list that others look it up in only after it has been parsed completely, and only after a check that its name (and where required its value or numeric id) is not yet taken; a collision is rejected and the earlier definition is never overwritten. Consequently references can only point to earlier, complete definitions and never form a cycle.",
     ["inputs", "histories"],
     "every registry and every order of definitions in the schema files",
     "Tests cover the most obvious duplicate cases only and no partially constructed or self-referencing definition.",
     ["lib/src/parse/ParseNamespaceImpl.cpp", "lib/src/parse/ParseProtocolImpl.cpp", "lib/src/parse"],
     [("find-then-insert after parse()", "lib/src/parse/ParseNamespaceImpl.cpp"), ("parseVerifySiblings / name sets", "lib/src/parse/ParseFieldImpl.cpp, lib/src/parse/ParseEnumFieldImpl.cpp, ...")])

prop("C11", "Version attributes are validated for every versioned element",
     "For every element that may carry 'sinceVersion', 'deprecated' or 'removed' (fields, messages, enum values, set bits, special values), these attributes are validated against the enclosing element's versions and the schema version before the element is accepted, and the validated values are the ones recorded.",
     ["inputs"],
     "every versioned element kind and every combination of version attributes",
     "Tests combine a few version values on fields and messages.",
     ["lib/src/parse/ParseXmlWrap.cpp", "lib/src/parse"],
     [("parseGetAndCheckVersions / parseCheckVersions", "lib/src/parse/ParseXmlWrap.cpp")])

prop("C12", "No generated file is reported as written unless it was",
     "A generator reports success for an output file only if the file was opened, the complete contents was handed to it, and the stream was still good after flushing; the directory it lives in is created (successfully) beforehand. Any open, write, flush, copy or directory-creation failure makes the run fail.",
     ["fault_sequences", "configurations"],
     "every file any generator writes or copies and every point at which the file system may refuse (missing permission, full disk, path taken)",
     "Tests run on a healthy file system only, so no failure branch is ever taken.",
     ["lib/src/gen/GenGenerator.cpp", "app"],
     [("ofstream open test, flush and good() test, genCreateDirectory result", "app/*/src/*.cpp")])

prop("C13", "Generators write only below the chosen output directory",
     "Every path a generator creates, writes or copies to is formed from the configured output directory followed by a relative path; no write goes to the current directory, the input or code-injection directories or an absolute path of another origin. Inputs (schemas, injected code) are never modified.",
     ["inputs", "configurations"],
     "every option set and every schema, at every place where the file system is modified",
     "Tests only look at the exit status of runs with one layout of directories.",
     ["lib/src/gen", "app"],
     [("genGetOutputDir() prefix and comms::gen*Path helpers", "lib/src/gen/GenGenerator.cpp, lib/src/gen/comms.cpp")])

prop("C14", "Every template placeholder is filled and every prepared value is used",
     "For every text template a generator expands, each placeholder of the template is given a value by the code that expands it, and each value that code prepares has a place in the template it expands (or is used otherwise); leftovers that carry no content of their own are listed with the reason. Text that is built up is read, the result of an expansion is used, and a template whose last line is an optional part ends that line, so that leaving the part out does not abort the run. No generated file therefore silently lacks a part its generator has computed.",
     ["inputs", "configurations"],
     "every template expansion in all generators, for every schema",
     "An unfilled placeholder silently becomes an empty string and the tests never look at the generated text.",
     ["lib/src/gen/util.cpp", "app"],
     [("genProcessTemplate with GenReplacementMap", "lib/src/gen/util.cpp"), ("templates and replacement maps", "app/*/src/*.cpp")])

prop("C15", "Generated output is a function of schema, options and injected code only",
     "Nothing that differs between two runs on the same inputs (addresses, hash order, time, random numbers, process id, environment, locale, directory enumeration order) influences the generated files or their order. Running a generator twice gives identical output.",
     ["inputs", "configurations"],
     "every schema and option set, any two runs",
     "Tests run each generator once per schema and do not compare outputs.",
     ["lib/src/parse", "lib/src/gen", "app"],
     [("ordered containers keyed by name or id, sorts by semantic keys", "throughout")])

prop("C16", "No decision is taken on an uninitialised value",
     "Every scalar (number, flag, enumeration, pointer) member of the parser's and generators' objects and every scalar local has a defined value before it is read, so behaviour never depends on leftover memory.",
     ["inputs", "histories"],
     "every object constructed on every path, whichever attributes the schema leaves out",
     "Fresh memory is often zero in short test runs, and only attributes left out by the schema would expose the gap.",
     ["lib/src/parse", "lib/src/gen", "lib/include/commsdsl", "app"],
     [("in-class initialisers and constructor initialisers", "lib/src/parse/*.h, lib/include/commsdsl, app/*/src/*.h")])

prop("C17", "An element is treated as a specific kind only when it is of that kind",
     "An element is accessed through the interface of a specific kind (integer field, bundle, set, namespace, message and so on) only where its kind has been established to be that very kind. No schema can make the tools interpret an element of one kind as another.",
     ["inputs"],
     "every conversion from a general element to a specific kind, for every element that may be referenced there",
     "A missing or wrong kind test is harmless until a schema references an element of the other kind in that place.",
     ["lib/src/parse", "lib/src/gen", "app"],
     [("parseKind()/genParseObj().parseKind() comparisons before static_cast", "throughout")])

prop("C18", "XML library memory is owned and released exactly once",
     "Every string or document obtained from the XML library that the caller must free is put under automatic ownership at once (or freed on every path), and with the deallocator that belongs to it; nothing is freed twice or used after being freed.",
     ["inputs", "fault_sequences"],
     "every document, including ones rejected midway",
     "Leaks and double frees on rejecting paths do not change any verdict the tests look at.",
     ["lib/src/parse/ParseXmlWrap.cpp", "lib/src/parse/ParseProtocolImpl.cpp"],
     [("ParseXmlWrap::StringPtr / ParseXmlDocPtr", "lib/src/parse/ParseXmlWrap.h, lib/src/parse/ParseProtocolImpl.h")])

prop("C19", "Exit status tells success, also for warnings treated as errors",
     "A generator exits with status zero only if every phase succeeded and, when warnings are to be treated as errors, no warning was issued in any phase of the run; an exception anywhere ends in a non-zero exit status and a message.",
     ["inputs", "configurations", "fault_sequences"],
     "every run of every generator, every phase in which a warning, error or exception can arise",
     "The tests run all generators with warnings as errors on schemas that give no warnings at all.",
     ["lib/src/gen/GenGenerator.cpp", "lib/src/gen/GenLogger.cpp", "app/*/src/main.cpp"],
     [("genHadWarning tests", "lib/src/gen/GenGenerator.cpp, lib/src/gen/GenLogger.cpp"), ("catch in main", "app/*/src/main.cpp")])

prop("C20", "Code-injection snippets are consumed, not copied to the output",
     "For each generator, every file-name suffix under which it looks up custom code snippets is among the suffixes it excludes when copying the user's extra sources, only suffixes that are looked up are excluded, and an excluded file is never copied. A snippet is therefore always merged into generated code and never additionally copied verbatim into the output tree.",
     ["configurations", "inputs"],
     "every generator and every kind of injected snippet",
     "No test supplies injected code for most suffixes nor inspects the output tree.",
     ["lib/src/gen/strings.cpp", "app/*/src/*Generator.cpp", "app"],
     [("reserved extension list given to genCopyExtraSourceFiles", "app/*/src/*Generator.cpp"), ("genReadCodeInjectCode call sites", "app/*/src/*.cpp")])

prop("C21", "Every command-line option that is offered takes effect",
     "Each option a generator registers on its command line is queried under exactly its registered name (long name) and kind, and its value reaches the generator's configuration; each queried name is a registered one. No offered option is silently ignored and no queried option can never be given.",
     ["configurations"],
     "every generator and every option, alone or combined",
     "Tests use half a dozen options; misspelt or unconnected ones are simply never seen.",
     ["lib/src/gen/GenProgramOptions.cpp", "app/*/src/*ProgramOptions.cpp", "app/*/src/*Generator.cpp"],
     [("option registration and queries by name", "app/*/src/*ProgramOptions.cpp"), ("genProcessOptionsImpl", "app/*/src/*Generator.cpp")])

prop("C22", "Free text from the schema cannot break the LaTeX document",
     "Every name, display name, description, unit or other free text taken from the schema is escaped for LaTeX exactly once before it becomes part of the generated document, and the escaping covers every LaTeX-special character wherever it occurs in the text.",
     ["inputs"],
     "every free text of every schema, at every place where the LaTeX generator emits it",
     "Test schemas contain hardly any LaTeX-special characters and the produced document is not typeset.",
     ["app/commsdsl2latex/src"],
     [("LatexGenerator::latexEscString / latexEscDisplayName", "app/commsdsl2latex/src/LatexGenerator.cpp")])

prop("C23", "Length computations saturate instead of wrapping around",
     "Minimal and maximal serialisation lengths (and offsets derived from them) are combined only by operations that saturate at 'unlimited': adding to or multiplying an unlimited or huge length never wraps to a small number, no factor makes the computation fault, and no length is truncated to a narrower type. The reported maximal length of an element is never smaller than its minimal one because of overflow.",
     ["inputs"],
     "every nesting of fields, list counts and prefix values",
     "Overflow needs lengths near 2^64, which unlimited-length fields produce only in particular combinations.",
     ["lib/src/parse/parse_common.cpp", "lib/src/parse/*FieldImpl.cpp"],
     [("parseAddToLength / parseMulLength / parseMaxPossibleLength", "lib/src/parse/parse_common.cpp")])

prop("C24", "Processing always terminates",
     "Every loop makes progress on each iteration towards its exit condition, whatever the input text or schema structure, and every recursion descends to a strictly smaller element. No input makes the parser or a generator run forever.",
     ["inputs"],
     "every loop and recursion and every input text or schema structure",
     "Non-termination needs the one input for which an iteration advances nothing (empty token, missing separator, trailing blank).",
     ["lib/src/parse", "lib/src/gen", "app"],
     [("index or iterator advanced on every path of the loop", "throughout")])

prop("C25", "Everything a generator knows how to emit is reachable and emitted",
     "Every preparation step, element writer and template of each generator is reachable from its entry point through the element tree, and each composite element prepares and writes all of its child elements. A list of child elements is gone through from its first to its last element, an element being left out of an output only because it is not referenced, does not exist in the selected version or has nothing to contribute there. No kind of output is silently dropped from a run that reports success.",
     ["inputs", "configurations"],
     "every generator, every element kind and every writer function",
     "Tests check exit status only, so an output that is no longer produced goes unnoticed.",
     ["lib/src/gen", "app"],
     [("genWriteImpl / genPrepareImpl chains", "app/*/src/*.cpp"), ("traversal of children", "lib/src/gen/GenNamespace.cpp, lib/src/gen/GenSchema.cpp")])

prop("C26", "Text from the schema cannot break out of generated string literals",
     "Free text of the schema (display names, descriptions, default and valid values of strings, texts that conditions compare with) that a generator places between quotes in a generated source, build or configuration file has its quotes, backslashes and line ends escaped first, so that it neither ends the literal nor changes its value. (The LaTeX document: C22. Comments of the generated code, and code-injection snippets, are not meant.)",
     ["inputs"],
     "every free text of every schema, at every place where a generator emits it inside quotes",
     "Test schemas have no quotes or backslashes in display names and generated code is not compiled.",
     ["app", "lib/src/gen/util.cpp"],
     [("replacement values placed between quotes in templates", "app/*/src/*.cpp")])

prop("C27", "Named values of other protocol versions are not emitted",
     "An element exists in the generated protocol exactly when it was introduced not later than the selected schema version and, where removal applies, was not deprecated at or before the minimal remote version; an element is optional exactly when it was introduced after the minimal remote version or is removed by deprecation. When an enumerator or a special value of a field does not exist, no generator emits it as a named constant or a binding, and no generated table or function refers to it by name. The generated document lists only values and valid ranges that exist.",
     ["inputs", "configurations"],
     "every enumerator and special value, every generator, every forced schema version and minimal remote version",
     "Tests force a schema version for few schemas and do not look at the result.",
     ["lib/src/gen", "app"],
     [("existence test", "lib/src/gen/GenSchema.cpp genDoesElementExist"), ("emission of enumerators", "app/*/src/*EnumField.cpp"), ("special values", "lib/src/gen/GenIntField.cpp, lib/src/gen/GenFloatField.cpp")])

prop("C28", "Generated protocol code round-trips every message",
     "For every valid schema the generated code compiles, and reading back what it wrote yields the same message.",
     ["programs", "inputs"], "every schema and every message value",
     "Neither compiling nor running generated code is part of the tests.",
     ["app/commsdsl2comms/src", "app/commsdsl2c/src"], [("generated COMMS definitions", "app/commsdsl2comms/src")])

prop("C29", "Numeric range reasoning about field values is exact",
     "Valid ranges, special values and defaults are accepted exactly when they lie within the range of the field's type, and merged ranges accept exactly the union of the given ones.",
     ["inputs"], "every 64-bit boundary combination of type, length, range and value",
     "Tests sample a few ranges far from the 64-bit boundaries.",
     ["lib/src/parse/ParseIntFieldImpl.cpp", "lib/src/parse/ParseEnumFieldImpl.cpp"], [("range computation and merging", "lib/src/parse/ParseIntFieldImpl.cpp")])

prop("C30", "No internal assertion can be triggered by an input",
     "No schema document or option set makes an internal assertion of the library or the generators fail.",
     ["inputs"], "every schema document and option set", "Assertions are only evaluated for the sampled schemas.",
     ["lib/src/parse", "lib/src/gen", "app"], [("assert statements", "throughout")])

prop("C31", "Only identifiers are accepted as names",
     "Every name the schema gives to something (schema, namespace, field, message, interface, frame, layer, alias, platform, enumerator, bit, special value, custom checksum algorithm) is accepted only after it has been checked to be an identifier: letters, digits and underscores, not starting with a digit. Names become parts of class names, scopes and file paths, so that no other text can break the generated code or make a file be written outside the output directory.",
     ["inputs"],
     "every kind of named element and every name text",
     "Tests try a wrong name for a few kinds of elements only.",
     ["lib/src/parse/parse_common.cpp", "lib/src/parse/Parse*Impl.cpp"],
     [("parseIsValidName", "lib/src/parse/parse_common.cpp"), ("parseUpdateName / reading of the name property", "lib/src/parse/Parse*Impl.cpp")])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
