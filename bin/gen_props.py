#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts live here; run by hand after an edit)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, quant, why, files, mech, over=("inputs",)):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": quant}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})
R, PA, EN = "svd-rs/src/", "svd-parser/src/", "svd-encoder/src/"
prop("C01", "Encoding a device to XML and parsing it back yields the same device",
 "For every valid device description, writing it as SVD XML with the default settings and parsing that XML again succeeds and gives an equal description: no element, attribute, number, text, array or nested item is lost, altered, reordered or invented. A second encoding of the parsed description is byte-identical to the first.",
 "every valid device: every optional part of every element kind present or absent, every value of every 8/32/64-bit number and every enumerated keyword, every identifier and printable text, single items and arrays, nested clusters",
 "Existing tests encode/parse a few hand-written elements; the optional parts and the number ranges multiply beyond what samples reach, and losing one rarely used attribute goes unnoticed.",
 [EN + "device.rs", EN + "peripheral.rs", EN + "cluster.rs", EN + "register.rs", EN + "field.rs", EN + "lib.rs", PA + "device.rs", PA + "peripheral.rs", PA + "register.rs", PA + "field.rs"],
 [("encode", EN + "lib.rs"), ("parse", PA + "lib.rs"), ("per-element Encode impls", EN), ("per-element Parse impls", PA)])
prop("C02", "Parsing never crashes: any document gives a device or an error",
 "For every well-formed XML document, whatever text its elements and attributes hold and whichever of them are missing, repeated, empty or misplaced, parsing returns either a device or an error; it never panics, overflows or recurses without end (memory for as many elements and as much nesting as the document asks for is taken as given). This holds at every validation level and for every combination of parser options.",
 "every text content of every leaf element and attribute (within stated lengths and alphabets) at every validation level and parser option; every known element missing, empty or duplicated",
 "Tests parse valid files; a crash needs one specific malformed or extreme text in one specific element, at one validation level.",
 [PA + "lib.rs", PA + "types.rs", PA + "elementext.rs", PA + "dimelement.rs", PA + "field.rs", PA + "bitrange.rs", PA + "writeconstraint.rs", PA + "array.rs"],
 [("parse_with_config", PA + "lib.rs"), ("ElementExt", PA + "elementext.rs"), ("parse_array", PA + "array.rs")], ("inputs", "configurations"))
prop("C03", "Number texts denote exactly one value; anything else is an error",
 "A number in an SVD file is decimal, 0x/0X hexadecimal, or #/0b binary (don't-care digits counting as zero), and is read as exactly the value it denotes; a text of any other form, or a value that does not fit the 32/64-bit target, is an error and never a silently wrapped or truncated number. Every number written in any of the output notations is read back as the same value.",
 "every 32/64-bit value in every notation and output format; every text of up to 4 free printable characters and longer digit strings around the 32- and 64-bit limits",
 "Tests check a handful of literals; wraparound and prefix mistakes show only at specific digit counts and values.",
 [PA + "types.rs", PA + "elementext.rs", EN + "config.rs", EN + "lib.rs"],
 [("u32/u64 Parse impls", PA + "types.rs"), ("NumberFormat", EN + "config.rs")])
prop("C04", "Every notation of a bit position means the same bits",
 "The range text, the lsb/msb pair and the offset/width pair of the same bits give equal offset, width, lsb and msb, through the library as well as through XML; ranges with msb below lsb or wider than 32-bit arithmetic allows are rejected, not mangled or crashed on. Re-encoding a field in any of the notations keeps its bits.",
 "every pair of 32-bit positions in all three notations and all nine re-encodings; free range texts of up to 4 characters and 10-digit positions",
 "Tests use two or three small ranges; the off-by-one and overflow cases lie at specific positions.",
 [R + "bitrange.rs", PA + "bitrange.rs", EN + "bitrange.rs"],
 [("BitRange", R + "bitrange.rs"), ("Parse for BitRange", PA + "bitrange.rs"), ("encode_bitrange", EN + "bitrange.rs")])
prop("C05", "An array stands for exactly its elements, each with its own name and address",
 "An array of n items expands to exactly n items in index order; item i has the placeholder in its name, description and display name replaced by index i (given, default or named by the index enumeration), address base + i*increment, and everything else unchanged. The derived lists of names, descriptions and addresses agree with the expanded items.",
 "every base address, increment, dim 0..3, placeholder position and explicit/default/enumerated index; for peripherals, clusters, registers and fields",
 "Tests expand one array; wrong addresses or names show only with particular increments, index lists or templates.",
 [R + "array.rs", R + "register.rs", R + "cluster.rs", R + "peripheral.rs", R + "field.rs", R + "dimelement.rs"],
 [("expand", R + "register.rs"), ("names/descriptions", R + "array.rs"), ("indexes", R + "dimelement.rs")])
prop("C06", "Deriving an item fills exactly the unset parts from its source",
 "When an item is derived from another, every part it leaves unset takes the source's value, every part it sets itself (and its identity: name and address or bit position) is kept; names, display names, alternates and addresses are never taken over. A plain item whose name holds an array placeholder becomes an array like its source, any other item keeps being what it is. An item that brings its own registers, fields or enumerated values keeps them.",
 "every presence pattern of the optional parts of derived item and source, with symbolic values; for peripherals, clusters, registers, fields and enumerated values",
 "Tests derive a register or two; there are dozens of parts per kind and each can be forgotten or overwritten independently.",
 [R + "derive_from.rs"],
 [("DeriveFrom impls", R + "derive_from.rs")])
prop("C07", "Expansion yields a flat, self-contained and equivalent device, or an error",
 "Expanding a device removes every array, every derivation reference and every cluster: each becomes plain items carrying the names, offsets and contents that the arrays, clusters and derivations denote, in order. A reference to something that does not exist, circular references and positions beyond the addressable range are errors, never a wrong item, a crash or endless recursion; chains of references resolve through every link.",
 "devices with arrays of peripherals/clusters/registers/fields, nested clusters, derivation at every level including chains, nested targets and full paths, with symbolic offsets, increments and values",
 "Tests contain no expansion of derived items through chains; the result depends on the combination of arrays, nesting and reference form.",
 [PA + "expand.rs"],
 [("expand", PA + "expand.rs"), ("Index::create", PA + "expand.rs"), ("derive_*", PA + "expand.rs")])
prop("C08", "Registers inherit properties from the nearest ancestor that sets them",
 "After property expansion each register's size, access, protection, reset value and reset mask is its own if set, else that of the nearest enclosing cluster, peripheral or device that sets it; nothing else in the device changes. An item that derives from another one, with everything in it, is left as it is for derivation. Applying it twice changes nothing more.",
 "every pattern of which of register, clusters, peripheral and device sets each of the five properties, with symbolic values",
 "Tests check one pattern; there are 2^4 per property and the nearest-ancestor rule breaks only for particular ones.",
 [PA + "expand.rs", R + "registerproperties.rs"],
 [("expand_properties", PA + "expand.rs"), ("RegisterProperties::modify_from", R + "registerproperties.rs")])
prop("C09", "Validation enforces exactly its rules; stricter levels only reject more",
 "Whatever is accepted at a stricter validation level is accepted, with the same result, at every more lenient one; with validation off no rule is applied. At the checking levels a field of width 0, an enumerated value or write range that does not fit its field, an inverted write range (fields narrower than 64 bits), an enumerated value with neither value nor default flag, an empty set of enumerated values, a device without peripherals and a reset value that does not fit the size are reported; the strict level additionally reports an enumerated value with both, more than one value set per direction, empty fields/registers/clusters, a reset mask that does not fit or does not cover the reset value, and bad names. Nothing else is reported, and this holds for building, updating, parsing and whole-device validation alike.",
 "every value/width/range within 64 bits, at all three levels; builders, validation of a whole device and parsing",
 "Tests check single rejected examples; off-by-one limits and level mix-ups need the boundary values at each level.",
 [R + "field.rs", R + "enumeratedvalues.rs", R + "enumeratedvalue.rs", R + "writeconstraint.rs", R + "register.rs", R + "registerproperties.rs", R + "device.rs", R + "peripheral.rs", R + "cluster.rs"],
 [("validate methods", R)], ("inputs", "configurations"))
prop("C10", "Strict name checking follows the documented grammar exactly",
 "At the strict level the names of peripherals, clusters, registers and fields (and alternate registers and references to derived-from items, component by component) must follow the CMSIS-SVD dimable identifier grammar: an identifier with at most one placeholder `%s` or a final `[%s]`, or `%s` alone or in front of an identifier; names of enumerated values, of sets of them and alternate groups must consist of letters, digits and underscores. Every conforming name is accepted and every other one is reported, wherever in the tree it stands. Weaker levels do not check names.",
 "every ASCII name of up to 3 free characters plus longer templates with placeholders and non-ASCII letters, for every item kind and reference",
 "Tests check no names at all; the grammar has to be right for every character in every position.",
 [R + "lib.rs", R + "array.rs", R + "field.rs", R + "register.rs"],
 [("check_name/check_dimable_name", R + "lib.rs")])
prop("C11", "Builders and updates set exactly what was given and keep everything else",
 "An item built from given parts has exactly these parts; a missing required part is an error. Updating an item with a set of parts replaces exactly those, keeps the others, and an update that fails validation is reported.",
 "every part of every element kind given or not, with symbolic values; at every validation level",
 "Tests build items with one fixed set of parts; every part is a separate line that can be dropped or crossed with another.",
 [R + "field.rs", R + "register.rs", R + "cluster.rs", R + "peripheral.rs", R + "device.rs", R + "enumeratedvalues.rs", R + "enumeratedvalue.rs", R + "dimelement.rs", R + "cpu.rs", R + "interrupt.rs", R + "addressblock.rs"],
 [("*Builder::build", R), ("modify_from", R)])
prop("C13", "Keyword texts and their values correspond one to one",
 "Each keyword-valued setting (access, protection, usage, endianness, read action, modified write values, data type, address block usage, booleans) has its own text, which is what is written to XML and what is read back as the same value; any other text is rejected. No two values share a text.",
 "every value of every keyword type; every text of up to 4 free characters and every keyword with any one character changed",
 "Tests cover a few of the about 60 keywords; a swapped or misspelt keyword breaks only files using it.",
 [R + "access.rs", R + "protection.rs", R + "usage.rs", R + "endian.rs", R + "readaction.rs", R + "modifiedwritevalues.rs", R + "datatype.rs", R + "cpu.rs", R + "addressblock.rs"],
 [("as_str/parse_str", R), ("Parse/Encode impls", PA)])
prop("C14", "Sorting options reorder the output and change nothing else",
 "With a sorting option for the peripherals of a device, the registers and clusters of a peripheral or the fields of a register, the encoded document holds exactly the same items with the same contents as without, ordered as the option says (by offset ascending or descending, by name, derived items last, registers or clusters first), items that compare equal keeping their original order. This holds for every 32/64-bit offset.",
 "three siblings of every kind with symbolic offsets over the full range and symbolic names, under every sorting option and combination",
 "Tests do not exercise sorting; sign and overflow mistakes only show for large offsets.",
 [EN + "config.rs", EN + "device.rs", EN + "peripheral.rs", EN + "register.rs", EN + "cluster.rs", EN + "registercluster.rs"],
 [("Sorting", EN + "config.rs"), ("sort in Encode impls", EN)], ("inputs", "configurations"))
prop("C15", "Bit masks are the union of the bits the fields cover",
 "The bit mask of a field, a field array or a register has a bit set exactly when some field (or some element of the array) covers that position. Fields that overlap or touch are counted once.",
 "every offset and width within 64 bits, arrays of up to 3 elements with any increment, registers with up to 3 fields or a field plus an array, every bit position",
 "Tests check no masks; widths of 0, 1 or 64 bits, gaps and overlaps matter individually.",
 [R + "field.rs", R + "field.rs", R + "register.rs"],
 [("bitmask", R + "field.rs")])
prop("C16", "Iteration visits every item exactly once, in document order",
 "Iterating over a peripheral's or cluster's registers, clusters, all contained registers or fields visits each matching item exactly once, in document order, at every nesting depth, and the mutable and name-lookup forms agree with the plain ones (a lookup by name finds the first item of that name, a lookup of value sets by usage the first set of that usage). Nothing outside the container is visited.",
 "every tree of registers and clusters up to depth 3 and 2-3 children per node (shape chosen symbolically)",
 "Tests walk one fixed tree; skipping or repeating depends on the shape (empty, adjacent or trailing clusters).",
 [R + "register.rs", R + "cluster.rs", R + "registercluster.rs", R + "peripheral.rs", R + "cluster.rs", R + "peripheral.rs"],
 [("AllRegistersIter", R + "peripheral.rs"), ("RegisterIter/ClusterIter", R + "registercluster.rs")])
prop("C17", "Array index texts denote exactly the listed indexes",
 "A dimension index text is a numeric range, a letter range or a comma-separated list, and denotes exactly these indexes in this order; reversed or malformed ranges are errors. Without an explicit text the indexes are 0..n-1, and a contiguous ascending numeric list is recognised as, and only as, the range it is.",
 "ranges over all one- to three-digit bounds and around the 32-bit limits, all letter pairs, lists of symbolic entries, malformed texts",
 "Tests check three index strings; the bounds and separators have many corner cases.",
 [R + "dimelement.rs", PA + "dimelement.rs", EN + "dimelement.rs"],
 [("DimElement::parse_indexes", R + "dimelement.rs"), ("indexes_as_range", R + "dimelement.rs")])
prop("C18", "Serialising any description to a data format and back gives it unchanged",
 "Any item of a device description that is serialised through the library's data-format support and deserialised again equals the original, with every part, keyword, number, array and nesting intact (the XML header attributes, schema version and location, are not part of it). Input that lacks a required part or holds a part of the wrong form, an unknown keyword or a number that does not fit is an error rather than a crash or a silently different item.",
 "every optional part of every element kind present or absent with symbolic values; arrays with and without explicit indexes",
 "No test serialises descriptions; renamed, flattened or skipped parts get lost only for particular presence patterns.",
 [R + "bitrange.rs", R + "array.rs", R + "dimelement.rs", R + "device.rs", R + "register.rs", R + "field.rs", R + "cpu.rs"],
 [("serde impls", R)])
prop("C19", "Case conversion keeps placeholders and does nothing when off",
 "A configured name case changes only letter case and word separators of the names it applies to; array placeholders survive in every name, a name already in the chosen case stays as it is, and a reference by name or dotted path is renamed like the items on its path, so that the output still refers to the same item. With no case configured names are written unchanged.",
 "names of symbolic letters, digits and underscores with and without placeholders, each item kind, each case option",
 "Tests do not set a case option; placeholder and reference handling depend on the position and kind of name.",
 [EN + "config.rs", EN + "lib.rs"],
 [("change_case", EN + "config.rs"), ("name_cases in Encode impls", EN)], ("inputs", "configurations"))
prop("C20", "Parser options and structural rules act exactly as documented",
 "Ignoring enumerated values drops exactly the enumerated values and write constraints of fields; expanding or not gives the same device as doing so separately; an array needs a placeholder in its name and as many index entries as elements, a missing mandatory element is an error and an optional one is not. Errors name the position of the offending element.",
 "every element of a full document removed in turn, every option combination, symbolic index counts and names",
 "Tests cover the default options and a few missing elements; each rule sits at its own element.",
 [PA + "lib.rs", PA + "array.rs", PA + "dimelement.rs", PA + "elementext.rs", PA + "field.rs"],
 [("Config", PA + "lib.rs"), ("parse_array", PA + "array.rs"), ("SVDError", PA + "lib.rs")], ("inputs", "configurations"))
prop("C21", "Element paths print, parse and compare consistently",
 "The text of a path to a peripheral, cluster, register, field or enumeration parses back to the same path, and comparing a path with a text is true exactly when the text is the path's own text. Parent and child operations undo each other.",
 "paths with 1-4 components of symbolic characters, compared with symbolic texts including prefixes, extensions and shifted separators",
 "No test compares paths; wrong answers need texts that are prefixes or extensions of each other.",
 [PA + "expand.rs"],
 [("BlockPath/RegisterPath/FieldPath/EnumPath", PA + "expand.rs")])
prop("C23", "Encoder settings take effect under their own key and only there",
 "Setting an encoder option by its textual key and value changes exactly that option: the next encoding shows the chosen number format, bit-range notation, name case or order for the elements it concerns and for nothing else. An invalid value is refused (update panics, as documented in its code) and an unknown key changes nothing.",
 "every option key with every documented value, on a device whose numbers are symbolic",
 "Tests set the options in code, never through their textual keys; a crossed key changes another element's output.",
 [EN + "config.rs", EN + "lib.rs"],
 [("Config::update", EN + "config.rs")], ("inputs", "configurations"))

checks = json.load(open(V + "/checks.json"))
NA = {}
ids = [p["id"] for p in P]
with open(V + "/properties.jsonl", "w") as o:
    for p in P: o.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "mkdir -p .work && make -s -j8 -C engine OUT=build",
     "checks": [{"property": i, "quick_cmd": f"python3 bin/check.py {i} quick", "thorough_cmd": f"python3 bin/check.py {i} thorough",
                 "technique": "symbolic execution of the whole-program LLVM IR compiled from /repo (own executor, engine/), every branch and assertion decided by Z3; counterexamples replayed natively",
                 "level": "model_checking", "level_note": checks[i]["note"]} for i in ids if i in checks],
     "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in checks]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
