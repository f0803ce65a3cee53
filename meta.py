#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand when a property is added)."""
import json

B, J, R, T = "src/serde_bin.rs", "src/serde_json.rs", "src/serde_ron.rs", "src/toml.rs"
DB, DJ, DR, DP = "derive/src/serde_bin.rs", "derive/src/serde_json.rs", "derive/src/serde_ron.rs", "derive/src/parse.rs"
PS = []


def p(pid, title, statement, over, why, files, mech, level_note="", na=None):
    PS.append(dict(id=pid, title=title, statement=statement, over=over, why=why, files=files, mech=mech, note=level_note, na=na))


p("B01", "Binary round trip", "Every value of a supported type, serialised to the binary format and deserialised as the same type, comes back equal, and decoding consumes exactly the bytes that encoding produced. This covers primitives, strings, collections, tuples, arrays, options, boxes, times and derived structs, enums and generics, including skipped and proxied fields.",
  "all values of each type, up to the listed collection lengths", "the tests encode a few dozen hand-written values; the claim is over every bit pattern of every field", [B, DB], [("impl SerBin/DeBin", B), ("derived ser_bin/de_bin", DB)])
p("B02", "Binary wire layout", "The bytes produced for a value are the documented layout: little-endian fixed-width primitives, 64-bit lengths, one tag byte per option, the zero-based variant index as 16 bits, fields in declaration order with skipped fields absent. Bytes laid out that way by any other writer decode to the same value.",
  "all values of each type, up to the listed collection lengths", "tests only ever decode what the same build encoded, so a symmetric change of the layout passes them while breaking every stored file and peer", [B, DB], [("impl SerBin/DeBin", B), ("variant index and field order of the derive", DB)])
p("B03", "Binary decoding is total", "Decoding any byte string as any supported type terminates with a value or an error: no panic, overflow, hang, out-of-bounds access or uninitialised read. Memory used while decoding is bounded by the size of the input, whatever lengths the input claims (sequences of elements that occupy no bytes excepted), and a reported error position lies within the input.",
  "all inputs of the listed lengths for each type", "tests feed a handful of truncated buffers; hostile length fields and tags are combinations of 64-bit values", [B, DB], [("bounds checks in de_bin", B), ("array guard", B)])
p("B04", "No strict prefix of an encoding decodes", "If the encoding of a value is cut anywhere before its end, decoding fails with an error instead of returning a value. The reported position does not exceed the length of what was given.",
  "all values, all cut points", "tests cut two or three encodings at one place", [B, DB], [("length checks in de_bin", B)])
p("B05", "Binary values are self-delimiting", "Encoding appends to a buffer without touching what is there, and decoding at an offset leaves the offset exactly behind the value, so values written one after another are read back one after another. Decoding at an offset is the same as decoding the rest of the buffer alone.",
  "all values at offsets 0-3 between arbitrary bytes, and arbitrary input at offsets 0-2", "tests decode whole buffers from offset 0 only", [B, DB], [("offset argument of de_bin", B), ("buffer argument of ser_bin", B)])
p("B06", "Binary rejections are exact and reported faithfully", "A primitive is rejected exactly when too few bytes are left, and the error carries the position, the bytes needed and the bytes there are. The same goes for the tag, length field or first part a compound type begins with, and for a string longer than what is left. Strings are accepted exactly when the length fits and the bytes are UTF-8; unknown variant numbers are reported with their number; times out of range are rejected, never wrapped or panicking.",
  "every length field, discriminant, duration and short input", "tests check one error of each kind", [B, DB], [("DeBinErr and its reasons", B), ("unknown discriminant arm of the derive", DB)])
p("J01", "JSON round trip", "Every value of a supported type, serialised to JSON and parsed as the same type, comes back equal (floats excepted, see J04). This includes every field attribute: rename, default, skip, proxy, transparent, null-for-none and omitted options.",
  "all values of each type, up to the listed string and collection lengths", "tests round-trip a few literals; string escapes, integer extremes and presence patterns of options are combinatorial", [J, DJ], [("SerJson/DeJson impls", J), ("derived impls", DJ)])
p("J02", "JSON output is standard JSON with the right content", "The text produced for any value without NaN or infinities is one RFC 8259 JSON text, which an independent reader turns into exactly the value intended: member names, order-free members, escapes, omitted and null options, enum representation.",
  "all values of each type, up to the listed string and collection lengths", "the tests read output back with the crate's own tolerant parser, so malformed output it tolerates goes unnoticed", [J, DJ], [("SerJsonState and SerJson impls", J), ("comma and member logic of the derive", DJ)])
p("J03", "JSON integers are exact or rejected", "A decimal integer literal read as an integer type gives exactly its mathematical value when that is within the type's range and is an error otherwise; it never wraps, truncates or saturates. This holds in every position (bare, element, member, map value), and literals with a fraction or exponent are errors.",
  "every literal of up to 22 digits for nine integer types", "tests have a few small literals; the boundaries of 64-bit accumulation are at 19 and 20 digits", [J], [("number tokenizer", J), ("range checks of DeJson for integers", J)])
p("J04", "JSON floats are the nearest value of the literal", "A number literal read as f64 or f32 is the value the standard library's correctly rounding parser gives for that literal, whatever its length, sign, fraction and exponent form, and number syntax without digits is an error. Float output is number syntax that reads back to the same bits.",
  "every literal of the listed digit counts; listed values for output", "tests have about ten literals", [J], [("number tokenizer, f64/f32 impls", J)])
p("J05", "A JSON string means the same however it is spelled", "A string literal denotes the same text whether each character is written raw, with a short escape, with \\u escapes in either case, or as a surrogate pair, in values, elements, map keys and member names alike. Lone or mispaired surrogates, bad hexadecimal digits and unterminated literals are errors.",
  "every spelling of every code point, mixed in short strings", "tests spell a few characters", [J], [("string tokenizer, escapes and surrogates", J)])
p("J06", "JSON parsing is total", "Parsing any text as any supported type terminates with a value or an error: no panic, overflow, hang, invalid UTF-8 or memory error. Memory is bounded by the length of the text, and error positions lie within it.",
  "all UTF-8 texts of the listed lengths, alone and inside document templates", "tests have a few malformed documents", [J, DJ], [("tokenizer and skipping of unknown members", J), ("derived parsers", DJ)])
p("J07", "JSON struct members are matched by name", "Members may come in any order; unknown members are ignored whatever their value contains; a missing required member is an error, a missing optional or defaulted one gives none or its default, a repeated one keeps the last. Renamed members match only their new name and skipped fields are never read.",
  "all orders, subsets and unknown values within the bounds", "tests have one document per attribute", [J, DJ], [("member loop of the derive", DJ), ("whole_field / ignore_value", J)])
p("J08", "JSON trivia between tokens changes nothing", "White space, line comments and block comments, whatever they contain, may stand between any two tokens of a document, before and after it, without changing the parsed value. This includes values that are skipped.",
  "arbitrary trivia at every token boundary of 18 documents", "tests put one comment in one document", [J], [("comment and white space handling of the tokenizer", J)])
p("J09", "JSON parsing agrees with an independent reading", "A text that is standard JSON for a value of the type is accepted with that value. For types without ignored content, a text the parser accepts denotes that very value under the documented grammar (JSON plus comments, trailing commas, leading zeros, plus signs); nothing else is accepted.",
  "all UTF-8 texts of the listed lengths for 35 types and inside 54 templates", "tests sample accepted documents and hardly any rejected ones", [J, DJ], [("tokenizer", J), ("DeJson impls", J), ("derived parsers", DJ)])
p("J10", "A JSON enum value is one variant with its own payload", "An enum accepts exactly a string naming a unit variant, or an object whose single member is a variant with a payload of that variant's shape; any other name, shape, arity or extra member is an error. Renamed variants and variant fields match only their new names.",
  "every listed name and near miss against every payload shape", "tests have one document per variant", [J, DJ], [("derived enum parser", DJ)])
exec(open("meta2.py").read()) if __import__("os").path.exists("meta2.py") else None

NA = [
    ("N01", "Float text is shortest and round-trips for all floats", "Every finite f64 and f32 written as JSON or RON reads back to the same bits.", "the digits come from the standard library's shortest-float printer (128-bit arithmetic and big integers over all 2^64 values): not encodable within reach, and not code of this repository; listed values are checked in J04 and R02"),
    ("N02", "Deeply nested input does not overflow the stack", "Parsing documents of any nesting depth ends with a value or an error.", "the parsers recurse once per nesting level of the target type by design, and native stack size is not modelled; nesting within the stated bounds is covered by J06, R04 and T01, and unbounded recursion on flat input (comments, ignored members, dotted keys) is checked there"),
    ("N03", "The derive macros accept every supported type declaration", "Any struct or enum declaration within the documented subset expands to code that compiles.", "the derive parser runs over rustc token streams inside the compiler (proc_macro), whose API cannot be executed outside it; what the expansions do is checked through the harness types"),
]
for pid, t, s, why in NA:
    p(pid, t, s, "all inputs", "unbounded", ["derive/src/parse.rs"] if pid == "N03" else [J, R], [("float printing" if pid == "N01" else "recursive parsing" if pid == "N02" else "derive parser", "derive/src/parse.rs" if pid == "N03" else J)], na=why)

with open("properties.jsonl", "w") as f:
    for q in PS:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                            "quantifier": {"over": ["programs"] if q["id"] == "N03" else ["inputs"], "text": q["over"]}, "why_tests_cant": q["why"],
                            "anchors": {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]]}}) + "\n")
NOTE = ("bounded: holds for every input within the bounds the evidence file states. Trusts rustc's lowering to LLVM IR, the executor in /verif/nsx (path witnesses are replayed on a native build, "
        "cheap decisions are audited with Z3) and Z3; the oracle is written in the harness.")
man = {"version": 1, "setup_cmd": "python3 check.py --setup",
       "checks": [{"property": q["id"], "quick_cmd": f"python3 check.py {q['id']} quick", "thorough_cmd": f"python3 check.py {q['id']} thorough", "evidence_file": f"evidence/{q['id']}.json",
                   "technique": "symbolic execution of the compiler's LLVM IR of the real code, assertions decided by SMT (Z3)", "level": "model_checking", "level_note": NOTE} for q in PS if not q["na"]],
       "not_applicable": [{"property": q["id"], "reason": q["na"]} for q in PS if q["na"]],
       "notes": "nsx is a symbolic executor for LLVM IR written for this task (see DESIGN.md); no hooks in /repo are needed."}
json.dump(man, open("MANIFEST.json", "w"), indent=1)
print(len(PS), "properties")
