#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of claimed checks."""
import json
NOTE = {
 "C01": "Random search over primitive types, constraints, values and offsets; relies on nothing but the codec itself (decode of its own output, plus sentinel bits).",
 "C02": "Random search; trusts the harness's X.691 model (harness/src/aper.rs), written from the Recommendation and pinned to published octets.",
 "C03": "Random search around every bound; the inside/outside judgement is two comparisons.",
 "C04": "Random and damaged octets at every bit position; panics, crashes and allocation beyond a budget count, built with overflow checks.",
 "C05": "Differential search against the X.691 decoder model; encodings that are valid but not canonical may be refused.",
 "C06": "Random search over 16K..147K units; trusts the model's fragmentation.",
 "C07": "Random specifications (fixed per seed) compiled by the working tree's compiler, derive and codec; random values of every generated type.",
 "C08": "As C07, octets compared with a schema-level X.691 encoder working from the specification, not from the generated code.",
 "C09": "Random object sets and PDUs with damaged open type lengths, keys and contents; oracle is the schema-level decoder.",
 "C10": "Encodings made by a newer version of each generated specification, decoded by the older.",
 "C11": "Random and damaged octets into generated decoders of random specifications and of NGAP, S1AP and RANAP.",
 "C12": "Metamorphic: decode, encode, decode again on arbitrary accepted octets.",
 "C13": "Metamorphic: layout and comments of random specifications changed, output and token stream compared.",
 "C14": "Random, mutated and truncated specifications; panics, crashes and allocation beyond a budget count; and one small change at every place of a specification, tried in-process.",
 "C15": "Repeated runs in fresh processes and reordered inputs, outputs compared.",
 "C16": "Random specifications; the generated items compared with the list the specification implies.",
 "C17": "Random constraints; generated attributes compared with bounds computed by the harness from the specification.",
 "C18": "Random structures; generated structs and enums compared member by member with the specification.",
 "C19": "Random parameterized types and object sets; generated open types compared with the objects of the set.",
 "C20": "Random specifications with awkward names; the output is parsed with syn and built by rustc with the derive.",
}
TECH = {
 "C01": "property-based round trip (generated values, constraints, offsets)",
 "C02": "differential property-based testing against an X.691 reference model",
 "C03": "property-based testing of refusal at constraint bounds",
 "C04": "structure-aware fuzzing of primitive decoders with panic, crash and allocation oracles",
 "C05": "differential fuzzing of decoders against an X.691 decoder model",
 "C06": "property-based testing of large strings against a fragmenting reference encoder",
 "C07": "property-based round trip over generated specifications and values",
 "C08": "differential property-based testing against a schema-level X.691 encoder",
 "C09": "structure-aware fuzzing of open types against a schema-level decoder",
 "C10": "metamorphic property-based testing with two versions of a generated specification",
 "C11": "structure-aware fuzzing of generated decoders",
 "C12": "metamorphic fuzzing: decode-encode-decode",
 "C13": "metamorphic property-based testing of the front end",
 "C14": "grammar-based and mutational fuzzing of the compiler",
 "C15": "property-based testing of determinism",
 "C16": "property-based testing of the set of generated items",
 "C17": "property-based testing of generated constraints against a model",
 "C18": "property-based testing of generated structure against a model",
 "C19": "property-based testing of expansion against a model",
 "C20": "property-based testing: generated specifications compiled by rustc",
}
CLAIMED = open("claimed").read().split()
props = [json.loads(l) for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                            "technique": TECH[i], "level": "exploration", "level_note": NOTE[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check is registered for it yet"})
m["notes"] = "See DESIGN.md. All checks are deterministic in VERIF_SEED; replay with target/debug/<bin> --property ID --replay FILE."
json.dump(m, open("MANIFEST.json", "w"), indent=1)
