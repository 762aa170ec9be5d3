#!/usr/bin/env python3
"""Writes MANIFEST.json. Run it after adding a check."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing (rapid, shrinking): "
T = {
 "C01": ("round trip of generated trees over encoder settings", "generated trees of all scalar and container kinds, sizes up to megabytes"),
 "C02": ("round trip of values of generated types", "types made by reflection and a set of named types"),
 "C03": ("independent parser of the format as oracle for encoder output", "the parser is written from the specification; strict about lengths, offsets and track bits"),
 "C04": ("documents generated from the specification with their meaning", "covers encodings the encoder never emits"),
 "C05": ("documents generated from the specification with their meaning, PerlCompat", "covers encodings the encoder never emits"),
 "C21": ("numbers at boundaries through all encodings and types", "exact comparison of bits"),
}
T.update(json.load(open(os.path.join(here, "tools", "techniques.json"))) if os.path.exists(os.path.join(here, "tools", "techniques.json")) else {})
checks = []
for p in sorted(T):
    tech, note = T[p]
    checks.append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
        "technique": PBT + tech, "level": "exploration",
        "level_note": note + "; no counterexample among the generated cases, nothing is proved beyond them"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
     "notes": "Every check builds /verif/harness against /repo's working tree in a scratch directory. ./check --replay FILE runs a saved violation again."}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
for i in ids:
    if i not in T:
        m["not_applicable"].append({"property": i, "reason": "the check is not finished"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
