#!/usr/bin/env python3
"""Regenerates MANIFEST.json from harness/checks.py and properties.jsonl (run by hand after editing either)."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(V, "harness"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
LOCK = "explicit-state exploration of the implementation: every execution of finite operand/operation spaces, in lockstep with an exact-integer reference model"
NOTE = ("Exhaustive over the enumerated spaces listed in the evidence (block-pattern alphabets, all shape families, all built-in types, all operation spellings); "
        "says nothing about operand values outside those alphabets. Trusted: GMP as the reference, the compiler, the harness.")
m = {"version": 1, "setup_cmd": "python3 run_check.py --setup", "checks": [], "not_applicable": [],
     "notes": "Every check builds its harness from /repo's working tree in a scratch directory it removes. No hooks in /repo are needed (the library is header-only and its observable surface is public)."}
for p in props:
    s = checks.CHECKS.get(p["id"])
    if not s:
        m["not_applicable"].append({"property": p["id"], "reason": "no check registered yet"}); continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 run_check.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 run_check.py " + p["id"], "evidence_file": "evidence/%s.json" % p["id"],
        "technique": s.get("technique", LOCK), "level": "model_checking", "level_note": s.get("note", NOTE)})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
