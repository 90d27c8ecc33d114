#!/usr/bin/env python3
"""Regenerates MANIFEST.json"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "lib"))
import checks
TRACE = "TLA+ specification checked with TLC; recorded executions of the code replayed against it (trace validation)"
NOTE = ("Every recorded behaviour of the code is followed step by step by the specification under TLC; schemas and documents are "
        "generated (seeded) around the property, so the assurance is that of the behaviours explored. Trusted: TLC, xmlparser's tokens, "
        "the harness's transcription of results.")
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": [], "not_applicable": [],
     "notes": "bin/check.py PROPERTY [--tier quick|thorough] [--seed N]; known-findings.txt lists genuine defects found."}
for ln in open(os.path.join(HERE, "..", "properties.jsonl")):
    p = json.loads(ln)["id"]
    if p in checks.CHECKS:
        note = checks.NOTES.get(p, NOTE)
        m["checks"].append({"property": p, "quick_cmd": "python3 bin/check.py %s --tier quick" % p,
                            "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p,
                            "technique": checks.TECHNIQUE.get(p, TRACE), "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": "the check is not built yet"})
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
