#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import registry
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in registry.PROPS:
        continue
    p = registry.PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": p.get("technique", "property-based testing of random operation histories and inputs against a reference model, with shrinking and sanitizers; libFuzzer over choice tapes in the thorough tier"),
        "level": "exploration",
        "level_note": p.get("note", "Searches generated inputs (counts in the evidence file); no violation means none was found among them. Trusts the reference model in harness/ and the tolerances stated in DESIGN.md."),
    })
m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks,
     "not_applicable": [{"property": i, "reason": registry.NOT_APPLICABLE.get(i, "check not built yet")} for i in ids if i not in registry.PROPS],
     "notes": "No hooks were needed: every check drives the public API of the library, compiled from /repo/src by check.py. Repairs of /repo are 'fix:' commits, listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", [x["property"] for x in m["not_applicable"]])
