#!/usr/bin/env python3
"""Writes DESIGN.md."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "harness"), os.path.join(V, "tools")]
import registry
from design_notes import NOTES
out = [open(os.path.join(V, "tools", "design_head.md")).read(), "\n## The properties\n"]
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    r = registry.PROPS[i]
    src = open(os.path.join(V, "harness", "props", i.lower() + ".cpp")).read()
    facets = re.findall(r"PBT_FACET\((\w+),\s*(\d+)\)", src)
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("* Generated: %s" % r["rule"])
    out.append("* Oracle: %s" % NOTES[i])
    if r.get("assumptions"):
        out.append("* Bounds and tolerances: %s." % "; ".join(r["assumptions"]))
    out.append("* Quick cases: %s; under sanitizers again: %d %%; thorough: %d times as many, and %d s of libFuzzer.\n" % (
        ", ".join("%s %s" % (f, n) for f, n in facets), round(100 * r.get("asan_share", .1)),
        r.get("thorough_scale", 20), r.get("fuzz_thorough", 120)))
out.append(open(os.path.join(V, "tools", "design_testing.md")).read())
res = {}
rp = os.path.join(V, "tools", "seed_results.json")
if os.path.exists(rp):
    res = json.load(open(rp))
out.append("\n| planted bug | property | needs | caught by |\n|---|---|---|---|")
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    out.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"], res.get(i, "not run yet")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
