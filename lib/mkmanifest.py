"""Regenerates MANIFEST.json from checks.py (claimed = has an entry there)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
M = dict(version=1, setup_cmd="python3 lib/setup_check.py",
         checks=[], not_applicable=[],
         notes="Recorders import /repo directly (no build step, no hooks needed); TLC judges the recordings against "
               "spec/*.tla. Known findings and repairs: known_findings.json.")
for p in props:
    c = checks.CHECKS.get(p["id"])
    if c:
        M["checks"].append(dict(property=p["id"], quick_cmd="python3 lib/runner.py " + p["id"],
                                thorough_cmd="VERIF_TIER=thorough python3 lib/runner.py " + p["id"],
                                evidence_file="evidence/%s.json" % p["id"],
                                technique=c.get("technique", "TLA+ specification, TLC trace validation of recordings of the real code"),
                                level=checks.level(c), level_note=c["note"]))
    else:
        M["not_applicable"].append(dict(property=p["id"], reason=checks.NA.get(p["id"], "check under construction")))
json.dump(M, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
