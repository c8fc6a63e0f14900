#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = dict(version=1, setup_cmd="./bin/setup",
         checks=[dict(property=i, quick_cmd="./bin/check %s quick" % i, thorough_cmd="./bin/check %s thorough" % i,
                      evidence_file="evidence/%s.json" % i,
                      technique=CHECKS[i].get("technique", "property-based testing: structured random generation, explicit oracle, shrinking"),
                      level="exploration",
                      level_note=CHECKS[i]["note"]) for i in ids if i in CHECKS],
         not_applicable=[dict(property=i, reason="no check built yet") for i in ids if i not in CHECKS],
         notes="No hooks: the harnesses drive the public C++ and Python interfaces and compile the sources of /repo's working tree.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
