#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and check_config.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from check_config import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/tools/not_applicable.json")) if os.path.exists(V + "/tools/not_applicable.json") else {}
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="OPENVINS_VERIF", enable="no hook was needed: the checks compile the unmodified sources of /repo", source_commits=[]),
         checks=[], not_applicable=[],
         notes="Every check is run_check.py <id>: it compiles the sources it needs from /repo's working tree (content-hashed object cache in build/), runs 8 rapidcheck shards whose seeds derive from VERIF_SEED, shrinks and replays failures, and rewrites evidence/<id>.json. Replay: python3 run_check.py <id> --replay <file>.")
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 run_check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 run_check.py " + i,
                                technique=c.get("technique", "property-based testing (rapidcheck choice tapes) against an independent reference"),
                                level="exploration", level_note=c.get("note", "Generated-input search; absence of violations is not proved. " + " ".join(c.get("assumptions", [])))))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "unclaimed")
