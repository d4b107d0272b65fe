#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of built checks below."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open('properties.jsonl')]
from checks import CHECKS
out = {"version": 1, "setup_cmd": "./setup.sh",
       "hooks": {"guard": "cfg(jmt_verif)", "enable": "harness/.cargo/config.toml passes --cfg jmt_verif to rustc for everything built under harness/",
                 "source_commits": ["1dbe6d98b5efcbada9bc32b81f057cfc7650ebaf"]},
       "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in CHECKS:
        tech, level, note = CHECKS[i]
        out["checks"].append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": tech, "level": level, "level_note": note})
    else:
        out["not_applicable"].append({"property": i, "reason": "no check built yet"})
open('MANIFEST.json','w').write(json.dumps(out, indent=1)+"\n")
