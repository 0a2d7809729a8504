#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import registry

props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPERTIES:
        a = registry.AREAS[registry.PROPERTIES[i]]
        checks.append({
            "property": i,
            "quick_cmd": "python3 bin/check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": a.technique,
            "level": "model_checking",
            "level_note": a.level_note,
        })
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "no check has been built yet")})
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
hooks = [x.split()[0] for x in log.splitlines() if "trin_verif" in x]
json.dump({
    "version": 1,
    "setup_cmd": "bash bin/setup.sh",
    "hooks": {"guard": "cfg flag trin_verif (rustc --cfg trin_verif)",
              "enable": "harness/.cargo/config.toml sets rustflags = --cfg trin_verif for every build of the harness",
              "source_commits": hooks},
    "checks": checks,
    "not_applicable": na,
    "notes": "TLA+ specifications in spec/, TLC does the model checking, the generation and the trace validation; "
             "drivers in harness/drivers run the programs on the sources of /repo. See DESIGN.md.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
