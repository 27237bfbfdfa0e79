#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "checks"))
from registry import CHECKS
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "FITORIA_VERIF", "enable": "no hook was needed: the harnesses compile the unmodified headers of /repo/include", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": f"python3 run.py {p['id']}", "thorough_cmd": f"python3 run.py {p['id']} --tier thorough", "evidence_file": f"evidence/{p['id']}.json",
                 "technique": CHECKS[p["id"]]["technique"], "level": "model_checking", "level_note": CHECKS[p["id"]]["note"]} for p in props if p["id"] in CHECKS],
     "not_applicable": [{"property": p["id"], "reason": getattr(registry, "NA", {}).get(p["id"], "no check is registered for it yet")} for p in props if p["id"] not in CHECKS]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
