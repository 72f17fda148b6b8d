#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json from recipes.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import recipes
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "none", "enable": "No hooks: the harnesses compile /repo's sources unchanged and intercept libc calls by renaming undefined symbols in the object files.", "source_commits": []},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in recipes.PROPS:
        r = recipes.PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py " + i + " --thorough",
                            "evidence_file": "evidence/%s.json" % i, "technique": r.get("technique", "property-based testing"),
                            "level": r.get("level", "exploration"), "level_note": r.get("note", "")})
    else:
        m["not_applicable"].append({"property": i, "reason": recipes.NOT_CLAIMED.get(i, "Not claimed: the generator and oracle for it are not built yet.")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
