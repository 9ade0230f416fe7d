#!/usr/bin/env python3
"""writes MANIFEST.json from families/REGISTRY (claimed) and properties.jsonl (the rest)"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from families import REGISTRY, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in REGISTRY:
        c = importlib.import_module("families." + REGISTRY[pid]).CHECKS[pid]
        mods = sorted({m["module"] for m in c.get("mc", [])})
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 bin/check.py {pid} quick",
            "thorough_cmd": f"python3 bin/check.py {pid} thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "TLA+ specification (" + ", ".join(mods + [c["trace"]]) + "), TLC model checking and trace validation of the real code",
            "level": "model_checking",
            "level_note": c.get("note", "TLC decides whether every trace recorded from the code (generated histories" + (", TLC-generated behaviours" if c.get("gens_model") else "") + ") is a behaviour of the specification" + ("; the design model " + ", ".join(mods) + " is checked exhaustively at small constants" if mods else "") + ". Inputs are sampled and bounded."),
        })
    else:
        na.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, "machinery not built yet")})
json.dump({"version": 1, "setup_cmd": "bash bin/setup.sh",
           "hooks": {"guard": "CMMCORE_VERIF", "enable": "no hooks are needed: the drivers use the public headers", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
