#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule modules present and tools/na.json."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = json.load(open(os.path.join(V, "tools/na.json")))
checks, nas = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "sa/rules/%s.py" % i.lower())):
        m = importlib.import_module("sa.rules." + i.lower())
        checks.append({"property": i, "quick_cmd": "./run %s quick" % i, "thorough_cmd": "./run %s thorough" % i,
                       "technique": getattr(m, "TECHNIQUE", "custom static analysis over the clang-resolved program"),
                       "level": getattr(m, "LEVEL", "other"),
                       "level_note": getattr(m, "LEVEL_NOTE", "Decides, on the current source, " + getattr(m, "WHAT", "") + ". Assumes: " + ("; ".join(getattr(m, "ASSUMPTIONS", [])) or "the extractor's view of the program (clang 18) matches g++'s") + ".")})
    else:
        nas.append({"property": i, "reason": na.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "bash extract/build.sh", "checks": checks, "not_applicable": nas,
           "notes": "Static analysis only: a clang libTooling extractor dumps the resolved program of /repo on every run; a Python rule engine decides the properties. No change to /repo is needed by the machinery (no hooks)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(nas), "not applicable")
