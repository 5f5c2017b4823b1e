#!/usr/bin/env python3
# Writes MANIFEST.json from the table of built checks.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
M, X = "model_checking", "exploration"
BFS = "explicit-state breadth-first search of a reference model; every transition of every reachable state replayed on the real library (conformance)"
ENUM = "exhaustive enumeration of bounded call histories on the real library against a reference model"
# id -> (level, technique, note)
CLAIMS = json.load(open(f"{V}/scripts/claims.json"))
NA = {"P17": "C_GetOperationState and C_SetOperationState work only with OpenSSL 4 or later, and the library here is older: every call returns CKR_FUNCTION_NOT_SUPPORTED (or its equivalent), so there is no saved state whose histories could be explored"}
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        lv, tech, note = CLAIMS[i]
        tech = {"BFS": BFS, "ENUM": ENUM}.get(tech, tech)
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "technique": tech, "level": lv, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./run.sh build"}
if os.path.exists(f"{V}/scripts/hooks.json"):
    m["hooks"] = json.load(open(f"{V}/scripts/hooks.json"))
m["checks"] = checks
m["not_applicable"] = na
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
