#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from registry import CHECKS
try: from registry import NOT_APPLICABLE
except ImportError: NOT_APPLICABLE = {}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 setup.py", "hooks": {"guard": "GENEVA_VERIF_NONE", "enable": "no hooks: the checks compile /repo's sources unmodified; the controlled scheduler interposes on libc, libstdc++ and __tsan_* symbols at link time", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "technique": c["technique"],
                            "level": c.get("level", "model_checking"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
m["notes"] = "check.py <id> builds harness/<id>.cpp with the sources of /repo's working tree (content-keyed compiler cache under .build) and explores it; replay.py <file> replays a reported violation."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
