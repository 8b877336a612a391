#!/usr/bin/env python3
"""Write MANIFEST.json from vlib/engines.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import engines
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    s = engines.PROPS.get(p["id"])
    if not s:
        na.append(dict(property=p["id"], reason=engines.NOT_APPLICABLE.get(p["id"], "no check has been built for it yet")))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"],
                       thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"], technique=s["technique"], level=s["level"],
                       level_note=s["note"]))
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="none", enable="no hooks are needed: the harnesses interpose at link time", source_commits=[]),
         checks=checks, not_applicable=na)
if not na:
    m["not_applicable"] = []
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
