#!/usr/bin/env python3
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[l.split()[0] for l in open(V+"/tools/runs.txt") if l.strip() and not l.startswith("#")]
NA={"N01":"A pure function of its input (encode/decode round trip): no schedule, clock, fault or interleaving for a simulator to decide.",
    "N02":"A pure function of its input (filter evaluation): no schedule, clock, fault or interleaving for a simulator to decide."}
props=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
for p in props:
    if p not in ids and p not in NA: NA[p]="Not yet decided: its simulation scenario is not finished."
m={"version":1,"setup_cmd":"python3 tools/build.py",
 "checks":[{"property":i,"quick_cmd":"python3 tools/check.py %s --tier quick"%i,"thorough_cmd":"python3 tools/check.py %s --tier thorough"%i,"technique":"deterministic simulation with fault injection","level":"exploration","level_note":"seeded search over schedules, workloads and fault sequences of the real code in a simulated kernel; a clean batch is evidence, not proof"} for i in ids],
 "not_applicable":[{"property":k,"reason":v} for k,v in sorted(NA.items()) if k in props]}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
