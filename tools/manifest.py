#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
EX = "exploration"; MC = "model_checking"; FE = "fault_enumeration"
T = {}
def t(id, level, technique, note): T[id] = (level, technique, note)
exec(open(os.path.join(here, "tools/techniques.py")).read())
NA = {}
checks = []
for p in props:
    if p["id"] in T:
        level, tech, note = T[p["id"]]
        checks.append(dict(property=p["id"], quick_cmd=f"./run.sh {p['id']} quick",
            thorough_cmd=f"./run.sh {p['id']} thorough", technique=tech, level=level, level_note=note))
na = [dict(property=p["id"], reason=NA.get(p["id"], "its check isn't built yet")) for p in props if p["id"] not in T]
m = dict(version=1, setup_cmd="./run.sh build",
    hooks=dict(guard="splr_verif", enable="RUSTFLAGS=\"--cfg splr_verif\" cargo build (a rustc cfg; off by default)",
               source_commits=["04767a0"]),
    checks=checks, not_applicable=na,
    notes="All checks run through run.sh, which rebuilds the harness (and the commands) from /repo's working tree.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
