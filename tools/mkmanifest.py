#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
claimed=[l.strip() for l in open("/verif/tools/claimed.txt") if l.strip()]
level={}
notes=json.load(open("/verif/tools/level_notes.json"))
checks=[]
for p in props:
    if p in claimed:
        checks.append(dict(property=p,quick_cmd=f"./run.sh {p} quick",thorough_cmd=f"./run.sh {p} thorough",evidence_file=f"evidence/{p}.json",
          technique="deterministic simulation with fault injection: "+notes[p][0],level=level.get(p,"exploration"),level_note=notes[p][1]))
na=[dict(property="C20",reason="Pure arithmetic on an already parsed value: no schedule, clock, I/O, fault or history for the simulator to decide, so simulation would only be input generation.")]
for p in props:
    if p not in claimed and p!="C20":
        na.append(dict(property=p,reason="check under construction"))
m=dict(version=1,setup_cmd="./run.sh build",checks=checks,not_applicable=na)
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
