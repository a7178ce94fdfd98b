#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json.
import json,os,subprocess
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
ids=[p['id'] for p in props]
claimed=open(V+'/tools/claimed.txt').read().split()
na={
 "C28":"a pure function of its inputs (VRF evaluation, proof, verification): no schedule, clock, I/O, fault or multi-party behaviour for a simulator to decide; the simulation checks indices against an independent VRF only as part of C22",
 "C29":"pure functions (Ed25519, hash commitments): nothing for a schedule or fault to change; forgery attempts against the protocol are simulated under C06/C07",
 "C30":"pure encode/decode functions without concurrency, time or I/O of their own; the round trips that happen inside simulated executions are checked as part of C01, C13, C21 and C27",
}
notes={}
exec(open(V+'/tools/notes.py').read())
checks=[]
for i in ids:
    if i in claimed:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json","technique":"deterministic simulation with fault injection: seeded search over schedules, faults and workloads; replayable minimised traces",
          "level":"exploration","level_note":notes.get(i,NOTE)})
m={"version":1,"setup_cmd":"./build.sh","checks":checks,
 "not_applicable":[{"property":i,"reason":na.get(i,"check under construction")} for i in ids if i not in claimed],
 "notes":"No hooks in /repo: the checks instrument a copy of the working tree (see DESIGN.md). /repo carries only fix: commits, listed in known-findings.txt."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
