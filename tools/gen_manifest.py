#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
T={
"hist":"explicit enumeration of all operation histories / inputs up to a depth on the real code, each step compared with a reference model",
"sched":"stateless model checking of the real code: all schedules within a deviation bound under a controlled scheduler, with virtual network and time, plus exhaustive histories",
}
HIST={"C01","C02","C03","C06","C08","C09","C10","C11","C12","C21","C22","C26"}
note={
"hist":"Exhaustive within the bounds stated in evidence and DESIGN.md: the rewritten real code runs every case; the oracle is an independent reference model in the harness. Trusted: the source rewriter, the runtime shims, the model.",
"sched":"Exhaustive within the deviation bound and domains stated in evidence and DESIGN.md: the rewritten real code runs under every schedule (sequentially consistent; plain fields found racy by a happens-before monitor become scheduling points), with simulated sockets and clock. Trusted: the source rewriter, the shims for sync/channels/net/time, the oracles.",
}
checks=[]
for line in open(os.path.join(here,"properties.jsonl")):
    p=json.loads(line); i=p["id"]; k="hist" if i in HIST else "sched"
    checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":T[k],"level":"model_checking","level_note":note[k]})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":[],
 "notes":"No hooks in /repo: the checks rewrite a scratch copy of its working tree onto a controlled runtime (tools/instr, rt/vrt) at every run."}
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
