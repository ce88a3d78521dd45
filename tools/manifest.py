#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the harnesses present and the table below."""
import json,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
have=set()
for d,_,fs in os.walk(here+'/harness'):
    for f in fs:
        if f.endswith('.go'):
            have|=set(re.findall(r'(?m)^func Verif(C\d+)_',open(os.path.join(d,f)).read()))
NA={"C37":"the MongoDB wrapper only forwards to the official driver; without the driver's wire protocol and a server there is nothing left to encode, and the driver (reflection, BSON, connection pools) is out of reach of the symbolic executor"}
NOTE={}
exec(open(here+'/tools/notes.py').read()) if os.path.exists(here+'/tools/notes.py') else None
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have and i not in NA:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} -tier quick","thorough_cmd":f"./check.sh {i} -tier thorough","evidence_file":f"evidence/{i}.json",
          "technique":"symbolic execution of the SSA of the current source, SMT (z3) verdict per assertion over symbolic inputs, schedules, timer firings and faults within stated bounds",
          "level":"model_checking","level_note":NOTE.get(i,"Bounded: holds for every value within the bounds recorded in the evidence; trusts the executor's Go semantics, its models of the runtime and of external services, and z3. Counterexamples are replayed natively where the schedule can be reproduced.")})
    else:
        na.append({"property":i,"reason":NA.get(i,"check not built yet")})
json.dump({"version":1,"setup_cmd":"./check.sh --build","checks":checks,"not_applicable":na,
  "notes":"Engine: /verif/engine (Go symbolic executor over go/ssa with z3). Harnesses: /verif/harness. Known findings: /verif/KNOWN_FINDINGS.txt."},open(here+'/MANIFEST.json','w'),indent=1)
print(len(checks),"checks",len(na),"not applicable")
