#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl, the registered checks and tools/levels.json.
import json,os
ROOT=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(ROOT+'/properties.jsonl')]
L=json.load(open(ROOT+'/tools/levels.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in L and 'na' not in L[i]:
        e=L[i]
        checks.append({"property":i,"quick_cmd":"bash check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough bash check.sh "+i,
          "evidence_file":"evidence/%s.json"%i,"technique":e['t'],"level":e['l'],"level_note":e['n']})
    else:
        na.append({"property":i,"reason":L.get(i,{}).get('na','Model checking applies, but its check is not built yet; not claimed.')})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: checks link /repo's packages through a module replace (sequential engine) or rewrite a copy of its sources at check time (scheduler engine)."}
json.dump(m,open(ROOT+'/MANIFEST.json','w'),indent=1)
print(len(checks),len(na))
