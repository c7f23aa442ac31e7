#!/usr/bin/env python3
# Writes DESIGN.md from tools/design_head.md, tools/design_tail.md and the tables. Rules and costs come from the
# evidence files when they are there and are kept in tools/rules.json.
import json,os,glob
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
L=json.load(open(R+'/tools/levels.json'))
rp=R+'/tools/rules.json'
rules=json.load(open(rp)) if os.path.exists(rp) else {}
for f in glob.glob(R+'/evidence/*.json'):
    d=json.load(open(f));i=d['property']
    if d.get('tier')!='quick': continue
    c=d['coverage']
    n={k:v for k,v in c.items() if isinstance(v,(int,float)) and not isinstance(v,bool) and k in('states','transitions','evaluations','schedules','executions','traces_validated_against_impl','inputs','cases')}
    rules[i]={'rule':c.get('rule',''),'n':n,'s':round(d.get('wall_s',0))}
json.dump(rules,open(rp,'w'),indent=0,sort_keys=True)
out=[open(R+'/tools/design_head.md').read()]
for p in props:
    i=p['id'];r=rules.get(i,{});e=L.get(i,{})
    out.append('### %s %s\n\n*Specified:* %s\n\n*Method (%s):* %s.\n\n*Enumerated:* %s\n\n*Bounds and oracle:* %s\n\n*Cost (quick):* %s s; %s\n\n'%(i,p['title'],p['statement'],e.get('l','not claimed'),e.get('t','-'),r.get('rule','-'),e.get('n','-'),r.get('s','?'),', '.join('%s %s'%(k,format(v,',')) for k,v in r.get('n',{}).items())))
kf=json.load(open(R+'/known_findings.json'))
out.append('## 4. Defects found in the given tree\n\nThe list is `known_findings.json`. Repaired (each one "fix:" commit in /repo, the existing suite unedited and passing):\n\n| property | commit | what failed |\n|---|---|---|\n')
for k in kf:
    if k['status'].startswith('fixed'):
        _,pr,cm,what=k['status'].split(' ',3); out.append('| %s | %s | %s |\n'%(k['property'],cm,what.replace('|','\\|')))
out.append('\nRecorded, not repaired (the checks print KNOWN-FINDING for them and report anything else):\n\n')
for k in kf:
    if not k['status'].startswith('fixed'): out.append('* **%s** `%s`: %s\n'%(k['property'],k['key'],k['what']))
out.append('\n## 5. Planted bugs (`seeded/`)\n\nEach is caught by the quick check of its own property.\n\n| id | caught by | needs | breaks |\n|---|---|---|---|\n')
for d in sorted(glob.glob(R+'/seeded/*/meta.json')):
    m=json.load(open(d)); out.append('| %s | %s | %s | %s |\n'%(os.path.basename(os.path.dirname(d)),m.get('caught_by',m['property']),m['needs'].replace('|','\\|'),m['what_it_breaks'].replace('|','\\|')))
out.append(open(R+'/tools/design_tail.md').read())
open(R+'/DESIGN.md','w').write(''.join(out))
print(len(out), [p['id'] for p in props if p['id'] not in rules])
