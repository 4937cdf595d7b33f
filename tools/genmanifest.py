#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harness folders."""
import json,os,re
V=os.path.abspath(os.path.join(os.path.dirname(__file__),'..'))
NA={
 'C27':"The property is about the vendored C++ Annoy library behind SWIG/cgo (random projections, mmap'ed files, templates over unbounded node arrays). It is not Go code the engine can encode, and CBMC's C++ front end does not parse it; nothing in reach executes it symbolically. What this repository does with the index's answers is C25.",
}
LEVEL=("Bounded symbolic execution of the Go SSA of the current source: every path within the bounds stated in the evidence is enumerated, every assertion is decided by z3 (cvc5 as fallback) for all input values on the path. "
       "Bounds per harness are the //bound: lines in harness/%s, repeated in the evidence; outside them nothing is claimed.")
EXTRA={}
checks=[];na=[]
for l in open(V+'/properties.jsonl'):
    p=json.loads(l); i=p['id']
    d=V+'/harness/'+i.lower()
    if i in NA:
        na.append(dict(property=i,reason=NA[i])); continue
    if not os.path.isdir(d) or not any(f.endswith('.go') for f in os.listdir(d)):
        na.append(dict(property=i,reason='No check built yet.')); continue
    src=''.join(open(os.path.join(d,f)).read() for f in os.listdir(d))
    conc=re.search(r'//gosym:.*(preempt|free|delay|race)',src)
    checks.append(dict(property=i,quick_cmd='bash check.sh %s quick'%i,thorough_cmd='bash check.sh %s thorough'%i,
      technique='symbolic execution of the Go SSA with SMT (z3/cvc5)'+(', symbolic schedules' if conc else '')+', counterexamples replayed natively',
      level='model_checking',level_note=LEVEL%i.lower()+EXTRA.get(i,'')))
json.dump(dict(version=1,setup_cmd='bash check.sh build',checks=checks,not_applicable=na),open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',[x['property'] for x in na])
