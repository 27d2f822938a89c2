#!/usr/bin/env python3
# Source of /verif/MANIFEST.json (run: python3 tools/manifest.py > MANIFEST.json)
import json,os,subprocess,glob,re
props=[json.loads(l) for l in open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'))]
have=set()
for f in glob.glob(os.path.join(os.path.dirname(__file__),'..','harness','*','*.go')):
    have|=set(re.findall(r'^//vsym:check (C\d\d)',open(f).read(),re.M))
NOTE={}
exec(open(os.path.join(os.path.dirname(__file__),'notes.py')).read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in NA or i not in have:
        na.append(dict(property=i,reason=NA.get(i,'no check has been built for this property yet')));continue
    checks.append(dict(property=i,quick_cmd='./bin/vengine -tier quick check '+i,thorough_cmd='./bin/vengine -tier thorough check '+i,
      evidence_file='evidence/%s.json'%i,technique='bounded symbolic execution of the Go SSA form, assertions decided by SMT solvers (z3, cvc5), counterexamples replayed natively',
      level='model_checking',level_note=NOTE.get(i,'')+GENERAL))
print(json.dumps(dict(version=1,setup_cmd='./build.sh',checks=checks,not_applicable=na,
  notes='No hooks in /repo: harnesses are compiled into /repo/zzverif/ through an in-memory overlay. See DESIGN.md.'),indent=1))
