import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.join(V,'lib'))
import checks
T={}
exec(open(os.path.join(V,'tools','notes.py')).read())
props=[json.loads(l) for l in open(os.path.join(V,'properties.jsonl'))]
ch=[];na=[]
for p in props:
    i=p['id']
    if i in checks.CHECKS:
        t=T[i]
        ch.append(dict(property=i,quick_cmd='bin/check %s --tier quick'%i,thorough_cmd='bin/check %s --tier thorough'%i,
            technique=t[0],level=t[2] if len(t)>2 else 'model_checking',level_note=t[1]))
    else: na.append(dict(property=i,reason=NA.get(i,'check under construction')))
json.dump(dict(version=1,setup_cmd='bin/setup',checks=ch,not_applicable=na,
  notes='Language: TLA+ checked with TLC. Specifications in spec/, harnesses in harness/, drivers in lib/. No hooks in /repo are needed.'),open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
print(len(ch),len(na))
