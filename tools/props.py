#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
C='butane_core/src/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":"none"}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
exec(open(os.path.join(os.path.dirname(__file__),'props_data.py')).read())
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P),'properties')

try:
    import jsonschema
    sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x,sch)
except ImportError: pass
for x in P:
    if len([w for w in x['statement'].split('. ') if w])>3: print(x['id'],'more than three sentences')
