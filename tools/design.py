#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written parts (design_head.md, design_tail.md) and one section per property from the registry."""
import json, os, sys, glob
T=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(T)
sys.path[:0]=[T, V, V+'/rules']
from technique import TECH
from not_applicable import NA
import importlib.util
spec=importlib.util.spec_from_file_location('registry', V+'/rules/registry.py'); R=importlib.util.module_from_spec(spec); spec.loader.exec_module(R)
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
from design_notes import NOTES
o=[open(T+'/design_head.md').read()]
for p in sorted(props,key=lambda p:p['id']):
    i=p['id']
    o.append('### %s %s\n\n'%(i,p['title']))
    if i in NA:
        o.append('Not applicable: %s\n\n'%NA[i]); continue
    if i not in R.CHECKS: o.append('(no check yet)\n\n'); continue
    c=R.CHECKS[i]; t=TECH[i]
    o.append('- Property: %s\n- Quantifier: %s.\n- Method: %s.\n- Rule: %s\n- Bounds and trust: %s%s\n- Implementation: %s; at least %d obligations.\n- Beyond tests: %s\n'%(
        p['statement'],p['quantifier']['text'].rstrip('.'),t[0],c['rule'],t[1],''.join(' Assumes %s.'%a.rstrip('.') for a in c['assumptions']),
        ', '.join('`rules/%s.py: %s`'%(m,f) for m,f,_ in c['run']),c['floor'],p['why_tests_cant']))
    if i in NOTES: o.append('- Note: %s\n'%NOTES[i])
    o.append('\n')
o.append(open(T+'/design_tail.md').read())
o.append('| seed | property | what it breaks | caught by |\n|---|---|---|---|\n')
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); s=os.path.basename(os.path.dirname(d))
    o.append('| %s | %s | %s | %s |\n'%(s,m['property'],m['what_it_breaks'].replace('|','/').replace('\n',' '),m.get('caught_by','check.py '+m['property'])))
open(V+'/DESIGN.md','w').write(''.join(o))
print(len(''.join(o)),'bytes')
