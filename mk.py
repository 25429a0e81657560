#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (PROPS in props_data.py)."""
import json,subprocess,sys
from props_data import PROPS, NA, NOTES
with open('properties.jsonl','w') as f:
    for p in PROPS:
        q={k:p[k] for k in('id','title','statement','quantifier','why_tests_cant','anchors')}
        assert len(p['title'])<=80,p['id']
        f.write(json.dumps(q)+'\n')
    for p in NA:
        q={k:p[k] for k in('id','title','statement','quantifier','why_tests_cant','anchors')}
        f.write(json.dumps(q)+'\n')
m={'version':1,'setup_cmd':'./build.sh','hooks':{'guard':'DEFAULT_PREALLOC_N_OBJ','enable':'build.sh passes -DDEFAULT_PREALLOC_N_OBJ=1000, so that traceAnalyzer does not reserve 3 GB for its object table in every simulated run; undefined, the shipped value is used. Every other seam is put in at build time without touching /repo (instrumenting compiler wrapper, link-time symbol wrapping).','source_commits':['de2020bc626270426d84d067f6e5c74857513dc9']},
'checks':[{'property':p['id'],'quick_cmd':f"./check.sh {p['id']} quick",'thorough_cmd':f"./check.sh {p['id']} thorough",'evidence_file':f"evidence/{p['id']}.json",'technique':p['technique'],'level':'exploration','level_note':p['level_note']} for p in PROPS],
'not_applicable':[{'property':p['id'],'reason':p['reason']} for p in NA],'notes':NOTES}
json.dump(m,open('MANIFEST.json','w'),indent=1)
