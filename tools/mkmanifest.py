#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from props import PROPS, TLC
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        c = PROPS[i]
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
            technique='Quint specification (%s) simulated with invariants; generated ITF behaviours replayed into the real crates' % ', '.join(s['file'] for s in c['specs'])
                + ('; bounded TLA+ machine (%s) enumerated completely by TLC, every complete behaviour replayed' % ', '.join('specs/tlc/%s.tla' % t['module'] for t in TLC[i]) if i in TLC else ''),
            level='model_checking',
            level_note=c.get('note', 'Random exploration of the Quint model (invariants checked in every state) with boundary-biased arguments; every generated event is replayed on the real code and compared with the exact value computed by the specification. Not exhaustive over the unbounded input space.')
                + (' Exhaustive for the TLA+ machine within its constants (see DESIGN.md section 5).' if i in TLC else '')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet') if 'NA' in globals() else 'check not built yet'))
m = dict(version=1, setup_cmd='./check --setup',
    hooks=dict(guard='cargo feature `verif` of aether_benchmark', enable='harness/Cargo.toml depends on aether_benchmark with features=["verif"]; every other check uses the public API of /repo as it is.', source_commits=['2ba35b6']),
    checks=checks, not_applicable=na,
    notes='Specifications in specs/*.qnt, conformance driver in harness/, driver script check, depth table tools/props.py, recorded defects in known-findings.txt.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
