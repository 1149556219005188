#!/usr/bin/env python3
# Generates MANIFEST.json from src/jobs.py and properties.jsonl.
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'src'))
import jobs
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
TECH = 'runtime monitoring of randomised executions under ASan/UBSan'
checks, na = [], []
for p in props:
    i = p['id']
    if i in jobs.PROPS:
        s = jobs.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
            technique=s.get('technique', TECH), level=s.get('level', 'exploration'),
            level_note=s.get('note', 'Held on the executions observed (counts in the evidence): generated inputs against independent oracles. Trusts the reference models in src/ref.hxx and src/zoo*.hxx, the compilers and the sanitizers.')))
    else: na.append(dict(property=i, reason=jobs.NA.get(i, 'the check is not built yet')))
m = dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0, \'src\'); import jobs"', checks=checks, not_applicable=na,
    notes='No hooks in /repo: everything is observed through the public interface (iterators, containers, allocators, exceptions supplied by the drivers).')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
