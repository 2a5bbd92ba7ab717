#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
from checks import CHECKS
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 run.py --build-all', hooks=dict(guard='LIBU_VERIF_HOOKS', enable='unused: no hook was added to /repo; every observation point is reached through the public API, the allocator and log hooks, interposed symbols or a seccomp trap', source_commits=[]),
         checks=[], not_applicable=[], notes='One driver (run.py) builds /repo\'s current sources in sanitizer variants and runs the harness of each property; checks.py lists the legs. Fixed and known defects: known_findings.txt.')
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i, technique=c['technique'], level=c['level'], level_note=c['note'] or c['rule']))
    else:
        m['not_applicable'].append(dict(property=i, reason='no check built yet'))
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1); open(H + '/MANIFEST.json', 'a').write('\n')
