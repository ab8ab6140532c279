#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import registry
NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        checks.append(dict(property=i, quick_cmd='./check.py %s' % i, thorough_cmd='./check.py %s --tier thorough' % i,
                           technique=c[2] if len(c) > 2 else c[1], level='other',
                           level_note='Static analysis of the current source: every obligation the rules generate is decided from the IR, '
                                      'nothing is executed; shapes the rules do not understand are listed as undecided in the evidence. ' + c[1]))
m = dict(version=1, setup_cmd='./build.sh',
         hooks=dict(guard='CUTTLEFISH_VERIF', enable='No hook is needed: the checks read the unmodified source.', source_commits=[]),
         checks=checks,
         not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], 'no check yet')) for p in props if p['id'] not in registry.CHECKS])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in m['not_applicable']])
