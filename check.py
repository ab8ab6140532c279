#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]   decide one property on /repo's current source
   check.py --all                        decide every property"""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import ir, report
from checks import registry


def main():
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv:
        k = sys.argv.index('--tier')
        tier = sys.argv[k + 1]
        del sys.argv[k:k + 2]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    if not os.path.exists(ir.IRX):
        if os.system(os.path.join(ir.VERIF, 'build.sh') + ' >&2'):
            print('ERROR: cannot build irx')
            return 2
    titles = {}
    for l in open(os.path.join(ir.VERIF, 'properties.jsonl')):
        p = json.loads(l)
        titles[p['id']] = p['title']
    ids = sys.argv[1:]
    if ids == ['--all']:
        ids = sorted(registry.CHECKS)
    rc = 0
    for i in ids:
        func, method = registry.CHECKS[i]
        r = report.run(i, titles[i], func, tier, seed, method=method)
        rc = max(rc, r)
    return rc


sys.exit(main())
