import json, sys
sys.path.insert(0, '/verif/tools')
import plan
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = {'C20': 'aliasing and validity rules of Rust (Stacked/Tree Borrows, uninitialised memory) are properties of the memory '
             'accesses the compiler emits, not of states a TLA+ specification can observe through the API; what of them is '
             'observable (double drop, use after drop, leaks, crashes) is decided by C09 and C16'}
LEVEL_NOTE = ('Exhaustive TLC runs of the specification within the bounds in DESIGN.md; the code is bound to it by validating '
              'recorded runs of the real crate (spec-generated scripts and seeded histories) against the same specification. '
              'Histories outside those explored are not covered.')
checks = []
for p in props:
    i = p['id']
    if i not in plan.PLAN:
        continue
    checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough',
                       technique='TLA+ specification checked with TLC; trace validation of the real crate against it',
                       level='model_checking', level_note=LEVEL_NOTE))
na = [dict(property=p['id'], reason=NA.get(p['id'], 'no check yet')) for p in props if p['id'] not in plan.PLAN]
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the driver crate in /verif/driver uses the public API only. See DESIGN.md.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
