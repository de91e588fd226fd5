"""writes MANIFEST.json: every property with a harness in props/ is claimed (run after adding a harness)"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
props = [json.loads(line) for line in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8')]
NA = {}
if os.path.exists(os.path.join(HERE, 'tools', 'na.json')):
    NA = json.load(open(os.path.join(HERE, 'tools', 'na.json'), encoding='utf-8'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA or not os.path.exists(os.path.join(HERE, 'props', i.lower() + '.py')):
        na.append(dict(property=i, reason=NA.get(i, 'no harness yet: solver-based check is planned (see DESIGN.md)')))
        continue
    h = importlib.import_module('props.' + i.lower())
    checks.append(dict(
        property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'python3 check.py {i} --tier thorough',
        technique='symbolic execution of the current /repo source with z3 deciding every branch and assertion '
                  '(exhaustive path exploration within bounds); counterexamples are replayed on the real code',
        level='model_checking', level_note='Bounds: ' + h.BOUNDS + '. Assumes: ' + '; '.join(h.ASSUMES or ['nothing']) +
        '. Exact real arithmetic with NaN; library models as listed in DESIGN.md.'))
m = dict(version=1, setup_cmd='python3 check.py --selftest', checks=checks, not_applicable=na,
         notes='All checks: python3 check.py <ID> [--tier quick|thorough] [--replay FILE]; PYOWC_REPO selects another '
               'tree than /repo. No hooks are needed in /repo.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
