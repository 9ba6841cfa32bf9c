"""writes MANIFEST.json from the contracts that exist"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from tools.claims import CLAIMS, NOT  # noqa: E402
props = [json.loads(x)['id'] for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    if p in CLAIMS:
        level, note = CLAIMS[p]
        checks.append(dict(property=p, quick_cmd=f'/opt/venv/bin/python check.py {p} --tier quick',
                           thorough_cmd=f'/opt/venv/bin/python check.py {p} --tier thorough',
                           technique='contract-based deductive verification of the instrumented real source (SMT-discharged obligations per function)'
                           + ('; bounded stand-ins where stated' if level != 'other' else ''),
                           level=level, level_note=note))
    else:
        na.append(dict(property=p, reason=NOT.get(p, 'not built yet')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup.py', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
