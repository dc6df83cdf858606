#!/usr/bin/env python3
"""Write MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from config import CHECKS, NOTES, DEFAULT_NOTE, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    i = p['id']
    if i in CHECKS:
        tech, note = NOTES.get(i, ('', ''))
        checks.append(dict(property=i, quick_cmd='python3 mc/check.py ' + i, thorough_cmd='python3 mc/check.py ' + i,
                           technique=tech or 'explicit-state exploration', level='model_checking',
                           level_note=(note + ' ' if note else '') + DEFAULT_NOTE))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='sh mc/setup.sh', checks=checks, not_applicable=na,
         notes='No hooks: every check uses the public API of the headers. See DESIGN.md.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
