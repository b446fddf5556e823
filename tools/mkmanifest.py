"""Write MANIFEST.json from properties.jsonl and the property modules present."""
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(here, 'tools', 'techniques.json')))
checks, na = [], []
for line in open(os.path.join(here, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if os.path.exists(os.path.join(here, 'rsverif', 'props', pid.lower() + '.py')):
        t = TECH[pid]
        checks.append({'property': pid, 'quick_cmd': './check ' + pid,
                       'thorough_cmd': 'VERIF_TIER=thorough ./check ' + pid,
                       'technique': t[0], 'level': 'exploration', 'level_note': t[1]})
    else:
        na.append({'property': pid, 'reason': 'no check has been built for it yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the checks drive the unmodified code. Each check imports resync from /repo at run time.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', [x['property'] for x in na])
