"""Write DESIGN.md from its parts and the planted bugs."""
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(name):
    with open(os.path.join(here, 'tools', name)) as fh:
        return fh.read()


out = read('design_head.md') + read('design_props.md')
caught = json.loads(read('caught.json'))
out += ('## Planted bugs\n\nEach is in `seeded/`; found with its own property\'s quick check at VERIF_SEED=1 unless '
        'said otherwise.\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n')
for name in sorted(os.listdir(os.path.join(here, 'seeded'))):
    with open(os.path.join(here, 'seeded', name, 'meta.json')) as fh:
        m = json.load(fh)
    out += '| %s | %s | %s | %s |\n' % (name, m['property'], m['needs'], caught.get(name, 'not measured'))
with open(os.path.join(here, 'DESIGN.md'), 'w') as fh:
    fh.write(out)
