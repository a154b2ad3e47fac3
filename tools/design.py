"""Assembles DESIGN.md from tools/design*.md and the planted bugs."""
import glob
import json
import os

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(n):
    with open(os.path.join(R, n)) as f:
        return f.read()


def seeds():
    caught = json.loads(read('tools/caught.json'))
    rows = ['| planted bug | property | what it breaks | caught by |',
            '|---|---|---|---|']
    for m in sorted(glob.glob(os.path.join(R, 'seeded', '*', 'meta.json'))):
        i = os.path.basename(os.path.dirname(m))
        d = json.load(open(m))
        rows.append('| %s | %s | %s | %s |' % (
            i, d['property'], d['what_it_breaks'].replace('\n', ' '),
            caught.get(i, '?')))
    return '\n'.join(rows)


out = read('tools/design.md').replace('@@PROPS@@', read(
    'tools/design_props.md')).replace('@@SEEDS@@', seeds())
with open(os.path.join(R, 'DESIGN.md'), 'w') as f:
    f.write(out)
