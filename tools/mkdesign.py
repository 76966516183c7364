"""Fill the generated parts of DESIGN.md from claims, seeds and the result tables in tools/."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(R + '/tools/DESIGN.in.md').read()
claims = json.load(open(R + '/tools/claims.json'))
props = {}
for l in open(R + '/properties.jsonl'):
    d = json.loads(l)
    props[d['id']] = d
na = ['## Not applicable', '']
for k in sorted(claims):
    if 'na' in claims[k]:
        na.append('* **%s** %s: %s' % (k, props[k]['title'], claims[k]['na']))
caught = {}
p = R + '/tools/caught.json'
if os.path.exists(p):
    caught = json.load(open(p))
rows = ['## Planted bugs', '',
        'Each is a patch with a demonstration under `seeded/`; the last column is the checks that report it.', '',
        '| bug | property | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(R + '/seeded/*/meta.json')):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    rows.append('| %s | %s | %s | %s |' % (i, d['property'], d['needs'], ', '.join(caught.get(i, [])) or 'not run'))
extra = R + '/tools/DESIGN.tail.md'
if os.path.exists(extra):
    rows += ['', open(extra).read().rstrip()]
out = src.replace('@@NA@@', '\n'.join(na)).replace('@@TABLES@@', '\n'.join(rows))
p = R + '/tools/DESIGN.c01.md'
out = out.replace('@@C01@@', open(p).read().strip() if os.path.exists(p) else '')
open(R + '/DESIGN.md', 'w').write(out)
