"""DESIGN.md = tools/design.in.md with the tables of properties and planted bugs filled in"""
import os, sys, json, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
rows = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    f = V + '/props/%s.py' % p['id'].lower()
    if not os.path.exists(f):
        continue
    m = importlib.import_module('props.' + p['id'].lower())
    ev = V + '/evidence/%s.json' % p['id']
    c = ''
    if os.path.exists(ev):
        e = json.load(open(ev))
        c = '%d obligations, %d s' % (e['coverage']['obligations'], e['wall_s']) if e['tier'] == 'quick' else ''
    b = getattr(m, 'BOUNDS', '')
    if getattr(m, 'OUTSIDE', ''):
        b += '. Outside: ' + m.OUTSIDE
    if getattr(m, 'ASSUMPTIONS', None):
        b += '. Assumes: ' + '; '.join(m.ASSUMPTIONS)
    rows.append('| %s | %s | %s | %s |' % (p['id'], p['title'], b, c))
s = open(V + '/tools/design.in.md').read().replace('@@TABLE@@', '\n'.join(rows))
sr = V + '/tools/seed_results.json'
res = json.load(open(sr)) if os.path.exists(sr) else {}
t = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    mj = V + '/seeded/%s/meta.json' % d
    if os.path.exists(mj):
        m = json.load(open(mj))
        t.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], res.get(d, 'not run')))
s = s.replace('@@SEEDS@@', '\n'.join(t))
open(V + '/DESIGN.md', 'w').write(s)
