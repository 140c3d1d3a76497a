"""Fill the tables of DESIGN.md from the contracts and from seeded/."""
import glob, importlib, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(10000)
for f in sorted(glob.glob(H + '/specs/*.py')):
    importlib.import_module('specs.' + os.path.basename(f)[:-3])
from pyvc.contract import REGISTRY
base = json.load(open(H + '/specs/baseline.json'))
notes = {}
exec(open(H + '/tools/design_notes.py').read(), notes)
titles = {}
for l in open(H + '/properties.jsonl'):
    d = json.loads(l)
    titles[d['id']] = d['title']
out = []
for p in sorted(titles):
    fs = sorted(q for q, c in REGISTRY.items() if p in c.props)
    ok = [q for q in fs if REGISTRY[q].symbolic and not REGISTRY[q].bounded and
          base.get(q, {}).get('status') == 'proved']
    no = [q for q in fs if q not in ok]
    out.append('### %s %s' % (p, titles[p]))
    out.append(notes['NOTES'][p].strip())
    if ok:
        out.append('Proved (%d): %s.' % (len(ok), ', '.join('`%s`' % q for q in ok)))
    if no:
        out.append('Bounded (%d): %s.' % (len(no), ', '.join('`%s`' % q for q in no)))
    out.append('')
props = '\n'.join(out)
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(d))
    b = d.split('/')[-2]
    rows.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'],
                                           notes['CAUGHT'].get(b, 'not run')))
s = open(H + '/tools/design.tmpl.md').read()
s = s.replace('@@PROPS@@', props).replace('@@SEEDED@@', '\n'.join(rows))
open(H + '/DESIGN.md', 'w').write(s)
