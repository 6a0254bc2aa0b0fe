"""Fills the tables of DESIGN.md (from DESIGN.in.md, props.py and catches.txt)."""
import re, os, json, subprocess
from props import PROPS
HERE = os.path.dirname(os.path.abspath(__file__))
def harnesses():
    out = {}
    for h in json.loads(subprocess.run([HERE + '/hx/target/debug/hx', 'list'], capture_output=True, text=True).stdout):
        out.setdefault(h['name'][:3].upper(), []).append((h['kind'], h['name']))
    return out
H = harnesses()
rows = []
for i, p in PROPS.items():
    h = H.get(i, [])
    v = ', '.join(p['verus']) or '-'
    k = ', '.join(f'{n} ({k})' for k, n in h if k != 'native') or '-'
    n = ', '.join(n for k, n in h if k == 'native') or '-'
    rows.append(f"| {i} | {v} | {k} | {n} |")
t = open(HERE + '/DESIGN.in.md').read().replace('@TABLE@', '\n'.join(rows))
c = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open(f'{HERE}/seeded/{d}/meta.json'))
    by = m.get('caught_by', '')
    c.append(f"| {d} | {m['property']} | {m['needs']} | {by} |")
open(HERE + '/DESIGN.md', 'w').write(t.replace('@CATCH@', '\n'.join(c)))
