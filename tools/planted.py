"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = json.load(open(os.path.join(here, 'tools/missed.json')))
rows = ['| change | needs | caught by | at first |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(here, 'seeded/*/meta.json'))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append(f"| {i} | {m['needs']} | {m.get('caught_by', m['property'])} | {MISSED.get(i, 'caught')} |")
p = os.path.join(here, 'DESIGN.md'); s = open(p).read()
a, b = '<!-- planted:begin -->', '<!-- planted:end -->'
s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(rows) + '\n' + s[s.index(b):]
open(p, 'w').write(s)
