"""Fills the generated tables of DESIGN.md (by hand; seeded/ is only read here)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def table():
    rows = ['| planted bug | caught by | needs |', '|---|---|---|']
    d = os.path.join(HERE, 'seeded')
    items = []
    for name in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, name, 'meta.json')))
        items.append((m['property'], name, m['needs']))
    for p, name, needs in sorted(items):
        rows.append(f'| {name} | {p} | {needs} |')
    return '\n'.join(rows)


p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- seeded -->\n', '\n<!-- /seeded -->'
if '@SEEDED@' in s:
    s = s.replace('@SEEDED@', a + b)
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + table() + s[j:]
open(p, 'w').write(s)
