"""Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json (run by hand)."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | needs | breaks |', '|---|---|---|---|']
for i in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', i, 'meta.json')))
    rows.append(f'| {i} | {m["property"]} | {m["needs"]} | {m["what_it_breaks"]} |')
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
a = s.index('## Planted bugs')
head = '''## Planted bugs

Each was written from the statement of a property and the code, confirmed in a scratch copy (stable tests pass, demonstration fails), and kept
in `seeded/` whether or not it was caught at first. All are caught by the quick check of their property (column two), as last run on this tree.
Missed at first, and the reason for a unit that was added or sharpened: `bell-memo` (containers changed in place), `cartesian-byte-indices`
(long products), `list-of-functions-limit` (long lists), `legendre-single-precision` (the tolerance was a crude bound; it now follows the sizes
of the terms).

'''
open(p, 'w').write(s[:a] + head + '\n'.join(rows) + '\n')
