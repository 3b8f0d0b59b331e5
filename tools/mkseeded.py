"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B = '<!-- seeded -->\n', '<!-- /seeded -->\n'
MISSED = set('''c08-lone-space c24-tuple c25-graphics-threads
c29-section-style-leak c30-nested-fills c30-span-padding c32-dests-kept
c32-outline-count c35-table-rest c36-min-height'''.split()) | {
    x.strip() for x in os.environ.get('MISSED', '').split(',') if x.strip()}
rows = []
for f in sorted(glob.glob(os.path.join(here, 'seeded/*/meta.json'))):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s%s | %s |' % (
        n, m['property'], ' (missed at first)' if n in MISSED else '',
        m['what_it_breaks'].replace('|', '/').rstrip('.')))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
a, b = s.index(A) + len(A), s.index(B)
open(p, 'w').write(s[:a] + '| bug | caught by | what it breaks |\n'
                   '|---|---|---|\n' + '\n'.join(rows) + '\n' + s[b:])
