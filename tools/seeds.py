#!/usr/bin/env python3
"""seeds.py RESULTS.json: writes the table of planted bugs into DESIGN.md.

RESULTS maps a directory of seeded/ to [property, caught, exit code, seconds]."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(sys.argv[1]))
rows = []
for i in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (HERE, i)))
    r = res.get(i)
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'),
                                           'not run' if r is None else 'caught' if r[1] else '**missed**'))
table = '''<!-- seeds -->
| change | property | needs | quick check |
|---|---|---|---|
%s
<!-- /seeds -->''' % '\n'.join(rows)
p = HERE + '/DESIGN.md'
s = open(p).read()
if '<!-- seeds -->' in s:
    s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: table, s, flags=re.S)
else:
    s += '''
## Planted bugs

Each directory of `seeded/` is a change that compiles, passes the repository's tests and breaks the
property named; it is judged by that property's quick check alone.

''' + table + '\n'
open(p, 'w').write(s)
