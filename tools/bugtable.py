#!/usr/bin/env python3
"""Writes the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (HERE, d)))
    rows.append((m['property'], d, m['needs'].replace('|', '/')))
text = '| check | planted bug | manifests with |\n| --- | --- | --- |\n' + ''.join(
    '| %s | %s | %s |\n' % r for r in sorted(rows))
p = HERE + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- bugs -->\n', '<!-- /bugs -->\n'
s = s.replace('@@TABLE@@\n', a + b)
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + text + s[j:])
