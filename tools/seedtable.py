#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between <!-- seeds --> and <!-- /seeds -->) from seeded/*/meta.json."""
import json, os, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| seed | needs | what it breaks | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(d)); t = ' '.join(m['what_it_breaks'].split()).replace('|', '\\|')
    n = ' '.join(m['needs'].split()).replace('|', '\\|'); rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), n, t, m['property']))
p = ROOT + '/DESIGN.md'; s = open(p).read()
a, b = s.split('<!-- seeds -->'); rest = b.split('<!-- /seeds -->')[1] if '<!-- /seeds -->' in b else '\n'
open(p, 'w').write(a + '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->' + rest)
