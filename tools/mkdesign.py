#!/usr/bin/env python3
"""refresh the table of planted bugs in DESIGN.md from seeded/*/meta.json (caught: checks reported by tools/trybug.py)"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | property | needs | what breaks |', '|-|-|-|-|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (f.split('/')[-2], d['property'], d['needs'].replace('|', '/'), d['what_it_breaks'].replace('|', '/')))
p = V + '/DESIGN.md'
t = open(p).read()
new = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
t = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: new, t, flags=re.S) if '<!-- seeds -->' in t else t.replace('SEEDTABLE', new)
open(p, 'w').write(t)
