#!/usr/bin/env python3
# Writes the table of planted bugs into DESIGN.md (between its markers).
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- planted -->', '| planted | property | what it needs |', '|---|---|---|']
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    d = json.load(open(f))
    rows.append('| %s | %s | %s |' % (f.split('/')[-2], d['property'], d['needs'].replace('|', '/')))
rows.append('<!-- /planted -->')
p = here + '/DESIGN.md'
s = open(p).read()
t = '\n'.join(rows)
if '@TABLE@' in s: s = s.replace('@TABLE@', t)
else: s = re.sub(r'<!-- planted -->.*<!-- /planted -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
