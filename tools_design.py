#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and CATCHES below."""
import glob, json, os, re
here = os.path.dirname(os.path.abspath(__file__))
NOTE = {'zero-sign': 'missed at first (multiplicity patterns of 5 roots added)', 'multiplicity': 'missed at first (roots of multiplicity 4 added)',
        'last-clause': 'missed at first (multi-relation sequents through the driver added)'}
note = os.path.join(here, 'tools_design_notes.json')
if os.path.exists(note):
    NOTE.update(json.load(open(note)))
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    n = os.path.basename(os.path.dirname(m))
    rows.append('| %s | %s | %s | %s |' % (n, d['property'], d['needs'], (d['property'] + ' quick; ' + NOTE[n]) if n in NOTE and not NOTE[n].startswith('!') else NOTE[n][1:] if n in NOTE else d['property'] + ' quick'))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
