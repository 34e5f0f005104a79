#!/usr/bin/env python3
"""Fills the tables of planted bugs and findings in DESIGN.md."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
# bugs that the check of their property does not report
MISSED = {}
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = os.path.join(here, 'seeded', d, 'meta.json')
    if os.path.exists(m):
        m = json.load(open(m))
        rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '\\|'), MISSED.get(d, m['property'])))
finds = []
for l in open(os.path.join(here, 'known-findings.txt')):
    m = re.match(r'(fixed|known): property=(C\d+) (.*)', l)
    if m:
        finds.append('- %s %s: %s' % (m.group(2), m.group(1), m.group(3)))
def put(s, a, b):
    begin, end = '<!-- %s -->' % a, '<!-- end %s -->' % a
    block = begin + '\n' + b + '\n' + end
    if '@@%s@@' % a.upper() in s:
        return s.replace('@@%s@@' % a.upper(), block)
    return re.sub(re.escape(begin) + '.*?' + re.escape(end), lambda _: block, s, flags=re.S)
s = put(s, 'seeds', '\n'.join(rows))
s = put(s, 'findings', '\n'.join(finds))
open(p, 'w').write(s)
