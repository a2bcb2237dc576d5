#!/usr/bin/env python3
"""prints the two generated tables of DESIGN.md (contracts per property, seeded changes) between their markers"""
import re, glob, json, os
os.chdir('/verif')
t = ['| property | title | contracts (one proof harness each) |', '|---|---|---|']
for l in open('properties.jsonl'):
    d = json.loads(l)
    f = 'contracts/%s.cpp' % d['id']
    if not os.path.exists(f): continue
    t.append('| %s | %s | %s |' % (d['id'], d['title'], ', '.join(re.findall(r'^CONTRACT\((\w+)', open(f).read(), re.M))))
s = ['| planted change | what it breaks | needs | caught by |', '|---|---|---|---|']
R = json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
for m in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(m)); n = m.split('/')[1]
    s.append('| %s | %s | %s | %s |' % (n, d['what_it_breaks'], d['needs'], R.get(n, d['property'] + ', failing input')))
x = open('DESIGN.md').read()
for name, tab in (('contracts', t), ('seeds', s)):
    x = re.sub(r'(<!-- %s -->\n).*?(<!-- end -->)' % name, lambda m: m.group(1) + '\n'.join(tab) + '\n' + m.group(2), x, flags=re.S)
open('DESIGN.md', 'w').write(x)
