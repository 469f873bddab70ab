#!/usr/bin/env python3
"""fills the generated parts of DESIGN.md: findings, fixes, planted bugs (between markers)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
kf = json.load(open(V + '/known_findings.json'))
parts = {
    'FINDINGS': '\n'.join('* `%s` (%s): %s' % (f['id'], ' '.join(f['properties']) if len(f['properties']) < 8 else 'most properties', f['what']) for f in kf['findings']),
    'FIXED': '\n'.join('* ' + x.replace('fixed: property=', '') for x in kf['fixed']),
}
rows = []
cb = json.load(open(V + '/tools/caught.json'))
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('\n', ' '), cb.get(d, '?')))
parts['BUGS'] = '| bug | property | what it breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(rows)
s = open(V + '/DESIGN.md').read()
for k, t in parts.items():
    new = '<!-- %s -->\n%s\n<!-- /%s -->' % (k, t, k)
    s = s.replace('@%s@' % k, new)
    s = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (k, k), lambda m: new, s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
