"""regenerates the generated parts of DESIGN.md from tools/design.tmpl, spec.py, known_findings.txt and seeded/"""
import os, sys, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from spec import PROPS, NA
t = open(os.path.join(H, 'tools', 'design.tmpl')).read()
p = []
for x in PROPS:
    p.append('### %s %s\n\n%s\n\n*Level:* %s. *How decided:* %s\n\n*Anchors:* %s\n' % (x['id'], x['title'], x['statement'], x.get('level', 'proof'), x['note'], '; '.join('%s (%s)' % m for m in x['mech'])))
p.append('### Not applicable\n')
for x in NA:
    p.append('* **%s %s** - %s' % (x['id'], x['title'], x['reason']))
f = [l[:-1] for l in open(os.path.join(H, 'known_findings.txt')) if l.strip() and not l.startswith('#')]
b = ['| bug | property | needs | caught by |', '|---|---|---|---|']
c = json.load(open(os.path.join(H, 'tools', 'caught.json')))
for d in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', d, 'meta.json')))
    b.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), c.get(d, '?')))
g = sorted(set(c) - set(os.listdir(os.path.join(H, 'seeded'))))
if g:
    b.append('\nEarlier planted bugs, no longer kept, were caught too: ' + '; '.join('%s (%s)' % (x, c[x]) for x in g) + '.')
t = t.replace('@@PROPS@@', '\n'.join(p)).replace('@@FINDINGS@@', '\n'.join('* `%s`' % x for x in f)).replace('@@BUGS@@', '\n'.join(b)).replace('@@ALARMS@@', open(os.path.join(H, 'tools', 'alarms.md')).read())
open(os.path.join(H, 'DESIGN.md'), 'w').write(t)
