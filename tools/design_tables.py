# fills the tables of DESIGN.md from seeded/ and known-findings.txt
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(V, 'DESIGN.md')).read()
rows = ['<!--seeds-->', '| change | what it breaks | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['what_it_breaks'].rstrip('.'), m['needs'].rstrip('.'), m.get('caught_by', m['property'])))
fix = ['<!--fixes-->', '| property | commit | what failed |', '|---|---|---|']
for l in open(os.path.join(V, 'known-findings.txt')):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: fix.append('| %s | %s | %s |' % m.groups())
for tag, t, mark in (('seeds', rows, 'SEEDTABLE'), ('fixes', fix, 'FIXTABLE')):
    t = '\n'.join(t) + '\n<!--/%s-->' % tag
    s = s.replace(mark, t) if mark in s else re.sub(r'<!--%s-->.*?<!--/%s-->' % (tag, tag), lambda _: t, s, flags=re.S)
open(os.path.join(V, 'DESIGN.md'), 'w').write(s)
