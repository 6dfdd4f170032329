"""Fills the tables of DESIGN.md (template: tools/design.tmpl.md) from the properties, fixes and planted bugs."""
import glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
import doc
t = open(os.path.join(ROOT, 'tools/design.tmpl.md')).read()
rows = []
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(l)
    rows.append('**%s %s.**  %s' % (p['id'], p['title'], doc.DESIGN[p['id']]))
fixes = ['| %s | %s | %s |' % (k['property'], k['commit'], k['what']) for k in json.load(open(os.path.join(ROOT, 'known_findings.json')))]
res = json.load(open(os.path.join(ROOT, 'tools/caught.json'))) if os.path.exists(os.path.join(ROOT, 'tools/caught.json')) else {}
bugs = ['| bug | property | what it breaks | needs | check |', '|---|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded/*'))):
    m = json.load(open(d + '/meta.json'))
    n = os.path.basename(d)
    bugs.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'], m['needs'], res.get(n, 'not run')))
t = t.replace('@@TABLE@@', '\n\n'.join(rows)).replace('@@FIXES@@', '\n'.join(fixes)).replace('@@BUGS@@', '\n'.join(bugs))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(t)
