"""Development tool: fills the generated parts of DESIGN.md (findings, seeds) from their sources."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()


def block(name, text):
    global s
    a, b = '<!-- %s -->' % name, '<!-- /%s -->' % name
    t = a + '\n' + text + '\n' + b
    if '@@%s@@' % name in s:
        s = s.replace('@@%s@@' % name, t)
    else:
        i, j = s.index(a), s.index(b)
        s = s[:i] + t + s[j + len(b):]


F = [json.loads(l) for l in open(os.path.join(V, 'known_findings.jsonl')) if l.strip()]
block('FINDINGS', '\n'.join(['* known %s: %s' % (f['property'], f['what']) for f in F if f['status'] == 'known'] + ['* ' + f['what'] for f in F if f['status'] == 'fixed']))
sd = os.path.join(V, 'seeded')
rows = ['| id | property | what it breaks | needs | caught |', '|---|---|---|---|---|']
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, 'meta.json')))
    rows.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs'], m.get('caught', 'yes')))
block('SEEDS', '\n'.join(rows))
open(p, 'w').write(s)
