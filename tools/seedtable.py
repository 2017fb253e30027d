# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + '/tools/caught.json'))
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/' + i + '/meta.json'))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], ', '.join(caught.get(i, [])) or '-'))
s = open(V + '/DESIGN.md').read()
a = '<!-- seeded table -->'
b = '<!-- end -->'
if 'SEEDED_TABLE' in s:
    s = s.replace('SEEDED_TABLE', a + '\n' + b)
s = s[:s.index(a)] + a + '\n' + '\n'.join(rows) + '\n' + s[s.index(b):]
open(V + '/DESIGN.md', 'w').write(s)
