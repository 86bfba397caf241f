"""writes the table of planted bugs into DESIGN.md (run by hand): mkdesign.py"""
import glob, json, os
rows = ['| bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | `./check %s` | %s | %s |' % (os.path.basename(d), m['property'], m['what_it_breaks'], m['needs']))
s = open('/verif/DESIGN.md').read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->'
i, j = s.index(a) + len(a), s.index(b)
open('/verif/DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
