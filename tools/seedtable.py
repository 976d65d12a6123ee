"""rewrite the table of planted bugs in DESIGN.md"""
import json
import os
import re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set('I01-axsfcell I01-cifsym I03-stalehdr P01-matchfirst B05-ffloat P03-filecache X01-range T01-nanfill R01-onepoint '
             'C06-cellscalar R01-intderiv S02-intvel C08-meanorder'.split()) | set(
    l.strip() for l in open(os.path.join(here, 'tools', 'missed_first.txt')))
rows = {}
for i in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', i, 'meta.json')))
    rows.setdefault(m['property'], []).append('%s%s (%s)' % (i, '*' if i in MISSED else '', m['needs'].strip().rstrip('.')))
t = '\n'.join('* **%s**: %s.' % (k, '; '.join(v)) for k, v in sorted(rows.items()))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'(<!-- seedtable[^\n]*-->\n).*?(<!-- end -->)', lambda m: m.group(1) + '\n' + t + '\n\n' + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
print(len(rows), sum(len(v) for v in rows.values()))
