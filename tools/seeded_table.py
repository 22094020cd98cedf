"""Rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json (also tried: checks of related properties)."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- seeded -->', '| change | property (check that reports it) | what it breaks |', '|---|---|---|']
for d in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s |' % (d.split('/')[-2], m['property'], m['what_it_breaks'].replace('|', '/')))
rows.append('<!-- /seeded -->')
p = here + '/DESIGN.md'
s = open(p).read()
s = s.replace('SEEDED_TABLE', '<!-- seeded -->\n<!-- /seeded -->')
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: '\n'.join(rows), s, flags=re.S)
open(p, 'w').write(s)
