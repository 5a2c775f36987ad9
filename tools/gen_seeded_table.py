"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only)."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | what it breaks | needs |', '|---|---|---|']
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['what_it_breaks'].replace('|', '/'),
                                     d['needs'].replace('|', '/')))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'(<!-- seeded-table -->\n).*?(<!-- /seeded-table -->)',
           lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
