"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | caught by | what it breaks |', '|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m.get('caught_by', m['property']),
                                     m['what_it_breaks'].replace('|', '\\|').replace('\n', ' ')))
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- planted -->.*?<!-- end -->', lambda _: '<!-- planted -->\n' + '\n'.join(rows) + '\n<!-- end -->', s, flags=re.S)
open(p, 'w').write(s)
