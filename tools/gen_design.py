"""writes the table of planted bugs into DESIGN.md: gen_design.py [log of seedbug try]"""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(H, 'DESIGN.md')
s = open(D).read()
old = dict(re.findall(r'^\| (\S+) \| \S+ \| .*? \| (.*?) \|$', s, re.M))
for l in open(sys.argv[1]) if len(sys.argv) > 1 else []:
    m = re.match(r'(\S+) (C\d\d) demo .* (CAUGHT|MISSED)', l)
    if m:
        w = sorted(set(re.findall(r'(?:\| |; )(C\d\d/\w+):', l)))
        old[m[1]] = ' '.join(w) or m[2] if m[3] == 'CAUGHT' else 'missed'
rows = ['| id | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), old.get(d, '?')))
s = re.sub(r'<!-- table -->.*<!-- end -->', lambda _: '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end -->', s, flags=re.S)
open(D, 'w').write(s)
