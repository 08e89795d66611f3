"""Writes MANIFEST.json from the check modules present in vt/checks."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    f = os.path.join(H, 'vt', 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append(dict(property=p['id'], reason='check not built yet'))
        continue
    src = open(f).read()
    m = re.search(r'^TECHNIQUE = (.+)$', src, re.M)
    n = re.search(r'^LEVEL_NOTE = (.+)$', src, re.M)
    checks.append(dict(property=p['id'], quick_cmd='python3 run.py %s' % p['id'],
                       thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'], technique=eval(m.group(1)), level='exploration',
                       level_note=eval(n.group(1))))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='Every check is run.py + vt/checks/<id>.py: Hypothesis-driven generated-input search with shrinking and '
                     'replay files; no hooks in /repo.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
