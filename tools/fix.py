"""fix.py PROPERTY 'subject' ['body']: commit /repo's working tree as a fix: commit and record it."""
import json, subprocess, sys
prop, subj = sys.argv[1:3]
body = sys.argv[3] if len(sys.argv) > 3 else ''
KF = '/verif/known_findings.json'
if subj != '--record':
    r = subprocess.run('bash /opt/vp/build.sh >/tmp/b.log 2>&1 && bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; tail -1 /tmp/t.log', shell=True, capture_output=True, text=True)
    print(r.stdout.strip())
    res = json.load(open('/tmp/t.json'))
    subprocess.check_call(['git', '-C', '/repo', 'commit', '-qam', 'fix: ' + subj + ('\n\n' + body if body else '')])
    what = subj
else:
    what = body
sha = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '--short', sys.argv[4] if len(sys.argv) > 4 else 'HEAD'], text=True).strip()
try:
    k = json.load(open(KF))
except FileNotFoundError:
    k = dict(findings=[], fixed=[])
k['fixed'].append('fixed: property=%s %s %s' % (prop, sha, what))
json.dump(k, open(KF, 'w'), indent=1, ensure_ascii=False)
print(k['fixed'][-1])
