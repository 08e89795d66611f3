#!/usr/bin/env python3
"""Keep or try a planted bug.

seedbug.py new ID PROPERTY 'needs' 'what it breaks' FILE   (stdin: OLD\n=====\nNEW\n#####\ndemo python source)
seedbug.py try [ID ...]      demo on the clean tree and with the patch, stable tests, then the property's quick check
"""
import json, os, shutil, subprocess, sys, time
V, R = '/verif', '/repo'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def clean():
    assert not sh('git -C %s status --short' % R).stdout.strip(), 'repo is dirty'


def new(id, prop, needs, breaks, *files):
    clean()
    txt = sys.stdin.read()
    edits, demo = txt.split('\n#####\n')
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    parts = edits.split('\n@@@@@\n')
    assert len(parts) == len(files)
    for f, p in zip(files, parts):
        old, nw = p.split('\n=====\n')
        old, nw = old.strip('\n'), nw.strip('\n')
        fn = os.path.join(R, 'onnx_tool', f)
        s = open(fn).read()
        assert s.count(old) == 1, (f, s.count(old))
        open(fn, 'w').write(s.replace(old, nw))
    open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C %s diff' % R).stdout)
    sh('git -C %s checkout -- .' % R)
    open(os.path.join(d, 'demo.py'), 'w').write('import sys, os\nsys.path.insert(0, os.getcwd())\n' + demo)
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return try_(id)


def try_(id, check=True):
    clean()
    d = os.path.join(V, 'seeded', id)
    prop = json.load(open(d + '/meta.json'))['property']
    a = sh('bash %s/demo.sh' % d, cwd=R)
    if a.returncode:
        print(id, 'DEMO FAILS ON CLEAN TREE', a.stdout[-500:], a.stderr[-1500:])
        return
    p = sh('git -C %s apply %s/patch.diff' % (R, d))
    if p.returncode:
        print(id, 'PATCH DOES NOT APPLY', p.stderr)
        return
    try:
        blame(d)
        b = sh('bash %s/demo.sh' % d, cwd=R)
        sh('bash /opt/vp/build.sh')
        sh('bash /opt/vp/test.sh /tmp/seed_out.json')
        base = json.load(open('/opt/vp/BASELINE.json'))
        out = json.load(open('/tmp/seed_out.json'))
        bs = set(base['stable'])
        ok = bs <= set(out.get('passed', []))
        if b.returncode == 0:
            print(id, 'DEMO PASSES WITH PATCH')
        if not ok:
            print(id, 'TESTS FAIL', sorted(bs - set(out.get('passed', [])))[:5])
        res = ''
        if check:
            man = json.load(open(V + '/MANIFEST.json'))
            t = time.time()
            c = sh('/opt/venv/bin/python run.py %s --tier quick' % prop, cwd=V)
            res = 'CAUGHT' if c.returncode == 1 and 'VIOLATION property=%s' % prop in c.stdout else 'MISSED rc=%d' % c.returncode
            lines = [l for l in c.stdout.splitlines() if l.startswith(prop + '/')]
            res += ' %.0fs | ' % (time.time() - t) + '; '.join(l[:160] for l in lines)
            if 'MISSED' in res:
                res += c.stdout[-300:] + c.stderr[-500:]
        print(id, prop, 'demo', a.returncode, '->', b.returncode, 'tests', ok, res, flush=True)
    finally:
        sh('git -C %s checkout -- .' % R)


def blame(d):
    """the patch must remove lines of the original repository only"""
    base = sh('git -C %s rev-list --max-parents=0 HEAD' % R).stdout.strip()
    base = BASE
    for l in open(d + '/patch.diff'):
        if l.startswith('-') and not l.startswith('---') and l[1:].strip():
            r = sh("git -C %s grep -nF -e '%s' %s -- onnx_tool inference" % (R, l[1:].strip().replace("'", "'\\''"), base))
            if r.returncode:
                print('  line not in the original repository:', l.rstrip())


BASE = '89df6a5'
if __name__ == '__main__':
    if sys.argv[1] == 'new':
        new(*sys.argv[2:])
    else:
        for i in sys.argv[2:] or sorted(os.listdir(V + '/seeded')):
            try_(i)
