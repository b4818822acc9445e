"""Plant a bug in /repo, confirm it (builds, stable tests pass, demo fails), run its check, undo it.
Used from a script: from plant import plant; plant(id, prop, [(file, old, new)], demo_source, needs, breaks)
or: plant.py recheck [ID...]   apply each kept patch, run the check of its property, undo."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
A = 'src/infi/asi/'
def sh(cmd, cwd=REPO, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr
def clean(): return sh('git status --porcelain')[1].strip() == ''
def undo(): sh('git checkout -- .')
def tests_missing():
    out = '/tmp/plant_out.json'
    sh('bash /opt/vp/test.sh ' + out)
    b, o = json.load(open('/opt/vp/BASELINE.json')), json.load(open(out))
    os.unlink(out)
    return [t for t in b['stable'] if t not in o['passed']]
def check(prop):
    rc, o = sh('python3-vt check.py --property %s --tier quick' % prop, cwd=HERE)
    v = [l for l in o.splitlines() if l.startswith('VIOLATION') or 'failed obligation' in l]
    return rc, v[:4] if v else o.splitlines()[-3:]
def plant(id, prop, edits, demo, needs, breaks, run_check=True):
    assert clean(), 'dirty /repo'
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    ok = True
    try:
        for f, old, new in edits:
            p = os.path.join(REPO, A, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff')[1])
        open(os.path.join(d, 'demo.py'), 'w').write(demo)
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        rc, o = sh('bash /opt/vp/build.sh'); assert rc == 0, o[-800:]
        miss = tests_missing(); ok &= not miss
        drc, do = sh('bash %s/demo.sh' % d)
        ok &= drc != 0
        print('%s: tests missing %s; demo with patch rc=%d %s' % (id, miss, drc, do.strip().splitlines()[-1:] ))
        if run_check:
            rc, v = check(prop)
            print('   check rc=%d' % rc); [print('     ', l[:260]) for l in v]
    finally:
        undo()
        sh('bash /opt/vp/build.sh')
    drc, do = sh('bash %s/demo.sh' % d)
    ok &= drc == 0
    print('   demo without patch rc=%d %s  => %s' % (drc, do.strip()[-200:] if drc else '', 'KEEP' if ok else 'REJECT'))
    return ok
def recheck(ids):
    for id in ids:
        d = os.path.join(HERE, 'seeded', id)
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        assert clean()
        try:
            rc, o = sh('git apply %s/patch.diff' % d); assert rc == 0, o
            rc, v = check(prop)
        finally: undo()
        print('%-28s %s rc=%d %s' % (id, prop, rc, v[-1][-60:] if rc != 1 else ('CAUGHT %s' % ('no-input' if v[-1].endswith('found') else ''))), flush=True)
if __name__ == '__main__' and sys.argv[1:2] == ['recheck']:
    recheck(sys.argv[2:] or sorted(os.listdir(os.path.join(HERE, 'seeded'))))
