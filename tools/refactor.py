#!/usr/bin/env python3
"""Behaviour-preserving edits of the code: the checks have to stay quiet, and should still decide (development tool, no check uses it).

python3 tools/refactor.py [name-substring ...]      runs each edit in a private copy (mount namespace); prints per property the exit
code and the number of undischarged obligations."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
S = 'src/infi/asi/'
R = []
def refactor(name, props, edits):
    """edits: [(file relative to src/infi/asi, old, new)]"""
    R.append((name, props.split(), edits))
exec(open(os.path.join(HERE, 'refactor_list.py')).read())

def inside(k, names):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    for name, props, edits in R:
        if name not in names: continue
        saved = {}
        try:
            for f, old, new in edits:
                p = '/repo/' + S + f
                t = open(p, newline='').read()
                saved.setdefault(p, t)
                if t.count(old) < 1: print('%s: NO MATCH in %s: %s' % (name, f, old[:60])); break
                open(p, 'w', newline='').write(t.replace(old, new))
            else:
                subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60', '-o', 'junit_family=xunit2', '--junitxml=/tmp/m/rj%d.xml' % k, 'tests'], cwd='/repo', env=env, capture_output=True)
                subprocess.run(['python3', '/opt/vp/results.py', '/tmp/m/ro%d.json' % k, 'junit:/tmp/m/rj%d.xml' % k], capture_output=True)
                missing = stable - set(json.load(open('/tmp/m/ro%d.json' % k))['passed'])
                line = '%-38s' % name + (' TESTS FAIL %d' % len(missing) if missing else '')
                for p in props:
                    t0 = time.time()
                    r = subprocess.run(['python3-vt', 'check.py', '--property', p, '--verbose'], cwd='/verif', env=env, capture_output=True, text=True)
                    un = [l for l in r.stdout.splitlines() if l.startswith('  undischarged')]
                    line += ' %s:%s%s(%.0fs)' % (p, 'ok' if r.returncode == 0 else 'ALARM' if r.returncode == 1 else 'RC%d' % r.returncode, ' undischarged=%d' % len(un) if un else '', time.time() - t0)
                    if un or r.returncode: open('/tmp/m/rf.%s.%s.txt' % (name, p), 'w').write(r.stdout + r.stderr)
                print(line, flush=True)
        finally:
            for p, t in saved.items(): open(p, 'w', newline='').write(t)

def main():
    if sys.argv[1:2] == ['--inside']: return inside(int(sys.argv[2]), sys.argv[3:])
    names = [n for n, p, e in R if not sys.argv[1:] or any(s in n for s in sys.argv[1:])]
    k = os.getpid()
    for n in ('repo', 'verif'): subprocess.check_call('cp -a /%s /tmp/m/%s%d' % (n, n, k), shell=True)
    try: subprocess.call(['unshare', '-Urm', 'sh', '-c', 'mount --bind /tmp/m/repo%d /repo && mount --bind /tmp/m/verif%d /verif && cd /verif && exec python3 tools/refactor.py --inside %d "$@"' % (k, k, k), 'sh'] + names)
    finally:
        for n in ('repo', 'verif'): subprocess.call(['rm', '-rf', '/tmp/m/%s%d' % (n, k)])

main()
