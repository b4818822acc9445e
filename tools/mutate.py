#!/usr/bin/env python3
"""Mutation testing of the checks (development tool, no check uses it).

python3 tools/mutate.py COUNT SEED WORKERS [file-substring ...]
Every worker has its own copies of /repo and /verif, bound over the real ones in a user + mount namespace of its own, so that neither
is touched.  A mutant that the project's own tests pass is given to the checks of the properties anchored in its file; survivors are
written to /tmp/m/survivors.txt."""
import ast, os, sys, json, random, subprocess, difflib, time
SRC = 'src/infi/asi/'

def mutants(text):
    """list of (lineno, description, new text); edits by source position, one edit each"""
    tree = ast.parse(text)
    lines = text.splitlines(True)
    off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()))
    raw = text.encode()
    def span(n): return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    out = []
    def sub(n, new, what):
        a, b = span(n)
        out.append((n.lineno, what, (raw[:a] + new.encode() + raw[b:]).decode()))
    def src(n):
        a, b = span(n)
        return raw[a:b].decode()
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
    CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
    BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.FloorDiv: '*', ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&', ast.Mod: '//'}
    SWAP = {'be_uint_field': 'be_int_field', 'be_int_field': 'be_uint_field', 'UBInt8': 'SBInt8', 'UBInt16': 'ULInt16', 'UBInt32': 'ULInt32', 'UBInt64': 'ULInt64', 'bytearray_field': 'str_field',
            'SCSIReadCommand': 'SCSIWriteCommand', 'SCSIWriteCommand': 'SCSIReadCommand'}
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and n not in docs:
            if n.value is True: sub(n, 'False', 'True->False')
            elif n.value is False: sub(n, 'True', 'False->True')
            elif isinstance(n.value, int):
                t = src(n)
                for d in (1, -1):
                    if n.value + d < 0: continue
                    sub(n, hex(n.value + d) if t.lower().startswith('0x') else str(n.value + d), '%s->%d' % (t, n.value + d))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            sub(n, '(%s) %s (%s)' % (src(n.left), CMP[type(n.ops[0])], src(n.comparators[0])), 'cmp ' + CMP[type(n.ops[0])])
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            sub(n, '((%s) %s (%s))' % (src(n.left), BIN[type(n.op)], src(n.right)), 'binop ' + BIN[type(n.op)])
            sub(n, '(%s)' % src(n.left), 'binop left only')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            sub(n, '(' + o.join('(%s)' % src(v) for v in n.values) + ')', 'boolop')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): sub(n, '(%s)' % src(n.operand), 'drop not')
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            sub(n.test, 'True', 'cond True'); sub(n.test, 'False', 'cond False')
        elif isinstance(n, ast.Return) and n.value is not None: sub(n, 'return None', 'return None')
        elif isinstance(n, ast.Name) and n.id in SWAP: sub(n, SWAP[n.id], 'name ' + SWAP[n.id])
        elif isinstance(n, ast.ExceptHandler) and n.type is not None: sub(n.type, 'ZeroDivisionError', 'except nothing')
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                for i in range(len(n.args) - 1):
                    a, _ = span(n.args[i]); _, b = span(n.args[i + 1])
                    out.append((n.lineno, 'swap args', (raw[:a] + src(n.args[i + 1]).encode() + b', ' + src(n.args[i]).encode() + raw[b:]).decode()))
            if n.keywords and len(n.keywords) + len(n.args) > 1:
                for k in n.keywords:
                    a = off[k.lineno - 1] + k.col_offset; b = off[k.end_lineno - 1] + k.end_col_offset
                    pre = raw[:a].rstrip()
                    if pre.endswith(b','): out.append((n.lineno, 'drop ' + str(k.arg), (pre[:-1] + raw[b:]).decode()))
        for field in ('body', 'orelse', 'finalbody'):
            for st in (getattr(n, field, None) if isinstance(getattr(n, field, None), list) else []):
                if not isinstance(st, ast.stmt): continue
                if isinstance(n, ast.Module): continue
                if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) and not (isinstance(st, ast.Expr) and st.value in docs):
                    sub(st, 'pass', 'drop: ' + src(st)[:50].replace('\n', ' '))
    res, seen = [], set()
    for l, w, t in out:
        if t in seen or t == text: continue
        seen.add(t)
        try: compile(t, 'x', 'exec')
        except SyntaxError: continue
        res.append((l, w, t))
    return res

def worker(k):
    job = json.load(open('/tmp/m/job%d.json' % k))
    stable = set(x if isinstance(x, str) else x.get('id') for x in job['stable'])
    log = open('/tmp/m/log%d.txt' % k, 'w')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    for m in job['mutants']:
        path = os.path.join('/repo', m['file'])
        orig = open(path, newline='').read()
        try:
            open(path, 'w', newline='').write(m['text'])
            x = '/tmp/m/junit%d.xml' % k
            try:
                pt = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=20', '-o', 'junit_family=xunit2', '--junitxml=' + x, 'tests'],
                           cwd='/repo', env=env, capture_output=True, timeout=120)
                out = '/tmp/m/out%d.json' % k
                subprocess.run(['python3', '/opt/vp/results.py', out, 'junit:' + x], capture_output=True)
                d = json.load(open(out))
                passed = set(d.get('passed', []))
                dead = bool(stable - passed)
                if len(passed) < 20 and not job.get('shown'):
                    job['shown'] = 1; log.write(pt.stdout.decode()[-1500:] + '\n'); log.flush()
            except subprocess.TimeoutExpired: dead = True
            if dead: res = 'tests'
            else:
                res, t0 = None, time.time()
                for p in m['props']:
                    try: r = subprocess.run(['python3-vt', 'check.py', '--property', p, '--jobs', str(job['jobs'])], cwd='/verif', env=env, capture_output=True, text=True, timeout=900)
                    except subprocess.TimeoutExpired: res = 'TIMEOUT ' + p; break
                    if r.returncode == 1:
                        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                        res = 'caught %s %s%s' % (p, 'NOINPUT ' if v and v[0].endswith('no-failing-input-found') else '', '%.0fs' % (time.time() - t0)); break
                    elif r.returncode: res = 'ERROR %s rc=%d' % (p, r.returncode); break
                if res is None: res = 'SURVIVED %s' % ','.join(m['props'])
        finally: open(path, 'w', newline='').write(orig)
        line = '%s:%d [%s] %s' % (m['file'], m['line'], m['what'], res)
        log.write(line + '\n'); log.flush()
        if not (res == 'tests' or res.startswith('caught')):
            with open('/tmp/m/survivors.txt', 'a') as f:
                f.write(line + '\n')
                for l in difflib.unified_diff(orig.splitlines(), m['text'].splitlines(), lineterm='', n=0):
                    if l[:2] not in ('--', '++', '@@'): f.write('      ' + l[:200] + '\n')

def main():
    if sys.argv[1] == '--worker': return worker(int(sys.argv[2]))
    count, seed, workers = map(int, sys.argv[1:4])
    subs = sys.argv[4:]
    rnd = random.Random(seed)
    files_of = {}
    for l in open('/verif/properties.jsonl'):
        d = json.loads(l)
        files_of[d['id']] = d['anchors']['files']
    allm = []
    for root, ds, fs in os.walk('/repo/' + SRC):
        for f in sorted(fs):
            if not f.endswith('.py'): continue
            rel = os.path.relpath(os.path.join(root, f), '/repo')
            if subs and not any(s in rel for s in subs): continue
            ps = sorted((p for p in files_of if rel in files_of[p]), key=lambda p: (len(files_of[p]), p))
            extra = ['C07', 'C16', 'C28', 'C27', 'C15'] if '/cdb/' in rel or '/sense/' in rel else ['C20', 'C22', 'C23', 'C24']
            if rel.endswith('operation_code.py'): extra = ['C%02d' % i for i in range(3, 15)] + ['C28']
            ps += [p for p in extra if p not in ps]
            text = open('/repo/' + rel, newline='').read()
            ms = mutants(text)
            rnd.shuffle(ms)
            allm.append([(rel, ps, m) for m in ms])
    print('mutants available:', sum(map(len, allm)), 'in', len(allm), 'files')
    # spread over files, proportionally to the square root of their number
    tot = sum(len(x) ** .6 for x in allm)
    pick = []
    for x in allm: pick += x[:max(1, round(count * len(x) ** .6 / tot))]
    rnd.shuffle(pick)
    pick = pick[:count]
    stable = json.load(open('/opt/vp/BASELINE.json'))
    stable = stable.get('stable') or stable.get('passed') or stable.get('tests') if isinstance(stable, dict) else stable
    ps = []
    for k in range(workers):
        mine = pick[k::workers]
        json.dump(dict(stable=stable, jobs=max(1, 8 // workers), mutants=[dict(file=r, props=p, line=m[0], what=m[1], text=m[2]) for r, p, m in mine]), open('/tmp/m/job%d.json' % k, 'w'))
        for n in ('repo', 'verif'): subprocess.check_call('/bin/rm -rf /tmp/m/%s%d && cp -a /%s /tmp/m/%s%d' % (n, k, n, n, k), shell=True)
        ps.append(subprocess.Popen(['unshare', '-Urm', 'sh', '-c', 'mount --bind /tmp/m/repo%d /repo && mount --bind /tmp/m/verif%d /verif && cd /verif && exec python3 tools/mutate.py --worker %d' % (k, k, k)]))
    for p in ps: p.wait()

if __name__ == '__main__': main()
