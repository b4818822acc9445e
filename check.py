#!/usr/bin/env python3-vt
"""Decide one property of /repo: python3-vt check.py --property C01 --tier quick|thorough

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed."""
import logging; logging.disable(logging.CRITICAL)
import warnings; warnings.simplefilter("ignore")
import sys, os, json, time, argparse, subprocess, hashlib, tempfile, importlib, traceback, multiprocessing, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PYPY = '/opt/venv/bin/python'

def limit_memory():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))

def sh_pypy(args, timeout, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore')
    if env: e.update(env)
    try:
        p = subprocess.run([PYPY, '-W', 'ignore', os.path.join(HERE, 'engine/concrete.py')] + args, capture_output=True, text=True, timeout=timeout, env=e, preexec_fn=limit_memory)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as ex:
        return 124, text(ex.stdout), 'timeout'

def text(b): return b.decode('utf-8', 'replace') if isinstance(b, bytes) else b or ''

class Covered(object):
    """functions of the code under test that were executed"""
    def __init__(self, root):
        self.root, self.seen = root, set()
    def start(self):
        try:
            m = sys.monitoring
            m.use_tool_id(4, 'verif')
            def cb(code, off):
                if code.co_filename.startswith(self.root):
                    self.seen.add(code.co_filename[len(self.root):].lstrip('/') + ':' + code.co_qualname)
                return m.DISABLE
            m.register_callback(4, m.events.PY_START, cb)
            m.set_events(4, m.events.PY_START)
        except Exception: pass
    def reset(self):
        self.seen.clear()
        try: sys.monitoring.restart_events()
        except Exception: pass

def prove(args):
    """run one contract symbolically (in a forked worker)"""
    idx, tier, cfg = args
    from engine import explore, snapshot
    c = WORK[idx]
    COV.reset()
    try:
        rec = explore.explore(c.fn, c.name, timeout_ms=cfg['timeout_ms'], max_paths=cfg['max_paths'], budget_s=cfg['budget_s'],
                              recheck=(tier == 'thorough'), snapshot=SNAP)
        return dict(name=c.name, obs=rec.obs, covers=rec.covers, violations=rec.violations, undec=rec.undec[:40], paths=rec.paths,
                    stats=rec.stats, wall=rec.wall, rechecks=rec.rechecks, functions=sorted(f for f in COV.seen if not f.endswith(':<module>')))
    except BaseException as e:
        return dict(name=c.name, obs={}, covers={}, violations=[], undec=[('(engine)', traceback.format_exc()[-800:])], paths=0, stats={}, wall=0,
                    rechecks={}, functions=[])

WORK, SNAP, COV = [], None, None
MEM_MB = 5000           # a worker that grows past this is ended; its contract falls back to the bounded check

def lost(name, why):
    return dict(name=name, obs={}, covers={}, violations=[], undec=[('(engine)', why)], paths=0, stats={}, wall=0, rechecks={}, functions=[])

def rss_mb(pid):
    try: return int(open('/proc/%d/statm' % pid).read().split()[1]) // 256
    except (OSError, ValueError, IndexError): return 0

def prove_all(jobs, width, until):
    """one forked process per contract, at most `width` at a time; none outlives its budget or the overall time"""
    from multiprocessing.connection import wait
    ctx = multiprocessing.get_context('fork')
    todo, running, done = list(jobs), {}, {}
    def child(conn, job):
        conn.send(prove(job))
        conn.close()
    try:
        while todo or running:
            while todo and len(running) < width and time.time() < until:
                j = todo.pop(0)
                r, w = ctx.Pipe(False)
                p = ctx.Process(target=child, args=(w, j), daemon=True)
                p.start()
                w.close()
                running[r] = (p, j, time.time())
            if todo and not running:
                for j in todo: done[j[0]] = lost(WORK[j[0]].name, 'no time left to run this contract')
                break
            ready = wait(list(running), timeout=0.5)
            for r in list(running):
                p, j, t = running[r]
                name, end = WORK[j[0]].name, None
                if r in ready:
                    try: end = r.recv()
                    except (EOFError, OSError): end = lost(name, 'the worker process died')
                elif time.time() > min(t + j[2]['budget_s'] * 1.2 + 20, until + 20): end = lost(name, 'the worker process gave no answer in time')
                elif rss_mb(p.pid) > MEM_MB: end = lost(name, 'the worker process used too much memory')
                if end is not None:
                    done[j[0]] = end
                    p.kill()
                    p.join()
                    r.close()
                    del running[r]
    finally:
        for p, j, t in running.values(): p.kill()
    return [done[j[0]] for j in jobs]

class ImportTimeout(BaseException): pass
def load_under_test(seconds=60):
    """import the code under test; code that never finishes importing is given up"""
    import signal
    from contracts import _preload
    def tick(*a): raise ImportTimeout('importing the code under test took more than %d s' % seconds)
    old = signal.signal(signal.SIGALRM, tick)
    signal.setitimer(signal.ITIMER_REAL, seconds, 1)
    try: _preload.load_all()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)

def main():
    global WORK, SNAP, COV
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--no-fuzz', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    deadline = t0 + (800 if tier == 'thorough' else 500)
    cfg = dict(timeout_ms=5000, max_paths=4000, budget_s=150) if tier == 'quick' else dict(timeout_ms=30000, max_paths=40000, budget_s=400)

    from engine import loader, sym, registry, known
    loader.install()
    sym.Ctx().begin_path([])
    import_error = None
    import contracts
    mods = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'contracts')) if f.endswith('.py') and not f.startswith('_'))
    for m in mods: importlib.import_module('contracts.' + m)
    try:
        load_under_test()
    except BaseException as e:
        import_error = traceback.format_exc()
    COV = Covered(loader.REPO_SRC)
    COV.start()
    allc = [c for c in registry.CONTRACTS if c.prop == a.property and (not a.only or a.only in c.name)]
    if not allc:
        print('check error: no contracts for %s' % a.property)
        return 2
    from engine import snapshot
    results = []
    if import_error is None:
        SNAP = snapshot.Snapshot()
        WORK = [c for c in allc if c.symbolic]
        jobs = [(i, tier, cfg) for i in range(len(WORK))]
        if a.jobs > 0: results = prove_all(jobs, a.jobs, t0 + (560 if tier == 'thorough' else 340))
        else: results = [prove(j) for j in jobs]      # --jobs 0: in this process, for debugging
    by = dict((r['name'], r) for r in results)

    # ---- replay counterexamples and cross-check / fall back concretely on the project's interpreter
    items, total_ob, disch, undec_list = [], 0, 0, []
    n_fall = 0
    for c in allc:
        r = by.get(c.name)
        inputs = []
        undec = r is None
        if r is not None:
            for v in r['violations']:
                if v['inputs'] is not None: inputs.append(v['inputs'])
            if r['undec'] or r['violations']: undec = True
        if not c.fuzz and not inputs: continue
        quick_runs = 60 if tier == 'quick' else 1500
        runs, secs = (quick_runs, 4 if tier == 'quick' else 40)
        if undec:
            runs, secs = (4000, 25) if tier == 'quick' else (40000, 120)
            n_fall += 1
        if c.bounded and not c.symbolic: runs, secs = (400, 20) if tier == 'quick' else (20000, 120)
        items.append(dict(contract=c.name, runs=runs if c.fuzz else 0, seconds=secs, inputs=inputs[:12]))
    fuzz = {}
    if items and not a.no_fuzz:
        fuzz = run_fuzz(a.property, items, seed, deadline, a.jobs)
    violations = []
    known_f = known.load(os.path.join(HERE, 'known_findings.json'), a.property)
    reported_known = []
    for c in allc:
        r, fz = by.get(c.name), fuzz.get(c.name)
        fail = fz and fz.get('failure')
        if fail:
            violations.append(dict(contract=c.name, label=fail['label'], detail=fail['detail'], inputs=fail['inputs'], confirmed=True,
                                   from_proof=bool(fail.get('from_replay')), doc=c.doc))
        elif r is not None and r['violations'] and c.inductive and not any(u[0].startswith('(') for u in r['undec']):
            v = r['violations'][0]
            violations.append(dict(contract=c.name, label=v['label'], detail=v['cond'], inputs=v['inputs'], confirmed=False, pc=v['pc'], exc=v['exc'], doc=c.doc))
        if r is not None:
            for label, o in r['obs'].items():
                total_ob += 1
                clean = (o['failed'] == 0 and o['unknown'] == 0 and o['reached'] > 0 and not any(u[0] == '(path)' or u[0].startswith('(') for u in r['undec']))
                if clean: disch += 1
                else: undec_list.append('%s: %s' % (c.name, label))
            if r['violations'] and not any(v['contract'] == c.name for v in violations):
                undec_list.append('%s: counter-model of "%s" does not fail on the real code (not reported)' % (c.name, r['violations'][0]['label']))
            for u in r['undec'][:3]: undec_list.append('%s: %s: %s' % (c.name, u[0], u[1]))
            for cv, ok in r['covers'].items():
                if not ok: undec_list.append('%s: cover "%s" not reached' % (c.name, cv))
        elif c.symbolic: undec_list.append('%s: not run symbolically (%s)' % (c.name, (import_error or '')[-300:]))
    new = []
    for v in violations:
        k = known.match(known_f, v)
        if k: reported_known.append((k, v))
        else: new.append(v)
    zero = any(r is not None and not r['obs'] and not r['undec'] for r in results)
    # ---- evidence
    back = {}
    for r in results:
        for o in r['obs'].values():
            for h, n in o['by'].items(): back[h] = back.get(h, 0) + n
    funcs = sorted(set(f for r in results for f in r['functions']))
    from engine import trusted
    fz_runs = sum(f['runs'] for f in fuzz.values())
    ev = dict(property=a.property, tier=tier, seed=seed, level=level_of(a.property),
              coverage=dict(
                  obligations=total_ob, discharged=disch,
                  checker_cmd='python3-vt /verif/check.py --property %s --tier %s' % (a.property, tier),
                  trusted_base=trusted.base(a.property),
                  contracts=[dict(name=c.name, targets=list(c.targets), says=' '.join(c.doc.split()), inductive=c.inductive,
                                  paths=by[c.name]['paths'] if c.name in by else 0,
                                  obligations=sorted(by[c.name]['obs']) if c.name in by else [],
                                  covers=by[c.name]['covers'] if c.name in by else {},
                                  bounded=c.bounded) for c in allc],
                  functions_under_contract=funcs,
                  paths=sum(r['paths'] for r in results),
                  discharges_by_back_end=back,
                  solver=dict(queries=sum(r['stats'].get('z3_queries', 0) for r in results), seconds=round(sum(r['stats'].get('z3_time', 0) for r in results), 2),
                              unknown=sum(r['stats'].get('z3_unknown', 0) for r in results)),
                  cvc5_recheck=dict((k, sum(r['rechecks'].get(k, 0) for r in results)) for k in ('agree', 'disagree', 'unknown')) if tier == 'thorough' else 'thorough tier only',
                  undischarged=undec_list[:40],
                  evaluations=fz_runs, distinct_nontrivial=sum(f['distinct'] for f in fuzz.values()),
                  rule='concrete cross-check: the same contracts run on PyPy with the real dependencies on boundary-biased random inputs; a run counts when the precondition holds',
                  samples=[dict(contract=n, inputs=s) for n, f in list(fuzz.items())[:6] for s in f['samples'][:1]],
                  bounded_fallback_contracts=n_fall),
              assumptions=trusted.assumptions(a.property), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.property + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    if a.verbose:
        for r in results:
            print('%-60s paths=%-4d obs=%-3d viol=%d undec=%d %.2fs z3=%d/%.1fs' % (r['name'], r['paths'], len(r['obs']), len(r['violations']), len(r['undec']), r['wall'], r['stats'].get('z3_queries', 0), r['stats'].get('z3_time', 0)))
            for v in r['violations'][:4]: print('   VIOL', v['label'], v['inputs'], v['cond'][:300], (v['exc'] or '')[-600:])
            for u in r['undec'][:4]: print('   UNDEC', u)
        for n, f in fuzz.items(): print('  fuzz', n, 'runs', f['runs'], 'skipped', f['skipped'], 'failure', json.dumps(f['failure'])[:1500] if f['failure'] else None)
    print('%s: %d contracts, %d obligations, %d discharged, %d paths, %d concrete runs, %.1fs' % (a.property, len(allc), total_ob, disch, sum(r['paths'] for r in results), fz_runs, time.time() - t0))
    for u in undec_list[:8]: print('  undischarged: ' + u[:400])
    for k, v in reported_known: print('KNOWN-FINDING: property=%s %s' % (a.property, k['what']))
    new.sort(key=lambda v: not v['confirmed'])
    shown = any(v['confirmed'] for v in new)
    for v in new[10:]: write_replay(a.property, v)
    for v in new[:10]:
        path = write_replay(a.property, v)
        print('  failed obligation: contract %s: "%s" %s' % (v['contract'], v['label'], str(v['detail'])[-240:].replace('\n', ' | ')))
        if v['confirmed'] or not shown:   # a failed obligation needs no line of its own beside a failing input
            print('VIOLATION property=%s replay=%s%s' % (a.property, path, '' if v['confirmed'] else ' no-failing-input-found'))
    if new: return 1
    if zero and not a.only:
        print('check error: a contract generated no obligation')
        return 2
    return 0

def level_of(p):
    try:
        m = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == p: return c['level']
    except Exception: pass
    return 'proof'

def _fuzz_worker(args):
    """run the contracts of one group; a run that ends early (a hang that cannot be interrupted, a crash) goes on with those left over"""
    prop, items, seed, deadline = args
    got = []
    while items:
        fd, p = tempfile.mkstemp(suffix='.json'); os.close(fd)
        room = max(20, deadline - time.time())
        try:
            json.dump(dict(property=prop, seed=seed, items=items, seconds=room - 5), open(p, 'w'))
            rc, out, err = sh_pypy(['fuzz', p], room)
        finally:
            os.unlink(p)
        new = []
        for line in out.splitlines():
            if line.startswith('RESULT '):
                try: new.append(json.loads(line[7:]))
                except ValueError: pass
        got += new
        have = set(r['contract'] for r in new)
        rest = [i for i in items if i['contract'] not in have]
        if rest and not new:
            got.append(dict(contract=rest[0]['contract'], runs=0, skipped=0, distinct=0, checks=0, failure=None, covered=[], samples=[], error='rc %s: %s' % (rc, err[-800:])))
            rest = rest[1:]
        items = rest
        if time.time() > deadline - 5: break
    return got

def run_fuzz(prop, items, seed, deadline, jobs):
    from concurrent.futures import ThreadPoolExecutor
    n = min(jobs or 1, max(1, len(items)))
    groups = [items[i::n] for i in range(n)]
    out = {}
    with ThreadPoolExecutor(n) as pool:
        for res in pool.map(_fuzz_worker, [(prop, g, seed, max(deadline, time.time() + 30)) for g in groups]):
            for r in res:
                if r.get('error'): print('  concrete side error (%s): %s' % (r['contract'], r['error'][-400:]))
                out[r['contract']] = r
    return out

def write_replay(prop, v):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, contract=v['contract'], obligation=v['label'], inputs=v['inputs'], confirmed_on_real_code=v['confirmed'],
                detail=v['detail'], says=v.get('doc'), path_condition=v.get('pc'), exception=v.get('exc'),
                how_to_replay='%s -W ignore /verif/engine/concrete.py replay <this file>   (exit 3: the contract fails on the real code)' % PYPY)
    h = hashlib.sha1(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = os.path.join(d, '%s-%s.json' % (prop, h))
    json.dump(body, open(p, 'w'), indent=1, default=str)
    return p

if __name__ == '__main__':
    sys.exit(main())
