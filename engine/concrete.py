"""Concrete side, run under the project's own interpreter (PyPy) against the real dependencies.

usage: concrete.py replay FILE            replay one counterexample; exit 3 if it fails (violation confirmed), 0 if it passes
       concrete.py fuzz SPEC.json         run contracts on boundary-biased random inputs; prints one JSON line
"""
import logging; logging.disable(logging.CRITICAL)
import sys, os, json, random, time, traceback, struct
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO_SRC = os.environ.get('VERIF_REPO_SRC', '/repo/src')
sys.path.insert(0, REPO_SRC)
from engine.registry import CheckFailed, Skip

class ConcV(object):
    symbolic = False
    def __init__(self, values=None, rng=None):
        self.values, self.rng = values, rng
        self.counter = {}
        self.used = {}
        self.covered = set()
        self.checked = 0
        self.undos = []

    def _fresh(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else '%s!%d' % (base, n)
    def _get(self, name, gen):
        if self.values is not None and name in self.values:
            v = self.values[name]
            if isinstance(v, dict): v = bytes(bytearray.fromhex(v['hex']))
        else:
            v = gen()
        self.used[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        return self._get(self._fresh(name), lambda: rand_int(self.rng, lo, hi))
    def bool(self, name):
        return self.int(name, 0, 1) == 1
    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]
    def length(self, name, lo=0, hi=1 << 20):
        nm = self._fresh(name)
        def gen():
            r = self.rng
            if r is None: return lo
            k = r.random()
            if k < 0.25: v = lo
            elif k < 0.8: v = lo + r.randint(0, 40)
            elif k < 0.97: v = lo + r.randint(0, 300)
            else: v = lo + r.randint(0, 5000)
            return min(v, hi)
        return self._get(nm, gen)
    def bytes(self, name, n, mutable=False):
        nm = self._fresh(name)
        b = self._get(nm, lambda: rand_bytes(self.rng, n))
        b = (b + bytes(n))[:n] if len(b) != n else b
        self.used[nm] = b
        return bytearray(b) if mutable else b
    def const(self, name, v): return v

    # ---- environment
    def patch(self, modname, attr, value, optional=False):
        import importlib
        m = importlib.import_module(modname.split('/')[0])
        if optional and not hasattr(m, attr): return
        self.undos.append((m, attr, getattr(m, attr, Ellipsis)))
        setattr(m, attr, value)
    def stub(self, modname, attr, value): pass
    def undo(self):
        for m, a, v in reversed(self.undos):
            if v is Ellipsis: delattr(m, a)
            else: setattr(m, a, v)
        self.undos = []
    def ule(self, b): return int.from_bytes(bytes(b), 'little')
    def raw(self, x):
        import ctypes
        x = self.target(x)
        if isinstance(x, (ctypes.Array, ctypes.Structure, ctypes._SimpleCData)): return ctypes.string_at(ctypes.addressof(x), ctypes.sizeof(x))
        return bytes(x)
    def mem(self, addr, n, what=''):
        import ctypes
        if not addr: raise CheckFailed('%s goes through a pointer to a live buffer' % what)
        return ctypes.string_at(addr, n)
    def poke(self, addr, data, what=''):
        import ctypes
        if not addr: raise CheckFailed('%s goes through a pointer to a live buffer' % what)
        ctypes.memmove(addr, bytes(data), len(data))
    def poke_buffer(self, x, data):
        import ctypes
        x = self.target(x)
        if isinstance(x, (ctypes.Array, ctypes.Structure, ctypes._SimpleCData)): ctypes.memmove(ctypes.addressof(x), bytes(data), min(len(data), ctypes.sizeof(x)))
        else: x[:len(data)] = data
    def mutable(self, x):
        import ctypes
        return isinstance(self.target(x), (ctypes.Array, ctypes.Structure, ctypes._SimpleCData, bytearray))
    def target(self, x):
        """what byref() or a pointer refers to"""
        if hasattr(x, 'contents'): return x.contents
        return getattr(x, '_obj', x)
    def address(self, x):
        import ctypes
        return ctypes.addressof(self.target(x))

    def loop(self, *a, **k): pass
    def limit(self, n): pass
    def internal(self, mod, *names):
        if isinstance(mod, str):
            import importlib
            mod = importlib.import_module(mod)
        for n in names:
            if not hasattr(mod, n): raise Skip()
        return mod
    def assume(self, c):
        if not c: raise Skip()
    def And(self, *a): return all(a)
    def Or(self, *a): return any(a)
    def Not(self, a): return not a
    def Implies(self, a, b): return (not a) or b
    def ite(self, c, a, b): return a if c else b
    def check(self, label, cond):
        self.checked += 1
        if not cond: raise CheckFailed(label)
        return True
    def fail(self, label): raise CheckFailed(label)
    def eq(self, a, b):
        if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)): return bytes(a) == bytes(b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if a is None or b is None: return a is b
        return a == b
    def check_eq(self, label, a, b):
        self.checked += 1
        if not self.eq(a, b): raise CheckFailed(label, 'got %r, required %r' % (short(a), short(b)))
    def cover(self, label): self.covered.add(label)
    def call(self, fn, *a, **k):
        try:
            return 'ok', fn(*a, **k)
        except (CheckFailed, Skip): raise
        except Exception as e:
            return 'exc', e
    def to_bytes(self, *elems): return bytes(bytearray(elems))
    def cat(self, *parts): return b''.join(bytes(p) for p in parts)
    def bytearray(self, b): return bytearray(b)
    def zeros(self, n): return b'\0' * n
    def be(self, v, n): return (v % (1 << (8 * n))).to_bytes(n, 'big')
    def le(self, v, n): return (v % (1 << (8 * n))).to_bytes(n, 'little')
    def ube(self, b): return int.from_bytes(bytes(b), 'big')
    def sbe(self, b): return int.from_bytes(bytes(b), 'big', signed=True)
    def blen(self, b): return len(b)
    def hint(self, *a): pass
    def ascii(self, name, n):
        nm = self._fresh(name)
        def gen():
            if self.rng is None: return b' ' * n
            r = self.rng
            t = bytes(bytearray(r.choice([r.randint(33, 126), 65, r.randint(0, 127)]) for _ in range(n)))
            k = r.randint(0, n)
            return t if r.random() < .3 else t[:k] + (b' ' if r.random() < .7 else b'\0') * (n - k)
        b = self._get(nm, gen)
        b = (b + b' ' * n)[:n]
        self.used[nm] = b
        if any(x > 127 for x in bytearray(b)): raise Skip()
        return b
    def hex(self, x): return hex(x)
    def track(self, name): return self._get(self._fresh(name), lambda: 0 if self.rng is None else self.rng.choice([0, 0, 1, 2, 3, 7]))
    def len(self, l): return len(l)
    def at(self, l, i): return l[i]
    def returned_only(self): pass
    def any_outcome(self): pass
    def seq(self, name, lo, hi, get):
        def gen():
            r = self.rng
            if r is None: return lo
            return min(hi, lo + r.randint(0, 12 if r.random() < 0.96 else 400))      # long lists are rare
        return [get(i) for i in range(self._get(self._fresh(name), gen))]
    def chain(self, label, l, total, step, n=None):
        o, i = 0, 0
        offs = []
        two = step.__code__.co_argcount == 2
        while o < total and (n is None or i < n):
            offs.append(o)
            o = step(o, i) if two else step(o)
            i += 1
            if i > 100000: raise CheckFailed(label + ': number of elements', 'endless')
        if len(l) != len(offs): raise CheckFailed(label + ': number of elements', '%d, required %d' % (len(l), len(offs)))
        self.checked += 1
        if not offs: return None
        j = self.int('element_index', 0, len(offs) - 1)
        if j >= len(offs): raise Skip()
        return (l[j], offs[j], j) if two else (l[j], offs[j])

def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + '...'

def rand_int(r, lo, hi):
    if r is None: return lo if lo is not None else 0
    k = r.random()
    if lo is None and hi is None: lo2, hi2 = -(1 << 70), 1 << 70
    else:
        lo2 = lo if lo is not None else hi - (1 << 70)
        hi2 = hi if hi is not None else lo + (1 << 70)
    if hi2 - lo2 <= 40: return r.randint(lo2, hi2)
    if k < 0.2: v = r.choice([lo2, lo2 + 1, hi2, hi2 - 1])
    elif k < 0.6:
        p = 1 << r.randint(0, max(1, (hi2 - lo2).bit_length()))
        v = lo2 * (lo is not None) + r.choice([p - 1, p, p + 1, p + r.randint(0, p)])
    elif k < 0.8: v = r.randint(lo2, min(hi2, lo2 + 300))
    else: v = r.randint(lo2, hi2)
    return min(max(v, lo2), hi2)

def rand_bytes(r, n):
    if r is None: return bytes(n)
    b = rand_bytes1(r, n)
    if n and r.random() < 0.2:                # some end with zeros
        k = r.randint(0, n)
        b = b[:k] + bytes(n - k)
    return b
def rand_bytes1(r, n):
    k = r.random()
    if k < 0.1: return bytes(n)
    if k < 0.2: return b'\xff' * n
    if k < 0.6: return bytes(bytearray(r.choice([0, 1, 2, 3, 4, 8, 0x20, 0x41, 0x7f, 0x80, 0xff, r.randint(0, 255)]) for _ in range(n)))
    return bytes(bytearray(r.randint(0, 255) for _ in range(n)))

def load(prop=None):
    import importlib
    from engine import registry
    pkg = os.path.join(os.path.dirname(HERE), 'contracts')
    for f in sorted(os.listdir(pkg)):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module('contracts.' + f[:-3])
    return [c for c in registry.CONTRACTS if prop is None or c.prop == prop]

class Timeout(BaseException): pass
GIVE_UP = [None]        # called when a run cannot be ended: the code under test swallows what the timer raises
def rss_mb():
    """called in a signal handler: nothing here may import anything (open() can)"""
    try: fd = os.open('/proc/self/statm', os.O_RDONLY)
    except OSError: return 0
    try: return int(os.read(fd, 200).split()[1]) // 256
    finally: os.close(fd)

def run_one(c, V, limit=20, mem_mb=2000):
    """None if it passed/was skipped, else (label, detail)"""
    import signal
    t0, why = time.time(), []
    def tick(*a):
        if time.time() - t0 > limit: why.append('did not finish within %d s' % limit)
        elif rss_mb() > mem_mb: why.append('used more than %d MB' % mem_mb)
        else: return
        if len(why) > 8 and GIVE_UP[0] is not None: GIVE_UP[0](V, ('terminates', why[0]))
        raise Timeout()
    old = signal.signal(signal.SIGALRM, tick)
    signal.setitimer(signal.ITIMER_REAL, 1, 0.5)
    try:
        try:
            c.fn(V)
        finally: signal.setitimer(signal.ITIMER_REAL, 0)
    except Skip: return 'skip'
    except CheckFailed as e: return (e.label, e.detail)
    except Timeout: return ('terminates', why[0])
    except RecursionError: return ('terminates', 'recursion limit')
    except BaseException as e:
        return ('no unexpected exception', traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        V.undo()
    if why: return ('terminates', why[0])
    return None

def enc(values):
    return dict((k, dict(hex=bytes(v).hex()) if isinstance(v, (bytes, bytearray)) else v) for k, v in values.items())

class TraceV(ConcV):
    """records what every check compares (engine/selfcheck.py compares it with the symbolic engine)"""
    def check(self, label, cond):
        self.events.append([label, canon(bool(cond))])
        return ConcV.check(self, label, cond)
    def check_eq(self, label, a, b):
        self.events.append([label, canon(a)])
        return ConcV.check_eq(self, label, a, b)

def canon(x):
    if isinstance(x, (bool, int)): return int(x)
    if isinstance(x, (bytes, bytearray)): return dict(hex=bytes(x).hex())
    if isinstance(x, str): return dict(text=x)
    if isinstance(x, (list, tuple)): return [canon(y) for y in x]
    return None if x is None else '?'

def trace(spec):
    out = []
    for prop in spec['properties']:
        for c in load(prop):
            rng = random.Random('%s/%s' % (spec['seed'], c.name))
            t0 = time.time()
            done = 0
            for i in range(spec['runs'] * 4):
                if done >= spec['runs'] or time.time() - t0 > spec['seconds']: break
                V = TraceV(None, rng)
                V.events = []
                r = run_one(c, V)
                if r == 'skip': continue
                done += 1
                out.append(dict(property=prop, contract=c.name, inputs=enc(V.used), events=V.events, failed=r))
    print('RESULT ' + json.dumps(out))
    return 0

def main():
    mode = sys.argv[1]
    from contracts import _preload
    _preload.load_all()         # before any timer runs: an import that a signal handler interrupts can fail
    if mode == 'trace': return trace(json.load(open(sys.argv[2])))
    if mode == 'replay':
        d = json.load(open(sys.argv[2]))
        cs = [c for c in load(d['property']) if c.name == d['contract']]
        if not cs:
            print('no such contract'); return 2
        V = ConcV(d['inputs'] or {}, None)
        r = run_one(cs[0], V)
        print(json.dumps(dict(result=r, used=enc(V.used))))
        return 3 if r is not None and r != 'skip' else 0
    spec = json.load(open(sys.argv[2]))
    end = time.time() + spec.get('seconds', 1 << 30)
    cs = dict((c.name, c) for c in load(spec['property']))
    for item in spec['items']:
        print('RESULT ' + json.dumps(fuzz_one(cs[item['contract']], item, spec, end)), flush=True)
    return 0

def fuzz_one(c, item, spec, end):
    res = dict(contract=c.name, runs=0, skipped=0, distinct=0, checks=0, failure=None, covered=[], samples=[])
    seen = set()
    t0 = time.time()
    rng = random.Random('%s/%s/%s' % (spec['seed'], spec['property'], c.name))
    cov = set()
    replays = item.get('inputs', [])
    i = 0
    def failure(V, r):
        res['failure'] = dict(label=r[0], detail=r[1], inputs=enc(V.used), from_replay=i <= len(replays))
    def give_up(V, r):
        res['runs'] += 1
        failure(V, r)
        print('\nRESULT ' + json.dumps(res), flush=True)
        os._exit(0)
    GIVE_UP[0] = give_up
    while i < item['runs'] + len(replays) and time.time() - t0 < item['seconds'] and time.time() < end:
        vals = replays[i] if i < len(replays) else None
        V = ConcV(vals, rng if vals is None else None)
        i += 1
        r = run_one(c, V)
        if r is not None and r[0] == 'terminates':      # once more, lest the machine was merely busy
            V = ConcV(enc(V.used), None)
            r = run_one(c, V)
        if r == 'skip':
            res['skipped'] += 1
            continue
        res['runs'] += 1
        res['checks'] += V.checked
        cov |= V.covered
        key = repr(sorted(V.used.items(), key=lambda t: t[0]))
        if key not in seen:
            seen.add(key)
            if len(res['samples']) < 2: res['samples'].append(enc(V.used))
        if r is not None:
            failure(V, r)
            break
    res['distinct'] = len(seen)
    res['covered'] = sorted(cov)
    return res

if __name__ == '__main__':
    sys.exit(main())
