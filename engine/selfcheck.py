#!/usr/bin/env python3-vt
"""Compares the symbolic engine with the real interpreter: python3-vt engine/selfcheck.py [--quick]

1. Every contract is run on the project's interpreter (real code, real dependencies) on random inputs, and run again by the symbolic
   engine with the same inputs kept symbolic: every branch follows the real run, and each decision the engine takes by itself and each
   compared value it arrives at, evaluated for those inputs, must be the real one.  This covers the normal form, the interval
   reasoning, the byte ropes, the library models and the closed forms of the dependency where the contracts use them.
2. Random arithmetic, byte string, struct, BytesIO, ctypes and map operations, likewise against CPython.
3. The offsets of sg_io_hdr against the C compiler and the system's header.
Prints the disagreements and exits 1 if there are any."""
import logging; logging.disable(logging.CRITICAL)
import warnings; warnings.simplefilter('ignore')
import ast, sys, os, json, random, subprocess, tempfile, time, importlib, multiprocessing, traceback
from fractions import Fraction
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PYPY = '/opt/venv/bin/python'
from engine import loader
loader.install()
from engine import sym, sbytes
from engine.sym import Ctx, Lin, SymInt, SymBool, EngineStop, PathEnd, Unsupported, to_lin, quick
from engine.sbytes import SBytes, SStr, L, Vw, Run, Op, J
from engine.seq import SymSeq
from engine.explore import SymV, Recorder, is_engine_artifact, reset_pure, HEAP
from engine.registry import Skip

class Unknown(EngineStop):
    """the value depends on something the engine keeps opaque"""
class Wrong(EngineStop): pass

class Eval(object):
    def __init__(self, values): self.values = values
    def lin(self, l):
        t = l.const
        for a, k in l.terms.items(): t = t + k * self.atom(a)
        return int(t) if isinstance(t, Fraction) and t.denominator == 1 else t
    def num(self, x):
        if isinstance(x, SymBool): return int(self.boolean(x))
        if isinstance(x, SymInt): return self.lin(x.lin)
        return x
    def atom(self, a):
        k = a.kind
        if k == 'var':
            n = a.args[0]
            if n not in self.values: n = n.split('!')[0] if n.startswith('some_') else n
            if n not in self.values: raise Unknown(n)
            return self.values[n]
        if k == 'elem':
            b = self.values.get(a.args[0])
            i = self.lin(a.args[1])
            if not isinstance(b, bytes) or not 0 <= i < len(b): raise Unknown('%s[%s]' % (a.args[0], i))
            return b[i]
        if k == 'slice':
            x, lo, w = a.args
            v = self.lin(x) >> lo
            return v if w is None else v & ((1 << w) - 1)
        if k == 'div': return self.lin(a.args[0]) // a.args[1]
        if k == 'mod': return self.lin(a.args[0]) % a.args[1]
        if k == 'quot': return self.lin(a.args[0]) // self.lin(a.args[1])
        if k == 'rem': return self.lin(a.args[0]) % self.lin(a.args[1])
        if k == 'mul': return self.lin(a.args[0]) * self.lin(a.args[1])
        if k == 'bitand': return self.lin(a.args[0]) & self.lin(a.args[1])
        if k == 'ite': return self.lin(a.args[1]) if self.boolean(a.args[0]) else self.lin(a.args[2])
        raise Unknown(k)
    def boolean(self, b):
        if not isinstance(b, SymBool): return bool(b)
        if b.op == 'le': return self.lin(b.lin) <= 0
        if b.op == 'eq': return self.lin(b.lin) == 0
        if b.op == 'ne': return self.lin(b.lin) != 0
        if b.op == 'and': return all([self.boolean(x) for x in b.args])
        if b.op == 'or': return any([self.boolean(x) for x in b.args])
        if b.op == 'not': return not self.boolean(b.args[0])
        raise Unknown('opaque predicate')
    def raw(self, x):
        if not isinstance(x, SBytes): return bytes(x)
        out = b''
        for s in x.segs:
            n = self.num(s.n()) if not isinstance(s, Op) else None
            if isinstance(s, L): out += bytes(self.num(v) for v in s.e)
            elif isinstance(s, Vw):
                b = self.values.get(s.base)
                o = self.num(s.off)
                if not isinstance(b, bytes) or o < 0 or o + n > len(b): raise Unknown('bytes ' + s.base)
                out += b[o:o + n]
            elif isinstance(s, J): out += b''.join(self.raw(s.item(i)) for i in range(self.num(s.count)))
            elif isinstance(s, Run): out += bytes([self.num(s.v)]) * n
            elif s.op == 'encode': out += self.text(s.args[0]).encode(*s.args[1:])
            else: out += getattr(self.raw(s.args[0]), s.op)(*s.args[1:])
        return out
    def text(self, t):
        if isinstance(t, str): return t
        if t.op == 'decode': return self.raw(t.args[0]).decode(t.args[1], t.args[2])
        if t.op in ('strip', 'rstrip', 'lstrip', 'upper', 'lower', 'replace'): return getattr(self.text(t.args[0]), t.op)(*t.args[1:])
        if t.op == 'add': return self.text(t.args[0]) + self.text(t.args[1])
        if t.op == 'radd': return self.text(t.args[0]) + self.text(t.args[1])
        if t.op == 'hex': return hex(self.num(t.args[0]))
        raise Unknown('text ' + t.op)
    def canon(self, x):
        if isinstance(x, (SymBool, SymInt, bool, int)): return int(self.num(x))
        if isinstance(x, (SBytes, bytes, bytearray)): return dict(hex=self.raw(x).hex())
        if isinstance(x, (SStr, str)):
            if isinstance(x, str) and '\ue000' in x: raise Unknown('formatted text')
            return dict(text=self.text(x))
        if type(x) is SymSeq: return [self.canon(x.at(i)) for i in range(self.num(x.count))]
        if isinstance(x, (list, tuple)): return [self.canon(y) for y in x]
        return None if x is None else '?'

class Follow(Ctx):
    """the path condition follows given values; what the engine decides by itself is compared with them"""
    def __init__(self, values):
        super().__init__(2000)
        self.eval = Eval(values)
        self.decided = 0
        self.limit = 100000
    def branch(self, b):
        q = quick(b)
        if q is None: q = self.known.get(b.key())
        v = self.eval.boolean(b)
        self.decided += 1
        if q is not None:
            if bool(q) != v: raise Wrong('engine decides %r as %r' % (b, q))
            return q
        self._learn_nofork(b, v)
        return v
    def assume(self, b):
        if not self.eval.boolean(b): raise Wrong('engine assumes %r, which is false here' % (b,)) if getattr(self, 'contract_assumed', None) is None else PathEnd('assumption')
        if isinstance(b, SymBool) and quick(b) is None: self._learn_nofork(b, True)
    def entails(self, b):
        q = quick(b) if isinstance(b, SymBool) else bool(b)
        if q is None: q = self.known.get(b.key())
        if q is None:
            # the solver is not asked: say no more than what is surely decided
            return 'no', None, 'not asked'
        v = self.eval.boolean(b)
        if bool(q) != v: raise Wrong('engine decides %r as %r' % (b, q))
        return ('yes' if q else 'no'), None, 'normal form'

class FollowV(SymV):
    def note(self, label, x):
        if 'goes through a pointer' in label or 'stays inside its buffer' in label: return       # checked by the memory model only
        self.events.append([label, self.cx.eval.canon(x)])
    def assume(self, c):
        if not self.cx.eval.boolean(c): raise PathEnd('assumption')
        self.cx.assume(c)
    def check(self, label, cond):
        self.note(label, bool(self.cx.eval.boolean(cond)))
        return True
    def check_eq(self, label, a, b): self.note(label, a)
    def cover(self, label): pass
    def chain(self, *a, **k): raise Unknown('chain')
    def loop(self, *a, **k): raise Unknown('loop contract')

def same(real, ours, failed=False):
    """same events; '?' (an object) matches anything"""
    def m(a, b):
        if a == '?' or b == '?': return True
        if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(m(x, y) for x, y in zip(a, b))
        return a == b
    for i, (l, v) in enumerate(ours):
        if i >= len(real) and failed: return None      # the real run ended with a failed check
        if i >= len(real): return 'check "%s" is not reached by the real code' % l
        if real[i][0] != l: return 'engine checks "%s" where the real code is at "%s"' % (l, real[i][0])
        if not m(real[i][1], v): return 'check "%s": engine %s, real %s' % (l, json.dumps(v)[:300], json.dumps(real[i][1])[:300])
    return None

def one(job):
    """follow one recorded run: (status, text)"""
    c, run = job
    c = CONTRACTS[c]
    values = dict((k, bytes.fromhex(v['hex']) if isinstance(v, dict) else v) for k, v in run['inputs'].items())
    cx = Follow(values)
    cx.begin_path([])
    cx.tracked, cx.returned_only, cx.may_raise, cx.max_decisions = [], False, False, 100000
    reset_pure()
    SNAP.restore()
    V = FollowV(cx, Recorder(c.name))
    V.events = []
    cx.V = V
    HEAP.reset()
    end = None
    try: c.fn(V)
    except Wrong as e: return 'wrong', str(e)[:500]
    except (Skip, Unknown, Unsupported, PathEnd) as e: end = e
    except EngineStop as e: end = e
    except Exception as e:
        if cx.dead is None and not is_engine_artifact(e) and not run['failed']:
            return 'wrong', 'engine: %s' % traceback.format_exc()[-600:]
        end = e
    finally: V.undo()
    if isinstance(cx.dead, Wrong): return 'wrong', str(cx.dead)[:500]
    d = same(run['events'], V.events, run['failed'])
    if d: return 'wrong', d
    if end is None and len(V.events) < len(run['events']): return 'wrong', 'engine ends before check "%s"' % run['events'][len(V.events)][0]
    return ('whole' if end is None and cx.dead is None else 'part'), '%d/%d %s' % (len(V.events), len(run['events']), type(end).__name__ + ' ' + str(end)[:80] if end else '')

CONTRACTS, SNAP = {}, None

def contracts_follow(runs, seconds):
    global SNAP
    Ctx(2000).begin_path([])
    mods = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'contracts')) if f.endswith('.py') and not f.startswith('_'))
    for m in mods: importlib.import_module('contracts.' + m)
    from contracts import _preload
    _preload.load_all()
    from engine import registry, snapshot
    for c in registry.CONTRACTS:
        if c.symbolic: CONTRACTS[c.prop + '/' + c.name] = c
    props = sorted(set(c.prop for c in registry.CONTRACTS))
    SNAP = snapshot.Snapshot()
    with multiprocessing.get_context('fork').Pool(8) as pool:
        traces = pool.map(trace_prop, [(p, runs, seconds) for p in props], chunksize=1)
        jobs, bad = [], []
        for p, t in zip(props, traces):
            if isinstance(t, str): bad.append('%s: no trace: %s' % (p, t)); continue
            for r in t:
                if p + '/' + r['contract'] in CONTRACTS: jobs.append((p + '/' + r['contract'], r))
        res = pool.map(one, jobs, chunksize=4)
    count = {}
    for (n, r), (st, text) in zip(jobs, res):
        count[st] = count.get(st, 0) + 1
        if st == 'wrong': bad.append('%s: %s   inputs %s' % (n, text, json.dumps(r['inputs'])[:300]))
        elif '-v' in sys.argv and st == 'part': print('part', n, text)
    whole = set(n for (n, r), (st, t) in zip(jobs, res) if st == 'whole')
    print('contracts: %d runs of %d contracts; %d followed to the end (%d contracts), %d until something opaque, %d wrong' % (
        len(jobs), len(CONTRACTS), count.get('whole', 0), len(whole), count.get('part', 0), count.get('wrong', 0)))
    return bad

def trace_prop(a):
    p, runs, seconds = a
    with tempfile.NamedTemporaryFile('w', suffix='.json') as f:
        json.dump(dict(properties=[p], runs=runs, seconds=seconds, seed=os.environ.get('VERIF_SEED', '1')), f)
        f.flush()
        r = subprocess.run([PYPY, '-W', 'ignore', os.path.join(HERE, 'engine/concrete.py'), 'trace', f.name], capture_output=True, text=True, timeout=900,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'))
    for l in r.stdout.splitlines():
        if l.startswith('RESULT '): return json.loads(l[7:])
    return (r.stdout + r.stderr)[-400:]

# ---- 2. random operations
def random_arith(r):
    """a random expression over a, b, c as a function of them"""
    def gen(d):
        if d == 0: return r.choice([lambda e: e['a'], lambda e: e['b'], lambda e: e['c'], (lambda k: lambda e: k)(r.choice([0, 1, 2, 7, 8, 255, 256, r.randint(-300, 70000)]))])
        k = r.randint(0, 12)
        x, y = gen(d - 1), gen(d - 1)
        n, sh = r.choice([1, 2, 3, 4, 8, 10, 16, 256, 512, r.randint(1, 5000)]), r.randint(0, 33)
        m = r.choice([0, 1, 3, 0x0f, 0xf0, 0x7f, 0xff, 0x1f, 0xff00, 0xffff, (1 << 32) - 1, r.randint(0, 1 << 20)])
        if k == 0: return lambda e: x(e) + y(e)
        if k == 1: return lambda e: x(e) - y(e)
        if k == 2: return lambda e: x(e) * n
        if k == 3: return lambda e: x(e) // n
        if k == 4: return lambda e: x(e) % n
        if k == 5: return lambda e: x(e) << sh
        if k == 6: return lambda e: x(e) >> sh
        if k == 7: return lambda e: x(e) & m
        if k == 8: return lambda e: (x(e) & 0xff) | ((y(e) & 0xff) << 8)
        if k == 9: return lambda e: -x(e)
        if k == 10: return lambda e: x(e) if y(e) < n else x(e) + 1
        if k == 11: return lambda e: x(e) * y(e)
        return lambda e: ~x(e) if (x(e) & 1) == 1 else x(e) // 2
    e = gen(r.randint(1, 4))
    if r.random() < .3:
        f = gen(2)
        return lambda env: [e(env) < f(env), e(env) <= f(env), e(env) == f(env), e(env) != f(env)]
    return e

def random_bytes_op(r):
    i, j, n = r.randint(-3, 9), r.randint(-3, 12), r.randint(0, 5)
    from engine.sbuiltins import slen
    k = r.randint(0, 12)
    def cat(e): return e['x'] + e['y'] + b'\0\1 '
    base = r.choice([lambda e: e['x'], lambda e: e['y'], cat, lambda e: e['x'] + b'  ', lambda e: e['y'] + b'\0' * n])
    def size(v): return slen(v)
    if k == 0: return lambda e: base(e)[i:j]
    if k == 1: return lambda e: base(e)[e['a'] % 7:]
    if k == 2: return lambda e: base(e)[:e['a'] % 7]
    if k == 3: return lambda e: base(e)[e['a'] % 5:e['a'] % 5 + e['b'] % 6]
    if k == 4: return lambda e: base(e)[n] if size(base(e)) > n else None
    if k == 5: return lambda e: base(e)[-1 - n] if size(base(e)) > n else None
    if k == 6: return lambda e: size(base(e)[e['a'] % 9:])
    if k == 7: return lambda e: base(e).rstrip(b'\0')
    if k == 8: return lambda e: base(e).rstrip()
    if k == 9: return lambda e: base(e) == e['x'] + e['y']
    if k == 10: return lambda e: base(e).startswith(bytes([r0 & 0xff]))
    if k == 11: return lambda e: base(e).ljust(n * 4, b' ')
    return lambda e: base(e)[:3] + base(e)[e['b'] % 4:][::1]
r0 = 0

def random_struct(r):
    from engine import models_std as M
    import struct
    f = r.choice(['>', '<', '!']) + r.choice(['B', 'b', 'H', 'h', 'I', 'i', 'Q', 'q', 'BH', 'HB', '4s', '2sH', 'BBI', '3xH'])
    def go(e, m):
        k = sum(1 for x in f[1:] if x.isalpha() and x != 'x')
        vals = []
        for x in f[1:]:
            if x.isdigit() or x == 'x': continue
            vals.append(e['x'][:3] if x == 's' else (e['a'] if not vals else e['b']))
        p = m.pack(f, *vals[:k])
        return [p, list(m.unpack(f, (e['y'] + e['x'] + b'\0' * 40)[:m.calcsize(f)])), m.calcsize(f)]
    return lambda e: go(e, M if isinstance(e['a'], SymInt) else struct)

def random_io(r):
    from engine import models_std as M
    import io
    steps = [(r.randint(0, 4), r.randint(0, 6)) for i in range(r.randint(1, 6))]
    def go(e):
        s = (M.SBytesIO if isinstance(e['a'], SymInt) else io.BytesIO)(e['x'])
        out = []
        for k, n in steps:
            if k == 0: out.append(s.read(n))
            elif k == 1: s.write(e['y'] if n % 2 else b'ab')
            elif k == 2: s.seek(n)
            elif k == 3: out.append(s.tell())
            else: out.append(s.read(e['a'] % 5))
        return out + [s.getvalue()]
    return go

def random_int_bytes(r):
    n, order, signed = r.choice([1, 2, 3, 4, 8]), r.choice(['big', 'little']), r.random() < .3
    def go(e):
        s = isinstance(e['a'], SymInt)
        v = e['a'] if signed else e['a'] % (1 << 40)
        to = sbytes.int_to_bytes if s else (lambda v, *a: v.to_bytes(*a[:2], signed=a[2]))
        fr = sbytes.int_from_bytes if s else (lambda b, o, sg: int.from_bytes(b, o, signed=sg))
        b = to(v, n, order, signed)
        return [b, fr(b, order, not signed), fr((e['y'] + b'\1\x80\xff\7')[:4], order, signed)]
    return go

def random_ctypes(r):
    """a structure of random simple fields: offsets, size, values written and read back, raw bytes"""
    from engine import ctypes_model
    import ctypes
    names = [r.choice(['c_ubyte', 'c_ushort', 'c_uint', 'c_int', 'c_short', 'c_ulonglong', 'c_byte', 'c_ulong', 'c_void_p', 'a3', 'a16']) for i in range(r.randint(1, 7))]
    def go(e):
        m = ctypes_model.build() if isinstance(e['a'], SymInt) else ctypes
        if not hasattr(m, 'Structure'): return 'no'
        def t(n): return m.c_ubyte * int(n[1:]) if n[0] == 'a' else getattr(m, n)
        class S(m.Structure): _fields_ = [('f%d' % i, t(n)) for i, n in enumerate(names)]
        x = S()
        out = [m.sizeof(S)] + [getattr(S, 'f%d' % i).offset for i in range(len(names))]
        for i, n in enumerate(names):
            if n[0] == 'a' or n == 'c_void_p': continue
            setattr(x, 'f%d' % i, e['a'] if i % 2 else e['b'])
            out.append(getattr(x, 'f%d' % i))
        return out
    return go

def random_map(r):
    from engine.symmap import SymMap
    steps = [(r.randint(0, 6), r.choice('abck')) for i in range(r.randint(1, 8))]
    def go(e):
        k = dict(a=e['a'], b=e['b'], c=e['c'], k=3)
        d = {}
        if isinstance(e['a'], SymInt):
            d = SymMap.__new__(SymMap)            # starts empty
            d.ups, d.delta, d.memo, d.base_size, d.bound, d.order = [], 0, [], 0, 0, []
            d.base_member = lambda k: False
        out = []
        for op, n in steps:
            if op == 0: d[k[n]] = k[n] + 1
            elif op == 1: out.append(1 if k[n] in d else 0)
            elif op == 2: out.append(d.get(k[n], -1))
            elif op == 3: out.append(d.pop(k[n], -2))
            elif op == 4:
                try: out.append(d[k[n]])
                except KeyError: out.append('missing')
            elif op == 5: out.append(d.setdefault(k[n], 9))
            else: out.append(d.popitem()[1] if d else -3)
        return out + [len(d)]
    return go

LOOPS = """
def f(l, a, b):
    for x in l:
        keep.append(x)
    return keep
--
def f(l, a, b):
    out, other = [], []
    for x in l:
        y = x + a
        out.append(y)
        other.append((x, y * 2))
    return out, other
--
def f(l, a, b):
    out = [7, b]
    for x in l:
        out.append(x if x > 20 else a)
    out2 = [y + 1 for y in out]
    return out2
--
def f(l, a, b):
    out = []
    for x in l[1:]:
        p = P(x)
        p.v = p.v + 1
        out.append(p.v)
    return out, len(out), out[0] if out else None
--
def f(l, a, b):
    p = P(a)
    out = []
    for x in l:
        p.v = x
        out.append(p.v)
    return out, p.v
--
def f(l, a, b):
    out = []
    for x in l:
        if x != 6:
            out.append(x)
    return out
--
def f(l, a, b):
    out = []
    n = a
    for x in l:
        n = x
        out.append(n)
    return out, n
--
def f(l, a, b):
    out = []
    for x in l:
        out.append(x)
    for x in l:
        out.append(x + 1)
    return out[:5], out[5:], out[-3:], out[3:-2], out[len(l):], out[a:b]
--
def f(l, a, b):
    p = P(None)
    p.v = []
    for x in l:
        p.v.append(x)
        p.v.append(a)
    return p.v
--
def f(l, a, b):
    p = P([])
    q = p.v
    for x in l: p.v.append(x)
    return q
--
def f(l, a, b):
    parts = []
    for x in l: parts.append(pack('>HB', x % 60000, b))
    s = b''.join(parts)
    return len(s), s[:6], s[4:20], s[3 * (len(l) - 1):], s[-1:], s[5] if len(s) > 5 else 0
--
def f(l, a, b):
    s = b''.join([pack('>I', x) for x in l[2:]])
    n = len(s)
    return n, s[4:n - 4][:9], s[b:b + 3]
--
def f(l, a, b):
    return l + [a] + l[:2], [1, 2] + l, (l + l)[len(l):]
--
def f(l, a, b):
    out, n = [], 0
    for x in l:
        out.append(n)
        n = x
    return out
--
def f(l, a, b):
    for x in l:
        if x == a: return x
    return -1
--
def f(l, a, b):
    s = b'' if b > 100 else b'ab'
    t = b''
    for x in l:
        s += pack('>H', x)
        t = t + pack('>I', x + 1)
    return s, t, s[2:6], len(t)
--
def f(l, a, b):
    n = 0
    for x in l:
        n += x
    return n
--
def f(l, a, b):
    out = []
    for i, x in enumerate(l):
        out.append(x * 2 + i)
    for i in range(len(l)):
        out.append(l[i] + a)
    return out
--
def f(l, a, b):
    return [x + y for x, y in zip(l, l[1:])], b''.join(pack('B', x % 256) for x in l), list(x + 1 for x in l), list(map(lambda x: x - 1, l))
--
def f(l, a, b):
    m = map(lambda x: x - 1, l)
    return list(m), list(m), list(reversed(l))[:3]
--
def f(l, a, b):
    return any(x == 9 for x in l)
--
def f(l, a, b):
    return all(x < b for x in l)
--
def f(l, a, b):
    out = [a]
    for x, y in zip(l, range(5)):
        z = x - y
        out.append((z, x))
    return out
--
def f(l, a, b):
    p = P(b'')
    for x in l:
        p.v += pack('>H', x)
    return p.v
"""
class P(object):
    def __init__(self, v): self.v = v

def random_loop(r):
    import struct
    src = r.choice(LOOPS.split('--\n'))

    def go(e):
        if isinstance(e['a'], SymInt):
            ns = dict(__builtins__=loader.BUILTINS, P=P, pack=loader.MODELS['struct'].pack, keep=[])
            exec(compile(ast.fix_missing_locations(loader.T().visit(ast.parse(src))), 'loop', 'exec'), ns)
            l = SymSeq(e['c'], lambda i: i * 3)
        else:
            ns = dict(P=P, pack=struct.pack, keep=[])
            exec(src, ns)
            l = [3 * i for i in range(e['c'])]
        return ns['f'](l, e['a'], e['b'])
    return go

KINDS = [random_loop, random_arith, random_bytes_op, random_struct, random_io, random_int_bytes, random_ctypes, random_map]

def operations(seed, runs):
    r = random.Random(seed)
    bad, n, skipped = [], 0, 0
    for i in range(runs):
        mk = r.choice(KINDS)
        state = r.getstate()
        f = mk(r)
        la, ha = r.choice([(0, 255), (0, 65535), (-300, 300), (0, 2 ** 32 - 1), (-2 ** 63, 2 ** 63 - 1), (0, 2 ** 64 - 1)])
        c = r.choice([0, 1, 2, 3, 8, r.randint(0, 1000)])
        if mk is random_loop: c = c % 24
        vals = dict(a=r.choice([la, ha, r.randint(la, ha)]), b=r.choice([0, 255, r.randint(0, 255)]), c=c)
        x = bytes(r.choice([0, 32, 255, 128, r.randint(0, 255)]) for k in range(r.randint(0, 6)))
        y = bytes(r.choice([0, 32, r.randint(0, 255)]) for k in range(r.randint(0, 4)))
        try: want = f(dict(vals, x=x, y=y))
        except Exception as e: want = type(e)
        sizes = r.random() < .5
        def follow(leaves):
            w = 0 if leaves is None else 1
            cx = Follow(dict(vals, x=x, y=y, nx=len(x), some_index=leaves or 0, some_element_raises=w, some_iteration_raises=w, some_iteration_leaves=w, some_element_decides=w))
            if leaves is not None: cx.contract_assumed = True          # an index out of range is no iteration
            reset_pure()
            cx.begin_path([])
            cx.tracked, cx.returned_only, cx.may_raise = [], False, False
            cx.V = None
            env = dict(a=sym.var('a', la, ha), b=sym.var('b', 0, 255), c=sym.var('c', 0, 1000), y=SBytes([Vw('y', 0, len(y))]), x=SBytes([Vw('x', 0, sym.var('nx', 0, 6) if sizes else len(x))]))
            if len(x) == 0 and not isinstance(env['x'].slen(), SymInt): env['x'] = b''
            if len(y) == 0: env['y'] = b''
            try: return cx, cx.eval.canon(f(env))
            except PathEnd:
                if leaves is None: raise Unsupported('path')
                return cx, PathEnd
        n += 1
        try:
            for leaves in (list(range(c)) if mk is random_loop else []) + [None]:
                cx, got = follow(leaves)
                if got is not PathEnd: break
        except Wrong as e: bad.append('%s %s %s: %s' % (mk.__name__, vals, (x, y), e)); continue
        except EngineStop: skipped += 1; continue
        except Exception as e:
            if is_engine_artifact(e): skipped += 1; continue
            got = type(e)
        if cx.dead is not None: skipped += 1; continue
        if not isinstance(want, type): want = cx.eval.canon(want)
        import struct
        if want is struct.error and isinstance(got, type) and issubclass(got, Exception): continue
        if got != want: bad.append('%s #%d %s %s: engine %s, CPython %s' % (mk.__name__, i, vals, (x, y), str(got)[:120], str(want)[:120]))
    print('operations: %d programs, %d with an operation the engine does not do, %d wrong' % (n, skipped, len(bad)))
    return bad

# ---- 3. the system's own layout
def layout():
    src = '#include <stdio.h>\n#include <stddef.h>\n#include <scsi/sg.h>\nint main(){sg_io_hdr_t h;(void)h;printf("%zu\\n",sizeof(h));'
    names = ['interface_id', 'dxfer_direction', 'cmd_len', 'mx_sb_len', 'iovec_count', 'dxfer_len', 'dxferp', 'cmdp', 'sbp', 'timeout', 'flags', 'pack_id', 'usr_ptr', 'status', 'masked_status',
             'msg_status', 'sb_len_wr', 'host_status', 'driver_status', 'resid', 'duration', 'info']
    for n in names: src += 'printf("%s %%zu %%zu\\n",offsetof(sg_io_hdr_t,%s),sizeof(h.%s));' % (n, n, n)
    src += 'return 0;}'
    with tempfile.TemporaryDirectory() as d:
        open(d + '/a.c', 'w').write(src)
        r = subprocess.run(['gcc', '-o', d + '/a', d + '/a.c'], capture_output=True, text=True)
        if r.returncode:
            print('layout: not compared (no compiler or no scsi/sg.h)')
            return []
        lines = subprocess.run([d + '/a'], capture_output=True, text=True).stdout.split('\n')
    from contracts import c_linux
    bad = [] if int(lines[0]) == c_linux.HDR_SIZE else ['size of sg_io_hdr']
    for l in lines[1:]:
        if not l: continue
        n, o, k = l.split()
        if c_linux.HDR[n] != (int(o), int(k)): bad.append('sg_io_hdr.%s: %s, compiler %s' % (n, c_linux.HDR[n], (o, k)))
    print('layout: sg_io_hdr has %d fields, %d wrong' % (len(names), len(bad)))
    return bad

def main():
    quickly = '--quick' in sys.argv
    bad = contracts_follow(3 if quickly else 40, 5 if quickly else 60)
    bad += operations(int(os.environ.get('VERIF_SEED', '1') or 1), 6000 if quickly else 200000)
    bad += layout()
    for b in bad[:40]: print('DISAGREES', b)
    print('ok' if not bad else '%d disagreements' % len(bad))
    return 1 if bad and not quickly else 0         # as set-up it only reports

if __name__ == '__main__': sys.exit(main())
