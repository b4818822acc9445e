"""Path exploration of a contract and bookkeeping of its obligations (symbolic side)."""
import time, sys, traceback, os
import z3
from . import sym
from .sym import *
from .sym import Ctx, lin_bits
from .sbytes import SBytes, SStr, Vw, L, Run, Op, same_args
from .registry import CheckFailed, Skip
from .ctypes_model import HEAP, Data
from .seq import SymSeq, ChainSeq, PURE, reset_pure
from .sbuiltins import slen, _sgetitem
from . import loops

class SymV(object):
    """value provider / obligation collector handed to contracts in symbolic mode"""
    symbolic = True

    def __init__(self, cx, rec):
        self.cx, self.rec = cx, rec
        self.loops = {}
        self.undos = []

    # ---- inputs
    def int(self, name, lo=None, hi=None):
        n = self.cx.fresh(name)
        v = sym.var(n, lo, hi)
        self.cx.inputs[n] = ('int', v, lo, hi)
        return v
    def bool(self, name):
        v = self.int(name, 0, 1)
        return bool(v == 1)
    def choice(self, name, options):
        """one of a concrete list (case split)"""
        v = self.int(name, 0, len(options) - 1)
        for i in range(len(options) - 1):
            if v == i: return options[i]
        self.cx.assume(v == len(options) - 1)
        return options[-1]
    def bytes(self, name, n, mutable=False):
        nm = self.cx.fresh(name)
        self.cx.inputs[nm] = ('bytes', n)
        return SBytes([Vw(nm, 0, n)], mutable)
    def length(self, name, lo=0, hi=1 << 20):
        nm = self.cx.fresh(name)
        v = sym.var(nm, lo, hi)
        self.cx.inputs[nm] = ('len', v, lo, hi)
        return v
    def const(self, name, options):
        """an opaque python object, irrelevant to replay"""
        return options

    # ---- environment
    def patch(self, modname, attr, value, optional=False):
        """while the contract runs, modname.attr is value (the environment of the code under test)"""
        from . import loader, ctypes_model
        if modname == 'ctypes/windows': m = ctypes_model.LLP64
        else: m = loader.MODELS.get(modname) or sys.modules.get(modname)
        if m is None:
            import importlib
            m = importlib.import_module(modname)
        if optional and not hasattr(m, attr): return
        self.undos.append((m, attr, getattr(m, attr, Ellipsis)))
        setattr(m, attr, value)
    def patch_object(self, o, attr, value): setattr(o, attr, value)
    def stub(self, modname, attr, value):
        """assume a callee's contract instead of running its body (symbolic side only; the callee has its own contracts)"""
        self.patch(modname, attr, value, True)
    def undo(self):
        for m, a, v in reversed(self.undos):
            if v is Ellipsis: delattr(m, a)
            else: setattr(m, a, v)
        self.undos = []
    def ule(self, b):
        v = 0
        for x in reversed(list(SBytes.of(b).elems())): v = v * 256 + x
        return v
    def raw(self, x):
        """the bytes of a bytes-like argument of a system call (also of a ctypes object)"""
        if isinstance(x, Data): return x._raw()
        if hasattr(x, '_obj'): return x._obj._raw()
        return SBytes.of(x).out()
    def mem(self, addr, n, what='a device read'):
        m, off = HEAP.find(addr, n, what)
        return SBytes.of(m.read(off, n)).out()
    def poke(self, addr, data, what='a device write'):
        data = SBytes.of(data)
        m, off = HEAP.find(addr, data.slen(), what)
        m.write(off, data)
    def poke_buffer(self, x, data):
        """the system call overwrites the mutable buffer x (from its start)"""
        if hasattr(x, '_obj'): x = x._obj
        if isinstance(x, Data): x._mem.write(x._off, data)
        elif isinstance(x, SBytes) and x.mutable: x[:SBytes.of(data).slen()] = data
        else: raise TypeError('buffer is not writable')
    def mutable(self, x): return hasattr(x, '_obj') or isinstance(x, (Data, bytearray)) or (isinstance(x, SBytes) and x.mutable)
    def target(self, x): return getattr(x, '_obj', x)
    def address(self, x):
        x = self.target(x)
        return x._mem.addr + x._off
    def show(self, x): return str(x)

    def loop(self, site, inv, variant=None, havoc=None, modifies=None):
        """contract of a while loop (Class.function of the code under test): inv(env) -> [(label, formula)], variant(env) -> natural number,
        havoc {local: value in an arbitrary iteration}, modifies(env) puts the object state of an arbitrary iteration in place"""
        self.loops[site] = loops.Loop(self, site, inv, variant, havoc, modifies)
    def limit(self, n): self.cx.max_decisions = n
    def internal(self, mod, *names):
        """functions that are not part of the interface: a tree that has none of that name leaves the contract undecided"""
        if isinstance(mod, str):
            import importlib
            mod = importlib.import_module(mod)
        for n in names:
            if not hasattr(mod, n): raise Unsupported('no internal %s' % n)
        return mod
    # ---- logic
    def assume(self, c): self.cx.assume(c)
    And = staticmethod(And); Or = staticmethod(Or); Not = staticmethod(Not); Implies = staticmethod(Implies)
    def ite(self, c, a, b): return a if c else b

    def check(self, label, cond):
        rec = self.rec.ob(label)
        rec['reached'] += 1
        if not isinstance(cond, SymBool): cond = bool(cond)
        r, model, how = self.cx.entails(cond)
        if r == 'yes':
            rec['by'][how] = rec['by'].get(how, 0) + 1
            if isinstance(cond, SymBool): self.cx.assume(cond)
            if how == 'z3' and self.rec.recheck: self.rec.queue_recheck(self.cx, cond, label)
            return True
        if r == 'no':
            self.rec.violation(self.cx, label, cond)
            rec['failed'] += 1
            raise PathEnd('obligation failed')
        rec['unknown'] += 1
        self.rec.undecided(label, 'solver returned unknown')
        if isinstance(cond, SymBool): self.cx.assume(cond)
        return False

    def fail(self, label): self.check(label, False)

    def eq(self, a, b):
        """formula: a equals b (deep); only for quantifier-free comparisons"""
        if isinstance(a, (SBytes, bytes, bytearray)) and isinstance(b, (SBytes, bytes, bytearray)):
            return SBytes.of(a).eq(b)
        if isinstance(a, SStr) or isinstance(b, SStr):
            if isinstance(a, SStr) and isinstance(b, SStr): return a == b
            if isinstance(a, str) or isinstance(b, str): return a == b
            return False
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b): return False
            return And(*[self.eq(x, y) for x, y in zip(a, b)])
        if a is None or b is None: return a is b
        return a == b

    def check_eq(self, label, a, b):
        if isinstance(a, (SBytes, bytes, bytearray)) and isinstance(b, (SBytes, bytes, bytearray)):
            A, B = SBytes.of(a), SBytes.of(b)
            if A.elems() is None or B.elems() is None:
                try:
                    if A.eq(B) is True:
                        rec = self.rec.ob(label); rec['reached'] += 1
                        rec['by']['normal form'] = rec['by'].get('normal form', 0) + 1
                        return
                except Unsupported:
                    self.cx.dead = None
                self.check(label, A.slen() == B.slen())
                i = sym.var(self.cx.fresh('k'), 0, None)
                self.cx.assume(i < A.slen())
                self.check(label, A[i] == B[i])
                return
        self.check(label, self.eq(a, b))

    def cover(self, label):
        """the current path condition is satisfiable here (vacuity guard)"""
        c = self.rec.covers.setdefault(label, False)
        if c: return
        if self.cx.check() == z3.sat: self.rec.covers[label] = True

    def call(self, fn, *a, **k):
        """run fn; ('ok', value) or ('exc', exception)"""
        try:
            return 'ok', fn(*a, **k)
        except EngineStop: raise
        except Exception as e:
            if is_engine_artifact(e):
                raise Unsupported('%s: %s' % (type(e).__name__, str(e)[:200]))
            return 'exc', e

    def to_bytes(self, *elems): return SBytes.lit(list(elems)).out()
    def cat(self, *parts):
        r = SBytes([])
        for p in parts: r = SBytes(r.segs + SBytes.of(p).segs)
        return r
    def bytearray(self, b): return SBytes(list(SBytes.of(b).segs), True)
    def zeros(self, n): return SBytes([Run(0, n)])
    def be(self, v, n): return sym_be(v, n)
    def le(self, v, n): return sym_be(v, n)[::-1] if False else SBytes.lit(list(SBytes.of(sym_be(v, n)).elems())[::-1]).out()
    def ube(self, b):
        v = 0
        for x in SBytes.of(b).elems(): v = v * 256 + x
        return v
    def sbe(self, b):
        e = SBytes.of(b).elems()
        v = self.ube(b)
        v = v - (1 << (8 * len(e))) * (e[0] // 128)
        return v
    def blen(self, b): return SBytes.of(b).slen()
    def hint(self, *a): pass
    def ascii(self, name, n):
        b = self.bytes(name, n)
        for x in SBytes.of(b).elems() or []: self.cx.assume(x < 128)
        return b
    def hex(self, x): return SStr('hex', (x,)) if isinstance(x, SymInt) else hex(x)
    def track(self, name):
        """an arbitrary list index, remembered by loops over lists of symbolic length"""
        k = self.int(name, 0, None)
        self.cx.tracked.append(k)
        return k
    def len(self, l): return slen(l)
    def at(self, l, i):
        if isinstance(l, SymSeq): return l[i]
        if isinstance(i, SymInt): return _sgetitem(l, i)
        return l[i]
    def seq(self, name, lo, hi, get):
        """a list of any length lo..hi whose element i is get(i)"""
        l = SymSeq(self.int(name, lo, hi), get)
        l.apart = True
        return l
    def returned_only(self):
        """this contract speaks only about results that are returned, not about refusals"""
        self.cx.returned_only = True
    def any_outcome(self):
        """this contract speaks about every outcome alike; a list decoder may refuse at any element"""
        self.cx.returned_only = self.cx.may_raise = True
    def chain(self, label, l, total, step, n=None):
        """l holds the elements laid end to end in `total` bytes; step(offset) (or step(offset, index)) = offset of the next one.
        Gives (element, offset[, index]) of an arbitrary element, or None when there is none"""
        two = step.__code__.co_argcount == 2
        if isinstance(l, ChainSeq):
            self.check(label + ': covers the bytes of the list', l.length == total)
            if n is not None: self.check(label + ': number of elements', l.limit is not None and l.limit == n)
            elif l.limit is not None: self.check(label + ': number of elements', l.limit >= l.length)
            o = self.int('element_offset', 0, None)
            self.cx.assume(o < l.length)
            i = self.int('element_index', 0, None)
            self.cx.assume(i < l.count)
            self.cx.assume(i <= o)
            if n is not None: self.cx.assume(i < n)
            item, size = l.unpack_at(o, i)
            nxt = step(o, i) if two else step(o)
            self.check(label + ': the next element starts where this one ends', Or(o + size == nxt, And(o + size >= l.length, nxt >= l.length)))
            return (item, o, i) if two else (item, o)
        o, i = 0, 0
        offs = []
        while o < total and (n is None or i < n):
            if i > 6: raise Unsupported('chain too long')
            offs.append(o)
            o = step(o, i) if two else step(o)
            i += 1
        self.check(label + ': number of elements', self.len(l) == len(offs))
        if not offs: return None
        j = self.int('element_index', 0, len(offs) - 1)
        for q in range(len(offs)):
            if j == q: return (l[q], offs[q], q) if two else (l[q], offs[q])
        raise PathEnd('index')

def sym_be(v, n):
    from .sym import to_lin, lin_mod, lin_floordiv, wrap
    l = to_lin(v)
    return SBytes.lit([wrap(lin_mod(lin_floordiv(l, 1 << (8 * i)), 256)) for i in reversed(range(n))]).out()

_ARTIFACT_TYPES = ('SymInt', 'SymBool', 'SBytes', 'SStr', 'SDict', 'Ov', 'SBytesIO', 'SRange')
def is_engine_artifact(e):
    s = str(e)
    return isinstance(e, (TypeError, AttributeError)) and any(t in s for t in _ARTIFACT_TYPES)

class Recorder(object):
    def __init__(self, name, recheck=False):
        self.name = name
        self.obs = {}
        self.covers = {}
        self.violations = []
        self.undec = []
        self.paths = 0
        self.truncated = False
        self.recheck = recheck
        self.rechecks = dict(agree=0, disagree=0, unknown=0)
        self.stats = {}
    def ob(self, label):
        return self.obs.setdefault(label, dict(reached=0, failed=0, unknown=0, by={}))
    def undecided(self, label, why):
        self.undec.append((label, why))
    def queue_recheck(self, cx, cond, label):
        """ask cvc5 to confirm what z3 said (thorough tier)"""
        if self.rechecks['agree'] + self.rechecks['unknown'] > 400: return
        s = z3.Solver()
        for a in cx.solver.assertions(): s.add(a)
        s.add(z3.Not(cond.z3()))
        r = cvc5_check(s.to_smt2())
        k = {'unsat': 'agree', 'sat': 'disagree'}.get(r, 'unknown')
        self.rechecks[k] += 1
        if k == 'disagree': self.undecided(label, 'cvc5 disagrees with z3')
    def violation(self, cx, label, cond, exc=None):
        if sum(1 for v in self.violations if v['label'] == label) >= 6: return
        v = dict(label=label, cond=repr(cond)[:2000], inputs=None, exc=exc)
        try:
            v['inputs'] = extract(cx, cond)
        except Exception as e:
            v['inputs'] = None
            v['extract_error'] = traceback.format_exc()[-600:]
        v['pc'] = [repr(f)[:200] for f in cx.pc][-25:]
        self.violations.append(v)

def cvc5_check(smt2, timeout=10000):
    import subprocess
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout, '-'], input=smt2, capture_output=True, text=True, timeout=timeout / 1000 + 10)
        for line in p.stdout.splitlines():
            if line.strip() in ('sat', 'unsat', 'unknown'): return line.strip()
    except Exception: pass
    return 'unknown'

def model_bytes(m, f, n, ev):
    buf = bytearray(n)
    if not any(d.name() == f.name() and d.arity() == 1 for d in m.decls()): return bytes(buf)
    try: fi = m[f]
    except z3.Z3Exception: return bytes(buf)
    if fi is None: return bytes(buf)
    if not isinstance(fi, z3.FuncInterp):
        return bytes(bytearray(ev(f(z3.IntVal(i))) & 255 for i in range(n)))
    ent = fi.as_list()
    d = ent[-1]
    if z3.is_int_value(d): buf = bytearray([d.as_long() & 255]) * n
    else:
        for i in range(min(n, 1500)): buf[i] = ev(f(z3.IntVal(i))) & 255
        return bytes(buf)
    for e in ent[:-1]:
        k = e[0].as_long()
        if 0 <= k < n: buf[k] = e[1].as_long() & 255
    return bytes(buf)

def extract(cx, cond):
    """concrete inputs from a counter-model, preferring short buffers and small values"""
    s = cx.solver
    s.push()
    try:
        if isinstance(cond, SymBool): s.add(z3.Not(cx.z3bool(cond)))
        lens = [d[1] for d in cx.inputs.values() if d[0] == 'len' and isinstance(d[1], SymInt)]
        lens += [d[1] for d in cx.inputs.values() if d[0] == 'bytes' and isinstance(d[1], SymInt)]
        m = None
        for cap in (16, 64, 300, 1100, 70000, None):
            s.push()
            try:
                if cap is not None:
                    for l in lens: s.add(cx.z3lin(l.lin) <= cap)
                r = cx.check()
                if r == z3.sat:
                    m = s.model()
                    break
            finally:
                s.pop()
        if m is None: return None
        def ev(e):
            r = m.eval(e, model_completion=True)
            return r.as_long()
        def evl(x):
            if isinstance(x, SymInt): return ev(cx.z3lin(x.lin))
            return x
        out = {}
        for name, d in cx.inputs.items():
            if d[0] in ('int', 'len'): out[name] = evl(d[1])
            elif d[0] == 'bytes':
                n = evl(d[1])
                f = sym.z3fun('bytes:' + name)
                n = min(n, 70000)
                out[name] = dict(hex=model_bytes(m, f, n, ev).hex())
        return out
    finally:
        s.pop()

def rss_mb():
    """called in a signal handler: nothing here may import anything (open() can)"""
    try: fd = os.open('/proc/self/statm', os.O_RDONLY)
    except OSError: return 0
    try: return int(os.read(fd, 200).split()[1]) // 256
    finally: os.close(fd)

class Watch(object):
    """ends a path that runs too long or grows too much (code that does not terminate): it is then undecided"""
    def __init__(self, path_s=50, mem_mb=3000):
        self.path_s, self.mem_mb, self.t = path_s, mem_mb, None
    def tick(self, *a):
        if self.t is None: return
        if time.time() - self.t > self.path_s: raise Unsupported('the path took more than %d s' % self.path_s)
        if rss_mb() > self.mem_mb: raise Unsupported('the path used more than %d MB' % self.mem_mb)
    def __enter__(self):
        import signal, threading
        self.on = threading.current_thread() is threading.main_thread()
        if self.on:
            self.old = signal.signal(signal.SIGALRM, self.tick)
            signal.setitimer(signal.ITIMER_REAL, 1, 1)
        return self
    def __exit__(self, *a):
        import signal
        self.t = None
        if self.on:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)

def explore(fn, name, **kw):
    with Watch() as w: return explore_paths(w, fn, name, **kw)

def explore_paths(watch, fn, name, timeout_ms=10000, max_paths=3000, budget_s=300, recheck=False, snapshot=None):
    rec = Recorder(name, recheck)
    cx = Ctx(timeout_ms)
    prefix = []
    t0 = time.time()
    while True:
        cx.begin_path(prefix)
        cx.tracked, cx.returned_only, cx.may_raise, cx.max_decisions = [], False, False, 4000
        reset_pure()
        if snapshot: snapshot.restore()
        V = SymV(cx, rec)
        cx.V = V
        HEAP.reset()
        try:
            watch.t = time.time()
            try: fn(V)
            finally: watch.t = None
        except EngineStop as e:
            pass
        except Skip: pass
        except Exception as e:
            if cx.dead is None:
                if is_engine_artifact(e):
                    rec.undecided('no unexpected exception', '%s: %s' % (type(e).__name__, str(e)[:300]))
                else:
                    lab = 'no unexpected exception'
                    o = rec.ob(lab); o['reached'] += 1; o['failed'] += 1
                    rec.violation(cx, lab, None, exc=describe(e))
        finally: V.undo()
        if isinstance(cx.dead, Unsupported):
            rec.undecided('(path)', str(cx.dead)[:300] + ' @ ' + where(cx.dead))
        rec.paths += 1
        # next prefix: depth first
        d = cx.decisions
        while d and not (d[-1][0] is True and d[-1][1]): d = d[:-1]
        if not d: break
        prefix = d[:-1] + [(False, False)]
        if rec.paths >= max_paths or time.time() - t0 > budget_s:
            rec.truncated = True
            rec.undecided('(exploration)', 'path or time budget exhausted after %d paths' % rec.paths)
            break
    rec.stats = dict(cx.stats)
    rec.wall = time.time() - t0
    return rec

def describe(e):
    out = []
    while e is not None and len(out) < 6:
        out.append('%s: %s @ %s' % (type(e).__name__, str(e)[:160].replace('\n', ' '), where(e)))
        e = e.__cause__ or e.__context__
    return ' <- '.join(out)

def where(exc):
    tb = exc.__traceback__
    best = ''
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if '/infi/' in f or '/contracts/' in f: best = '%s:%d' % (f.split('/infi/')[-1].split('/contracts/')[-1], tb.tb_lineno)
        tb = tb.tb_next
    return best
