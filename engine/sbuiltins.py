"""Builtins seen by the instrumented modules: identical to Python's on concrete values, exact on symbolic ones."""
import builtins as B
import numbers, collections.abc as abc
from .sym import *
from .sym import Ctx
from . import seq, loops
from .sbytes import SBytes, SStr, make, int_from_bytes, _seq

class EngineValue(object):
    """base of model objects that answer isinstance() themselves"""
    def __sym_isinstance__(self, cls): return isinstance(self, cls)

def is_sym(x):
    if isinstance(x, (SymInt, SymBool, SStr)): return True
    if isinstance(x, SBytes): return x.concrete() is None
    if isinstance(x, tuple): return any(is_sym(y) for y in x)
    return False

class Ov(object):
    """stand-in for a builtin type: callable, usable in isinstance(), class bases and attribute access"""
    def __init__(self, real, call):
        self.real, self.call = real, call
    def __call__(self, *a, **k): return self.call(*a, **k)
    def __mro_entries__(self, bases): return (self.real,)
    def __getattr__(self, n): return getattr(self.real, n)
    def __instancecheck__(self, x): return sisinstance(x, self.real)
    def __subclasscheck__(self, c): return issubclass(c.real if isinstance(c, Ov) else c, self.real)
    def __eq__(self, o): return o is self or o is self.real
    def __hash__(self): return hash(self.real)
    def __repr__(self): return repr(self.real)
    def __or__(self, o): return self.real | (o.real if isinstance(o, Ov) else o)

def sisinstance(x, cls):
    if isinstance(cls, tuple): return any(sisinstance(x, c) for c in cls)
    if isinstance(cls, Ov): cls = cls.real
    if isinstance(x, SymBool): return issubclass(bool, cls)
    if isinstance(x, SymInt): return issubclass(int if x.is_integer() else float, cls)
    if isinstance(x, SBytes): return issubclass(bytearray if x.mutable else bytes, cls)
    if isinstance(x, SStr): return issubclass(str, cls)
    f = getattr(B.type(x), '__sym_isinstance__', None)
    if f is not None: return f(x, cls)
    return isinstance(x, cls)

def sissubclass(c, cls):
    if isinstance(cls, tuple): return any(sissubclass(c, k) for k in cls)
    if isinstance(cls, Ov): cls = cls.real
    if isinstance(c, Ov): c = c.real
    return issubclass(c, cls)

def slen(x):
    if isinstance(x, SBytes): return x.slen()
    f = getattr(B.type(x), '__slen__', None)
    if f is not None: return f(x)
    if isinstance(x, (list, tuple, dict, str, bytes, bytearray, set, frozenset, range)) :
        return len(x)
    f = getattr(B.type(x), '__len__', None)
    if f is None: return len(x)
    n = f(x)
    if isinstance(n, SymInt):
        if n < 0: raise ValueError('__len__() should return >= 0')
        return n
    if isinstance(n, SymBool): return n.__index__()
    return len(x) if not isinstance(n, int) else n

def _int(x=0, *base, **kw):
    if base or kw:
        return int(x, *base, **kw)
    if isinstance(x, SymInt): return x.__sint__()
    if isinstance(x, SymBool): return x.__index__()
    if isinstance(x, (SBytes, SStr)): raise Unsupported('int() of symbolic text')
    if hasattr(B.type(x), '__int__') and not isinstance(x, (int, float, str)):
        return x.__int__()
    return int(x)

class IntOv(Ov):
    def from_bytes(self, b, byteorder='big', signed=False): return int_from_bytes(b, byteorder, signed=signed)

def _float(x=0.0):
    if isinstance(x, SymInt): return x
    return float(x)

def _bytes(*a, **k): return make(False, *a, **k)
def _bytearray(*a, **k): return make(True, *a, **k)

class BytesOv(Ov):
    def fromhex(self, s): return self.call(self.real.fromhex(s))
    def join(self, sep, it): return SBytes.of(sep).join(it)

def _str(*a, **k):
    if len(a) == 1 and not k and isinstance(a[0], SStr): return a[0]
    if len(a) > 1 and isinstance(a[0], SBytes): return a[0].decode(*a[1:], **k)
    return str(*a, **k)

def _bool(x=False):
    return True if x else False

def _type(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymBool): return OVERRIDES['bool']
        if isinstance(x, SymInt): return OVERRIDES['int' if x.is_integer() else 'float']
        if isinstance(x, SBytes): return OVERRIDES['bytearray' if x.mutable else 'bytes']
        if isinstance(x, SStr): return OVERRIDES['str']
        t = B.type(x)
        if isinstance(x, seq.SymSeq): return list
        if t is SDict: return OVERRIDES['dict']
        for o in OVERRIDES.values():
            if isinstance(o, Ov) and o.real is t and o.real is not type: return o
        return t
    return B.type(*a, **k)

class SDict(dict):
    """dict that also accepts symbolic keys (resolved by case split)"""
    def __init__(self, *a, **k):
        self._sym = []
        dict.__init__(self)
        if a:
            src = a[0]
            if hasattr(src, 'keys'):
                for kk in src.keys(): self[kk] = src[kk]
            else:
                for kk, v in src: self[kk] = v
        for kk, v in k.items(): self[kk] = v
    def _find(self, k):
        """('n', key) | ('s', idx) | None"""
        if not is_sym(k):
            if isinstance(k, SBytes): k = k.concrete()
            if dict.__contains__(self, k): return ('n', k)
        else:
            for kk in dict.keys(self):
                if _keyeq(k, kk): return ('n', kk)
        for i, (kk, v) in enumerate(self._sym):
            if _keyeq(k, kk): return ('s', i)
        return None
    def _text(self, k):
        """a large constant table of texts looked up with a symbolic key: an uninterpreted text, no case split"""
        return is_sym(k) and not self._sym and len(self) > 64 and all(B.type(v) is str for v in dict.values(self))
    def __getitem__(self, k):
        f = self._find(k)
        if f is None:
            m = getattr(type(self), '__missing__', None)
            raise KeyError(k)
        return dict.__getitem__(self, f[1]) if f[0] == 'n' else self._sym[f[1]][1]
    def get(self, k, d=None):
        if self._text(k) and isinstance(d, (str, SStr)): return SStr('table', (k if isinstance(k, SBytes) else symtext(k), str(d)))
        f = self._find(k)
        if f is None: return d
        return dict.__getitem__(self, f[1]) if f[0] == 'n' else self._sym[f[1]][1]
    def __contains__(self, k): return self._find(k) is not None
    def __setitem__(self, k, v):
        f = self._find(k)
        if f is None:
            if is_sym(k): self._sym.append((k, v))
            else: dict.__setitem__(self, k.concrete() if isinstance(k, SBytes) else k, v)
        elif f[0] == 'n': dict.__setitem__(self, f[1], v)
        else: self._sym[f[1]] = (self._sym[f[1]][0], v)
    def __delitem__(self, k):
        f = self._find(k)
        if f is None: raise KeyError(k)
        if f[0] == 'n': dict.__delitem__(self, f[1])
        else: del self._sym[f[1]]
    def pop(self, k, *d):
        f = self._find(k)
        if f is None:
            if d: return d[0]
            raise KeyError(k)
        v = self[k]
        if f[0] == 'n': dict.__delitem__(self, f[1])
        else: del self._sym[f[1]]
        return v
    def setdefault(self, k, d=None):
        if k not in self: self[k] = d
        return self[k]
    def update(self, *a, **k):
        for kk, v in SDict(*a, **k).items(): self[kk] = v
    def __len__(self): return dict.__len__(self) + len(self._sym)
    def __bool__(self): return len(self) > 0
    def __iter__(self):
        for k in dict.__iter__(self): yield k
        for k, _ in list(self._sym): yield k
    def keys(self): return list(self) if self._sym else dict.keys(self)
    def values(self): return [v for _, v in self.items()] if self._sym else dict.values(self)
    def items(self):
        return list(dict.items(self)) + list(self._sym) if self._sym else dict.items(self)
    def clear(self):
        dict.clear(self)
        self._sym = []
    def copy(self): return SDict(self)
    __copy__ = copy
    def __deepcopy__(self, memo):
        import copy
        return SDict([(copy.deepcopy(k, memo), copy.deepcopy(v, memo)) for k, v in self.items()])
    def popitem(self):
        if self._sym: return self._sym.pop()
        return dict.popitem(self)
    def __eq__(self, o):
        if not self._sym and not getattr(o, '_sym', None): return dict.__eq__(self, o)
        raise Unsupported('dict equality with symbolic keys')
    __hash__ = None

def _keyeq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(_keyeq(x, y) for x, y in zip(a, b))
    if a is b: return True
    if isinstance(a, (SymInt, SymBool)) and not isinstance(b, (int, float, SymInt, SymBool)): return False
    if isinstance(b, (SymInt, SymBool)) and not isinstance(a, (int, float, SymInt, SymBool)): return False
    r = (a == b)
    if r is NotImplemented: return False
    return bool(r)

def sset(*elems):
    try: return set(elems)
    except Unsupported: raise

class SRange(object):
    def __init__(self, *a):
        if len(a) == 1: a = (0, a[0], 1)
        elif len(a) == 2: a = (a[0], a[1], 1)
        self.start, self.stop, self.step = a
        if self.step == 0: raise ValueError('range() arg 3 must not be zero')
    def __iter__(self):
        i = self.start
        n = 0
        while True:
            if self.step > 0:
                if not i < self.stop: return
            elif not i > self.stop: return
            yield i
            i = i + self.step
            n += 1
            if n > 600: raise Unsupported('loop over a symbolic range')
    def __slen__(self):
        if isinstance(self.step, int) and self.step > 0:
            d = self.stop - self.start
            if d <= 0: return 0
            return (d + self.step - 1) // self.step
        raise Unsupported('len of symbolic range')
    def __contains__(self, x):
        if isinstance(self.step, int) and self.step == 1: return bool(And(x >= self.start, x < self.stop))
        raise Unsupported('membership in symbolic range')
    def __getitem__(self, i): return self.start + i * self.step
    def __symseq__(self):
        try: n = self.__slen__()
        except Unsupported: return self
        hi = Ctx.cur.lin_bounds(n.lin)[1] if isinstance(n, SymInt) else n
        if hi is not None and hi <= 8: return self
        return seq.SymSeq(n, lambda i: self.start + i * self.step)

class CRange(object):
    """concrete range with membership tests by symbolic integers"""
    pass

def _range(*a):
    if any(isinstance(x, (SymInt, SymBool)) for x in a):
        a = tuple(x.__index__() if isinstance(x, SymBool) else x for x in a)
        return SRange(*a)
    return range(*a)

def _scontains(item, cont):
    """item in cont"""
    if isinstance(cont, range) and isinstance(item, SymInt):
        if len(cont) == 0: return False
        lo, hi = min(cont[0], cont[-1]), max(cont[0], cont[-1])
        st = abs(cont.step)
        c = And(item >= lo, item <= hi)
        if st != 1: c = And(c, (item - lo) % st == 0)
        return bool(c)
    if isinstance(cont, (set, frozenset)) and is_sym(item):
        return any(_keyeq(item, y) for y in sorted(cont, key=repr))
    if isinstance(cont, dict) and not isinstance(cont, SDict) and is_sym(item):
        return any(_keyeq(item, y) for y in list(cont))
    if isinstance(cont, (bytes, bytearray)) and is_sym(item):
        return item in SBytes.of(cont)
    if isinstance(cont, str) and isinstance(item, SStr): return bool(uf_bool('in', repr(item), cont))
    return item in cont

def _sgetitem(o, k):
    if isinstance(o, dict) and not isinstance(o, SDict) and is_sym(k):
        for kk in list(o):
            if _keyeq(k, kk): return o[kk]
        raise KeyError(k)
    if isinstance(o, (bytes, bytearray)):
        if isinstance(k, slice):
            if is_sym(k.start) or is_sym(k.stop) : return SBytes.of(o)[k]
        elif is_sym(k): return SBytes.of(o)[k]
    if isinstance(o, (list, tuple)) and isinstance(k, SymInt):
        n = len(o)
        if k < -n or k >= n: raise IndexError('list index out of range')
        for i in range(-n, n):
            if k == i: return o[i]
        raise PathEnd('index')
    return o[k]

def _minmax(name, better):
    def f(*a, **k):
        key = k.get('key')
        real = getattr(B, name)
        items = list(a[0]) if len(a) == 1 else list(a)
        if not any(isinstance(x, SymInt) for x in items): return real(*( [items] if len(a) == 1 else a), **k)
        kf = key or (lambda x: x)
        best = items[0]
        for x in items[1:]:
            if better(kf(x), kf(best)): best = x
        return best
    return f

def _ord(x):
    if isinstance(x, SBytes):
        e = x.elems()
        if e is None or len(e) != 1: raise TypeError('ord() expected a character')
        return e[0]
    if isinstance(x, SStr): raise Unsupported('ord of symbolic text')
    return ord(x)

def _chr(x):
    if isinstance(x, SymInt): return SStr('chr', (x,))
    return chr(x)

def _hexish(name):
    real = getattr(B, name)
    def f(x):
        if isinstance(x, SymInt): return SStr(name, (x,))
        return real(x)
    return f

def _sum(it, start=0):
    for x in it: start = start + x
    return start

def _open(*a, **k): raise Unsupported('open() called')

def _format(x, spec=''):
    return format(x, spec)

def _smod(a, b):
    if isinstance(a, str):
        t = b if isinstance(b, tuple) else (b,)
        if any(is_sym(x) for x in t):
            import re
            it = iter(t)
            def one(m):
                if m.group(0) == '%%': return '%'
                x = next(it)
                if isinstance(x, (SymInt, SymBool)): return symtext(x, m.group(0))
                if isinstance(x, SBytes): return symtext(x, m.group(0)) if x.concrete() is None else m.group(0) % x.concrete()
                if isinstance(x, SStr): return symtext(x, m.group(0))
                return m.group(0) % (x,)
            return re.sub(r'%[-#0 +]*\d*(\.\d+)?[a-zA-Z%]', one, a)
    return a % b

def no_environment(name):
    def f(*a, **k): raise Unsupported('%s: the contract gives no environment for it' % name)
    return f

OVERRIDES = {}
OVERRIDES.update(
    int=IntOv(int, _int), float=Ov(float, _float), bytes=BytesOv(bytes, _bytes), bytearray=BytesOv(bytearray, _bytearray),
    str=Ov(str, _str), bool=Ov(bool, _bool), dict=Ov(dict, SDict), type=Ov(type, _type),
    list=Ov(list, seq.slist), map=Ov(map, seq.lmap), zip=Ov(zip, seq.szip), enumerate=Ov(enumerate, seq.senumerate), reversed=Ov(reversed, seq.sreversed), isinstance=sisinstance, issubclass=sissubclass, len=slen, range=Ov(range, _range),
    min=_minmax('min', lambda a, b: a < b), max=_minmax('max', lambda a, b: a > b),
    ord=_ord, chr=_chr, hex=_hexish('hex'), bin=_hexish('bin'), oct=_hexish('oct'), sum=_sum, open=_open,
)
OVERRIDES.update(__sdict__=SDict, __sset__=sset, __scontains__=_scontains, __sgetitem__=_sgetitem, __smod__=_smod,
                 __EngineStop__=EngineStop, __smap__=seq.smap, __wenter__=loops.wenter, __sfor__=seq.sfor, __smut__=seq.mutation, __saug__=seq.augmented, __PURE__=seq.PURE, setattr=seq.ssetattr, __smutv__=lambda o: (seq.mutation(o), o)[1],
                 __sissym__=seq.issym, __sunpack__=seq.unpack, __sany__=seq.sany, __sbuild__=seq.sbuild, __spoison__=seq.POISON, __sb__=lambda b: SBytes.of(b))
