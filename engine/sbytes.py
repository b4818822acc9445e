"""Symbolic byte strings: ropes of literal elements, views of input buffers, runs and opaque derived pieces."""
from .sym import *
from .sym import Ctx, lin_scale, lin_add, lin_floordiv, lin_mod

def clen(n):
    return isinstance(n, int)

class Seg(object):
    __slots__ = ()

class L(Seg):
    """literal elements"""
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def n(self): return len(self.e)
    def cut(self, a, b): return L(self.e[a:b]) if clen(a) and clen(b) else self._symcut(a, b)
    def _symcut(self, a, b):
        if self.e and type(self.e[0]) is int and all(type(x) is int and x == self.e[0] for x in self.e): return Run(self.e[0], b - a)
        if not clen(a): a = a.__index__()
        if not clen(b): b = b.__index__()
        return L(self.e[a:b])
    def get(self, i):
        if clen(i): return self.e[i]
        for k in range(len(self.e) - 1):
            if i == k: return self.e[k]
        Ctx.cur.assume(i == len(self.e) - 1)
        return self.e[-1]
    def __repr__(self): return repr(self.e)

class Vw(Seg):
    """n bytes of an uninterpreted byte array starting at off"""
    __slots__ = ('base', 'off', '_n')
    def __init__(self, base, off, n): self.base, self.off, self._n = base, off, n
    def n(self): return self._n
    def cut(self, a, b): return Vw(self.base, self.off + a, b - a)
    def get(self, i): return elem(self.base, self.off + i)
    def __repr__(self): return '%s[%r:+%r]' % (self.base, self.off, self._n)

class Run(Seg):
    """n copies of one byte"""
    __slots__ = ('v', '_n')
    def __init__(self, v, n): self.v, self._n = v, n
    def n(self): return self._n
    def cut(self, a, b): return Run(self.v, b - a)
    def get(self, i): return self.v
    def __repr__(self): return 'run(%r,%r)' % (self.v, self._n)

class Op(Seg):
    """opaque derived bytes: op(args) with an unknown length"""
    __slots__ = ('op', 'args', '_n')
    def __init__(self, op, args, n): self.op, self.args, self._n = op, args, n
    def n(self): return self._n
    def cut(self, a, b): raise Unsupported('slice of opaque bytes')
    def get(self, i): raise Unsupported('index of opaque bytes')
    def __repr__(self): return '%s%r' % (self.op, self.args)

class J(Seg):
    """the first `count` elements of a list of byte strings that are all c bytes long, joined"""
    __slots__ = ('at', 'count', 'c', 'first')
    def __init__(self, at, count, c, first=0): self.at, self.count, self.c, self.first = at, count, c, first
    def n(self): return self.count * self.c
    def item(self, i):
        v = SBytes.of(self.at(self.first + i))
        n = fixed(v.slen())
        if not clen(n): raise Unsupported('joined elements of different lengths')
        if n != self.c: raise Unsupported('joined elements of different lengths')
        return v
    def _split(self, i):
        """i = q * c + r"""
        if clen(i): return i // self.c, i % self.c
        q, r = fixed(i // self.c), fixed(i % self.c)
        return q, r if clen(r) else r.__index__()
    def get(self, i):
        q, r = self._split(i)
        return self.item(q)[r]
    def cut(self, a, b):
        (q, r), n = self._split(a), fixed(b - a)
        if r == 0:
            q2, r2 = self._split(b)
            if r2 == 0:
                k = fixed(q2 - q)
                if not clen(k) or k > 64: return J(self.at, k, self.c, self.first + q)
                return L([x for i in range(k) for x in self.item(q + i)])
        if clen(n) and n <= 1024: return L([self.item(q + (r + i) // self.c)[(r + i) % self.c] for i in range(n)])
        raise Unsupported('cut through a joined list of symbolic length')
    def __repr__(self): return 'joined(%r x %d)' % (self.count, self.c)

def _byte(v):
    if isinstance(v, SymInt):
        if v < 0 or v > 255: raise ValueError('byte must be in range(0, 256)')
        return v
    if isinstance(v, SymBool): return v.__index__()
    if isinstance(v, bool): return int(v)
    if not isinstance(v, int): raise TypeError('%r object cannot be interpreted as an integer' % type(v).__name__)
    if not 0 <= v <= 255: raise ValueError('byte must be in range(0, 256)')
    return v

def norm(segs):
    out = []
    for s in segs:
        n = s.n()
        if not clen(n):
            f = fixed(n)
            if clen(f) and isinstance(s, (Vw, Run)):
                n, s = f, (Vw(s.base, s.off, f) if isinstance(s, Vw) else Run(s.v, f))
        if clen(n):
            if n == 0: continue
            if isinstance(s, (Vw, Run)) and n <= 4096:
                s = L([s.get(i) for i in range(n)])
            if isinstance(s, L) and out and isinstance(out[-1], L):
                out[-1] = L(out[-1].e + s.e)
                continue
        elif isinstance(s, Vw) and out and isinstance(out[-1], Vw) and out[-1].base == s.base:
            d = (out[-1].off + out[-1]._n) - s.off
            if clen(d) and d == 0:
                out[-1] = Vw(s.base, out[-1].off, out[-1]._n + s._n)
                continue
        out.append(s)
    return out

class SBytes(object):
    """bytes (mutable=False) or bytearray (mutable=True)"""
    __slots__ = ('segs', 'mutable', '__weakref__')
    def __init__(self, segs=(), mutable=False):
        self.segs = norm(segs)
        self.mutable = mutable

    # -- construction
    @staticmethod
    def lit(elems, mutable=False): return SBytes([L(list(elems))] if elems else [], mutable)

    @staticmethod
    def of(x, mutable=False):
        if isinstance(x, SBytes): return SBytes(list(x.segs), mutable)
        if isinstance(x, (bytes, bytearray)): return SBytes.lit(list(x), mutable)
        f = getattr(type(x), '__sbytes__', None)
        if f is not None:
            return SBytes.of(f(x), mutable)
        raise TypeError('cannot convert %r to bytes' % type(x).__name__)

    # -- basic
    def slen(self):
        n = 0
        for s in self.segs: n = s.n() + n
        return n
    def concrete(self):
        """native bytes if everything is concrete else None"""
        if not self.segs: return b''
        if len(self.segs) == 1 and isinstance(self.segs[0], L) and all(type(v) is int for v in self.segs[0].e):
            return bytes(self.segs[0].e)
        return None
    def elems(self):
        if not self.segs: return []
        if len(self.segs) == 1 and isinstance(self.segs[0], L): return self.segs[0].e
        return None
    def out(self):
        """simplest immutable value"""
        if self.mutable: return self
        c = self.concrete()
        return self if c is None else c

    def __len__(self):
        n = self.slen()
        if clen(n): return n
        raise Unsupported('native len() of symbolic-length bytes')
    def __bool__(self):
        n = self.slen()
        return bool(n != 0)
    def __iter__(self):
        e = self.elems()
        if e is not None: return iter(list(e))
        return self._iter()
    def _iter(self):
        i = 0
        n = self.slen()
        while i < n:
            yield self[i]
            i += 1
            if i > 300: raise Unsupported('iteration over symbolic-length bytes')
    def __reversed__(self):
        e = self.elems()
        if e is None: raise Unsupported('reversed symbolic-length bytes')
        return iter(e[::-1])

    def _norm_index(self, i, n):
        if isinstance(i, (SymBool,)): i = i.__index__()
        if i < 0:
            i = i + n
            if i < 0: return 0
        if i > n: return n
        return i
    def _bounds(self, sl):
        if sl.step not in (None, 1): return None
        n = self.slen()
        a = 0 if sl.start is None else self._norm_index(sl.start, n)
        b = n if sl.stop is None else self._norm_index(sl.stop, n)
        if not isinstance(a, (int, SymInt)) or not isinstance(b, (int, SymInt)):
            raise TypeError('slice indices must be integers or None or have an __index__ method')
        if isinstance(a, SymInt) and not a.is_integer() or isinstance(b, SymInt) and not b.is_integer():
            raise TypeError('slice indices must be integers')
        a, b = fixed(a), fixed(b)
        if b < a: b = a
        return a, b
    def _cut(self, a, b):
        """segments of [a:b), 0<=a<=b<=len"""
        if clen(a) and clen(b):
            if a == b: return []
            e = self.elems()
            if e is not None: return [L(e[a:b])]
        out = []
        pos = 0
        for s in self.segs:
            n = s.n()
            end = pos + n
            # overlap of [pos,end) with [a,b)
            if a >= end:
                pos = end
                continue
            if pos >= b: break
            lo = a - pos if a > pos else 0
            d = b - end
            if clen(d): hi = n if d >= 0 else b - pos
            elif isinstance(s, (Vw, Run)): hi = b - pos if d <= 0 else n
            else: hi = b - pos if d < 0 else n
            out.append(s.cut(lo, hi) if not (clen(lo) and lo == 0 and hi is n) else s)
            pos = end
        return out

    def __getitem__(self, i):
        if isinstance(i, slice):
            b = self._bounds(i)
            if b is None:
                e = self.elems()
                if e is None: raise Unsupported('extended slice of symbolic-length bytes')
                return SBytes.lit(e[i], self.mutable).out()
            return SBytes(self._cut(*b), self.mutable).out()
        n = self.slen()
        if isinstance(i, float) or not isinstance(i, (int, SymInt, SymBool)):
            raise TypeError('byte indices must be integers or slices')
        if isinstance(i, SymInt) and not i.is_integer(): raise TypeError('byte indices must be integers')
        if i < 0: i = i + n
        if i < 0 or i >= n: raise IndexError('index out of range')
        pos = 0
        for s in self.segs:
            end = pos + s.n()
            if i < end: return s.get(i - pos)
            pos = end
        raise IndexError('index out of range')

    def _replace(self, a, b, new):
        n = self.slen()
        self.segs = norm(self._cut(0, a) + new + self._cut(b, n))

    def _need_mutable(self):
        if not self.mutable: raise TypeError("'bytes' object does not support item assignment")
    def __setitem__(self, i, v):
        self._need_mutable()
        if isinstance(i, slice):
            b = self._bounds(i)
            if b is None: raise Unsupported('extended slice assignment')
            if isinstance(v, (list, tuple)): v = SBytes.lit([_byte(x) for x in v])
            v = SBytes.of(v)
            self._replace(b[0], b[1], list(v.segs))
            return
        v = _byte(v)
        n = self.slen()
        if i < 0: i = i + n
        if i < 0 or i >= n: raise IndexError('bytearray index out of range')
        e = self.elems()
        if e is not None:
            if not clen(i): i = i.__index__()
            e = list(e)
            e[i] = v
            self.segs = [L(e)]
        else:
            self._replace(i, i + 1, [L([v])])
    def __delitem__(self, i):
        self._need_mutable()
        if isinstance(i, slice):
            a, b = self._bounds(i)
        else:
            n = self.slen()
            if i < 0: i = i + n
            if i < 0 or i >= n: raise IndexError('bytearray index out of range')
            a, b = i, i + 1
        self._replace(a, b, [])
    def append(self, v):
        self._need_mutable()
        self.segs = norm(self.segs + [L([_byte(v)])])
    def extend(self, o):
        self._need_mutable()
        self.segs = norm(self.segs + list(_seq(o).segs))
    def insert(self, i, v):
        self._need_mutable()
        self[i:i] = [v]
    def clear(self):
        self._need_mutable()
        self.segs = []
    def pop(self, i=-1):
        self._need_mutable()
        v = self[i]
        del self[i]
        return v
    def reverse(self):
        self._need_mutable()
        self.segs = [L(self.elems()[::-1])]

    def __add__(self, o):
        if not isinstance(o, (SBytes, bytes, bytearray)) and not hasattr(type(o), '__sbytes__'): return NotImplemented
        return SBytes(self.segs + SBytes.of(o).segs, self.mutable).out()
    def __radd__(self, o):
        if not isinstance(o, (bytes, bytearray)): return NotImplemented
        return SBytes(SBytes.of(o).segs + self.segs, isinstance(o, bytearray)).out()
    def __iadd__(self, o):
        if self.mutable:
            self.extend(o)
            return self
        return self + o
    def __mul__(self, k):
        if isinstance(k, (SymInt, SymBool)):
            if k <= 0: return SBytes([], self.mutable).out()
            e = self.elems()
            if e is not None and len(e) == 1: return SBytes([Run(e[0], k)], self.mutable).out()
            k = k.__index__()
        return SBytes(self.segs * max(k, 0), self.mutable).out()
    __rmul__ = __mul__

    # -- comparison
    def eq(self, o):
        """bool/SymBool; Unsupported if it needs a quantifier that is not syntactically true"""
        o = SBytes.of(o)
        n, m = self.slen(), o.slen()
        ln = (n == m)
        if ln is False: return False
        a, b = self.elems(), o.elems()
        if a is not None and b is not None:
            if len(a) != len(b): return False
            return And(*[x == y for x, y in zip(a, b)])
        if len(self.segs) == len(o.segs) and all(_seg_same(x, y) for x, y in zip(self.segs, o.segs)): return True
        if ln is not True:
            if not ln: return False
            # lengths now equal; with a literal side the other becomes literal
        if clen(n) or clen(m):
            k = n if clen(n) else m
            return And(*[self[i] == o[i] for i in range(k)])
        raise Unsupported('comparison of symbolic-length bytes')
    def __eq__(self, o):
        if isinstance(o, (SBytes, bytes, bytearray)): return self.eq(o)
        return False
    def __ne__(self, o): return Not(self.__eq__(o))
    def __hash__(self):
        c = self.concrete()
        if c is not None and not self.mutable: return hash(c)
        raise Unsupported('hash of symbolic bytes')
    def __contains__(self, x):
        if isinstance(x, (int, SymInt)):
            e = self.elems()
            if e is None: raise Unsupported('membership in symbolic-length bytes')
            return bool(Or(*[x == v for v in e]))
        raise Unsupported('subsequence search in symbolic bytes')
    def startswith(self, p):
        if isinstance(p, tuple): return any(self.startswith(x) for x in p)
        p = SBytes.of(p)
        n, m = self.slen(), p.slen()
        if n < m: return False
        return bool(self[0:m] == p)
    def endswith(self, p):
        p = SBytes.of(p)
        n, m = self.slen(), p.slen()
        if n < m: return False
        return bool(self[n - m:n] == p)

    # -- opaque text-ish operations
    def _opq(self, op, *args):
        self.segs = norm(self.segs)
        c = self.concrete()
        if c is not None:
            r = getattr(bytearray(c) if self.mutable else c, op)(*args)
            return SBytes.of(r, self.mutable).out() if isinstance(r, (bytes, bytearray)) else r
        n = uf('len:%s' % op, [0], 0, None) if False else var(Ctx.cur.fresh('oplen'), 0, None)
        Ctx.cur.assume(n <= self.slen())
        return SBytes([Op(op, (SBytes(self.segs),) + tuple(args), n)], self.mutable)
    def rstrip(self, chars=None):
        # what is known to be stripped is stripped; the rest is opaque unless its last byte is known to stay
        cs = b' \t\n\r\x0b\x0c' if chars is None else bytes(chars)
        segs = norm(self.segs)
        while segs:
            s = segs[-1]
            if isinstance(s, Run) and isinstance(s.v, int) and s.v in cs: segs = segs[:-1]
            elif isinstance(s, L):
                e = s.e[-1] if s.e else None
                if e is None or (e in cs if isinstance(e, int) else _sure(Or(*[e == c for c in cs]))): segs = segs[:-1] + ([L(s.e[:-1])] if len(s.e) > 1 else [])
                elif isinstance(e, int) or _sure(And(*[e != c for c in cs])): return SBytes(segs, self.mutable).out()
                else: break
            else: break
        if not segs: return SBytes([], self.mutable).out()
        return SBytes(segs, self.mutable)._opq('rstrip', *([] if chars is None else [bytes(chars)]))
    def lstrip(self, chars=None): return self._opq('lstrip', *([] if chars is None else [bytes(chars)]))
    def strip(self, chars=None): return self._opq('strip', *([] if chars is None else [bytes(chars)]))
    def replace(self, a, b): return self._opq('replace', bytes(a), bytes(b))
    def upper(self): return self._opq('upper')
    def lower(self): return self._opq('lower')
    def split(self, *a): raise Unsupported('bytes.split')
    def hex(self):
        c = self.concrete()
        if c is not None: return c.hex()
        return SStr('hex', (SBytes(self.segs),))
    def decode(self, encoding='utf-8', errors='strict'):
        self.segs = norm(self.segs)
        c = self.concrete()
        if c is not None: return c.decode(encoding, errors)
        return SStr('decode', (SBytes(self.segs), str(encoding).lower().replace('_', '-'), errors)).checked()
    def ljust(self, n, fill=b' '): return self._pad(n, fill, True)
    def rjust(self, n, fill=b' '): return self._pad(n, fill, False)
    def _pad(self, n, fill, left):
        if isinstance(fill, str): raise TypeError('must be a byte string of length 1, not str')
        cur = self.slen()
        if n <= cur: return SBytes(self.segs, self.mutable).out()
        run = [Run(SBytes.of(fill)[0], n - cur)]
        return SBytes(self.segs + run if left else run + self.segs, self.mutable).out()
    def join(self, it):
        if hasattr(it, 'joined'): return it.joined(self)
        out = []
        for i, x in enumerate(it):
            if i: out += self.segs
            out += SBytes.of(x).segs
        return SBytes(out, self.mutable).out()
    def find(self, *a): raise Unsupported('bytes.find')
    def index(self, *a): raise Unsupported('bytes.index')
    def count(self, *a): raise Unsupported('bytes.count')
    def tobytes(self): return SBytes(self.segs).out()
    def copy(self): return SBytes(self.segs, self.mutable)
    def __copy__(self): return SBytes(self.segs, self.mutable)
    def __deepcopy__(self, m): return SBytes(self.segs, self.mutable)
    def __repr__(self): return 'SBytes(%s)' % '+'.join(repr(s) for s in self.segs)
    def __str__(self): return repr(self)
    def __format__(self, spec): return '<symbolic bytes>'
    def __mod__(self, o): raise Unsupported('bytes %')

def _num_same(a, b):
    r = (a == b)
    return r is True or (isinstance(r, SymBool) and Ctx.cur.known.get(r.key()) is True)

def _seg_same(x, y):
    if type(x) is not type(y): return False
    if isinstance(x, L): return len(x.e) == len(y.e) and all(_num_same(a, b) for a, b in zip(x.e, y.e))
    if isinstance(x, Vw): return x.base == y.base and _num_same(x.off, y.off) and _num_same(x._n, y._n)
    if isinstance(x, Run): return _num_same(x.v, y.v) and _num_same(x._n, y._n)
    if isinstance(x, Op): return x.op == y.op and same_args(x.args, y.args)
    return False

def same_args(a, b):
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if isinstance(x, SBytes) or isinstance(y, SBytes):
            if not isinstance(x, SBytes) or not isinstance(y, SBytes): return False
            if len(x.segs) != len(y.segs) or not all(_seg_same(p, q) for p, q in zip(x.segs, y.segs)):
                r = x.eq(y)
                if r is not True:
                    if Ctx.cur.entails(r)[0] != 'yes': return False
        elif isinstance(x, SStr) or isinstance(y, SStr):
            if not isinstance(x, SStr) or not isinstance(y, SStr) or not x.same(y): return False
        elif isinstance(x, (SymInt, int)) and isinstance(y, (SymInt, int)):
            if not _num_same(x, y): return False
        elif x != y: return False
    return True

def ascii_ok(b):
    """formula 'every byte is below 128' (None if not expressible); stripping ASCII characters does not change it"""
    out = []
    for s in b.segs:
        if isinstance(s, L): out += [v < 128 for v in s.e]
        elif isinstance(s, Run): out.append(Or(s._n == 0, s.v < 128))
        elif isinstance(s, Op) and s.op in ('rstrip', 'lstrip', 'strip') and all(c < 128 for a in s.args[1:] for c in a):
            r = ascii_ok(s.args[0])
            if r is None: return None
            out.append(r)
        else: return None
    return And(*out)

class SStr(object):
    """opaque symbolic text"""
    __slots__ = ('op', 'args')
    def __init__(self, op, args):
        self.op, self.args = op, args
    def checked(self):
        """strict decoding may fail: case split on an uninterpreted validity predicate"""
        b = self.args[0]
        if self.args[2] == 'strict':
            a = ascii_ok(b) if self.args[1] in ('ascii', 'us-ascii') else None
            if a is not None: ok = bool(a)
            elif self.args[1] in ('latin-1', 'iso-8859-1', 'latin1'):
                ok = True
            else:
                ok = bool(uf_bool('decodable', self.args[1], seg_repr(b)))
            if not ok: raise UnicodeDecodeError(self.args[1], b'?', 0, 1, 'symbolic')
        return self
    def same(self, o): return self.op == o.op and same_args(self.args, o.args)
    def __eq__(self, o):
        if isinstance(o, SStr):
            if self.same(o): return True
            if self.op == o.op and self.op in ('hex', 'bin', 'oct'): return self.args[0] == o.args[0]
            return uf_bool('streq', repr(self), repr(o))
        if isinstance(o, str): return uf_bool('streq', repr(self), o)
        return False
    def __ne__(self, o): return Not(self == o)
    def __hash__(self): raise Unsupported('hash of symbolic text')
    def _m(self, op, *a): return SStr(op, (self,) + a)
    def strip(self, *a): return self._m('strip', *a)
    def rstrip(self, *a): return self._m('rstrip', *a)
    def lstrip(self, *a): return self._m('lstrip', *a)
    def upper(self): return self._m('upper')
    def lower(self): return self._m('lower')
    def replace(self, *a): return self._m('replace', *a)
    def encode(self, enc='utf-8', errors='strict'):
        enc = str(enc).lower().replace('_', '-')
        if self.op == 'decode' and self.args[1] == enc: return SBytes(self.args[0].segs)
        return SBytes([Op('encode', (self, enc, errors), var(Ctx.cur.fresh('oplen'), 0, None))])
    def __add__(self, o):
        if isinstance(o, (str, SStr)): return self._m('add', o)
        return NotImplemented
    def __radd__(self, o):
        if isinstance(o, str): return SStr('radd', (o, self))
        return NotImplemented
    def __getitem__(self, i): raise Unsupported('index of symbolic text')
    def __iter__(self): raise Unsupported('iteration of symbolic text')
    def __bool__(self): return bool(uf_bool('strtrue', repr(self)))
    def __len__(self):
        if self.op == 'decode' and self.args[1] in ('ascii', 'us-ascii', 'latin-1'): return self.args[0].slen()
        raise Unsupported('len of symbolic text')
    def __repr__(self): return 'SStr.%s(%s)' % (self.op, ','.join(seg_repr(a) if isinstance(a, SBytes) else repr(a) for a in self.args))
    __str__ = __repr__
    def __format__(self, spec): return repr(self)
    def startswith(self, p): return bool(uf_bool('startswith', repr(self), repr(p)))
    def endswith(self, p): return bool(uf_bool('endswith', repr(self), repr(p)))

def seg_repr(b): return '+'.join(repr(s) for s in b.segs)

def _seq(x):
    if isinstance(x, (SBytes, bytes, bytearray)) or hasattr(type(x), '__sbytes__'): return SBytes.of(x)
    return SBytes.lit([_byte(v) for v in x])

def make(mutable, *args, **kw):
    """bytes(...)/bytearray(...)"""
    if not args: return SBytes([], mutable).out()
    x = args[0]
    if isinstance(x, (str, SStr)):
        if len(args) < 2 and not kw: raise TypeError('string argument without an encoding')
        return SBytes.of(x.encode(*args[1:], **kw), mutable).out()
    if isinstance(x, (bool, SymBool)): x = x.__index__()
    if isinstance(x, int):
        if x < 0: raise ValueError('negative count')
        return SBytes([Run(0, x)], mutable).out()
    if isinstance(x, SymInt):
        if x < 0: raise ValueError('negative count')
        return SBytes([Run(0, x)], mutable).out()
    g = getattr(type(x), '__wholebytes__', None)
    if g is not None:
        r = g(x)
        if r is not None: return SBytes(r.segs, mutable).out()
    f = getattr(type(x), '__bytes__', None)
    if f is not None and not isinstance(x, (bytes, bytearray, SBytes)) and not mutable:
        return f(x)
    return SBytes(_seq(x).segs, mutable).out()

def int_to_bytes(v, length, byteorder='big', signed=False):
    if not isinstance(length, int): length = length.__index__()
    if signed:
        if v < -(1 << (8 * length - 1)) or v >= (1 << (8 * length - 1)): raise OverflowError('int too big to convert')
    else:
        if v < 0: raise OverflowError("can't convert negative int to unsigned")
        if v >= (1 << (8 * length)): raise OverflowError('int too big to convert')
    l = to_lin(v)
    e = [wrap(lin_mod(lin_floordiv(l, 1 << (8 * i)), 256)) for i in range(length)]
    if byteorder == 'big': e.reverse()
    elif byteorder != 'little': raise ValueError("byteorder must be either 'little' or 'big'")
    return SBytes.lit(e).out()

def int_from_bytes(b, byteorder='big', signed=False):
    e = _seq(b).elems()
    if e is None: raise Unsupported('int.from_bytes of symbolic length')
    if byteorder == 'little': e = e[::-1]
    elif byteorder != 'big': raise ValueError("byteorder must be either 'little' or 'big'")
    v = 0
    for x in e: v = v * 256 + x
    if signed and e:
        v = v - (1 << (8 * len(e))) * (e[0] // 128)
    return v

def _sure(b): return b is True or (b is not False and Ctx.cur.entails(b)[0] == 'yes')
