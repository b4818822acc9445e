"""Model of the part of ctypes that lays C structures out in memory: buffers with addresses, structures overlaying them,
native alignment (LP64; LLP64 for Windows), silent truncation of stored integers, little-endian byte order.

Every access through an address is an obligation: it must stay inside a buffer that is still alive (reachable)."""
import types, weakref
from .sym import *
from .sym import Ctx
from .sbytes import SBytes, int_to_bytes, int_from_bytes, fixed
from .sbuiltins import slen

BASE, SPACING = 0x7f0012345a70, 1 << 34

class Heap(object):
    def __init__(self): self.reset()
    def reset(self): self.live, self.next = weakref.WeakValueDictionary(), 0
    def alloc(self, content):
        m = Mem(content, BASE + self.next * SPACING)
        self.live[self.next] = m
        self.next += 1
        return m
    def find(self, addr, n, what):
        V = getattr(Ctx.cur, 'V', None)
        if isinstance(addr, SymInt): addr = fixed(addr)
        if isinstance(addr, SymInt): raise Unsupported('access through a computed address')
        k, off = divmod((addr or 0) - BASE, SPACING)
        m = self.live.get(k) if addr else None
        if V is not None: V.check('%s goes through a pointer to a live buffer' % what, m is not None)
        if m is None: raise Unsupported('dangling pointer')
        if V is not None: V.check('%s stays inside its buffer' % what, off + n <= m.size())
        return m, off
HEAP = Heap()

class Mem(object):
    def __init__(self, content, addr): self.content, self.addr = SBytes.of(content), addr
    def size(self): return self.content.slen()
    def read(self, off, n): return self.content[off:off + n]
    def write(self, off, data):
        data = SBytes.of(data)
        n = data.slen()
        c = SBytes.of(self.content)
        self.content = SBytes(SBytes.of(c[:off]).segs + data.segs + SBytes.of(c[off + n:]).segs)

# ---- types
class Meta(type):
    def __mul__(cls, n):
        if n < 0: raise ValueError('Array length must be >= 0, not %d' % n)
        return array_type(cls, n)
    __rmul__ = __mul__

class Data(metaclass=Meta):
    """anything that lives in memory"""
    _mem = None
    def _attach(self, mem, off=0):
        d = self.__dict__
        d['_mem'], d['_off'], d['_keep'] = mem, off, []
    @classmethod
    def from_buffer(cls, buf, offset=0):
        if not isinstance(buf, (Data, bytearray)) and not (isinstance(buf, SBytes) and buf.mutable):
            raise TypeError('underlying buffer is not writable')
        if isinstance(buf, SBytes) or isinstance(buf, bytearray): raise Unsupported('from_buffer of a bytearray')
        if buf._size() - offset < cls._csize(): raise ValueError('Buffer size too small')
        o = cls.__new__(cls)
        o._attach(buf._mem, buf._off + offset)
        o._keep.append(buf)
        return o
    @classmethod
    def from_buffer_copy(cls, data, offset=0):
        data = SBytes.of(data._raw() if isinstance(data, Data) else data)
        if data.slen() - offset < cls._csize(): raise ValueError('Buffer size too small')
        o = cls.__new__(cls)
        o._attach(HEAP.alloc(data[offset:offset + cls._csize()]))
        return o
    @classmethod
    def _zeros(cls):
        from .sbytes import Run
        return HEAP.alloc(SBytes([Run(0, cls._csize())]))
    def _size(self): return type(self)._csize()
    def _raw(self): return SBytes.of(self._mem.read(self._off, self._size())).out()

class Simple(Data):
    _sz, _signed, _ptr = 4, True, False
    @classmethod
    def _csize(cls): return cls._sz
    @classmethod
    def _calign(cls): return cls._sz
    def __init__(self, value=0):
        self._attach(type(self)._zeros())
        self.value = value
    @property
    def value(self): return type(self)._load(self._mem, self._off)
    @value.setter
    def value(self, v): self._keep[:] = type(self)._store(self._mem, self._off, v)
    @classmethod
    def _load(cls, mem, off):
        v = int_from_bytes(SBytes.of(mem.read(off, cls._sz)).out(), 'little', signed=cls._signed)
        if cls._ptr: return v if v != 0 else None
        return v
    @classmethod
    def _store(cls, mem, off, v):
        keep = []
        if isinstance(v, Simple):
            if type(v) is not cls and not issubclass(type(v), cls): raise TypeError('incompatible types')
            keep, v = list(v._keep) or [v], v.value
        if v is None and cls._ptr: v = 0
        if isinstance(v, SymBool): v = v.__index__()
        if not isinstance(v, (int, SymInt)): raise TypeError('int expected instead of %s instance' % type(v).__name__)
        if cls._ptr and not isinstance(v, SymInt) and not isinstance(v, int): raise TypeError('cannot be converted to pointer')
        mem.write(off, int_to_bytes(v % (1 << (8 * cls._sz)), cls._sz, 'little'))
        return keep
    def __repr__(self): return '%s(%r)' % (type(self).__name__, self.value)
    def __bool__(self): return bool(self.value)

def simple(name, size, signed, ptr=False): return Meta(name, (Simple,), dict(_sz=size, _signed=signed, _ptr=ptr))

class Array(Data):
    _t, _n = None, 0
    @classmethod
    def _csize(cls): return cls._t._csize() * cls._n
    @classmethod
    def _calign(cls): return cls._t._calign()
    def __init__(self, *vals):
        self._attach(type(self)._zeros())
        for i, v in enumerate(vals): self[i] = v
    def __slen__(self): return self._n
    def __len__(self):
        if isinstance(self._n, int): return self._n
        raise Unsupported('native len() of a buffer of symbolic length')
    def _at(self, i):
        if isinstance(i, slice): raise Unsupported('slice of a ctypes array')
        if i < 0: i = i + self._n
        if i < 0 or i >= self._n: raise IndexError('invalid index')
        return self._off + i * self._t._csize()
    def __getitem__(self, i):
        if isinstance(i, slice):
            r = self._raw()[i] if self._t._csize() == 1 else None
            if r is None: raise Unsupported('slice of a ctypes array')
            return r if self._t is CHAR else list(SBytes.of(r).elems())
        return self._t._load(self._mem, self._at(i))
    def __setitem__(self, i, v): self._t._store(self._mem, self._at(i), v)
    def __iter__(self): return (self[i] for i in range(len(self)))
    raw = property(lambda self: self._raw(), lambda self, v: self._setraw(v))
    def _setraw(self, v):
        v = SBytes.of(v)
        if v.slen() > self._n: raise ValueError('byte string too long')
        self._mem.write(self._off, v)
    @property
    def value(self):
        c = SBytes.of(self._raw()).concrete()
        if c is None: raise Unsupported('value of a ctypes buffer')
        return c.split(b'\0')[0]

_ARRAYS = {}
def array_type(t, n):
    k = (t, n) if isinstance(n, int) else None
    if k is not None and k in _ARRAYS: return _ARRAYS[k]
    a = Meta('%s_Array' % t.__name__, (Array,), dict(_t=t, _n=n))
    if k is not None: _ARRAYS[k] = a
    return a
CHAR = simple('c_char', 1, False)
TYPES = dict(c_void_p=simple('c_void_p', 8, False, True), c_char=CHAR)
for _n, _s, _g in (('c_byte', 1, True), ('c_ubyte', 1, False), ('c_short', 2, True), ('c_ushort', 2, False), ('c_int', 4, True), ('c_uint', 4, False),
                   ('c_longlong', 8, True), ('c_ulonglong', 8, False), ('c_size_t', 8, False), ('c_ssize_t', 8, True)):
    TYPES[_n] = simple(_n, _s, _g)

class Field(object):
    def __init__(self, t, off): self.t, self.offset = t, off
    size = property(lambda self: self.t._csize())
    def __get__(self, o, cls):
        if o is None: return self
        if issubclass(self.t, Simple): return self.t._load(o._mem, o._off + self.offset)
        r = self.t.__new__(self.t)
        r._attach(o._mem, o._off + self.offset)
        r._keep.append(o)
        return r
    def __set__(self, o, v):
        if issubclass(self.t, Simple):
            keep = self.t._store(o._mem, o._off + self.offset, v)
            o.__dict__.setdefault('_kept', {})[self.offset] = keep
        elif isinstance(v, tuple):
            a = self.__get__(o, type(o))
            for i, x in enumerate(v): a[i] = x
        else:
            if type(v) is not self.t: raise TypeError('incompatible types')
            o._mem.write(o._off + self.offset, v._raw())

class StructMeta(Meta):
    def __init__(cls, name, bases, ns):
        type.__init__(cls, name, bases, ns)
        if '_fields_' not in ns: return
        pack = getattr(cls, '_pack_', None)
        off, align = 0, 1
        for f in bases: 
            if getattr(f, '_size_', None): off, align = f._size_, f._align_
        for f in ns['_fields_']:
            if len(f) > 2: raise Unsupported('bit fields in ctypes structures')
            a = f[1]._calign()
            if pack: a = min(a, pack)
            off = (off + a - 1) // a * a
            setattr(cls, f[0], Field(f[1], off))
            off += f[1]._csize()
            align = max(align, a)
        cls._size_, cls._align_ = (off + align - 1) // align * align, align

class Structure(Data, metaclass=StructMeta):
    _size_, _align_ = 0, 1
    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        return o
    def __init__(self, *args, **kw):
        self._attach(type(self)._zeros())
        for (f, v) in zip(self._fields_, args): setattr(self, f[0], v)
        for k, v in kw.items(): setattr(self, k, v)
    @classmethod
    def _csize(cls): return cls._size_
    @classmethod
    def _calign(cls): return cls._align_

class ByRef(object):
    def __init__(self, obj, off=0): self._obj, self.off = obj, off

def build(long_size=8):
    m = types.ModuleType('ctypes')
    d = m.__dict__
    d.update(TYPES)
    for n, s, sg in (('c_long', long_size, True), ('c_ulong', long_size, False)): d[n] = simple(n, s, sg)
    for n, o in (('c_int8', 'c_byte'), ('c_uint8', 'c_ubyte'), ('c_int16', 'c_short'), ('c_uint16', 'c_ushort'), ('c_int32', 'c_int'), ('c_uint32', 'c_uint'),
                 ('c_int64', 'c_longlong'), ('c_uint64', 'c_ulonglong')): d[n] = d[o]
    CH = CHAR
    d.update(Structure=Structure, Array=Array)
    def create_string_buffer(init, size=None):
        if isinstance(init, (bytes, SBytes)):
            b = SBytes.of(init)
            n = b.slen() + 1 if size is None else size
            if size is not None and b.slen() > size:
                raise ValueError('byte string too long')
            pad = n - b.slen()
            from .sbytes import Run
            mem = HEAP.alloc(SBytes(b.segs + ([Run(0, pad)] if not (isinstance(pad, int) and pad == 0) else [])))
        elif isinstance(init, (int, SymInt)):
            n = init
            if n < 0: raise ValueError('Array length must be >= 0, not %s' % n)
            from .sbytes import Run
            mem = HEAP.alloc(SBytes([Run(0, n)]))
        else: raise TypeError(init)
        o = array_type(CH, fixed(n)).__new__(array_type(CH, fixed(n)))
        o._attach(mem)
        return o
    d['create_string_buffer'] = d['c_buffer'] = create_string_buffer
    def sizeof(x): return x._csize() if isinstance(x, type) else x._size()
    def addressof(x): return x._mem.addr + x._off
    def _addr(x):
        """(address, objects kept alive)"""
        if isinstance(x, d['c_void_p']): return x.value, x._keep
        if isinstance(x, Simple): raise TypeError('wrong type')
        if isinstance(x, Data): return addressof(x), [x]
        if isinstance(x, ByRef): return addressof(x._obj) + x.off, [x._obj]
        if x is None or isinstance(x, (int, SymInt)): return x, []
        raise Unsupported('address of %s' % type(x).__name__)
    def cast(obj, t):
        if t is not d['c_void_p']: raise Unsupported('cast to another type')
        a, keep = _addr(obj)
        r = d['c_void_p'](a)
        r._keep.extend(keep)
        return r
    def string_at(p, size=-1):
        a, _ = _addr(p)
        if isinstance(size, int) and size < 0: raise Unsupported('string_at without a size')
        mem, off = HEAP.find(a, size, 'a read from memory')
        return SBytes.of(mem.read(off, size)).out()
    def memset(dst, c, n):
        from .sbytes import Run
        mem, off = HEAP.find(_addr(dst)[0], n, 'a write to memory')
        mem.write(off, SBytes([Run(c % 256, n)]))
        return _addr(dst)[0]
    def memmove(dst, src, n):
        if isinstance(src, (bytes, SBytes)): data = SBytes.of(src)[:n]
        else: data = string_at(src, n)
        mem, off = HEAP.find(_addr(dst)[0], n, 'a write to memory')
        mem.write(off, data)
        return _addr(dst)[0]
    def CDLL(*a, **k): raise OSError('cannot open shared object file')
    d.update(sizeof=sizeof, addressof=addressof, cast=cast, string_at=string_at, memset=memset, memmove=memmove, byref=ByRef, CDLL=CDLL,
             ARRAY=lambda t, n: t * n, get_errno=lambda: 0, set_errno=lambda v: 0)
    return m

LP64 = build(8)
LLP64 = build(4)
