"""Exact models of the standard library pieces the code calls on symbolic data: struct, io.BytesIO."""
import struct as _struct, types, re
from .sym import *
from .sbytes import SBytes, SStr, int_to_bytes, int_from_bytes, _seq

def _parse(fmt):
    if isinstance(fmt, SBytes): fmt = fmt.concrete()
    if isinstance(fmt, (bytes, bytearray)): fmt = bytes(fmt).decode()
    end = '@'
    if fmt[:1] in '@=<>!': end, fmt = fmt[0], fmt[1:]
    items = []
    for cnt, ch in re.findall(r'\s*(\d*)([a-zA-Z?])', fmt):
        items.append((cnt, ch))
    return end, items

_INT = 'bBhHiIlLqQ'

def calcsize(fmt):
    if isinstance(fmt, SBytes): fmt = fmt.concrete()
    return _struct.calcsize(fmt)

def pack(fmt, *vals):
    if not any(isinstance(v, (SymInt, SymBool, SBytes)) for v in vals): return _struct.pack(fmt, *vals)
    end, items = _parse(fmt)
    if end == '@' and len(items) > 1: raise Unsupported('struct.pack with native alignment')
    out, i = [], 0
    for cnt, ch in items:
        if ch == 'x':
            out.append(b'\0' * int(cnt or 1)); continue
        if ch == 's':
            n = int(cnt or 1)
            v = SBytes.of(vals[i]); i += 1
            if not clen_(v.slen()): raise Unsupported('struct.pack of symbolic-length bytes')
            k = v.slen()
            out.append(v[:n] if k >= n else SBytes.of(v) + b'\0' * (n - k))
            continue
        if ch not in _INT: raise Unsupported('struct format ' + ch)
        for _ in range(int(cnt or 1)):
            v = vals[i]; i += 1
            size = _struct.calcsize(end + ch)
            if isinstance(v, SymBool): v = v.__index__()
            if not isinstance(v, (int, SymInt)):
                raise _struct.error('required argument is not an integer')
            if ch.islower(): lo, hi = -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1
            else: lo, hi = 0, (1 << (8 * size)) - 1
            if v < lo or v > hi: raise _struct.error('argument out of range')
            if isinstance(v, int):
                out.append(_struct.pack(end + ch, v))
            else:
                if ch.islower() and v < 0: v = v + (1 << (8 * size))
                out.append(int_to_bytes(v, size, 'big' if end in '>!' else 'little'))
    if i != len(vals): raise _struct.error('pack expected %d items' % i)
    return SBytes.of(b'').join(out)

def clen_(n): return isinstance(n, int)

def unpack(fmt, data):
    if isinstance(data, SBytes) and data.concrete() is not None: data = data.concrete()
    if not isinstance(data, SBytes): return _struct.unpack(fmt, data)
    end, items = _parse(fmt)
    n = _struct.calcsize(fmt if isinstance(fmt, str) else fmt)
    if data.slen() != n: raise _struct.error('unpack requires a buffer of %d bytes' % n)
    if end == '@' and len(items) > 1: raise Unsupported('struct.unpack with native alignment')
    out, pos = [], 0
    for cnt, ch in items:
        if ch == 'x': pos += int(cnt or 1); continue
        if ch == 's':
            k = int(cnt or 1)
            out.append(data[pos:pos + k]); pos += k; continue
        if ch not in _INT: raise Unsupported('struct format ' + ch)
        size = _struct.calcsize(end + ch)
        for _ in range(int(cnt or 1)):
            out.append(int_from_bytes(data[pos:pos + size], 'big' if end in '>!' else 'little', signed=ch.islower()))
            pos += size
    return tuple(out)

def unpack_from(fmt, buf, offset=0):
    n = _struct.calcsize(fmt)
    b = SBytes.of(buf)
    if b.slen() - offset < n: raise _struct.error('unpack_from requires a larger buffer')
    return unpack(fmt, b[offset:offset + n])

struct_model = types.ModuleType('struct')
struct_model.pack, struct_model.unpack, struct_model.calcsize, struct_model.error = pack, unpack, calcsize, _struct.error
struct_model.unpack_from = unpack_from
class _Struct(object):
    def __init__(self, fmt): self.format, self.size = fmt, calcsize(fmt)
    def pack(self, *a): return pack(self.format, *a)
    def unpack(self, d): return unpack(self.format, d)
    def unpack_from(self, d, o=0): return unpack_from(self.format, d, o)
struct_model.Struct = _Struct

class SBytesIO(object):
    """io.BytesIO over symbolic bytes"""
    def __init__(self, initial=b''):
        self.buf = SBytes.of(initial)
        self.buf.mutable = False
        self.pos = 0
    def read(self, n=-1):
        total = self.buf.slen()
        if n is None or n < 0: end = total
        else:
            end = self.pos + n
            if end > total: end = total
        if self.pos >= end: return b''
        r = self.buf[self.pos:end]
        self.pos = end
        return r
    def write(self, data):
        data = SBytes.of(data)
        total = self.buf.slen()
        n = data.slen()
        if n == 0: return 0
        if self.pos == total:
            self.buf = SBytes(self.buf.segs + data.segs)
        else:
            b = SBytes(self.buf.segs, True)
            if self.pos > total: b.extend(SBytes.of(b'\0') * (self.pos - total))
            b[self.pos:self.pos + n] = data
            self.buf = SBytes(b.segs)
        self.pos = self.pos + n
        return n
    def tell(self): return self.pos
    def seek(self, off, whence=0):
        if whence == 0: self.pos = off
        elif whence == 1: self.pos = self.pos + off
        else: self.pos = self.buf.slen() + off
        return self.pos
    def getvalue(self): return self.buf.out()
    def close(self): pass
    def flush(self): pass
