"""Assumed contracts on the dependency infi.instruct (closed forms of a few of its byte loops).
Every one of them is compared with the real dependency by engine/selfcheck.py."""
import math
from .sym import *
from .sym import Ctx, lin_floordiv, lin_mod
from .sbytes import SBytes, Run
from .sym import fixed
from .models_std import SBytesIO
from .seq import SymSeq, ChainSeq

def register(patches):
    patches['infi.instruct._compat'] = patch_compat
    patches['infi.instruct.buffer.serialize'] = patch_serialize
    patches['infi.instruct.array'] = patch_array
    patches['infi.instruct.buffer.io_buffer'] = patch_io_buffer

def patch_io_buffer(m):
    """BitView.to_bytes of a byte-aligned view of symbolic length: the bytes start..stop of the underlying buffer"""
    real = m.BitView.to_bytes
    def to_bytes(self):
        n = self.stop - self.start
        if isinstance(n, SymInt) and n.is_integer() and (isinstance(self.start, int) or isinstance(self.start, SymInt) and self.start.is_integer()):
            return SBytes(SBytes.of(SBytes.of(self.buffer)[self.start:self.stop]).segs).out()
        return real(self)
    m.BitView.to_bytes = to_bytes
    # an integer put into a range of at most a byte: one byte, without computing its bit length
    real_value = m.BitAwareByteArray._value_to_value_and_length
    def _value_to_value_and_length(self, value, int_value_len=1):
        if isinstance(value, SymInt) and not isinstance(int_value_len, SymInt) and 0 < int_value_len <= 1 and value.is_integer():
            bits = int(int_value_len * 8)
            if value >= (1 << bits) or value <= -(1 << bits): raise ValueError('trying to assign an int to a bit range too short for it')
            return [value % 256], int_value_len
        return real_value(self, value, int_value_len)
    m.BitAwareByteArray._value_to_value_and_length = _value_to_value_and_length
    # whole bytes of symbolic number or at a symbolic place: buf[:start] (zero filled) + value + buf[stop:]
    real_set = m.OutputBuffer.set
    def whole(x): return isinstance(x, int) or isinstance(x, float) and x == int(x) or isinstance(x, SymInt) and x.is_integer()
    def set(self, value, range_list):
        b = self.buffer
        if len(range_list) == 1 and isinstance(value, SBytes):
            r = range_list[0]
            n = value.slen()
            if any(isinstance(x, SymInt) for x in (n, r.start, r.stop, b.stop)) and all(whole(x) for x in (r.start, r.stop, b.start)) and b.start == 0:
                if r.stop - r.start > n: raise ValueError("trying to assign a value with smaller length than the range it's given")
                if not isinstance(r.start, SymInt) and not isinstance(b.stop, SymInt): b.zfill(r.start)
                raw = SBytes.of(b.buffer)
                have = raw.slen()
                if whole(b.stop) and b.stop == have:
                    if r.start > have: raw = SBytes(raw.segs + [Run(0, r.start - have)])
                    head = SBytes(raw._cut(0, r.start))
                    tail = SBytes(SBytes.of(raw)._cut(r.stop, have)) if r.stop < have else SBytes([])
                    new = SBytes(head.segs + SBytes(value._cut(0, r.stop - r.start)).segs + tail.segs, True)
                    b.buffer = new
                    b.stop = fixed(new.slen())
                    return
        return real_set(self, value, range_list)
    m.OutputBuffer.set = set
    # bytes() or bytearray() of whole bytes
    def __wholebytes__(self):
        if isinstance(self.stop, SymInt) and whole(self.start) and self.stop.is_integer() and isinstance(self.buffer, SBytes): return SBytes(self.buffer._cut(self.start, self.stop))
    m.BitView.__wholebytes__ = __wholebytes__

def patch_compat(m):
    m.StringIO = SBytesIO

def patch_serialize(m):
    """pack_bit_int(value, byte_size): closed form of the byte loop for a symbolic value that fits (0 <= value < 2**bits),
    and for any value narrower than a byte; everything else runs the dependency's own code"""
    real = m.pack_bit_int
    def pack_bit_int(value, byte_size, **kwargs):
        if isinstance(value, SymInt) and not isinstance(byte_size, SymInt):
            bits = int(byte_size * 8)
            if bits > 0:
                if value >= (1 << bits) or value <= -(1 << bits):
                    raise ValueError("trying to assign an int to a bit range too short for it")
                if value >= 0 or bits < 8:
                    n = int(math.ceil(byte_size))
                    l = to_lin(value)
                    e = [wrap(lin_mod(lin_floordiv(l, 1 << (8 * i)), 256)) for i in range(n)]
                    return m.BitAwareByteArray(SBytes.lit(e, True), 0, byte_size)
        return real(value, byte_size, **kwargs)
    m.pack_bit_int = pack_bit_int
    real_int = m.pack_int
    def pack_int(value, **kwargs):
        # the dependency computes value.bit_length() even when the size is given and it is not used
        if isinstance(value, SymInt) and kwargs.get('byte_size') is not None and m.kwargs_fractional_byte_size(kwargs) not in m.STRUCT_INT_PACKERS:
            byte_size = kwargs.pop('byte_size')
            return m.pack_bit_int(value, byte_size, **kwargs)
        return real_int(value, **kwargs)
    m.pack_int = pack_int
    patch_unpack_list(m)

def patch_unpack_list(m):
    """unpack_list(buffer, elem_unpacker, n=, byte_size=): a list of symbolic length instead of the dependency's loop.
    Elements of constant size c: min(n, ceil(length/c)) elements, element i unpacked from buffer[i*c:].
    Elements of varying size: element at offset o unpacked from buffer[o:], next one at o + size, ends at the buffer's
    end or after n elements (only for contracts that speak about results, not about refusals)."""
    real = m.unpack_list
    import functools
    def const_size(elem_unpacker, kw=None):
        if isinstance(elem_unpacker, functools.partial) and getattr(elem_unpacker.func, '__name__', '') == 'my_selector':
            # the selector's choice for the first element; an arbitrary element is checked against it below
            try:
                item, size = elem_unpacker(m.BitView(SBytes.of(b'\0' * 64)), index=0, n=None, container=[], **(kw or {}))
                own = type(item).byte_size
                return size if isinstance(size, int) and isinstance(own, int) and own == size else None
            except EngineStop: raise
            except Exception: return None
        if isinstance(elem_unpacker, functools.partial) and elem_unpacker.func is m.unpack_buffer:
            return elem_unpacker.keywords['type'].byte_size
        if isinstance(elem_unpacker, functools.partial) or getattr(elem_unpacker, '__name__', '') == 'my_selector': return None
        try: return elem_unpacker(m.BitView(SBytes.of(b'\0' * 64)), index=0, n=None, container=[])[1]
        except EngineStop: raise
        except Exception: return None
    def unpack_list(buffer, elem_unpacker, **kwargs):
        n = kwargs.get('n', None)
        L = fixed(buffer.length())
        n = fixed(n) if n is not None else None
        if isinstance(L, (int, float)) and (n is None or isinstance(n, int)) : return real(buffer, elem_unpacker, **kwargs)
        c = const_size(elem_unpacker, m.copy_and_remove_kwargs(kwargs, ('buffer', 'n', 'index', 'container')))
        byte_size = m.kwargs_fractional_byte_size(kwargs)
        def same(r): return r if isinstance(r[1], int) and r[1] == c or fixed(r[1]) == c else None
        def unpack_at(o, i=0):
            kw = m.copy_and_remove_kwargs(kwargs, ('buffer', 'n', 'index', 'container'))
            return elem_unpacker(buffer[o:byte_size], index=i, n=n, container=[], **kw)
        if c is not None and c == int(c) and c > 0:
            c = int(c)
            count = (L + (c - 1)) // c
            if n is not None:
                if n < count: count = n
                if count < 0: count = 0
            count = fixed(count)
            if isinstance(count, int) and count <= 8:
                r, o = [], 0
                for i in range(count):
                    item, k = unpack_at(o, i)
                    r.append(item)
                    o += k
                return r, o
            if count * c > L:
                if same(unpack_at((count - 1) * c, count - 1)) is None: raise Unsupported('partial last element of another size')
            if not isinstance(elem_unpacker, functools.partial):
                return SymSeq(count, lambda i: unpack_at(i * c, i)[0]), count * c
            w = var(Ctx.cur.fresh('some_element_raises'), 0, 1)
            if w == 1:
                j = var(Ctx.cur.fresh('some_index'), 0, None)
                Ctx.cur.assume(j < count)
                if same(unpack_at(j * c, j)) is None: raise Unsupported('elements of different sizes')
                raise PathEnd('this element is accepted')
            def get(i):
                try: return unpack_at(i * c, i)[0]
                except EngineStop: raise
                except Exception: raise PathEnd('every element is accepted on this path')
            return SymSeq(count, get), count * c
        if not getattr(Ctx.cur, 'returned_only', False) or isinstance(n, int) and n <= 3:
            r, o = [], 0
            while (n is None or len(r) < n) and o < L:
                if len(r) >= 6: raise Unsupported('list of variable-size elements of symbolic total length')
                item, k = unpack_at(o, len(r))
                r.append(item)
                o = o + k
            return r, o
        if L <= 0 or (n is not None and n <= 0): return [], 0
        count = var(Ctx.cur.fresh('element_count'), 1, None)
        Ctx.cur.assume(count <= L)
        end = var(Ctx.cur.fresh('list_end'), 1, None)
        if n is not None: Ctx.cur.assume(count <= n)
        else: Ctx.cur.assume(end >= L)
        def get_at(o, i=0):
            try: return unpack_at(o, i)
            except EngineStop: raise
            except Exception: raise PathEnd('every element is accepted on this path')
        return ChainSeq(count, get_at, L, n), end
    m.unpack_list = unpack_list

def patch_array(m):
    """SumSizeArrayMarshal.create_from_stream: ceil(total/c) elements of constant size c read one after the other"""
    real = m.SumSizeArrayMarshal.create_from_stream
    def chain(self, stream, context, args, kwargs):
        """elements of varying size: one after the other from the current position until exactly `total` bytes are used,
        or an exception (from an element at some offset, or because the last one crosses the end)"""
        start = stream.tell()
        total = fixed(self.size_marshal.create_from_stream(stream, context))
        if isinstance(total, int):
            stream.seek(start)
            return real(self, stream, context, *args, **kwargs)
        pos, buf = stream.tell(), stream.buf
        if total <= 0: return []
        def unpack_at(o, i=0):
            st = SBytesIO(buf)
            st.seek(pos + o)
            item = self.element_marshal.create_from_stream(st, context, *args, **kwargs)
            return item, st.tell() - pos - o
        if getattr(Ctx.cur, 'may_raise', False):
            if var(Ctx.cur.fresh('some_element_raises'), 0, 1) == 1:
                o = var(Ctx.cur.fresh('some_offset'), 0, None)
                Ctx.cur.assume(o < total)
                size = unpack_at(o)[1]
                if o + size > total: raise AssertionError()
                raise PathEnd('this element is accepted')
        count = var(Ctx.cur.fresh('element_count'), 1, None)
        Ctx.cur.assume(count <= total)
        def get_at(o, i=0):
            try: return unpack_at(o, i)
            except EngineStop: raise
            except Exception: raise PathEnd('every element is accepted on this path')
        stream.seek(pos + total)
        return ChainSeq(count, get_at, total, None)
    def create_from_stream(self, stream, context=m.EMPTY_CONTEXT, *args, **kwargs):
        mm = self.element_marshal.min_max_sizeof()
        if mm.min != mm.max and isinstance(stream, SBytesIO) and getattr(Ctx.cur, 'returned_only', False):
            return chain(self, stream, context, args, kwargs)
        if mm.min != mm.max or not isinstance(stream, SBytesIO): return real(self, stream, context, *args, **kwargs)
        start = stream.tell()
        total = fixed(self.size_marshal.create_from_stream(stream, context))
        if isinstance(total, int) and total <= 64:
            stream.seek(start)
            return real(self, stream, context, *args, **kwargs)
        c, pos, size = mm.min, stream.tell(), stream.buf.slen()
        count = fixed((total + (c - 1)) // c)
        if count * c > size - pos:
            have = (size - pos) // c
            stream.seek(pos + have * c)
            self.element_marshal.create_from_stream(stream, context, *args, **kwargs)
            raise Unsupported('short element accepted')
        stream.seek(pos + count * c)
        if total != count * c: raise AssertionError()
        buf = stream.buf
        return SymSeq(count, lambda i: self.element_marshal.create_from_stream(SBytesIO(buf[pos + i * c:pos + i * c + c]), context, *args, **kwargs))
    m.SumSizeArrayMarshal.create_from_stream = create_from_stream
    real_repr = m.ArrayBase.to_repr
    def to_repr(self, obj, context=m.EMPTY_CONTEXT):
        return '<list>' if isinstance(obj, SymSeq) else real_repr(self, obj, context)
    m.ArrayBase.to_repr = to_repr
