"""A dictionary with integer keys, of arbitrary size and content, seen through look-ups, insertions and removals."""
from .sym import *
from .sym import Ctx
from .sbytes import fixed

_MISSING = object()

class SymMap(object):
    """initially: `size` keys, all within 0..bound-1, value(k) under key k; membership is an uninterpreted predicate.
    Facts used about the initial content: a member's key is in range; a map with a member is not empty; a map with fewer than
    `bound` members misses one of the keys 0..bound-1 (`free`)."""
    def __init__(self, name, size, bound, value):
        cx = Ctx.cur
        self.name, self.base_size, self.bound, self.value = cx.fresh(name), size, bound, value
        self.ups = []            # (key, value or _MISSING), newest last
        self.delta = 0
        self.memo = []
        self.order = []          # keys inserted since and still there, in order (the initial ones come before them, in some order)
        self.free = var(cx.fresh(name + '.free'), 0, None)
        cx.assume(self.free < bound)
        cx.assume(Implies(size < bound, Not(self.base_member(self.free))))
    def __sym_isinstance__(self, cls): return issubclass(dict, cls) if isinstance(cls, type) else any(issubclass(dict, c) for c in cls)
    def base_member(self, k): return elem('member:' + self.name, k) >= 128
    def _base(self, k):
        cx = Ctx.cur
        if bool(self.base_member(k)):
            cx.assume(And(k >= 0, k < self.bound, self.base_size > 0))
            return True
        return False
    def _value(self, k):
        for j, v in self.memo:
            if bool(j == k): return v
        v = self.value(k)
        self.memo.append((k, v))
        return v
    def lookup(self, k):
        for j, v in reversed(self.ups):
            if bool(j == k): return v
        return self._value(k) if self._base(k) else _MISSING
    def initial(self, k): return self._value(k) if self._base(k) else None
    # ---- dict
    def __slen__(self): return self.base_size + self.delta
    def __len__(self):
        c = fixed(self.__slen__())
        if isinstance(c, int): return c
        raise Unsupported('native len() of a map of symbolic size')
    def __bool__(self): return bool(self.__slen__() != 0)
    def __contains__(self, k): return self.lookup(k) is not _MISSING
    def get(self, k, default=None):
        v = self.lookup(k)
        return default if v is _MISSING else v
    def __getitem__(self, k):
        v = self.lookup(k)
        if v is _MISSING: raise KeyError(k)
        return v
    def __setitem__(self, k, v):
        if self.lookup(k) is _MISSING:
            self.delta = self.delta + 1
            self.order.append(k)
        self.ups.append((k, v))
    def __delitem__(self, k): self.pop(k)
    def pop(self, k, *d):
        v = self.lookup(k)
        if v is _MISSING:
            if d: return d[0]
            raise KeyError(k)
        self.ups.append((k, _MISSING))
        self.delta = self.delta - 1
        for i, j in enumerate(self.order):
            if bool(j == k):
                del self.order[i]
                break
        return v
    def popitem(self):
        if not self.order: raise Unsupported('popitem() on a map of symbolic size')
        k = self.order[-1]
        return k, self.pop(k)
    def setdefault(self, k, d=None):
        v = self.lookup(k)
        if v is _MISSING:
            self[k] = d
            return d
        return v
    def _no(self, *a, **k): raise Unsupported('iteration over a map of symbolic size')
    __iter__ = keys = values = items = clear = update = copy = __eq__ = __or__ = _no
    __hash__ = None
