"""Lists of symbolic length (results of the dependency's list loops, comprehensions over them) and loops over them."""
import gc, sys, types
from .sym import *
from .sym import Ctx
from .sbytes import SBytes, SStr, J, fixed


class SymSeq(object):
    """list of `count` elements; get(i) gives element i for an index known to be in range.
    apart: get makes up fresh values, so whether two indices are the same has to be settled first"""
    apart = False
    def __init__(self, count, get): self.count, self.get, self.memo = fixed(count), get, []
    def __sym_isinstance__(self, cls): return issubclass(list, cls) if isinstance(cls, type) else any(issubclass(list, c) for c in cls)
    def __slen__(self): return self.count
    def __len__(self):
        c = fixed(self.count)
        if isinstance(c, int): return c
        raise Unsupported('native len() of a list of symbolic length')
    def __bool__(self): return bool(self.count != 0)
    def at(self, i):
        for j, v in self.memo:
            if j is i or (type(j) is type(i) and isinstance(i, int) and i == j): return v
            if isinstance(j, SymInt) or isinstance(i, SymInt):
                d = fixed(i - j)
                if isinstance(d, int) and d == 0: return v
                if self.apart and d == 0: return v
        v = self.get(i)
        self.memo.append((i, v))
        return v
    def __getitem__(self, i):
        if isinstance(i, slice): return self.slice(i)
        if i < 0: i = i + self.count
        if i < 0 or i >= self.count: raise IndexError('list index out of range')
        return self.at(i)
    def slice(self, s):
        if s.step is not None and s.step != 1: raise Unsupported('slice with a step of a list of symbolic length')
        def bound(x):
            if x < 0:
                x = x + self.count
                if x < 0: return 0
            return self.count if x > self.count else x
        a = 0 if s.start is None else bound(s.start)
        b = self.count if s.stop is None else bound(s.stop)
        if b < a: b = a
        return SymSeq(b - a, lambda i: self.at(a + i))
    def __iter__(self):
        i = 0
        while i < self.count:
            if i >= 4: raise Unsupported('loop over a list of symbolic length')
            yield self.at(i)
            i += 1
    def joined(self, sep):
        """sep.join(self)"""
        if len(sep): raise Unsupported('join of a list of symbolic length with a separator')
        if isinstance(fixed(self.count), int) and self.count <= 8: return sep.join([self.at(i) for i in range(self.count)])
        if self.count == 0: return b''
        cx = Ctx.cur
        j = var(cx.fresh('some_index'), 0, None)
        cx.assume(j < self.count)
        before = len(cx.decisions), len(cx.pc)
        n = fixed(SBytes.of(self.at(j)).slen())
        if (len(cx.decisions), len(cx.pc)) != before or not isinstance(n, int) or n < 1: raise Unsupported('join of elements whose length depends on their value')
        return SBytes([J(self.at, self.count, n)]).out()
    def __eq__(self, o): raise Unsupported('equality of lists of symbolic length')
    __hash__ = None
    def append(self, x): raise Unsupported('append to a list of symbolic length')
    extend = insert = pop = remove = sort = index = append
    def __add__(self, o):
        if isinstance(o, (list, SymSeq)): return concat(self, o)
        return NotImplemented
    def __radd__(self, o):
        if isinstance(o, list): return concat(o, self)
        return NotImplemented
    def __contains__(self, x): raise Unsupported('membership in a list of symbolic length')
    def __getattr__(self, n):
        if n in dir(list): raise Unsupported('%s of a list of symbolic length' % n)
        raise AttributeError(n)
    def __repr__(self): return '<list of %r>' % (self.count,)

class ChainSeq(SymSeq):
    """list of variable-size elements laid end to end: element number i, at byte offset o, is unpack_at(o, i) -> (item, size)"""
    def __init__(self, count, unpack_at, length, limit=None):
        SymSeq.__init__(self, count, None)
        self.unpack_at, self.length, self.limit = unpack_at, length, limit
    def slice(self, s): raise Unsupported('slice of a chain of variable-size elements')
    def at(self, i): raise Unsupported('index into a chain of variable-size elements')
    def __iter__(self): raise Unsupported('loop over a chain of variable-size elements')

def concat(a, b):
    """a + b"""
    if isinstance(a, ChainSeq) or isinstance(b, ChainSeq): raise Unsupported('concatenation of a chain of variable-size elements')
    if isinstance(a, list):
        if not a: return b
        a = SymSeq(len(a), (lambda items: lambda i: items[i] if isinstance(i, int) else items[i.__index__()])(list(a)))
    if isinstance(b, list):
        if not b: return a
        b = SymSeq(len(b), (lambda items: lambda i: items[i] if isinstance(i, int) else items[i.__index__()])(list(b)))
    def get(i):
        if i < a.count: return a.at(i)
        return b.at(i - a.count)
    return SymSeq(a.count + b.count, get)

# While PURE[0] is positive, the code run stands for an arbitrary iteration: it may not change what existed before it.
# gc.freeze() puts everything allocated so far aside, so what the collector still lists is what the iteration itself made.
class SymIter(object):
    """an iterator over a list of symbolic length (map, zip, enumerate...): gives its elements once"""
    def __init__(self, seq): self.seq = seq
    def take(self):
        l, self.seq = self.seq, []
        return l
    def joined(self, sep):
        l = self.take()
        return l.joined(sep) if isinstance(l, SymSeq) else sep.join(l)
    def __iter__(self): return iter(self.take())
    def __getattr__(self, n): raise Unsupported('%s of an iterator over a list of symbolic length' % n)

def whole(it):
    """the elements of an iterable the engine keeps symbolic, else the iterable itself"""
    if isinstance(it, SymIter): return it.take()
    f = getattr(type(it), '__symseq__', None)
    return f(it) if f is not None else it

def slist(*a):
    if len(a) == 1:
        l = whole(a[0])
        if isinstance(l, SymSeq): return l.slice(slice(None))
        return list(l)
    return list(*a)
def senumerate(it, start=0):
    it = whole(it)
    if isinstance(it, SymSeq): return SymIter(SymSeq(it.count, lambda i: (start + i, it.at(i))))
    return enumerate(it, start)
def szip(*its, **kw):
    its = [whole(x) for x in its]
    if not any(isinstance(x, SymSeq) for x in its) or kw: return zip(*its, **kw)
    its = [x if isinstance(x, SymSeq) else x if isinstance(x, (list, tuple)) else list(x) for x in its]
    n = None
    for x in its:
        k = x.count if isinstance(x, SymSeq) else len(x)
        if n is None or k < n: n = k
    return SymIter(SymSeq(n, lambda i: tuple(x.at(i) if isinstance(x, SymSeq) else x[i if isinstance(i, int) else i.__index__()] for x in its)))
def sreversed(l):
    if isinstance(l, SymSeq): return SymIter(SymSeq(l.count, lambda i: l.at(l.count - 1 - i)))
    return reversed(l)
def lmap(f, *its):
    its = [whole(x) for x in its]
    if len(its) == 1 and isinstance(its[0], SymSeq): return SymIter(smap(f, its[0]))
    return map(f, *its)

PURE = [0]
class pure(object):
    def __enter__(self):
        gc.freeze()
        PURE[0] += 1
    def __exit__(self, *a):
        PURE[0] -= 1
        if PURE[0] == 0: gc.unfreeze()
def reset_pure():
    if PURE[0]: gc.unfreeze()
    PURE[0] = 0

def mutation(*objs):
    """the code under test is about to change objs (no argument: something the loader could not name)"""
    if PURE[0]:
        if objs and not any(type(o) is dict for o in objs):
            young = gc.get_objects()
            if all(any(o is y for y in young) for o in objs): return
        raise Unsupported('state change in the body of a loop over a list of symbolic length')

def augmented(x):
    """x += ...: a state change when x is a mutable object"""
    if PURE[0] and (type(x) in (list, dict, set, bytearray) or not isinstance(x, (int, float, str, bytes, tuple, type(None), SymInt, SymBool, SStr)) and not (isinstance(x, SBytes) and not x.mutable)):
        mutation(x)

def ssetattr(o, name, v):
    if PURE[0]: mutation(o)
    setattr(o, name, v)

def capture(f):
    """f with the variables it closes over as they are now"""
    if not f.__closure__: return f
    def cell(c):
        try: return types.CellType(c.cell_contents)
        except ValueError: return c
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cell(c) for c in f.__closure__))
    g.__kwdefaults__ = f.__kwdefaults__
    return g

def smap(f, it):
    """[f(x) for x in it]"""
    it = whole(it)
    if not isinstance(it, SymSeq): return [f(x) for x in it]
    if isinstance(it, ChainSeq): raise Unsupported('comprehension over a chain')
    if isinstance(fixed(it.count), int) and it.count <= 8: return [f(it.at(i)) for i in range(it.count)]
    f = capture(f)
    def one(i):
        with pure(): return f(it.at(i))
    # either some element makes f raise (explored at an arbitrary index) or none does
    j = var(Ctx.cur.fresh('some_index'), 0, None)
    w = var(Ctx.cur.fresh('some_element_raises'), 0, 1)
    if w == 1:
        Ctx.cur.assume(j < it.count)
        one(j)
        raise PathEnd('this element does not raise')
    def get(i):
        try: return one(i)
        except EngineStop: raise
        except Exception: raise PathEnd('no element raises on this path')
    out = SymSeq(it.count, get)
    remembered(out)
    return out

def remembered(l):
    """look at the elements the contract asked to remember: what holds on the path where no element raises holds for them"""
    for k in list(getattr(Ctx.cur, 'tracked', [])):
        if k < l.count: l.at(k)

def unpack(x, n):
    """the parts of a tuple of a loop's target list"""
    x = tuple(x)
    if len(x) != n: raise ValueError('not %d values to unpack' % n)
    return x

def sany(f, it, want):
    """any(f(x) for x in it) with want = True, all(...) with want = False"""
    it = whole(it)
    if not isinstance(it, SymSeq) or isinstance(fixed(it.count), int) and it.count <= 8:
        for x in ([it.at(i) for i in range(it.count)] if isinstance(it, SymSeq) else it):
            if bool(f(x)) is want: return want
        return not want
    if isinstance(it, ChainSeq): raise Unsupported('comprehension over a chain')
    f = capture(f)
    def one(i):
        with pure(): return bool(f(it.at(i))) is want
    cx = Ctx.cur
    j = var(cx.fresh('some_index'), 0, None)
    w = var(cx.fresh('some_element_decides'), 0, 1)
    if w == 1:              # an element that decides, or raises
        cx.assume(j < it.count)
        if one(j): return want
        raise PathEnd('this element neither decides nor raises')
    for k in list(getattr(cx, 'tracked', [])):
        if k < it.count:
            try: r = one(k)
            except EngineStop: raise
            except Exception: r = True
            if r: raise PathEnd('no element decides on this path')
    return not want

def sfor(it, pure):
    if isinstance(it, SymIter) or pure and issym(it): it = whole(it)
    if not isinstance(it, SymSeq): return it
    if isinstance(fixed(it.count), int) and it.count <= 8: return [it.at(i) for i in range(it.count)]
    if not pure or isinstance(it, ChainSeq): return iter(it)
    return _sfor(it)

def _sfor(it):
    """a loop whose body changes no state: an arbitrary iteration (for what may leave the loop), then, on the path
    where every iteration completes, the iterations the contract asked to remember"""
    j = var(Ctx.cur.fresh('some_index'), 0, None)
    w = var(Ctx.cur.fresh('some_iteration_leaves'), 0, 1)
    if w == 1:
        Ctx.cur.assume(j < it.count)
        with pure(): yield it.at(j)
        raise PathEnd('this iteration completes')
    for k in list(getattr(Ctx.cur, 'tracked', [])):
        if k < it.count:
            with pure(): yield it.at(k)

def issym(it):
    """is this loop over a list too long to unroll?"""
    if isinstance(it, SymIter): it = it.seq
    elif getattr(type(it), '__symseq__', None) is not None: it = whole(it)
    return isinstance(it, SymSeq) and not isinstance(it, ChainSeq) and not (isinstance(fixed(it.count), int) and it.count <= 8)

class Poison(object):
    def __getattr__(self, n): raise Unsupported('a list while a loop over a list of symbolic length appends to it')
    def __bool__(self): raise Unsupported('a list while a loop over a list of symbolic length appends to it')
    __len__ = __iter__ = __eq__ = __getitem__ = __add__ = __bool__
    __hash__ = None
POISON = Poison()

def sbuild(it, body, lists):
    """for x in it: body(x), where the only lasting effect of the body is one append to each of `lists`; body(x) gives
    [(number of the list, value appended)...] (`s += e` on bytes counts as an append). The loop is taken as a whole: list n gains the values of all iterations, in order."""
    body, it = capture(body), whole(it)
    for n in range(len(lists)):
        if isinstance(lists[n], (bytes, SBytes)) and not getattr(lists[n], 'mutable', False): continue
        if type(lists[n]) not in (list, SymSeq) or sys.getrefcount(lists[n]) != 2: raise Unsupported('append in a loop to a list that something else may refer to')
    memo = SymSeq(it.count, None)
    def one(i):
        with pure():
            x = it.at(i)
            try: r = body(x)
            except UnboundLocalError as e: raise Unsupported('loop-carried variable in a loop that appends')
        if sorted(n for n, v in r) != list(range(len(lists))): raise Unsupported('loop over a list of symbolic length that does not append once to each list')
        return dict(r)
    j = var(Ctx.cur.fresh('some_index'), 0, None)
    w = var(Ctx.cur.fresh('some_iteration_raises'), 0, 1)
    if w == 1:
        Ctx.cur.assume(j < it.count)
        one(j)
        raise PathEnd('this iteration does not raise')
    def get(i):
        try: return one(i)
        except EngineStop: raise
        except Exception: raise PathEnd('no iteration raises on this path')
    memo.get = get
    remembered(memo)
    out = []
    for n, l in enumerate(lists):
        new = SymSeq(it.count, (lambda n: lambda i: memo.at(i)[n])(n))
        out.append(concat(l, new) if isinstance(l, (list, SymSeq)) else l + new.joined(SBytes()))
    return tuple(out)
