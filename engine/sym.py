"""Symbolic integers and booleans for the deductive engine.

A symbolic integer is a mathematical (unbounded) integer held in a linear normal form
    const + sum(coef * atom)
where atoms are input variables, bytes of symbolic buffers, bit slices, products, ...
Conditions that are not decided by the normal form and interval reasoning are sent to z3.
"""
import math
from fractions import Fraction
import z3

class EngineStop(BaseException):
    def __init__(self, *args):
        BaseException.__init__(self, *args)
        if Ctx.cur is not None and Ctx.cur.dead is None: Ctx.cur.dead = self

class Unsupported(EngineStop):
    """The code used a construct the symbolic engine has no sound rule for."""

class PathEnd(EngineStop):
    """Current path is infeasible / cut."""

# ------------------------------------------------------------------ atoms
_atoms = {}
_by_id = []

class Atom(object):
    __slots__ = ('kind', 'args', 'lo', 'hi', 'id', '_z3', 'defs', 'deps')
    def __repr__(self):
        return show_atom(self)

def mk_atom(kind, args, lo, hi):
    key = (kind, args)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.lo, a.hi, a.id, a._z3, a.defs = kind, args, lo, hi, len(_by_id), None, ()
        d = set()
        for x in args:
            if isinstance(x, Lin):
                for t in x.terms: d.add(t)
        a.deps = tuple(sorted(d, key=lambda t: t.id))
        _atoms[key] = a
        _by_id.append(a)
    return a

def show_atom(a):
    if a.kind == 'var': return a.args[0]
    if a.kind == 'elem': return '%s[%s]' % (a.args[0], a.args[1])
    if a.kind == 'slice':
        x, lo, w = a.args
        return '(%s)bits[%d%s]' % (x, lo, ':' if w is None else ':+%d' % w)
    return '%s%r' % (a.kind, a.args)

class Lin(object):
    """immutable linear expression"""
    __slots__ = ('const', 'terms', '_key', '_hash')
    def __init__(self, const, terms):
        self.const = const
        self.terms = terms            # dict atom -> nonzero int coef, sorted by atom id
        self._key = None
    def key(self):
        if self._key is None:
            self._key = (self.const, tuple((a.id, c) for a, c in self.terms.items()))
        return self._key
    def __eq__(self, o):
        return isinstance(o, Lin) and self.key() == o.key()
    def __hash__(self):
        return hash(self.key())
    def __repr__(self):
        parts = ['%s%r' % ('' if c == 1 else '%d*' % c, a) for a, c in self.terms.items()]
        if self.const or not parts: parts.append(str(self.const))
        return ' + '.join(parts)

def lin(const=0, terms=None):
    if not terms: return Lin(const, {})
    items = sorted(((a, c) for a, c in terms.items() if c != 0), key=lambda t: t[0].id)
    return Lin(const, dict(items))

def lin_atom(a, c=1): return Lin(0, {a: c}) if c else Lin(0, {})

def lin_add(a, b, k=1):
    if not b.terms: return Lin(_n(a.const + k * b.const), a.terms)
    t = dict(a.terms)
    for x, c in b.terms.items():
        t[x] = t.get(x, 0) + k * c
    return lin(_n(a.const + k * b.const), t)

def _n(c):
    if isinstance(c, Fraction) and c.denominator == 1: return int(c)
    return c

def lin_scale(a, k):
    if k == 0: return Lin(0, {})
    if isinstance(k, Fraction):
        if k.denominator == 1: k = int(k)
        elif any((c * k).denominator != 1 for c in a.terms.values()):
            raise Unsupported('fractional scaling of a symbolic integer')
    return lin(_n(a.const * k), {x: int(c * k) for x, c in a.terms.items()})

# ------------------------------------------------------------------ context / path
class Ctx(object):
    cur = None
    dead = None

    def __init__(self, timeout_ms=10000):
        self.solver = None
        self.timeout_ms = timeout_ms
        self.stats = dict(z3_queries=0, z3_time=0.0, z3_unknown=0, interval_decided=0)
        self.max_decisions = 4000

    def begin_path(self, prefix):
        self.prefix = prefix            # list of bool decisions to replay
        self.decisions = []             # (value, other_feasible)
        self.bounds = {}                # atom -> (lo, hi)
        self.pc = []                    # SymBool list
        self.known = {}                 # bool key -> truth value
        self.solver = z3.SolverFor('QF_UFNIA') if False else z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.declared = set()
        self.counter = {}
        self.inputs = {}                # name -> descriptor for replay
        self.notes = []
        self.dead = None
        Ctx.cur = self

    def fresh(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else '%s!%d' % (base, n)

    # -- bounds
    def atom_bounds(self, a):
        b = self.bounds.get(a)
        if b is not None: return b
        return (a.lo, a.hi)

    def lin_bounds(self, l):
        lo = hi = l.const
        for a, c in l.terms.items():
            alo, ahi = self.atom_bounds(a)
            if c < 0: alo, ahi = ahi, alo
            lo = None if (lo is None or alo is None) else lo + c * alo
            hi = None if (hi is None or ahi is None) else hi + c * ahi
            if lo is None and hi is None: break
        return lo, hi

    def narrow(self, a, lo, hi):
        olo, ohi = self.atom_bounds(a)
        nlo = lo if olo is None else (olo if lo is None else max(lo, olo))
        nhi = hi if ohi is None else (ohi if hi is None else min(hi, ohi))
        if (nlo, nhi) != (olo, ohi):
            self.bounds[a] = (nlo, nhi)
            return True
        return False

    # -- z3
    def declare(self, a):
        """assert the type facts of atom a (and its dependencies) on this path's solver"""
        if a.id in self.declared: return
        self.declared.add(a.id)
        for d in a.deps: self.declare(d)
        e = atom_z3(a)
        if a.lo is not None: self.solver.add(e >= a.lo)
        if a.hi is not None: self.solver.add(e <= a.hi)
        for extra in a.defs: self.solver.add(extra)

    def z3lin(self, l):
        for a in l.terms: self.declare(a)
        return lin_z3(l)

    def z3bool(self, b):
        for a in b.atoms(): self.declare(a)
        return b.z3()

    def check(self, *assumps):
        import time
        t = time.time()
        r = self.solver.check(*assumps)
        self.stats['z3_queries'] += 1
        self.stats['z3_time'] += time.time() - t
        if r == z3.unknown: self.stats['z3_unknown'] += 1
        return r

    # -- assume
    def assume(self, b):
        """add a fact to the path; b: bool or SymBool. Ends the path when it is contradictory."""
        if b is True: return
        if b is False: raise PathEnd('assume false')
        if not isinstance(b, SymBool):
            if not b: raise PathEnd('assume false')
            return
        v = quick(b)
        if v is True: return
        if v is False: raise PathEnd('assume false')
        self._learn(b, True)

    def _learn(self, b, value):
        f = b if value else b.negate()
        self.pc.append(f)
        self.known[b.key()] = value
        self.known[b.negate().key()] = not value
        self.solver.add(self.z3bool(f))
        for c in f.conjuncts():
            self._learn_bounds(c)

    def _learn_bounds(self, f):
        if f.op == 'le':      # lin <= 0
            for a, c in f.lin.terms.items():
                rest = Lin(f.lin.const, {x: k for x, k in f.lin.terms.items() if x is not a})
                rlo, _ = self.lin_bounds(rest)
                if rlo is None: continue
                # c*a <= -rest <= -rlo
                if c > 0: self.narrow(a, None, math.floor(Fraction(-rlo) / c))
                else: self.narrow(a, math.ceil(Fraction(rlo) / -c), None)
        elif f.op == 'eq':
            for a, c in f.lin.terms.items():
                rest = Lin(f.lin.const, {x: k for x, k in f.lin.terms.items() if x is not a})
                rlo, rhi = self.lin_bounds(rest)
                lo, hi = (None if rhi is None else Fraction(-rhi, 1) / c), (None if rlo is None else Fraction(-rlo, 1) / c)
                if c < 0: lo, hi = hi, lo
                self.narrow(a, None if lo is None else math.ceil(lo), None if hi is None else math.floor(hi))
        elif f.op == 'ne' and len(f.lin.terms) == 1:
            (a, c), = f.lin.terms.items()
            if f.lin.const % c == 0:
                v = -f.lin.const // c
                lo, hi = self.atom_bounds(a)
                if lo == v: self.narrow(a, v + 1, None)
                elif hi == v: self.narrow(a, None, v - 1)

    # -- branch
    def branch(self, b):
        v = quick(b)
        if v is not None:
            self.stats['interval_decided'] += 1
            return v
        k = self.known.get(b.key())
        if k is not None: return k
        i = len(self.decisions)
        if i < len(self.prefix):
            val, other = self.prefix[i]
            self.decisions.append((val, other))
            self._learn(b, val)
            return val
        if i > self.max_decisions: raise Unsupported('too many branches on one path')
        e = self.z3bool(b)
        rt = self.check(e)
        if rt == z3.unsat:
            self.known[b.key()] = False
            self._learn_nofork(b, False)
            self.decisions.append((False, False))
            return False
        rf = self.check(z3.Not(e))
        if rf == z3.unsat:
            self._learn_nofork(b, True)
            self.decisions.append((True, False))
            return True
        self.decisions.append((True, True))
        self._learn(b, True)
        return True

    def _learn_nofork(self, b, value):
        self._learn(b, value)

    def entails(self, b):
        """('yes'|'no'|'unknown', model)"""
        v = quick(b)
        if v is True or b is True: return 'yes', None, 'normal form'
        if not isinstance(b, SymBool) or v is False:
            r = self.check()
            if r == z3.unsat: return 'yes', None, 'z3'
            return ('no', self.solver.model(), 'z3') if r == z3.sat else ('unknown', None, 'z3')
        k = self.known.get(b.key()) if isinstance(b, SymBool) else None
        if k is True: return 'yes', None, 'path condition'
        neg = z3.Not(self.z3bool(b))
        r = self.check(neg)
        if r == z3.unsat: return 'yes', None, 'z3'
        if r == z3.sat: return 'no', self.solver.model(), 'z3'
        return 'unknown', None, 'z3'

_z3fun = {}
def z3fun(name, n=1):
    f = _z3fun.get((name, n))
    if f is None:
        f = z3.Function(name, *([z3.IntSort()] * (n + 1)))
        _z3fun[(name, n)] = f
    return f

def atom_z3(a):
    if a._z3 is None:
        k = a.kind
        if k == 'var': e = z3.Int(a.args[0])
        elif k == 'elem': e = z3fun('bytes:' + a.args[0])(lin_z3(a.args[1]))
        elif k == 'uf': e = z3fun('uf:' + a.args[0], len(a.args) - 1)(*[lin_z3(x) for x in a.args[1:]])
        elif k == 'slice':
            x, lo, w = a.args
            e = lin_z3(x)
            if lo: e = e / (1 << lo)
            if w is not None: e = e % (1 << w)
        elif k == 'div': e = lin_z3(a.args[0]) / a.args[1]
        elif k == 'mod': e = lin_z3(a.args[0]) % a.args[1]
        elif k == 'mul': e = lin_z3(a.args[0]) * lin_z3(a.args[1])
        elif k == 'quot': e = lin_z3(a.args[0]) / lin_z3(a.args[1])
        elif k == 'rem': e = lin_z3(a.args[0]) % lin_z3(a.args[1])
        elif k == 'bitand': e = z3.If(z3.And(lin_z3(a.args[0]) == 1, lin_z3(a.args[1]) == 1), z3.IntVal(1), z3.IntVal(0))
        elif k == 'ite': e = z3.If(a.args[0].z3(), lin_z3(a.args[1]), lin_z3(a.args[2]))
        else: raise Unsupported('z3 for ' + k)
        a._z3 = e
    return a._z3

def lin_z3(l):
    c = l.const
    if isinstance(c, Fraction):
        e = z3.RealVal(c)
        for a, k in l.terms.items(): e = e + k * z3.ToReal(atom_z3(a))
        return e
    if not l.terms: return z3.IntVal(c)
    parts = [atom_z3(a) if k == 1 else k * atom_z3(a) for a, k in l.terms.items()]
    if c or not parts: parts.append(z3.IntVal(c))
    return parts[0] if len(parts) == 1 else z3.Sum(parts)

def ctx(): return Ctx.cur

# ------------------------------------------------------------------ bit level operations on Lin
def is_pow2(n): return n > 0 and n & (n - 1) == 0

def lin_floordiv(l, c):
    """floor(l / c), c positive int"""
    if c == 1: return lin_floor(l)
    cx = Ctx.cur
    A, B = {}, {}
    for a, k in l.terms.items():
        q, r = divmod(k, c)
        if r == 0: A[a] = q
        else: B[a] = k
    qc, rc = divmod(l.const, c)
    qc = int(qc)
    if not B:
        return lin(qc, A)
    rest = lin(_n(rc), B)
    lo, hi = cx.lin_bounds(rest)
    if lo is not None and hi is not None:
        if math.floor(Fraction(lo) / c) == math.floor(Fraction(hi) / c):
            return lin(qc + math.floor(Fraction(lo) / c), A)
    if isinstance(rest.const, Fraction):
        rest = Lin(math.floor(rest.const), rest.terms)
    r = _split_low(rest, c)
    if r is not None:
        g, hipart, lopart = r
        return lin_add(lin(qc, A), lin_floordiv(hipart, c // g))
    return lin_add(lin(qc, A), _div_atom(rest, c))

def _split_low(rest, c):
    """rest = g*H + L with 0<=L<g, g | c, g>1, H has fewer bits"""
    cx = Ctx.cur
    items = sorted(rest.terms.items(), key=lambda t: -abs(t[1]))
    cand = set()
    g = c
    for a, k in items:
        g = math.gcd(g, k)
        if g > 1: cand.add(g)
    for g in sorted(cand, reverse=True):
        H = {a: k // g for a, k in items if k % g == 0}
        L = {a: k for a, k in items if k % g != 0}
        qc, rc = divmod(rest.const, g)
        L = lin(rc, L)
        lo, hi = cx.lin_bounds(L)
        if lo is not None and hi is not None and lo >= 0 and hi < g and H:
            return g, lin(qc, H), L
    return None

def _div_atom(x, c):
    if is_pow2(c): return lin_slice(x, c.bit_length() - 1, None)
    lo, hi = intrinsic_bounds(x)
    return lin_atom(mk_atom('div', (x, c), None if lo is None else math.floor(lo / c), None if hi is None else math.floor(hi / c)))

def intrinsic_bounds(x):
    """bounds of x that hold on every path"""
    cx = Ctx.cur
    saved = cx.bounds
    cx.bounds = {}
    try: return cx.lin_bounds(x)
    finally: cx.bounds = saved

def lin_mod(l, c):
    cx = Ctx.cur
    if c == 1 and not isinstance(l.const, Fraction): return lin(0)
    B = {}
    for a, k in l.terms.items():
        if k % c: B[a] = k % c if is_pow2(c) and False else k
    rc = l.const % c
    rest = lin(_n(rc), B)
    if not B: return rest
    lo, hi = cx.lin_bounds(rest)
    if lo is not None and hi is not None:
        q = math.floor(Fraction(lo) / c)
        if q == math.floor(Fraction(hi) / c): return lin_add(rest, lin(q * c), -1)
    r = _split_low(rest, c)
    if r is not None:
        g, H, L = r
        return lin_add(lin_scale(lin_mod(H, c // g), g), L)
    if is_pow2(c): return lin_slice(rest, 0, c.bit_length() - 1)
    return lin_atom(mk_atom('mod', (rest, c), 0, c - 1))

def lin_slice(x, lo, w):
    """(x >> lo) mod 2^w as an atom (x is not further simplifiable by the callers)"""
    cx = Ctx.cur
    if w == 0: return lin(0)
    if len(x.terms) == 1 and x.const == 0:
        (a, k), = x.terms.items()
        if k == 1 and a.kind == 'slice':
            x2, lo2, w2 = a.args
            if w2 is not None:
                if lo >= w2: return lin(0)
                w = w2 - lo if w is None else min(w, w2 - lo)
            return lin_slice(x2, lo2 + lo, w)
    blo, bhi = cx.lin_bounds(x)
    if blo is not None and blo >= 0 and bhi is not None:
        nb = int(bhi).bit_length()
        if lo >= nb: return lin(0)
        if w is not None and lo + w > nb: w = nb - lo
        elif w is None: w = nb - lo
        if lo == 0 and w == nb: return x
    if w is not None: alo, ahi = 0, (1 << w) - 1
    else:
        ilo, ihi = intrinsic_bounds(x)
        alo = None if ilo is None else int(ilo) >> lo
        ahi = None if ihi is None else int(ihi) >> lo
    return lin_atom(mk_atom('slice', (x, lo, w), alo, ahi))

def lin_floor(l):
    if isinstance(l.const, Fraction): return Lin(math.floor(l.const), l.terms)
    return l

def lin_and_const(l, m):
    """l & m for int m"""
    if m < 0:
        return lin_add(l, lin_and_const(l, ~m), -1)
    res = lin(0)
    bit = 0
    while m >> bit:
        if not (m >> bit) & 1:
            bit += 1
            continue
        w = 0
        while (m >> (bit + w)) & 1: w += 1
        part = lin_mod(lin_floordiv(l, 1 << bit), 1 << w)
        res = lin_add(res, lin_scale(part, 1 << bit))
        bit += w
    return res

def bitmask(l):
    """superset of bits that may be set in nonneg l, or None"""
    cx = Ctx.cur
    lo, hi = cx.lin_bounds(l)
    if lo is None or lo < 0: return None
    m = l.const if isinstance(l.const, int) and l.const >= 0 else None
    if m is not None:
        ok = True
        for a, k in l.terms.items():
            alo, ahi = cx.atom_bounds(a)
            if k <= 0 or not is_pow2(k) or alo is None or alo < 0 or ahi is None: ok = False; break
            am = ((1 << ahi.bit_length()) - 1) * k
            if am & m: ok = False; break
            m |= am
        if ok: return m
    if hi is None: return None
    return (1 << int(hi).bit_length()) - 1

def lin_bits(l):
    m = bitmask(l)
    if m is None or m.bit_length() > 64: raise Unsupported('bitwise operation on unbounded symbolic integers')
    return [lin_mod(lin_floordiv(l, 1 << i), 2) for i in range(m.bit_length())]

def lin_and(a, b):
    if not a.terms: return lin_and_const(b, a.const)
    if not b.terms: return lin_and_const(a, b.const)
    if a == b: return a
    ma, mb = bitmask(a), bitmask(b)
    if ma is not None and mb is not None and ma & mb == 0: return lin(0)
    ba, bb = lin_bits(a), lin_bits(b)
    res = lin(0)
    for i, (x, y) in enumerate(zip(ba, bb)):
        if not x.terms: z = lin_scale(y, x.const)
        elif not y.terms: z = lin_scale(x, y.const)
        elif x == y: z = x
        else:
            p, q = (x, y) if x.key() <= y.key() else (y, x)
            z = lin_atom(mk_atom('bitand', (p, q), 0, 1))
        res = lin_add(res, lin_scale(z, 1 << i))
    return res

def lin_or(a, b):
    return lin_add(lin_add(a, b), lin_and(a, b), -1)

def lin_mul(a, b):
    if not a.terms: return lin_scale(b, a.const)
    if not b.terms: return lin_scale(a, b.const)
    cx = Ctx.cur
    res = lin(0)
    for x, cxx in list(a.terms.items()) + [(None, a.const)]:
        for y, cyy in list(b.terms.items()) + [(None, b.const)]:
            if x is None and y is None: t = lin(cxx * cyy)
            elif x is None: t = lin_atom(y, cxx * cyy)
            elif y is None: t = lin_atom(x, cxx * cyy)
            else:
                p, q = (x, y) if x.id <= y.id else (y, x)
                lo = hi = None
                if None not in (p.lo, p.hi, q.lo, q.hi):
                    vs = [p.lo * q.lo, p.lo * q.hi, p.hi * q.lo, p.hi * q.hi]
                    lo, hi = min(vs), max(vs)
                elif p.lo is not None and p.lo >= 0 and q.lo is not None and q.lo >= 0: lo = p.lo * q.lo
                t = lin_atom(mk_atom('mul', (lin_atom(p), lin_atom(q)), lo, hi), cxx * cyy)
            res = lin_add(res, t)
    return res

def refine(l):
    """rewrite slices of a common base over a common partition of its bits"""
    bases = {}
    for a in l.terms:
        if a.kind == 'slice' and a.args[2] is not None:
            x, lo, w = a.args
            bases.setdefault(x.key(), [x, set()])[1].update((lo, lo + w))
    if not bases: return l
    changed = False
    t = lin(l.const)
    for a, k in l.terms.items():
        xl = lin_atom(a)
        if a.kind == 'slice' and a.args[2] is not None:
            x, lo, w = a.args
            cuts = sorted(c for c in bases[x.key()][1] if lo <= c <= lo + w)
        elif xl.key() in bases and a.lo is not None and a.lo >= 0 and a.hi is not None:
            x, lo, w = xl, 0, a.hi.bit_length()
            cuts = sorted(set([0, w] + [c for c in bases[x.key()][1] if c <= w]))
        else:
            t = lin_add(t, lin_atom(a, k)); continue
        if len(cuts) > 2: changed = True
        for c0, c1 in zip(cuts, cuts[1:]):
            t = lin_add(t, lin_scale(lin_slice(x, c0, c1 - c0), k * (1 << (c0 - lo))))
    return t if changed else l

def fold(l):
    """put the slices of a common base together again where they cover all its bits"""
    bases = {}
    for a, k in l.terms.items():
        if a.kind == 'slice' and a.args[2] is not None: bases.setdefault(a.args[0].key(), []).append((a.args[1], a.args[2], k, a))
    if not bases: return l
    for g in bases.values():
        if len(g) < 2: continue
        g.sort(key=lambda s: s[0])
        if g[0][0] != 0 or any(p[0] + p[1] != q[0] or p[2] << q[0] - p[0] != q[2] for p, q in zip(g, g[1:])): continue
        x, k = g[0][3].args[0], g[0][2]
        lo, hi = Ctx.cur.lin_bounds(x)
        if lo is None or lo < 0 or hi is None or hi >= 1 << (g[-1][0] + g[-1][1]): continue
        for s in g: l = lin_add(l, lin_atom(s[3]), -s[2])
        l = lin_add(l, x, k)
    return l

def fixed(v):
    """v, as a constant when the path's interval bounds fix it"""
    if isinstance(v, SymInt):
        lo, hi = Ctx.cur.lin_bounds(v.lin)
        if lo is not None and lo == hi and not isinstance(lo, Fraction): return lo
    return v

# ------------------------------------------------------------------ booleans
class SymBool(object):
    """op: 'le' (lin<=0) 'eq' 'ne' (lin ==/!= 0) 'and' 'or' 'not' 'uf' """
    __slots__ = ('op', 'lin', 'args', '_key')
    def __init__(self, op, lin=None, args=()):
        self.op, self.lin, self.args = op, lin, args
        self._key = None
    def key(self):
        if self._key is None:
            if self.lin is not None: self._key = (self.op, self.lin.key())
            elif self.op == 'uf': self._key = ('uf', self.args)
            else: self._key = (self.op,) + tuple(x.key() for x in self.args)
        return self._key
    def atoms(self):
        if self.lin is not None: return list(self.lin.terms)
        if self.op == 'uf': return []
        r = []
        for x in self.args: r += x.atoms()
        return r
    def z3(self):
        if self.op == 'le': return lin_z3(self.lin) <= 0
        if self.op == 'eq': return lin_z3(self.lin) == 0
        if self.op == 'ne': return lin_z3(self.lin) != 0
        if self.op == 'and': return z3.And([x.z3() for x in self.args])
        if self.op == 'or': return z3.Or([x.z3() for x in self.args])
        if self.op == 'not': return z3.Not(self.args[0].z3())
        if self.op == 'uf': return z3.Bool('ufb:' + repr(self.args))
        raise AssertionError(self.op)
    def negate(self):
        if self.op == 'le': return SymBool('le', lin_add(lin(1), self.lin, -1)) if not isinstance(self.lin.const, Fraction) else SymBool('not', args=(self,))
        if self.op == 'eq': return SymBool('ne', self.lin)
        if self.op == 'ne': return SymBool('eq', self.lin)
        if self.op == 'not': return self.args[0]
        if self.op == 'and': return SymBool('or', args=tuple(x.negate() for x in self.args))
        if self.op == 'or': return SymBool('and', args=tuple(x.negate() for x in self.args))
        return SymBool('not', args=(self,))
    def conjuncts(self):
        if self.op == 'and':
            r = []
            for x in self.args: r += x.conjuncts()
            return r
        return [self]
    def __bool__(self):
        return Ctx.cur.branch(self)
    def __repr__(self):
        if self.lin is not None: return '(%r %s 0)' % (self.lin, {'le': '<=', 'eq': '==', 'ne': '!='}[self.op])
        return '%s%r' % (self.op, self.args)
    __hash__ = None
    # bool behaves as an int
    def _int(self): return SymInt(lin(1)) if self else 0
    def __index__(self): return 1 if self else 0
    def __int__(self): return 1 if self else 0
    def __and__(self, o): return And(self, o) if isinstance(o, (bool, SymBool)) else self.__index__() & o
    def __or__(self, o): return Or(self, o) if isinstance(o, (bool, SymBool)) else self.__index__() | o
    __rand__ = __and__
    __ror__ = __or__
    def __eq__(self, o):
        if isinstance(o, bool): return self if o else self.negate()
        if isinstance(o, SymBool):
            if self.key() == o.key(): return True
            return Or(And(self, o), And(self.negate(), o.negate()))
        return self.__index__() == o
    def __ne__(self, o):
        r = self.__eq__(o)
        return Not(r)
    def __add__(self, o): return self.__index__() + o
    __radd__ = __add__
    def __mul__(self, o): return self.__index__() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self.__index__() - o
    def __lshift__(self, o): return self.__index__() << o
    def __rshift__(self, o): return self.__index__() >> o
    def __lt__(self, o): return self.__index__() < o
    def __le__(self, o): return self.__index__() <= o
    def __gt__(self, o): return self.__index__() > o
    def __ge__(self, o): return self.__index__() >= o
    def bit_length(self): return self.__index__().bit_length()

def quick(b):
    """decide from the normal form and intervals; None if not decided"""
    if b is True or b is False: return b
    if b.lin is not None:
        lo, hi = Ctx.cur.lin_bounds(b.lin)
        if b.op == 'le':
            if hi is not None and hi <= 0: return True
            if lo is not None and lo > 0: return False
            return None
        if lo is not None and hi is not None and lo == hi:
            return (lo == 0) == (b.op == 'eq')
        if (lo is not None and lo > 0) or (hi is not None and hi < 0): return b.op == 'ne'
        if isinstance(b.lin.const, Fraction): return b.op == 'ne'
        if b.lin.terms:
            g = 0
            for c in b.lin.terms.values(): g = math.gcd(g, c)
            if g > 1 and b.lin.const % g: return b.op == 'ne'
        return None
    if b.op == 'and':
        r = True
        for x in b.args:
            v = quick(x)
            if v is None: v = Ctx.cur.known.get(x.key())
            if v is False: return False
            if v is None: r = None
        return r
    if b.op == 'or':
        r = False
        for x in b.args:
            v = quick(x)
            if v is None: v = Ctx.cur.known.get(x.key())
            if v is True: return True
            if v is None: r = None
        return r
    if b.op == 'not':
        v = quick(b.args[0])
        return None if v is None else (not v)
    return None

def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            if x.op == 'and': out += list(x.args)
            else: out.append(x)
        elif not x: return False
    if not out: return True
    return out[0] if len(out) == 1 else SymBool('and', args=tuple(out))

def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            if x.op == 'or': out += list(x.args)
            else: out.append(x)
        elif x: return True
    if not out: return False
    return out[0] if len(out) == 1 else SymBool('or', args=tuple(out))

def Not(x):
    return x.negate() if isinstance(x, SymBool) else (not x)

def Implies(a, b): return Or(Not(a), b)

def uf_bool(*args): return SymBool('uf', args=tuple(args))

def _cmp(op, a, b):
    """a op b for Lin a,b -> bool|SymBool"""
    d = fold(lin_add(a, b, -1))
    if op in ('eq', 'ne'):
        if d.terms: d = refine(d)
        if not d.terms: return (d.const == 0) == (op == 'eq')
        # sign-normalise
        first = next(iter(d.terms.values()))
        if first < 0: d = lin_scale(d, -1)
        return _q(SymBool(op, d))
    if op == 'le': x = d
    elif op == 'lt': x = lin_add(d, lin(1)) if not isinstance(d.const, Fraction) else d
    elif op == 'ge': x = lin_scale(d, -1)
    elif op == 'gt': x = lin_add(lin_scale(d, -1), lin(1)) if not isinstance(d.const, Fraction) else lin_scale(d, -1)
    if isinstance(x.const, Fraction): x = Lin(math.ceil(x.const), x.terms)
    if not x.terms: return x.const <= 0
    return _q(SymBool('le', x))

def _q(b):
    v = quick(b)
    return b if v is None else v

# ------------------------------------------------------------------ integers
def wrap(l):
    """Lin -> python number or SymInt"""
    if not l.terms:
        c = l.const
        if isinstance(c, Fraction): return float(c)
        return c
    return SymInt(l)

def to_lin(x):
    if isinstance(x, SymInt): return x.lin
    if isinstance(x, bool): return lin(int(x))
    if isinstance(x, int): return lin(x)
    if isinstance(x, SymBool): return lin(x.__index__())
    if isinstance(x, float):
        f = Fraction(x)
        return lin(_n(f))
    if isinstance(x, Fraction): return lin(_n(x))
    return None

def _bin(f):
    def m(self, o):
        l = to_lin(o)
        if l is None: return NotImplemented
        return f(self.lin, l)
    return m

def _rbin(f):
    def m(self, o):
        l = to_lin(o)
        if l is None: return NotImplemented
        return f(l, self.lin)
    return m

def _divmod_lin(a, b):
    """floor division and modulo with possibly symbolic divisor"""
    if not b.terms:
        c = b.const
        if c == 0: raise ZeroDivisionError('integer division or modulo by zero')
        if c < 0:
            q, r = _divmod_lin(lin_scale(a, -1), lin(-c))
            return q, lin_scale(r, -1)
        if isinstance(c, Fraction):
            raise Unsupported('division by fraction')
        q = lin_floordiv(a, c)
        return q, lin_mod(a, c)
    A, B = SymInt(a), SymInt(b)
    if B == 0: raise ZeroDivisionError('integer division or modulo by zero')
    if B < 0: raise Unsupported('division by negative symbolic value')
    if A < 0:
        if A + B >= 0: return lin(-1), lin_add(a, b)
        raise Unsupported('division of negative symbolic value')
    q, rest = lin(0), a
    if len(b.terms) == 1 and b.const == 0 and list(b.terms.values()) == [1]:     # whole multiples of the divisor go out first
        atom = next(iter(b.terms))
        for t, k in a.terms.items():
            other = None
            if t is atom: other = lin(1)
            elif t.kind == 'mul':
                x, y = t.args
                if x == b: other = y
                elif y == b: other = x
            if other is not None:
                q = lin_add(q, other, k)
                rest = lin_add(rest, lin_atom(t), -k)
        if not rest.terms and rest.const == 0: return q, rest
        R = SymInt(rest) if rest.terms else rest.const
        if R < 0: q, rest = lin(0), a
    R = SymInt(rest) if rest.terms else rest.const
    if R < B: return q, rest
    if isinstance(rest.const, Fraction) or isinstance(b.const, Fraction): raise Unsupported('division of fractions by a symbolic value')
    lo, hi = intrinsic_bounds(rest)
    blo, bhi = intrinsic_bounds(b)
    # (the divisor is positive and the dividend is not negative on this path; atoms must be bounded on every path)
    whole = lo is not None and lo >= 0 and blo is not None and blo > 0
    d = mk_atom('quot', (rest, b), 0 if whole else None, math.floor(Fraction(hi) / blo) if whole and hi is not None else None)
    m = mk_atom('rem', (rest, b), 0, bhi - 1 if whole and bhi is not None else None)
    D, M = lin_atom(d), lin_atom(m)
    Ctx.cur.assume(SymInt(M) < B)
    return lin_add(q, D), M

def _truediv(a, b):
    if b.terms: raise Unsupported('true division by symbolic value')
    c = Fraction(b.const)
    if c == 0: raise ZeroDivisionError('division by zero')
    return wrap(lin_scale(a, 1 / c))

def _shl(a, b):
    if b.terms: b = lin(SymInt(b).__index__())
    if b.const < 0: raise ValueError('negative shift count')
    return wrap(lin_scale(a, 1 << b.const))

def _shr(a, b):
    if b.terms: b = lin(SymInt(b).__index__())
    if b.const < 0: raise ValueError('negative shift count')
    return wrap(lin_floordiv(a, 1 << b.const))

def _pow(a, b):
    if b.terms: b = lin(SymInt(b).__index__())
    r = lin(1)
    if b.const < 0 or b.const > 8: raise Unsupported('pow')
    for _ in range(b.const): r = lin_mul(r, a)
    return wrap(r)

class SymInt(object):
    __slots__ = ('lin',)
    def __init__(self, l): self.lin = l
    __add__ = _bin(lambda a, b: wrap(lin_add(a, b)))
    __radd__ = _rbin(lambda a, b: wrap(lin_add(a, b)))
    __sub__ = _bin(lambda a, b: wrap(lin_add(a, b, -1)))
    __rsub__ = _rbin(lambda a, b: wrap(lin_add(a, b, -1)))
    __mul__ = _bin(lambda a, b: wrap(lin_mul(a, b)))
    __rmul__ = _rbin(lambda a, b: wrap(lin_mul(a, b)))
    __floordiv__ = _bin(lambda a, b: wrap(_divmod_lin(a, b)[0]))
    __rfloordiv__ = _rbin(lambda a, b: wrap(_divmod_lin(a, b)[0]))
    __mod__ = _bin(lambda a, b: wrap(_divmod_lin(a, b)[1]))
    __rmod__ = _rbin(lambda a, b: wrap(_divmod_lin(a, b)[1]))
    __divmod__ = _bin(lambda a, b: tuple(wrap(x) for x in _divmod_lin(a, b)))
    __rdivmod__ = _rbin(lambda a, b: tuple(wrap(x) for x in _divmod_lin(a, b)))
    __truediv__ = _bin(_truediv)
    __rtruediv__ = _rbin(_truediv)
    __lshift__ = _bin(_shl)
    __rlshift__ = _rbin(_shl)
    __rshift__ = _bin(_shr)
    __rrshift__ = _rbin(_shr)
    __pow__ = _bin(_pow)
    __rpow__ = _rbin(_pow)
    __and__ = _bin(lambda a, b: wrap(lin_and(a, b)))
    __rand__ = _rbin(lambda a, b: wrap(lin_and(a, b)))
    __or__ = _bin(lambda a, b: wrap(lin_or(a, b)))
    __ror__ = _rbin(lambda a, b: wrap(lin_or(a, b)))
    __xor__ = _bin(lambda a, b: wrap(lin_add(lin_add(a, b), lin_and(a, b), -2)))
    __rxor__ = _rbin(lambda a, b: wrap(lin_add(lin_add(a, b), lin_and(a, b), -2)))
    __eq__ = _bin(lambda a, b: _cmp('eq', a, b))
    __ne__ = _bin(lambda a, b: _cmp('ne', a, b))
    __lt__ = _bin(lambda a, b: _cmp('lt', a, b))
    __le__ = _bin(lambda a, b: _cmp('le', a, b))
    __gt__ = _bin(lambda a, b: _cmp('gt', a, b))
    __ge__ = _bin(lambda a, b: _cmp('ge', a, b))
    def __neg__(self): return wrap(lin_scale(self.lin, -1))
    def __pos__(self): return self
    def __invert__(self): return wrap(lin_add(lin(-1), self.lin, -1))
    def __abs__(self): return self if self >= 0 else -self
    def __bool__(self):
        r = (self != 0)
        return bool(r)
    def __hash__(self):
        raise Unsupported('symbolic integer used as a native hash key')
    def __trunc__(self): return self.__sint__()
    def __ceil__(self):
        c = self.lin.const
        return wrap(Lin(math.ceil(c), self.lin.terms))
    def __floor__(self): return wrap(lin_floor(self.lin))
    def __round__(self, n=None):
        if isinstance(self.lin.const, Fraction): raise Unsupported('round')
        return self
    def __sint__(self):
        if isinstance(self.lin.const, Fraction):
            if self >= 0: return wrap(lin_floor(self.lin))
            return self.__ceil__()
        return self
    def __index__(self):
        """concretise by case split over a small range"""
        cx = Ctx.cur
        if isinstance(self.lin.const, Fraction): raise TypeError('float used as an index')
        lo, hi = cx.lin_bounds(self.lin)
        if lo is None or hi is None or hi - lo > 300:
            for n in range(64):
                if cx.check() != z3.sat: break
                v = cx.solver.model().eval(cx.z3lin(self.lin), model_completion=True).as_long()
                if self == v: return v
            raise Unsupported('symbolic integer %r needed as a concrete index' % (self,))
        for v in range(lo, hi):
            if self == v: return v
        cx.assume(self == hi)
        return hi
    def __int__(self): return self.__index__()
    def __float__(self): raise Unsupported('float() of symbolic')
    def bit_length(self):
        if self < 0: return (-self).bit_length()
        lo, hi = Ctx.cur.lin_bounds(self.lin)
        n = 0
        while True:
            if self < (1 << n): return n
            n += 1
            if n > 80: raise Unsupported('bit_length of a wide symbolic integer')
    def to_bytes(self, length=1, byteorder='big', signed=False):
        from .sbytes import int_to_bytes
        return int_to_bytes(self, length, byteorder, signed)
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1
    def conjugate(self): return self
    def is_integer(self): return not isinstance(self.lin.const, Fraction)
    def __repr__(self): return '<%r>' % (self.lin,)
    def __str__(self): return symtext(self)
    def __format__(self, spec): return symtext(self, spec)
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

def symtext(v, spec=''):
    """text of a symbolic number inside a message: equal texts imply equal values"""
    return '\ue000%r|%s\ue001' % (v, spec)

def var(name, lo=None, hi=None):
    return SymInt(lin_atom(mk_atom('var', (name, lo, hi), lo, hi))) if lo is None or lo != hi else lo

def elem(base, idx):
    l = to_lin(idx)
    return SymInt(lin_atom(mk_atom('elem', (base, l), 0, 255)))

def uf(name, args, lo=None, hi=None):
    return SymInt(lin_atom(mk_atom('uf', (name,) + tuple(to_lin(x) for x in args), lo, hi)))

def ite(c, a, b):
    if isinstance(c, SymBool):
        if c: return a
        return b
    return a if c else b
