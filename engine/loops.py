"""Loop contracts: a while loop of the code under test cut at its head.

A contract of the suite may give a loop an invariant and a variant (V.loop). The loop then becomes: the invariant holds on entry; from any
state in which it holds and the condition is true, the body re-establishes it and lowers the variant; after the loop it holds and the
condition is false. Loops without a contract run as they are."""
from .sym import *
from .sym import Ctx

class Poison(object):
    """value of a local that the loop assigns and whose contract does not describe it"""
    def __getattr__(self, n): raise Unsupported('a local of the loop, not described by its contract, is used')
    def _bad(self, *a): raise Unsupported('a local of the loop, not described by its contract, is used')
    __bool__ = __len__ = __iter__ = __call__ = __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __getitem__ = __index__ = _bad
    __hash__ = object.__hash__

class Env(object):
    def __init__(self, d, names=()):
        self.__dict__.update(d)
        if len(names) == 1 and names[0] in d: self.__dict__['only'] = d[names[0]]      # the one local the loop assigns
    def __getattr__(self, n): raise Unsupported('the loop has no local %s' % n)

class Loop(object):
    def __init__(self, V, site, inv, variant=None, havoc=None, modifies=None):
        self.V, self.site, self.inv, self.variant, self.havoc, self.modifies = V, site, inv, variant, havoc or {}, modifies
        self.entered, self.names = False, ()
    def _run(self, f, env):
        if isinstance(env, dict): env = Env(env, self.names)
        try: return f(env)
        except EngineStop: raise
        except Exception as e: raise Unsupported('loop contract of %s: %s' % (self.site, e))
    def _inv(self, env): return self._run(self.inv, env)
    def enter(self, env, names=()):
        self.names = names
        env = Env(env, names)
        if self.entered: raise Unsupported('loop entered twice')
        self.entered = True
        for label, c in self._inv(env): self.V.check('loop of %s: on entry %s' % (self.site, label), c)
        if self.modifies is not None: self._run(self.modifies, env)
        self.env = env
        return self
    def local(self, name):
        f = self.havoc.get(name) or (self.havoc.get('only') if len(self.names) == 1 else None)
        return Poison() if f is None else self._run(f, self.env)
    def head(self, env):
        for label, c in self._inv(env): self.V.assume(c)
        self.V.cover('loop of %s: some iteration' % self.site)
        self.before = None if self.variant is None else self._run(self.variant, env)
    def back(self, env):
        for label, c in self._inv(env): self.V.check('loop of %s: preserved: %s' % (self.site, label), c)
        if self.variant is not None:
            v = self._run(self.variant, env)
            self.V.check('loop of %s: the variant goes down' % self.site, And(v < self.before, self.before > 0))
        raise PathEnd('end of the iteration')

def wenter(site, env, names):
    V = getattr(Ctx.cur, 'V', None)
    loops = getattr(V, 'loops', None)
    if not loops: return None
    l = loops.get(site)
    if l is None: return None
    return l.enter(env, names)
