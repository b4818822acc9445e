"""C18: the coroutine driver (sync_wait, sync_call, AsyncCoroutine).

Reference: a yielded coroutine is run to its end and replaced by its result, a yielded token by the outcome of its I/O, any other value
stands for itself; the result of a coroutine is what its last yield evaluated to (None without one); an exception leaves a coroutine into the one that
yielded it, at that yield. (A coroutine that yields an exception object as a value is not covered: the driver throws it back in.)

The step of the driver is verified for an arbitrary stack; that a run is the composition of its steps is an induction over the run, on
paper. Run concretely, the same contracts execute random trees of coroutines against the reference."""
from contracts._lib import ended, Leaves
from contracts._transport import asi
from engine.registry import contract, family

T = ('Coroutine._next_step', 'SyncCoroutine._handle_async_io_token', 'AsyncCoroutine._handle_async_io_token', 'AsyncCoroutine.async_io_complete', 'Coroutine.loop', 'sync_wait')

def sa():
    import infi.asi.coroutines.sync_adapter as m
    return m

class Boom(Exception): pass
KINDS = [Boom] + [type('Boom' + t.__name__, (Boom, t), {}) for t in (ValueError, TypeError, KeyError, IndexError, AttributeError, RuntimeError, OSError, AssertionError)]
def boom_kinds(): return KINDS + [type('BoomAsi', (Boom, asi().AsiException), {}), type('BoomInternal', (Boom, asi().AsiInternalError), {})]
def boom(V, *a): return V.choice('kind', boom_kinds())(*a)
LEAVING = [Leaves] + [type('Leaves' + t.__name__, (Leaves, t), {}) for t in (KeyboardInterrupt, GeneratorExit, SystemExit)]

def token_class():
    class Token(asi().OSAsyncIOToken):
        def __init__(self, outcome): self.outcome, self.asked = outcome, []
        def get_result(self, block=False):
            self.asked.append(block)
            if isinstance(self.outcome, Boom): raise self.outcome
            return self.outcome
    return Token

# ---------------------------------------------------------------- trees of coroutines (concrete side)
class Tree(object):
    """a random coroutine: a list of actions; each records what it sees. Two runs of the same Tree behave alike"""
    def __init__(self, V, depth, name, Token):
        self.name, self.acts = name, []
        for i in range(V.int('actions', 0, 4)):
            k = V.choice('act', ['value', 'child', 'child', 'token', 'raise', 'return'] if depth else ['value', 'value', 'token', 'raise', 'return', 'none'])
            guard = V.int('guarded', 0, 2) == 0
            if k == 'child': x = Tree(V, depth - 1, '%s.%d' % (name, i), Token)
            elif k == 'token': x = ('tok', name, i, V.choice('kind', boom_kinds()) if V.int('fails', 0, 2) == 0 else None)
            elif k == 'raise': x = (V.choice('kind', boom_kinds() + LEAVING), name, i)
            else: x = (name, i)
            self.acts.append((k, guard, x))
        self.Token = Token
    def run(self, log):
        for k, guard, x in self.acts:
            try:
                if k == 'value': r = yield x
                elif k == 'none': r = yield None
                elif k == 'child': r = yield x.run(log)
                elif k == 'token': r = yield self.Token(x[3](x) if x[3] else x)
                elif k == 'raise': raise x[0](x)
                else:
                    log.append((self.name, 'returns'))
                    return
                log.append((self.name, 'got', r))
            except (Boom, Leaves) as e:
                log.append((self.name, 'raised', e.args, guard))
                if not guard: raise
        log.append((self.name, 'ends'))

def reference(g, Token):
    """(result) or raises"""
    import types
    last, send, exc = None, None, None
    while True:
        try: x = g.throw(exc) if exc is not None else g.send(send)
        except StopIteration: return last
        last, send, exc = None, None, None
        try:
            if isinstance(x, types.GeneratorType): send = last = reference(x, Token)
            elif isinstance(x, Token): send = last = x.get_result()
            else: send = last = x
        except (Boom, Leaves) as e: exc = e


def trees(V, mode):
    Token = token_class()
    t = Tree(V, V.int('depth', 0, 3), 'r', Token)
    want = []
    st1, r1 = ended(V, lambda: reference(t.run(want), Token))
    got = []
    m = sa()
    if mode == 'sync': st2, r2 = ended(V, lambda: m.sync_wait(t.run(got)))
    else:
        def go():
            c = m.AsyncCoroutine(t.run(got))
            n = 0
            c.loop()
            while not c.is_done():
                V.check('a coroutine that is not done waits for a token', isinstance(c.get_result(), Token))
                V.check('the token is left to the reactor', c.get_result().asked == [])
                c.async_io_complete()
                c.loop()
            return c.get_result()
        st2, r2 = ended(V, go)
    V.check('every coroutine sees what it should, in order', got == want)
    V.check('the outcome is the one of the outermost coroutine', st1 == st2 and (r1.args == r2.args if st1 == 'exc' else r1 == r2 and type(r1) == type(r2)))

# ---------------------------------------------------------------- the step, from an arbitrary stack (symbolic side)
class Stack(object):
    """any number of coroutines below, and the known ones on top"""
    def __init__(self, rest, top): self.rest, self.top = rest, top
    def __slen__(self): return self.rest + len(self.top)
    def __bool__(self): return bool(self.__slen__() > 0)
    def __getitem__(self, i):
        if i == -1 and self.top: return self.top[-1]
        from engine.sym import Unsupported
        raise Unsupported('looks below the top of the stack')
    def append(self, x): self.top.append(x)
    def pop(self, *a):
        if a and a != (-1,) or not self.top:
            from engine.sym import Unsupported
            raise Unsupported('looks below the top of the stack')
        return self.top.pop()

class Gen(object):
    """a coroutine that does one thing when it is resumed"""
    def __init__(self, act): self.act, self.resumed = act, []
    def send(self, v):
        self.resumed.append(('send', v))
        return self.act()
    def __next__(self): return self.send(None)
    def throw(self, *a):
        e = [x for x in a if isinstance(x, BaseException)]
        self.resumed.append(('throw', e[0] if e else a[0]))
        return self.act()

def arbitrary(V, cls, resumed_with, act):
    m = sa()
    V.internal(getattr(m, cls), '_next_step')
    g = Gen(act)
    c = getattr(m, cls)(g)
    V.internal(c, 'stack', 'args', 'result', 'done', 'tb')
    rest = V.int('coroutines_below', 0, 1 << 20)
    c.stack = Stack(rest, [g])
    c.args = resumed_with
    c.result = c.tb = 'left over'
    return c, g, rest

def resumption(V):
    """what the coroutine on top is resumed with"""
    k = V.choice('resumed', ['value', 'nothing', 'exception', 'exception that is no Exception'])
    return {'value': ('a value',), 'nothing': None, 'exception': KINDS[1](), 'exception that is no Exception': Leaves()}[k]

def resumed_right(V, g, arg):
    V.check('the coroutine on top is resumed once, with what it waits for', len(g.resumed) == 1 and
            g.resumed[0][1] is arg and g.resumed[0][0] == ('throw' if isinstance(arg, BaseException) else 'send'))

SYNC, ASYNC = ('SyncCoroutine', 'sync'), ('AsyncCoroutine', 'async')
BOTH = [(SYNC[0], ) + SYNC, (ASYNC[0],) + ASYNC]

@family('C18', BOTH, targets=T, inductive=True)
def yields_value(V, cls, mode):
    """a value that is neither a coroutine nor a token is what that yield evaluates to"""
    if not V.symbolic: return trees(V, mode)
    arg, v = resumption(V), V.choice('value', [('v',), None, 0, b'data'])
    c, g, rest = arbitrary(V, cls, arg, lambda: v)
    st, r = V.call(c._next_step)
    V.check('goes on', st == 'ok' and bool(r))
    resumed_right(V, g, arg)
    V.check('the stack is as before', c.stack.top == [g] and c.stack.rest is rest)
    V.check('the coroutine will be resumed with the value', c.args is v)

@family('C18', BOTH, targets=T, inductive=True)
def yields_coroutine(V, cls, mode):
    """a coroutine that is yielded runs next, from its beginning"""
    if not V.symbolic: return trees(V, mode)
    arg, child = resumption(V), (x for x in ())
    c, g, rest = arbitrary(V, cls, arg, lambda: child)
    st, r = V.call(c._next_step)
    V.check('goes on', st == 'ok' and bool(r))
    resumed_right(V, g, arg)
    V.check('the new coroutine is on top', len(c.stack.top) == 2 and c.stack.top[0] is g and c.stack.top[1] is child and c.stack.rest is rest)
    V.check('it is started', c.args is None)

@family('C18', BOTH, targets=T, inductive=True)
def yields_token(V, cls, mode):
    """the outcome of a token's I/O, a result or an error, goes to the coroutine that yielded it; a synchronous driver waits for it, an
    asynchronous one leaves the waiting to the reactor"""
    if not V.symbolic: return trees(V, mode)
    arg, out = resumption(V), V.choice('outcome', [('result',), None, boom(V, 'failed')])
    tok = token_class()(out)
    c, g, rest = arbitrary(V, cls, arg, lambda: tok)
    st, r = V.call(c._next_step)
    V.check('no error', st == 'ok')
    resumed_right(V, g, arg)
    if mode == 'async':
        V.check('control goes back to the reactor', not r)
        V.check('with the token', c.get_result() is tok and tok.asked == [])
        V.check('not done', not c.is_done())
        st, r = V.call(c.async_io_complete)
        V.check('completion raises nothing', st == 'ok')
        V.check('the result is asked for once, without blocking', tok.asked == [False])
    else:
        V.check('goes on', bool(r))
        V.check('the result is waited for once', tok.asked == [True])
    V.check('the stack is as before', c.stack.top == [g] and c.stack.rest is rest)
    V.check('the coroutine will be resumed with the outcome', c.args is out)

@family('C18', BOTH, targets=T, inductive=True)
def ends(V, cls, mode):
    """a coroutine that ends gives its result - what its last yield evaluated to - to the coroutine below, or to the caller"""
    if not V.symbolic: return trees(V, mode)
    def act(): raise StopIteration()
    arg = resumption(V)
    c, g, rest = arbitrary(V, cls, arg, act)
    st, r = V.call(c._next_step)
    V.check('goes on', st == 'ok' and bool(r))
    resumed_right(V, g, arg)
    V.check('it is gone', c.stack.top == [] and c.stack.rest is rest)
    want = None if isinstance(arg, BaseException) else arg
    V.check('its result is the coroutine\'s below', c.args is want)
    V.check('its result is the caller\'s', c.get_result() is want)

@family('C18', BOTH, targets=T, inductive=True)
def raises(V, cls, mode):
    """an exception that leaves a coroutine is raised in the coroutine below at its yield, or in the caller"""
    if not V.symbolic: return trees(V, mode)
    e = V.choice('exception', [Leaves(), KeyboardInterrupt(), GeneratorExit()] + [x('new') for x in boom_kinds()])
    def act(): raise e
    arg = resumption(V)
    c, g, rest = arbitrary(V, cls, arg, act)
    try: st, r = 'ok', c._next_step()
    except (Boom, Leaves, KeyboardInterrupt, GeneratorExit) as x: st, r = 'exc', x
    resumed_right(V, g, arg)
    V.check('it is gone', c.stack.top == [] and c.stack.rest is rest)
    if rest > 0: V.check('the exception goes to the coroutine below', st == 'ok' and bool(r) and c.args is e)
    else: V.check('the exception goes to the caller', st == 'exc' and r is e)

@family('C18', BOTH, targets=('Coroutine.loop', 'Coroutine.is_done', 'Coroutine.get_result'), inductive=True)
def loops(V, cls, mode):
    """the driver takes steps until no coroutine is left - then it is done - or a step hands control back"""
    if not V.symbolic: return trees(V, mode)
    c, g, rest = arbitrary(V, cls, None, None)
    state = {}
    def step():
        left = V.int('left', 0, 1 << 20)
        c.stack = Stack(left, [])
        c.result = V.choice('result', [None, 'r'])
        state['on'] = V.bool('goes_on')
        return state['on']
    V.patch_object(c, '_next_step', step)
    V.loop('Coroutine.loop', lambda e: [('not done yet', c.done is False)], modifies=lambda e: (setattr(c, 'stack', Stack(V.int('stack', 0, 1 << 20), [])), state.clear(), setattr(c, 'result', V.choice('result', [None, 'r']))))
    r = c.loop()
    if c.is_done():
        V.cover('done')
        V.check('done only when no coroutine is left', V.len(c.stack) == 0)
    else: V.check('handed back', state.get('on') is False)
    V.check('the result', r is c.get_result())

@contract('C18', targets=('sync_call', 'async_wait'))
def calls_once(V):
    """sync_call calls the function once, with its arguments; async_wait hands all its commands to the reactor and gives its results"""
    m = sa()
    calls = []
    n = V.int('value')
    def f(*a, **k):
        calls.append((a, k))
        def g(): yield n
        return g()
    r = m.sync_call(f, 1, b=2)
    V.check('called once', calls == [((1,), {'b': 2})])
    V.check('its result', V.eq(r, n))
    class Reactor(object):
        def wait_for(self, *commands): return ('waited',) + commands
    V.patch('infi.asi.coroutines.sync_adapter', 'create_os_async_reactor', Reactor, True)
    V.check('all commands', m.async_wait('a', 'b') == ('waited', 'a', 'b'))

@family('C18', BOTH, symbolic=False, bounded='random trees of coroutines: depth <= 3, <= 4 actions each', targets=T)
def tree(V, cls, mode):
    """whole runs against the reference"""
    trees(V, mode)

@family('C18', BOTH, symbolic=False, bounded='one coroutine per level, <= 120 levels, <= 300 steps at the bottom', targets=T)
def deep(V, cls, mode):
    """a chain of coroutines: each level is handed the value, or the failure, of the level below, however deep, and however many values and
    tokens the lowest one yields"""
    Token = token_class()
    levels = V.choice('levels', [0, 1, 2, 5, 9, 17, 40, 120])
    steps = V.choice('steps', [0, 1, 2, 7, 33, 300])
    fails = V.bool('fails')
    guard = V.choice('level that handles failures', list(range(levels + 1)) + [None])
    e = Boom('at the bottom')
    def go(i, log):
        try:
            if i == 0:
                for k in range(steps):
                    v = ('step', k)
                    got = yield (Token(v) if k % 3 == 1 else v)
                    if got != v: log.append(('lost', k))
                if fails: raise e
                yield 'bottom'
            else:
                below = yield go(i - 1, log)
                log.append((i, below))
                yield (i, below)[:1]
        except Boom as x:
            log.append((i, 'failure', x is e))
            if i != guard: raise
            yield 'handled'
    want, got = [], []
    st1, r1 = ended(V, lambda: reference(go(levels, want), Token))
    m = sa()
    def through():
        if mode == 'sync': return m.sync_wait(go(levels, got))
        c = m.AsyncCoroutine(go(levels, got))
        c.loop()
        while not c.is_done():
            c.async_io_complete()
            c.loop()
        return c.get_result()
    st2, r2 = ended(V, through)
    V.check('every level sees what it should, in order', got == want)
    V.check('the outcome', st1 == st2 and (r1 is r2 if st1 == 'exc' else r1 == r2))
