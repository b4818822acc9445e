"""C17: the queue of an executer. The operating system hooks (_os_prepare_to_send, _os_send, _os_receive) are played by the contract.

Verified for an arbitrary state of the executer: any queue size, any set of pending commands, any next index. Run concretely, the same
contracts execute histories of the public operations against a reference queue."""
from contracts._lib import drive, Leaves
from contracts._lib import ended, Leaves
from contracts._transport import asi, errors
from engine.registry import contract, family

T = ('CommandExecuterBase.send', 'CommandExecuterBase._next_packet_index', 'CommandExecuterBase._process_pending_response', 'CommandExecuterBase.wait', 'CommandExecuterBase.call',
     'CommandExecuterBase.is_queue_full', 'CommandExecuterBase.is_queue_empty')
IDENT = lambda x: x
class SendFailed(Exception): pass
class Interrupted(Leaves, KeyboardInterrupt): pass
class Closed(Leaves, GeneratorExit): pass
FAILURES = [SendFailed, Interrupted, Closed]
class Answer(Exception): pass

class Request(object):
    """os_data of a pending command"""
    def __init__(self, packet): self.packet = packet

def hooked(V, osys, size):
    base = asi().CommandExecuterBase
    class Hooked(base):
        def _os_prepare_to_send(self, command, packet_index): return osys.prepare(command, packet_index)
        def _os_send(self, os_data):
            yield 'sending'
            osys.send(os_data)
            yield 'sent'
        def _os_receive(self):
            yield 'receiving'
            yield osys.receive()
    return Hooked(size)

class Os(object):
    """records what reaches the operating system"""
    def __init__(self, V): self.V, self.log, self.fail, self.answers = V, [], None, None
    def prepare(self, command, packet):
        self.log.append(('prepare', command, packet))
        if self.fail == 'prepare': raise self.failure
        return Request(packet)
    def send(self, request):
        self.log.append(('send', request))
        if self.meanwhile is not None: self.meanwhile(request)
        if self.fail == 'send': raise self.failure
        if self.on_send is not None: self.on_send(request)
    on_send = meanwhile = None
    failure = SendFailed()
    def receive(self):
        self.log.append(('receive',))
        return self.answers()

class Calls(object):
    """a callback that counts; it may send another command (or do anything else), and may fail"""
    then = None
    def __init__(self): self.got = []
    def __call__(self, data, exc):
        self.got.append((data, exc))
        if self.then is not None: self.then()

def arbitrary(V, osys):
    """an executer in an arbitrary state satisfying the invariant of CommandExecuterBase"""
    from engine.symmap import SymMap
    size = V.int('max_queue_size', 1, 1 << 20)
    ex = hooked(V, osys, size)
    V.internal(ex, 'pending_packets', 'packet_index', 'max_queue_size')
    n = V.int('pending', 0, 1 << 20)
    V.assume(n <= size)
    nxt = V.int('next_index', 0, None)
    V.assume(nxt < size)
    values = lambda k: (Request(k), Calls())
    ex.pending_packets, ex.packet_index = SymMap('pending', n, size, values), nxt
    V.loop('CommandExecuterBase._next_packet_index', lambda e: [('the candidate is an index', V.And(e.only >= 0, e.only < size))],
           variant=lambda e: V.ite(e.only <= ex.pending_packets.free, ex.pending_packets.free - e.only, ex.pending_packets.free - e.only + size),
           havoc={'only': lambda e: V.int('candidate', 0, 1 << 20)})
    V.limit(400)
    return ex, size, n

def others_move(V, osys, ex, size):
    """while this command is being sent, another one may become pending, or another one may get its response"""
    seen = {}
    def meanwhile(request):
        p, what = ex.pending_packets, V.choice('meanwhile', ['nothing', 'one more', 'one less'])
        if what == 'nothing': return
        j = V.int('other_index', 0, 1 << 20)
        V.assume(V.And(j < size, V.Not(V.eq(j, request.packet))))
        if what == 'one more':
            V.assume(V.len(p) < size)
            V.assume(V.Not(j in p))
            p[j] = seen['value'] = (Request(j), Calls())
        else:
            V.assume(j in p)
            p.pop(j)
            seen['value'] = None
        seen['index'], seen['delta'] = j, 1 if what == 'one more' else -1
    osys.meanwhile = meanwhile
    return seen

def invariant(V, ex, size):
    V.check('the next index is one', V.And(ex.packet_index >= 0, ex.packet_index < size))

def unchanged(V, ex, size, n, but=None, seen={}):
    V.check('as many pending commands', V.len(ex.pending_packets) == n + seen.get('delta', 0))
    k = V.int('some_index', 0, 1 << 20)
    if seen:
        V.check('what happened meanwhile is kept', ex.pending_packets.get(seen['index']) is seen['value'])
        V.assume(V.Not(V.eq(k, seen['index'])))
    if but is None or V.Not(V.eq(k, but)): V.check('every other pending command is untouched', ex.pending_packets.get(k) is ex.pending_packets.initial(k))

DATA = ['data', None, b'']      # what a good command gives: writing gives nothing, reading may give no bytes
# ---------------------------------------------------------------- histories (concrete side)
def history(V):
    """public operations in any order, the device answering in any order"""
    size = V.int('max_queue_size', 1, 5)
    osys = Os(V)
    ex = hooked(V, osys, size)
    pending = {}                # index -> (command number, callback or None)
    done, count = {}, [0]
    sent, trouble = [], []
    current = [None]
    def on_send(request): pending[request.packet] = current[0]
    osys.on_send = on_send
    def answers():
        ids = sorted(pending)
        V.check('receives only while something is pending', len(ids) > 0)
        V.check('nothing is received after trouble', not trouble)
        if V.int('trouble', 0, 9) == 0:
            if V.bool('stray'):
                trouble.append(AsiInternal)
                return V.choice('answer', ['data', Answer()]), V.choice('stray_index', [-1, size, size + 7])
            trouble.append(V.choice('failure', FAILURES)())
            raise trouble[-1]
        i = ids[V.int('answered', 0, 7) % len(ids)]
        c, cb = pending.pop(i)
        out = Answer(c) if V.int('fails', 0, 3) == 0 else V.choice('answer', [('data', c), ('data', c), None, b''])
        done[c] = out
        return out, i
    osys.answers = answers
    recorded = []
    def right(c, st, r):
        out = done[c]
        if isinstance(out, Exception): V.check('the caller is told the failure of its command', st == 'exc' and r is out)
        else: V.check('the caller gets the data of its command', st == 'ok' and r == out)
    for step in range(V.int('steps', 0, 14)):
        op = V.choice('op', ['send', 'send', 'send', 'send without callback', 'send fails', 'call', 'call', 'wait'])
        before = dict(pending)
        sent_before = len(osys.log)
        c = count[0]
        count[0] += 1
        full = len(pending) >= size
        V.check('is_queue_full tells', bool(ex.is_queue_full()) == full)
        if op in ('send', 'send without callback', 'send fails', 'call'):
            cb = Calls()
            current[0] = (c, cb)
            osys.fail = V.choice('where', ['send', 'prepare']) if op == 'send fails' else None
            if op == 'call': st, r = ended(V, lambda: drive(ex.call(c), IDENT))
            else: st, r = V.call(lambda: drive(ex.send(c, None if op == 'send without callback' else cb), IDENT))
            new = osys.log[sent_before:]
            if full:
                V.check('a full queue refuses', st == 'exc' and isinstance(r, errors().AsiRequestQueueFullError))
                V.check('nothing is sent', [x for x in new if x[0] == 'send'] == [] and pending == before)
            elif op == 'send fails': V.check('the failure to send is raised', st == 'exc' and isinstance(r, SendFailed) and pending == before)
            else:
                V.check('sent once', len([x for x in new if x[0] == 'send']) == 1)
                packet = [x for x in new if x[0] == 'prepare'][0][2]
                V.check('under a free index', packet not in before and 0 <= packet < size)
                if op == 'call':
                    if not told(V, ex, trouble, st, r): right(c, st, r)
                else:
                    V.check('send succeeds', st == 'ok')
                    if op == 'send': recorded.append((c, cb))
        else:
            st, r = ended(V, lambda: drive(ex.wait(), IDENT))
            if not told(V, ex, trouble, st, r): V.check('wait answers everything', st == 'ok' and not pending)
        del trouble[:]
        for c, cb in recorded:
            V.check('a callback is called once, with the outcome of its command', len(cb.got) == (1 if c in done else 0))
            if c in done: right(c, 'exc' if cb.got[0][1] is not None else 'ok', cb.got[0][1] if cb.got[0][1] is not None else cb.got[0][0])

# ---------------------------------------------------------------- contracts
@contract('C17', targets=T[:2], inductive=True)
def send_full(V):
    """with a full queue, a command is refused with AsiRequestQueueFullError, nothing reaches the device and no pending command is affected"""
    if not V.symbolic: return history(V)
    osys = Os(V)
    ex, size, n = arbitrary(V, osys)
    V.assume(n >= size)
    V.check('is_queue_full tells', V.eq(ex.is_queue_full(), True))
    st, r = V.call(lambda: drive(ex.send('command', Calls()), IDENT))
    V.check('refused', st == 'exc' and isinstance(r, errors().AsiRequestQueueFullError))
    V.check('nothing reaches the device', osys.log == [])
    unchanged(V, ex, size, n)
    invariant(V, ex, size)

@contract('C17', targets=T[:2], inductive=True)
def send_accepts(V):
    """with room in the queue, a command is handed to the operating system once, under an index no pending command has, and is pending
    from before it is sent; no other pending command is affected"""
    if not V.symbolic: return history(V)
    osys = Os(V)
    ex, size, n = arbitrary(V, osys)
    V.assume(n < size)
    V.check('is_queue_full tells', V.eq(ex.is_queue_full(), False))
    cb = Calls()
    osys.on_send = lambda q: V.check('pending before it is sent', q.packet in ex.pending_packets)
    seen = others_move(V, osys, ex, size)
    st, r = V.call(lambda: drive(ex.send('command', cb), IDENT))
    if st != 'ok': raise r
    V.check('accepted', st == 'ok')
    V.cover('accepted')
    V.check('prepared and sent once', len(osys.log) == 2 and osys.log[0][:2] == ('prepare', 'command') and osys.log[1][0] == 'send')
    q = osys.log[1][1]
    V.check('what is sent is what was prepared', q.packet is osys.log[0][2])
    V.check('the index is in range', V.And(q.packet >= 0, q.packet < size))
    V.check('the index was free', ex.pending_packets.initial(q.packet) is None)
    v = ex.pending_packets.get(q.packet)
    V.check('the request and its callback are remembered', v is not None and v[0] is q and v[1] is cb)
    unchanged(V, ex, size, n + 1, q.packet, seen)
    invariant(V, ex, size)
    V.check('nobody was called back', cb.got == [])

@contract('C17', targets=T[:2], inductive=True)
def send_fails(V):
    """when preparing or sending fails, the failure is raised and the queue is as before"""
    if not V.symbolic: return history(V)
    osys = Os(V)
    ex, size, n = arbitrary(V, osys)
    V.assume(n < size)
    osys.fail = V.choice('where', ['prepare', 'send'])
    osys.failure = V.choice('failure', FAILURES)()
    seen = others_move(V, osys, ex, size)
    cb = Calls()
    st, r = ended(V, lambda: drive(ex.send('command', cb), IDENT))
    V.check('the failure is raised', st == 'exc' and r is osys.failure)
    V.check('the queue is as before', ex.pending_packets.get(osys.log[0][2]) is None)
    unchanged(V, ex, size, n, osys.log[0][2], seen)
    invariant(V, ex, size)
    V.check('nobody was called back', cb.got == [])

@contract('C17', targets=T[2:3], inductive=True)
def response(V):
    """a response to a pending command removes it and calls its callback once, with the data or the error; a response to a command that
    is not pending is an internal error and affects nothing"""
    if not V.symbolic: return history(V)
    osys = Os(V)
    ex, size, n = arbitrary(V, osys)
    V.internal(ex, '_process_pending_response')
    V.assume(n > 0)
    k = V.int('answered', 0, 1 << 20)
    fails = V.bool('fails')
    data = V.choice('the_data', DATA)
    out = Answer() if fails else data
    osys.answers = lambda: (out, k)
    was = ex.pending_packets.initial(k)
    silent = False
    if was is not None and V.bool('no_callback'):
        silent = True
        was = (was[0], None)
        ex.pending_packets[k] = was
    seen, failure = {}, Answer()
    what = V.choice('the_callback', ['returns', 'sends another command', 'fails'])
    def then():
        if what == 'fails': raise failure
        if what == 'sends another command':
            j = V.int('new_index', 0, 1 << 20)
            V.check('the command is no longer pending when its callback runs', V.Not(k in ex.pending_packets))
            V.assume(V.And(j < size, V.Not(j in ex.pending_packets)))
            seen.update(index=j, value=(Request(j), Calls()), delta=1)
            ex.pending_packets[j] = seen['value']
    if was is not None and not silent: was[1].then = then
    st, r = V.call(lambda: drive(ex._process_pending_response(), IDENT))
    V.check('receives once', osys.log == [('receive',)])
    if was is None:
        V.cover('unknown')
        V.check('an internal error', st == 'exc' and isinstance(r, errors().AsiInternalError))
        unchanged(V, ex, size, n)
        return
    V.cover('known')
    if what == 'fails' and not silent: V.check('a failing callback is not hidden', st == 'exc' and r is failure)
    else: V.check('handled', st == 'ok')
    V.check('no longer pending', ex.pending_packets.get(k) is not was)
    unchanged(V, ex, size, n - 1, k, seen)
    if not silent: V.check('called back once, with the outcome', was[1].got == [(None, out) if fails else (data, None)])
    invariant(V, ex, size)

def arrive(V, ex, i, trouble):
    """what happens when a response is awaited: that of a pending command, one nobody waits for, or a failure to receive"""
    what = V.choice('what_arrives', ['an answer', 'an answer nobody waits for', 'nothing'])
    if what == 'an answer': V.assume(i in ex.pending_packets)
    elif what == 'an answer nobody waits for':
        V.assume(V.Not(i in ex.pending_packets))
        trouble.append(AsiInternal)
    else:
        trouble.append(V.choice('failure', FAILURES)())
        raise trouble[-1]

def told(V, ex, trouble, st, r):
    if not trouble: return False
    if trouble[0] is AsiInternal: V.check('a response nobody waits for is an internal error', st == 'exc' and isinstance(r, errors().AsiInternalError))
    else: V.check('a failure to receive is raised, unchanged', st == 'exc' and r is trouble[0])
    V.check('and the next response is not awaited', len(trouble) == 1)
    return True
AsiInternal = object()

@contract('C17', targets=T[2:4], inductive=True)
def wait_all(V):
    """wait() ends with an empty queue, after calling each pending command's callback exactly once with its own outcome, whatever the order of the responses"""
    if not V.symbolic: return history(V)
    from engine.symmap import SymMap
    osys = Os(V)
    ex, size, n = arbitrary(V, osys)
    k = V.int('any_command', 0, 1 << 20)
    was = ex.pending_packets.initial(k)
    V.assume(was is not None)
    cb = was[1]
    own = V.choice('own', [Answer()] + DATA)
    outcome = [(None, own) if isinstance(own, Exception) else (own, None)]
    trouble = []
    def pick():
        i = V.int('answered', 0, 1 << 20)
        arrive(V, ex, i, trouble)
        if V.eq(i, k): return own, i
        return 'data', i
    osys.answers = pick
    def put(e):
        left = V.int('left', 0, 1 << 20)
        V.assume(left <= size)
        m = SymMap('left', left, size, lambda i: (Request(i), Calls()))
        cb.got = []
        if V.bool('still_pending'):
            V.assume(left > 0)
            V.assume(m.base_member(k))
            m.memo.append((k, was))
        else:
            V.assume(V.Not(m.base_member(k)))
            cb.got = list(outcome)
        ex.pending_packets = m
    V.loop('CommandExecuterBase.wait', lambda e: [('every command is pending, or was called back once with its outcome',
                                                  cb.got == [] if k in ex.pending_packets else cb.got == outcome)],
           variant=lambda e: V.len(ex.pending_packets), modifies=put)
    st, r = ended(V, lambda: drive(ex.wait(), IDENT))
    if told(V, ex, trouble, st, r): return V.check('nobody else is called back', cb.got == ([] if k in ex.pending_packets else outcome))
    V.check('succeeds', st == 'ok')
    V.check('nothing is pending', V.len(ex.pending_packets) == 0)
    V.assume(V.Not(k in ex.pending_packets))
    V.check('called back once, with its outcome', cb.got == outcome)

@contract('C17', targets=T, inductive=True)
def call_outcome(V):
    """call() sends the command and ends with its own outcome - its data or its error - however many other responses arrive first"""
    if not V.symbolic: return history(V)
    from engine.symmap import SymMap
    osys = Os(V)
    ex, size, n = arbitrary(V, osys)
    V.assume(n < size)
    fails = V.bool('fails')
    data = V.choice('the_data', DATA)
    out = Answer() if fails else data
    def mine():
        v = osys.log[1][1]
        return v
    trouble = []
    def pick():
        i = V.int('answered', 0, 1 << 20)
        arrive(V, ex, i, trouble)
        if V.eq(i, mine().packet): return out, i
        return 'other data', i
    osys.answers = pick
    state = {}
    def check(e):
        entry = ex.pending_packets.get(mine().packet)
        if 'cb' not in state:
            state['cb'] = entry[1]
            return [('the command is pending', entry[0] is mine())]
        return [('the command is pending or answered', (entry is not None and entry[0] is mine() and entry[1] is state['cb']) != state.get('answered', lambda: False)())]
    def put(e):
        left = V.int('left', 0, 1 << 20)
        V.assume(left <= size)
        m = SymMap('left', left, size, lambda i: (Request(i), Calls()))
        p = mine().packet
        real, seen = state['cb'], []
        def cb(data, exc):
            seen.append((data, exc))
            real(data, exc)
        state['cb'] = cb
        state['answered'] = lambda: len(seen) == 1
        if V.bool('still_pending'):
            V.assume(left > 0)
            V.assume(m.base_member(p))
            m.memo.append((p, (mine(), cb)))
        else:
            V.assume(V.Not(m.base_member(p)))
            cb(*((None, out) if fails else (out, None)))
        ex.pending_packets = m
    V.loop('CommandExecuterBase.call', check, variant=lambda e: V.len(ex.pending_packets), modifies=put)
    st, r = ended(V, lambda: drive(ex.call('command'), IDENT))
    V.check('sent once', len([x for x in osys.log if x[0] == 'send']) == 1)
    if told(V, ex, trouble, st, r): return
    if fails: V.check('its error is raised', st == 'exc' and r is out)
    else: V.check('its data is the result', st == 'ok' and r is data)

@contract('C17', targets=('gevent_friendly',))
def gevent_friendly_calls(V):
    """gevent_friendly(f) behaves as f, called once, and lets other greenlets run afterwards"""
    m = V.internal(asi(), 'gevent_friendly')
    slept, calls = [], []
    V.patch('infi.asi', '_gevent_friendly_sleep', lambda *a, **k: slept.append(len(calls)), True)
    fails = V.bool('fails')
    out = V.int('result')
    def f(*a, **k):
        calls.append((a, k))
        if fails: raise Answer()
        return out
    a, b = V.int('argument'), V.int('keyword')
    st, r = V.call(lambda: m.gevent_friendly(f)(a, 7, key=b))
    V.check('called once', len(calls) == 1)
    V.check('with its arguments', V.And(V.eq(calls[0][0][0], a), calls[0][0][1] == 7, list(calls[0][1]) == ['key'], V.eq(calls[0][1]['key'], b)))
    if fails: V.check('its failure is raised', st == 'exc' and isinstance(r, Answer))
    else: V.check('its result is returned', st == 'ok' and V.eq(r, out))

@contract('C17', targets=('CommandExecuterAdapter.call', 'CommandExecuterAdapter.send', 'CommandExecuterAdapter.is_queue_full', 'CommandExecuterAdapter.wait', 'CommandExecuterAdapter.__init__'))
def adapter(V):
    """CommandExecuterAdapter runs each operation of the executer it wraps, once, through its wrapper, and gives its result"""
    class Inner(object):
        def __init__(self): self.log = []
        def call(self, *a): self.log.append(('call', a)); return 'called'
        def send(self, *a): self.log.append(('send', a)); return 'sent'
        def is_queue_full(self): self.log.append(('full', ())); return False
        def wait(self): self.log.append(('wait', ())); return 'waited'
    inner, wrapped = Inner(), []
    def wrapper(f, *a, **k):
        wrapped.append(f)
        return ('wrapped', f(*a, **k))
    ad = asi().CommandExecuterAdapter(inner, wrapper)
    cb = Calls()
    op = V.choice('operation', ['call', 'send', 'send without callback', 'full', 'wait'])
    if op == 'call': r, want = ad.call('command'), ('called', ('call', ('command',)))
    elif op == 'send': r, want = ad.send('command', cb), ('sent', ('send', ('command', cb)))
    elif op == 'send without callback': r, want = ad.send('command'), ('sent', ('send', ('command', None)))
    elif op == 'full': r, want = ad.is_queue_full(), (False, ('full', ()))
    else: r, want = ad.wait(), ('waited', ('wait', ()))
    V.check('through the wrapper, once', len(wrapped) == 1 and len(inner.log) == 1)
    V.check('the right operation', inner.log[0] == want[1] or (op == 'send without callback' and inner.log[0] in (('send', ('command',)), want[1])))
    V.check('with its result', r == ('wrapped', want[0]))

class Task(object):
    """one command being sent by a driver that can be stopped at every step (as the reactor does)"""
    def __init__(self, gen): self.stack, self.value, self.started, self.over, self.failure = [gen], None, False, False, None
    def step(self, V, throw=None):
        exc = throw
        while True:
            try:
                if exc is not None:
                    e, exc = exc, None
                    x = self.stack[-1].throw(e)
                else: x = self.stack[-1].send(self.value)
                self.value = None
            except StopIteration:
                self.stack.pop()
                if not self.stack:
                    self.over = True
                    return
                continue
            except (Exception, Leaves) as e:
                self.stack.pop()
                if not self.stack:
                    self.over, self.failure = True, e
                    return
                exc = e
                continue
            if hasattr(x, 'throw'):
                self.stack.append(x)
                continue
            self.value = x
            return

@contract('C17', symbolic=False, bounded='random interleavings of at most 24 steps of up to 6 commands being sent, some failing or abandoned, queue sizes 1..4, callbacks that send further commands', targets=T)
def interleaved(V):
    """commands being sent at the same time: each ends on its own, whatever happens to the others"""
    size = V.int('max_queue_size', 1, 4)
    osys = Os(V)
    ex = hooked(V, osys, size)
    tasks, by_packet, answered = [], {}, {}
    def sent(request):
        V.check('an index is used by one command at a time', request.packet not in by_packet)
        by_packet[request.packet] = current[0]
    current = [None]
    osys.on_send = sent
    def answers():
        ids = sorted(by_packet)
        if not ids: raise Stuck()
        i = ids[V.int('answered', 0, 7) % len(ids)]
        t = by_packet.pop(i)
        t.out = Answer() if V.int('fails', 0, 3) == 0 else ('data', id(t))
        return t.out, i
    osys.answers = answers
    class Stuck(Exception): pass
    def new(depth):
        cb = Calls()
        t = Task(ex.send('command', cb))
        t.cb, t.out, t.failed, t.never = cb, None, False, False
        tasks.append(t)
        if depth and V.int('sends_another', 0, 2) == 0: cb.then = lambda: run(new(depth - 1))
        return t
    def step(t, throw=None):
        before, current[0] = osys.fail, t
        t.step(V, throw)
        osys.fail = before
        if t.over and t.failure is not None: t.failed = True
    def run(t):
        t.started = True
        while not t.over: step(t)
    for i in range(V.int('steps', 0, 24)):
        running = [t for t in tasks if not t.over]
        if not running or (len(tasks) < 6 and V.bool('another')): t = new(2)
        else: t = running[V.int('which', 0, 7) % len(running)]
        what = V.choice('what', ['step', 'step', 'step', 'fails', 'abandoned', 'answer'])
        busy = len(by_packet) + len([x for x in tasks if x.started and not x.over and x.out is None and x not in by_packet.values()])
        if what == 'answer':
            if by_packet: V.call(lambda: drive(ex._process_pending_response(), IDENT) if hasattr(ex, '_process_pending_response') else None)
        elif what == 'step' or not t.started:
            fresh, t.started = not t.started, True
            step(t)
            if fresh: V.check('refused just when the queue is full', isinstance(t.failure, errors().AsiRequestQueueFullError) == (busy >= size))
        else:
            f = SendFailed() if what == 'fails' else Closed()
            if t.out is None and t not in by_packet.values():
                step(t, f)
                V.check('the failure to send is raised', t.over and t.failure is f)
    for t in list(tasks):
        if not t.started:
            t.started = t.over = t.never = True
            continue
        while not t.over: step(t)
    st, r = V.call(lambda: drive(ex.wait(), IDENT))
    V.check('wait answers everything', st == 'ok' and not by_packet)
    V.check('nothing is pending', not ex.is_queue_full())
    for t in tasks:
        want = [] if t.out is None else [(None, t.out) if isinstance(t.out, Exception) else (t.out, None)]
        V.check('each command ends once, with its own outcome', t.cb.got == want)
        V.check('a command that failed to be sent, and only that, has no outcome', t.never or t.failed == (t.out is None))
    for i in range(size):
        current[0] = t = Task(ex.send('command', None))
        t.cb, t.out, t.failed, t.started = Calls(), None, False, True
        run(t)
        V.check('the whole queue can be used again', t.failure is None)

@contract('C17', symbolic=False, bounded='random histories of at most 14 public operations (send, send without callback, failing send, call, wait), queue sizes 1..5, any order of responses', targets=T)
def histories(V):
    """the whole queue against a reference queue"""
    history(V)
