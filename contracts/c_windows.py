"""C24: the Windows transport (SCSI pass through direct), its files and overlapped I/O."""
from contracts._lib import drive
from contracts._transport import *
from contracts._win import win, Windows
from engine.registry import contract, family

SPT = dict(Length=(0, 2), ScsiStatus=(2, 1), PathId=(3, 1), TargetId=(4, 1), Lun=(5, 1), CdbLength=(6, 1), SenseInfoLength=(7, 1), DataIn=(8, 1),
           DataTransferLength=(12, 4), TimeOutValue=(16, 4), DataBuffer=(24, 8), SenseInfoOffset=(32, 4), Cdb=(36, 16))
SPT_SIZE, CODE = 56, 0x4D014
T = ('SCSIPassThroughDirect.create', 'SCSIPassThroughDirect.set_data_buffer', 'Win32CommandExecuter._os_prepare_to_send', 'Win32CommandExecuter._os_send', 'Win32CommandExecuter._os_receive',
     'Win32File.ioctl')
get = layout(SPT)
DATA_IN = {'in': 1, 'out': 0, 'none': 2}

def check_spt(V, h, kind, cdb, n, payload):
    V.check('Length is the size of SCSI_PASS_THROUGH_DIRECT', V.eq(get(V, h, 'Length'), SPT_SIZE))
    d = get(V, h, 'DataIn')
    V.check('transfer direction', V.Or(V.eq(d, DATA_IN[kind]), V.And(kind == 'out', n == 0, V.eq(d, 2))))
    V.check('transfer length', V.eq(get(V, h, 'DataTransferLength'), n))
    V.check('a timeout is set', get(V, h, 'TimeOutValue') > 0)
    V.check('no address of its own', V.And(*[V.eq(get(V, h, f), 0) for f in ('PathId', 'TargetId', 'Lun')]))
    k = V.blen(cdb)
    V.check('command length', V.eq(get(V, h, 'CdbLength'), k))
    V.check_eq('command bytes', h[36:36 + k], cdb)
    V.check_eq('the rest of the command field is zero', h[36 + k:52], V.zeros(16 - k))
    so, sl = get(V, h, 'SenseInfoOffset'), get(V, h, 'SenseInfoLength')
    V.check('the sense buffer lies behind the structure, inside the buffer', V.And(so >= SPT_SIZE, so + sl <= V.blen(h), sl >= 18))
    if kind == 'out' and n > 0: V.check_eq('payload in memory', V.mem(get(V, h, 'DataBuffer'), n, 'reading the payload'), payload)

def spt_done(V, h, status, transferred, data, sense):
    if data is not None: V.poke(get(V, h, 'DataBuffer'), data, 'the data transfer')
    so = get(V, h, 'SenseInfoOffset')
    return V.cat(h[:2], V.to_bytes(status), h[3:12], V.le(transferred, 4), h[16:so], sense, V.zeros(V.blen(h) - so - V.blen(sense)))

class Device(Windows):
    number = 1117           # of a call that fails
    """a device behind DeviceIoControl; on_ioctl(header) gives the header after completion, or None when the call fails"""
    def __init__(self, V, on_ioctl):
        Windows.__init__(self, V)
        self.on_ioctl, self.calls = on_ioctl, []
    def DeviceIoControl(self, handle, code, inbuf, insize, outbuf, outsize, returned, overlapped):
        V = self.V
        h = V.raw(inbuf)
        self.calls.append((getattr(handle, 'value', handle), code))
        V.check('buffer sizes are those of the buffers', V.And(insize == V.blen(h), outsize == V.blen(V.raw(outbuf))))
        out = self.on_ioctl(h)
        if out is None:
            self.error = self.number
            if returned is not None: V.poke_buffer(returned, V.bytes('returned', 4))     # undefined after a failure
            return 0
        V.poke_buffer(outbuf, out)
        if returned is not None: V.poke_buffer(returned, V.le(V.blen(out), 4))
        return 1

def transfer(V, kind, n):
    if kind != 'in': return 0 if kind == 'none' else n, None
    t = V.length('transferred', 0, (1 << 32) - 1)
    V.assume(t <= n)
    return t, V.bytes('response', t)

def judge(V, st, r, kind, status, sense, sl, data):
    if V.eq(status, 2):
        V.cover('check condition')
        check_sense(V, st, r, sense, sl)
    elif status != 0:
        V.cover('error')
        check_error(V, st, r, status)
    else:
        V.cover('good')
        V.check('a good command is not reported as an error', st == 'ok')
        if kind == 'in':
            if V.blen(data) > 0: V.check_eq('data returned', r, data)
            else: V.check('no data returned', r is None or V.blen(r) == 0)
        else: V.check('no data returned', r is None)

@family('C24', KINDS, targets=T)
def spt_round_trip(V, kind):
    """the request describes exactly the command, with a pointer to live memory for its data; every SCSI status the driver fills in is
    reported as the error it is, or, when good, as exactly the bytes the device transferred"""
    m = win()
    stub_texts(V)
    cmd, cdb, n, payload = scsi_command(V, kind, cdb=V.bytes('cdb', V.choice('cdb_length', [6, 10, 12, 16] if kind == 'none' else [10, 16])))
    transferred, data = transfer(V, kind, n)
    sense, sl = sense_bytes(V)
    status = V.int('status', 0, 255)
    def on_ioctl(h):
        check_spt(V, h, kind, cdb, n, payload)
        return spt_done(V, h, status, transferred, data, sense)
    w = Device(V, on_ioctl)
    f = m.Win32File(u'device')
    ex = m.Win32CommandExecuter(f)
    st, r = V.call(lambda: drive(ex.call(cmd), lambda x: x))
    V.check('one pass-through request on the device', w.calls == [(0x44, CODE)])
    judge(V, st, r, kind, status, sense, sl, data)
    V.check('the executer is idle again', ex.is_queue_empty())

@contract('C24', targets=T)
def spt_long_command(V):
    """a command longer than the 16 bytes of the structure is refused, not cut"""
    m = win()
    w = Device(V, lambda h: h)
    ex = m.Win32CommandExecuter(m.Win32File(u'device'))
    n = V.choice('cdb_length', [17, 24, 32, 255])
    st, r = V.call(lambda: drive(ex.call(asi().SCSIReadCommand(V.bytes('cdb', n), 0)), lambda x: x))
    V.check('refused and not sent', st == 'exc' and w.calls == [])
    V.check('the executer is idle', ex.is_queue_empty())

@contract('C24', targets=T)
def spt_fails(V):
    """a pass-through call that fails is an operating system error with its number, and the executer is idle again"""
    m = win()
    w = Device(V, lambda h: None)
    w.number = V.int('error', 0, 0xffff)
    ex = m.Win32CommandExecuter(m.Win32File(u'device'))
    cmd, cdb, n, payload = scsi_command(V, V.choice('kind', ['in', 'out']), cdb=V.bytes('cdb', 10))
    st, r = V.call(lambda: drive(ex.call(cmd), lambda x: x))
    V.check('the error is raised', st == 'exc' and isinstance(r, errors().AsiOSError))
    V.check('with the number of the error', V.eq(r.win32_errno, w.number))
    V.check('the call is made once', len(w.calls) == 1)
    V.check('the executer is idle again', ex.is_queue_empty())
    w.on_ioctl = lambda h: spt_done(V, h, 0, 0, None, b'')
    st, r = V.call(lambda: drive(ex.call(cmd), lambda x: x))
    V.check('the next command works', st == 'ok')

@contract('C24', targets=T)
def spt_two_outstanding(V):
    """with several commands sent before any is waited for, each is told its own outcome"""
    m = win()
    stub_texts(V)
    k = [V.choice('kind', ['in', 'out']) for i in (0, 1)]
    c = [scsi_command(V, x, cdb=V.bytes('cdb', 10)) for x in k]
    t = [transfer(V, x, y[2]) for x, y in zip(k, c)]
    sense = [V.bytes('sense', 32), V.bytes('sense', 32)]
    status = [V.choice('status', [0, 2, 8]) for i in (0, 1)]
    left = [0, 1]
    def on_ioctl(h):
        i = left.pop(0)
        return spt_done(V, h, status[i], t[i][0], t[i][1], sense[i])
    Device(V, on_ioctl)
    ex = m.Win32CommandExecuter(m.Win32File(u'device'))
    done = [[], []]
    for i in (0, 1): drive(ex.send(c[i][0], lambda data, exc, i=i: done[i].append((data, exc))), lambda x: x)
    drive(ex.wait(), lambda x: x)
    for i in (0, 1):
        V.check('each command is answered once', len(done[i]) == 1)
        data, exc = done[i][0]
        judge(V, 'ok' if exc is None else 'exc', data if exc is None else exc, k[i], status[i], sense[i], 32, t[i][1])

@contract('C24', targets=('Win32File.__init__', 'Win32File.close', 'AsiWin32OSError.__init__'))
def file_open_close(V):
    """the device is opened once for reading and writing, shared, only if it exists; closing closes that handle once"""
    m = win()
    w = Windows(V)
    f = m.Win32File(u'device')
    V.check('opened', w.opened == [(u'device', 0xC0000000, 3, None, 3, 0, None)])
    f.close()
    V.check('closed', w.closed == [0x44])
    f.close()
    V.check('not closed twice', w.closed == [0x44])

@contract('C24', targets=('Win32File.__init__', 'Win32File.close', 'AsiWin32OSError.__init__'))
def file_errors(V):
    """failures to open and close are raised with their number; a file whose closing failed is not considered closed"""
    m = win()
    w = Windows(V)
    w.error = V.int('error', 0, 0xffff)
    w.CreateFileW = lambda *a: -1
    st, r = V.call(lambda: m.Win32File(u'device'))
    V.check('failure to open is raised', st == 'exc' and isinstance(r, errors().AsiOSError) and V.eq(r.win32_errno, w.error))
    del w.CreateFileW
    f = m.Win32File(u'device')
    w.CloseHandle = lambda h: 0
    st, r = V.call(f.close)
    V.check('failure to close is raised', st == 'exc' and isinstance(r, errors().AsiOSError) and V.eq(r.win32_errno, w.error))
    del w.CloseHandle
    f.close()
    V.check('closing can be retried', w.closed == [0x44])

# ---------------------------------------------------------------- overlapped I/O
TO = ('Win32AsyncFile.ioctl', 'WinAsyncIOToken.get_result', 'Win32AsyncReactor.wait_for', 'Win32AsyncReactor._wait_for_events', 'WaitForMultipleObjects', 'AsyncCoroutine.async_io_complete')

class Overlapped(Device):
    """DeviceIoControl on an overlapped file: completes at once, fails, or stays pending until the event is waited for.
    Each request's outcome: 'now', 'later', 'refused' or 'fails later'."""
    def __init__(self, V, on_ioctl, outcome):
        Device.__init__(self, V, on_ioctl)
        self.outcome, self.pending, self.requests = outcome, {}, {}
        self.last_event = None
    def CreateEventW(self, *a):
        self.last_event = Windows.CreateEventW(self, *a)
        return self.last_event
    def DeviceIoControl(self, handle, code, inbuf, insize, outbuf, outsize, returned, overlapped):
        V = self.V
        h = V.raw(inbuf)
        i = len(self.calls)
        self.calls.append((handle, code))
        V.check('an overlapped structure is passed', overlapped is not None)
        o = self.outcome[i]
        if o == 'refused':
            self.error = self.number
            return 0
        a = V.address(overlapped)
        self.pending[a] = (i, h, outbuf, overlapped)
        raw = V.raw(overlapped)
        at = 32 if V.blen(raw) >= 40 else 24          # struct's native unsigned long has 8 bytes here, 4 on Windows
        event = V.ule(raw[at:at + 8])
        V.check('the request has an event of its own', event == self.last_event and event not in self.requests)
        self.requests[event] = a
        if o == 'now': self._finish(a)
        self.error = 997 if o != 'now' else 0
        return 1 if o == 'now' else 0
    def _finish(self, k):
        i, h, outbuf, ov = self.pending[k]
        if h is None: return
        if self.outcome[i] != 'fails later': self.V.poke_buffer(outbuf, self.on_ioctl(i, h))
        self.pending[k] = (i, None, outbuf, ov)
    def GetOverlappedResult(self, handle, overlapped, count, wait):
        V = self.V
        i, h, outbuf, ov = self.pending[V.address(overlapped)]
        if h is not None:
            V.check('the result is asked for when it is there, or waiting for it', bool(wait))
            self._finish(V.address(overlapped))
        if self.outcome[i] == 'fails later':
            self.error = self.number
            return 0
        return 1
    def check_events(self):
        """the event of a request is closed, once, when its outcome has been taken"""
        self.V.check('every event is closed once', sorted(h for h in self.closed if h >= 0x1000) == [0x1004 + 4 * i for i in range(len(self.events))])
    def WaitForMultipleObjects(self, count, events, all_, timeout):
        raw = self.V.raw(events)
        ev = [self.V.ule(raw[8 * i:8 * i + 8]) for i in range(count)]
        self.V.check('waits only for requests in flight', set(ev) <= set(self.requests) and len(set(ev)) == len(ev))
        self.V.check('waits for events that are open', not set(ev) & set(self.closed))
        k = self.V.choice('signalled', list(range(count)))
        self._finish(self.requests[ev[k]])
        return k

def responder(V, data, sense):
    return lambda i, h: spt_done(V, h, 0, V.blen(data[i]), data[i], b'')

@family('C24', [(o, o) for o in ('now', 'later', 'refused', 'fails later')], targets=TO)
def overlapped_request(V, outcome):
    """a request on an overlapped file gives the device's data whether it completes at once or later, and an error when it fails at once or later"""
    m = win()
    from infi.asi.coroutines.sync_adapter import sync_wait
    data = [V.bytes('data', 8)]
    w = Overlapped(V, responder(V, data, b''), [outcome])
    w.number = V.int('error', 0, 0xffff)
    V.assume(V.And(w.number != 996, w.number != 997))       # "not ready yet" is no failure
    f = m.Win32AsyncFile(u'device')
    V.check('opened for overlapped I/O', w.opened == [(u'device', 0xC0000000, 3, None, 3, 0x40000000, None)])
    ex = m.Win32CommandExecuter(f)
    st, r = V.call(lambda: sync_wait(ex.call(asi().SCSIReadCommand(V.bytes('cdb', 10), 8))))
    V.check('one request', len(w.calls) == 1 and w.calls[0][1] == CODE)
    if outcome in ('now', 'later'):
        V.check('completes', st == 'ok')
        V.check_eq('data returned', r, data[0])
    else: V.check('reported as an operating system error', st == 'exc' and isinstance(r, errors().AsiOSError) and V.eq(r.win32_errno, w.number))
    V.check('the executer is idle again', ex.is_queue_empty())
    w.check_events()

@family('C24', [('%d commands' % n, n) for n in (1, 2, 3)], targets=TO)
def overlapped_many(V, n):
    """waiting for several commands at once gives every command's own result, in the order of the commands, whatever the order of completion"""
    m = win()
    from infi.asi.coroutines.sync_adapter import async_wait
    V.stub('infi.asi', 'get_platform_name', lambda: 'windows')
    V.patch('infi.os_info', 'get_platform_string', lambda *a, **k: 'windows-10-x64')
    data = [V.bytes('data', 8) for i in range(n)]
    out = [V.choice('outcome', ['now', 'later']) for i in range(n)]
    w = Overlapped(V, responder(V, data, b''), out)
    files = [m.Win32AsyncFile(u'device%d' % i) for i in range(n)]
    exs = [m.Win32CommandExecuter(f) for f in files]
    cdb = V.bytes('cdb', 10)
    st, r = V.call(lambda: async_wait(*[e.call(asi().SCSIReadCommand(cdb, 8)) for e in exs]))
    V.check('completes', st == 'ok')
    V.check('one result per command', len(r) == n)
    for i in range(n): V.check_eq('each command\'s own data', r[i], data[i])
    w.check_events()

@contract('C24', symbolic=False, bounded='up to 6 coroutines of up to 3 commands each, over executers of their own or shared ones, each command completing at once, later, failing at once or later, in any order', targets=TO)
def overlapped_mix(V):
    """several coroutines that each run several commands one after another: every command gives its own data or its own error to the
    coroutine that ran it, and the results come in the order of the coroutines"""
    m = win()
    from infi.asi.coroutines.sync_adapter import async_wait
    V.stub('infi.asi', 'get_platform_name', lambda: 'windows')
    V.patch('infi.os_info', 'get_platform_string', lambda *a, **k: 'windows-10-x64')
    n = V.int('coroutines', 1, 6)
    shared = V.bool('shared')
    plans = [[(V.choice('outcome', ['now', 'later', 'later', 'refused', 'fails later']), V.bytes('data', 8)) for k in range(V.int('commands', 0, 3))] for i in range(n)]
    sent = []                      # requests in the order they reach the device
    class Any(object):
        """outcome of request number i: the one planned for the command it carries"""
        def __getitem__(self, i): return sent[i][0]
    class Dev(Overlapped):
        def DeviceIoControl(self, handle, code, inbuf, *a):
            cdb = V.raw(inbuf)[36:38]               # the command names the coroutine and its step
            sent.append(plans[cdb[0]][cdb[1]])
            return Overlapped.DeviceIoControl(self, handle, code, inbuf, *a)
    w = Dev(V, lambda i, h: spt_done(V, h, 0, 8, sent[i][1], b''), Any())
    one = m.Win32CommandExecuter(m.Win32AsyncFile(u'device'))
    exs = [one if shared else m.Win32CommandExecuter(m.Win32AsyncFile(u'device%d' % i)) for i in range(n)]
    def job(i):
        got = []
        for k, (outcome, data) in enumerate(plans[i]):
            try: got.append((yield exs[i].call(asi().SCSIReadCommand(V.to_bytes(i, k) + b'\0' * 8, 8))))
            except errors().AsiOSError as e: got.append(e.win32_errno)
        yield got
    st, r = V.call(lambda: async_wait(*[job(i) for i in range(n)]))
    V.check('completes', st == 'ok')
    V.check('one result per coroutine', len(r) == n)
    for i in range(n):
        want = [d if o in ('now', 'later') else 1117 for o, d in plans[i]]
        V.check('number of results', len(r[i]) == len(want))
        for x, y in zip(r[i], want): V.check_eq('each command\'s own outcome', x, y)
    V.check('nothing is left pending', all(e.is_queue_empty() for e in exs))
    w.check_events()

@contract('C24', targets=TO)
def overlapped_one_fails(V):
    """when one of several commands fails, its error is raised in that command"""
    m = win()
    from infi.asi.coroutines.sync_adapter import async_wait
    V.patch('infi.os_info', 'get_platform_string', lambda *a, **k: 'windows-10-x64')
    data = [V.bytes('data', 8) for i in range(2)]
    w = Overlapped(V, responder(V, data, b''), ['later', 'fails later'])
    exs = [m.Win32CommandExecuter(m.Win32AsyncFile(u'device')) for i in range(2)]
    seen = []
    def guarded(e):
        try:
            yield e.call(asi().SCSIReadCommand(b'\0' * 10, 8))
        except errors().AsiOSError as x:
            seen.append(x)
            yield 'failed'
    st, r = V.call(lambda: async_wait(*[guarded(e) for e in exs]))
    V.check('completes', st == 'ok' and len(r) == 2)
    V.check_eq('the good command\'s data', r[0], data[0])
    V.check('the failed command handled its error', r[1] == 'failed' and len(seen) == 1 and seen[0].win32_errno == 1117)
    w.check_events()

@contract('C24', targets=('WaitForMultipleObjects',))
def wait_fails(V):
    """a wait that times out or fails is an error"""
    m = win()
    from infi.asi.coroutines.sync_adapter import async_wait
    V.patch('infi.os_info', 'get_platform_string', lambda *a, **k: 'windows-10-x64')
    w = Overlapped(V, responder(V, [b'\0' * 8], b''), ['later'])
    code = V.choice('result', [0x80, 0x102, -1])
    w.WaitForMultipleObjects = lambda *a: code
    ex = m.Win32CommandExecuter(m.Win32AsyncFile(u'device'))
    st, r = V.call(lambda: async_wait(ex.call(asi().SCSIReadCommand(b'\0' * 10, 8))))
    V.check('reported as an operating system error', st == 'exc' and isinstance(r, errors().AsiOSError))
