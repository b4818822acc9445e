"""Environment of the transports (both sides): SCSI commands, and what a device does with a request it was handed."""
from contracts._lib import drive, bits

def asi():
    import infi.asi
    return infi.asi
def errors():
    import importlib
    return importlib.import_module('infi.asi.errors')

class Sense(object):
    """stands for a decoded sense object (C15 decides the decoding)"""
    def __repr__(self): return 'sense'

def stub_texts(V, *mods):
    """callees with contracts of their own: status names (names only feed message texts) and sense decoding (C15)"""
    def sense(buf):
        if V.bool('sense_decodes'): return Sense()
        raise ValueError('malformed sense data')
    V.stub('infi.asi', 'get_sense_object_from_buffer', sense)
    for m in mods: V.stub(m, 'prettify_status', lambda code, table: 'status(%s)' % (code,))

KINDS = [('data-in', 'in'), ('no data', 'none'), ('data-out', 'out')]

def scsi_command(V, kind, max_data=(1 << 32) - 1, cdb=None, max_cdb=255):
    """(command object, CDB, data length, payload)"""
    m = asi()
    if cdb is None: cdb = V.bytes('cdb', V.length('cdb_length', 1, max_cdb))
    if kind == 'in':
        n = V.length('data_length', 1, max_data)
        return m.SCSIReadCommand(cdb, n), cdb, n, None
    if kind == 'none': return m.SCSIReadCommand(cdb, 0), cdb, 0, None
    n = V.length('data_length', 0, max_data)
    data = V.bytes('payload', n)
    return m.SCSIWriteCommand(cdb, data), cdb, n, data

def answer(V, kind, n):
    """(bytes the device transfers, sense bytes it leaves, expected data result) of one command"""
    if kind != 'in': return None, None
    t = V.length('transferred', 0, (1 << 32) - 1)
    V.assume(t <= n)
    data = V.bytes('response', t)
    return data, V.cat(data, V.zeros(n - t))

def expect_error(V, st, r, cls, what):
    V.check(what, st == 'exc' and isinstance(r, cls))

OS_FAILURES = [lambda n: OSError(5, 'Input/output error'), lambda n: OSError(4, 'Interrupted system call'), lambda n: OSError(11, 'Resource temporarily unavailable'),
               lambda n: OSError(16, 'Device or resource busy'), lambda n: OSError(110, 'Connection timed out'), lambda n: OSError(32, 'Broken pipe'),
               lambda n: OSError(13, 'Permission denied'), lambda n: OSError(19, 'No such device'), lambda n: OSError(n, 'an error'), lambda n: OSError('no number')]
def os_failure(V, name='failure'):
    """an error of the operating system: the kinds Python tells apart, every other number, none"""
    k = V.choice(name, list(range(len(OS_FAILURES))))
    n = 0
    if k == 8:
        n = V.int(name + '_errno', 1, 200)
        if V.symbolic:
            e = OSError('an error')     # OSError's own choice of class needs a number; the named ones are cases of their own
            e.errno = n
            return e
    return OS_FAILURES[k](n)

class Once(object):
    """a system call that fails the first time it is made, and would succeed afterwards"""
    def __init__(self, error, then): self.error, self.then, self.calls = error, then, 0
    def __call__(self, *a):
        self.calls += 1
        if self.calls == 1: raise self.error
        return self.then(*a)

class Fd(object):
    """an open device of a Unix"""
    def __init__(self, V): self.fd = V.int('fd', 0, 1 << 20)

def layout(table):
    """accessor of the fields of a C structure: {name: (offset, size)}"""
    def get(V, h, f):
        o, n = table[f]
        return V.ule(h[o:o + n])
    return get

def sense_bytes(V, most=96):
    n = V.length('sense_length', 0, most)
    return V.bytes('sense', n), n

def check_sense(V, st, r, sense, n):
    V.check('a check condition is reported as such', st == 'exc' and isinstance(r, errors().AsiCheckConditionError))
    V.check('at least the delivered sense bytes are kept', V.blen(r.sense_buffer) >= n)
    V.check_eq('the sense bytes are the device\'s', r.sense_buffer[:n], sense)

def check_error(V, st, r, status):
    """an error that is no check condition"""
    e = errors()
    V.check('a failed command is reported as an error', st == 'exc' and isinstance(r, e.AsiException))
    if isinstance(r, e.AsiCheckConditionError): V.check('only a check condition is reported as one', V.eq((status // 2) % 2, 1))
    if isinstance(r, e.AsiReservationConflictError): V.check('only a reservation conflict is reported as one', V.eq(status, 0x18))
    V.check('a failed command is no internal error', not isinstance(r, e.AsiInternalError))

def check_good(V, st, r, kind, data):
    V.check('a good command is not reported as an error', st == 'ok')
    if kind == 'in': V.check_eq('data returned', r, data)
    else: V.check('no data returned', r is None)

MANY = [('one after the other', False), ('sent together', True)]
def many(V, together, setup, make):
    """several commands given to one executer of a system that completes each command in the call that sends it, with room for more than
    one: each is handed to the device once, in order, and is told its own outcome, once.
    setup(serve) installs a device that answers each call with serve(check of the request, completion); make(size) -> executer"""
    stub_texts(V)
    kinds = V.choice('kinds', [('in', 'out', 'in'), ('out', 'in', 'none')])
    m = asi()
    def command(k):
        cdb, data = V.bytes('cdb', 10), V.bytes('payload', 16)
        return (m.SCSIWriteCommand(cdb, data), cdb, 16, data) if k == 'out' else (m.SCSIReadCommand(cdb, 24 if k == 'in' else 0), cdb, 24 if k == 'in' else 0, None)
    c = [command(k) for k in kinds]
    d = [V.bytes('response', 24) if k == 'in' else None for k in kinds]
    sense = [V.bytes('sense', 32) for k in kinds]
    status = [V.choice('status', [0, 2, 8]) for k in kinds]
    sent, fails = [], V.choice('fails', [None, 0, 1])
    def serve(check, done):
        i = len(sent)
        sent.append(i)
        V.check('each command is sent once', i < len(c))
        check(kinds[i], c[i][1], c[i][2], c[i][3])
        if i == fails: raise OSError(5, 'Input/output error')
        return done(status[i], d[i], sense[i])
    setup(serve)
    ex = make(V.choice('max_queue_size', [3] if together else [2, 15]))
    told = [[] for k in kinds]
    if together:
        for i in range(3):
            st, r = V.call(lambda: drive(ex.send(c[i][0], lambda data, exc, i=i: told[i].append(('ok', data) if exc is None else ('exc', exc))), lambda x: x))
            V.check('a command that cannot be sent fails at once, any other does not', st == ('exc' if i == fails else 'ok') and told[i] == [])
            if i == fails: told[i].append((st, r))
        drive(ex.wait(), lambda x: x)
    else:
        for i in range(3): told[i].append(V.call(lambda: drive(ex.call(c[i][0]), lambda x: x)))
    V.check('each command is sent', sent == [0, 1, 2])
    V.check('the executer is idle again', ex.is_queue_empty())
    for i in range(3):
        V.check('each command is told an outcome once', len(told[i]) == 1)
        st, r = told[i][0]
        if i == fails: V.check('a command that cannot be sent is told so', st == 'exc' and isinstance(r, (OSError, errors().AsiOSError)))
        elif status[i] == 2: check_sense(V, st, r, sense[i], 32)
        elif status[i]: check_error(V, st, r, status[i])
        else: check_good(V, st, r, kinds[i], d[i])

SCSI_STATUS = {0: 'SCSI_STATUS_GOOD', 2: 'SCSI_STATUS_CHECK_CONDITION', 4: 'SCSI_STATUS_CONDITION_MET', 8: 'SCSI_STATUS_BUSY', 0x18: 'SCSI_STATUS_RESERVATION_CONFLICT',
               0x28: 'SCSI_STATUS_TASK_SET_FULL', 0x30: 'SCSI_STATUS_ACA_ACTIVE', 0x40: 'SCSI_STATUS_TASK_ABORTED'}
