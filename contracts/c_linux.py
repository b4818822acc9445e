"""C19-C21: the Linux transports (SCSI generic read/write and SG_IO ioctl)."""
from contracts._lib import drive
from contracts._transport import *
from engine.registry import contract, family

T = ('SGIO.create', 'SGIO.init_sense_buffer', 'SGIO.init_command_buffer', 'SGIO.set_data_buffer', 'SGIO.to_raw', 'LinuxCommandExecuter._os_prepare_to_send', 'LinuxCommandExecuter._os_send')
TR = ('SGIO.from_string', 'LinuxCommandExecuter._handle_raw_response', 'LinuxCommandExecuter._os_receive', 'CommandExecuterBase._check_condition')
TI = ('LinuxIoctlCommandExecuter._os_send', 'LinuxIoctlCommandExecuter._os_receive')

# struct sg_io_hdr on LP64 (engine/selfcheck.py compares these offsets with /usr/include/scsi/sg.h)
HDR = dict(interface_id=(0, 4), dxfer_direction=(4, 4), cmd_len=(8, 1), mx_sb_len=(9, 1), iovec_count=(10, 2), dxfer_len=(12, 4), dxferp=(16, 8), cmdp=(24, 8),
           sbp=(32, 8), timeout=(40, 4), flags=(44, 4), pack_id=(48, 4), usr_ptr=(56, 8), status=(64, 1), masked_status=(65, 1), msg_status=(66, 1),
           sb_len_wr=(67, 1), host_status=(68, 2), driver_status=(70, 2), resid=(72, 4), duration=(76, 4), info=(80, 4))
HDR_SIZE = 88
SG_IO = 0x2285
DIRECTION = {'in': (-3,), 'none': (-1,), 'out': (-2,)}

def get(V, h, f):
    o, n = HDR[f]
    return V.ule(h[o:o + n])
def signed(v, n): return v - (1 << (8 * n)) if v >= 1 << (8 * n - 1) else v

def check_request(V, h, kind, cdb, n, payload, timeout):
    V.check('the header has the size of sg_io_hdr', V.blen(h) == HDR_SIZE)
    V.check('interface id', V.eq(get(V, h, 'interface_id'), ord('S')))
    d = signed(get(V, h, 'dxfer_direction'), 4)
    V.check('transfer direction', V.Or(*[V.eq(d, x) for x in DIRECTION[kind]], V.And(kind == 'out', n == 0, V.eq(d, -1))))
    V.check('no scatter list', V.eq(get(V, h, 'iovec_count'), 0))
    V.check('transfer length', V.eq(get(V, h, 'dxfer_len'), n))
    V.check('timeout in milliseconds', V.eq(get(V, h, 'timeout'), timeout))
    V.check('flags do not suppress the transfer', V.eq((get(V, h, 'flags') // 0x10000) % 2, 0))
    V.check('command length', V.eq(get(V, h, 'cmd_len'), V.blen(cdb)))
    V.check_eq('command bytes in memory', V.mem(get(V, h, 'cmdp'), V.blen(cdb), 'reading the CDB'), cdb)
    sb = get(V, h, 'mx_sb_len')
    V.check('room for the kernel\'s sense data', sb >= 96)
    if kind == 'out' and n > 0: V.check_eq('payload in memory', V.mem(get(V, h, 'dxferp'), n, 'reading the payload'), payload)

def complete(V, h, status, driver, host, data, sense, pack_id=None):
    """the header after the kernel completed the request: only its output fields changed; data and sense are in memory"""
    if data is not None: V.poke(get(V, h, 'dxferp'), data, 'the data transfer')
    V.poke(get(V, h, 'sbp'), sense, 'the sense transfer')
    pid = h[48:52] if pack_id is None else pack_id
    return V.cat(h[:48], pid, h[52:64], V.to_bytes(status), V.bytes('other1', 2), V.to_bytes(V.int('sb_len_wr', 0, 255)),
                 V.le(host, 2), V.le(driver, 2), V.bytes('other2', 12), h[84:88])

def statuses(V): return V.int('status', 0, 255), V.int('driver_status', 0, 0xffff), V.int('host_status', 0, 0xffff)
def sense_bytes(V):
    n = V.length('sense_length', 0, 96)
    return V.bytes('sense', n), n

def judge(V, st, r, kind, status, driver, host, sense, sense_len, data):
    """what the caller must be told about a command that completed like this"""
    e = errors()
    checked = V.Or(V.eq(status, 2), V.eq((driver // 8) % 2, 1))
    if checked:
        V.cover('check condition')
        V.check('a check condition is reported as such', st == 'exc' and isinstance(r, e.AsiCheckConditionError))
        V.check('at least the delivered sense bytes are kept', V.blen(r.sense_buffer) >= sense_len)
        V.check_eq('the sense bytes are the device\'s', r.sense_buffer[:sense_len], sense)
    elif V.And(V.eq(status, 0x18), V.eq(host, 0)):
        V.cover('conflict')
        V.check('a reservation conflict is reported as such', st == 'exc' and isinstance(r, e.AsiReservationConflictError))
    elif V.Or(status != 0, driver % 16 != 0, host != 0):
        V.cover('error')
        check_error(V, st, r, status)
    else:
        V.cover('good')
        V.check('a good command is not reported as an error', st == 'ok')
        if kind == 'in': V.check_eq('data returned', r, data)
        else: V.check('no data returned', r is None)

class SgDevice(object):
    """a SCSI generic character device: write() takes a request header, read() returns the header of a completed one"""
    def __init__(self, V, on_write, on_read):
        self.V, self.on_write, self.on_read = V, on_write, on_read
        self.fd = V.int('fd', 0, 1 << 20)
        self.headers, self.reads = [], 0
    def write(self, raw):
        h = self.V.raw(raw)
        self.headers.append(h)
        self.on_write(h)
        return self.V.blen(h)
    def read(self, size):
        self.reads += 1
        self.V.check('reads whole headers', size == HDR_SIZE)
        return self.on_read()

def lin():
    import infi.asi.linux
    return infi.asi.linux

@family('C19', KINDS, targets=T)
def sg_request(V, kind):
    """the request written to the SCSI generic device describes exactly the command: direction, lengths, timeout, and pointers to live
    memory holding the CDB and payload and with room for data and sense"""
    stub_texts(V, 'infi.asi.linux')
    cmd, cdb, n, payload = scsi_command(V, kind)
    timeout = V.int('timeout', 0, (1 << 32) - 1)
    data, expected = answer(V, kind, n)
    sense, sl = sense_bytes(V)
    def on_write(h): check_request(V, h, kind, cdb, n, payload, timeout)
    def on_read(): return complete(V, dev.headers[0], 0, 0, 0, data, sense)
    dev = SgDevice(V, on_write, on_read)
    ex = lin().LinuxCommandExecuter(dev, timeout=timeout)
    st, r = V.call(lambda: drive(ex.call(cmd), lambda x: x))
    V.check('the command completes', st == 'ok')
    V.check('one request is written', len(dev.headers) == 1)
    if kind == 'in': V.check_eq('data returned', r, expected)
    else: V.check('no data returned', r is None)

@contract('C19', targets=T)
def sg_default_timeout(V):
    """without a timeout from the caller, 30 seconds"""
    cmd, cdb, n, payload = scsi_command(V, 'none')
    dev = SgDevice(V, lambda h: V.check('default timeout is 30 seconds, in milliseconds', V.eq(get(V, h, 'timeout'), 30000)), lambda: complete(V, dev.headers[0], 0, 0, 0, None, b''))
    ex = lin().LinuxCommandExecuter(dev)
    st, r = V.call(lambda: drive(ex.call(cmd), lambda x: x))
    V.check('one request is written', st == 'ok' and len(dev.headers) == 1)

@family('C20', KINDS, targets=T + TR)
def sg_response(V, kind):
    """every combination of SCSI, driver and host status is reported as the error it is, or, when all are good, as the device's data"""
    stub_texts(V, 'infi.asi.linux')
    cmd, cdb, n, payload = scsi_command(V, kind)
    data, expected = answer(V, kind, n)
    sense, sl = sense_bytes(V)
    status, driver, host = statuses(V)
    dev = SgDevice(V, lambda h: None, lambda: complete(V, dev.headers[0], status, driver, host, data, sense))
    ex = lin().LinuxCommandExecuter(dev)
    st, r = V.call(lambda: drive(ex.call(cmd), lambda x: x))
    judge(V, st, r, kind, status, driver, host, sense, sl, expected)
    V.check('the executer is idle again', ex.is_queue_empty())

@contract('C20', targets=TR)
def sg_unknown_response(V):
    """a completed request that was never sent, or was already answered, is an internal error whatever its statuses; it ends no command"""
    stub_texts(V, 'infi.asi.linux')
    cmd, cdb, n, payload = scsi_command(V, 'in')
    status, driver, host = statuses(V)
    pid = V.int('pack_id', -(1 << 31), (1 << 31) - 1)
    sense, sl = sense_bytes(V)
    dev = SgDevice(V, lambda h: None, lambda: complete(V, dev.headers[0], status, driver, host, None, sense, V.le(pid % (1 << 32), 4)))
    ex = lin().LinuxCommandExecuter(dev)
    done = []
    drive(ex.send(cmd, lambda *a: done.append(a)), lambda x: x)
    V.assume(pid != signed(get(V, dev.headers[0], 'pack_id'), 4))
    st, r = V.call(lambda: drive(ex.wait(), lambda x: x))
    V.check('reported as an internal error', st == 'exc' and isinstance(r, errors().AsiInternalError))
    V.check('no command is answered', done == [])
    V.check('the command that was sent is still pending', not ex.is_queue_empty())

@family('C20', [('first answered first', (0, 1)), ('second answered first', (1, 0))], targets=T + TR)
def sg_two_outstanding(V, order):
    """with several commands outstanding, each is told its own outcome whatever the order of completion"""
    stub_texts(V, 'infi.asi.linux')
    k = [V.choice('kind', ['in', 'out']) for i in (0, 1)]
    c = [scsi_command(V, x) for x in k]
    d = [answer(V, x, y[2]) for x, y in zip(k, c)]
    sense = [V.bytes('sense', 32), V.bytes('sense', 32)]
    status = [V.choice('status', [0, 2, 8]) for i in (0, 1)]
    left = list(order)
    done_at = V.choice('transfers', ['when sent', 'when all are sent', 'when read'])
    kept = []
    def transfer(): kept.append(complete(V, dev.headers[len(kept)], status[len(kept)], 0, 0, d[len(kept)][0], sense[len(kept)]))
    def on_write(h):
        if done_at == 'when sent' or done_at == 'when all are sent' and len(dev.headers) == 2:
            while len(kept) < len(dev.headers): transfer()
    def on_read():
        i = left.pop(0)
        return complete(V, dev.headers[i], status[i], 0, 0, d[i][0], sense[i]) if done_at == 'when read' else kept[i]
    dev = SgDevice(V, on_write, on_read)
    ex = lin().LinuxCommandExecuter(dev)
    done = [[], []]
    for i in (0, 1): drive(ex.send(c[i][0], lambda data, exc, i=i: done[i].append((data, exc))), lambda x: x)
    V.check('distinct identifiers', V.Not(V.eq(get(V, dev.headers[0], 'pack_id'), get(V, dev.headers[1], 'pack_id'))))
    drive(ex.wait(), lambda x: x)
    for i in (0, 1):
        V.check('each command is answered once', len(done[i]) == 1)
        data, exc = done[i][0]
        judge(V, 'ok' if exc is None else 'exc', data if exc is None else exc, k[i], status[i], 0, 0, sense[i], 32, d[i][1])

def ioctl_env(V, on_ioctl):
    calls = []
    def ioctl(fd, request, arg=0, mutate_flag=True):
        """ioctl as Python has it: a mutable buffer is updated in place, an immutable one is copied and the updated copy returned"""
        h = V.raw(arg)
        calls.append((fd, request, h))
        out = on_ioctl(h)
        if V.mutable(arg) and mutate_flag:
            V.poke_buffer(arg, out)
            return 0
        return out
    V.patch('fcntl', 'ioctl', ioctl)
    return calls

class Fd(object):
    def __init__(self, V): self.fd = V.int('fd', 0, 1 << 20)

@family('C21', KINDS, targets=T + TR + TI)
def ioctl_round_trip(V, kind):
    """over the SG_IO ioctl the request describes exactly the command, and every combination of statuses the kernel fills in is reported as
    the error it is, or, when all are good, as the device's data"""
    stub_texts(V, 'infi.asi.linux')
    cmd, cdb, n, payload = scsi_command(V, kind)
    timeout = V.int('timeout', 0, (1 << 32) - 1)
    data, expected = answer(V, kind, n)
    sense, sl = sense_bytes(V)
    status, driver, host = statuses(V)
    def on_ioctl(h):
        check_request(V, h[:HDR_SIZE], kind, cdb, n, payload, timeout)
        return V.cat(complete(V, h[:HDR_SIZE], status, driver, host, data, sense), h[HDR_SIZE:])
    calls = ioctl_env(V, on_ioctl)
    io = Fd(V)
    ex = lin().LinuxIoctlCommandExecuter(io, timeout=timeout)
    st, r = V.call(lambda: drive(ex.call(cmd), lambda x: x))
    V.check('one SG_IO ioctl on the device', len(calls) == 1 and V.eq(calls[0][0], io.fd) and calls[0][1] == SG_IO)
    judge(V, st, r, kind, status, driver, host, sense, sl, expected)
    V.check('the executer is idle again', ex.is_queue_empty())

@contract('C21', targets=TI)
def ioctl_fails(V):
    """an ioctl that fails is the caller's error, unchanged, and the executer is idle again"""
    cmd, cdb, n, payload = scsi_command(V, 'in')
    err = os_failure(V)
    calls = ioctl_env(V, Once(err, lambda h: complete(V, h[:HDR_SIZE], 0, 0, 0, None, V.zeros(1))))
    ex = lin().LinuxIoctlCommandExecuter(Fd(V))
    st, r = V.call(lambda: drive(ex.call(cmd), lambda x: x))
    V.check('the error is raised', st == 'exc' and r is err)
    V.check('the command is not sent again', len(calls) == 1)
    V.check('the executer is idle again', ex.is_queue_empty())
    calls = ioctl_env(V, lambda h: complete(V, h[:HDR_SIZE], 0, 0, 0, None, V.zeros(1)))
    st, r = V.call(lambda: drive(ex.call(cmd), lambda x: x))
    V.check('the next command works', st == 'ok' and len(calls) == 1)

@family('C21', MANY, targets=T + TR + TI)
def ioctl_many(V, together):
    """several commands given to one executer: each is sent once, in order, and is told its own outcome, once"""
    def setup(serve):
        def on_ioctl(h):
            h = h[:HDR_SIZE]
            return serve(lambda kind, cdb, n, payload: check_request(V, h, kind, cdb, n, payload, 30000), lambda status, data, sense: complete(V, h, status, 0, 0, data, sense))
        ioctl_env(V, on_ioctl)
    many(V, together, setup, lambda size: lin().LinuxIoctlCommandExecuter(Fd(V), max_queue_size=size))

@contract('C20', targets=T)
def sg_write_fails(V):
    """a request that cannot be written is the caller's error, unchanged; it is not sent again, nothing is read, and the executer is idle again"""
    cmd, cdb, n, payload = scsi_command(V, V.choice('kind', ['in', 'out']))
    err = os_failure(V)
    dev = SgDevice(V, Once(err, lambda h: None), lambda: complete(V, dev.headers[0], 0, 0, 0, None, V.zeros(1)))
    ex = lin().LinuxCommandExecuter(dev)
    st, r = V.call(lambda: drive(ex.call(cmd), lambda x: x))
    V.check('the error is raised', st == 'exc' and r is err)
    V.check('written once, nothing read', len(dev.headers) == 1 and dev.reads == 0)
    V.check('the executer is idle again', ex.is_queue_empty())

@contract('C20', targets=T)
def sg_read_fails(V):
    """when the device cannot be read, the caller is told so, by that error; the command is not sent again"""
    cmd, cdb, n, payload = scsi_command(V, V.choice('kind', ['in', 'out']))
    err = os_failure(V)
    dev = SgDevice(V, lambda h: None, Once(err, lambda: complete(V, dev.headers[0], 0, 0, 0, None, V.zeros(1))))
    ex = lin().LinuxCommandExecuter(dev)
    st, r = V.call(lambda: drive(ex.call(cmd), lambda x: x))
    V.check('the error is raised', st == 'exc' and r is err)
    V.check('written once', len(dev.headers) == 1)

@contract('C20', targets=('prettify_status',), )
def status_names(V):
    """the name of a status is the one its table gives it, together with its number"""
    m = V.internal('infi.asi.linux', 'prettify_status', 'DRIVER_STATUS_CODES', 'HOST_STATUS_CODES')
    t = V.choice('table', [asi().SCSI_STATUS_CODES, m.DRIVER_STATUS_CODES, m.HOST_STATUS_CODES])
    code = V.int('code', 0, 0xff)
    for name in sorted(t):
        if V.eq(code, t[name]):
            V.check('named', m.prettify_status(t[name], t) == '%s 0x%02x' % (name, t[name]))
            return
    k = V.choice('unnamed', [c for c in range(256) if c not in t.values()][:8])
    V.check('unnamed codes show their number', m.prettify_status(k, t) == ' 0x%02x' % k)

HOST = dict(enumerate(['SG_ERR_DID_' + x for x in ('OK', 'NO_CONNECT', 'BUS_BUSY', 'TIME_OUT', 'BAD_TARGET', 'ABORT', 'PARITY', 'ERROR', 'RESET', 'BAD_INTR', 'PASSTHROUGH', 'SOFT_ERROR')]))
DRIVER = dict(enumerate(['SG_ERR_DRIVER_' + x for x in ('OK', 'BUSY', 'SOFT', 'MEDIA', 'ERROR', 'INVALID', 'TIMEOUT', 'HARD')]))

@family('C20', [('scsi', 0), ('driver', 1), ('host', 2)], targets=TR + ('prettify_status',))
def sg_error_names(V, which):
    """the error of a command that failed names the status that failed, and the ones below it, by number and as the kernel's headers and
    the SCSI architecture model name them"""
    status = V.choice('status', [s for s in sorted(SCSI_STATUS) if s not in (0, 2, 0x18)]) if which == 0 else 0
    driver = V.choice('driver_status', sorted(DRIVER) if which == 0 else sorted(DRIVER)[1:] if which == 1 else [0])
    host = V.choice('host_status', [h for h in sorted(HOST) if (h or which < 2) and (h != 7 or which > 0)])
    suggestion = V.choice('suggestion', [0, 0x10, 0x80])
    dev = SgDevice(V, lambda h: None, lambda: complete(V, dev.headers[0], status, driver + suggestion, host, None, b''))
    ex = lin().LinuxCommandExecuter(dev)
    st, r = V.call(lambda: drive(ex.call(asi().SCSIReadCommand(b'\0' * 6, 0)), lambda x: x))
    V.check('reported as a SCSI error', st == 'exc' and isinstance(r, errors().AsiSCSIError))
    t = str(r)
    if which == 0: V.check('names the SCSI status', SCSI_STATUS[status] + ' 0x%02x' % status in t)
    V.check('names the driver status', DRIVER[driver] + ' 0x%02x' % driver in t)
    V.check('names the host status', HOST[host] + ' 0x%02x' % host in t)
