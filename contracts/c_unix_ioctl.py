"""C22: the Solaris USCSICMD transport; C23: the AIX DK_PASSTHRU transport."""
from contracts._lib import drive
from contracts._transport import *
from engine.registry import contract, family

# ---------------------------------------------------------------- Solaris: struct uscsi_cmd, LP64 little-endian
USCSI = dict(flags=(0, 4), status=(4, 1), reason=(5, 1), timeout=(6, 2), cdb=(8, 8), bufaddr=(16, 8), buflen=(24, 8), resid=(32, 8), cdblen=(40, 1),
             rqlen=(41, 1), rqstatus=(42, 1), rqresid=(43, 1), rqbuf=(48, 8), path_instance=(56, 8))
USCSI_SIZE, USCSICMD = 64, 0x4c9
TS = ('SCSICMD.create', 'SCSICMD.init_sense_buffer', 'SCSICMD.init_command_buffer', 'SCSICMD.set_data_buffer', 'SCSICMD.from_string', 'SolarisCommandExecuter._os_prepare_to_send',
      'SolarisCommandExecuter._os_send', 'SolarisCommandExecuter._os_receive', 'SolarisCommandExecuter._handle_raw_response')
sget = layout(USCSI)

def solaris_env(V, on_ioctl):
    calls = []
    def ioctl(fd, request, arg=0, mutate_flag=True):
        h = V.raw(arg)
        calls.append((fd, request))
        out = on_ioctl(h[:USCSI_SIZE])
        V.check('the buffer holds a whole uscsi_cmd', V.blen(h) >= USCSI_SIZE)
        if V.mutable(arg) and mutate_flag:
            V.poke_buffer(arg, out)
            return 0
        return V.cat(out, h[USCSI_SIZE:])
    V.patch('fcntl', 'ioctl', ioctl)
    return calls

def check_uscsi(V, h, kind, cdb, n, payload, timeout):
    f = sget(V, h, 'flags')
    V.check('data is read exactly by data-in commands', V.eq((f // 8) % 2, 1 if kind == 'in' else 0))
    V.check('sense data is asked for', V.eq((f // 0x10000) % 2, 1))
    for b in (0x1000, 0x2000, 0x4000, 0x8000, 0x20000, 0x40000, 0x80000): V.check('no reset, renegotiation or other side effect', V.eq((f // b) % 2, 0))
    V.check('timeout in seconds', V.eq(sget(V, h, 'timeout'), timeout))
    V.check('command length', V.eq(sget(V, h, 'cdblen'), V.blen(cdb)))
    V.check_eq('command bytes in memory', V.mem(sget(V, h, 'cdb'), V.blen(cdb), 'reading the CDB'), cdb)
    V.check('transfer length', V.eq(sget(V, h, 'buflen'), n))
    V.check('room for sense data', sget(V, h, 'rqlen') >= 96)
    if kind == 'out' and n > 0: V.check_eq('payload in memory', V.mem(sget(V, h, 'bufaddr'), n, 'reading the payload'), payload)

def uscsi_done(V, h, status, reason, rqstatus, data, sense):
    if data is not None: V.poke(sget(V, h, 'bufaddr'), data, 'the data transfer')
    V.poke(sget(V, h, 'rqbuf'), sense, 'the sense transfer')
    return V.cat(h[:4], V.to_bytes(status, reason), h[6:32], V.bytes('resid', 8), h[40:42], V.to_bytes(rqstatus), V.bytes('rqresid', 1), h[44:])

def sol():
    import infi.asi.solaris
    return infi.asi.solaris

@family('C22', KINDS, targets=TS)
def uscsi_round_trip(V, kind):
    """the request describes exactly the command, with pointers to live memory; every combination of statuses the driver fills in is
    reported as the error it is, or, when all are good, as the device's data"""
    stub_texts(V)
    cmd, cdb, n, payload = scsi_command(V, kind)
    timeout = V.int('timeout', 0, (1 << 15) - 1)
    data, expected = answer(V, kind, n)
    sense, sl = sense_bytes(V)
    status, reason, rqstatus = V.int('status', 0, 255), V.int('reason', 0, 255), V.int('rqstatus', 0, 255)
    def on_ioctl(h):
        check_uscsi(V, h, kind, cdb, n, payload, timeout)
        return uscsi_done(V, h, status, reason, rqstatus, data, sense)
    calls = solaris_env(V, on_ioctl)
    io = Fd(V)
    ex = sol().SolarisCommandExecuter(io, timeout=timeout)
    st, r = V.call(lambda: drive(ex.call(cmd), lambda x: x))
    V.check('one USCSICMD ioctl on the device', len(calls) == 1 and V.eq(calls[0][0], io.fd) and calls[0][1] == USCSICMD)
    if V.eq(status, 2):
        V.cover('check condition')
        check_sense(V, st, r, sense, sl)
    elif V.Or(status != 0, rqstatus != 0):
        V.cover('error')
        check_error(V, st, r, status)
    else:
        V.cover('good')
        check_good(V, st, r, kind, expected)
    V.check('the executer is idle again', ex.is_queue_empty())

@contract('C22', targets=TS)
def uscsi_defaults(V):
    """without a timeout from the caller, 30 seconds"""
    calls = solaris_env(V, lambda h: [V.check('30 seconds', V.eq(sget(V, h, 'timeout'), 30)), h][1])
    ex = sol().SolarisCommandExecuter(Fd(V))
    V.check('no data', drive(ex.call(asi().SCSIReadCommand(b'\0' * 6, 0)), lambda x: x) is None)

@family('C22', [('status %02xh' % s, s) for s in (8, 0x18, 0x28)], targets=('SolarisCommandExecuter._handle_raw_response',))
def uscsi_reason(V, status):
    """the error of a failed command tells the reason the driver gives: different reasons are told apart"""
    texts = []
    for reason in (0, 1, 2, 3, 4, 5, 0xff):
        solaris_env(V, lambda h: uscsi_done(V, h, status, reason, 0, None, b''))
        ex = sol().SolarisCommandExecuter(Fd(V))
        st, r = V.call(lambda: drive(ex.call(asi().SCSIReadCommand(b'\0' * 6, 0)), lambda x: x))
        V.check('reported as an error', st == 'exc' and isinstance(r, errors().AsiException))
        texts.append(str(r))
    V.check('the reasons are told apart', len(set(texts)) == len(texts))

@contract('C22', targets=TS)
def uscsi_fails(V):
    """an ioctl that fails is the caller's error, unchanged, and the executer is idle again"""
    err = os_failure(V)
    cmd, cdb, n, payload = scsi_command(V, V.choice('kind', ['in', 'out']))
    calls = solaris_env(V, Once(err, lambda h: uscsi_done(V, h, 0, 0, 0, None, b'')))
    ex = sol().SolarisCommandExecuter(Fd(V))
    st, r = V.call(lambda: drive(ex.call(cmd), lambda x: x))
    V.check('the error is raised', st == 'exc' and r is err)
    V.check('the command is not sent again', len(calls) == 1)
    V.check('the executer is idle again', ex.is_queue_empty())
    solaris_env(V, lambda h: uscsi_done(V, h, 0, 0, 0, None, b''))
    st, r = V.call(lambda: drive(ex.call(cmd), lambda x: x))
    V.check('the next command works', st == 'ok')

@family('C22', MANY, targets=TS)
def uscsi_many(V, together):
    """several commands given to one executer: each is sent once, in order, and is told its own outcome, once"""
    def setup(serve):
        def on_ioctl(h):
            return serve(lambda kind, cdb, n, payload: check_uscsi(V, h, kind, cdb, n, payload, 30), lambda status, data, sense: uscsi_done(V, h, status, 0, 0, data, sense))
        solaris_env(V, on_ioctl)
    many(V, together, setup, lambda size: sol().SolarisCommandExecuter(Fd(V), max_queue_size=size))

# ---------------------------------------------------------------- AIX: struct sc_passthru, LP64, native byte order
PASS = dict(version=(0, 2), status_validity=(2, 1), scsi_bus_status=(3, 1), adap_status_type=(4, 1), adapter_status=(5, 1), adap_set_flags=(6, 1),
            add_device_status=(7, 1), adap_q_status=(8, 1), q_tag_msg=(9, 1), flags=(10, 1), devflags=(11, 1), q_flags=(12, 1), command_length=(14, 2),
            einval_arg=(16, 2), autosense_length=(18, 2), timeout_value=(20, 4), data_length=(24, 8), scsi_id=(32, 8), lun_id=(40, 8), buffer=(48, 8),
            autosense_buffer_ptr=(56, 8), scsi_cdb=(64, 64), world_wide_name=(128, 8), node_name=(136, 8), variable_cdb_length=(144, 4),
            variable_cdb_ptr=(152, 8), residual=(160, 8))
PASS_SIZE, DK_PASSTHRU = 168, 23
TA = ('sc_passthru.create', 'sc_passthru.init_sense_buffer', 'sc_passthru.init_command_buffer', 'sc_passthru.set_data_buffer', 'sc_passthru.from_string', 'get_ioctl_function',
      'AixCommandExecuter._os_prepare_to_send', 'AixCommandExecuter._os_send', 'AixCommandExecuter._os_receive', 'AixCommandExecuter._handle_raw_response')
aget = layout(PASS)
FUNCTIONS = [('fcntl', 'fcntl'), ('libc', 'libc')]
CASES = [('%s, %s' % (k[0], f[0]), k[1], f[1]) for k in KINDS for f in FUNCTIONS]

def aix_env(V, how, on_ioctl, fails):
    """the ioctl of Python (raises on failure) or of the C library loaded with ctypes (returns -1)"""
    calls = []
    def kernel(fd, request, addr):
        calls.append((fd, request))
        on_ioctl(addr, V.mem(addr, PASS_SIZE, 'reading sc_passthru'))
    def ioctl(fd, request, arg=0, mutate_flag=True):
        kernel(fd, request, arg)
        if fails is True: raise IOError(5, 'Input/output error')
        if fails: raise fails
        return 0
    class Function(object):
        """a ctypes function object"""
        errcheck = restype = argtypes = None
        def __call__(self, fd, request, arg):
            kernel(fd, request, arg)
            r = -1 if fails else 0
            return r if self.errcheck is None else self.errcheck(r, self, (fd, request, arg))
    class Libc(object): ioctl = Function()
    V.patch('fcntl', 'ioctl', ioctl)
    if how == 'libc': V.patch('ctypes', 'CDLL', lambda *a, **k: Libc())
    return calls

def check_pass(V, h, kind, cdb, n, payload, timeout):
    V.check('version', V.eq(aget(V, h, 'version'), 2))
    V.check('data is read exactly by data-in commands', V.eq(aget(V, h, 'flags'), 1 if kind == 'in' else 0))
    V.check('the device queue is not quiesced', V.eq(aget(V, h, 'devflags'), 1))
    V.check('timeout in seconds', V.eq(aget(V, h, 'timeout_value'), timeout))
    k = V.blen(cdb)
    V.check('command length', V.eq(aget(V, h, 'command_length'), k))
    V.check_eq('command bytes', h[64:64 + k], cdb)
    V.check_eq('the rest of the command field is zero', h[64 + k:128], V.zeros(64 - k))
    V.check('transfer length', V.eq(aget(V, h, 'data_length'), n))
    V.check('room for sense data', aget(V, h, 'autosense_length') >= 96)
    for f in ('q_flags', 'variable_cdb_length', 'variable_cdb_ptr'): V.check('%s is zero' % f, V.eq(aget(V, h, f), 0))
    if kind == 'out' and n > 0: V.check_eq('payload in memory', V.mem(aget(V, h, 'buffer'), n, 'reading the payload'), payload)

def pass_done(V, addr, h, validity, status, adapter, einval, data, sense):
    if data is not None: V.poke(aget(V, h, 'buffer'), data, 'the data transfer')
    V.poke(aget(V, h, 'autosense_buffer_ptr'), sense, 'the sense transfer')
    V.poke(addr + 2, V.cat(V.to_bytes(validity, status, V.int('adapter_type', 0, 255), adapter), V.bytes('flags', 3)))
    V.poke(addr + 16, V.le(einval, 2))
    V.poke(addr + 160, V.bytes('residual', 8))

def aix():
    import infi.asi.aix
    return infi.asi.aix

def aix_case(V, kind, how, fails, k):
    m = aix()
    stub_texts(V, 'infi.asi.aix')
    cmd, cdb, n, payload = scsi_command(V, kind, cdb=V.bytes('cdb', k))
    timeout = V.int('timeout', 0, (1 << 32) - 1)
    data, expected = answer(V, kind, n)
    sense, sl = sense_bytes(V)
    validity, status, adapter, einval = V.int('status_validity', 0, 255), V.int('scsi_bus_status', 0, 255), V.int('adapter_status', 0, 255), V.int('einval', 0, 0xffff)
    def on_ioctl(addr, h):
        check_pass(V, h, kind, cdb, n, payload, timeout)
        pass_done(V, addr, h, validity, status, adapter, einval, data, sense)
    calls = aix_env(V, how, on_ioctl, fails)
    io = Fd(V)
    ex = m.AixCommandExecuter(io, timeout=timeout)
    st, r = V.call(lambda: drive(ex.call(cmd), lambda x: x))
    V.check('one DK_PASSTHRU ioctl on the device', len(calls) == 1 and V.eq(calls[0][0], io.fd) and calls[0][1] == DK_PASSTHRU)
    V.check('the executer is idle again', ex.is_queue_empty())
    e = errors()
    scsi = (status // 2) % 16
    if fails and (einval != 0 or validity == 0):
        V.cover('refused by the driver')
        V.check('a refused request is reported as an operating system error', st == 'exc' and isinstance(r, e.AsiOSError))
    elif validity == 1 and scsi == 1:
        V.cover('check condition')
        check_sense(V, st, r, sense, sl)
    elif V.Or(validity > 1, V.And(validity == 1, scsi != 0)):
        V.cover('error')
        check_error(V, st, r, V.ite(validity == 1, status, 0))
    elif V.eq(validity, 0):
        V.cover('good')
        check_good(V, st, r, kind, expected)

@family('C23', CASES, targets=TA)
def passthru_round_trip(V, kind, how):
    """the request describes exactly the command, with pointers to live memory; every combination of statuses the driver fills in is
    reported as the error it is, or, when none is, as the device's data"""
    aix_case(V, kind, how, False, V.choice('cdb_length', [6, 10, 12, 16, 32, 64]))

@family('C23', CASES, targets=TA)
def passthru_refused(V, kind, how):
    """a request the driver refuses is reported as an error whichever way the C library tells so: it never looks like data"""
    aix_case(V, kind, how, True, 16)

@family('C23', MANY, targets=TA)
def passthru_many(V, together):
    """several commands given to one executer: each is sent once, in order, and is told its own outcome, once"""
    def setup(serve):
        def on_ioctl(addr, h):
            serve(lambda kind, cdb, n, payload: check_pass(V, h, kind, cdb, n, payload, 30), lambda status, data, sense: pass_done(V, addr, h, 1 if status else 0, status, 0, 0, data, sense))
        aix_env(V, 'fcntl', on_ioctl, False)
    stub_texts(V, 'infi.asi.aix')
    many(V, together, setup, lambda size: aix().AixCommandExecuter(Fd(V), max_queue_size=size))

AIX_VALIDITY = {0: '', 1: 'SC_SCSI_ERROR', 2: 'SC_ADAPTER_ERROR', 3: ''}
AIX_ADAPTER = dict(enumerate(['SCSI_HOST_IO_BUS_ERR', 'SCSI_TRANSPORT_FAULT', 'SCSI_CMD_TIMEOUT', 'SCSI_NO_DEVICE_RESPONSE', 'SCSI_ADAPTER_HDW_FAILURE', 'SCSI_ADAPTER_SFW_FAILURE',
    'SCSI_WW_NAME_CHANGE', 'SCSI_FUSE_OR_TERMINAL_PWR', 'SCSI_TRANSPORT_RESET', 'SCSI_TRANSPORT_BUSY', 'SCSI_TRANSPORT_DEAD', 'SCSI_VERIFY_DEVICE', 'SCSI_TRANSPORT_MIGRATED',
    'SCSI_ERROR_NO_RETRY', 'SCSI_ERROR_DELAY_LOG'], 1))
AIX_INVALID = {1: 'VERS', 9: 'Q_TAG_MSG', 10: 'FLAGS', 11: 'DEVFLAGS', 12: 'Q_FLAGS', 13: 'CDB_LEN', 15: 'AS_LEN', 16: 'CDB', 17: 'TO', 18: 'D_LEN', 19: 'SID', 20: 'LUN',
               21: 'BUFF', 22: 'AS_BUFF', 23: 'VAR_CDB_LEN', 24: 'VAR_CDB'}

def aix_told(V, how, validity, status, adapter, einval, fails):
    def on_ioctl(addr, h): pass_done(V, addr, h, validity, status, adapter, einval, None, b'')
    aix_env(V, how, on_ioctl, fails)
    ex = aix().AixCommandExecuter(Fd(V))
    st, r = V.call(lambda: drive(ex.call(asi().SCSIReadCommand(b'\0' * 6, 0)), lambda x: x))
    V.check('reported as an error', st == 'exc' and isinstance(r, errors().AsiException))
    return str(r)

@contract('C23', targets=TA)
def passthru_fails(V):
    """a call that fails before the driver looked at it is reported as an operating system error, whatever its number; it is not made again"""
    m = aix()
    cmd, cdb, n, payload = scsi_command(V, V.choice('kind', ['in', 'out']), cdb=V.bytes('cdb', 16))
    calls = aix_env(V, 'fcntl', lambda addr, h: None, os_failure(V))
    ex = m.AixCommandExecuter(Fd(V))
    st, r = V.call(lambda: drive(ex.call(cmd), lambda x: x))
    V.check('reported as an operating system error', st == 'exc' and isinstance(r, errors().AsiOSError))
    V.check('the call is made once', len(calls) == 1)
    V.check('the executer is idle again', ex.is_queue_empty())

@contract('C23', targets=TA)
def passthru_names(V):
    """the error of a failed command names each status the driver filled in, as its header names it"""
    validity, adapter = V.choice('validity', [1, 2]), V.choice('adapter_status', sorted(AIX_ADAPTER))
    status = V.choice('scsi_bus_status', [s for s in sorted(SCSI_STATUS) if not s & 2 and s < 0x1f and (s or validity == 2)])
    t = aix_told(V, 'returns -1', validity, status, adapter, 0, False)
    V.check('names the kind of error', AIX_VALIDITY[validity] + ' 0x%02x' % validity in t)
    V.check('names the SCSI status', SCSI_STATUS[status] + ' 0x%02x' % status in t)
    V.check('names the adapter status', AIX_ADAPTER[adapter] + ' 0x%02x' % adapter in t)

@family('C23', [(x, x) for x in ('raises', 'returns -1')], targets=TA)
def passthru_names_invalid(V, how):
    """the error of a request the driver refuses names the argument that it says is invalid"""
    k = V.choice('einval', sorted(AIX_INVALID))
    V.check('names the argument', 'SC_PASSTHRU_INV_%s 0x%02x' % (AIX_INVALID[k], k) in aix_told(V, how, 0, 0, 0, k, True))
