"""C25: device handles (opening, closing, waiting for responses); C26: the choice of the platform's implementation."""
import os as real_os
from contracts._transport import asi, errors, drive, os_failure
from contracts._win import win, Windows
from engine.registry import contract, family

PLATFORMS = {'linux': 'linux-ubuntu-focal-x64', 'solaris': 'solaris-11-sparc', 'aix': 'aix-7.1-ppc64', 'windows': 'windows-x64'}
FLAGS = {'linux': real_os.O_RDWR, 'aix': real_os.O_RDWR, 'solaris': real_os.O_RDWR | real_os.O_NONBLOCK}

PATHS = ['/dev/device', 'device', './device/', '/dev//x/../device', '/dev/stdin', u'/dev/\xe9 0', '/dev/sda1', '/dev/sg0', '~/device', '$HOME', 'a' * 300, ' ', u'\\\\.\\PHYSICALDRIVE0']

# what infi.os_info.get_platform_string says
STRINGS = {'linux': ['linux-ubuntu-focal-x64', 'linux-redhat-7-x86', 'linux-suse-12-ppc64le', 'linux', 'linux-windows-solaris-aix'], 'solaris': ['solaris-11-sparc', 'solaris-10-x64', 'solaris'],
           'aix': ['aix-7.1-ppc64', 'aix-6.1-powerpc', 'aix'], 'windows': ['windows-x64', 'windows-x86', 'windows']}

def on(V, platform): V.patch('infi.os_info', 'get_platform_string', lambda *a, **k: PLATFORMS.get(platform, platform))
def executers():
    import infi.asi.executers as m
    return m
def load():
    """modules the code imports when it runs: imported before the system calls are replaced"""
    import infi.asi.unix, infi.asi.linux, infi.asi.solaris, infi.asi.aix, infi.os_info, infi.asi.executers
    win()

class System(object):
    """open files of the process"""
    def __init__(self, V):
        load()
        self.V, self.log, self.n = V, [], 0
        V.patch('os', 'open', self.open)
        V.patch('os', 'close', self.close)
    fails = None
    def open(self, path, flags, *a, **k):
        self.log.append(('open', path, flags))
        if self.fails == 'open' and len(self.log) == 1: raise self.failure
        self.n += 1
        return 70000 + self.n
    def close(self, fd):
        self.log.append(('close', fd))
        if self.fails == 'close': raise OSError(5, 'i/o error')

class Body(Exception): pass
BODIES = [Body, StopIteration, RuntimeError, lambda: OSError(5, 'i/o error'), lambda: OSError(9, 'bad file descriptor'), lambda: errors().AsiOSError('failed'),
          lambda: errors().AsiCheckConditionError(b'', None), AssertionError, NotImplementedError]
CONTEXTS = [('linux_sg', 'linux', 'LinuxCommandExecuter'), ('linux_dm', 'linux', 'LinuxIoctlCommandExecuter'), ('solaris', 'solaris', 'SolarisCommandExecuter'), ('aix', 'aix', 'AixCommandExecuter')]

@family('C25', [(n, n, p, c) for n, p, c in CONTEXTS], targets=lambda n, p, c: ('executers.' + n, 'create_os_file', 'UnixFile.close', 'UnixFile.__init__'))
def device_context(V, name, platform, cls):
    """the device is opened once, for reading and writing; whatever happens to the commands run on it, it is closed exactly once, on the way out;
    the failure is the caller's, unchanged"""
    s = System(V)
    on(V, platform)
    path = V.choice('path', PATHS)
    what = V.choice('body', ['ends', 'raises', 'is interrupted', 'cannot open'])
    e = V.choice('failure', BODIES)() if what in ('raises', 'is interrupted') else None
    def run():
        with getattr(executers(), name)(path) as x:
            V.check('the executer is the one of the platform', type(x).__name__ == cls)
            V.check('open while in use', s.log == [('open', path, FLAGS[platform])])
            if what == 'raises': raise e
            if what == 'is interrupted': raise KeyboardInterrupt()
            return 'result'
    if what == 'cannot open': s.fails, s.failure = 'open', os_failure(V)
    try: st, r = V.call(run)
    except KeyboardInterrupt as k: st, r = 'exc', k
    if what == 'cannot open':
        V.check('the failure to open is raised', st == 'exc' and r is s.failure)
        V.check('nothing to close', s.log == [('open', path, FLAGS[platform])])
        return
    V.check('closed once', s.log == [('open', path, FLAGS[platform]), ('close', 70001)])
    if what == 'ends': V.check('the result', st == 'ok' and r == 'result')
    elif what == 'raises': V.check('the failure is raised', st == 'exc' and r is e)
    else: V.check('the interruption is passed on', st == 'exc' and isinstance(r, KeyboardInterrupt))

@contract('C25', targets=('executers.windows', 'Win32File.close'))
def windows_context(V):
    """the same on Windows"""
    load()
    w = Windows(V)
    on(V, 'windows')
    e = Body()
    raises = V.bool('raises')
    def run():
        with executers().windows(u'device') as x:
            V.check('the executer is the one of the platform', type(x).__name__ == 'Win32CommandExecuter')
            V.check('open while in use', len(w.opened) == 1 and w.closed == [])
            if raises: raise e
    st, r = V.call(run)
    V.check('closed once', len(w.opened) == 1 and w.closed == [0x44])
    V.check('the failure is raised', (st == 'exc' and r is e) if raises else st == 'ok')

@contract('C25', targets=('executers.linux_sg',))
def no_executer(V):
    """a device for which no executer can be made (here: a timeout on Windows, which has none) is closed, too"""
    load()
    w = Windows(V)
    on(V, 'windows')
    def run():
        with executers().linux_sg(u'device'): pass
    st, r = V.call(run)
    V.check('closed', len(w.opened) == 1 and w.closed == [0x44])

@contract('C25', targets=('executers.linux_sg', 'executers.linux_dm'))
def linux_timeouts(V):
    """commands on a SCSI generic device have 3 seconds, those on other Linux devices the default 30"""
    s = System(V)
    on(V, 'linux')
    m = executers()
    with m.linux_sg('/dev/sg0') as x: V.check('3 seconds', V.eq(V.internal(x, 'timeout').timeout, 3000))
    with m.linux_dm('/dev/dm-0') as x: V.check('30 seconds', V.eq(V.internal(x, 'timeout').timeout, 30000))

class Clock(object):
    """a clock that never goes back; sleeping lets it go on. The device becomes readable at any time, or never"""
    def __init__(self, V, fd, size):
        load()
        self.V, self.fd, self.size = V, fd, size
        self.now, self.polls, self.reads, self.slept, self.readable = V.int('now', 0, 1 << 40), 0, [], 0, False
        self.ever = False
        self.last = None
        self.seen, self.limit = [], None
        V.patch('time', 'time', self.time)
        V.patch('time', 'monotonic', self.time, True)
        V.patch('time', 'sleep', self.sleep)
        V.patch('select', 'select', self.select)
        V.patch('os', 'read', self.read)
        self.response = V.bytes('response', V.length('returned', 0, 1 << 20))
    def some(self, name):
        return self.V.ite(self.V.choice(name + '_long', [False, True]), self.V.int(name, 0, 1 << 20), self.V.int(name + '_short', 0, 2))
    def time(self):
        self.now = self.now + self.some('passed')
        self.seen.append(self.now)
        return self.now
    def sleep(self, n):
        self.V.check('sleeps between polls', n > 0)
        if self.limit is not None and self.seen:
            self.V.check('no more waiting once the timeout has been seen to be over', self.seen[-1] <= self.seen[0] + self.limit)
        self.now = self.now + 1 + self.some('slept')
    def select(self, r, w, x, timeout=None):
        V = self.V
        V.check('asks whether this device is readable', len(r) == 1 and V.eq(r[0], self.fd) and not w and not x)
        self.polls += 1
        self.readable = V.bool('readable')
        if self.readable: self.ever = True
        return (list(r), [], []) if self.readable else ([], [], [])
    def read(self, fd, n):
        V = self.V
        V.check('read only when readable', self.readable)
        V.check('reads from this device, the size asked for', V.And(V.eq(fd, self.fd), V.eq(n, self.size)))
        self.reads.append(1)
        return self.response

@contract('C25', targets=('UnixFile.read', 'UnixFile.__init__'))
def unix_read(V):
    """reading waits until the device is readable and then reads from it once; when that takes longer than the timeout, the caller is told
    by an IOError, not earlier, and nothing is read"""
    fd, size = V.int('fd', 0, 1 << 20), V.int('size', 0, 1 << 20)
    limit = V.ite(V.bool('poll'), 0, V.int('timeout', 0, 1000))
    c = Clock(V, fd, size)
    import infi.asi.unix as m
    f = m.UnixFile(fd, limit)
    c.limit = limit
    start = c.now
    def again(e):
        c.now = V.int('later', 0, 1 << 41)
        V.assume(c.now >= start)
        c.readable = c.ever = False
        c.started = c.seen[0]
        if V.bool('first'): V.assume(c.now == c.seen[0])
        else:
            V.assume(c.now <= c.seen[0] + limit)
            c.seen = c.seen + [c.now]
    V.loop('UnixFile.read', lambda e: [('nothing was read', c.reads == []), ('the device was not readable', not c.ever), ('within the timeout', c.now <= c.seen[0] + limit)],
           variant=lambda e: c.seen[0] + limit + 1 - c.now, modifies=again)
    V.limit(300)
    st, r = V.call(lambda: f.read(size))
    if st == 'ok':
        V.cover('read')
        V.check('read once', len(c.reads) == 1)
        V.check_eq('what the device returned', r, c.response)
    else:
        V.cover('timeout')
        V.check('the timeout is an IOError', isinstance(r, IOError))
        V.check('nothing was read', c.reads == [])
        V.check('a device that was readable is read, whatever the time', not c.ever)
        V.check('not before the timeout has passed', c.now > c.seen[0] + limit)

@contract('C25', targets=('UnixFile.write', 'UnixFile.close', 'UnixFile.read'))
def unix_write_close(V):
    """writing and closing act on this device once, with the caller's bytes; failures are the caller's, unchanged"""
    load()
    import infi.asi.unix as m
    fd = V.int('fd', 0, 1 << 20)
    data = V.bytes('data', V.length('n', 0, 1 << 20))
    log, fails = [], V.bool('fails')
    e = os_failure(V)
    def write(f, b):
        log.append(('write', f, b))
        if fails and len(log) == 1: raise e
        return 7
    def close(f):
        log.append(('close', f))
        if fails and len(log) == 2: raise e
    V.patch('os', 'write', write)
    V.patch('os', 'close', close)
    f = m.UnixFile(fd)
    st, r = V.call(lambda: f.write(data))
    V.check('written once, to this device', len(log) == 1 and V.eq(log[0][1], fd))
    V.check_eq('the caller\'s bytes', V.raw(log[0][2]), data)
    V.check('outcome of the write', (st == 'exc' and r is e) if fails else (st == 'ok' and r == 7))
    st, r = V.call(f.close)
    V.check('closed once, this device', len(log) == 2 and log[1][0] == 'close' and V.eq(log[1][1], fd))
    V.check('outcome of the close', (st == 'exc' and r is e) if fails else st == 'ok')

@contract('C25', targets=('UnixFile.read',))
def unix_read_fails(V):
    """when the device can be neither waited for nor read, the caller is told so by that very error, and it is not read again"""
    load()
    import infi.asi.unix as m
    fd, e, where = V.int('fd', 0, 1 << 20), os_failure(V), V.choice('where', ['select', 'read'])
    reads, polls = [], []
    def select(r, w, x, timeout=None):
        polls.append(r)
        if where == 'select' and len(polls) == 1: raise e
        return list(r), [], []
    def read(f, n):
        reads.append(f)
        if where == 'read' and len(reads) == 1: raise e
        return b''
    V.patch('time', 'time', lambda: 5)
    V.patch('time', 'monotonic', lambda: 5, True)
    V.patch('time', 'sleep', lambda n: None)
    V.patch('select', 'select', select)
    V.patch('os', 'read', read)
    st, r = V.call(lambda: m.UnixFile(fd).read(88))
    V.check('the error is raised', st == 'exc' and r is e)
    V.check('read at most once', len(reads) == (1 if where == 'read' else 0))

# ---------------------------------------------------------------- C26
EXECUTERS = {'linux': 'LinuxCommandExecuter', 'solaris': 'SolarisCommandExecuter', 'aix': 'AixCommandExecuter', 'windows': 'Win32CommandExecuter'}
DEFAULTS = {'linux': (15, 30000), 'solaris': (1, 30), 'aix': (1, 30), 'windows': (15, None)}

@family('C26', [(p, p) for p in sorted(EXECUTERS)], targets=('create_platform_command_executer', 'get_platform_name'))
def executer_for(V, platform):
    """each supported platform gets its own executer, on the caller's file and with the caller's options"""
    load()
    on(V, V.choice('distribution', STRINGS[platform]))
    io = object()
    size = V.int('size', 1, 1 << 20)
    name = EXECUTERS[platform]
    if V.bool('options'):
        t = V.int('timeout', 1, 1 << 20)
        kw = {'max_queue_size': size} if platform == 'windows' else {'max_queue_size': size, 'timeout': t}
        x = asi().create_platform_command_executer(io, **kw)
        V.internal(x, 'max_queue_size', 'io')
        V.check('the options', V.And(V.eq(x.max_queue_size, size), True if platform == 'windows' else V.eq(x.timeout, t)))
    else:
        x = asi().create_platform_command_executer(io)
        V.internal(x, 'max_queue_size', 'io')
        V.check('the defaults', x.max_queue_size == DEFAULTS[platform][0] and (platform == 'windows' or x.timeout == DEFAULTS[platform][1]))
    V.check('the executer of the platform', type(x).__name__ == name)
    V.check('on the caller\'s file', x.io is io)

@family('C26', [(p, p) for p in sorted(FLAGS)], targets=('create_os_file', 'get_platform_name'))
def file_for(V, platform):
    """each Unix opens the caller's path for reading and writing (Solaris without blocking), once"""
    s = System(V)
    on(V, V.choice('distribution', STRINGS[platform]))
    path = V.choice('path', PATHS)
    f = asi().create_os_file(path)
    V.check('opened once', s.log == [('open', path, FLAGS[platform])])
    V.check('the file of the platform', type(f).__name__ == 'UnixFile' and f.fd == 70001)

@contract('C26', targets=('create_os_file', 'create_async_os_file', 'create_os_async_reactor', 'get_platform_name'))
def windows_files(V):
    """Windows has files, overlapped files and a reactor"""
    load()
    w = Windows(V)
    on(V, V.choice('distribution', STRINGS['windows']))
    m = asi()
    V.check('file', type(m.create_os_file(u'device')).__name__ == 'Win32File')
    V.check('overlapped file', type(m.create_async_os_file(u'device')).__name__ == 'Win32AsyncFile')
    V.check('opened', [(x[0], x[5]) for x in w.opened] == [(u'device', 0), (u'device', 0x40000000)])
    V.check('reactor', type(m.create_os_async_reactor()).__name__ == 'Win32AsyncReactor')

@family('C26', [(f, f) for f in ('create_platform_command_executer', 'create_os_file', 'create_async_os_file', 'create_os_async_reactor')], targets=lambda f: (f,))
def unsupported(V, f):
    """a platform that is not supported is refused with an AsiException that names it, and nothing is opened"""
    s = System(V)
    names = ['darwin-20', 'freebsd-13-x64', 'windowsce-1', 'linux2-x', 'hpux', '', 'Linux-ubuntu']
    if f in ('create_async_os_file', 'create_os_async_reactor'): names += ['linux-ubuntu', 'solaris-11', 'aix-7.1']
    name = V.choice('platform', names)
    on(V, name)
    fn = getattr(asi(), f)
    st, r = V.call(lambda: fn() if f == 'create_os_async_reactor' else fn('device'))
    V.check('refused', st == 'exc' and isinstance(r, errors().AsiException))
    V.check('by name', name.split('-')[0] in str(r))
    V.check('nothing is opened', s.log == [])
