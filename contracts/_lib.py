"""Shared helpers for contracts (both sides)."""
import types

class Sentinel(object):
    """what the fake executer's call() hands to the command coroutine; stands for 'run this SCSI command'"""
    def __init__(self, command): self.command = command

class Executer(object):
    """Contract of a command executer as seen by the commands: call(scsi_command) is a coroutine step whose value
    is the device's response; anything else is not part of the interface used by commands."""
    def __init__(self): self.commands = []
    def call(self, command):
        self.commands.append(command)
        return Sentinel(command)

class TransportError(Exception):
    pass

class Leaves(BaseException):
    """a failure that is no Exception (KeyboardInterrupt and the like)"""

def ended(V, f):
    """V.call, for failures of any kind"""
    try: return V.call(f)
    except Leaves as e: return 'exc', e

def drive(gen, respond):
    """Reference semantics of a command coroutine: yielded generators are run to completion and replaced by their
    last value, every other yielded value is passed through `respond`; the last value is the result.
    `respond` may raise: the exception is thrown in at the yield."""
    last = None
    first = True
    exc = None
    while True:
        try:
            if exc is not None:
                e, exc = exc, None
                x = gen.throw(e)
            else:
                x = gen.send(None if first else last)
            first = False
        except StopIteration:
            return last
        if isinstance(x, types.GeneratorType):
            try:
                last = drive(x, respond)
            except (Exception, Leaves) as e:
                exc = e
            continue
        try:
            last = respond(x)
        except (Exception, Leaves) as e:
            exc = e

def run(V, command, response=None, fail=None):
    """run command.execute(); returns (list of SCSI commands sent, result). `response`: bytes or callable(cmd)->bytes"""
    ex = Executer()
    def respond(x):
        if isinstance(x, Sentinel):
            if fail is not None: raise fail
            return response(x.command) if callable(response) else response
        return x
    r = drive(command.execute(ex), respond)
    return ex.commands, r

def kind(cmd):
    from infi.asi import SCSIReadCommand, SCSIWriteCommand
    if isinstance(cmd, SCSIReadCommand): return 'read'
    if isinstance(cmd, SCSIWriteCommand): return 'write'
    return 'other'

def check_read(V, cmds, cdb, length):
    """exactly one data-in command was sent, with this CDB and this transfer size"""
    V.check('exactly one SCSI command is sent', len(cmds) == 1)
    c = cmds[0]
    V.check('the command is a data-in (read) command', kind(c) == 'read')
    V.check_eq('CDB bytes', c.command, cdb)
    V.check('requested response size', V.eq(c.max_response_length, length))

def check_write(V, cmds, cdb, data):
    V.check('exactly one SCSI command is sent', len(cmds) == 1)
    c = cmds[0]
    V.check('the command is a data-out (write) command', kind(c) == 'write')
    V.check_eq('CDB bytes', c.command, cdb)
    V.check_eq('data-out payload', c.data, data)

def in_range(V, v, bits): return V.And(v >= 0, v < (1 << bits))

def attempt(V, build, response):
    """construct and run a command: ('ok', cmds, result, command) or ('exc', cmds_sent, exception, None)"""
    ex = Executer()
    def respond(x):
        if isinstance(x, Sentinel): return response(x.command) if callable(response) else response
        return x
    st, c = V.call(build)
    if st == 'exc': return 'exc', ex.commands, c, None
    st, r = V.call(lambda: drive(c.execute(ex), respond))
    return st, ex.commands, r, c

# ---- decoding
def u(V, b, off, n=1):
    v = 0
    for i in range(n): v = v * 256 + b[off + i]
    return v
def s(V, b, off, n=1):
    v = u(V, b, off, n)
    return v - (1 << (8 * n)) * (b[off] // 128)
def bits(V, b, off, lo, w=1): return (b[off] // (1 << lo)) % (1 << w)

def check_fields(V, obj, spec, b, prefix=''):
    """spec: {attribute path: ('u', offset, size) | ('s', offset, size) | ('b', offset, low bit, width)}"""
    for path in sorted(spec):
        k = spec[path]
        o = obj
        for a in path.split('.'): o = getattr(o, a)
        want = u(V, b, *k[1:]) if k[0] == 'u' else s(V, b, *k[1:]) if k[0] == 's' else bits(V, b, *k[1:])
        V.check('%s%s decodes bytes of the response' % (prefix, path), V.eq(o, want))

def block_size(V, *common):
    """some usual block sizes, and any other: buffers are then a product of two unknowns long"""
    bs = V.choice('block_size', [512, 520, 4096] + list(common) + [None])
    return bs if bs is not None else V.int('any_block_size', 1, (1 << 32) if V.symbolic else 5000)
