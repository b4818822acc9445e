from engine.registry import contract, family
from ._lib import *
from .c_read import cdb_rw

WRITES = [
 ('write6', 'Write6Command', 6, 0x0A, 21, 1, 256), ('write10', 'Write10Command', 10, 0x2A, 32, 0, 65535),
 ('write12', 'Write12Command', 12, 0xAA, 32, 1, 2 ** 32 - 1), ('write16', 'Write16Command', 16, 0x8A, 64, 0, 2 ** 32 - 1)]
T = lambda *a: ['infi.asi.cdb.write.%s.__init__' % a[0], 'infi.asi.cdb.write.%s.execute' % a[0]]

@family('C02', WRITES, targets=T)
def write_in_range(V, cls, size, op, lba_bits, lo, hi):
    """requires lba in range, len(buffer)=n*block_size with n in the command's range; ensures one data-out command
    whose CDB encodes (opcode, lba, n) exactly (WRITE(6): 256 is sent as 0), other bits zero, and whose payload is the
    caller's buffer unchanged"""
    import infi.asi.cdb.write as m
    lba = V.int('lba', 0, (1 << lba_bits) - 1)
    bs = block_size(V, 1)
    n = V.length('blocks', lo, hi if V.symbolic else min(hi, 300))
    buf = V.bytes('buffer', n * bs)
    V.hint('concrete-cap')
    cmds, r = run(V, getattr(m, cls)(lba, buf, bs) if bs != 512 else getattr(m, cls)(lba, buf), V.bytes('response', V.length('response_len')))
    b = n
    if size == 6 and n == 256: b = 0
    check_write(V, cmds, cdb_rw(V, size, op, lba, b), buf)
    V.cover('runs')

@family('C02', WRITES, targets=T)
def write_result(V, cls, size, op, lba_bits, lo, hi):
    """the value of the command is the device's response unchanged"""
    import infi.asi.cdb.write as m
    resp = V.bytes('response', V.length('response_len'))
    cmds, r = run(V, getattr(m, cls)(V.int('lba', 0, (1 << lba_bits) - 1), V.bytes('buffer', 1024)), resp)
    V.check_eq('the result is the response', r, resp)

@family('C02', WRITES, targets=T)
def write_any_arguments(V, cls, size, op, lba_bits, lo, hi):
    """for all integer lba, buffer lengths and block sizes >= 1: if anything is sent then lba was in range, the buffer was
    a whole number of blocks and the number of blocks fits the command; such arguments are never refused"""
    import infi.asi.cdb.write as m
    lba = V.int('lba', -(1 << 70), 1 << 70)
    bs = block_size(V, 1)
    ln = V.length('buffer_len', 0, (1 << 70) if V.symbolic else 300000)
    buf = V.bytes('buffer', ln)
    st, cmds, r, c = attempt(V, lambda: getattr(m, cls)(lba, buf, bs), b'')
    ok = V.And(in_range(V, lba, lba_bits), ln % bs == 0, ln // bs >= lo, ln // bs <= hi)
    if cmds:
        V.check('nothing is sent for out-of-range arguments', ok)
    else:
        V.check('in-range arguments are accepted', V.Not(ok))
        V.check('refusal is an exception', st == 'exc')

@family('C02', [('write10', 'Write10Command', 10, 0x2A), ('write12', 'Write12Command', 12, 0xAA), ('write16', 'Write16Command', 16, 0x8A)],
        targets=lambda *a: ['infi.asi.cdb.write.%s' % a[0]])
def write_flags(V, cls, size, op):
    """dpo/fua/fua_nv/wrprotect/group/control options land in their own bits"""
    import infi.asi.cdb.write as m
    from infi.asi.cdb.control import Control
    lba = V.int('lba', 0, 2 ** 32 - 1)
    buf = V.bytes('buffer', 1024)
    cmd = getattr(m, cls)(lba, buf)
    if V.bool('executed before'): run(V, cmd, b'')
    dpo, fua, nv, p, g = V.int('dpo', 0, 1), V.int('fua', 0, 1), V.int('fua_nv', 0, 1), V.int('wrprotect', 0, 7), V.int('group_number', 0, 31)
    cmd.dpo, cmd.fua, cmd.fua_nv, cmd.wrprotect, cmd.group_number = dpo, fua, nv, p, g
    naca, vs = V.int('naca', 0, 1), V.int('vendor_specific', 0, 3)
    cmd.control = Control(naca=naca, vendor_specific=vs)
    cmds, r = run(V, cmd, b'')
    want = cdb_rw(V, size, op, lba, 2, dpo * 16 + fua * 8 + nv * 2 + p * 32, g)
    check_write(V, cmds, V.cat(want[:size - 1], V.to_bytes(naca * 4 + vs * 64)), buf)
