from engine.registry import contract, family
from ._lib import *

READS = [
 ('read6', 'Read6Command', 21, 8), ('read10', 'Read10Command', 32, 16),
 ('read12', 'Read12Command', 32, 32), ('read16', 'Read16Command', 64, 32)]

def cdb_rw(V, size, op, lba, blocks, b1=0, grp=0):
    if size == 6: return V.to_bytes(op, lba // 65536, *(list(V.be(lba % 65536, 2)) + [blocks % 256, 0]))
    if size == 10: return V.cat(V.to_bytes(op, b1), V.be(lba, 4), V.to_bytes(grp), V.be(blocks, 2), V.zeros(1))
    if size == 12: return V.cat(V.to_bytes(op, b1), V.be(lba, 4), V.be(blocks, 4), V.to_bytes(grp, 0))
    return V.cat(V.to_bytes(op, b1), V.be(lba, 8), V.be(blocks, 4), V.to_bytes(grp, 0))

OP = dict(Read6Command=(6, 0x08), Read10Command=(10, 0x28), Read12Command=(12, 0xA8), Read16Command=(16, 0x88))
T = lambda *a: ['infi.asi.cdb.read.%s.__init__' % a[0], 'infi.asi.cdb.read.%s.execute' % a[0]]

@family('C01', READS, targets=T)
def read_in_range(V, cls, lba_bits, tl_bits):
    """requires 0<=lba<2^n, 0<=blocks<2^m, block_size>=1; ensures one data-in command whose CDB encodes exactly
    (opcode, lba, blocks) with all other bits zero and whose size is blocks*block_size (READ(6): 0 means 256
    blocks), and the result is the device's response unchanged"""
    import infi.asi.cdb.read as m
    lba = V.int('lba', 0, (1 << lba_bits) - 1)
    tl = V.int('blocks', 0, (1 << tl_bits) - 1)
    bs = V.int('block_size', 1, 1 << 24)
    resp = V.bytes('response', V.length('response_len'))
    cmd = getattr(m, cls)(logical_block_address=lba, transfer_length=tl, block_size=bs)
    cmds, r = run(V, cmd, resp)
    size, op = OP[cls]
    n = tl * bs
    if cls == 'Read6Command' and tl == 0: n = 256 * bs
    check_read(V, cmds, cdb_rw(V, size, op, lba, tl), n)
    V.check_eq('the result is the response', r, resp)
    V.cover('runs')

@family('C01', READS, targets=T)
def read_default_block_size(V, cls, lba_bits, tl_bits):
    """without a block size argument blocks are 512 bytes"""
    import infi.asi.cdb.read as m
    lba = V.int('lba', 0, (1 << lba_bits) - 1)
    tl = V.int('blocks', 1, (1 << tl_bits) - 1)
    cmds, r = run(V, getattr(m, cls)(lba, tl), b'')
    size, op = OP[cls]
    check_read(V, cmds, cdb_rw(V, size, op, lba, tl), tl * 512)

@family('C01', READS, targets=T)
def read_any_arguments(V, cls, lba_bits, tl_bits):
    """for all integers: if anything is sent then the arguments were in range (never truncated or wrapped), and
    in-range arguments are never refused"""
    import infi.asi.cdb.read as m
    lba = V.int('lba', -(1 << 70), 1 << 70)
    tl = V.int('blocks', -(1 << 70), 1 << 70)
    st, cmds, r, c = attempt(V, lambda: getattr(m, cls)(lba, tl), b'')
    ok = V.And(in_range(V, lba, lba_bits), in_range(V, tl, tl_bits))
    if cmds: V.check('nothing is sent for out-of-range arguments', ok)
    else:
        V.check('in-range arguments are accepted', V.Not(ok))
        V.check('refusal is an exception', st == 'exc')

@family('C01', [('read10', 'Read10Command', 0xE0, 5), ('read12', 'Read12Command', 0, 0), ('read16', 'Read16Command', 0, 5)],
        targets=lambda *a: ['infi.asi.cdb.read.%s' % a[0]])
def read_flags(V, cls, prot_mask, grp_bits):
    """the dpo/fua/fua_nv/rdprotect/group/control options set on a command land in their own bits and disturb nothing else"""
    import infi.asi.cdb.read as m
    from infi.asi.cdb.control import Control
    lba, tl = V.int('lba', 0, 2 ** 32 - 1), V.int('blocks', 0, 2 ** 16 - 1)
    cmd = getattr(m, cls)(lba, tl)
    if V.bool('executed before'): run(V, cmd, b'')
    dpo, fua = V.int('dpo', 0, 1), V.int('fua', 0, 1)
    cmd.dpo, cmd.fua = dpo, fua
    b1 = dpo * 16 + fua * 8
    if cls != 'Read12Command':
        nv = V.int('fua_nv', 0, 1)
        cmd.fua_nv = nv
        b1 = b1 + nv * 2
    if prot_mask:
        p = V.int('rdprotect', 0, 7)
        cmd.rdprotect = p
        b1 = b1 + p * 32
    g = 0
    if grp_bits:
        g = V.int('group_number', 0, 31)
        cmd.group_number = g
    naca, vs = V.int('naca', 0, 1), V.int('vendor_specific', 0, 3)
    cmd.control = Control(naca=naca, vendor_specific=vs)
    cmds, r = run(V, cmd, b'')
    size, op = OP[cls]
    want = cdb_rw(V, size, op, lba, tl, b1, g)
    want = V.cat(want[:size - 1], V.to_bytes(naca * 4 + vs * 64))
    check_read(V, cmds, want, tl * 512)
