from engine.registry import contract, family
from ._lib import *

WS = [('ws10', 'WriteSame10Command', 10, 0x41, 32, 16), ('ws16', 'WriteSame16Command', 16, 0x93, 64, 32)]
T = lambda *a: ['infi.asi.cdb.write_same.%s.__init__' % a[0], 'infi.asi.cdb.write_same.%s.execute' % a[0]]

def ws_cdb(V, size, op, lba, n, b1=0, g=0, ctl=0):
    if size == 10: return V.cat(V.to_bytes(op, b1), V.be(lba, 4), V.to_bytes(g), V.be(n, 2), V.to_bytes(ctl))
    return V.cat(V.to_bytes(op, b1), V.be(lba, 8), V.be(n, 4), V.to_bytes(g, ctl))

@family('C03', WS, targets=T)
def write_same(V, cls, size, op, lba_bits, n_bits):
    """requires lba and block count in range, buffer a whole number of blocks; ensures one data-out command with exactly
    these values in its CDB and the caller's buffer as payload"""
    import infi.asi.cdb.write_same as m
    lba, n = V.int('lba', 0, (1 << lba_bits) - 1), V.int('blocks', 0, (1 << n_bits) - 1)
    bs = block_size(V)
    buf = V.bytes('buffer', V.length('buffer_blocks', 0, (1 << 32) if V.symbolic else 64) * bs)
    resp = V.bytes('response', V.length('response_len'))
    cmds, r = run(V, getattr(m, cls)(lba, buf, n, bs), resp)
    check_write(V, cmds, ws_cdb(V, size, op, lba, n), buf)
    V.check_eq('the result is the response', r, resp)

@family('C03', WS, targets=T)
def write_same_defaults_and_flags(V, cls, size, op, lba_bits, n_bits):
    """defaults: one block, 512-byte blocks; option bits land where the standard puts them"""
    import infi.asi.cdb.write_same as m
    from infi.asi.cdb.control import Control
    lba = V.int('lba', 0, (1 << lba_bits) - 1)
    buf = V.bytes('buffer', 512)
    cmd = getattr(m, cls)(lba, buf)
    if V.bool('executed before'): run(V, cmd, b'')
    lb, pb, p, g = V.int('lbdata', 0, 1), V.int('pbdata', 0, 1), V.int('wrprotect', 0, 7), V.int('group_number', 0, 31)
    cmd.lbdata, cmd.pbdata, cmd.wrprotect, cmd.group_number = lb, pb, p, g
    b1 = lb * 2 + pb * 4 + p * 32
    if size == 16:
        u = V.int('unmap', 0, 1)
        cmd.unmap = u
        b1 = b1 + u * 8
    naca, vs = V.int('naca', 0, 1), V.int('vendor_specific', 0, 3)
    cmd.control = Control(naca=naca, vendor_specific=vs)
    cmds, r = run(V, cmd, b'')
    check_write(V, cmds, ws_cdb(V, size, op, lba, 1, b1, g, naca * 4 + vs * 64), buf)

@family('C03', WS, targets=T)
def write_same_any_arguments(V, cls, size, op, lba_bits, n_bits):
    """for all integers: sent implies in range and whole blocks; in range implies sent"""
    import infi.asi.cdb.write_same as m
    lba, n = V.int('lba', -(1 << 70), 1 << 70), V.int('blocks', -(1 << 70), 1 << 70)
    bs = block_size(V)
    ln = V.length('buffer_len', 0, (1 << 60) if V.symbolic else 1 << 18)
    st, cmds, r, c = attempt(V, lambda: getattr(m, cls)(lba, V.bytes('buffer', ln), n, bs), b'')
    ok = V.And(in_range(V, lba, lba_bits), in_range(V, n, n_bits), ln % bs == 0)
    if cmds: V.check('nothing is sent for out-of-range arguments', ok)
    else:
        V.check('in-range arguments are accepted', V.Not(ok))
        V.check('refusal is an exception', st == 'exc')

CW = ['infi.asi.cdb.compare_and_write.CompareAndWriteCommand.__init__', 'infi.asi.cdb.compare_and_write.CompareAndWriteCommand.execute']
@contract('C03', targets=CW)
def compare_and_write(V):
    """the 16-byte CDB carries lba at 2-9 and the block count at byte 13, options in their bits, the caller's buffer is the payload"""
    from infi.asi.cdb.compare_and_write import CompareAndWriteCommand
    from infi.asi.cdb.control import Control
    lba, n = V.int('lba', 0, 2 ** 64 - 1), V.int('blocks', 0, 255)
    bs = block_size(V)
    buf = V.bytes('buffer', V.length('buffer_blocks', 0, (1 << 32) if V.symbolic else 64) * bs)
    cmd = CompareAndWriteCommand(lba, buf, n, bs)
    if V.bool('executed before'): run(V, cmd, b'')
    dpo, fua, nv, p, g = V.int('dpo', 0, 1), V.int('fua', 0, 1), V.int('fua_nv', 0, 1), V.int('wrprotect', 0, 7), V.int('group_number', 0, 31)
    cmd.dpo, cmd.fua, cmd.fua_nv, cmd.wrprotect, cmd.group_number = dpo, fua, nv, p, g
    naca, vs = V.int('naca', 0, 1), V.int('vendor_specific', 0, 3)
    cmd.control = Control(naca=naca, vendor_specific=vs)
    resp = V.bytes('response', V.length('response_len'))
    cmds, r = run(V, cmd, resp)
    want = V.cat(V.to_bytes(0x89, dpo * 16 + fua * 8 + nv * 2 + p * 32), V.be(lba, 8), V.zeros(3), V.to_bytes(n, g, naca * 4 + vs * 64))
    check_write(V, cmds, want, buf)
    V.check_eq('the result is the response', r, resp)

@contract('C03', targets=CW)
def compare_and_write_any_arguments(V):
    """for all integers: sent implies in range and whole blocks; in range implies sent"""
    from infi.asi.cdb.compare_and_write import CompareAndWriteCommand
    lba, n = V.int('lba', -(1 << 70), 1 << 70), V.int('blocks', -(1 << 70), 1 << 70)
    bs = block_size(V)
    ln = V.length('buffer_len', 0, (1 << 60) if V.symbolic else 1 << 18)
    st, cmds, r, c = attempt(V, lambda: CompareAndWriteCommand(lba, V.bytes('buffer', ln), n, bs), b'')
    ok = V.And(in_range(V, lba, 64), in_range(V, n, 8), ln % bs == 0)
    if cmds: V.check('nothing is sent for out-of-range arguments', ok)
    else:
        V.check('in-range arguments are accepted', V.Not(ok))
        V.check('refusal is an exception', st == 'exc')

UN = ['infi.asi.cdb.unmap.UnmapCommand.__init__', 'infi.asi.cdb.unmap.UnmapCommand.execute', 'infi.asi.cdb.unmap.UnmapParameterListHeader.__init__', 'infi.asi.cdb.unmap.UnmapParameterListBlock.__init__']
@contract('C03', targets=UN)
def unmap_block(V):
    """every descriptor is lba (8 bytes), block count (4 bytes), 4 reserved zero bytes; out-of-range values are refused"""
    from infi.asi.cdb.unmap import UnmapParameterListBlock
    lba, n = V.int('lba', -(1 << 70), 1 << 70), V.int('blocks', -(1 << 70), 1 << 70)
    st, b = V.call(UnmapParameterListBlock, lba, n)
    ok = V.And(in_range(V, lba, 64), in_range(V, n, 32))
    if st == 'ok':
        V.check('only in-range values are encoded', ok)
        V.check_eq('descriptor', b.datagram, V.cat(V.be(lba, 8), V.be(n, 4), V.zeros(4)))
    else: V.check('in-range values are accepted', V.Not(ok))

@family('C03', [(str(k), k) for k in (0, 1, 2, 3, 5)], targets=UN)
def unmap_command(V, k):
    """for k ranges: one data-out command; parameter list length = 8+16k; UNMAP data length = 6+16k (bytes that follow the field);
    block descriptor data length = 16k; the descriptors are the caller's ranges, in order"""
    from infi.asi.cdb.unmap import UnmapCommand
    rs = [(V.int('lba', 0, 2 ** 64 - 1), V.int('blocks', 0, 2 ** 32 - 1)) for i in range(k)]
    resp = V.bytes('response', V.length('response_len'))
    cmds, r = run(V, UnmapCommand(list(rs)), resp)
    L = 16 * k
    data = V.cat(V.be(L + 6, 2), V.be(L, 2), V.zeros(4), *[V.cat(V.be(l, 8), V.be(n, 4), V.zeros(4)) for l, n in rs])
    check_write(V, cmds, V.cat(V.to_bytes(0x42), V.zeros(6), V.be(L + 8, 2), V.zeros(1)), data)
    V.check_eq('the result is the response', r, resp)

@contract('C03', targets=UN)
def unmap_list(V):
    """for any number of ranges: as for a fixed number, the descriptor at an arbitrary position being the caller's range at that
    position; a list that the length fields cannot describe is refused"""
    from infi.asi.cdb.unmap import UnmapCommand
    rs = V.seq('ranges', 0, 5000, lambda i: (V.int('lba', 0, 2 ** 64 - 1), V.int('blocks', 0, 2 ** 32 - 1)))
    k = V.len(rs)
    j = V.int('position', 0, 4999)
    kept = rs if V.symbolic else list(rs)
    resp = V.bytes('response', V.length('response_len'))
    st, r = V.call(lambda: run(V, UnmapCommand(rs), resp))
    L = 16 * k
    if st != 'ok':
        V.check('a list that fits is accepted', L + 8 > 65535)
        return
    cmds, r = r
    V.check('one command', len(cmds) == 1)
    V.check_eq('command', cmds[0].command, V.cat(V.to_bytes(0x42), V.zeros(6), V.be(L + 8, 2), V.zeros(1)))
    data = cmds[0].data
    V.check('length of the parameter list', V.blen(data) == L + 8)
    V.check_eq('header', data[:8], V.cat(V.be(L + 6, 2), V.be(L, 2), V.zeros(4)))
    if j < k:
        lba, n = V.at(kept, j)
        V.check_eq('descriptor at an arbitrary position', data[8 + 16 * j:24 + 16 * j], V.cat(V.be(lba, 8), V.be(n, 4), V.zeros(4)))
    V.check_eq('the result is the response', r, resp)
    if not V.symbolic: V.check('the list of the caller is as it was', rs == kept)

@contract('C03', targets=UN)
def unmap_header(V):
    """for every descriptor list length: the header says how many bytes follow each length field, or refuses when it does not fit"""
    from infi.asi.cdb.unmap import UnmapParameterListHeader
    k = V.int('descriptors', 0, 1 << 20)
    st, h = V.call(UnmapParameterListHeader, k * 16)
    if st == 'ok': V.check_eq('header', h.datagram, V.cat(V.be(k * 16 + 6, 2), V.be(k * 16, 2), V.zeros(4)))
    else: V.check('a list that fits is accepted', k * 16 + 6 > 65535)
    if st == 'ok': V.check('a list that does not fit is refused', k * 16 + 6 <= 65535)
