from engine.registry import contract, family
from ._lib import *

R6 = [('reserve', 'reserve', 'Reserve6Command', 0x16), ('release', 'release', 'Release6Command', 0x17)]
R10 = [('reserve', 'reserve', 'Reserve10Command', 0x56), ('release', 'release', 'Release10Command', 0x57)]
T = lambda *a: ['infi.asi.cdb.%s.%s.__init__' % a[:2], 'infi.asi.cdb.%s.%s.execute' % a[:2]]

def mod(name):
    import importlib
    return importlib.import_module('infi.asi.cdb.' + name)

@family('C04', R6, targets=T)
def six_byte(V, m, cls, op):
    """RESERVE(6)/RELEASE(6): one data-out command, opcode followed by five zero bytes, no payload, response returned"""
    resp = V.bytes('response', V.length('response_len'))
    cmds, r = run(V, getattr(mod(m), cls)(), resp)
    check_write(V, cmds, V.cat(V.to_bytes(op), V.zeros(5)), b'')
    V.check_eq('the result is the response', r, resp)

@family('C04', R10, targets=T)
def ten_byte(V, m, cls, op):
    """for every third-party device id 0..2^64-1: 0 means none (bit clear, no payload); 1..254 travels in byte 3 with the
    third-party bit; larger ids set the long-id bit and travel as an 8-byte big-endian parameter list whose length is in the CDB"""
    tp = V.int('third_party_device_id', 0, 2 ** 64 - 1)
    resp = V.bytes('response', V.length('response_len'))
    cmds, r = run(V, getattr(mod(m), cls)(third_party_device_id=tp), resp)
    if tp == 0: b1, b3, pl = 0, 0, b''
    elif tp < 255: b1, b3, pl = 16, tp, b''
    else: b1, b3, pl = 16 + 2, 0, V.be(tp, 8)
    check_write(V, cmds, V.cat(V.to_bytes(op, b1, 0, b3), V.zeros(3), V.be(len(pl), 2), V.zeros(1)), pl)
    V.check_eq('the result is the response', r, resp)

@family('C04', R10, targets=T)
def ten_byte_default(V, m, cls, op):
    """without arguments no third party is involved; the same object gives the same bytes when executed twice"""
    c = getattr(mod(m), cls)()
    want = V.cat(V.to_bytes(op), V.zeros(9))
    for i in range(2):
        cmds, r = run(V, c, b'')
        check_write(V, cmds, want, b'')

@family('C04', R10, targets=T)
def ten_byte_any_arguments(V, m, cls, op):
    """for all integers: an id outside 0..2^64-1 is never sent as something else (it is refused, or for negative ids nothing
    claims a third party)"""
    tp = V.int('third_party_device_id', -(1 << 70), 1 << 70)
    st, cmds, r, c = attempt(V, lambda: getattr(mod(m), cls)(third_party_device_id=tp), b'')
    if cmds:
        b = V.cat(cmds[0].command)
        V.check('an id that does not fit is refused', tp < (1 << 64))
        if tp < 0: V.check('no third party is named for a negative id', V.And(b[1] == 0, b[3] == 0, len(cmds[0].data) == 0))
    else: V.check('in-range ids are accepted', V.Not(in_range(V, tp, 64)))
