"""C15 sense data: decoding, and the error object raised for a CHECK CONDITION."""
import os, re
from engine.registry import contract, family
from contracts._lib import *

KEYS = ['NO_SENSE', 'RECOVERED_ERROR', 'NOT_READY', 'MEDIUM_ERROR', 'HARDWARE_ERROR', 'ILLEGAL_REQUEST', 'UNIT_ATTENTION', 'DATA_PROTECT',
        'BLANK_CHECK', 'VENDOR_SPECIFIC', 'COPY_ABORTED', 'ABORTED_COMMAND', 'RESERVED', 'VOLUME_OVERFLOW', 'MISCOMPARE', 'COMPLETED']
T = ('sense.get_sense_object_from_buffer',)

def decode(V, b, how=None):
    """by the decoder itself, or by way of the error the commands raise"""
    from infi.asi.sense import get_sense_object_from_buffer
    if how is None: how = V.bool('as part of the error')
    if how:
        from infi.asi import CommandExecuterBase
        st, e = V.call(lambda: V.internal(CommandExecuterBase(), '_check_condition')._check_condition(b))
        V.check('the error always comes about', st == 'ok')
        return ('ok', e.sense_obj)
    return V.call(lambda: get_sense_object_from_buffer(b))

def check_key(V, sense, nibble):
    for k in range(16):
        V.check('sense key %s' % KEYS[k], V.Implies(V.eq(nibble, k), sense.sense_key == KEYS[k]))

def truth(V, label, flag, bit):
    V.check(label, V.And(V.Implies(bit == 1, V.eq(flag, True)), V.Implies(bit == 0, V.eq(flag, False))))

@contract('C15', targets=T)
def fixed_format(V):
    """every fixed format (70h/71h) sense buffer of at least 17 bytes: sense key, flags, information, additional sense code and
    qualifier, field replaceable unit and sense key specific bytes are those at their places"""
    n = V.length('n', 17, 1 << 16)
    b = V.bytes('sense', n)
    V.assume(V.Or(b[0] % 128 == 0x70, b[0] % 128 == 0x71))
    st, r = decode(V, b)
    V.check('decoded', st == 'ok' and r is not None)
    V.check('response code', V.eq(r.response_code.code, b[0] % 128))
    truth(V, 'information valid flag', r.response_code.valid, b[0] // 128)
    check_key(V, r, b[2] % 16)
    truth(V, 'incorrect length indicator', r.ili, bits(V, b, 2, 5))
    truth(V, 'end of medium', r.eom, bits(V, b, 2, 6))
    truth(V, 'filemark', r.filemark, bits(V, b, 2, 7))
    V.check('information', V.eq(r.information, u(V, b, 3, 4)))
    V.check('additional sense length', V.eq(r.additional_sense_length, b[7]))
    V.check('command specific information', V.eq(r.command_specific_information, u(V, b, 8, 4)))
    V.check('additional sense code', V.eq(r.additional_sense_code.code, b[12]))
    V.check('additional sense code qualifier', V.eq(r.additional_sense_code.qualifier, b[13]))
    V.check('field replaceable unit', V.eq(r.field_replaceable_unit_code, b[14]))
    truth(V, 'sense key specific valid', r.sksv, bits(V, b, 15, 7))
    V.check('sense key specific, high part', V.eq(r.sense_key_specific_high, b[15] % 128))
    V.check('sense key specific, low part', V.eq(r.sense_key_specific_low, b[16]))

def desc_step(V, b, base, o):
    return o + 2 + b[base + o + 1]

@contract('C15', targets=T)
def descriptor_format(V):
    """every descriptor format (72h/73h) sense buffer whose announced descriptors are all there: sense key, code, qualifier, and the
    descriptors laid end to end in the announced length, each with its own type and exactly its own bytes"""
    n = V.length('n', 8, 1 << 16)
    b = V.bytes('sense', n)
    V.assume(V.Or(b[0] % 128 == 0x72, b[0] % 128 == 0x73))
    V.assume(n >= 8 + b[7])
    V.returned_only()
    st, r = decode(V, b, False)
    if st == 'exc': return
    V.check('decoded', r is not None)
    V.check('response code', V.eq(r.response_code.code, b[0] % 128))
    check_key(V, r, b[1] % 16)
    V.check('additional sense code', V.eq(r.additional_sense_code.code, b[2]))
    V.check('additional sense code qualifier', V.eq(r.additional_sense_code.qualifier, b[3]))
    got = V.chain('descriptors', r.descriptors, b[7], lambda o: desc_step(V, b, 8, o))
    if got is None: return
    d, o = got
    V.check('descriptor type', V.eq(d.descriptor_type, b[8 + o]))
    V.check_eq('descriptor bytes', d.data, b[8 + o + 2:8 + o + 2 + b[8 + o + 1]])

@family('C15', [('%d' % k, k) for k in range(4)], targets=T)
def whole_descriptors(V, k):
    """k descriptors that exactly fill the announced length are decoded (not refused), whatever follows"""
    hdr = V.bytes('header', 7)
    V.assume(V.Or(hdr[0] % 128 == 0x72, hdr[0] % 128 == 0x73))
    ds, total = [], 0
    for i in range(k):
        l = V.length('len%d' % i, 0, 80)
        ds.append(V.cat(V.to_bytes(V.int('type%d' % i, 0, 255), l), V.bytes('data%d' % i, l)))
        total = total + 2 + l
    rest = V.bytes('rest', V.length('rest_n', 0, 300))
    b = V.cat(hdr, V.to_bytes(total), *(ds + [rest]))
    st, r = decode(V, b)
    V.check('decoded', st == 'ok' and r is not None)
    V.check('number of descriptors', V.eq(V.len(r.descriptors), k))
    for i in range(k):
        V.check_eq('descriptor %d type' % i, r.descriptors[i].descriptor_type, ds[i][0])
        V.check_eq('descriptor %d bytes' % i, r.descriptors[i].data, ds[i][2:])
    V.check('additional sense code', V.eq(r.additional_sense_code.code, b[2]))
    V.check('additional sense code qualifier', V.eq(r.additional_sense_code.qualifier, b[3]))

@contract('C15', targets=T)
def other_formats(V):
    """sense data in no format the library knows is reported as None, not decoded as something else"""
    b = V.bytes('sense', V.length('n', 1, 1 << 16))
    V.assume(V.Or(b[0] % 128 < 0x70, b[0] % 128 > 0x73))
    st, r = decode(V, b)
    V.check('none', st == 'ok' and r is None)

@family('C15', [('fixed', 0x70, 0x71), ('descriptor', 0x72, 0x73), ('other', None, None)], targets=('CommandExecuterBase._check_condition', 'AsiCheckConditionError'))
def check_condition_error(V, c1, c2):
    """every CHECK CONDITION becomes an AsiCheckConditionError that carries the device's sense bytes unchanged, also when those bytes
    are malformed; the decoded object, when there is one, decodes those same bytes"""
    from infi.asi import CommandExecuterBase
    from infi.asi.errors import AsiCheckConditionError, AsiSCSIError
    n = V.length('n', 1, 1 << 16)
    V.any_outcome()
    if c1 is None:
        b = V.bytes('sense', n)
        V.assume(V.Or(b[0] % 128 < 0x70, b[0] % 128 > 0x73))
    else:
        b = V.cat(V.to_bytes(V.int('response_code', c1, c2) + 128 * V.int('valid', 0, 1)), V.bytes('sense', n - 1))
    st, e = V.call(lambda: V.internal(CommandExecuterBase(), '_check_condition')._check_condition(b))
    V.check('an error object, not another exception', st == 'ok' and isinstance(e, AsiCheckConditionError) and isinstance(e, AsiSCSIError))
    V.check_eq('raw sense bytes', e.sense_buffer, b)
    o = e.sense_obj
    if c1 is None: V.check('no decoded object', o is None)
    elif c1 == 0x70 and not n < 17:
        V.check('decoded object', o is not None)
        V.check('decoded code', V.And(V.eq(o.additional_sense_code.code, b[12]), V.eq(o.additional_sense_code.qualifier, b[13])))
        check_key(V, o, b[2] % 16)
    elif c1 == 0x72 and o is not None:
        V.check('decoded code', V.And(V.eq(o.additional_sense_code.code, b[2]), V.eq(o.additional_sense_code.qualifier, b[3])))
        check_key(V, o, b[1] % 16)

def table():
    t = {}
    for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data', 'asc.txt')):
        if not l.startswith('#'): t[(int(l[:2], 16), int(l[2:4], 16))] = l[5:].strip()
    return t
def norm(t): return ' '.join(re.findall('[a-z0-9]+', t.lower()))

def name_of(code, qualifier):
    from infi.asi.sense.asc import AdditionalSenseCode
    return AdditionalSenseCode(code=code, qualifier=qualifier).code_name

@family('C15', [('%02Xh-%02Xh' % (c, c + 15), c) for c in range(0, 256, 16)], targets=('asc.AdditionalSenseCode.code_name',))
def code_names(V, first):
    """every additional sense code and qualifier: a code of the T10 list has its own name (40h, 4Dh and 70h name their parameter),
    any other one is named without failing, and its name is not that of a listed code of another ASC"""
    t = table()
    known = set(norm(x) for x in t.values())
    bad = []
    for c in range(first, first + 16):
        for q in range(256):
            st, name = V.call(lambda: name_of(c, q))
            if st == 'exc': bad.append((c, q, 'raises'))
            elif (c, q) in t:
                if norm(name) != norm(t[(c, q)]): bad.append((c, q, name))
            elif (c == 0x40 and q >= 0x80) or c in (0x4d, 0x70):
                if '%x' % q not in name.lower(): bad.append((c, q, name))
            elif not name or (norm(name) in known and not any(k[0] == c and norm(v) == norm(name) for k, v in t.items())): bad.append((c, q, name))
    V.check('names of the codes', bad == [])
