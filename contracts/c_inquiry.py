from engine.registry import contract, family
from ._lib import *

T = ['infi.asi.cdb.inquiry.InquiryCommand.execute', 'infi.asi.cdb.inquiry.standard.StandardInquiryDataBuffer']

STD = {
 'peripheral_device.type': ('b', 0, 0, 5), 'peripheral_device.qualifier': ('b', 0, 5, 3), 'cong': ('b', 1, 6), 'rmb': ('b', 1, 7),
 'version': ('u', 2, 1), 'response_data_format': ('b', 3, 0, 4), 'hisup': ('b', 3, 4), 'normaca': ('b', 3, 5), 'additional_length': ('u', 4, 1),
 'protect': ('b', 5, 0), 'threepc': ('b', 5, 3), 'tpgs': ('b', 5, 4, 2), 'acc': ('b', 5, 6), 'sccs': ('b', 5, 7), 'addr16': ('b', 6, 0),
 'multi_p': ('b', 6, 4), 'enc_serv': ('b', 6, 6), 'cmd_que': ('b', 7, 1), 'sync': ('b', 7, 4), 'wbus16': ('b', 7, 5)}

def text(V, b):
    """the text of a fixed-size, right-padded ASCII field"""
    return b.rstrip(b'\0').rstrip(b' ').decode('ascii')

def std(V, al, extra):
    """a standard INQUIRY response of 36 + extra bytes with the given additional length and ASCII text fields"""
    head = V.cat(V.bytes('head', 4), V.be(al, 1), V.bytes('flags', 3))
    ven, pro, rev = V.ascii('vendor', 8), V.ascii('product', 16), V.ascii('revision', 4)
    return V.cat(head, ven, pro, rev, V.bytes('more', extra)), ven, pro, rev

def std_check(V, r, b, ven, pro, rev):
    check_fields(V, r, STD, b)
    V.check_eq('vendor', r.t10_vendor_identification, text(V, ven))
    V.check_eq('product', r.product_identification, text(V, pro))
    V.check_eq('revision', r.product_revision_level, text(V, rev))

@contract('C10', targets=T)
def standard_fields(V):
    """every bit field and text field of standard INQUIRY data comes from the bytes and bits SPC assigns to it, whatever follows;
    no vendor data is reported when the additional length says there is none"""
    from infi.asi.cdb.inquiry.standard import StandardInquiryCommand
    al = V.int('additional_length', 0, 31)
    b, ven, pro, rev = std(V, al, V.length('extra', 0, 219))
    a = V.int('allocation_length', 0, 65535)
    V.assume(V.blen(b) <= a)
    cmds, r = run(V, StandardInquiryCommand(allocation_length=a) if V.bool('allocation length given') else StandardInquiryCommand(), b)
    std_check(V, r, b, ven, pro, rev)
    V.check('no extension', r.extended is None)

@contract('C10', targets=T + ['infi.asi.cdb.inquiry.standard.StandardInquiryExtendedDataBuffer'])
def standard_extended(V):
    """with an additional length above 31: bytes 36-55 are the vendor specific part, byte 56 holds IUS/QAS/CLOCKING, up to eight
    version descriptors start at byte 58, the rest from byte 96 is vendor specific - each limited to the bytes that are both
    announced and present, and absent when the data ends before it"""
    from infi.asi.cdb.inquiry.standard import StandardInquiryCommand
    k = V.track('k')
    al = V.int('additional_length', 32, 255)
    extra = V.length('extra', 0, 300)
    b, ven, pro, rev = std(V, al, extra)
    cmds, r = run(V, StandardInquiryCommand(allocation_length=260), b)
    std_check(V, r, b, ven, pro, rev)
    e = r.extended
    V.check('extension is reported', e is not None)
    E = V.ite(al - 31 < extra, al - 31, extra)
    m = V.ite(E < 20, E, 20)
    V.check_eq('vendor specific bytes 36-55', V.cat(e.vendor_specific_1), b[36:36 + m])
    if E >= 21: check_fields(V, e, {'ius': ('b', 56, 0), 'qas': ('b', 56, 1), 'clocking': ('b', 56, 2, 2)}, b)
    else:
        V.check('no byte 56, no flags', e.ius is None and e.qas is None and e.clocking is None)
    if E >= 24:
        nv = V.ite((E - 22) // 2 < 8, (E - 22) // 2, 8)
        V.check('number of version descriptors', V.len(e.version_descriptors) == nv)
        if k < nv: V.check('version descriptor k', V.eq(V.at(e.version_descriptors, k), u(V, b, 58 + 2 * k, 2)))
    else: V.check('no version descriptors', e.version_descriptors is None)
    if E >= 61: V.check_eq('vendor specific bytes from 96', V.cat(e.vendor_specific_2), b[96:36 + E])
    else: V.check('no second vendor part', e.vendor_specific_2 is None)

@contract('C10', targets=T)
def standard_short(V):
    """a standard INQUIRY response shorter than the mandatory 36 bytes is refused"""
    from infi.asi.cdb.inquiry.standard import StandardInquiryCommand
    b = V.bytes('response', V.length('n', 0, 35))
    st, cmds, r, c = attempt(V, StandardInquiryCommand, b)
    V.check('refused', st == 'exc')

@contract('C10', targets=T)
def standard_not_ascii(V):
    """text with a byte outside ASCII is refused, not decoded as something else"""
    from infi.asi.cdb.inquiry.standard import StandardInquiryCommand
    i = V.choice('position', [8, 15, 16, 31, 32, 35])
    x = V.int('byte', 128, 255)
    b = V.cat(V.bytes('head', 4), V.to_bytes(31), V.bytes('flags', 3), V.ascii('text', 28))
    b = V.cat(b[:i], V.be(x, 1), b[i + 1:])
    st, cmds, r, c = attempt(V, StandardInquiryCommand, b)
    V.check('refused', st == 'exc')
