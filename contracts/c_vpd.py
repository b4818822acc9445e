"""C11: vital product data pages. C12: device identification designators."""
from engine.registry import contract, family
from ._lib import *
import importlib

P = 'infi.asi.cdb.inquiry.vpd_pages.'
def imp(path):
    m, n = path.rsplit('.', 1)
    return getattr(importlib.import_module(P + m), n)
HEAD = {'peripheral_device.type': ('b', 0, 0, 5), 'peripheral_device.qualifier': ('b', 0, 5, 3), 'page_code': ('u', 1, 1)}
HEAD2 = dict(HEAD, page_length=('u', 2, 2))

def ex(*names): return ['infi.asi.cdb.inquiry.InquiryCommand.execute'] + [P + n for n in names]
def mn(V, a, b): return V.ite(a < b, a, b)

@contract('C11', targets=ex('supported_pages.SupportedVPDPagesBuffer'))
def supported_pages(V):
    """page 00h: as many page codes as the page length announces, byte by byte from byte 4"""
    k = V.track('k')
    n = V.length('n', 4, 300)
    b = V.bytes('response', n)
    m = b[3]
    V.assume(m + 4 <= n)
    cmds, r = run(V, imp('supported_pages.SupportedVPDPagesCommand')(), b)
    check_fields(V, r, dict(HEAD, page_length=('u', 3, 1)), b)
    V.check('number of pages', V.len(r.vpd_parameters) == m)
    if k < m: V.check('page code k', V.eq(V.at(r.vpd_parameters, k), b[4 + k]))

@contract('C11', targets=ex('unit_serial_number.UnitSerialNumberVPDPageBuffer'))
def unit_serial_number(V):
    """page 80h: the serial number is the announced bytes after the header, as text without trailing padding"""
    m = V.length('m', 0, 251)
    t = V.ascii('serial', m) if not V.symbolic else V.bytes('serial', m)
    b = V.cat(V.bytes('head', 3), V.be(m, 1), t, V.bytes('tail', V.length('tail_len', 0, 20)))
    st, cmds, r, c = attempt(V, imp('unit_serial_number.UnitSerialNumberVPDPageCommand'), b)
    st2, want = V.call(lambda: t.rstrip(b'\0').rstrip(b' ').decode('ascii'))
    V.check('decoded exactly when the serial number is ASCII', st == st2)
    if st == 'ok':
        check_fields(V, r, dict(HEAD, page_length=('u', 3, 1)), b)
        V.check_eq('serial number', r.product_serial_number, want)

@contract('C11', targets=ex('unknown.UnknownVPDPageBuffer'))
def unknown_page(V):
    """pages without a decoder: the announced bytes after the header, one by one"""
    k = V.track('k')
    n = V.length('n', 4, 2100)
    b = V.bytes('response', n)
    m = u(V, b, 2, 2)
    cmds, r = run(V, imp('unknown.UnknownVPDPageCommand')(V.int('page', 0, 255))(), b)
    check_fields(V, r, HEAD2, b)
    c = mn(V, m, n - 4)
    V.check('number of bytes', V.len(r.page_data) == c)
    if k < c: V.check('byte k', V.eq(V.at(r.page_data, k), b[4 + k]))

VER = ['is_thin_lun', 'is_snapshot_lun', 'is_space_optimized_src', 'is_fcdisk_lun', 'is_satadisk_lun', 'is_replication_src', 'is_replication_dst']
VERITAS = dict(HEAD2, raid_type=('u', 5, 1), **dict((f, ('b', 4, i)) for i, f in enumerate(VER)))
LIMITS = dict(HEAD2, wsnz=('b', 4, 0), maximum_compare_and_write_length=('u', 5, 1), optimal_transfer_length_granularity=('u', 6, 2), maximum_transfer_length=('u', 8, 4),
              optimal_transfer_length=('u', 12, 4), maximum_prefetch_xdread_xdwrite_transfer_length=('u', 16, 4), maximum_unmap_lba_count=('u', 20, 4),
              maximum_unmap_block_descriptor_count=('u', 24, 4), optimal_unmap_granularity=('u', 28, 4), ugavalid=('b', 32, 7), maximum_write_same_length=('u', 36, 8))
LBP = dict(HEAD2, threshold_exponent=('u', 4, 1), dp=('b', 5, 0), anc_sup=('b', 5, 1), lbprz=('b', 5, 2), lbpws10=('b', 5, 5), lbpws=('b', 5, 6), lbpu=('b', 5, 7),
           provisioning_type=('b', 6, 0, 3))
SIG = {'transport_id': 0, 'status': 2, 'error': 3, 'device': 7}

@family('C11', [('veritas', 'veritas.VeritasVPDPageCommand', 6, 300, VERITAS), ('block_limits', 'block_limits.BlockLimitsPageCommand', 44, 300, LIMITS),
                ('provisioning', 'logical_block_provisioning.LogicalBlockProvisioningPageCommand', 7, 8, LBP)],
        targets=lambda path, need, top, spec: ex(path.replace('Command', 'Buffer')))
def fixed_page(V, path, need, top, spec):
    """veritas, block limits and logical block provisioning pages: every field comes from the bytes and bits the standard assigns
    to it; a response that ends before the last field is refused"""
    n = V.length('n', 0, top)
    b = V.bytes('response', n)
    st, cmds, r, c = attempt(V, imp(path), b)
    if n >= need:
        V.check('decoded', st == 'ok')
        check_fields(V, r, spec, b)
        if 'wsnz' in spec: V.check('unmap granularity alignment is bytes 32-35 without UGAVALID', V.eq(r.unmap_granularity_alignment, u(V, b, 32, 4) % (1 << 31)))
        if 'dp' in spec: V.check('no provisioning group descriptor in 8 bytes', r.provisioning_group_descriptor is None)
    elif n < 5 or 'dp' not in spec: V.check('a short response is refused', st == 'exc')

@contract('C11', targets=ex('logical_block_provisioning.LogicalBlockProvisioningVPDPageBuffer'))
def provisioning_group(V):
    """logical block provisioning page with a descriptor after byte 8: it is decoded as a designator"""
    m = V.int('m', 0, 40)
    cs = V.int('code_set', 0, 15)
    ident = V.bytes('identifier', m)
    b = V.cat(V.bytes('head', 8), V.be(cs, 1), V.to_bytes(0), V.to_bytes(0), V.be(m, 1), ident)
    cmds, r = run(V, imp('logical_block_provisioning.LogicalBlockProvisioningPageCommand')(), b)
    check_fields(V, r, LBP, b)
    d = r.provisioning_group_descriptor
    V.check('code set', V.eq(d.code_set, cs))
    V.check_eq('identifier', V.cat(d.vendor_specific_identifier), ident)

def swapped(b, a, z): return [b[i ^ 1] for i in range(a, z)]

@contract('C11', targets=ex('ata_information.AtaInformationVPDPageBuffer', 'ata_information.DeviceSignature', 'ata_information.AtaIdentifyDevice'))
def ata_information(V):
    """page 89h: SAT vendor/product/revision text, the device signature registers and the byte-swapped serial number, firmware
    revision and model number of IDENTIFY DEVICE come from their bytes"""
    from ._lib import u as uu
    A = lambda name, n: V.ascii(name, n)
    txt = A('sat', 28)
    sig = V.bytes('sig', 20)
    lba = [sig[i] for i in (4, 5, 6, 8, 9, 10)]
    ser, fw, model = A('serial', 20), A('firmware', 8), A('model', 40)
    b = V.cat(V.bytes('head', 8), txt, sig, V.bytes('cmd', 4), V.bytes('id0', 20), ser, V.bytes('id1', 6), fw, model, V.bytes('id2', 418))
    n = V.length('trailing', 0, 452)
    cmds, r = run(V, imp('ata_information.AtaInformationVPDPageCommand')(), V.cat(b, V.bytes('trailing', n)))
    check_fields(V, r, {'peripheral_device.type': ('b', 0, 0, 5), 'peripheral_device.qualifier': ('b', 0, 5, 3), 'page_code': ('u', 1, 1), 'page_length': ('u', 2, 2),
        'device_signature.transport_id': ('u', 36, 1), 'device_signature.pm_port': ('b', 37, 0, 4), 'device_signature.interrupt': ('b', 37, 6),
        'device_signature.status': ('u', 38, 1), 'device_signature.error': ('u', 39, 1), 'device_signature.device': ('u', 43, 1),
        'device_signature.sector_count': ('u', 48, 2), 'command_code': ('u', 56, 1)}, b)
    T = lambda x: x.rstrip(b'\0').rstrip(b' ').decode('ascii')
    V.check_eq('vendor', r.sat_vendor_identification, T(txt[0:8]))
    V.check_eq('product', r.sat_product_identification, T(txt[8:24]))
    V.check_eq('revision', r.sat_product_revision_level, T(txt[24:28]))
    V.check_eq('signature LBA', V.cat(r.device_signature.lba), V.to_bytes(*lba))
    V.check_eq('serial number', r.identify_device.serial_number, T(V.to_bytes(*swapped(ser, 0, 20))))
    V.check_eq('firmware revision', r.identify_device.firmware_revision, T(V.to_bytes(*swapped(fw, 0, 8))))
    V.check_eq('model number', r.identify_device.model_number, T(V.to_bytes(*swapped(model, 0, 40))))

# ---- designators
D = 'designators.'
HD = {'code_set': ('b', 0, 0, 4), 'protocol_identifier': ('b', 0, 4, 4), 'designator_type': ('b', 1, 0, 4), 'association': ('b', 1, 4, 2), 'piv': ('b', 1, 7),
      'reserved': ('u', 2, 1), 'designator_length': ('u', 3, 1)}
# (name, type, length, first nibble of the identifier, class, fields: attr -> (byte offset, size, low bit, bits))
FIX = [
 ('eui64', 2, 8, None, 'EUI64_Designator', {'ieee_company': (4, 3), 'vendor_specific_extension_identifer': (7, 5)}),
 ('eui64_12', 2, 12, None, 'EUI64_12Byte_Designator', {'ieee_company': (4, 3), 'vendor_specific_extension_identifer': (7, 5), 'directory_id': (12, 4)}),
 ('eui64_16', 2, 16, None, 'EUI64_16Byte_Designator', {'identifier_extension': (4, 8), 'ieee_company': (12, 3), 'vendor_specific_extension_identifer': (15, 5)}),
 ('naa_extended', 3, 8, 2, 'NAA_IEEE_Extended_Designator', {'naa': (4, 1, 4, 4), 'vendor_specific_identifier_a': (4, 2, 0, 12), 'ieee_company': (6, 3), 'vendor_specific_identifier_b': (9, 3)}),
 ('naa_local', 3, 8, 3, 'NAA_Locally_Assigned_Designator', {'naa': (4, 1, 4, 4), 'locally_administered_value': (4, 8, 0, 60)}),
 ('naa_registered', 3, 8, 5, 'NAA_IEEE_Registered_Designator', {'naa': (4, 1, 4, 4), 'ieee_company_id': (4, 8, 36, 24), 'vendor_specific_identifier': (4, 8, 0, 36)}),
 ('naa_registered_extended', 3, 16, 6, 'NAA_IEEE_Registered_Extended_Designator',
  {'naa': (4, 1, 4, 4), 'ieee_company_id': (4, 8, 36, 24), 'vendor_specific_identifier': (4, 8, 0, 36), 'vendor_specific_identifier_extension': (12, 8)}),
 ('relative_target_port', 4, 4, None, 'RelativeTargetPortDesignator', {'relative_target_port_identifier': (6, 2)}),
 ('target_port_group', 5, 4, None, 'TargetPortGroupDesignator', {'target_port_group': (6, 2)}),
 ('logical_unit_group', 6, 4, None, 'LogicalUnitGroupDesignator', {'logical_unit_group': (6, 2)})]

def page(V, ptr, des, tail):
    m = V.blen(des)
    return V.cat(V.bytes('page_head', 2), V.be(m, 2), des, tail)

def head(V, typ, n):
    b0, b2 = V.int('byte0', 0, 255), V.int('byte2', 0, 255)
    hi = V.int('association_and_piv', 0, 15)
    return V.cat(V.be(b0, 1), V.be(hi * 16 + typ, 1), V.be(b2, 1), V.be(n, 1))

def decode_one(V, des):
    b = page(V, None, des, V.bytes('tail', V.length('tail_len', 0, 30)))
    cmds, r = run(V, imp('device_identification.DeviceIdentificationVPDPageCommand')(), b)
    check_fields(V, r, HEAD2, b)
    V.check('one designator', V.len(r.designators_list) == 1)
    d = V.at(r.designators_list, 0)
    check_fields(V, d, HD, des)
    return d

DT = ex('device_identification.DeviceIdentificationVPDPageBuffer', D + 'determine_designator')
@family('C12', FIX, targets=lambda typ, n, nib, cls, spec: DT + [P + D + cls])
def designator(V, typ, n, nib, cls, spec):
    """designators of a fixed layout: the type (and NAA or length) selects the layout, and every number is the big-endian value of
    its own bytes and bits"""
    if nib is None: body = V.bytes('identifier', n)
    else: body = V.cat(V.be(V.int('low', 0, 15) + 16 * nib, 1), V.bytes('identifier', n - 1))
    des = V.cat(head(V, typ, n), body)
    d = decode_one(V, des)
    V.check('layout', type(d).__name__ == cls)
    for f in sorted(spec):
        k = spec[f]
        v = u(V, des, k[0], k[1])
        if len(k) > 2: v = (v // (1 << k[2])) % (1 << k[3])
        V.check('%s is the value of its bytes' % f, V.eq(getattr(d, f), v))

@family('C12', [('vendor', 0, 'vendor_specific_identifier'), ('md5', 7, 'md5_logical_unit_identifier'), ('name', 8, 'scsi_name_string')] +
               [('type_%d' % t, t, 'designator') for t in range(9, 16)], targets=DT)
def designator_bytes(V, typ, attr):
    """designators of variable layout (vendor specific, MD5, SCSI name, and the types the library does not know): the identifier is
    exactly the announced bytes"""
    n = V.length('m', 0, 236)
    ident = V.bytes('identifier', n)
    d = decode_one(V, V.cat(head(V, typ, n), ident))
    V.check_eq('identifier', V.cat(getattr(d, attr)), ident)

@contract('C12', targets=DT + [P + D + 'T10VendorIDDesignator'])
def designator_t10(V):
    """T10 vendor ID designators: eight bytes of vendor text, then the vendor specific part"""
    n = V.length('m', 0, 200)
    ven, ident = V.ascii('vendor', 8), V.bytes('identifier', n)
    d = decode_one(V, V.cat(head(V, 1, n + 8), ven, ident))
    V.check_eq('vendor', d.t10_vendor_identification, ven.rstrip(b'\0').rstrip(b' ').decode('ascii'))
    V.check_eq('identifier', V.cat(d.vendor_specific_identifier), ident)

@contract('C12', targets=DT)
def designator_undefined(V):
    """an EUI-64 designator of a length, or an NAA designator of a format, that no standard defines is refused"""
    eui = V.bool('eui')
    n = V.int('length', 0, 24)
    nib = V.int('naa', 0, 15)
    if eui: V.assume(V.And(n != 8, n != 12, n != 16))
    else: V.assume(V.And(n > 0, nib != 2, nib != 3, nib != 5, nib != 6))
    body = V.cat(V.be(nib * 16, 1), V.zeros(23))
    des = V.cat(head(V, 2 if eui else 3, n), body)
    st, cmds, r, c = attempt(V, imp('device_identification.DeviceIdentificationVPDPageCommand'), page(V, None, des, b''))
    V.check('refused', st == 'exc')

def std_length(V, b, o):
    """the designator at o has the length its type calls for"""
    t, n = b[o + 1] % 16, b[o + 3]
    if t == 1: return n >= 8
    if t == 2: return V.Or(n == 8, n == 12, n == 16)
    if t == 3 and n == 0: return False
    if t == 3:
        naa = b[o + 4] // 16
        return V.Or(V.And(n == 8, V.Or(naa == 2, naa == 3, naa == 5)), V.And(n == 16, naa == 6))
    if V.Or(t == 4, t == 5, t == 6): return n == 4
    return True

@contract('C12', targets=DT)
def designator_list(V):
    """the designators of the page are laid end to end: each one starts where the length of the one before says, none is skipped or
    reported twice, and together they cover the page length"""
    V.returned_only()
    n = V.length('n', 4, 252)
    b = V.bytes('response', n)
    m = u(V, b, 2, 2)
    V.assume(m + 4 <= n)
    st, cmds, r, c = attempt(V, imp('device_identification.DeviceIdentificationVPDPageCommand'), b)
    if st != 'ok': return
    def step(o):
        V.assume(o + 4 <= m)
        V.assume(o + 4 + b[4 + o + 3] <= m)
        V.assume(std_length(V, b, 4 + o))
        return o + 4 + b[4 + o + 3]
    got = V.chain('designators', r.designators_list, m, step)
    if got is None: return
    d, o = got
    for f in sorted(HD):
        k = HD[f]
        kk = (k[0], 4 + o + k[1]) + k[2:]
        V.check('%s of an arbitrary designator' % f, V.eq(getattr(d, f), u(V, b, *kk[1:]) if k[0] == 'u' else bits(V, b, *kk[1:])))

@contract('C12', targets=DT)
def designator_sequence(V):
    """pages built from one or two designators of any kinds: all of them come back, in order, each with its own layout"""
    cnt = V.choice('n', [1, 2])
    parts, want = [], []
    for i in range(cnt):
        typ = V.choice('kind', [0, 1, 2, 3, 4, 7, 8])
        if typ in (0, 7, 8): body = V.bytes('body', V.length('size', 0, 120))
        elif typ == 1: body = V.cat(b'VENDOR  ', V.bytes('body', V.length('size', 0, 100)))
        elif typ == 2: body = V.bytes('body', V.choice('size', [8, 12, 16]))
        elif typ == 3: body = V.cat(V.to_bytes(0x60), V.bytes('body', 15))
        else: body = V.bytes('body', 4)
        parts.append(V.cat(V.to_bytes(1, typ, 0, V.len(body)), body))
        want.append((typ, body))
    cmds, r = run(V, imp('device_identification.DeviceIdentificationVPDPageCommand')(), page(V, None, V.cat(*parts), b''))
    V.check('number', V.len(r.designators_list) == cnt)
    for i in range(cnt):
        typ, body = want[i]
        d = V.at(r.designators_list, i)
        V.check('type', V.eq(d.designator_type, typ))
        if typ == 0: V.check_eq('identifier', V.cat(d.vendor_specific_identifier), body)
        if typ == 1: V.check_eq('identifier', V.cat(d.vendor_specific_identifier), body[8:])
        if typ == 2: V.check('layout', type(d).__name__ == {8: 'EUI64_Designator', 12: 'EUI64_12Byte_Designator', 16: 'EUI64_16Byte_Designator'}[V.len(body)])
        if typ == 3: V.check('extension', V.eq(d.vendor_specific_identifier_extension, u(V, body, 8, 8)))
        if typ == 4: V.check('port', V.eq(d.relative_target_port_identifier, u(V, body, 2, 2)))
        if typ == 7: V.check_eq('identifier', V.cat(d.md5_logical_unit_identifier), body)
        if typ == 8: V.check_eq('identifier', V.cat(d.scsi_name_string), body)
