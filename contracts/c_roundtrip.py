"""C27: structures that describe device data survive packing: the bytes hold every field where the standard puts it, and decode to the same values."""
import importlib
from engine.registry import contract, family
from ._lib import *

C = 'infi.asi.cdb.'
D = C + 'inquiry.vpd_pages.designators.'
def cls_of(path):
    m, n = path.rsplit('.', 1)
    return getattr(importlib.import_module(m), n)
def masked(V, b, mask):
    """b with every byte and bit outside the mask cleared"""
    out = []
    for i, m in enumerate(mask):
        if m == 255: out.append(b[i:i + 1])
        elif m == 0: out.append(V.to_bytes(0))
        else:
            v = 0
            lo = None
            for bit in range(9):
                on = bit < 8 and m >> bit & 1
                if on and lo is None: lo = bit
                if not on and lo is not None:
                    v = v + (b[i] // (1 << lo)) % (1 << (bit - lo)) * (1 << lo)
                    lo = None
            out.append(V.to_bytes(v))
    return V.cat(*out)
def twice(V, cls, b, want, names):
    def decode(x):
        o = cls()
        o.unpack(x)
        return o
    st, o = V.call(lambda: decode(b))
    V.check('decoded', st == 'ok')
    st, p = V.call(o.pack)
    V.check('packed', st == 'ok')
    V.check_eq('the bytes are those of the fields, every other bit zero', p, want)
    st, o2 = V.call(lambda: decode(p))
    V.check('decoded again', st == 'ok')
    for n in names: V.check('the same %s' % n, V.eq(getattr(o2, n), getattr(o, n)))
    st, p2 = V.call(o2.pack)
    V.check('packed again to the same bytes', V.And(st == 'ok', V.eq(p2, p)) if st == 'ok' else False)

HEAD = [255, 0xbf, 255, 255]
PAD = b" " * 8
HEADN = ['code_set', 'protocol_identifier', 'designator_type', 'association', 'piv', 'designator_length']
FIXED = [
    ('eui64', D + 'EUI64_Designator', HEAD + [255] * 8, HEADN + ['ieee_company', 'vendor_specific_extension_identifer']),
    ('eui64_12', D + 'EUI64_12Byte_Designator', HEAD + [255] * 12, HEADN + ['ieee_company', 'vendor_specific_extension_identifer', 'directory_id']),
    ('eui64_16', D + 'EUI64_16Byte_Designator', HEAD + [255] * 16, HEADN + ['identifier_extension', 'ieee_company', 'vendor_specific_extension_identifer']),
    ('naa_extended', D + 'NAA_IEEE_Extended_Designator', HEAD + [255] * 8, HEADN + ['naa', 'vendor_specific_identifier_a', 'ieee_company', 'vendor_specific_identifier_b']),
    ('naa_local', D + 'NAA_Locally_Assigned_Designator', HEAD + [255] * 8, HEADN + ['naa', 'locally_administered_value']),
    ('naa_registered', D + 'NAA_IEEE_Registered_Designator', HEAD + [255] * 8, HEADN + ['naa', 'ieee_company_id', 'vendor_specific_identifier']),
    ('naa_registered_extended', D + 'NAA_IEEE_Registered_Extended_Designator', HEAD + [255] * 16,
     HEADN + ['naa', 'ieee_company_id', 'vendor_specific_identifier', 'vendor_specific_identifier_extension']),
    ('relative_port', D + 'RelativeTargetPortDesignator', HEAD + [0, 0, 255, 255], HEADN + ['relative_target_port_identifier']),
    ('port_group', D + 'TargetPortGroupDesignator', HEAD + [0, 0, 255, 255], HEADN + ['target_port_group']),
    ('unit_group', D + 'LogicalUnitGroupDesignator', HEAD + [0, 0, 255, 255], HEADN + ['logical_unit_group']),
    ('capabilities', C + 'persist.input.PersistentReserveInReportCapabilitiesResponse', [255, 255, 255, 255, 0xea, 1, 255, 255],
     ['length', 'persist_through_power_lost_capable', 'all_target_ports_capable', 'allow_commands', 'type_mask_valid', 'write_exclusive', 'exclusive_access_all_registrants']),
    ('reservation', C + 'persist.input.PersistentReserveInReadReservationResponse', [255] * 24, ['pr_generation', 'additional_length', 'reservation_key', 'pr_type', 'scope']),
    ('pr_out_list', C + 'persist.output.PersistentReserveOutCommandBasicParameterList', [255] * 16 + [0] * 4 + [0x0d, 0, 0, 0],
     ['reservation_key', 'service_action_reservation_key', 'activate_persist_through_power_loss', 'all_target_ports', 'specify_initiator_ports']),
    ('target_port', C + 'rtpg.TargetPortDescriptor', [0, 0, 255, 255], ['relative_target_port_identifier']),
    ('veritas', C + 'inquiry.vpd_pages.veritas.VeritasVPDPageBuffer', [255] * 4 + [127, 255], ['page_code', 'page_length', 'raid_type', 'is_thin_lun', 'is_replication_dst']),
    ('block_limits', C + 'inquiry.vpd_pages.block_limits.BlockLimitsVPDPageBuffer', [255] * 4 + [1] + [255] * 28 + [255] * 11, ['wsnz', 'maximum_transfer_length', 'maximum_unmap_lba_count', 'ugavalid', 'maximum_write_same_length']),
]
@family('C27', FIXED, targets=lambda path, mask, names: (path.replace('infi.asi.', ''),))
def fixed_structure(V, path, mask, names):
    """decoding, packing and decoding again: every field is where it was and has the value it had"""
    b = V.bytes('data', len(mask))
    twice(V, cls_of(path), b, masked(V, b, mask), names)

TAILS = [('reserved', D + 'Reserved_Designator', 'designator'), ('vendor', D + 'VendorSpecificDesignator', 'vendor_specific_identifier'),
         ('md5', D + 'MD5LogicalUnitDesignator', 'md5_logical_unit_identifier'), ('scsi_name', D + 'SCSINameDesignator', 'scsi_name_string')]
@family('C27', TAILS, targets=lambda path, attr: (path.replace('infi.asi.', ''),))
def designator_with_bytes(V, path, attr):
    """designators that hold bytes of any length: packed with those bytes and their number as the designator length"""
    m = V.length('m', 0, 255)
    head, data = V.bytes('head', 3), V.bytes('identifier', m)
    b = V.cat(head, V.be(m, 1), data)
    twice(V, cls_of(path), b, V.cat(masked(V, head, HEAD[:3]), V.be(m, 1), data), HEADN + [attr])
    new = V.length('m2', 0, 255)
    data2 = V.bytearray(V.bytes('another', new))
    def change():
        o = cls_of(path)()
        o.unpack(b)
        setattr(o, attr, data2)
        return o.pack()
    st, p = V.call(change)
    V.check('packed with another identifier', st == 'ok')
    V.check_eq('the length is that of the bytes it holds now', p, V.cat(masked(V, head, HEAD[:3]), V.be(new, 1), bytes(data2) if not V.symbolic else data2))

@contract('C27', targets=('T10VendorIDDesignator',))
def t10_designator(V):
    """the vendor identification is 8 characters, padded, and counts in the designator length with the identifier that follows it"""
    path = D + 'T10VendorIDDesignator'
    m = V.length('m', 0, 247)
    k = V.choice('k', list(range(9)))
    head, data = V.bytes('head', 3), V.bytes('identifier', m)
    name = V.ascii('vendor', k)
    if k: V.assume(V.And(name[k - 1] != 0, name[k - 1] != 32))
    b = V.cat(head, V.be(m + 8, 1), name, PAD[k:], data)
    twice(V, cls_of(path), b, V.cat(masked(V, head, HEAD[:3]), V.be(m + 8, 1), name, PAD[k:], data), HEADN + ['t10_vendor_identification', 'vendor_specific_identifier'])

@contract('C27', targets=('TransportId',))
def transport_id(V):
    """a transport id of any length"""
    m = V.length('m', 0, 300)
    head, data = V.bytes('head', 1), V.bytes('specific', m)
    twice(V, cls_of(C + 'persist.transport.TransportId'), V.cat(head, data), V.cat(masked(V, head, [0xcf]), data), ['protocol_identifier', 'format_code', 'specific_data'])

@contract('C27', targets=('UnitSerialNumberVPDPageBuffer',))
def serial_number_page(V):
    """the page length is the length of the serial number"""
    m = V.choice('m', [0, 1, 2, 8, 20, 36])
    head, text = V.bytes('head', 3), V.ascii('serial', m)
    if m: V.assume(V.And(text[m - 1] != 0, text[m - 1] != 32))
    b = V.cat(head, V.be(m, 1), text)
    twice(V, cls_of(C + 'inquiry.vpd_pages.unit_serial_number.UnitSerialNumberVPDPageBuffer'), b, V.cat(masked(V, head, [255, 255, 0]), V.be(m, 1), text), ['page_code', 'page_length', 'product_serial_number'])

@family('C27', [('rtpg%d' % n, n) for n in (0, 1, 2, 3)], targets=('TargetPortGroupDescriptor', 'TargetPortDescriptor'))
def port_group(V, n):
    """a target port group with its ports"""
    head, tail = V.bytes('head', 7), V.bytes('ports', 4 * n)
    twice(V, cls_of(C + 'rtpg.TargetPortGroupDescriptor'), V.cat(head, V.to_bytes(n), tail),
          V.cat(masked(V, head, [0x8f, 0xdf, 255, 255, 0, 255, 0]), V.to_bytes(n), masked(V, tail, [0, 0, 255, 255] * n)), ['asymetric_access_state', 'pref', 'target_port_group', 'status_code', 'target_port_count'])

STRUCTS = [('capacity10', C + 'read_capacity.ReportReadCapacityData10', [255] * 8, ['last_logical_block_address', 'block_length_in_bytes']),
           ('capacity16', C + 'read_capacity.ReportReadCapacityData16', [255] * 12 + [0x0f, 255, 255, 255] + [0] * 16,
            ['last_logical_block_address', 'block_length_in_bytes', 'prot_en', 'p_type', 'logical_blocks_per_physical_block', 'p_i_exponent', 'tpe', 'troz', 'lowest_aligned_lba_msb', 'lowest_aligned_lba_lsb'])]
@family('C27', STRUCTS, targets=lambda path, mask, names: (path.replace('infi.asi.', ''),))
def fixed_struct(V, path, mask, names):
    """capacity data: decoding, packing and decoding again"""
    cls = cls_of(path)
    b = V.bytes('data', len(mask))
    st, o = V.call(lambda: cls.create_from_string(b))
    V.check('decoded', st == 'ok')
    st, p = V.call(lambda: cls.write_to_string(o))
    V.check('packed', st == 'ok')
    V.check_eq('the bytes are those of the fields, every other bit zero', p, masked(V, b, mask))
    st, o2 = V.call(lambda: cls.create_from_string(p))
    V.check('decoded again', st == 'ok')
    for n in names: V.check('the same %s' % n, V.eq(getattr(o2, n), getattr(o, n)))

@family('C27', [('without', False), ('with', True)], targets=('StandardInquiryDataBuffer', 'StandardInquiryExtendedDataBuffer'))
def standard_inquiry(V, extended):
    """standard inquiry data with and without its extension: the additional length is that of what is packed, texts are padded with blanks"""
    head = V.bytes('head', 8)
    texts = []
    for name, w in (('vendor', 8), ('product', 16), ('revision', 4)):
        k = V.choice(name + '_length', [0, 1, w])
        t = V.ascii(name, k)
        if k: V.assume(V.And(t[k - 1] != 0, t[k - 1] != 32))
        texts += [t, b' ' * (w - k)]
    names = ['cong', 'rmb', 'version', 'response_data_format', 'hisup', 'normaca', 'additional_length', 'protect', 'threepc', 'tpgs', 'acc', 'sccs', 'addr16', 'multi_p', 'enc_serv', 'cmd_que',
             't10_vendor_identification', 'product_identification', 'product_revision_level']
    ext, want_ext = b'', b''
    if extended:
        m = V.length('m', 1, 160)
        ext = V.bytes('extension', 60)
        tail = V.bytes('vendor_specific', m)
        want_ext = V.cat(masked(V, ext, [255] * 20 + [0x0f, 0] + [255] * 16 + [0] * 22), tail)
        ext = V.cat(ext, tail)
    n = V.len(ext) + 31
    b = V.cat(head[:4], V.be(n, 1), head[5:], *(texts + [ext]))
    twice(V, cls_of(C + 'inquiry.standard.StandardInquiryDataBuffer'), b,
          V.cat(masked(V, head[:4], [255, 0xc0, 255, 0x3f]), V.be(n, 1), masked(V, head[5:], [0xf9, 0x51, 0x32]), *(texts + [want_ext])), names)
