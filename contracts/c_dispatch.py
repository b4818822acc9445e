"""C16 choosing the command and the decoder of a page by its code; tables of names."""
from engine.registry import contract, family
from contracts._lib import *

VPD = {0x00: 'SupportedVPDPagesBuffer', 0x80: 'UnitSerialNumberVPDPageBuffer', 0x83: 'DeviceIdentificationVPDPageBuffer', 0x89: 'AtaInformationVPDPageBuffer',
       0xb0: 'BlockLimitsVPDPageBuffer', 0xb2: 'LogicalBlockProvisioningVPDPageBuffer', 0xc0: 'VeritasVPDPageBuffer'}
SES = {0x00: 'SupportedDiagnosticPagesData', 0x01: 'ConfigurationDiagnosticPagesData', 0x02: 'EnclosureStatusDiagnosticPagesData',
       0x07: 'ElementDescriptorDiagnosticPagesData', 0x80: 'Vendor0x80DiagnosticPagesData'}
TV, TS = ('get_vpd_page', 'get_vpd_page_data'), ('get_ses_page', 'get_ses_page_data')

def vpd(): 
    import infi.asi.cdb.inquiry.vpd_pages as m
    return m
def ses():
    import infi.asi.cdb.diagnostic.ses_pages as m
    return m

def vpd_case(V, p, expect):
    m = vpd()
    cls = m.get_vpd_page_data(p)
    V.check('decoder of the page', cls is getattr(m, expect))
    resp = V.cat(V.to_bytes(0, p), V.zeros(598))
    st, cmds, r, c = attempt(V, lambda: m.get_vpd_page(p)(), resp)
    V.check('executes', st == 'ok')
    alloc = c.allocation_length
    check_read(V, cmds, V.cat(V.to_bytes(0x12, 1, p), V.be(alloc, 2), V.to_bytes(0)), alloc)
    V.check('allocation holds a page header', alloc >= 8)
    V.check('the result is decoded by the decoder of the page', isinstance(r, cls))
    V.check('page code of the result', V.eq(r.page_code, p))

@family('C16', [('%02Xh' % p, p) for p in sorted(VPD)], targets=TV)
def vpd_page(V, p):
    """a vital product data page with a decoder: its command asks for that very page, its result is decoded by that page's decoder"""
    vpd_case(V, p, VPD[p])

@contract('C16', targets=TV)
def vpd_page_without_decoder(V):
    """every other page code 0..255: the command asks for that very page and the result keeps exactly the page's raw bytes"""
    m = vpd()
    p = V.int('page', 0, 255)
    V.assume(V.And(*[V.Not(V.eq(p, k)) for k in sorted(VPD)]))
    vpd_case(V, p, 'UnknownVPDPageBuffer')
    n = V.length('n', 4, 1 << 16)
    b = V.bytes('response', n)
    V.assume(n >= 4 + u(V, b, 2, 2))
    st, cmds, r, c = attempt(V, lambda: m.get_vpd_page(p)(), b)
    V.check('executes on every complete response', st == 'ok')
    V.check('as many bytes as announced', V.eq(V.len(r.page_data), u(V, b, 2, 2)))
    i = V.int('i', 0, 65535)
    V.assume(i < u(V, b, 2, 2))
    V.check('page bytes', V.eq(V.at(r.page_data, i), b[4 + i]))

@contract('C16', targets=TV)
def vpd_page_out_of_range(V):
    """a page code that does not fit in a byte is never sent as another one"""
    m = vpd()
    p = V.int('page')
    V.assume(V.Or(p < 0, p > 255))
    st, cmds, r, c = attempt(V, lambda: m.get_vpd_page(p)(), V.zeros(600))
    V.check('refused', st == 'exc' and len(cmds) == 0)

def conf_bytes(V):
    """a configuration page with one enclosure (of the smallest size the standard allows) and no elements"""
    return V.cat(V.to_bytes(1, 0, 0, 44, 0, 0, 0, 0), V.to_bytes(0, 0, 0, 36), V.zeros(200))

def zero_conf(V):
    m = ses()
    r = m.ConfigurationDiagnosticPagesData(conf_page=None)
    r.unpack(conf_bytes(V))
    return r

def ses_case(V, p, expect):
    m = ses()
    cls = m.get_ses_page_data(p)
    V.check('decoder of the page', cls is getattr(m, expect))
    known = isinstance(p, int)
    args = (zero_conf(V),) if known and p in (2, 7) else ()
    resp = V.cat(V.to_bytes(p), V.zeros(3 if known and p == 0x80 else 99)) if not (known and p == 1) else conf_bytes(V)
    st, cmds, r, c = attempt(V, lambda: m.get_ses_page(p)(*args), resp)
    V.check('executes', st == 'ok')
    alloc = c.allocation_length
    check_read(V, cmds, V.cat(V.to_bytes(0x1c, 1, p), V.be(alloc, 2), V.to_bytes(0)), alloc)
    V.check('allocation holds a page header', alloc >= 8)
    V.check('the result is decoded by the decoder of the page', isinstance(r, cls))
    V.check('page code of the result', V.eq(r.page_code, p))

@family('C16', [('%02Xh' % p, p) for p in sorted(SES)], targets=TS)
def ses_page(V, p):
    """an enclosure services page with a decoder: its command asks for that very page, its result is decoded by that page's decoder"""
    ses_case(V, p, SES[p])

@contract('C16', targets=TS)
def ses_page_without_decoder(V):
    """every other page code 0..255: the command asks for that very page and its result keeps exactly the page's raw bytes"""
    m = ses()
    p = V.int('page', 0, 255)
    V.assume(V.And(*[V.Not(V.eq(p, k)) for k in sorted(SES)]))
    ses_case(V, p, 'UnknownDiagnosticPageData')
    n = V.length('n', 1, 1 << 16)
    b = V.bytes('response', n)
    st, cmds, r, c = attempt(V, lambda: m.get_ses_page(p)(), b)
    V.check('executes on every response', st == 'ok')
    V.check_eq('page bytes', r.page_data, b[1:])

@contract('C16', targets=TS)
def ses_page_out_of_range(V):
    """a page code that does not fit in a byte is never sent as another one"""
    m = ses()
    p = V.int('page')
    V.assume(V.Or(p < 0, p > 255))
    st, cmds, r, c = attempt(V, lambda: m.get_ses_page(p)(), V.zeros(600))
    V.check('refused', st == 'exc' and len(cmds) == 0)

import re
def norm(t): return ' '.join(re.findall('[a-z0-9]+', t.lower()))
DESIGNATOR_TYPES = ['vendor specific', 'T10 vendor identification', 'EUI-64', 'NAA', 'Relative target port', 'Target port group', 'Logical unit group',
                    'MD5 logical unit identifier', 'SCSI name string', 'Protocol specific port identifier', 'UUID']
DEVICE_TYPES = {0: 'disk', 1: 'tape', 2: 'printer', 3: 'processor', 4: 'write once', 5: 'cd', 6: 'scanner', 7: 'optical memory', 8: 'medium changer',
                9: 'communications', 0xc: 'storage array', 0xd: 'enclosure services', 0xe: 'simplified direct access', 0xf: 'optical card',
                0x10: 'bridge controller', 0x11: 'object based', 0x12: 'automation', 0x13: 'security manager', 0x14: 'zoned block',
                0x1e: 'well known', 0x1f: 'no physical device'}
VPD_NAMES = {0: 'supported vpd pages', 0x80: 'unit serial number', 0x81: 'implemented operating', 0x82: 'ascii implemented operating definition',
             0x83: 'device identification', 0x84: 'software interface identification', 0x85: 'management network addresses', 0x86: 'extended inquiry',
             0x87: 'mode page policy', 0x88: 'scsi ports', 0x89: 'ata information', 0x8a: 'power condition', 0x8b: 'device constituents', 0x8c: 'cfa profile information',
             0x8d: 'power consumption', 0x8f: 'third party copy', 0x90: 'protocol specific logical unit information', 0x91: 'protocol specific port information',
             0x92: 'scsi feature sets'}
VPD_NAMES_BY_TYPE = {(0xb0, 0): 'block limits', (0xb0, 1): 'sequential access device capabilities', (0xb0, 0x11): 'osd information', (0xb1, 0): 'block device characteristics',
                     (0xb1, 0x11): 'security token', (0xb2, 0): 'logical block provisioning', (0xb2, 1): 'tapealert supported flags', (0xb3, 0): 'referrals'}
ELEMENT_TYPES = ['unspecified', 'device slot', 'power supply', 'cooling', 'temperature sensor', 'door', 'audible alarm', 'enclosure services controller', 'scc controller',
                 'nonvolatile cache', 'invalid operation reason', 'uninterruptible power supply', 'display', 'key pad', 'enclosure', 'scsi port', 'language',
                 'communication port', 'voltage sensor', 'current sensor', 'scsi target port', 'scsi initiator port', 'simple subenclosure', 'array device slot',
                 'sas expander', 'sas connector']
ELEMENT_STATUS = ['unsupported', 'ok', 'critical', 'noncritical', 'unrecoverable', 'not installed', 'unknown', 'not available', 'no access']
FAN_SPEED = ['stopped', 'lowest speed', 'second lowest speed', 'third lowest speed', 'intermediate speed', 'third highest speed', 'second highest speed', 'highest speed']
VERSIONS = {0: 'no conformance', 3: 'spc', 4: 'spc 2', 5: 'spc 3', 6: 'spc 4'}

def says(name, text): return (' ' + norm(text) + ' ') in (' ' + norm(name) + ' ')

@contract('C16', targets=('SCSI_DESIGNATOR_TYPES', 'SCSI_PERIPHERAL_DEVICE_TYPE', 'SCSI_VPD_NAME', 'SCSI_VERSION_NAME', 'SCSI_CODE_SETS', 'SCSI_DESIGNATOR_ASSOCIATIONS'))
def names(V):
    """the tables of names give every standard code its own name; designator types beyond the standard ones are named as reserved"""
    m = vpd()
    for i, t in enumerate(DESIGNATOR_TYPES): V.check('designator type %d' % i, says(m.SCSI_DESIGNATOR_TYPES[i], t))
    for i in range(len(DESIGNATOR_TYPES), 16):
        V.check('designator type %d is reserved' % i, says(m.SCSI_DESIGNATOR_TYPES[i], 'reserved') and hex(i) in m.SCSI_DESIGNATOR_TYPES[i])
    for i in range(32): V.check('device type %d has a name' % i, bool(m.SCSI_PERIPHERAL_DEVICE_TYPE[i]))
    for i in sorted(DEVICE_TYPES): V.check('device type %d' % i, says(m.SCSI_PERIPHERAL_DEVICE_TYPE[i], DEVICE_TYPES[i]))
    for i in sorted(VPD_NAMES): V.check('vital product data page %d' % i, says(m.SCSI_VPD_NAME[i], VPD_NAMES[i]))
    for i, d in sorted(VPD_NAMES_BY_TYPE): V.check('vital product data page %d of device type %d' % (i, d), says(m.SCSI_VPD_NAME[i][d], VPD_NAMES_BY_TYPE[i, d]))
    for i in sorted(VERSIONS): V.check('version %d' % i, says(m.SCSI_VERSION_NAME[i], VERSIONS[i]))
    for i, t in ((1, 'binary'), (2, 'ascii'), (3, 'utf8')): V.check('code set %d' % i, norm(m.SCSI_CODE_SETS[i]) in (t, t.replace('utf8', 'utf 8')))
    for i, t in ((0, 'logical unit'), (1, 'target port'), (2, 'target device')): V.check('association %d' % i, says(m.SCSI_DESIGNATOR_ASSOCIATIONS[i], t))


@contract('C16', targets=('ELEMENT_TYPE_CODES', 'ELEMENT_STATUS_CODE', 'FAN_SPEED_CODE'))
def enclosure_names(V):
    """the tables of enclosure element types, element states and fan speeds give every standard code its own name"""
    import infi.asi.cdb.diagnostic.ses_pages.configuration as c
    import infi.asi.cdb.diagnostic.ses_pages.enclosure_status as e
    for i, t in enumerate(ELEMENT_TYPES): V.check('element type %d' % i, says(c.ELEMENT_TYPE_CODES[i], t))
    for i, t in enumerate(ELEMENT_STATUS): V.check('element state %d' % i, norm(e.ELEMENT_STATUS_CODE[i]) == t)
    for i, t in enumerate(FAN_SPEED): V.check('fan speed %d' % i, norm(e.FAN_SPEED_CODE[i]).endswith('its ' + t) or norm(e.FAN_SPEED_CODE[i]).endswith('is ' + t))
