"""C14: SCSI enclosure services diagnostic pages."""
from engine.registry import contract, family
from ._lib import *
import importlib

P = 'infi.asi.cdb.diagnostic.ses_pages.'
def imp(path):
    m, n = path.rsplit('.', 1)
    return getattr(importlib.import_module(P + m), n)
EX = 'infi.asi.cdb.diagnostic.ReceiveDiagnosticResultCommand.execute'
def ex(*names): return [EX] + [P + n for n in names]

class Conf(object):
    """a decoded configuration page: what the status and element descriptor pages take from it is its list of type descriptor headers"""
    def __init__(self, headers): self.type_descriptor_header_list = headers

def header(typ, count, **kw):
    h = imp('configuration.TypeDescriptorHeader')()
    h.element_type, h.possible_elements_num, h.subenclosure_identifier, h.type_descriptor_text_length = typ, count, 0, 0
    return h

# ---- byte list pages
BYTES = [('supported', 'supported_pages.SupportedDiagnosticPagesCommand', 'supported_pages'), ('vendor_80', 'vendor_0x80.Vendor0x80DiagnosticPagesCommand', 'vendor_specific')]

@family('C14', BYTES, targets=lambda path, field: ex(path.replace('Command', 'Data')))
def byte_list_page(V, path, field):
    """pages 00h and 80h: header fields, then the bytes of the page one by one, none added or left out"""
    k = V.track('k')
    n = V.length('n', 4, 300)
    b = V.cat(V.bytes('head', 2), V.be(n - 4, 2), V.bytes('body', n - 4))
    cmds, r = run(V, imp(path)(), b)
    check_fields(V, r, dict(page_code=('u', 0, 1), page_length=('u', 2, 2)), b)
    l = getattr(r, field)
    V.check('number of bytes', V.len(l) == n - 4)
    if k < n - 4: V.check('byte k', V.eq(V.at(l, k), b[4 + k]))

@contract('C14', targets=ex('unknown.UnknownDiagnosticPageData', 'unknown.UnknownDiagnosticPageCommand'))
def unknown_page(V):
    """a page without a decoder is returned as its page code and its remaining bytes"""
    n = V.length('n', 1, 2100)
    b = V.bytes('response', n)
    cmds, r = run(V, imp('unknown.UnknownDiagnosticPageCommand')(V.int('page', 0, 255))(), b)
    V.check('page code', V.eq(r.page_code, b[0]))
    V.check_eq('page bytes', r.page_data, b[1:])

# ---- configuration page
ENC = {'enclosure_services_processes_num': ('b', 0, 0, 3), 'relative_enclosure_services_process_identifier': ('b', 0, 4, 3), 'subenclosure_identifier': ('u', 1, 1),
       'type_descriptor_headers_num': ('u', 2, 1), 'enclosure_descriptor_length': ('u', 3, 1)}
HDR = ['element_type', 'possible_elements_num', 'subenclosure_identifier', 'type_descriptor_text_length']
CONF = dict(page_code=('u', 0, 1), secondary_subenclosures_num=('u', 1, 1), page_length=('u', 2, 2), generation_code=('u', 4, 4))
CT = ex('configuration.ConfigurationDiagnosticPagesData', 'configuration.EnclosureDescriptor', 'configuration.TypeDescriptorHeader')
CC = 'configuration.ConfigurationDiagnosticPagesCommand'

def enclosure(V, i, types, vendor):
    return V.cat(V.bytes('enclosure%d' % i, 2), V.be(types, 1), V.be(36 + vendor, 1), V.bytes('identifier%d' % i, 8), V.ascii('vendor%d' % i, 8), V.ascii('product%d' % i, 16),
                 V.ascii('revision%d' % i, 4), V.bytes('vendor_specific%d' % i, vendor))

def check_enclosure(V, d, b, vendor):
    check_fields(V, d, ENC, b)
    V.check_eq('enclosure identifier', d.enclosure_logical_identifier, b[4:12])
    for f, lo, hi in (('enclosure_vendor_identification', 12, 20), ('product_identification', 20, 36), ('product_revision_level', 36, 40)):
        V.check_eq(f, getattr(d, f), b[lo:hi].rstrip(b'\0').rstrip(b' ').decode('ascii'))
    V.check_eq('vendor specific bytes', d.vendor_specific_enclosure_information, b[40:40 + vendor])

@contract('C14', targets=CT)
def configuration_headers(V):
    """one enclosure with any number of element types: all enclosure descriptor fields, and header k of the type descriptor
    headers comes from its own 4 bytes"""
    V.returned_only()
    k = V.track('k')
    t = V.int('types', 0, 255)
    vendor = V.length('vendor_bytes', 0, 219)
    e = enclosure(V, 0, t, vendor)
    h = V.bytes('headers', 4 * t)
    texts = V.bytes('texts', V.length('texts_len', 0, 4000))
    head = V.cat(V.bytes('head', 1), V.zeros(1), V.bytes('head2', 6))
    b = V.cat(head, e, h, texts)
    st, cmds, r, c = attempt(V, imp(CC), b)
    if st != 'ok': return
    check_fields(V, r, CONF, b)
    V.check('one enclosure', V.len(r.enclosure_descriptor_list) == 1)
    check_enclosure(V, V.at(r.enclosure_descriptor_list, 0), e, vendor)
    V.check('number of headers', V.len(r.type_descriptor_header_list) == t)
    if k < t:
        d = V.at(r.type_descriptor_header_list, k)
        for i, f in enumerate(HDR): V.check('%s of header k' % f, V.eq(getattr(d, f), h[4 * k + i]))

@contract('C14', targets=CT)
def configuration_texts(V):
    """the texts follow the headers end to end, text k being as long as header k says"""
    V.returned_only()
    t = V.int('types', 1, 255)
    e = enclosure(V, 0, t, 0)
    h = V.bytes('headers', 4 * t)
    tl = V.length('texts_len', 1, 4000)
    texts = V.bytes('texts', tl)
    b = V.cat(V.bytes('head', 1), V.zeros(1), V.bytes('head2', 6), e, h, texts)
    st, cmds, r, c = attempt(V, imp(CC), b)
    if st != 'ok': return
    def step(o, i): return o + h[4 * i + 3]
    got = V.chain('texts', r.type_descriptor_text_list, tl, step, n=t)
    if got is None: return
    text, o, i = got
    V.check_eq('text of an arbitrary header', text, texts[o:o + h[4 * i + 3]])

@contract('C14', targets=CT)
def configuration_text_lengths(V):
    """one enclosure with up to three element types whose texts have any lengths: each text is its own bytes; empty texts at the very end
    of the response may be left out of the list"""
    t = V.choice('types', [1, 2, 3])
    lens = [V.length('text_len', 0, 255) for i in range(t)]
    e = enclosure(V, 0, t, 0)
    hs = [V.cat(V.bytes('header%d' % i, 3), V.to_bytes(lens[i])) for i in range(t)]
    ts = [V.bytes('text%d' % i, lens[i]) for i in range(t)]
    b = V.cat(V.bytes('head', 1), V.zeros(1), V.bytes('head2', 6), e, *(hs + ts))
    cmds, r = run(V, imp(CC)(), b)
    n = V.len(r.type_descriptor_text_list)
    V.check('no more texts than types', n <= t)
    for i in range(t):
        if i < n: V.check_eq('text', V.at(r.type_descriptor_text_list, i), ts[i])
        else: V.check('a text that is left out is empty', V.eq(lens[i], 0))

@contract('C14', targets=CT)
def configuration_subenclosures(V):
    """up to three enclosures with two element types each: every descriptor starts where the one before ends and the headers of
    all of them follow, as many as the enclosures announce together"""
    s = V.choice('secondary', [0, 1, 2])
    types = [V.choice('types', [0, 1, 2]) for i in range(s + 1)]
    vend = [V.choice('vendor_bytes', [0, 3]) for i in range(s + 1)]
    es = [enclosure(V, i, types[i], vend[i]) for i in range(s + 1)]
    n = sum(types)
    hs = [V.cat(V.bytes('header%d' % i, 3), V.to_bytes(i + 2)) for i in range(n)]
    ts = [V.bytes('text%d' % i, i + 2) for i in range(n)]
    b = V.cat(V.bytes('head', 1), V.to_bytes(s), V.bytes('head2', 6), *(es + hs + ts))
    cmds, r = run(V, imp(CC)(), b)
    V.check('number of enclosures', V.len(r.enclosure_descriptor_list) == s + 1)
    for i in range(s + 1): check_enclosure(V, V.at(r.enclosure_descriptor_list, i), es[i], vend[i])
    V.check('number of headers', V.len(r.type_descriptor_header_list) == n)
    V.check('number of texts', V.len(r.type_descriptor_text_list) == n)
    for i in range(n):
        d = V.at(r.type_descriptor_header_list, i)
        for j, f in enumerate(HDR): V.check('header field', V.eq(getattr(d, f), hs[i][j]))
        V.check_eq('text', V.at(r.type_descriptor_text_list, i), ts[i])

# ---- enclosure status page: byte 0 of an element is common, bytes 1-3 depend on the element type
BASE = {'element_status_code': ('b', 0, 0, 4), 'swap': ('b', 0, 4), 'disabled': ('b', 0, 5), 'prdfail': ('b', 0, 6)}
FI = {'fail': ('b', 1, 6), 'ident': ('b', 1, 7)}
REP = dict(FI, report=('b', 2, 0))
SLOT23 = {'report': ('b', 2, 0), 'ident': ('b', 2, 1), 'rmv': ('b', 2, 2), 'ready_insert': ('b', 2, 3), 'encl_bypassed_b': ('b', 2, 4), 'encl_bypassed_a': ('b', 2, 5),
          'do_not_remove': ('b', 2, 6), 'app_client_bypassed_a': ('b', 2, 7), 'device_bypassed_b': ('b', 3, 0), 'device_bypassed_a': ('b', 3, 1), 'bypassed_b': ('b', 3, 2),
          'bypassed_a': ('b', 3, 3), 'device_off': ('b', 3, 4), 'fault_reqstd': ('b', 3, 5), 'fault_sensed': ('b', 3, 6), 'app_client_bypassed_b': ('b', 3, 7)}
ELEMENTS = {
 0x01: dict(SLOT23, slot_address=('u', 1, 1)),
 0x02: {'ident': ('b', 1, 7), 'dc_over_current': ('b', 2, 1), 'dc_under_voltage': ('b', 2, 2), 'dc_over_voltage': ('b', 2, 3), 'dc_fail': ('b', 3, 0), 'ac_fail': ('b', 3, 1),
        'temp_warn': ('b', 3, 2), 'overtmp_fail': ('b', 3, 3), 'off': ('b', 3, 4), 'reqstd_on': ('b', 3, 5), 'fail': ('b', 3, 6), 'hot_swap': ('b', 3, 7)},
 0x03: {'ident': ('b', 1, 7), 'speed_code': ('b', 3, 0, 3), 'off': ('b', 3, 4), 'reqstd_on': ('b', 3, 5), 'fail': ('b', 3, 6), 'hot_swap': ('b', 3, 7)},
 0x04: dict(FI, temperature=('u', 2, 1), ut_warn=('b', 3, 0), ut_fail=('b', 3, 1), ot_warn=('b', 3, 2), ot_fail=('b', 3, 3)),
 0x05: dict(FI, unlocked=('b', 3, 0), door_open=('b', 3, 1)),
 0x06: dict(FI, tui_unrecov=('b', 3, 0), tui_crit=('b', 3, 1), tui_non_crit=('b', 3, 2), tui_info=('b', 3, 3), remind=('b', 3, 4), muted=('b', 3, 6), rqst_mute=('b', 3, 7)),
 0x07: dict(REP, hot_swap=('b', 3, 7)),
 0x08: REP,
 0x09: dict(FI, size_mult=('b', 1, 0, 2), cache_size=('u', 2, 2)),
 0x0A: {'invop_type': ('b', 1, 6, 2), 'invop_bytes': ('u', 2, 2)},
 0x0B: {'battery_status': ('u', 1, 1), 'intf_fail': ('b', 2, 0), 'warn': ('b', 2, 1), 'ups_fail': ('b', 2, 2), 'dc_fail': ('b', 2, 3), 'ac_fail': ('b', 2, 4), 'ac_qual': ('b', 2, 5),
        'ac_hi': ('b', 2, 6), 'ac_low': ('b', 2, 7), 'bpf': ('b', 3, 0), 'batt_fail': ('b', 3, 1), 'fail': ('b', 3, 6), 'ident': ('b', 3, 7)},
 0x0C: dict(FI, display_mode_status=('b', 1, 0, 2), display_char_status=('u', 2, 2)),
 0x0D: FI,
 0x0E: {'ident': ('b', 1, 7), 'warn_indication': ('b', 2, 0), 'failure_indication': ('b', 2, 1), 'time_until_power_cycle': ('b', 2, 2, 6), 'warn_requested': ('b', 3, 0),
        'failure_requested': ('b', 3, 1), 'requested_power_off_duration': ('b', 3, 2, 6)},
 0x0F: dict(REP, xmit_fail=('b', 3, 0), lol=('b', 3, 1), disabled=('b', 3, 4)),
 0x10: {'ident': ('b', 1, 7), 'language_code': ('u', 2, 2)},
 0x11: dict(FI, disabled=('b', 3, 0)),
 0x12: dict(FI, crit_under=('b', 1, 0), crit_over=('b', 1, 1), warn_under=('b', 1, 2), warn_over=('b', 1, 3), voltage=('s', 2, 2)),
 0x13: dict(FI, crit_over=('b', 1, 1), warn_over=('b', 1, 3), current=('s', 2, 2)),
 0x14: dict(REP, enabled=('b', 3, 0)),
 0x15: dict(REP, enabled=('b', 3, 0)),
 0x16: dict(FI, short_enclosure_status=('u', 3, 1)),
 0x17: dict(SLOT23, rr_abort=('b', 1, 0), rebuild_remap=('b', 1, 1), in_failed_array=('b', 1, 2), in_crit_array=('b', 1, 3), cons_chk=('b', 1, 4), hot_spare=('b', 1, 5),
            rsvd_device=('b', 1, 6), ok=('b', 1, 7)),
 0x18: FI,
 0x19: {'connector_type': ('b', 1, 0, 7), 'ident': ('b', 1, 7), 'connector_phys_link': ('u', 2, 1), 'fail': ('b', 3, 6)},
}
STATUS = dict(page_code=('u', 0, 1), unrecov=('b', 1, 0), crit=('b', 1, 1), non_crit=('b', 1, 2), info=('b', 1, 3), invop=('b', 1, 4), page_length=('u', 2, 2), generation_code=('u', 4, 4))
SC = 'enclosure_status.EnclosureStatusDiagnosticPagesCommand'
ST = ex('enclosure_status.EnclosureStatusDiagnosticPagesData', 'enclosure_status.StatusDescriptor', 'enclosure_status.BaseStatusElement')

def element(V, e, typ, b):
    """status element e holds the 4 bytes b"""
    check_fields(V, e, BASE, b)
    i = e.status_info
    if typ in ELEMENTS:
        check_fields(V, i, ELEMENTS[typ], b)
        if typ == 0x03: V.check('fan speed is an 11-bit big-endian number', V.eq(i.fan_speed, bits(V, b, 1, 0, 3) * 256 + b[2]))
    else:
        for j in range(3): V.check('uninterpreted byte', V.eq(i.general[j], s(V, b, 1 + j)))

@family('C14', [('%02x' % t, t) for t in sorted(ELEMENTS)] + [('00', 0), ('9e', 0x9e), ('other', None)], targets=ST)
def status_elements(V, typ):
    """one element type with any number of elements: the page header, the overall element and element k come from their own 4 bytes,
    bit by bit as SES assigns them for that element type; unknown types keep the raw bytes"""
    k = V.track('k')
    if typ is None: typ = V.choice('element_type', [0x1A, 0x7F, 0x80, 0xFF])
    m = V.int('elements', 0, 255)
    body = V.bytes('elements_bytes', 4 * m)
    b = V.cat(V.bytes('head', 8), V.bytes('overall', 4), body)
    cmds, r = run(V, imp(SC)(Conf([header(typ, m)])), b)
    check_fields(V, r, STATUS, b)
    V.check('one status descriptor', V.len(r.status_descriptors) == 1)
    d = V.at(r.status_descriptors, 0)
    element(V, d.overall_element, None, b[8:12])
    V.check('number of elements', V.len(d.individual_elements) == m)
    if k < m: element(V, V.at(d.individual_elements, k), typ, body[4 * k:4 * k + 4])

@contract('C14', targets=ST)
def status_descriptors(V):
    """any number of element types: the status descriptor of each one follows the one before, is 4 bytes plus 4 per element of that
    type, and is read with that type's header"""
    V.returned_only()
    heads = V.seq('types', 1, 255, lambda i: header(0x0D, V.int('count', 0, 255)))
    t = V.len(heads)
    def count(i): return V.at(heads, i).possible_elements_num
    n = V.length('n', 1, 4000)
    body = V.bytes('descriptors', n)
    b = V.cat(V.bytes('head', 8), body)
    st, cmds, r, c = attempt(V, lambda: imp(SC)(Conf(heads)), b)
    if st != 'ok': return
    def step(o, i):
        V.assume(o + 4 + 4 * count(i) <= n)
        return o + 4 + 4 * count(i)
    got = V.chain('status descriptors', r.status_descriptors, n, step, n=t)
    if got is None: return
    d, o, i = got
    element(V, d.overall_element, None, body[o:o + 4])
    V.check('elements of an arbitrary type', V.len(d.individual_elements) == count(i))

@contract('C14', targets=ST)
def status_two_types(V):
    """two element types, with any number of elements each, are decoded in order with their own layouts"""
    k = V.track('k')
    types = [V.choice('element_type', [0x02, 0x04, 0x33]) for i in range(2)]
    counts = [V.length('count', 0, 255) for i in range(2)]
    parts = [V.bytes('elements', 4 * counts[i] + 4) for i in range(2)]
    b = V.cat(V.bytes('head', 8), *parts)
    cmds, r = run(V, imp(SC)(Conf([header(types[i], counts[i]) for i in range(2)])), b)
    V.check('two status descriptors', V.len(r.status_descriptors) == 2)
    for i in range(2):
        d = V.at(r.status_descriptors, i)
        element(V, d.overall_element, None, parts[i][0:4])
        V.check('number of elements', V.len(d.individual_elements) == counts[i])
        if k < counts[i]: element(V, V.at(d.individual_elements, k), types[i], parts[i][4 * k + 4:4 * k + 8])

# ---- element descriptor page
ET = ex('element_descriptor.ElementDescriptorDiagnosticPagesData', 'element_descriptor.ElementDescriptor', 'element_descriptor.Descriptor')
EC = 'element_descriptor.ElementDescriptorDiagnosticPagesCommand'
EHEAD = dict(page_code=('u', 0, 1), page_length=('u', 2, 2), generation_code=('u', 4, 4))

def text(V, n, label): return V.cat(V.bytes('reserved', 2), V.be(n, 2), V.bytes(label, n))

@contract('C14', targets=ET)
def element_descriptor_overall(V):
    """one element type: the overall descriptor is the announced bytes after its 4-byte header"""
    n = V.length('text_len', 0, 65535)
    t = text(V, n, 'text')
    b = V.cat(V.bytes('head', 8), t, V.bytes('tail', V.length('tail_len', 0, 40)))
    cmds, r = run(V, imp(EC)(Conf([header(1, 0)])), b)
    check_fields(V, r, EHEAD, b)
    V.check('one descriptor', V.len(r.element_descriptors) == 1)
    d = V.at(r.element_descriptors, 0)
    V.check('announced length', V.eq(d.overall_element.descriptor_length, n))
    V.check_eq('descriptor bytes', d.overall_element.descriptor, t[4:])
    V.check('no elements', V.len(d.individual_elements) == 0)

@contract('C14', targets=ET)
def element_descriptor_elements(V):
    """one element type with any number of elements: the element descriptors follow the overall one end to end, each as long as it
    says"""
    V.returned_only()
    m = V.int('elements', 1, 255)
    o = text(V, V.length('overall_len', 0, 300), 'overall')
    n = V.length('n', 1, 8000)
    body = V.bytes('descriptors', n)
    b = V.cat(V.bytes('head', 8), o, body)
    st, cmds, r, c = attempt(V, lambda: imp(EC)(Conf([header(1, m)])), b)
    if st != 'ok': return
    d = V.at(r.element_descriptors, 0)
    V.check_eq('overall descriptor bytes', d.overall_element.descriptor, o[4:])
    def step(o):
        V.assume(o + 4 <= n)
        V.assume(o + 4 + u(V, body, o + 2, 2) <= n)
        return o + 4 + u(V, body, o + 2, 2)
    got = V.chain('element descriptors', d.individual_elements, n, step, n=m)
    if got is None: return
    x, o = got
    V.check('announced length of an arbitrary element', V.eq(x.descriptor_length, u(V, body, o + 2, 2)))
    V.check_eq('bytes of an arbitrary element', x.descriptor, body[o + 4:o + 4 + u(V, body, o + 2, 2)])

@contract('C14', targets=ET)
def element_descriptor_two_types(V):
    """two element types with up to two elements each"""
    counts = [V.choice('count', [0, 1, 2]) for i in range(2)]
    parts = [[text(V, V.length('text_len', 0, 65535), 'text') for j in range(counts[i] + 1)] for i in range(2)]
    b = V.cat(V.bytes('head', 8), *(parts[0] + parts[1]))
    cmds, r = run(V, imp(EC)(Conf([header(1, c) for c in counts])), b)
    V.check('two descriptors', V.len(r.element_descriptors) == 2)
    for i in range(2):
        d = V.at(r.element_descriptors, i)
        V.check_eq('overall', d.overall_element.descriptor, parts[i][0][4:])
        V.check('number of elements', V.len(d.individual_elements) == counts[i])
        for j in range(counts[i]): V.check_eq('element', V.at(d.individual_elements, j).descriptor, parts[i][j + 1][4:])
