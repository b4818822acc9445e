"""C07: the remaining query commands: exact CDB bytes, transfer size, refusal of what does not fit."""
from engine.registry import contract, family
from ._lib import *
import importlib

C = 'infi.asi.cdb.'
def imp(path):
    m, n = path.rsplit('.', 1)
    return getattr(importlib.import_module(C + m), n)
def tg(path): return [C + path + '.__init__', C + path + '.execute', C + path.rsplit('.', 1)[0]]

def sent(V, build, response=b''):
    """(commands sent, constructed?) of building and executing; decoding outcome is not judged here"""
    st, cmds, r, c = attempt(V, build, response)
    return cmds, st, r

@contract('C07', targets=tg('tur.TestUnitReadyCommand'))
def test_unit_ready(V):
    """TEST UNIT READY: six zero bytes, no data transfer, result True whatever the (empty) response"""
    cmds, r = run(V, imp('tur.TestUnitReadyCommand')(), V.bytes('response', V.length('n', 0, 4)))
    check_read(V, cmds, V.zeros(6), 0)
    V.check('ready', r is True)

@contract('C07', targets=tg('read_capacity.ReadCapacity10Command'))
def read_capacity_10(V):
    """READ CAPACITY(10): opcode 25h, LBA bytes 2-5, PMI bit 0 of byte 8; 8 bytes requested; an LBA that does not fit is refused"""
    lba = V.int('lba', -(1 << 70), 1 << 70)
    pmi = V.int('pmi', 0, 1)
    cmds, st, r = sent(V, lambda: imp('read_capacity.ReadCapacity10Command')(lba, pmi), V.bytes('response', 8))
    if cmds:
        V.check('the LBA fits', in_range(V, lba, 32))
        check_read(V, cmds, V.cat(V.to_bytes(0x25, 0), V.be(lba, 4), V.zeros(2), V.to_bytes(pmi, 0)), 8)
    else: V.check('an LBA that fits is sent', V.Not(in_range(V, lba, 32)))

@contract('C07', targets=tg('read_capacity.ReadCapacity16Command'))
def read_capacity_16(V):
    """READ CAPACITY(16): opcode 9Eh/10h, LBA bytes 2-9, allocation length 32 in bytes 10-13 and requested, PMI bit 0 of byte 14"""
    lba = V.int('lba', -(1 << 70), 1 << 70)
    pmi = V.int('pmi', 0, 1)
    cmds, st, r = sent(V, lambda: imp('read_capacity.ReadCapacity16Command')(lba, pmi), V.bytes('response', 32))
    if cmds:
        V.check('the LBA fits', in_range(V, lba, 64))
        check_read(V, cmds, V.cat(V.to_bytes(0x9E, 0x10), V.be(lba, 8), V.be(32, 4), V.to_bytes(pmi, 0)), 32)
    else: V.check('an LBA that fits is sent', V.Not(in_range(V, lba, 64)))

@contract('C07', targets=tg('read_capacity.ReadCapacity10Command'))
def read_capacity_defaults(V):
    """without arguments both READ CAPACITY commands address block 0 with PMI clear, and executing again sends the same"""
    a, b = imp('read_capacity.ReadCapacity10Command')(), imp('read_capacity.ReadCapacity16Command')()
    for i in range(2):
        check_read(V, run(V, a, V.zeros(8))[0], V.cat(V.to_bytes(0x25), V.zeros(9)), 8)
        check_read(V, run(V, b, V.zeros(32))[0], V.cat(V.to_bytes(0x9E, 0x10), V.zeros(8), V.be(32, 4), V.zeros(2)), 32)

@contract('C07', targets=tg('report_luns.ReportLunsCommand'))
def report_luns(V):
    """REPORT LUNS: opcode A0h, select report byte 2, allocation length bytes 6-9 and requested; values that do not fit are refused"""
    sel = V.int('select_report', -300, 600)
    n = V.int('allocation_length', -(1 << 70), 1 << 70)
    cmds, st, r = sent(V, lambda: imp('report_luns.ReportLunsCommand')(sel, n), V.zeros(16))
    ok = V.And(in_range(V, sel, 8), in_range(V, n, 32))
    if cmds:
        V.check('the arguments fit', ok)
        check_read(V, cmds, V.cat(V.to_bytes(0xA0, 0), V.be(sel, 1), V.zeros(3), V.be(n, 4), V.zeros(2)), n)
    else: V.check('arguments that fit are sent', V.Not(ok))

@contract('C07', targets=tg('report_luns.ReportLunsCommand'))
def report_luns_default(V):
    """without arguments REPORT LUNS asks for all LUNs with a 16384 byte response"""
    c = imp('report_luns.ReportLunsCommand')()
    for i in range(2):
        check_read(V, run(V, c, V.zeros(8))[0], V.cat(V.to_bytes(0xA0), V.zeros(5), V.be(16384, 4), V.zeros(2)), 16384)

@contract('C07', targets=tg('log_sense.LogSenseCommand'))
def log_sense(V):
    """LOG SENSE: opcode 4Dh, page code in bits 0-5 of byte 2, subpage byte 3, pointer 0, allocation length bytes 7-8 and
    requested; values that do not fit are refused; the response is returned unchanged"""
    pg = V.int('page_code', -300, 600)
    sub = V.int('subpage_code', -300, 600)
    n = V.int('allocation_length', -(1 << 70), 1 << 70)
    resp = V.bytes('response', V.length('n'))
    cmds, st, r = sent(V, lambda: imp('log_sense.LogSenseCommand')(pg, sub, n), resp)
    ok = V.And(in_range(V, pg, 6), in_range(V, sub, 8), in_range(V, n, 16))
    if cmds:
        V.check('the arguments fit', ok)
        check_read(V, cmds, V.cat(V.to_bytes(0x4D, 0), V.be(pg, 1), V.be(sub, 1), V.to_bytes(0), V.zeros(2), V.be(n, 2), V.to_bytes(0)), n)
        V.check('no failure', st == 'ok')
        V.check_eq('the response is returned', r, resp)
    else: V.check('arguments that fit are sent', V.Not(ok))

@contract('C07', targets=tg('log_sense.LogSenseCommand'))
def log_sense_default(V):
    """LOG SENSE defaults: subpage 0, 396 bytes"""
    pg = V.int('page_code', 0, 63)
    c = imp('log_sense.LogSenseCommand')(pg)
    for i in range(2):
        check_read(V, run(V, c, V.zeros(8))[0], V.cat(V.to_bytes(0x4D, 0), V.be(pg, 1), V.zeros(4), V.be(396, 2), V.to_bytes(0)), 396)

@contract('C07', targets=tg('rtpg.RTPGCommand'))
def rtpg(V):
    """REPORT TARGET PORT GROUPS: opcode A3h/0Ah, data format in bits 5-7 of byte 1, allocation length bytes 6-9 and requested;
    only formats 0 and 1 and lengths that fit are sent"""
    f = V.int('parameter_data_format', -10, 300)
    n = V.int('allocation_length', -(1 << 70), 1 << 70)
    cmds, st, r = sent(V, lambda: imp('rtpg.RTPGCommand')(f, n), V.zeros(8))
    ok = V.And(in_range(V, f, 1), in_range(V, n, 32))
    if cmds:
        V.check('the arguments fit', ok)
        check_read(V, cmds, V.cat(V.to_bytes(0xA3), V.be(10 + 32 * f, 1), V.zeros(4), V.be(n, 4), V.zeros(2)), n)
    else: V.check('arguments that fit are sent', V.Not(ok))

@contract('C07', targets=tg('rtpg.RTPGCommand'))
def rtpg_default(V):
    """without arguments REPORT TARGET PORT GROUPS asks for the length-only format with a 16384 byte response"""
    c = imp('rtpg.RTPGCommand')()
    for i in range(2):
        check_read(V, run(V, c, V.zeros(8))[0], V.cat(V.to_bytes(0xA3, 10), V.zeros(4), V.be(16384, 4), V.zeros(2)), 16384)

@contract('C07', targets=tg('receive_copy_operating_parameters.ReceiveCopyOperatingParametersCommand'))
def receive_copy_operating_parameters(V):
    """RECEIVE COPY OPERATING PARAMETERS: opcode 84h/03h, allocation length bytes 10-13 and requested; a length that does not
    fit is refused"""
    n = V.int('allocation_length', -(1 << 70), 1 << 70)
    ctl = V.int('control', 0, 255)
    cmds, st, r = sent(V, lambda: imp('receive_copy_operating_parameters.ReceiveCopyOperatingParametersCommand')(allocation_length=n, control=ctl), V.zeros(44))
    if cmds:
        V.check('the length fits', in_range(V, n, 32))
        check_read(V, cmds, V.cat(V.to_bytes(0x84, 3), V.zeros(8), V.be(n, 4), V.zeros(1), V.be(ctl, 1)), n)
    else: V.check('a length that fits is sent', V.Not(in_range(V, n, 32)))

class Raw(object):
    """result class of the INQUIRY / RECEIVE DIAGNOSTIC contracts: keeps what it was given"""
    def __init__(self, **kw): self.kw = kw
    def unpack(self, data): self.data = data

@contract('C07', targets=tg('inquiry.InquiryCommand'))
def inquiry(V):
    """INQUIRY: opcode 12h, EVPD bit 0 of byte 1, page code byte 2, allocation length bytes 3-4 and requested; the result class
    decodes exactly the response; values that do not fit are refused"""
    evpd = V.int('evpd', 0, 1)
    pg = V.int('page_code', -300, 600)
    n = V.int('allocation_length', -(1 << 70), 1 << 70)
    resp = V.bytes('response', V.length('n'))
    cmds, st, r = sent(V, lambda: imp('inquiry.InquiryCommand')(Raw, evpd=evpd, page_code=pg, allocation_length=n), resp)
    ok = V.And(in_range(V, pg, 8), in_range(V, n, 16))
    if cmds:
        V.check('the arguments fit', ok)
        check_read(V, cmds, V.cat(V.to_bytes(0x12), V.be(evpd, 1), V.be(pg, 1), V.be(n, 2), V.zeros(1)), n)
        V.check('no failure', st == 'ok')
        V.check_eq('the result class decodes the response', r.data, resp)
    else: V.check('arguments that fit are sent', V.Not(ok))

PAGES = [('standard', 'inquiry.standard.StandardInquiryCommand', 0, 0, 36), ('supported', 'inquiry.vpd_pages.SupportedVPDPagesCommand', 1, 0, 252),
         ('serial', 'inquiry.vpd_pages.UnitSerialNumberVPDPageCommand', 1, 0x80, 252), ('devid', 'inquiry.vpd_pages.DeviceIdentificationVPDPageCommand', 1, 0x83, 252),
         ('ata', 'inquiry.vpd_pages.AtaInformationVPDPageCommand', 1, 0x89, 1024), ('limits', 'inquiry.vpd_pages.BlockLimitsPageCommand', 1, 0xB0, 252),
         ('lbp', 'inquiry.vpd_pages.LogicalBlockProvisioningPageCommand', 1, 0xB2, 252), ('veritas', 'inquiry.vpd_pages.VeritasVPDPageCommand', 1, 0xC0, 252)]
@family('C07', PAGES, targets=lambda *a: tg(a[0]))
def inquiry_page(V, path, evpd, page, n):
    """each INQUIRY page command asks for its own page, with EVPD set for vital product data, and a response of its declared size"""
    c = imp(path)()
    c.result_class = Raw
    for i in range(2):
        check_read(V, run(V, c, V.zeros(4))[0], V.cat(V.to_bytes(0x12, evpd, page), V.be(n, 2), V.zeros(1)), n)

@contract('C07', targets=tg('inquiry.standard.StandardInquiryCommand'))
def inquiry_standard_length(V):
    """standard INQUIRY with a caller-chosen allocation length"""
    n = V.int('allocation_length', 0, 65535)
    c = imp('inquiry.standard.StandardInquiryCommand')(allocation_length=n)
    c.result_class = Raw
    check_read(V, run(V, c, V.zeros(4))[0], V.cat(V.to_bytes(0x12, 0, 0), V.be(n, 2), V.zeros(1)), n)

@contract('C07', targets=tg('inquiry.vpd_pages.unknown.UnknownVPDPageCommand'))
def inquiry_unknown_page(V):
    """a vital product data page without a decoder of its own is still requested by its number"""
    p = V.int('page', 0, 255)
    c = imp('inquiry.vpd_pages.unknown.UnknownVPDPageCommand')(p)()
    check_read(V, run(V, c, V.zeros(4))[0], V.cat(V.to_bytes(0x12, 1), V.be(p, 1), V.be(2048, 2), V.zeros(1)), 2048)

@contract('C07', targets=tg('diagnostic.ReceiveDiagnosticResultCommand'))
def receive_diagnostic(V):
    """RECEIVE DIAGNOSTIC RESULTS: opcode 1Ch, PCV bit 0 of byte 1, page code byte 2, allocation length bytes 3-4 and requested;
    the result class decodes exactly the response and is told about the configuration page; values that do not fit are refused"""
    pcv = V.int('pcv', 0, 1)
    pg = V.int('page_code', -300, 600)
    n = V.int('allocation_length', -(1 << 70), 1 << 70)
    conf = object()
    resp = V.bytes('response', V.length('n'))
    cmds, st, r = sent(V, lambda: imp('diagnostic.ReceiveDiagnosticResultCommand')(Raw, conf, pcv=pcv, page_code=pg, allocation_length=n), resp)
    ok = V.And(in_range(V, pg, 8), in_range(V, n, 16))
    if cmds:
        V.check('the arguments fit', ok)
        check_read(V, cmds, V.cat(V.to_bytes(0x1C), V.be(pcv, 1), V.be(pg, 1), V.be(n, 2), V.zeros(1)), n)
        V.check('no failure', st == 'ok')
        V.check_eq('the result class decodes the response', r.data, resp)
        V.check('configuration page is passed on', r.kw.get('conf_page') is conf)
    else: V.check('arguments that fit are sent', V.Not(ok))
