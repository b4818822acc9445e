"""C08: decoding of READ CAPACITY and RECEIVE COPY OPERATING PARAMETERS responses. C09: REPORT LUNS responses."""
from engine.registry import contract, family
from ._lib import *

C = 'infi.asi.cdb.'
CAP10 = {'last_logical_block_address': ('u', 0, 4), 'block_length_in_bytes': ('u', 4, 4)}
CAP16 = {'last_logical_block_address': ('u', 0, 8), 'block_length_in_bytes': ('u', 8, 4), 'prot_en': ('b', 12, 0), 'p_type': ('b', 12, 1, 3),
         'logical_blocks_per_physical_block': ('b', 13, 0, 4), 'p_i_exponent': ('b', 13, 4, 4), 'lowest_aligned_lba_msb': ('b', 14, 0, 6),
         'troz': ('b', 14, 6), 'tpe': ('b', 14, 7), 'lowest_aligned_lba_lsb': ('u', 15, 1)}

@family('C08', [('10', 'ReadCapacity10Command', 8, CAP10), ('16', 'ReadCapacity16Command', 16, CAP16)],
        targets=lambda cls, n, spec: [C + 'read_capacity.%s.execute' % cls])
def capacity(V, cls, need, spec):
    """READ CAPACITY responses that hold all the decoded fields (8 and 16 bytes), or more: every field comes from the bytes and bits SBC assigns to it;
    a shorter response is refused, never padded with invented values"""
    import infi.asi.cdb.read_capacity as m
    n = V.length('n', 0, 300)
    b = V.bytes('response', n)
    st, cmds, r, c = attempt(V, lambda: getattr(m, cls)(V.int('lba', 0, 2 ** 32 - 1), V.int('pmi', 0, 1)), b)
    V.check('the command was sent once', len(cmds) == 1)
    if n >= need:
        V.check('decoded', st == 'ok')
        check_fields(V, r, spec, b)
    else: V.check('a short response is refused', st == 'exc')

RCOP = {'available_data': ('u', 0, 4), 'snlid': ('b', 4, 0), 'max_cscd_descriptor_count': ('u', 8, 2), 'max_segment_descriptor_count': ('u', 10, 2),
        'max_descriptor_list_length': ('u', 12, 4), 'max_segment_length': ('u', 16, 4), 'max_inline_data_length': ('u', 20, 4),
        'held_data_limit': ('u', 24, 4), 'max_stream_device_transfer_size': ('u', 28, 4), 'total_concurrent_copies': ('u', 34, 2),
        'max_concurrent_copies': ('u', 36, 1), 'data_segment_granularity': ('u', 37, 1), 'inline_data_granularity': ('u', 38, 1),
        'held_data_granularity': ('u', 39, 1), 'implemented_descriptor_list_length': ('u', 43, 1)}
@contract('C08', targets=[C + 'receive_copy_operating_parameters.ReceiveCopyOperatingParametersCommand.execute',
                          C + 'receive_copy_operating_parameters.ReceiveCopyOperatingParametersResponse'])
def copy_parameters(V):
    """RECEIVE COPY OPERATING PARAMETERS: every field from its bytes; the implemented descriptor list is the bytes that follow, as
    many as announced (those the response holds)"""
    from infi.asi.cdb.receive_copy_operating_parameters import ReceiveCopyOperatingParametersCommand
    k = V.track('k')
    n = V.length('n', 44, 400)
    b = V.bytes('response', n)
    cmds, r = run(V, ReceiveCopyOperatingParametersCommand(allocation_length=1024, control=0), b)
    check_fields(V, r, RCOP, b)
    m = b[43]
    have = n - 44
    cnt = V.ite(m < have, m, have)
    V.check('length of the descriptor list', V.len(r.implemented_descriptor_list) == cnt)
    if k < cnt: V.check('descriptor type k', V.eq(V.at(r.implemented_descriptor_list, k), b[44 + k]))

@contract('C08', targets=[C + 'receive_copy_operating_parameters.ReceiveCopyOperatingParametersResponse'])
def copy_parameters_short(V):
    """a RECEIVE COPY OPERATING PARAMETERS response that ends before the header does is refused"""
    from infi.asi.cdb.receive_copy_operating_parameters import ReceiveCopyOperatingParametersCommand
    n = V.length('n', 0, 43)
    b = V.bytes('response', n)
    st, cmds, r, c = attempt(V, lambda: ReceiveCopyOperatingParametersCommand(allocation_length=1024, control=0), b)
    V.check('refused', st == 'exc')

# ---- REPORT LUNS
L = [C + 'report_luns.ReportLunsCommand.execute', C + 'report_luns.ReportLunsData', C + 'report_luns.ReportLunsData.normalize_lun_list']

def luns(V, allow):
    from infi.asi.cdb import report_luns as m
    k = V.track('k')
    cnt = V.length('luns', 0, 2046)
    extra = V.length('trailing', 0, 64)
    b = V.cat(V.be(cnt * 8, 4), V.bytes('reserved', 4), V.bytes('list', cnt * 8), V.bytes('tail', extra))
    kw = {}
    if V.bool('allocation length given'):
        kw['allocation_length'] = a = V.int('allocation_length', 16, 2 ** 32 - 1)
        V.assume(8 + cnt * 8 + extra <= a)
    if V.bool('kind of report given'): kw['select_report'] = V.int('select_report', 0, 255)
    st, cmds, r, c = attempt(V, lambda: m.ReportLunsCommand(allow_unsupported_addressing_format=allow, **kw), b)
    return m, k, cnt, b, st, r

@contract('C09', targets=L)
def lun_list_all(V):
    """with unsupported formats allowed: as many LUNs as the list length announces, in order, LUN k being the first two bytes of
    entry k; the untouched 8-byte entries are kept in hexadecimal; trailing bytes are ignored"""
    m, k, cnt, b, st, r = luns(V, True)
    V.check('decoded', st == 'ok')
    V.check('list length', V.eq(r.lun_list_length, cnt * 8))
    V.check('number of LUNs', V.len(r.lun_list) == cnt)
    V.check('number of raw entries', V.len(r.hex_lun_list) == cnt)
    if k < cnt:
        e = u(V, b, 8 + 8 * k, 8)
        V.check('LUN k is the first level of entry k', V.eq(V.at(r.lun_list, k), e // (1 << 48)))
        V.check('raw entry k', V.eq(V.at(r.hex_lun_list, k), V.hex(e)))

@contract('C09', targets=L + [C + 'report_luns.ReportLunsData._raise_if_unsupported_lun_addressing_format'])
def lun_list_checked(V):
    """by default: when the list is returned, no entry uses further levels or another addressing method, so no LUN number is
    invented; when it is refused, the exception says which kind of entry was met"""
    m, k, cnt, b, st, r = luns(V, False)
    if st == 'ok':
        V.check('number of LUNs', V.len(r.lun_list) == cnt)
        if k < cnt:
            e = u(V, b, 8 + 8 * k, 8)
            V.check('entry k has a single level', e % (1 << 48) == 0)
            V.check('entry k uses simple addressing', e // (1 << 62) == 0)
            V.check('LUN k', V.eq(V.at(r.lun_list, k), e // (1 << 48)))
    else:
        V.check('refused as an unsupported list', isinstance(r, m.UnsupportedReportLuns))
        v = r.args[0]
        if isinstance(r, m.UnsupportedLunAdressing): V.check('a multi-level entry', v % (1 << 48) != 0)
        else:
            V.check('kind of refusal', isinstance(r, m.UnsupportedLogicalUnitAddressingMethod))
            V.check('an entry with another method', V.And(v % (1 << 48) == 0, v // (1 << 62) != 0))

@contract('C09', targets=L)
def lun_list_accepted(V):
    """by default a list of simple single-level LUNs is never refused"""
    from infi.asi.cdb import report_luns as m
    nn = V.int('luns', 0, 4)
    cnt = V.choice('n', [0, 1, 2, 3, 4])
    ls = [V.int('lun', 0, (1 << 14) - 1) for i in range(cnt)]
    b = V.cat(V.be(cnt * 8, 4), V.zeros(4), *[V.cat(V.be(l, 2), V.zeros(6)) for l in ls])
    cmds, r = run(V, m.ReportLunsCommand(V.int('select_report', 0, 255)), b)
    V.check('number', V.len(r.lun_list) == cnt)
    for i in range(cnt): V.check('LUN', V.eq(V.at(r.lun_list, i), ls[i]))

@contract('C09', targets=L)
def lun_list_refused(V):
    """by default one entry that is not a simple single-level LUN, at any place in the list, is enough to refuse it"""
    from infi.asi.cdb import report_luns as m
    cnt = V.choice('n', [1, 2, 3])
    at = V.choice('at', list(range(cnt)))
    es = [V.bytes('entry', 8) for i in range(cnt)]
    V.assume(V.Or(es[at][0] >= 64, *[es[at][q] != 0 for q in range(2, 8)]))
    b = V.cat(V.be(cnt * 8, 4), V.zeros(4), *es)
    st, cmds, r, c = attempt(V, lambda: m.ReportLunsCommand(V.int('select_report', 0, 255)), b)
    V.check('refused', st == 'exc' and isinstance(r, m.UnsupportedReportLuns))

@contract('C09', targets=L)
def lun_list_truncated(V):
    """a response that holds fewer bytes than its list length announces is refused, not shortened"""
    from infi.asi.cdb import report_luns as m
    cnt = V.length('luns', 1, 2046)
    have = V.length('bytes_of_list', 0, 16376)
    V.assume(have < cnt * 8)
    b = V.cat(V.be(cnt * 8, 4), V.zeros(4), V.bytes('list', have))
    st, cmds, r, c = attempt(V, lambda: m.ReportLunsCommand(V.int('select_report', 0, 255), allow_unsupported_addressing_format=True), b)
    V.check('refused', st == 'exc')

@contract('C09', targets=L)
def lun_list_small_allocation(V):
    """allocation lengths below 16 return the raw response, which must have exactly that size"""
    from infi.asi.cdb import report_luns as m
    a = V.int('allocation_length', 0, 15)
    n = V.length('n', 0, 40)
    b = V.bytes('response', n)
    st, cmds, r, c = attempt(V, lambda: m.ReportLunsCommand(allocation_length=a), b)
    if n == a:
        V.check('returned', st == 'ok')
        V.check_eq('raw response', r, b)
    else: V.check('a response of another size is refused', st == 'exc')
