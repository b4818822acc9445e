"""C28: commands are independent of each other and of their own history, and hand the transport's failures on."""
import importlib
from engine.registry import contract, family
from ._lib import *
from ._transport import asi, errors

C = 'infi.asi.cdb.'
def cls_of(path):
    m, n = path.rsplit('.', 1)
    cls = getattr(importlib.import_module(C + m), n)
    if n.startswith('Unknown'): return lambda page: cls(page)()     # one class per page code
    return cls

def lba_count(lba_bits, n_bits):
    return lambda V, i: ((V.int('lba%d' % i, 0, 2 ** lba_bits - 1), V.int('count%d' % i, 1, 2 ** n_bits - 1)), {})
def lba_buffer(lba_bits, **kw):
    return lambda V, i: ((V.int('lba%d' % i, 0, 2 ** lba_bits - 1), V.bytes('buffer%d' % i, 512)), kw)
def third_party(V, i): return ((V.int('id%d' % i, 0, 2 ** 64 - 1),), {})
def none(V, i): return ((), {})
def bytes_of(n): return lambda V, i: V.bytes('response%d' % i, n)
def raw(V, i): return V.bytes('response%d' % i, V.length('n%d' % i, 0, 40))
def empty(V, i): return b''
def pr_out(V, i):
    return ((V.choice('action%d' % i, [0, 1, 2, 3, 4, 5, 6]), V.int('key%d' % i, 0, 2 ** 64 - 1), V.int('service_key%d' % i, 0, 2 ** 64 - 1), V.int('type%d' % i, 0, 15)), {})
def ranges(V, i): return (([(V.int('lba%d' % i, 0, 2 ** 64 - 1), V.int('count%d' % i, 0, 2 ** 32 - 1))][:V.choice('ranges%d' % i, [0, 1])],), {})
def pages(V, i): return V.cat(V.bytes('page_head%d' % i, 3), V.to_bytes(4), V.bytes('page%d' % i, 4))
def serial(V, i): return V.cat(V.bytes('page_head%d' % i, 3), V.to_bytes(4), V.ascii('page%d' % i, 4))
def inquiry(V, i): return V.cat(V.bytes('head%d' % i, 4), V.to_bytes(31), V.bytes('flags%d' % i, 3), V.ascii('texts%d' % i, 28))
def luns(V, i): return V.cat(V.to_bytes(0), V.to_bytes(0), V.to_bytes(0), V.to_bytes(16), V.zeros(4), V.to_bytes(0), V.bytes('lun%d' % i, 1), V.zeros(6), V.to_bytes(0), V.bytes('lun_b%d' % i, 1), V.zeros(6))
def keys(V, i): return V.cat(V.bytes('generation%d' % i, 4), V.zeros(3), V.to_bytes(16), V.bytes('keys%d' % i, 16))
def groups(V, i): return V.cat(V.zeros(3), V.to_bytes(12), V.bytes('group%d' % i, 7), V.to_bytes(1), V.bytes('port%d' % i, 4))
def designators(V, i): return V.cat(V.bytes('page_head%d' % i, 2), V.zeros(1), V.to_bytes(12), V.to_bytes(1), V.to_bytes(0), V.zeros(1), V.to_bytes(8), V.bytes('designator%d' % i, 8))
def conf_of(typ):
    """a configuration page with one element type, the number of elements different for each of the two commands"""
    def make(V, i):
        from .c_ses import Conf, header
        return ((Conf([header(typ, i + 1)]),), {})
    return make
def configuration(V, i): return V.cat(V.bytes('head%d' % i, 1), V.zeros(1), V.bytes('head_b%d' % i, 6), V.bytes('enclosure%d' % i, 2), V.to_bytes(i + 1), V.to_bytes(36), V.bytes('identifier%d' % i, 8), V.ascii('texts%d' % i, 28),
    *([V.cat(V.bytes('header%d' % i, 3), V.to_bytes(2)) for j in range(i + 1)] + [V.bytes('text%d' % i, 2 * i + 2)]))
def status(V, i): return V.bytes('status%d' % i, 8 + 4 * (i + 2))
def descriptors(V, i): return V.cat(V.bytes('head%d' % i, 8), *[V.cat(V.bytes('reserved%d' % i, 2), V.to_bytes(0), V.to_bytes(2), V.bytes('text%d' % i, 2)) for j in range(i + 2)])
def itself(r): return [r]
def fields(*names):
    def probe(r):
        out = []
        for n in names:
            o = r
            for a in n.split('.'): o = o[int(a)] if a.isdigit() else getattr(o, a)
            out.append(o)
        return out
    return probe

SES = 'diagnostic.ses_pages.'

COMMANDS = [
    ('read6', 'read.Read6Command', lba_count(21, 8), raw, itself), ('read10', 'read.Read10Command', lba_count(32, 16), raw, itself),
    ('read12', 'read.Read12Command', lba_count(32, 32), raw, itself), ('read16', 'read.Read16Command', lba_count(64, 32), raw, itself),
    ('write6', 'write.Write6Command', lba_buffer(21), raw, itself), ('write10', 'write.Write10Command', lba_buffer(32), raw, itself),
    ('write12', 'write.Write12Command', lba_buffer(32), raw, itself), ('write16', 'write.Write16Command', lba_buffer(64), raw, itself),
    ('write_same10', 'write_same.WriteSame10Command', lba_buffer(32, number_of_blocks=3), raw, itself), ('write_same16', 'write_same.WriteSame16Command', lba_buffer(64, number_of_blocks=3), raw, itself),
    ('compare_and_write', 'compare_and_write.CompareAndWriteCommand', lambda V, i: ((V.int('lba%d' % i, 0, 2 ** 64 - 1), V.bytes('buffer%d' % i, 1024), 1), {}), raw, itself),
    ('unmap', 'unmap.UnmapCommand', ranges, raw, itself),
    ('reserve6', 'reserve.Reserve6Command', none, raw, itself), ('release6', 'release.Release6Command', none, raw, itself),
    ('reserve10', 'reserve.Reserve10Command', third_party, raw, itself), ('release10', 'release.Release10Command', third_party, raw, itself),
    ('pr_out', 'persist.output.PersistentReserveOutCommand', pr_out, raw, itself),
    ('pr_in_keys', 'persist.input.PersistentReserveInCommand', lambda V, i: ((0, V.int('alloc%d' % i, 8, 65535)), {}), keys, fields('pr_generation', 'key_list.0', 'key_list.1')),
    ('pr_in_reservation', 'persist.input.PersistentReserveInCommand', lambda V, i: ((1, V.int('alloc%d' % i, 8, 65535)), {}), bytes_of(24), fields('pr_generation', 'reservation_key', 'pr_type', 'scope')),
    ('pr_in_capabilities', 'persist.input.PersistentReserveInCommand', lambda V, i: ((2, V.int('alloc%d' % i, 8, 65535)), {}), bytes_of(8), fields('length', 'allow_commands', 'exclusive_access')),
    ('test_unit_ready', 'tur.TestUnitReadyCommand', none, empty, lambda r: [r is True]),
    ('read_capacity10', 'read_capacity.ReadCapacity10Command', none, bytes_of(8), fields('last_logical_block_address', 'block_length_in_bytes')),
    ('read_capacity16', 'read_capacity.ReadCapacity16Command', none, bytes_of(32), fields('last_logical_block_address', 'block_length_in_bytes', 'prot_en', 'tpe')),
    ('report_luns', 'report_luns.ReportLunsCommand', lambda V, i: ((V.int('select%d' % i, 0, 255), V.int('alloc%d' % i, 24, 2 ** 32 - 1)), {}), luns, fields('lun_list.0', 'lun_list.1')),
    ('log_sense', 'log_sense.LogSenseCommand', lambda V, i: ((V.int('page%d' % i, 0, 63), V.int('subpage%d' % i, 0, 255), V.int('alloc%d' % i, 0, 65535)), {}), raw, itself),
    ('target_port_groups', 'rtpg.RTPGCommand', lambda V, i: ((0, V.int('alloc%d' % i, 0, 2 ** 32 - 1)), {}), groups,
     fields('descriptor_list.0.target_port_group', 'descriptor_list.0.status_code', 'descriptor_list.0.target_port_list.0.relative_target_port_identifier')),
    ('copy_parameters', 'receive_copy_operating_parameters.ReceiveCopyOperatingParametersCommand', lambda V, i: ((), dict(allocation_length=V.int('alloc%d' % i, 0, 2 ** 32 - 1), control=V.int('control%d' % i, 0, 255))),
     lambda V, i: V.cat(V.bytes('response%d' % i, 43), V.to_bytes(0)), fields('max_cscd_descriptor_count', 'max_segment_length')),
    ('inquiry', 'inquiry.standard.StandardInquiryCommand', lambda V, i: ((), dict(allocation_length=V.int('alloc%d' % i, 0, 65535))), inquiry, fields('version', 'rmb', 't10_vendor_identification')),
    ('supported_pages', 'inquiry.vpd_pages.SupportedVPDPagesCommand', none, pages, fields('page_code', 'vpd_parameters.0', 'vpd_parameters.3')),
    ('serial_number', 'inquiry.vpd_pages.UnitSerialNumberVPDPageCommand', none, serial, fields('page_code', 'product_serial_number')),
    ('device_identification', 'inquiry.vpd_pages.DeviceIdentificationVPDPageCommand', none, designators, fields('page_code', 'page_length', 'designators_list.0.association')),
    ('block_limits', 'inquiry.vpd_pages.BlockLimitsPageCommand', none, bytes_of(64), fields('maximum_transfer_length', 'wsnz', 'maximum_unmap_lba_count')),
    ('veritas', 'inquiry.vpd_pages.VeritasVPDPageCommand', none, bytes_of(36), fields('raid_type', 'is_snapshot_lun')),
    ('diagnostic_pages', 'diagnostic.ses_pages.SupportedDiagnosticPagesCommand', none, lambda V, i: V.cat(V.bytes('head%d' % i, 2), V.zeros(1), V.to_bytes(3), V.bytes('pages%d' % i, 3)), fields('page_code')),
    ('configuration_page', SES + 'configuration.ConfigurationDiagnosticPagesCommand', none, configuration,
     fields('generation_code', 'enclosure_descriptor_list.0.type_descriptor_headers_num', 'type_descriptor_header_list.0.element_type', 'type_descriptor_text_list.0')),
    ('enclosure_status_page', SES + 'enclosure_status.EnclosureStatusDiagnosticPagesCommand', conf_of(1), status,
     fields('generation_code', 'status_descriptors.0.overall_element.prdfail', 'status_descriptors.0.individual_elements.0.status_info.slot_address')),
    ('element_descriptor_page', SES + 'element_descriptor.ElementDescriptorDiagnosticPagesCommand', conf_of(1), descriptors,
     fields('generation_code', 'element_descriptors.0.overall_element.descriptor', 'element_descriptors.0.individual_elements.0.descriptor')),
    ('unknown_diagnostic_page', SES + 'unknown.UnknownDiagnosticPageCommand', lambda V, i: ((V.int('page%d' % i, 0, 255),), {}), lambda V, i: V.bytes('page%d' % i, 12), fields('page_code', 'page_data')),
]
def targets(path, *a): return (C + path + '.__init__', C + path + '.execute')
def outcome(V, c):
    return (kind(c), c.command, c.max_response_length if kind(c) == 'read' else c.data)
def same(V, label, a, b):
    V.check('%s: direction' % label, a[0] == b[0])
    V.check_eq('%s: command bytes' % label, a[1], b[1])
    if a[0] == 'read': V.check('%s: requested size' % label, V.eq(a[2], b[2]))
    else: V.check_eq('%s: data sent' % label, a[2], b[2])

SENSES = [(2, 4, 1), (5, 0x20, 0), (5, 0x24, 0), (5, 0x25, 0), (6, 0x29, 0), (6, 0x3f, 0x0e), (0xb, 0, 0), (1, 0x17, 1), (0, 0, 0)]
def check_condition(key, asc, ascq):
    m = asi()
    b = bytes(bytearray([0x70, 0, key, 0, 0, 0, 0, 10, 0, 0, 0, 0, asc, ascq, 0, 0, 0, 0]))
    return errors().AsiCheckConditionError(b, m.get_sense_object_from_buffer(b))
FAILURES = [lambda: TransportError('transport'), lambda: Leaves(), lambda: errors().AsiReservationConflictError(), lambda: errors().AsiRequestQueueFullError(),
            lambda: errors().AsiSCSIError('failed'), lambda: errors().AsiInternalError('failed'), lambda: errors().AsiOSError('failed'), lambda: errors().AsiCheckConditionError(b'', None),
            lambda: OSError(5, 'i/o error'), lambda: OSError(4, 'interrupted'), lambda: OSError(110, 'timed out'), lambda: ValueError('v'), lambda: KeyError('k'),
            lambda: AssertionError(), lambda: NotImplementedError()] + [lambda s=s: check_condition(*s) for s in SENSES]

@family('C28', COMMANDS, targets=targets)
def failure_handed_on(V, path, args, response, probe):
    """when the transport fails, in whatever way, the command ends with that very exception and sends nothing more; executed again, it is sent
    again and succeeds"""
    a, k = args(V, 0)
    c = cls_of(path)(*a, **k)
    e = FAILURES[V.choice('failure', list(range(len(FAILURES))))]()
    ex = Executer()
    fail = [True]
    answer = response(V, 0)
    def respond(x):
        if isinstance(x, Sentinel):
            if fail.pop(0) if fail else False: raise e
            return answer
        return x
    st, r = ended(V, lambda: drive(c.execute(ex), respond))
    V.check('it fails', st == 'exc')
    V.check('with the same exception', r is e)
    V.check('one command was sent', len(ex.commands) == 1)
    st, r = V.call(lambda: drive(c.execute(ex), respond))
    V.check('executed again, it succeeds', st == 'ok')
    V.check('and is sent once more', len(ex.commands) == 2)
    same(V, 'again', outcome(V, ex.commands[1]), outcome(V, ex.commands[0]))

@family('C28', COMMANDS, targets=targets)
def no_history(V, path, args, response, probe):
    """what a command sends depends on its own arguments only, not on the commands made or executed before or in between, nor on how often it is executed;
    what it returns depends on this execution's response only, and stays what it was when others are executed"""
    cls = cls_of(path)
    a0, k0 = args(V, 0)
    a1, k1 = args(V, 1)
    r0, r1 = response(V, 0), response(V, 1)
    first = run(V, cls(*a0, **k0), r0)
    second = run(V, cls(*a1, **k1), r1)
    x, y = cls(*a0, **k0), cls(*a1, **k1)
    cy, ry = run(V, y, r1)
    cx, rx = run(V, x, r0)
    cx2, rx2 = run(V, x, r1)
    for l in (first[0], second[0], cy, cx, cx2): V.check('one command each', len(l) == 1)
    same(V, 'executed after another one', outcome(V, cx[0]), outcome(V, first[0][0]))
    same(V, 'made before, executed after', outcome(V, cy[0]), outcome(V, second[0][0]))
    same(V, 'executed twice', outcome(V, cx2[0]), outcome(V, first[0][0]))
    for what, got, want in (('first', rx, first[1]), ('other', ry, second[1]), ('executed twice, with another response', rx2, second[1])):
        for i, (g, w) in enumerate(zip(probe(got), probe(want))): V.check('%s: result %d' % (what, i), V.eq(g, w))

@family('C28', COMMANDS, targets=targets)
def sent_again_after_any_response(V, path, args, response, probe):
    """whatever the device answered, and whether or not the answer could be decoded, executing the same command again sends the same command"""
    V.any_outcome()
    a, k = args(V, 0)
    c = cls_of(path)(*a, **k)
    answer = V.bytes('answer', V.length('size', 0, 1 << 16))
    if 'configuration' in path:     # responses that announce more enclosures are left out
        V.assume(V.len(answer) > 1)
        V.assume(answer[1] == 0)
    ex = Executer()
    respond = lambda x: answer if isinstance(x, Sentinel) else x
    V.call(lambda: drive(c.execute(ex), respond))
    V.check('one command was sent', len(ex.commands) == 1)
    V.call(lambda: drive(c.execute(ex), respond))
    V.check('and is sent once more', len(ex.commands) == 2)
    same(V, 'again', outcome(V, ex.commands[1]), outcome(V, ex.commands[0]))

OTHERS = [('read10', 'read.Read10Command', lambda: (1, 2)), ('reserve6', 'reserve.Reserve6Command', lambda: ()), ('log_sense', 'log_sense.LogSenseCommand', lambda: (3,))]

@family('C28', COMMANDS, targets=targets)
def options_stay_with_their_command(V, path, args, response, probe):
    """an option set in one command, before or after it is executed, is not an option of the commands made or executed later"""
    cls = cls_of(path)
    a0, k0 = args(V, 0)
    a1, k1 = args(V, 1)
    r0, r1 = response(V, 0), response(V, 1)
    name, other, other_args = V.choice('another', OTHERS)
    ex = Executer()
    sent = lambda c: (V.call(lambda: drive(c.execute(ex), lambda x: b'' if isinstance(x, Sentinel) else x)), outcome(V, ex.commands[-1]))[1]
    waiting = cls(*a1, **k1)
    waiting_too = cls_of(other)(*other_args())
    want, want_other = sent(cls(*a1, **k1)), sent(cls_of(other)(*other_args()))
    c = cls(*a0, **k0)
    when = V.choice('executed', ['never', 'before the option is set', 'after it is set'])
    if when == 'before the option is set': sent(c)
    control = getattr(c, 'control', None)
    options = [n for n in ('naca', 'vendor_specific') if hasattr(control, n)]
    V.cover('checked')
    kept = {n: getattr(control, n) for n in options}
    if options: control.naca, control.vendor_specific = V.int('naca', 0, 1), V.int('vendor_specific', 0, 3)
    try:
        if when == 'after it is set': sent(c)
        for what, x, w in (('made before', waiting, want), ('made later', cls(*a1, **k1), want), ('another one made before', waiting_too, want_other), ('another one made later', cls_of(other)(*other_args()), want_other)):
            same(V, what, sent(x), w)
    finally:
        for n, x in kept.items(): setattr(control, n, x)
