from engine.registry import contract, family
from ._lib import *

M = 'infi.asi.cdb.persist.input.'
T = [M + 'PersistentReserveInCommand.__init__', M + 'PersistentReserveInCommand.execute']

@contract('C06', targets=T)
def request(V):
    """the four service actions are sent as PERSISTENT RESERVE IN with the caller's allocation length, which is also the
    requested response size"""
    from infi.asi.cdb.persist.input import PersistentReserveInCommand
    sa = V.choice('service_action', [0, 1, 2, 3])
    n = V.int('allocation_length', 8, 65535)
    b = V.cat(V.bytes('head', 4), V.zeros(4))
    cmds, r = run(V, PersistentReserveInCommand(sa, n), b)
    check_read(V, cmds, V.cat(V.to_bytes(0x5E, sa), V.zeros(5), V.be(n, 2), V.zeros(1)), n)

@contract('C06', targets=T)
def named_codes(V):
    """the service actions have the codes the standard gives them"""
    import infi.asi.cdb.persist.input as m
    for i, n in enumerate(['READ_KEYS', 'READ_RESERVATION', 'REPORT_CAPABILITIES', 'READ_FULL_STATUS']):
        V.check(n, getattr(m.PERSISTENT_RESERVE_IN_SERVICE_ACTION_CODES, n) == i)

@contract('C06', targets=T)
def request_any(V):
    """for all integers: what is sent is an in-range service action with an in-range allocation length of at least 8"""
    from infi.asi.cdb.persist.input import PersistentReserveInCommand
    sa, n = V.int('service_action', -300, 300), V.int('allocation_length', -(1 << 40), 1 << 40)
    st, cmds, r, c = attempt(V, lambda: PersistentReserveInCommand(sa, n), V.zeros(8))
    if cmds:
        V.check('allocation length sent is in range and as given', V.And(n >= 8, n < 65536))
        V.check('service action sent fits the field', in_range(V, sa, 5))
        check_read(V, cmds, V.cat(V.to_bytes(0x5E, sa), V.zeros(5), V.be(n, 2), V.zeros(1)), n)
    else: V.check('in-range requests are sent', V.Or(n < 8, n >= 65536, sa >= 32, sa < 0))
    if st == 'ok': V.check('a service action with no decoder is refused', sa <= 3)

@contract('C06', targets=[M + 'PersistentReserveInReadKeysResponse'])
def read_keys(V):
    """READ KEYS: generation, and exactly additional_length/8 keys, key i being bytes 8+8i..15+8i, when the response holds
    them all; no key list when it does not; required_allocation_length is additional_length + 8"""
    from infi.asi.cdb.persist.input import PersistentReserveInCommand
    k = V.track('k')
    m = V.length('keys', 0, 1 << 24)
    have = V.length('bytes_of_keys', 0, 1 << 27)
    b = V.cat(V.bytes('generation', 4), V.be(m * 8, 4), V.bytes('rest', have))
    cmds, r = run(V, PersistentReserveInCommand(0, 65535), b)
    V.check('generation', V.eq(r.pr_generation, u(V, b, 0, 4)))
    V.check('additional length', V.eq(r.additional_length, m * 8))
    V.check('required allocation length', V.eq(r.required_allocation_length(), m * 8 + 8))
    if have < m * 8: V.check('no list from a truncated response', r.key_list is None)
    else:
        V.check('number of keys', V.len(r.key_list) == m)
        if k < m: V.check('key k', V.eq(V.at(r.key_list, k), u(V, b, 8 + 8 * k, 8)))

RES = {'pr_generation': ('u', 0, 4), 'additional_length': ('u', 4, 4), 'reservation_key': ('u', 8, 8), 'pr_type': ('b', 21, 0, 4), 'scope': ('b', 21, 4, 4)}
@contract('C06', targets=[M + 'PersistentReserveInReadReservationResponse'])
def read_reservation(V):
    """READ RESERVATION: key, type and scope come from bytes 8-15 and byte 21; a field the response does not reach is None"""
    from infi.asi.cdb.persist.input import PersistentReserveInCommand
    n = V.length('n', 8, 60)
    b = V.bytes('response', n)
    cmds, r = run(V, PersistentReserveInCommand(1), b)
    V.check('generation', V.eq(r.pr_generation, u(V, b, 0, 4)))
    V.check('required allocation length', V.eq(r.required_allocation_length(), u(V, b, 4, 4) + 8))
    if n >= 16: V.check('key', V.eq(r.reservation_key, u(V, b, 8, 8)))
    else: V.check('no key in a response without one', r.reservation_key is None)
    if n >= 22:
        V.check('type', V.eq(r.pr_type, bits(V, b, 21, 0, 4)))
        V.check('scope', V.eq(r.scope, bits(V, b, 21, 4, 4)))
    else: V.check('no type or scope in a response without byte 21', r.pr_type is None and r.scope is None)

CAP = {'length': ('u', 0, 2), 'persist_through_power_lost_capable': ('b', 2, 0), 'all_target_ports_capable': ('b', 2, 2),
       'specify_initiator_ports_capable': ('b', 2, 3), 'compatible_reservation_handling': ('b', 2, 4), 'replace_lost_reservation_capable': ('b', 2, 7),
       'persist_through_power_lost_activates': ('b', 3, 0), 'allow_commands': ('b', 3, 4, 3), 'type_mask_valid': ('b', 3, 7),
       'write_exclusive': ('b', 4, 1), 'exclusive_access': ('b', 4, 3), 'write_exclusive_registrants_only': ('b', 4, 5),
       'exclusive_access_registrants_only': ('b', 4, 6), 'write_exclusive_all_registrants': ('b', 4, 7), 'exclusive_access_all_registrants': ('b', 5, 0)}
@contract('C06', targets=[M + 'PersistentReserveInReportCapabilitiesResponse'])
def report_capabilities(V):
    """REPORT CAPABILITIES: every capability flag comes from its own bit"""
    from infi.asi.cdb.persist.input import PersistentReserveInCommand
    b = V.bytes('response', V.length('n', 8, 600))
    cmds, r = run(V, PersistentReserveInCommand(2), b)
    check_fields(V, r, CAP, b)
    V.check('required allocation length', V.eq(r.required_allocation_length(), 8))

FULL = {'reservation_key': ('u', 0, 8), 'reservation_holder': ('b', 12, 0), 'all_target_ports': ('b', 12, 1), 'pr_type': ('b', 13, 0, 4),
        'scope': ('b', 13, 4, 4), 'relative_target_port_identifier': ('u', 18, 2), 'additional_length': ('u', 20, 4),
        'transport_id.protocol_identifier': ('b', 24, 0, 4), 'transport_id.format_code': ('b', 24, 6, 2)}
FT = [M + 'PersistentReserveInReadFullStatusResponse', M + 'PersistentReserveInReadFullStatusDescriptor']

@family('C06', [(str(n), n) for n in (0, 1, 2)], targets=FT)
def full_status(V, n):
    """READ FULL STATUS with n descriptors laid end to end: each one's key, holder, type, scope, port and transport id are its own"""
    from infi.asi.cdb.persist.input import PersistentReserveInCommand
    parts, lens = [], []
    for i in range(n):
        t = V.length('transport_len', 1, 1 << 16)
        parts += [V.bytes('fixed', 20), V.be(t, 4), V.bytes('transport_id', t)]
        lens.append(24 + t)
    b = V.cat(V.bytes('generation', 4), V.be(sum(lens), 4), *parts)
    cmds, r = run(V, PersistentReserveInCommand(3, 65535), b)
    V.check('generation', V.eq(r.pr_generation, u(V, b, 0, 4)))
    V.check('required allocation length', V.eq(r.required_allocation_length(), sum(lens) + 8))
    if n == 0: V.check('no descriptors', not r.full_status_descriptors)
    else:
        V.check('number of descriptors', len(r.full_status_descriptors) == n)
        o = 8
        for i in range(n):
            d = b[o:o + lens[i]]
            check_fields(V, r.full_status_descriptors[i], FULL, d, 'descriptor ')
            V.check_eq('descriptor transport id data', r.full_status_descriptors[i].transport_id.specific_data, d[25:])
            o += lens[i]

@contract('C06', targets=FT)
def full_status_any(V):
    """READ FULL STATUS of any size: an arbitrary descriptor decodes its own bytes, and the next one starts where it ends"""
    from infi.asi.cdb.persist.input import PersistentReserveInCommand
    V.returned_only()
    n = V.length('n', 1, 1 << 24)
    b = V.cat(V.bytes('generation', 4), V.be(n, 4), V.bytes('rest', n))
    st, cmds, r, c = attempt(V, lambda: PersistentReserveInCommand(3, 65535), b)
    if st == 'exc': return
    def step(o): return o + 24 + u(V, b, 8 + o + 20, 4)
    got = V.chain('descriptors', r.full_status_descriptors, n, step)
    if got is None: return
    d, o = got
    al = u(V, b, 8 + o + 20, 4)
    V.assume(V.And(al > 0, o + 24 + al <= n))
    check_fields(V, d, FULL, b[8 + o:], 'descriptor ')
    V.cover('a descriptor decodes')
