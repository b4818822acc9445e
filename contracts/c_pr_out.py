from engine.registry import contract, family
from ._lib import *

T = ['infi.asi.cdb.persist.output.PersistentReserveOutCommand.__init__', 'infi.asi.cdb.persist.output.PersistentReserveOutCommand.execute',
     'infi.asi.cdb.persist.output.PersistentReserveOutCommandBasicParameterList', 'infi.asi.cdb.persist.output.PersistentReserveOutCommandRegisterAndMoveParameterList']
BASIC = [0, 1, 2, 3, 4, 5, 6, 8]

def pr_cdb(V, sa, typ, n): return V.cat(V.to_bytes(0x5F, sa, typ), V.zeros(2), V.be(n, 4), V.zeros(1))

@family('C05', [(str(s), s) for s in BASIC], targets=T)
def basic(V, sa):
    """every service action except register-and-move: CDB carries service action, type and the 24-byte parameter list length;
    the list carries the two 64-bit keys and the APTPL/ALL_TG_PT/SPEC_I_PT bits the caller gave, everything else zero"""
    from infi.asi.cdb.persist.output import PersistentReserveOutCommand
    key, skey = V.int('key', 0, 2 ** 64 - 1), V.int('service_action_key', 0, 2 ** 64 - 1)
    typ = V.int('pr_type', 0, 15)
    ap, al, sp = V.int('aptpl', 0, 1), V.int('all_tg_pt', 0, 1), V.int('spec_i_pt', 0, 1)
    resp = V.bytes('response', V.length('response_len'))
    c = PersistentReserveOutCommand(sa, reservation_key=key, service_action_reservation_key=skey, pr_type=typ,
                                    activate_persist_through_power_loss=ap, all_target_ports=al, specify_initiator_ports=sp)
    cmds, r = run(V, c, resp)
    pl = V.cat(V.be(key, 8), V.be(skey, 8), V.zeros(4), V.to_bytes(ap + 4 * al + 8 * sp), V.zeros(3))
    check_write(V, cmds, pr_cdb(V, sa, typ, 24), pl)
    V.check_eq('the result is the response', r, resp)

@family('C05', [(str(s), s) for s in BASIC], targets=T)
def basic_defaults(V, sa):
    """omitted keys are zero, omitted type is write-exclusive, omitted flags are clear"""
    from infi.asi.cdb.persist.output import PersistentReserveOutCommand
    key = V.int('key', 0, 2 ** 64 - 1)
    cmds, r = run(V, PersistentReserveOutCommand(sa, reservation_key=key), b'')
    check_write(V, cmds, pr_cdb(V, sa, 1, 24), V.cat(V.be(key, 8), V.zeros(16)))
    cmds, r = run(V, PersistentReserveOutCommand(sa), b'')
    check_write(V, cmds, pr_cdb(V, sa, 1, 24), V.zeros(24))

@contract('C05', targets=T)
def register_and_move(V):
    """register-and-move: the 24-byte header carries keys, APTPL/UNREG bits, relative target port id and the transport id length;
    the caller's transport id follows; the CDB length covers both"""
    from infi.asi.cdb.persist.output import PersistentReserveOutCommand
    from infi.asi.cdb.persist.transport import TransportId
    key, skey = V.int('key', 0, 2 ** 64 - 1), V.int('service_action_key', 0, 2 ** 64 - 1)
    typ, rtpi = V.int('pr_type', 0, 15), V.int('rtpi', 0, 65535)
    ap, un = V.int('aptpl', 0, 1), V.int('unreg', 0, 1)
    proto, fmt = V.int('protocol', 0, 15), V.int('format', 0, 3)
    n = V.length('specific_data_len', 0, 1 << 20)
    spec = V.bytes('specific_data', n)
    t = TransportId(protocol_identifier=proto, format_code=fmt, specific_data=V.bytearray(spec))
    kw = dict(reservation_key=key, service_action_reservation_key=skey, pr_type=typ, activate_persist_through_power_loss=ap, unregister=un,
              relative_target_port_identifier=rtpi)
    if V.bool('default arguments'):
        kw, key, skey, ap, un, rtpi, typ = {}, 0, 0, 0, 0, 0, 1
    c = PersistentReserveOutCommand(7, transport_id=t, **kw)
    cmds, r = run(V, c, b'')
    pl = V.cat(V.be(key, 8), V.be(skey, 8), V.zeros(1), V.to_bytes(ap + 2 * un), V.be(rtpi, 2), V.be(n + 1, 4), V.to_bytes(proto + 64 * fmt), spec)
    check_write(V, cmds, pr_cdb(V, 7, typ, 25 + n), pl)

@contract('C05', targets=T)
def service_actions(V):
    """for every integer service action: the nine defined ones are sent with their own code, all others are refused"""
    from infi.asi.cdb.persist.output import PersistentReserveOutCommand
    from infi.asi.cdb.persist.transport import TransportId
    sa = V.int('service_action', -4, 300)
    kw = {}
    if sa == 7:
        kw['transport_id'] = TransportId(specific_data=bytearray(3))
    st, cmds, r, c = attempt(V, lambda: PersistentReserveOutCommand(sa, **kw), b'')
    if cmds:
        V.check('only defined service actions are sent', V.And(sa >= 0, sa <= 8))
        V.check('the service action sent is the one asked for', V.eq(V.cat(cmds[0].command)[1], sa))
    else: V.check('defined service actions are accepted', V.Or(sa < 0, sa > 8))

@contract('C05', targets=T)
def named_codes(V):
    """the service actions and reservation types have the codes the standard gives them, and a transport id is of no particular format
    unless the caller says so"""
    import infi.asi.cdb.persist.output as m
    from infi.asi.cdb.persist.transport import TransportId
    A, P = m.PERSISTENT_RESERVE_OUT_SERVICE_ACTION_CODES, m.PERSISTENT_RESERVE_OUT_TYPES
    for i, n in enumerate(['REGISTER', 'RESERVE', 'RELEASE', 'CLEAR', 'PREEMPT', 'PREEMPT_AND_ABORT', 'REGISTER_AND_IGNORE_EXISTING_KEY', 'REGISTER_AND_MOVE', 'REPLACE_LOST_RESERVATION']):
        V.check(n, getattr(A, n) == i)
    for i, n in ((1, 'WRITE_EXCLUSIVE'), (3, 'EXCLUSIVE_ACCESS'), (5, 'WRITE_EXCLUSIVE_REGISTRANTS_ONLY'), (6, 'EXCLUSIVE_ACCESS_REGISTRANTS_ONLY'),
                 (7, 'WRITE_EXCLUSIVE_ALL_REGISTRANTS'), (8, 'EXCLUSIVE_ACCESS_ALL_REGISTRANTS')): V.check(n, getattr(P, n) == i)
    V.check_eq('transport id of a given protocol', TransportId(protocol_identifier=6, specific_data=bytearray(23)).pack(), b'\x06' + bytes(23))

@contract('C05', targets=T)
def any_values(V):
    """for all integer keys and all types >= 0: sent implies that they fit (nothing is truncated); fitting values are accepted"""
    from infi.asi.cdb.persist.output import PersistentReserveOutCommand
    k, s, t = V.int('key', -(1 << 70), 1 << 70), V.int('service_action_key', -(1 << 70), 1 << 70), V.int('pr_type', -300, 300)
    st, cmds, r, c = attempt(V, lambda: PersistentReserveOutCommand(1, k, s, t), b'')
    ok = V.And(in_range(V, k, 64), in_range(V, s, 64), in_range(V, t, 4))
    if cmds: V.check('nothing is sent for values that do not fit', ok)
    else: V.check('fitting values are accepted', V.Not(ok))
