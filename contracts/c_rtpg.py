"""C13: REPORT TARGET PORT GROUPS responses."""
from engine.registry import contract, family
from ._lib import *

M = 'infi.asi.cdb.rtpg.'
T = [M + 'RTPGCommand.execute', M + 'TargetPortGroupDescriptor', M + 'TargetPortDescriptor']
G = {'asymetric_access_state': ('b', 0, 0, 4), 'pref': ('b', 0, 7), 'ao_sup': ('b', 1, 0), 'an_sup': ('b', 1, 1), 's_sup': ('b', 1, 2), 'u_sup': ('b', 1, 3),
     'lbd_sup': ('b', 1, 4), 'o_sup': ('b', 1, 6), 't_sup': ('b', 1, 7), 'target_port_group': ('u', 2, 2), 'status_code': ('u', 5, 1), 'target_port_count': ('u', 7, 1)}

FORMATS = [('length_only', 0, 4, 'TargetPortGroupLengthOnlyResponse'), ('extended', 1, 8, 'TargetPortGroupExtendedResponse')]
TG = lambda f, start, cls: T + [M + cls]

def asked(V, f, b):
    """the command, with any allocation length the response fits in"""
    from infi.asi.cdb.rtpg import RTPGCommand
    if V.bool('default allocation length'): return RTPGCommand(f)
    a = V.int('allocation_length', 0, 2 ** 32 - 1)
    V.assume(V.blen(b) <= a)
    return RTPGCommand(f, a)

def header(V, f, total):
    """header for `total` bytes of descriptors"""
    if f == 0: return V.be(total, 4)
    return V.cat(V.be(total + 4, 4), V.bytes('header', 4))

def group(V, d, b, o):
    """descriptor object d holds the descriptor at offset o of b"""
    for f in sorted(G):
        k = G[f]
        want = u(V, b, o + k[1], k[2]) if k[0] == 'u' else bits(V, b, o + k[1], *k[2:])
        V.check('%s decodes bytes of the descriptor' % f, V.eq(getattr(d, f), want))

@family('C13', FORMATS, targets=TG)
def one_group(V, f, start, cls):
    """one target port group with any number of ports: state, support flags, group and status from their bytes, exactly as many
    ports as counted, port k being bytes 2-3 of its 4-byte entry; bytes after the announced length are ignored"""
    k = V.track('k')
    c = V.int('ports', 0, 255)
    g = V.cat(V.bytes('group', 7), V.be(c, 1), V.bytes('port_list', 4 * c))
    b = V.cat(header(V, f, 8 + 4 * c), g, V.bytes('tail', V.length('tail_len', 0, 40)))
    cmds, r = run(V, asked(V, f, b), b)
    V.check('data length', V.eq(r.data_length, u(V, b, 0, 4)))
    if f == 1: V.check('format type', V.eq(r.format_type, bits(V, b, 4, 4, 3)))
    V.check('one group', V.len(r.descriptor_list) == 1)
    d = V.at(r.descriptor_list, 0)
    group(V, d, b, start)
    V.check('number of ports', V.len(d.target_port_list) == c)
    if k < c: V.check('port k', V.eq(V.at(d.target_port_list, k).relative_target_port_identifier, u(V, b, start + 8 + 4 * k + 2, 2)))

@family('C13', FORMATS, targets=TG)
def no_groups(V, f, start, cls):
    """a response that announces no descriptors yields none, whatever bytes follow"""
    b = V.cat(header(V, f, 0), V.bytes('tail', V.length('tail_len', 0, 40)))
    cmds, r = run(V, asked(V, f, b), b)
    V.check('none', V.len(r.descriptor_list) == 0)
    if f == 1: V.check('format type', V.eq(r.format_type, bits(V, b, 4, 4, 3)))

@family('C13', FORMATS, targets=TG)
def group_list(V, f, start, cls):
    """the descriptors are laid end to end: each starts 8 bytes plus 4 per port after the one before, none is skipped or repeated,
    together they cover the announced length"""
    V.returned_only()
    n = V.length('bytes_of_groups', 0, 16000)
    body = V.bytes('groups', n)
    b = V.cat(header(V, f, n), body)
    st, cmds, r, c = attempt(V, lambda: asked(V, f, b), b)
    if st != 'ok': return
    def step(o):
        V.assume(o + 8 <= n)
        V.assume(o + 8 + 4 * body[o + 7] <= n)
        return o + 8 + 4 * body[o + 7]
    got = V.chain('groups', r.descriptor_list, n, step)
    if got is None: return
    d, o = got
    group(V, d, body, o)
    V.check('ports of an arbitrary group', V.len(d.target_port_list) == body[o + 7])

@family('C13', FORMATS, targets=TG)
def two_groups(V, f, start, cls):
    """two groups with any number of ports each are both decoded, in order"""
    k = V.track('k')
    c = [V.length('ports', 0, 255) for i in range(2)]
    g = [V.cat(V.bytes('group', 7), V.to_bytes(x), V.bytes('port_list', 4 * x)) for x in c]
    b = V.cat(header(V, f, 16 + 4 * sum(c)), *g)
    cmds, r = run(V, asked(V, f, b), b)
    V.check('both', V.len(r.descriptor_list) == 2)
    for i in range(2):
        d = V.at(r.descriptor_list, i)
        group(V, d, g[i], 0)
        V.check('ports', V.len(d.target_port_list) == c[i])
        if k < c[i]:
            V.check('port', V.eq(V.at(d.target_port_list, k).relative_target_port_identifier, u(V, g[i], 10 + 4 * k, 2)))

@family('C13', FORMATS, targets=TG)
def truncated_group(V, f, start, cls):
    """a descriptor cut short before its port count is refused"""
    h = V.length('have', 1, 7)
    b = V.cat(header(V, f, 8), V.bytes('group', h))
    st, cmds, r, c = attempt(V, lambda: asked(V, f, b), b)
    V.check('refused', st == 'exc')
