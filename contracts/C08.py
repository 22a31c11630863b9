from ser import *
import C06 as S
from vc.task import REG
REG.pop('C08', None)
NN = ['unsigned char', 'signed char', 'unsigned short', 'short', 'unsigned int', 'int', 'unsigned long', 'long', 'float', 'double']
@task('C08', 'serialization', mode=M)
def NetworkScalarSerialize(T): S.scalar_ser(T, 'SerializeNetworkMemcpyable', True)
@task('C08', 'serialization', mode=M)
def NetworkScalarDeserialize(T): S.scalar_des(T, 'DeserializeNetworkMemcpyable', True)
@task('C08', 'serialization', mode=M)
def InPlace(T):
    ex = T.ex
    for f in T.fns(NS + 'SerializeNetworkMemcpyableInPlace'):
        t = ex.ty.strip_ref(f['ps'][0]['t']); n = tsize(ex, t); b = buffer(T); v = T.obj(t, 'value'); p = T.sym('unsigned long', 'buffer_position'); l0, a0 = snap(T, b)
        o = T.call(f, None, [v, b, p]); nm = ex.ty.name(t) + ': '
        T.throws_iff(o, p + n > l0, nm + 'rejected exactly when it does not fit')
        l1, a1 = snap(T, b); k = T.qv('k')
        T.ensure(nm + 'most significant byte first', held_bytes(ex, a1, p, t, T.val(v), True))
        T.ensure(nm + 'no other byte changed, bytes written reported', z3.And(l1 == l0, o.ret == n, qall([k], z3.Implies(z3.And(k >= 0, k < l0, z3.Or(k < p, k >= p + n)), sel(a1, k) == sel(a0, k)), patterns=[sel(a1, k)])))
for w in (16, 32, 64):
    def swap(T, w=w):
        """host to network and network to host reverse the byte order and are inverse to each other"""
        ex = T.ex; n = w // 8
        for q in ('HostToNetwork%d' % w, 'NetworkToHost%d' % w):
            f = T.fn(NS + q); t = f['ret']; v = T.sym(t, 'value'); o = T.call(f, None, [v]); T.never_throws(o)
            ex.fact(enc_facts(ex, t, v))
            T.ensure(q + ' reverses the bytes', z3.And(*[enc_byte(ex, t, o.ret, j) == enc_byte(ex, t, v, n - 1 - j) for j in range(n)]))
        f = T.fn(NS + 'HostToNetwork%d' % w); g = T.fn(NS + 'NetworkToHost%d' % w); v = T.sym(f['ret'], 'value')
        o = T.call(f, None, [v]); p = T.call(g, None, [o.ret]); ex.fact(enc_facts(ex, f['ret'], v)); ex.fact(enc_facts(ex, f['ret'], o.ret)); T.ensure('inverse', p.ret == v)
    swap.__name__ = 'ByteOrder%d' % w
    task('C08', 'serialization', mode=M)(swap)
@task('C08', 'serialization', mode=M, contracts=NET, loops=[S.strloop_ser(True)])
def NetworkStringSerialize(T): S.seq_ser(T, 'SerializeNetworkString', True)
@task('C08', 'serialization', mode=M, contracts=NET, loops=[S.strloop_des(True)])
def NetworkStringDeserialize(T): S.seq_des(T, 'DeserializeNetworkString', True)
def vecloop(L):
    ex = L.ex; d = ex.task.data; b = L.cur.roots[d['b'].root]; i = L.i; k = z3.Int('k'); t = d['el']; n = tsize(ex, t)
    return [('length', b.f['len'] == d['l0'] + 8 + n * d['n']), ('prefix', qall([k], z3.Implies(z3.And(k >= 0, k < d['l0']), sel(b.f['arr'], k) == sel(d['a0'], k)), patterns=[sel(b.f['arr'], k)])),
            ('header', S.header_held(ex, b.f['arr'], d['l0'], d['n'], True)), ('items so far', S.seq_held(ex, b.f['arr'], d['l0'] + 8, t, d['va'], i, True)), ('counter', i <= d['n']),
            ('write position', L.v('previous_buffer_size') == d['l0'] + 8 + n * i)]
S.each('C08', 'NetworkMemcpyableVectorSerialize', NN, lambda T, t: S.seq_ser(T, 'SerializeNetworkMemcpyableVectorLike', True, t), contracts=NET, loops=[vecloop])
S.each('C08', 'NetworkMemcpyableVectorDeserialize', NN, lambda T, t: S.seq_des(T, 'DeserializeNetworkMemcpyableVectorLike', True, t), contracts=NET, loops=[S.strloop_des(False)])
NP = dict(NET); NP.update(PAIR)
S.cont('C08', 'NetworkVectorSerialize', 'SerializeNetworkVectorLike', True, 'vec', NET)
S.cont('C08', 'NetworkVectorDeserialize', 'DeserializeNetworkVectorLike', True, 'vec', NET)
S.cont('C08', 'NetworkMapSerialize', 'SerializeNetworkMapLike', True, 'map', NP)
S.cont('C08', 'NetworkMapDeserialize', 'DeserializeNetworkMapLike', True, 'map', NP)
S.cont('C08', 'NetworkSetSerialize', 'SerializeNetworkSetLike', True, 'set', NET)
S.cont('C08', 'NetworkSetDeserialize', 'DeserializeNetworkSetLike', True, 'set', NET)
