from ser import *

def any_deser(T, tid):
    ex = T.ex; s = ex.ty.sort(tid)
    def model(ex, args, e):
        ln = ex.vlen(args[0]); off = ex.asval(args[1])
        ex.throw_if(z3.Const(ex.fresh_id('deserializer_throws'), z3.BoolSort()), 'user exception', e)
        n = ex.fresh(ex.ty.find('unsigned long'), 'consumed')
        ex.assume(z3.And(n >= 1, off + n <= ln))
        return deserialized(ex, e['t'], z3.Const(ex.fresh_id('d'), s), n)
    return T.func('deserializer of ' + ex.ty.name(tid), model)
def pair_any(ex, c):
    ln = ex.vlen(c.args[0]); off = c.val(1); n = ex.fresh(ex.ty.find('unsigned long'), 'consumed')
    ex.throw_if(z3.Const(ex.fresh_id('pair_throws'), z3.BoolSort()), 'user exception', c.e)
    ex.assume(z3.And(n >= 2, off + n <= ln))
    return deserialized(ex, c.rettid, ex.fresh(ex.ty.fieldtid(c.rettid, 'value_'), 'pair'), n)
def inv(L):
    ex = L.ex; d = ex.task.data; p = L.v('current_position'); r = L.v('deserialized')
    out = [('position inside the buffer', z3.And(p <= d['l0'], p >= d['off'] + 8))]
    if 'len' in r.f and d['grow']: out.append(('length', r.f['len'] == L.i))
    return out
def check(T, f):
    ex = T.ex; b = buffer(T); off = T.sym('unsigned long', 'starting_offset'); l0, a0 = snap(T, b)
    T.data.update(l0=l0, off=off, grow='NetworkMemcpyableVector' not in f['q'])
    fns = []
    for q in f['ps'][2:]:
        it = ex.ty.strip_ref(q['t'])
        want = 'tu::Key' if 'tu::Key' in ex.ty.name(it) else 'tu::Item'
        fns.append(T.lv(it, any_deser(T, ex.ty.find(want)), 'deser'))
    o = T.call(f, None, [b, off] + fns)
    v, n = value(ex, o)
    T.ensure('consumed only bytes inside the buffer', z3.And(n >= 1, off + n <= l0))
    T.ensure('offset past the end rejected', off < l0)
    l1, a1 = snap(T, b); T.ensure('buffer not modified', z3.And(l1 == l0, a1 == a0))
def short(ex, f):
    n = ex.ty.name(ex.ty.fieldtid(f['ret'], 'value_')).split('<')[0] + '_' + ex.ty.name(ex.ty.fieldtid(f['ret'], 'value_'))
    return n
CON = {NS + 'DeserializeMemcpyable': des_scalar(False), NS + 'DeserializeNetworkMemcpyable': des_scalar(True), NS + 'DeserializePair': pair_any}
CON2 = dict(CON); CON2.pop(NS + 'DeserializePair')
def reg(q, contracts=CON, pick=None, suffix='', loops=None):
    def body(T):
        fs = T.fns(NS + q)
        if pick: fs = [f for f in fs if pick(T.ex, f)]
        if not fs: raise Unsupported('function ' + q)
        check(T, fs[0])
    body.__name__ = q + suffix
    task('C07', 'serialization', mode=M, contracts=contracts, loops=loops if loops is not None else [inv])(body)
vn = lambda ex, f: ex.ty.name(ex.ty.fieldtid(f['ret'], 'value_'))
for t in ('unsigned char', 'char', 'int', 'long', 'unsigned long', 'float', 'double'):
    reg('DeserializeMemcpyable', {}, lambda ex, f, t=t: vn(ex, f) == t, '_' + t.replace(' ', '_'))
    reg('DeserializeMemcpyableVectorLike', CON, lambda ex, f, t=t: vn(ex, f).startswith('std::vector<%s,' % t), '_' + t.replace(' ', '_'))
for t in ('unsigned char', 'signed char', 'unsigned short', 'short', 'unsigned int', 'int', 'unsigned long', 'long', 'float', 'double'):
    reg('DeserializeNetworkMemcpyable', {}, lambda ex, f, t=t: vn(ex, f) == t, '_' + t.replace(' ', '_'))
    reg('DeserializeNetworkMemcpyableVectorLike', CON, lambda ex, f, t=t: vn(ex, f).startswith('std::vector<%s,' % t), '_' + t.replace(' ', '_'))
reg('DeserializeString', CON, lambda ex, f: '<char' in vn(ex, f), '_char'); reg('DeserializeString', CON, lambda ex, f: '<unsigned short' in vn(ex, f), '_char16')
reg('DeserializeNetworkString'); reg('DeserializeVectorLike'); reg('DeserializeNetworkVectorLike'); reg('DeserializePair', {})
for c in ('std::map', 'std::unordered_map'): reg('DeserializeMapLike', CON, lambda ex, f, c=c: vn(ex, f).startswith(c + '<'), '_' + c[5:])
for c in ('std::set', 'std::unordered_set'): reg('DeserializeSetLike', CON, lambda ex, f, c=c: vn(ex, f).startswith(c + '<'), '_' + c[5:])
reg('DeserializeNetworkMapLike'); reg('DeserializeNetworkSetLike')
for t in ('MatrixXd', 'VectorXd', 'Vector2d', 'Vector3d', 'Vector4d', 'Quaterniond', 'Isometry3d'): reg('Deserialize' + t)
