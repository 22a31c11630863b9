"""Serialization: byte-level predicates and the contracts used between functions (each contract proved by a C06/C08 task)."""
from vc.task import *
from vc.lib import enc_byte, dec_bytes, enc_facts, dec_facts, tsize, ex_eq
NS = 'common_robotics_utilities::serialization::'
M = {'fp': 'fp', 'fparith': 'uf', 'opaque': ['tu::Item', 'tu::Key']}
I = z3.IntSort()
LIM = 2 ** 60
def sel(a, i): return z3.Select(a, i)
def held_bytes(ex, arr, off, tid, v, net=False):
    """the representation of the scalar v at off (net: most significant byte first)"""
    n = tsize(ex, tid)
    return z3.And(*[sel(arr, off + j) == enc_byte(ex, tid, v, (n - 1 - j) if net else j) for j in range(n)])
def read_at(ex, arr, off, tid, net=False):
    n = tsize(ex, tid); bs = [sel(arr, off + j) for j in range(n)]
    if net: bs.reverse()
    return bs
class Custom(object):
    """a user-supplied serializer/deserializer pair for an arbitrary type: sz bytes, Holds(buffer bytes, offset, value)"""
    def __init__(self, ex, tid):
        self.tid = tid; nm = ex.ty.name(tid); s = ex.ty.sort(tid); A = z3.ArraySort(I, I)
        self.sz = z3.Function('sz_' + nm, s, I); self.holds = z3.Function('holds_' + nm, A, I, s, z3.BoolSort()); self.sort = s
def custom(ex, tid):
    if isinstance(tid, str): tid = ex.ty.find(tid)
    d = ex.task.data.setdefault('custom', {})
    if tid not in d: d[tid] = Custom(ex, tid)
    return d[tid]
def all_custom(ex): return list(ex.task.data.get('custom', {}).values())
def extend(ex, buf, n, at):
    """the buffer grows by n bytes at its end, described by at(new bytes, old length); everything below is unchanged"""
    v = ex.load(buf); ln = ex.vlen(buf); old = v.f['arr']
    new = z3.Const(ex.fresh_id('buf'), old.sort()); k = z3.Const(ex.fresh_id('k'), I)
    ex.fact(qall([k], z3.Implies(k < ln, sel(new, k) == sel(old, k)), patterns=[sel(new, k)]))
    frame(ex, old, new, ln)
    for f in at(new, ln): ex.assume(f)
    ex.store(buf.fld('arr', None), new); ex.store(buf.fld('len', None), ln + n)
def frame(ex, old, new, ln):
    """Holds(b, o, v) depends only on the bytes [o, o + sz(v))"""
    for c in all_custom(ex):
        o = z3.Const(ex.fresh_id('o'), I); w = z3.Const(ex.fresh_id('w'), c.sort)
        ex.fact(qall([o, w], z3.Implies(z3.And(o >= 0, c.sz(w) >= 1, o + c.sz(w) <= ln, c.holds(old, o, w)), c.holds(new, o, w)), patterns=[c.holds(new, o, w)]))
        ex.fact(qall([o, w], z3.Implies(z3.And(o >= 0, c.sz(w) >= 1, o + c.sz(w) <= ln, c.holds(old, o, w)), c.holds(new, o, w)), patterns=[c.holds(old, o, w)]))
def custom_ser(T, tid):
    ex = T.ex; c = custom(ex, tid)
    def model(ex, args, e):
        v = ex.ty.pack(('t', c.tid), ex.asval(args[0])); buf = args[1]
        ex.assume(c.sz(v) >= 1)
        extend(ex, buf, c.sz(v), lambda new, ln: [c.holds(new, ln, v)])
        return c.sz(v)
    return T.func('serializer of ' + ex.ty.name(c.tid), model)
def deserialized(ex, rt, v, n):
    return Struct(rt, {'value_': v, 'bytes_read_': n})
def custom_deser(T, tid):
    ex = T.ex; c = custom(ex, tid)
    def model(ex, args, e):
        b = args[0]; arr = ex.load(b).f['arr']; ln = ex.vlen(b); off = ex.asval(args[1])
        t = z3.Const(ex.fresh_id('deserializer_throws'), z3.BoolSort()); d = z3.Const(ex.fresh_id('d'), c.sort); n = ex.fresh(ex.ty.find('unsigned long'), 'consumed')
        w = z3.Const(ex.fresh_id('w'), c.sort)
        ex.fact(qall([w], z3.Implies(z3.And(c.holds(arr, off, w), off + c.sz(w) <= ln), z3.And(mkNot(t), d == w, n == c.sz(w))), patterns=[c.holds(arr, off, w)]))
        ex.throw_if(t, 'user exception', e)
        ex.assume(z3.And(n >= 1, off + n <= ln))      # a returning deserializer consumed bytes inside the buffer
        return deserialized(ex, e['t'], d, n)
    return T.func('deserializer of ' + ex.ty.name(c.tid), model)

# ---- contracts of the scalar functions (proved by the Scalar tasks)
def ser_scalar(net):
    def con(ex, c):
        t = ex.ty.strip_ref(c.f['ps'][0]['t']); v = c.val(0); n = tsize(ex, t)
        ex.fact(enc_facts(ex, t, v))
        extend(ex, c.args[1], n, lambda new, ln: [held_bytes(ex, new, ln, t, v, net)])
        return z3.IntVal(n)
    return con
def des_scalar(net):
    def con(ex, c):
        b = c.args[0]; arr = ex.load(b).f['arr']; ln = ex.vlen(b); off = c.val(1)
        t = ex.ty.fieldtid(c.rettid, 'value_'); n = tsize(ex, t)
        ex.throw_if(z3.Or(off >= ln, off + n > ln), 'std::invalid_argument', c.e)
        bs = read_at(ex, arr, off, t, net); ex.fact(dec_facts(ex, t, bs))
        return deserialized(ex, c.rettid, dec_bytes(ex, t, bs), z3.IntVal(n))
    return con
def inplace_scalar(ex, c):
    t = ex.ty.strip_ref(c.f['ps'][0]['t']); v = c.val(0); n = tsize(ex, t); buf = c.args[1]; off = c.val(2)
    b = ex.load(buf); ln = ex.vlen(buf); old = b.f['arr']
    ex.throw_if(off + n > ln, 'std::runtime_error', c.e)
    new = z3.Const(ex.fresh_id('buf'), old.sort()); k = z3.Const(ex.fresh_id('k'), I)
    ex.fact(qall([k], z3.Implies(z3.Or(k < off, k >= off + n), sel(new, k) == sel(old, k)), patterns=[sel(new, k)]))
    ex.fact(enc_facts(ex, t, v)); ex.assume(held_bytes(ex, new, off, t, v, True))
    ex.store(buf.fld('arr', None), new)
    return z3.IntVal(n)
SER = {NS + 'SerializeMemcpyable': ser_scalar(False), NS + 'DeserializeMemcpyable': des_scalar(False)}
NET = {NS + 'SerializeNetworkMemcpyable': ser_scalar(True), NS + 'DeserializeNetworkMemcpyable': des_scalar(True), NS + 'SerializeNetworkMemcpyableInPlace': inplace_scalar}
ALL = dict(SER); ALL.update(NET)

# ---- contracts of the pair functions (proved by PairSerialize / PairDeserialize)
def pair_ser(ex, c):
    p = ex.load(c.args[0]) if isinstance(c.args[0], LVal) else c.val(0)
    if z3.is_expr(p): p = ex.ty.unpack(ex.ty.strip_ref(c.f['ps'][0]['t']), p)
    (_, d1), (_, d2) = ex.ty.fields(p.tid)
    c1, c2 = custom(ex, d1[1]), custom(ex, d2[1]); a, b = p.f['first'], p.f['second']
    ex.assume(z3.And(c1.sz(a) >= 1, c2.sz(b) >= 1))
    extend(ex, c.args[1], c1.sz(a) + c2.sz(b), lambda new, ln: [c1.holds(new, ln, a), c2.holds(new, ln + c1.sz(a), b)])
    return c1.sz(a) + c2.sz(b)
def pair_des(ex, c):
    b = c.args[0]; arr = ex.load(b).f['arr']; ln = ex.vlen(b); off = c.val(1)
    pt = ex.ty.fieldtid(c.rettid, 'value_'); (_, d1), (_, d2) = ex.ty.fields(pt); c1, c2 = custom(ex, d1[1]), custom(ex, d2[1])
    t = z3.Const(ex.fresh_id('pair_throws'), z3.BoolSort()); x = z3.Const(ex.fresh_id('x'), c1.sort); y = z3.Const(ex.fresh_id('y'), c2.sort); n = ex.fresh(ex.ty.find('unsigned long'), 'consumed')
    w = z3.Const(ex.fresh_id('w'), c1.sort); u = z3.Const(ex.fresh_id('u'), c2.sort)
    ex.fact(qall([w, u], z3.Implies(z3.And(c1.sz(w) >= 1, c2.sz(u) >= 1, c1.holds(arr, off, w), c2.holds(arr, off + c1.sz(w), u), off + c1.sz(w) + c2.sz(u) <= ln), z3.And(mkNot(t), x == w, y == u, n == c1.sz(w) + c2.sz(u))),
        patterns=mpat(c1.holds(arr, off, w), c2.holds(arr, off + c1.sz(w), u))))
    ex.throw_if(t, 'user exception', c.e)
    ex.assume(z3.And(n >= 2, off + n <= ln))
    return deserialized(ex, c.rettid, Struct(pt, {'first': x, 'second': y}), n)
PAIR = {NS + 'SerializePair': pair_ser, NS + 'DeserializePair': pair_des}
# ---- tasks' setup
def buffer(T, name='buffer'):
    b = T.obj('std::vector<unsigned char, std::allocator<unsigned char>>', name)
    T.assume(T.val(b).f['len'] <= LIM, 'buffers are at most 2^60 bytes'); return b
def snap(T, b): v = T.val(b); return v.f['len'], v.f['arr']
def appended(T, b, l0, a0, n, o):
    """only appends: bytes below the old end untouched, n more bytes, returned count n"""
    l1, a1 = snap(T, b); k = T.qv('k')
    T.ensure('exactly the reported number of bytes is appended', z3.And(l1 == l0 + n, o.ret == n))
    T.ensure('bytes already in the buffer are unchanged', qall([k], z3.Implies(z3.And(k >= 0, k < l0), sel(a1, k) == sel(a0, k)), patterns=[sel(a1, k)]))
    return a1
def value(ex, o): return ex.asval(o.ret).f['value_'], ex.asval(o.ret).f['bytes_read_']
def pos_fn(ex, nm='pos'): return z3.Function(nm, I, I)
