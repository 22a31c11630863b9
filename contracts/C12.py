from vc.task import *
from common import *
U = 'utility::'
FP = {'fp': 'fp'}
def each(T, q, **kw):
    fs = T.fns(U + q, **kw)
    if not fs: raise Unsupported('function ' + q)
    ids = {f['id']: f for f in fs}
    return list(ids.values())
def cmpf(ex, op, t, a, b): return ex.compare(op, t, a, b)
def same(ex, t, a, b): return a == b
def scalars(T, f, ref=0):
    ex = T.ex; t = ex.ty.strip_ref(f['ps'][ref]['t']); return t, [T.obj(t, p['n']) for p in f['ps']]
@task('C12', 'utility', mode=FP)
def Clamp(T):
    """doubles, floats (with infinities and NaN) and integers"""
    for f in each(T, 'ClampValue'):
        ex = T.ex; t, args = scalars(T, f); v, lo, hi = [T.val(a) for a in args]; st0 = ex.st.clone()
        le = lambda a, b: cmpf(ex, '<=', t, a, b); lt = lambda a, b: cmpf(ex, '<', t, a, b)
        o = T.call(f, None, args); T.throws_iff(o, mkNot(le(lo, hi)), 'inverted intervals are rejected'); r = o.ret; r = ex.load(r) if isinstance(r, LVal) else r
        nan = z3.fpIsNaN(v) if ex.ty.kind(t) == 'fp' else z3.BoolVal(False); n = ex.ty.name(t) + ': '
        T.ensure(n + 'inside the interval', z3.Or(nan, mkAnd(le(lo, r), le(r, hi)))); T.ensure(n + 'a value already inside is unchanged', z3.Implies(mkAnd(le(lo, v), le(v, hi)), r == v))
        T.ensure(n + 'the nearest end otherwise', mkAnd(z3.Implies(lt(v, lo), r == lo), z3.Implies(lt(hi, v), r == hi))); ex.st = st0
@task('C12', 'utility', mode=FP)
def Spread(T):
    for f in each(T, 'SpreadValue'):
        ex = T.ex; t, args = scalars(T, f); v, lo, mid, hi = [T.val(a) for a in args]; st0 = ex.st.clone()
        le = lambda a, b: cmpf(ex, '<=', t, a, b); lt = lambda a, b: cmpf(ex, '<', t, a, b)
        o = T.call(f, None, args); T.throws_iff(o, mkNot(mkAnd(le(lo, mid), le(mid, hi))), 'disordered thresholds are rejected'); r = o.ret; r = ex.load(r) if isinstance(r, LVal) else r; n = ex.ty.name(t) + ': '
        T.ensure(n + 'upper half goes to the high threshold', z3.Implies(mkAnd(le(mid, v), lt(v, hi)), r == hi)); T.ensure(n + 'lower half goes to the low threshold', z3.Implies(mkAnd(lt(lo, v), lt(v, mid)), r == lo))
        T.ensure(n + 'at or beyond the thresholds unchanged', z3.Implies(mkNot(z3.Or(mkAnd(le(mid, v), lt(v, hi)), mkAnd(lt(lo, v), lt(v, mid)))), r == v)); ex.st = st0
@task('C12', 'utility', mode={'bv': BITS} if (BITS := ['unsigned char', 'unsigned short', 'unsigned int', 'unsigned long', 'int', 'long']) else None)
def Bits(T):
    ex = T.ex
    for f in each(T, 'SetBit'):
        t = f['ps'][0]['t']; w = ex.ty.ibits(t)[0]; v, p, b = T.sym(t, 'current'), T.sym(f['ps'][1]['t'], 'bit'), T.sym(f['ps'][2]['t'], 'value'); n = '%d bits: ' % w
        T.assume(z3.ULT(p, w)); o = T.call(f, None, [v, p, b]); T.never_throws(o); r = o.ret
        pw = z3.ZeroExt(w - 32, p) if w > 32 else z3.Extract(w - 1, 0, p); at = z3.BitVecVal(1, w) << pw
        T.ensure(n + 'that bit has the value given', ((r & at) != 0) == b); T.ensure(n + 'every other bit is unchanged', (r & ~at) == (v & ~at))
    for f in each(T, 'GetBit'):
        t = f['ps'][0]['t']; w = ex.ty.ibits(t)[0]; v, p = T.sym(t, 'current'), T.sym(f['ps'][1]['t'], 'bit'); T.assume(z3.ULT(p, w))
        o = T.call(f, None, [v, p]); T.never_throws(o); pw = z3.ZeroExt(w - 32, p) if w > 32 else z3.Extract(w - 1, 0, p)
        T.ensure('%d bits: tells whether that bit is set' % w, o.ret == (((v >> pw) & 1) != 0))
IEEE = 'IEEE-754 facts: for a double u in [0,1) and a double x >= 1, u*x < x; conversion of an integer n rounds to nearest (no double lies strictly between n and the converted value)'
def unit(T):
    ex = T.ex; u = T.sym('double', 'sample'); T.assume(z3.And(u >= 0, u < 1), 'unit samples lie in [0, 1)')
    def model(ex, args, c): return u
    return u, T.func('unit_real', model)
def ieee(T, u, n, x):
    ex = T.ex
    T.assume(z3.And(z3.Implies(n >= 1, x >= 1)), IEEE)
    for m in (ex.fparith('*', T.type('double'), u, x),):
        T.assume(z3.And(z3.Implies(x >= 1, z3.And(m < x, m >= 0)), z3.Implies(m < x, m < z3.ToReal(n))))
def widths(T, f): return T.ex.ty.ibits(f['ret'])
@task('C12', 'utility')
def RandomIndex(T):
    for f in each(T, 'GetUniformRandomIndex'):
        ex = T.ex; u, fn = unit(T); n = T.sym(f['ps'][1]['t'], 'container_size'); st0 = ex.st.clone()
        ieee(T, u, n, ex.convert(n, f['ps'][1]['t'], T.type('double')))
        o = T.call(f, None, [T.lv(ex.ty.strip_ref(f['ps'][0]['t']), fn, 'fn'), n]); T.throws_iff(o, n < 1, 'empty containers are rejected')
        T.ensure(ex.ty.name(f['ret']) + ': index inside the container', z3.And(o.ret >= 0, o.ret < n)); ex.st = st0
def idx_con(ex, c):
    """GetUniformRandomIndex, proved above"""
    n = c.val(1); ex.throw_if(n < 1, 'std::invalid_argument', c.e); r = ex.fresh(c.rettid, 'index'); ex.assume(z3.And(r >= 0, r < n)); return r
@task('C12', 'utility', contracts={NSP + U + 'GetUniformRandomIndex': idx_con})
def RandomInRange(T):
    for f in each(T, 'GetUniformRandomInRange'):
        ex = T.ex; u, fn = unit(T); a, b = T.sym(f['ps'][1]['t'], 'start'), T.sym(f['ps'][2]['t'], 'end'); w, sg = widths(T, f); st0 = ex.st.clone()
        T.assume(b - a < (2 ** (w - 1 if sg else w)) - 1, 'the number of values in the interval is representable in the index type')
        o = T.call(f, None, [T.lv(ex.ty.strip_ref(f['ps'][0]['t']), fn, 'fn'), a, b]); T.throws_iff(o, a > b, 'inverted intervals are rejected')
        T.ensure(ex.ty.name(f['ret']) + ': inside the interval', z3.And(o.ret >= a, o.ret <= b)); ex.st = st0
# ---- collections: cnt(a, i, x) = number of occurrences of x among the first i elements of a (ghost function, defined by its recurrence)
def S(ex): return ex.ty.sort(ex.ty.find('tu::Key'))
def cnt(ex): return z3.Function('cnt', z3.ArraySort(z3.IntSort(), S(ex)), z3.IntSort(), S(ex), z3.IntSort())
def unfold(ex, a, i):
    x = z3.Const(ex.fresh_id('x'), S(ex)); c = cnt(ex)
    ex.fact(qall([x], c(a, 0, x) == 0, patterns=[c(a, 0, x)]))
    for j in (i, i - 1): ex.fact(z3.Implies(j >= 0, qall([x], c(a, j + 1, x) == c(a, j, x) + z3.If(sel(a, j) == x, 1, 0), patterns=[c(a, j + 1, x)])))
CARD = 'std::map: size() is the number of keys, so key-set inclusion bounds the sizes, with equality only for equal key sets'
def card(ex, A, B):
    w = z3.Const(ex.fresh_id('w'), S(ex)); x = z3.Const(ex.fresh_id('x'), S(ex)); out = z3.And(sel(A.f['has'], w), mkNot(sel(B.f['has'], w)))
    ex.fact(z3.Or(out, A.f['size'] <= B.f['size'])); ex.fact(z3.Or(out, A.f['size'] < B.f['size'], qall([x], sel(A.f['has'], x) == sel(B.f['has'], x), patterns=[sel(A.f['has'], x)])))
def counting(which):
    def inv(L):
        ex = L.ex; d = ex.task.data; i = L.i; a, n = d['cols'][which]; unfold(ex, a, i); c = cnt(ex); x = z3.Const('x', S(ex))
        ms = [L.read(x) for x in L.locals('map') if x.root not in d['params']]; m = ms[which]
        if which: card(ex, ms[0], m); card(ex, m, ms[0])
        return [('position', z3.And(i >= 0, i <= n)), ('counts so far', qall([x], z3.And(sel(m.f['has'], x) == (c(a, i, x) > 0), c(a, i, x) >= 0, c(a, i, x) <= i, z3.Implies(sel(m.f['has'], x), sel(m.f['val'], x) == c(a, i, x))), patterns=[sel(m.f['has'], x)], ))]
    return inv
class It(object):
    """a loop over an associative container: its position i in the enumeration of the keys"""
    def __init__(self, L, m):
        ex = L.ex; self.keys, self.n = ex.lib.enumerate_keys(ex, m); self.i = L.i
        for j in (self.i, self.i - 1): ex.lib.key_pos_fact(ex, self.keys, j, self.n)
def matching(rel, outer):
    def inv(L):
        ex = L.ex; d = ex.task.data; (a0, n0), (a1, n1) = d['cols']; c = cnt(ex); k = z3.Int('k'); it = It(L, [L.read(x) for x in L.locals('map') if x.root not in d['params']][outer]); keys = it.keys
        x = sel(keys, k)
        return [('every earlier key matches', qall([k], z3.Implies(z3.And(k >= 0, k < it.i), rel(c(a0, n0, x), c(a1, n1, x))), patterns=[sel(keys, k)])), ('position', z3.And(it.i >= 0, it.i <= it.n))]
    return inv
def cols(T, f):
    ex = T.ex; g = [T.obj(ex.ty.strip_ref(p['t']), p['n']) for p in f['ps']]; T.data['params'] = [x.root for x in g]; T.data['cols'] = [(T.val(x).f['arr'], T.val(x).f['len']) for x in g]; T.assumptions.append(CARD); T.assumptions.append('the keys\' operator< is a strict weak order whose equivalence is equality')
    return g
@task('C12', 'utility', mode={'opaque': ['tu::Key']}, loops=[counting(0), counting(1), matching(lambda p, q: q <= p, 1)])
def Subset(T):
    f = each(T, 'IsSubset')[0]; ex = T.ex; g = cols(T, f); (a0, n0), (a1, n1) = T.data['cols']; c = cnt(ex)
    o = T.call(f, None, g); T.never_throws(o); x = z3.Const('qx', S(ex)); unfold(ex, a0, n0); unfold(ex, a1, n1)
    T.ensure('true exactly for multiset inclusion', o.ret == qall([x], c(a1, n1, x) <= c(a0, n0, x), patterns=[c(a1, n1, x)]))
@task('C12', 'utility', mode={'opaque': ['tu::Key']}, loops=[counting(0), counting(1), matching(lambda p, q: q == p, 0)])
def Equal(T):
    f = each(T, 'CollectionsEqual')[0]; ex = T.ex; g = cols(T, f); (a0, n0), (a1, n1) = T.data['cols']; c = cnt(ex)
    o = T.call(f, None, g); T.never_throws(o); x = z3.Const('qx', S(ex))
    T.ensure('true exactly for equal multisets', o.ret == z3.And(n0 == n1, qall([x], c(a1, n1, x) == c(a0, n0, x), patterns=[c(a1, n1, x)])))
@task('C12', 'utility', mode={'opaque': ['tu::Key']})
def Retrieve(T):
    f = each(T, 'RetrieveOrDefault')[0]; ex = T.ex; g = [T.obj(ex.ty.strip_ref(p['t']), p['n']) for p in f['ps']]; m, k, d = [T.val(x) for x in g]
    o = T.call(f, None, g); T.never_throws(o); r = ex.load(o.ret) if isinstance(o.ret, LVal) else o.ret; kk = k if z3.is_expr(k) else ex.ty.pack(k)
    T.ensure('the stored value, else the default', r == z3.If(sel(m.f['has'], kk), sel(m.f['val'], kk), d))
def keysloop(pairs):
    def inv(L):
        ex = L.ex; m = ex.task.data['m']; it = It(L, m); v = L.read(L.written('vec')[0]); k = z3.Int('k')
        el = lambda a, k: sel(a, k)
        if pairs:
            et = ex.ty.elem(v.tid); one = lambda k: (lambda p: z3.And(p.f['first'] == sel(it.keys, k), p.f['second'] == sel(m.f['val'], sel(it.keys, k))))(ex.ty.unpack(et, sel(v.f['arr'], k)))
        else: one = lambda k: sel(v.f['arr'], k) == sel(it.keys, k)
        return [('position', z3.And(it.i >= 0, it.i <= it.n, v.f['len'] == it.i)), ('in order so far', qall([k], z3.Implies(z3.And(k >= 0, k < it.i), one(k)), patterns=[sel(v.f['arr'], k)]))]
    return inv
def keysof(T, q, pairs=False):
    f = each(T, q)[0]; ex = T.ex; g = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'container'); m = T.val(g); T.data['m'] = m; keys, n = ex.lib.enumerate_keys(ex, m)
    o = T.call(f, None, [g]); T.never_throws(o); v = o.ret; k = T.qv('k'); T.ensure('one element per key', v.f['len'] == n); T.ensure('container unchanged', z3.And(T.val(g).f['size'] == m.f['size'], T.val(g).f['has'] == m.f['has']))
    if pairs: et = ex.ty.elem(v.tid); p = ex.ty.unpack(et, sel(v.f['arr'], k)); T.ensure('each key with its value, in the container\'s order', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(p.f['first'] == sel(keys, k), p.f['second'] == sel(m.f['val'], sel(keys, k))))))
    else: T.ensure('every key once, in the container\'s order', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), sel(v.f['arr'], k) == sel(keys, k))))
@task('C12', 'utility', mode={'opaque': ['tu::Key']}, loops=[keysloop(False)])
def KeysOfMap(T): keysof(T, 'GetKeysFromMapLike')
@task('C12', 'utility', mode={'opaque': ['tu::Key']}, loops=[keysloop(False)])
def KeysOfSet(T): keysof(T, 'GetKeysFromSetLike')
@task('C12', 'utility', mode={'opaque': ['tu::Key']}, loops=[keysloop(True)])
def KeysAndValues(T): keysof(T, 'GetKeysAndValues', True)
# last(a, i, x): position of the last x among the first i keys (-1 if none)
def last(ex): return z3.Function('last', z3.ArraySort(z3.IntSort(), S(ex)), z3.IntSort(), S(ex), z3.IntSort())
def makeloop(L):
    ex = L.ex; d = ex.task.data; i = L.i; m = L.read(L.written('map')[0]); la = d['last']; x = z3.Const('x', S(ex))
    ex.fact(qall([x], la(0, x) == -1, patterns=[la(0, x)]))
    for j in (i, i - 1): ex.fact(z3.Implies(j >= 0, qall([x], la(j + 1, x) == z3.If(d['key'](j) == x, j, la(j, x)), patterns=[la(j + 1, x)])))
    return [('position', z3.And(i >= 0, i <= d['n'])), ('last binding of every key', qall([x], z3.And(sel(m.f['has'], x) == (la(i, x) >= 0), la(i, x) < i + 1, z3.Implies(la(i, x) >= 0, sel(m.f['val'], x) == d['value'](la(i, x)))), patterns=[sel(m.f['has'], x)]))]
def make(T, np):
    f = each(T, 'MakeFromKeysAndValues', nparams=np)[0]; ex = T.ex; g = [T.obj(ex.ty.strip_ref(p['t']), p['n']) for p in f['ps']]; vs = [T.val(x) for x in g]; n = vs[0].f['len']
    la = z3.Function('last', z3.IntSort(), S(ex), z3.IntSort())
    if np == 1: et = ex.ty.elem(vs[0].tid); key = lambda i: ex.ty.unpack(et, sel(vs[0].f['arr'], i)).f['first']; val = lambda i: ex.ty.unpack(et, sel(vs[0].f['arr'], i)).f['second']
    else: key = lambda i: sel(vs[0].f['arr'], i); val = lambda i: sel(vs[1].f['arr'], i)
    T.data.update(n=n, key=key, value=val, last=la)
    o = T.call(f, None, g); T.throws_iff(o, z3.BoolVal(False) if np == 1 else n != vs[1].f['len'], 'unequal lengths are rejected'); m = o.ret; x = z3.Const('qx', S(ex))
    T.ensure('exactly the keys given, each with its last value', z3.ForAll([x], z3.And(sel(m.f['has'], x) == (la(n, x) >= 0), z3.Implies(la(n, x) >= 0, sel(m.f['val'], x) == val(la(n, x))))))
@task('C12', 'utility', mode={'opaque': ['tu::Key']}, loops=[makeloop])
def MakeFromPairs(T): make(T, 1)
@task('C12', 'utility', mode={'opaque': ['tu::Key']}, loops=[makeloop])
def MakeFromTwo(T): make(T, 2)
