from vc.task import *
from common import *
Q = NSP + 'math::'; F = {'fp': 'fp', 'fparith': 'uf'}; X = {'fparith': 'exact'}; M = {'opaque': ['tu::Val', 'tu::Wal']}
I_, R_ = z3.IntSort(), z3.RealSort()
def vecs(T, f):
    out = []
    for p in f['ps']:
        t = T.ex.ty.strip_ref(p['t'])
        if T.ex.ty.kind(t) == 'vec': lv = T.obj(t, p['n']); out.append((lv, T.val(lv).f)); T.assume(T.val(lv).f['len'] <= 2 ** 58, 'vectors hold fewer than 2^58 numbers')
        else: x = T.sym(p['t'], p['n']); out.append((x, x))
    return out
def sofar(L):
    """the elements before position i hold the stated operation"""
    d = L.ex.task.data; v = L.read(L.written('vec')[0]).f; k = z3.Int('k'); i = L.i; n = d['n']
    return [('position', z3.And(i >= 0, i <= n)), ('length', v['len'] == n), ('elements so far', qall([k], z3.Implies(z3.And(k >= 0, k < i), sel(v['arr'], k) == d['op'](k)), patterns=[sel(v['arr'], k)]))]
def op(name, f, ops, kinds):
    def t(T):
        ex = T.ex
        for g in {g['id']: g for g in T.fns(Q + f)}.values():
            ks = [ex.ty.kind(ex.ty.strip_ref(p['t'])) for p in g['ps']]
            if ks != kinds: continue
            a = vecs(T, g); d = T.data; d['n'] = a[0][1]['len']; tid = T.type('double'); fa = lambda o, x, y: ex.fparith(o, tid, x, y); els = lambda k: [sel(v['arr'], k) if isinstance(v, dict) else v for _, v in a]; d['op'] = lambda k: ops(ex, fa, *els(k))
            o = T.call(g, None, [lv for lv, _ in a]); two = [v for _, v in a if isinstance(v, dict)]; k = T.qv('k')
            T.throws_iff(o, z3.Or(*[v['len'] != d['n'] for v in two[1:]], z3.BoolVal(False)), 'vectors of different lengths are rejected'); r = o.ret.f; T.ensure('as many elements', r['len'] == d['n']); T.ensure('each the stated operation', z3.Implies(z3.And(k >= 0, k < d['n']), sel(r['arr'], k) == d['op'](k))); T.cover('several', d['n'] == 3); return
        raise Unsupported('function ' + f)
    t.__name__ = name; task('C31', 'math', mode=F, loops=[sofar])(t)
one = lambda x: z3.FPVal(1.0, x.sort())
op('Abs', 'Abs', lambda ex, f, x: z3.fpAbs(x), ['vec'])
for n, s in (('Multiply', '*'), ('Divide', '/'), ('Add', '+'), ('Sub', '-')):
    if n != 'Divide': op(n + 'Scalar', n, lambda ex, f, x, y, s=s: f(s, x, y), ['vec', 'fp'])
    op(n + 'Elementwise', n, lambda ex, f, x, y, s=s: f(s, x, y), ['vec', 'vec'])
op('DivideScalar', 'Divide', lambda ex, f, x, y: f('*', x, f('/', one(x), y)), ['vec', 'fp'])
def mix(ex, f, x, y, r): c = z3.If(z3.fpLT(r, z3.FPVal(0.0, r.sort())), z3.FPVal(0.0, r.sort()), z3.If(z3.fpGT(r, one(r)), one(r), r)); return f('+', f('*', x, f('-', one(r), c)), f('*', y, c))
op('Interpolate', 'Interpolate', mix, ['vec', 'vec', 'fp'])
# folds: S(i) over the first i elements
S = z3.Function('total', I_, R_)
def fold(L):
    ex = L.ex; d = ex.task.data; i = L.i; v = L.read(L.written('fp')[0]); ex.fact(S(0) == 0)
    for j in (i, i - 1): ex.fact(z3.Implies(j >= 0, S(j + 1) == S(j) + d['term'](j)))
    return [('position', z3.And(i >= 0, i <= d['n'])), ('total so far', v == S(i))]
def folds(name, f, n, term):
    def t(T):
        g = [g for g in T.fns(Q + f) if [T.ex.ty.kind(T.ex.ty.strip_ref(p['t'])) for p in g['ps']] == ['vec'] * n][0]; a = vecs(T, g); d = T.data; d['n'] = a[0][1]['len']; d['term'] = lambda k: term(*[sel(v['arr'], k) for _, v in a]); o = T.call(g, None, [x for x, _ in a]); T.throws_iff(o, z3.Or(*[v['len'] != d['n'] for _, v in a[1:]], z3.BoolVal(False)), 'vectors of different lengths are rejected'); T.ensure('the total over all elements', o.ret == S(d['n'])); T.cover('several', d['n'] == 3)
    t.__name__ = name; task('C31', 'math', mode=X, loops=[fold])(t)
folds('Sum', 'Sum', 1, lambda x: x); folds('SquaredNorm', 'SquaredNorm', 1, lambda x: x * x); folds('SquaredDistance', 'SquaredDistance', 2, lambda x, y: (y - x) * (y - x))
# weighted averages: avg * (sum of weights) == sum of weighted values, in exact arithmetic
W = z3.Function('total_weight', I_, R_)
def ab(x): return z3.If(x < 0, -x, x)
def weight(d, k): return z3.If(d['wn'] == 0, 1, ab(sel(d['w'], k)))
def skip(L):
    d = L.ex.task.data; k = z3.Int('k'); i = L.read(L.written('int')[0])
    return [('position', z3.And(i >= 0, i <= d['wn'])), ('weights before are zero', qall([k], z3.Implies(z3.And(k >= 0, k < i), sel(d['w'], k) == 0), patterns=[sel(d['w'], k)]))]
def sums(ex, d, j): ex.fact(z3.Implies(z3.And(j >= 0, j < d['n']), z3.And(W(j + 1) == W(j) + weight(d, j), *[s(j + 1) == s(j) + weight(d, j) * v(j) for s, v in d['S']])))
def averaging(L):
    ex = L.ex; d = ex.task.data; i = L.i; st = [L.read(x) for x in L.locals('int') if x.root != L.ind.root]; cur = d['current'](L); w = d['running'](L)
    for j in (i, i - 1): sums(ex, d, j)
    return [('position', z3.And(i >= 1, i <= d['n'])), ('weight so far', z3.And(w == W(i), w > 0)), ('average so far', z3.And(*[c * W(i) == s(i) for c, (s, v) in zip(cur, d['S'])]))]
def rejected(d): k = z3.Int('rk'); return z3.Or(d['n'] == 0, z3.And(d['wn'] != 0, d['wn'] != d['n']), z3.And(d['wn'] != 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < d['n']), sel(d['w'], k) == 0))))
def zeros(T, d):
    """total weight and total of leading items of weight zero"""
    k = z3.Int('zk'); return k
@task('C31', 'math', mode=X, loops=[skip, averaging])
def Average(T):
    ex = T.ex; g = T.fn(Q + 'AverageStdVectorDouble'); (vl, v), (wl, w) = vecs(T, g); d = T.data; d.update(values=v['arr'], n=v['len'], wn=w['len'], w=w['arr'], S=[(S, lambda k: sel(v['arr'], k))]); k = z3.Int('k'); avg(T, g, [vl, wl])
def avg(T, g, args):
    d = T.data; ex = T.ex; k = z3.Int('k')
    def mentions(t, a):
        todo = [t]
        while todo:
            x = todo.pop()
            if x.eq(a): return True
            todo += x.children()
        return False
    def role(L, avg):
        """of the two numbers the loop updates, the average starts from an element of the values, the running weight does not"""
        e = L.at(L.entry); return [L.read(x) for x in L.written('fp') if mentions(e.read(x), d['values']) == avg][0]
    d['current'] = lambda L: [role(L, True)] if 'mat' not in d else d['mat'](L); d['running'] = lambda L: role(L, False)
    ex.fact(z3.And(W(0) == 0, *[s(0) == 0 for s, _ in d['S']]))
    # leading zero weights add nothing (induction over k; step checked here)
    z = T.qv('z'); lead = lambda m: qall([k], z3.Implies(z3.And(k >= 0, k < m), sel(d['w'], k) == 0), patterns=[sel(d['w'], k)])
    sums(ex, d, z); T.lemma('leading zero weights add nothing (step)', z3.Implies(z3.And(d['wn'] == d['n'], z >= 0, z < d['n'], sel(d['w'], z) == 0, W(z) == 0, *[s(z) == 0 for s, _ in d['S']]), z3.And(W(z + 1) == 0, *[s(z + 1) == 0 for s, _ in d['S']])))
    m = z3.Int('lm'); ex.fact(z3.ForAll([m], z3.Implies(z3.And(d['wn'] == d['n'], m >= 0, m <= d['n'], z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), sel(d['w'], k) == 0))), z3.And(W(m) == 0, *[s(m) == 0 for s, _ in d['S']])), patterns=[W(m)]))
    o = T.call(g, None, args); T.throws_iff(o, rejected(d), 'empty input, weights of another number and weights all zero are rejected'); r = d['ret'](o) if 'ret' in d else [o.ret]
    for c, (s, v) in zip(r, d['S']): T.ensure('average times total weight is the weighted total', c * W(d['n']) == s(d['n']))
    T.ensure('total weight positive', W(d['n']) > 0); T.cover('weighted', z3.And(d['n'] == 3, d['wn'] == 3))
# distance matrices
Val, Wal = z3.DeclareSort('S_tu::Val'), z3.DeclareSort('S_tu::Wal')
def cells(ex, c):
    d = ex.task.data; v = [lv for lv in vars_of(ex, 'mat')]; return v[0], d['owner'], d['val']
def row(L):
    """the cells of the running item before column j hold their distances, others are untouched"""
    ex = L.ex; d = ex.task.data; m = L.read(L.written('mat')[0]).f; m0 = L.at(L.entry).read(L.written('mat')[0]).f; r, q = z3.Ints('mr mq'); j = L.i; k = d['item']; at = lambda m: sel(sel(m['arr'], r), q); inr = z3.And(r >= 0, q >= 0, r < m['rows'], q < m['cols']); done = z3.And(d['owner'](r, q) == k, d['pos'](r, q) < j)
    return [('position', z3.And(j >= d['from'](k), j <= d['m'])), ('shape', z3.And(m['rows'] == m0['rows'], m['cols'] == m0['cols'])), ('cells', qall([r, q], z3.Implies(inr, at(m) == z3.If(done, d['val'](r, q), at(m0))), patterns=[at(m)]))]
def matrix(T, n):
    g = [g for g in T.fns(Q + 'BuildPairwiseDistanceMatrix') if len(g['ps']) == n][0]; ex = T.ex; d = T.data; a = [T.obj(ex.ty.strip_ref(p['t']), p['n']) for p in g['ps'][:n - 2]]; vs = [T.val(x).f for x in a]
    for v in vs: T.assume(v['len'] <= 2 ** 40, 'fewer than 2^40 items')
    D = z3.Function('distance', *([Val, Val] if n == 3 else [Val, Wal]), R_); e = lambda i, j: D(sel(vs[0]['arr'], i), sel(vs[-1]['arr'], j)); mn = lambda r, c: z3.If(r < c, r, c); mx = lambda r, c: z3.If(r < c, c, r)
    if n == 3: d.update(owner=mn, pos=mx, val=lambda r, c: z3.If(r == c, 0, e(mn(r, c), mx(r, c))), m=vs[0]['len'], **{'from': lambda k: k})
    else: d.update(owner=lambda r, c: r, pos=lambda r, c: c, val=e, m=vs[1]['len'], **{'from': lambda k: z3.IntVal(0)})
    p = T.obj(ex.ty.strip_ref(g['ps'][-1]['t']), 'parallelism'); T.assume(T.val(p).f['num_threads_'] >= 1, 'DegreeOfParallelism class invariant (num_threads >= 1)'); T.assumptions.append('distance_fn is a function of its arguments and has no side effects')
    o = T.call(g, None, a + [T.lv(ex.ty.strip_ref(g['ps'][-2]['t']), T.func('distance_fn', lambda ex, args, c: D(*[ex.asval(x) for x in args])), 'distance_fn'), p]); T.throws_iff(o, z3.BoolVal(False), 'accepted'); m = o.ret.f; r, q = T.qv('row'), T.qv('col'); at = lambda r, q: sel(sel(m['arr'], r), q); inr = z3.And(r >= 0, q >= 0, r < vs[0]['len'], q < vs[-1]['len'])
    T.ensure('one row and column per item', z3.And(m['rows'] == vs[0]['len'], m['cols'] == vs[-1]['len'])); T.ensure('every cell is the distance of its pair', z3.Implies(inr, at(r, q) == d['val'](r, q))); T.cover('several', z3.And(vs[0]['len'] == 3, vs[-1]['len'] == 3))
    if n == 3: T.ensure('symmetric', z3.Implies(inr, at(r, q) == at(q, r))); T.ensure('zero diagonal', z3.Implies(z3.And(r >= 0, r < vs[0]['len']), at(r, r) == 0))
@task('C31', 'math', mode=M, loops=[row], contracts=parcells(cells))
def OneCollection(T): matrix(T, 3)
@task('C31', 'math', mode=M, loops=[row], contracts=parcells(cells))
def TwoCollections(T): matrix(T, 4)
def vector_average(size):
    def t(T):
        ex = T.ex; g = [g for g in T.fns(Q + 'AverageEigenVector') if 'Matrix<double, %d,' % size in ex.ty.name(g['ret'])][0]; (vl, v), (wl, w) = vecs(T, g); d = T.data; et = ex.ty.elem(ex.ty.strip_ref(g['ps'][0]['t'])); el = lambda k: ex.ty.unpack(et, sel(v['arr'], k)); comp = lambda m, i: sel(sel(m.f['arr'], i), 0); Ss = [z3.Function('total%d' % i, I_, R_) for i in range(size)]
        d.update(values=v['arr'], n=v['len'], wn=w['len'], w=w['arr'], S=[(Ss[i], lambda k, i=i: comp(el(k), i)) for i in range(size)]); d['mat'] = lambda L: [comp(L.read(L.written('mat')[0]), i) for i in range(size)]; d['ret'] = lambda o: [comp(o.ret, i) for i in range(size)]; avg(T, g, [vl, wl])
    t.__name__ = 'AverageVector%d' % size; task('C31', 'math', mode=X, loops=[skip, averaging])(t)
vector_average(3); vector_average(4)
