from vc.task import *
from common import *
Q = NSP + 'simple_knearest_neighbors::'
I_ = z3.IntSort(); R_ = z3.RealSort(); M = {'opaque': ['tu::Val']}
Val = z3.DeclareSort('S_tu::Val')
Dist = z3.Function('distance', Val, Val, R_)
def dmodel(ex, args, e):
    a, b = [ex.asval(x) for x in args]; r = Dist(a, b); ex.task.data.setdefault('seen', []).append((a, b)); ex.assume(z3.And(r >= -ex.inf(), r <= ex.inf())); return r
def el(ex, v): t = ex.ty.elem(v.tid); return lambda k: ex.ty.unpack(t, sel(v.f['arr'], k)).f
def rec(ex, v, k): f = el(ex, v)(k); return f['index_'], f['distance_']
def true_dist(d, i): return Dist(sel(d['items'], i), d['cur'])
def summary(ex, d, mem, v, g, K):
    """v lists neighbours of the indices in mem: each entry an index of mem with its distance, no index twice, and every index of mem is either listed (at g(i)) or no closer than
    K consecutive entries (from -1-g(i))"""
    k, j, i, q = [z3.Const(n, I_) for n in ('sk', 'sj', 'si', 'sq')]; n = v.f['len']; A = v.f['arr']; idx = lambda k: rec(ex, v, k)[0]; ds = lambda k: rec(ex, v, k)[1]; inr = lambda k: z3.And(k >= 0, k < n)
    return [('every entry is an item of its part with its distance', qall([k], z3.Implies(inr(k), z3.And(mem(idx(k)), ds(k) == true_dist(d, idx(k)))), patterns=[sel(A, k)])),
            ('no item twice', qall([k, j], z3.Implies(z3.And(inr(k), inr(j), k < j), idx(k) != idx(j)), patterns=[z3.MultiPattern(sel(A, k), sel(A, j))])),
            ('every item is listed or no closer than K entries', z3.ForAll([i], z3.Implies(mem(i), z3.Or(z3.And(g(i) >= 0, g(i) < n, idx(g(i)) == i), z3.And(g(i) < 0, -1 - g(i) + K <= n)))) if g(i).decl().kind() != z3.Z3_OP_UNINTERPRETED else qall([i], z3.Implies(mem(i), z3.Or(z3.And(g(i) >= 0, g(i) < n, idx(g(i)) == i), z3.And(g(i) < 0, -1 - g(i) + K <= n))), patterns=[g(i)])),
            ('items left out are no closer', qall([i, q], z3.Implies(z3.And(mem(i), g(i) < 0, q >= -1 - g(i), q < -1 - g(i) + K), ds(q) <= true_dist(d, i)), patterns=[z3.MultiPattern(g(i), sel(A, q))]) if g(i).decl().kind() == z3.Z3_OP_UNINTERPRETED else z3.ForAll([i, q], z3.Implies(z3.And(mem(i), g(i) < 0, q >= -1 - g(i), q < -1 - g(i) + K), ds(q) <= true_dist(d, i))))]
def shift(g, n): return z3.If(g >= 0, g + n, g - n)
def setup(T, f):
    ex = T.ex; items = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'items'); v = T.val(items); d = T.data
    rng = ex.ty.kind(ex.ty.strip_ref(f['ps'][1]['t'])) == 'int' 
    rs, re = (T.sym(f['ps'][1]['t'], 'range_start'), T.sym(f['ps'][2]['t'], 'range_end')) if rng else (z3.IntVal(0), v.f['len'])
    ps = f['ps'][3:] if rng else f['ps'][1:]
    cur = T.obj(ex.ty.strip_ref(ps[0]['t']), 'current'); K = T.sym(ps[2]['t'], 'K'); fn = T.lv(ex.ty.strip_ref(ps[1]['t']), T.func('distance_fn', dmodel), 'distance_fn')
    d.update(items=v.f['arr'], cur=T.val(cur), K=K, rs=rs, re=re, n=v.f['len']); a = [items] + ([rs, re] if rng else []) + [cur, fn, K]
    if len(ps) > 3:
        p = T.obj(ex.ty.strip_ref(ps[3]['t']), 'parallelism'); d['nt'] = T.val(p).f['num_threads_']; T.assume(d['nt'] >= 1, 'DegreeOfParallelism class invariant (num_threads >= 1)'); a.append(p)
    T.assume(v.f['len'] <= 2 ** 58, 'containers hold fewer than 2^58 items')
    T.assumptions.append('distance_fn is a function of its arguments, returns no NaN and has no side effects'); return a
def rejected(d): return z3.Or(d['re'] < d['rs'], d['re'] > d['n'], d['K'] < 0)
def posts(ex, d, v, g):
    n = v.f['len']; sz = d['re'] - d['rs']; K = d['K']; mem = lambda i: z3.And(d['rs'] <= i, i < d['re'])
    return [('K entries, or one per item when there are fewer', n == z3.If(sz < K, sz, K))] + summary(ex, d, mem, v, g, K)
def serial_con(ex, c):
    """proved by the tasks InRangeSerial / InRangeParallel / Wrappers"""
    d = ex.task.data; a = [c.val(i) for i in range(len(c.args))]; v = a[0]; rng = z3.is_expr(a[1]) and z3.is_int(a[1])
    b = dict(items=v.f['arr'], n=v.f['len'], rs=a[1] if rng else z3.IntVal(0), re=a[2] if rng else v.f['len'], cur=a[3 if rng else 1], K=a[5 if rng else 3])
    ex.throw_if(rejected(b), 'std::invalid_argument', c.e); r = ex.fresh(c.rettid, 'nearest'); pos = z3.Function(ex.fresh_id('listed_at'), I_, I_); ex.assume(r.f['len'] >= 0)
    for nm, g in posts(ex, b, r, lambda i: pos(i)): ex.assume(g); ex.named.append(('callee: ' + nm, g, g))
    d['pos'] = pos; d.setdefault('calls', []).append((mkAnd(*ex.st.pc), r, pos)); return r
NAMES = ['GetKNearestNeighborsInRangeSerial', 'GetKNearestNeighborsInRangeParallel', 'GetKNearestNeighborsInRange', 'GetKNearestNeighborsSerial', 'GetKNearestNeighborsParallel', 'GetKNearestNeighbors']
@task('C18', 'knn', mode=M)
def Pigeonhole(T):
    """lemma used by InRangeParallel: no injection of n+1 numbers into n places (induction over n; f arbitrary)"""
    n = T.qv('n'); f = z3.Function('f', I_, I_); i, j = z3.Ints('i j'); T.assume(n >= 0)
    inj = lambda f, m: z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), f(i) != f(j)))
    into = lambda f, m, n: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(f(i) >= 0, f(i) < n)))
    # step: f maps n+2 numbers into n+1 places; g maps n+1 numbers into n places and is injective
    g = lambda i: z3.If(f(i) == n, f(n + 1), f(i))
    T.assume(into(f, n + 2, n + 1)); T.assume(inj(f, n + 2))
    T.ensure('into the smaller set', into(g, n + 1, n)); T.ensure('still injective', inj(g, n + 1))
    h = z3.Function('h', I_, I_); T.ensure('none into the empty set', z3.Not(into(h, z3.IntVal(1), z3.IntVal(0))))
def pigeon(T, name, f, a, n, cond):
    """instance of Pigeonhole: under cond, f maps [a, a + n + 1) injectively into [0, n): impossible"""
    ex = T.ex; i, j = T.qv('i'), T.qv('j')
    T.lemma(name + ': places', z3.Implies(cond, z3.And(n >= 0, z3.ForAll([i], z3.Implies(z3.And(a <= i, i <= a + n), z3.And(f(i) >= 0, f(i) < n))))))
    T.lemma(name + ': injective', z3.Implies(cond, z3.ForAll([i, j], z3.Implies(z3.And(a <= i, i < j, j <= a + n), f(i) != f(j)))))
    ex.assume(z3.Not(cond))
def fill(L):
    ex = L.ex; d = ex.task.data; v = L.read(L.written('vec')[0]); k = z3.Int('k'); i = L.i; f = lambda k: rec(ex, v, k)
    return [('position', z3.And(i >= d['rs'], i <= d['re'], v.f['len'] == d['re'] - d['rs'])), ('distances so far', qall([k], z3.Implies(z3.And(k >= 0, k < i - d['rs']), z3.And(f(k)[0] == d['rs'] + k, f(k)[1] == true_dist(d, d['rs'] + k))), patterns=[sel(v.f['arr'], k)]))]
def perms(ex, e, this, a):
    from vc.lib import H
    n = ex.uid; return H['std::' + e['name']](ex, e, this, a)
@task('C18', 'knn', mode=M, loops=[fill, fill])
def InRangeSerial(T):
    f = T.fn(Q + NAMES[0]); a = setup(T, f); d = T.data; ex = T.ex; o = T.call(f, None, a); T.throws_iff(o, rejected(d), 'inverted and overlong ranges and negative K are rejected'); r = o.ret; K = d['K']
    T.cover('some left out', z3.And(r.f['len'] == 3, d['re'] - d['rs'] == 5))
    ps = getattr(ex, 'perms', []); i = T.qv('item'); idx = lambda k: rec(ex, r, k)[0]
    at = lambda i: z3.If(z3.And(K > 0, idx(i - d['rs']) == i), i - d['rs'], -1)
    for p, pi in ps: at = (lambda at, pi: lambda i: z3.If(z3.And(K > 0, d['re'] - d['rs'] > K), z3.If(pi(i - d['rs']) < K, pi(i - d['rs']), -1), at(i)))(at, pi)
    for nm, g in posts(ex, d, r, at): T.ensure(nm, g)
def slots(ex, c):
    d = ex.task.data; c.args[0]
    v = [lv for lv in vars_of(ex, 'vec') if ex.ty.kind(ex.ty.elem(ex.load(lv).tid)) == 'vec']
    if not v: raise Unsupported('per-thread storage')
    I = lambda t, mem, slot, g: [('a list', slot.f['len'] >= 0)] + summary(ex, d, mem, slot, g, d['K'])
    def nxt(mem, slot, g, a, b): pos = d.get('pos'); return lambda i: z3.If(mem(i), g(i), shift(pos(i), slot.f['len']) if pos is not None else z3.IntVal(0))
    def garr(t):
        h = z3.Function(ex.fresh_id('at'), I_, I_, I_); d['at'] = h
        return (lambda i: h(t, i)) if t is not None else (lambda t: lambda i: h(t, i))
    return v[0], I, lambda i: z3.IntVal(0), nxt, garr
def direct(ex, c):
    d = ex.task.data; v = [lv for lv in vars_of(ex, 'vec') if ex.ty.kind(ex.ty.elem(ex.load(lv).tid)) == 'rec']; et = ex.ty.elem(ex.load(v[0]).tid)
    return [v[0]], lambda k, o, n: [('the item\'s index and distance', z3.And(ex.ty.unpack(et, n[0]).f['index_'] == k, ex.ty.unpack(et, n[0]).f['distance_'] == true_dist(d, k)))], c.val(1)
def gather(L):
    """concatenation of the slots: those before position i are in"""
    ex = L.ex; d = ex.task.data; arr, nslots, nt = d['slots']; own, at = d['owner'], d['at']; vs = [v for v in L.written('vec') if ex.ty.kind(ex.ty.elem(v.tid)) == 'rec']; v = L.read(vs[0]); m = L.i
    st = [lv for lv in L.locals('vec') if ex.ty.kind(ex.ty.elem(lv.tid)) == 'vec'][0]; et = ex.ty.elem(L.read(st).tid); base = d.setdefault('base', z3.Function('base', I_, I_)); t = z3.Int('bt')
    slen = lambda t: ex.ty.unpack(et, sel(arr, t)).f['len']
    ex.fact(base(0) == 0)
    for x in (m, m - 1): ex.fact(base(x + 1) == base(x) + slen(x))
    mem = lambda i: z3.And(d['rs'] <= i, i < d['re'], own(i) < m); g = lambda i: shift(at(own(i), i), base(own(i))); i, q = z3.Ints('gi gq'); S = summary(ex, d, mem, v, g, d['K'])
    d['g'] = g
    pos = qall([i], z3.Implies(mem(i), z3.Or(z3.And(g(i) >= 0, g(i) < v.f['len'], rec(ex, v, g(i))[0] == i), z3.And(g(i) < 0, -1 - g(i) + d['K'] <= v.f['len']))), patterns=[own(i)])
    far = qall([i, q], z3.Implies(z3.And(mem(i), g(i) < 0, q >= -1 - g(i), q < -1 - g(i) + d['K']), rec(ex, v, q)[1] <= true_dist(d, i)), patterns=[z3.MultiPattern(own(i), sel(v.f['arr'], q))])
    return [('position', z3.And(m >= 0, m <= nslots, base(m) >= 0)), ('size', v.f['len'] == base(m)), ('bases', qall([t], z3.Implies(z3.And(t >= 0, t < m), z3.And(base(t) >= 0, base(t) + slen(t) <= base(m))), patterns=[base(t)])), S[0], S[1], (S[2][0], pos), (S[3][0], far)]
@task('C18', 'knn', mode=M, loops=[gather], contracts={Q + NAMES[0]: serial_con, **parloops(direct), **parrangeloops(slots)})
def InRangeParallel(T):
    f = T.fn(Q + NAMES[1]); a = setup(T, f); d = T.data; ex = T.ex; K, rs, re = d['K'], d['rs'], d['re']; merged = {}; T.assume(z3.Implies(z3.And(K >= 0, re - rs > K), z3.And(K * d['nt'] <= 2 ** 58, K * d['nt'] >= 0)), 'K entries per thread fit into a vector')
    def sorting(ex, e, this, a):
        """the arguments of the final sort: K entries exist, by the pigeonhole lemma"""
        a = [ex.ev(x) for x in a]; v = ex.load(ex.asval(a[0]).lv); g = d['g']; cond = z3.And(v.f['len'] < K, K < re - rs)
        i, j = z3.Ints('pi pj'); n = v.f['len']; idx = lambda k: rec(ex, v, k)[0]
        T.lemma('too few entries: every item is listed', z3.Implies(cond, qall([i], z3.Implies(z3.And(rs <= i, i < re), z3.And(g(i) >= 0, g(i) < n, idx(g(i)) == i)), patterns=[d['owner'](i)])))
        pigeon(T, 'enough entries', g, rs, n, cond)
        from vc.lib import H
        r = H['std::partial_sort'](ex, e, this, a); merged['old'] = v; merged['perm'] = ex.perms[-1]; merged['new'] = ex.load(ex.asval(a[0]).lv); return r
    T.libover['std::partial_sort'] = sorting
    o = T.call(f, None, a); T.throws_iff(o, rejected(d), 'inverted and overlong ranges and negative K are rejected'); r = o.ret
    T.cover('some left out', z3.And(r.f['len'] == 3, re - rs == 5))
    big = z3.And(K > 0, re - rs > K); i = T.qv('item'); k = T.qv('entry'); at = lambda i: z3.If(K > 0, i - rs, -1)
    if merged:
        p, pi = merged['perm']; v = merged['old']; g = d['g']; out = lambda i: z3.Or(g(i) < 0, pi(g(i)) >= K); w = merged['new']; blk = lambda i: -1 - g(i)
        hyp = z3.And(big, rs <= i, i < re, g(i) < 0, k >= 0, k < K, rec(ex, r, k)[1] > true_dist(d, i))
        q = T.qv('q')
        T.lemma('the answer is the front of the sorted entries', z3.Implies(z3.And(big, k >= 0, k < K), sel(r.f['arr'], k) == sel(w.f['arr'], k)))
        inb = z3.And(q >= blk(i), q < blk(i) + K); un = z3.And(big, rs <= i, i < re, g(i) < 0)
        T.lemma('entries no farther than an unlisted item exist', z3.Implies(un, z3.And(blk(i) >= 0, blk(i) + K <= v.f['len'], z3.ForAll([q], z3.Implies(inb, rec(ex, v, q)[1] <= true_dist(d, i))))))
        T.lemma('they were moved by the sort', z3.Implies(un, qall([q], z3.Implies(inb, z3.And(sel(w.f['arr'], pi(q)) == sel(v.f['arr'], q), p(pi(q)) == q, pi(q) >= 0, pi(q) < v.f['len'])), patterns=[pi(q)])))
        T.lemma('not elsewhere than the front, nor to k', z3.Implies(hyp, qall([q], z3.Implies(inb, z3.And(rec(ex, w, pi(q))[1] < rec(ex, w, k)[1], pi(q) < K, pi(q) != k)), patterns=[pi(q)])))
        h = lambda x: z3.If(x < blk(i) + K, pi(x), k)
        pigeon(T, 'unlisted items are no closer', h, blk(i), K, hyp)
        a1, b1 = T.qv('a'), T.qv('b'); n = v.f['len']; ix = lambda k: rec(ex, w, k)[0]
        T.lemma('sorted: no item twice', z3.Implies(big, qall([a1, b1], z3.Implies(z3.And(a1 >= 0, a1 < b1, b1 < n), z3.And(p(a1) != p(b1), ix(a1) != ix(b1))), patterns=[z3.MultiPattern(sel(w.f['arr'], a1), sel(w.f['arr'], b1))])))
        T.lemma('sorted: listed items', z3.Implies(z3.And(big, rs <= i, i < re, g(i) >= 0), z3.And(sel(w.f['arr'], pi(g(i))) == sel(v.f['arr'], g(i)), ix(pi(g(i))) == i, pi(g(i)) >= 0, pi(g(i)) < n)))
        at0 = at; at = lambda i: z3.If(big, z3.If(out(i), -1, pi(g(i))), at0(i))
    for n, (nm, x) in enumerate(posts(ex, d, r, at)):
        if n < 3: T.ensure(nm, x)
    low = z3.And(at(i) < 0, -1 - at(i) + K <= r.f['len']); high = z3.And(at(i) >= 0, at(i) < r.f['len'], rec(ex, r, at(i))[0] == i); here = z3.And(rs <= i, i < re)
    if merged:
        T.lemma('left out', z3.Implies(z3.And(here, big, out(i)), low)); T.lemma('listed', z3.Implies(z3.And(here, big, z3.Not(out(i))), high)); T.lemma('all listed', z3.Implies(z3.And(here, z3.Not(big)), z3.Or(low, high)))
    T.ensure('every item is listed or left out', z3.Implies(z3.And(rs <= i, i < re), z3.Or(z3.And(at(i) >= 0, at(i) < r.f['len'], rec(ex, r, at(i))[0] == i), z3.And(at(i) < 0, -1 - at(i) + K <= r.f['len']))))
    T.ensure('items left out are no closer', z3.Implies(z3.And(rs <= i, i < re, at(i) < 0, k >= 0, k < K), rec(ex, r, k)[1] <= true_dist(d, i)))
@task('C18', 'knn', mode=M, contracts={Q + n: serial_con for n in NAMES[:3]})
def Wrappers(T):
    """the four wrappers pass their arguments on to the functions above"""
    ex = T.ex
    for n in NAMES[2:]:
        st0 = ex.st.clone(); f = T.fn(Q + n); a = setup(T, f); d = T.data; d['calls'] = []; o = T.call(f, None, a); T.throws_iff(o, rejected(d), n + ': inverted and overlong ranges and negative K are rejected'); r = o.ret
        cs = d['calls']; i = T.qv('item'); at = lambda i: cs[-1][2](i)
        for b, r1, pos in cs[:-1]: at = (lambda at, b, pos: lambda i: z3.If(b, pos(i), at(i)))(at, b, pos)
        for nm, g in posts(ex, d, r, at): T.ensure(n + ': ' + nm, g)
        ex.st = st0
