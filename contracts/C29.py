from vc.task import *
from common import *
Q = NSP + 'simple_prngs::'; GD = NSP + 'gaussian_distributions::TruncatedGaussianDistribution::'; RR = NSP + 'random_rotation_generator::RandomRotationGenerator::'
I_, R_ = z3.IntSort(), z3.RealSort()
def leaves(v, at=''):
    if z3.is_expr(v): return [(at, v)]
    if isinstance(v, Struct): return [x for n in v.f for x in leaves(v.f[n], at + '.' + n)]
    raise Unsupported('generator state ' + type(v).__name__)
def same(v, w):
    """equal states; of arrays, the elements"""
    k = z3.Int('sk'); out = []
    for (n, a), (_, b) in zip(leaves(v), leaves(w)): out.append(qall([k], z3.Implies(z3.And(k >= 0, k < 16), sel(a, k) == sel(b, k)), patterns=[sel(a, k)]) if z3.is_array(a) else a == b)
    return z3.And(*out)
def valid(v):
    """class invariant: the position of the state array is one of its elements"""
    return z3.And(*[z3.And(x >= 0, x < 16) for n, x in leaves(v) if n.endswith('.p_')], z3.BoolVal(True))
def gen(T, cls, n): g = T.obj(Q + cls, n); T.assume(valid(T.val(g)), 'class invariant of the generator (established by construction and seeding, kept by draws and discards)'); return g
def seeding(L):
    """the same elements as those a freshly constructed generator of that seed was given"""
    d = L.ex.task.data; out = [('position', z3.And(L.i >= 0, L.i <= 16))]
    d['runs'].setdefault(L.entry, None) if False else None
    return out
def member(cls, n): return Q + cls + '::' + n
def stepped(T, cls):
    """what one draw does: the state and the value as terms of the state before"""
    x = gen(T, cls, 'before'); X = T.val(x); o = T.call(T.fn(member(cls, 'operator()')), x, []); T.never_throws(o, 'drawing does not throw'); Y = T.val(x); T.ensure('keeps the class invariant', valid(Y)); lo, hi = [T.call(T.fn(member(cls, m)), None, [], proving=False).ret for m in ('min', 'max')]; T.ensure('in the declared range', z3.And(lo <= o.ret, o.ret <= hi)); T.cover('the smallest value', o.ret == lo); return leaves(X), leaves(Y), o.ret
def reproducible(cls):
    def Draw(T):
        stepped(T, cls); a, b = gen(T, cls, 'one'), gen(T, cls, 'other'); T.assume(same(T.val(a), T.val(b)), 'two generators in the same state'); f = T.fn(member(cls, 'operator()'))
        x, y = T.call(f, a, []).ret, T.call(f, b, []).ret; T.ensure('the same state gives the same value', x == y); T.ensure('and the same next state', same(T.val(a), T.val(b)))
    def Seed(T):
        s = T.sym('unsigned long', 'seed'); a = T.obj(Q + cls, 'one'); b = gen(T, cls, 'other'); o = T.call(T.fn(member(cls, cls)), a, [s]); T.never_throws(o, 'construction does not throw'); p = T.call(T.fn(member(cls, 'seed')), b, [s]); T.never_throws(p, 'seeding does not throw')
        T.ensure('construction and re-seeding at any point give the same state', same(T.val(a), T.val(b))); T.ensure('establishes the class invariant', z3.And(valid(T.val(a)), valid(T.val(b))))
    def discarding(L):
        ex = L.ex; d = ex.task.data; i = L.i; now = leaves(L.read(d['g'])); nth = d['nth']; ex.fact(d['step'](i)); ex.fact(d['step'](i - 1))
        return [('position', z3.And(i >= 0, i <= d['n'])), ('the state after that many draws', z3.And(*[v == f(i) for (_, v), f in zip(now, nth)]))]
    def Discard(T):
        X, Y, _ = stepped(T, cls); g = gen(T, cls, 'g'); G = leaves(T.val(g)); n = T.sym('unsigned long', 'n'); d = T.data; nth = [z3.Function('nth_draw%d' % i, I_, v.sort()) for i, (_, v) in enumerate(G)]; d.update(g=g, n=n, nth=nth)
        d['step'] = lambda i: z3.Implies(i >= 0, z3.And(*[f(i + 1) == z3.substitute(y, *[(x, h(i)) for (_, x), h in zip(X, nth)]) for (_, y), f in zip(Y, nth)], *[z3.And(h(i) >= 0, h(i) < (16 if m.endswith('.p_') else 2 ** 64)) for (m, x), h in zip(X, nth) if not z3.is_array(x)]))
        for (_, v), f in zip(G, nth): T.assume(f(0) == v)
        o = T.call(T.fn(member(cls, 'discard')), g, [n]); T.never_throws(o, 'discarding does not throw'); T.ensure('the state that many draws lead to', z3.And(*[v == f(n) for (_, v), f in zip(leaves(T.val(g)), nth)])); T.cover('several', n == 3)
    for f, lp in ((Draw, []), (Seed, []), (Discard, [discarding])): f.__name__ = f.__name__ + cls; task('C29', 'prng', loops=lp)(f)
for c in ('SplitMix64PRNG', 'XorShift128PlusPRNG', 'XorShift1024StarPRNG'): reproducible(c)
# ---- truncated normal samples (exact arithmetic with infinities)
E_ = {'fparith': 'extended'}
def any_(L): return []
@task('C29', 'prng', mode=E_, loops=[any_] * 9)
def Truncated(T):
    """construction, then a draw at any point of the distribution's life"""
    ex = T.ex; I = ex.inf(); d = T.obj(GD[:-2], 'distribution'); mean, sd, lo, hi = [T.sym('double', n) for n in ('mean', 'stddev', 'lower_bound', 'upper_bound')]
    B = z3.RealVal(2 ** 100); mod = lambda x: z3.And(x <= B, x >= -B)
    T.assume(z3.And(mod(mean), sd >= 1 / B, sd <= B, lo <= hi, z3.Or(mod(lo), lo == -I), z3.Or(mod(hi), hi == I)), 'mean, standard deviation and finite bounds neither huge nor vanishing (2^100), bounds not the wrong way round')
    o = T.call(T.fn(GD + 'TruncatedGaussianDistribution'), d, [mean, sd, lo, hi]); T.never_throws(o, 'usable parameters are accepted')
    v = T.val(d); norm = [n for n, x in leaves(v) if z3.is_expr(x) and ('normal' in n or 'exponential' in n)]
    for n in norm: T.ex.store(d.fld(n[1:], None) if False else d, Struct(v.tid, {**T.val(d).f, n[1:]: z3.Const(ex.fresh_id('any_state'), v.f[n[1:]].sort())}))
    b = T.val(d); g = T.obj(T.type('mersenne_twister_engine'), 'prng') if False else None
    m, s, sl, su, case = [b.f[n + '_'] for n in ('mean', 'stddev', 'std_lower_bound', 'std_upper_bound', 'case')]; fin = lambda x: z3.And(x < I, x > -I)
    T.lemma('the mean is kept', m == mean)
    T.lemma('standardized bounds', z3.And(z3.Implies(s == sd, z3.And(z3.Implies(fin(lo), z3.And(fin(sl), s * sl == lo - mean)), z3.Implies(fin(hi), z3.And(fin(su), s * su == hi - mean)), z3.Implies(lo == -I, sl == -I), z3.Implies(hi == I, su == I)))))
    T.lemma('or mirrored', z3.Implies(s != sd, z3.And(s == -sd, lo == -I, su == I, fin(sl), s * sl == hi - mean)))
    names = {n + '_': z3.Const(ex.fresh_id(n), R_) for n in ('mean', 'stddev', 'std_lower_bound', 'std_upper_bound')}
    for n, c in names.items(): ex.assume(c == b.f[n])
    m, s, sl, su = names.values(); T.ex.store(d, Struct(b.tid, {**b.f, **names})); b = T.val(d)
    f = T.fn(GD + 'operator()'); g = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'prng'); o = T.call(f, d, [g]); T.never_throws(o, 'drawing does not throw'); r = o.ret; below, above = z3.Or(lo == -I, r >= lo), z3.Or(hi == I, r <= hi)
    for k in range(5): T.ensure('the sample is not below the lower bound (%d)' % k, z3.Implies(case == k, below)); T.ensure('the sample is not above the upper bound (%d)' % k, z3.Implies(z3.And(case == k, s == sd), above)); T.ensure('the sample is not above the upper bound (%d, mirrored)' % k, z3.Implies(z3.And(case == k, s != sd), above))
    T.ensure('no other way to draw', z3.And(case >= 0, case < 5))
    for n, x in leaves(b):
        if n not in norm: T.ensure('drawing keeps ' + n, dict(leaves(T.val(d)))[n] == x)
    T.cover('far tail', z3.And(lo > mean + 5 * sd, hi < I)); T.cover('unbounded above', z3.And(lo > mean, hi == I)); T.cover('unbounded below', z3.And(hi < mean, lo == -I))
@task('C29', 'prng', mode=E_, loops=[any_] * 9)
def TruncatedPoint(T):
    ex = T.ex; I = ex.inf(); d = T.obj(GD[:-2], 'distribution'); mean, lo, hi = [T.sym('double', n) for n in ('mean', 'lower_bound', 'upper_bound')]; T.assume(z3.And(mean < I, mean > -I, lo <= mean, mean <= hi), 'a zero standard deviation: the mean is within the bounds')
    o = T.call(T.fn(GD + 'TruncatedGaussianDistribution'), d, [mean, z3.RealVal(0), lo, hi]); T.never_throws(o, 'usable parameters are accepted'); f = T.fn(GD + 'operator()'); g = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'prng'); o = T.call(f, d, [g]); T.never_throws(o, 'drawing does not throw'); T.ensure('the sample is the mean', o.ret == mean)
# ---- random rotations
X = {'fparith': 'exact'}
def rotation(T, n):
    """the same generator state gives the same rotation; twice from equal states"""
    ex = T.ex; f = T.fn(RR + n); st = T.sym(ex.ty.strip_ref(f['ps'][0]['t']), 'state'); out = []
    for k in range(2):
        r = T.obj(RR[:-2], 'generator%d' % k); T.call(T.fn(RR + 'RandomRotationGenerator'), r, []) if k == 0 else T.ex.store(r, base); base = T.val(r) if k == 0 else base
        g = T.lv(ex.ty.strip_ref(f['ps'][0]['t']), st, 'prng%d' % k); o = T.call(f, r, [g]); T.never_throws(o); out.append((o.ret, T.val(g)))
    (a, x), (b, y) = out; T.ensure('leaves the generator in the same state', x == y); return a, b
@task('C29', 'prng', mode=X)
def Quaternion(T):
    a, b = rotation(T, 'GetQuaternion'); A, B = [[v.f[n] for n in 'wxyz'] for v in (a, b)]; T.ensure('the same rotation', z3.And(*[p == q for p, q in zip(A, B)])); w, x, y, z = A; T.ensure('a unit quaternion', w * w + x * x + y * y + z * z == 1)
@task('C29', 'prng', mode=X)
def RawQuaternion(T):
    a, b = rotation(T, 'GetRawQuaternion'); v, w = a.f, b.f; k = T.qv('k'); T.ensure('four numbers', v['len'] == 4); T.ensure('the same rotation', z3.Implies(z3.And(k >= 0, k < 4), sel(v['arr'], k) == sel(w['arr'], k))); T.ensure('a unit quaternion', sum(sel(v['arr'], i) * sel(v['arr'], i) for i in range(4)) == 1)
def turn(T, r, p, y):
    PI = z3.RealVal('884279719003555/281474976710656'); T.ensure('roll and yaw in [-pi, pi]', z3.And(r >= -PI, r <= PI, y >= -PI, y <= PI)); T.ensure('pitch in [0, 2 pi]', z3.And(p >= 0, p <= 2 * PI))
@task('C29', 'prng', mode=X)
def EulerAngles(T):
    a, b = rotation(T, 'GetEulerAngles'); A, B = [[z3.Select(z3.Select(v.f['arr'], i), 0) for i in range(3)] for v in (a, b)]; T.ensure('the same rotation', z3.And(*[p == q for p, q in zip(A, B)])); turn(T, *A)
@task('C29', 'prng', mode=X)
def RawEulerAngles(T):
    a, b = rotation(T, 'GetRawEulerAngles'); v, w = a.f, b.f; k = T.qv('k'); T.ensure('three numbers', v['len'] == 3); T.ensure('the same rotation', z3.Implies(z3.And(k >= 0, k < 3), sel(v['arr'], k) == sel(w['arr'], k))); turn(T, *[sel(v['arr'], i) for i in range(3)])
