from vc.task import *
from common import *
Q = NSP + 'math::'; X = {'fparith': 'exact'}; F = {'fp': 'fp'}
R_, I_ = z3.RealSort(), z3.IntSort(); PI = z3.RealVal('884279719003555/281474976710656'); TWO = 2 * PI
Turns = z3.Function('turns', R_, I_)
def wrapped(r, v, k): return z3.And(r == v + TWO * z3.ToReal(k), r >= -PI, r < PI)
def arg(T, f, i, nm): x = T.sym(f['ps'][i]['t'], nm); T.assume(z3.And(x < T.ex.inf(), x > -T.ex.inf()), 'finite angles'); return x
def wrap_of(ex, v):
    """the representative in [-pi, pi) of an angle"""
    r = ex.uf('wrap', R_, R_)(v); ex.fact(wrapped(r, v, Turns(v))); ks = ex.task.data.setdefault('ks', [])
    if not any(k.eq(Turns(v)) for k in ks): ks.append(Turns(v))
    return r
def wrap_con(ex, c):
    """proved by Wrap (exact arithmetic)"""
    return wrap_of(ex, c.val(0))
def dist_con(ex, c):
    """proved by SignedDistance: the representative in [-pi, pi) of the difference"""
    return wrap_of(ex, c.val(1) - c.val(0))
def add_con(ex, c):
    """proved by Sum"""
    return wrap_of(ex, c.val(0) + c.val(1))
def whole(T, *more):
    """instances helping the arithmetic solver: the signed sums of the numbers of turns are whole numbers"""
    ks = list(T.data.get('ks', [])) + list(more)
    for f in list(T.ex.facts):
        todo = [f]; seen = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().name() == 'fmod_turns' and not any(x.eq(k) for k in ks): ks.append(x)
            if z3.is_app(x): todo += x.children()
    for m in range(2 ** max(0, len(ks) - 1)):
        n = z3.Function(T.ex.fresh_id('whole'), I_, I_)(ks[0]); T.ex.fact(n == z3.Sum([k if i == 0 or not (m >> (i - 1)) & 1 else -k for i, k in enumerate(ks)]))
def range_con(ex, c):
    """proved by Range"""
    a, b = c.val(0), c.val(1); r = z3.Const(ex.fresh_id('range'), R_); k = z3.Const(ex.fresh_id('turns'), I_); ex.task.data.setdefault('ks', []).append(k); ex.fact(z3.And(r == b - a + TWO * z3.ToReal(k), r >= 0, r < TWO)); return r
def inrange_con(ex, c):
    """proved by InRange"""
    s, r, v = [c.val(i) for i in range(3)]; D = z3.Const(ex.fresh_id('ahead'), R_); k = z3.Const(ex.fresh_id('turns'), I_); ex.task.data.setdefault('ks', []).append(k); ex.fact(z3.And(D == v - s + TWO * z3.ToReal(k), D >= 0, D < TWO)); return D <= r
E = {Q + 'EnforceContinuousRevoluteBounds': wrap_con}; DC = {Q + 'ContinuousRevoluteSignedDistance': dist_con}; AC = {Q + 'AddContinuousRevoluteValues': add_con}
def turns(T, nm, r, v, lo=-PI):
    """r is the representative of v in [lo, lo + 2 pi): equal to every number there that differs from v by whole turns"""
    W, q = T.qv('representative', T.type('double')), T.qv('q'); T.assume(z3.And(W >= lo, W < lo + TWO, W == v + TWO * z3.ToReal(q))); whole(T, q); T.ensure(nm + ': the one representative in the range', r == W)
@task('C30', 'math', mode=X)
def Wrap(T):
    f = T.fn(Q + 'EnforceContinuousRevoluteBounds'); v = arg(T, f, 0, 'value'); o = T.call(f, None, [v]); T.never_throws(o); r = o.ret
    T.ensure('in [-pi, pi]', z3.And(r >= -PI, r <= PI)); T.ensure('below pi', r < PI); T.ensure('unchanged when inside already', z3.Implies(z3.And(v >= -PI, v < PI), r == v)); turns(T, 'the same angle', r, v)
@task('C30', 'math', mode=X, contracts=E)
def SignedDistance(T):
    f = T.fn(Q + 'ContinuousRevoluteSignedDistance'); a, b = arg(T, f, 0, 'p1'), arg(T, f, 1, 'p2'); o = T.call(f, None, [a, b]); T.never_throws(o); r = o.ret; T.ensure('in [-pi, pi)', z3.And(r >= -PI, r < PI)); turns(T, 'the difference', r, b - a)
@task('C30', 'math', mode=X, contracts={**E, **DC})
def Distance(T):
    f = T.fn(Q + 'ContinuousRevoluteDistance'); a, b = arg(T, f, 0, 'p1'), arg(T, f, 1, 'p2'); o = T.call(f, None, [a, b]); T.never_throws(o); r = o.ret; T.ensure('in [0, pi]', z3.And(r >= 0, r <= PI)); w = T.ex.uf('wrap', R_, R_)(b - a); T.ensure('magnitude of the signed distance', r == z3.If(w < 0, -w, w))
@task('C30', 'math', mode=X, contracts={**E, **DC})
def Sum(T):
    f = T.fn(Q + 'AddContinuousRevoluteValues'); a, b = arg(T, f, 0, 'start'), arg(T, f, 1, 'change'); o = T.call(f, None, [a, b]); T.never_throws(o); r = o.ret; T.ensure('in [-pi, pi)', z3.And(r >= -PI, r < PI)); turns(T, 'the sum', r, a + b)
@task('C30', 'math', mode=X, contracts={**E, **DC})
def Range(T):
    f = T.fn(Q + 'GetContinuousRevoluteRange'); a, b = arg(T, f, 0, 'start'), arg(T, f, 1, 'end'); o = T.call(f, None, [a, b]); T.never_throws(o); r = o.ret; T.ensure('in [0, 2 pi)', z3.And(r >= 0, r < TWO)); turns(T, 'from start to end', r, b - a, z3.RealVal(0))
def ahead(T, a, v):
    D, q = T.qv('ahead', T.type('double')), T.qv('q'); T.data['q'] = q; T.assume(z3.And(D >= 0, D < TWO, D == v - a + TWO * z3.ToReal(q))); return D
@task('C30', 'math', mode=X, contracts={**E, **DC})
def InRange(T):
    """the value lies within range, turning forward from start"""
    f = T.fn(Q + 'CheckInContinuousRevoluteRange'); a, g, v = [arg(T, f, i, n) for i, n in enumerate(('start', 'range', 'val'))]; D = ahead(T, a, v); o = T.call(f, None, [a, g, v]); T.never_throws(o); whole(T, T.data['q']); T.ensure('exactly when the forward turn is within the range', o.ret == (D <= g))
@task('C30', 'math', mode=X, contracts={Q + 'GetContinuousRevoluteRange': range_con, Q + 'CheckInContinuousRevoluteRange': inrange_con, **E, **DC})
def InBounds(T):
    f = T.fn(Q + 'CheckInContinuousRevoluteBounds'); a, b, v = [arg(T, f, i, n) for i, n in enumerate(('start', 'end', 'val'))]; D = ahead(T, a, v); q1 = T.data['q']; G = ahead(T, a, b); q2 = T.data['q']; o = T.call(f, None, [a, b, v]); T.never_throws(o); whole(T, q1, q2); T.ensure('exactly when met turning forward from start to end', o.ret == (D <= G))
@task('C30', 'math', mode=X, contracts={**E, **DC, **AC})
def Interpolate(T):
    f = T.fn(Q + 'InterpolateContinuousRevolute'); a, b, t = [arg(T, f, i, n) for i, n in enumerate(('p1', 'p2', 'ratio'))]; o = T.call(f, None, [a, b, t]); T.never_throws(o); r = o.ret; w = T.ex.uf('wrap', R_, R_); d = w(b - a); tt = z3.If(t < 0, 0, z3.If(t > 1, 1, t))
    T.ensure('in [-pi, pi)', z3.And(r >= -PI, r < PI)); turns(T, 'the ratio of the shorter way', r, a + d * tt)
    T.data['ks0'] = T.data['ks']; T.lemma('ratio 0', z3.Implies(t <= 0, d * tt == 0)); T.lemma('ratio 1', z3.Implies(t >= 1, d * tt == d))
    for nm, c, x in (('the first angle for ratio 0', t <= 0, a), ('the second angle for ratio 1', t >= 1, b)):
        W, q = T.qv('representative', T.type('double')), T.qv('q'); T.assume(z3.And(W >= -PI, W < PI, W == x + TWO * z3.ToReal(q))); whole(T, q); T.ensure('at ' + nm, z3.Implies(c, r == W))
# ---- the bounds hold for the doubles actually computed, not only in exact arithmetic
def fin(T, f, i, nm, big=2.0 ** 1000):
    x = T.sym(f['ps'][i]['t'], nm); b = z3.FPVal(big, x.sort()); T.assume(z3.And(z3.Not(z3.fpIsNaN(x)), z3.fpLEQ(z3.fpAbs(x), b)), 'finite angles (at most 2^1000)'); return x
def dpi(x): return z3.FPVal(3.141592653589793, x.sort())
def within(x, a, b): return z3.And(z3.Not(z3.fpIsNaN(x)), z3.fpLEQ(a, x), z3.fpLEQ(x, b))
def fwrap(ex, c):
    """proved by WrapDouble"""
    v = c.val(0); p = dpi(v); ex.oblige('callee-pre', z3.And(z3.Not(z3.fpIsNaN(v)), z3.fpLEQ(z3.fpAbs(v), z3.FPVal(2.0 ** 1020, v.sort()))), c.e, 'finite angle'); r = ex.fresh(c.rettid, 'wrapped'); ex.assume(within(r, z3.fpNeg(p), p)); return r
def fdist(ex, c):
    """proved by SignedDistanceDouble"""
    r = ex.fresh(c.rettid, 'distance'); p = dpi(r); ex.assume(within(r, z3.fpNeg(p), p)); return r
FE = {Q + 'EnforceContinuousRevoluteBounds': fwrap}; FD = {**FE, Q + 'ContinuousRevoluteSignedDistance': fdist}
@task('C30', 'math', mode=F)
def WrapDouble(T):
    f = T.fn(Q + 'EnforceContinuousRevoluteBounds'); v = fin(T, f, 0, 'value', 2.0 ** 1020); o = T.call(f, None, [v]); T.never_throws(o); r = o.ret; p = dpi(v); T.ensure('doubles in [-pi, pi]', within(r, z3.fpNeg(p), p))
def bound(name, args, lo, hi, con):
    def t(T):
        f = T.fn(Q + name); o = T.call(f, None, [fin(T, f, i, n) for i, n in enumerate(args)]); T.never_throws(o); r = o.ret; p = dpi(r); z = z3.FPVal(0.0, r.sort()); two = z3.FPVal(6.283185307179586, r.sort()); L = {0: z, 'pi': p, '-pi': z3.fpNeg(p), '2pi': two}; T.ensure('doubles in [%s, %s]' % (lo, hi), within(r, L[lo], L[hi]))
    t.__name__ = name + 'Double'; task('C30', 'math', mode=F, contracts=con)(t)
bound('ContinuousRevoluteSignedDistance', ('p1', 'p2'), '-pi', 'pi', FE); bound('ContinuousRevoluteDistance', ('p1', 'p2'), 0, 'pi', FD); bound('AddContinuousRevoluteValues', ('start', 'change'), '-pi', 'pi', FD)
bound('GetContinuousRevoluteRange', ('start', 'end'), 0, '2pi', FD); bound('InterpolateContinuousRevolute', ('p1', 'p2', 'ratio'), '-pi', 'pi', FD)
