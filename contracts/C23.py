from vc.task import *
from common import *
Q = NSP + 'path_processing::'; UT = NSP + 'utility::'
I_ = z3.IntSort(); R_ = z3.RealSort(); B_ = z3.BoolSort(); M = {'opaque': ['tu::Val'], 'fparith': 'exact'}; Val = z3.DeclareSort('S_tu::Val')
# Valid: the edge check; Interp / Dist: the interpolation and distance functions; Good: an edge the returned path may contain
Valid = z3.Function('edge_valid', Val, Val, B_); Interp = z3.Function('interpolate', Val, Val, R_, Val); Dist = z3.Function('distance', Val, Val, R_); Good = z3.Function('permitted_edge', Val, Val, B_)
a_, b_, s_, t_ = z3.Const('ga', Val), z3.Const('gb', Val), z3.Real('gs'), z3.Real('gt')
def pt(a, b, k, m): return z3.If(k == 0, a, z3.If(k == m, b, Interp(a, b, z3.ToReal(k) / z3.ToReal(m))))
def piece(a, b, k, m, marginal):
    """definition of a permitted edge: one of the equal pieces, in order, of an edge the check accepted (only if the check for marginal shortcuts is off)"""
    return z3.Implies(z3.And(z3.Not(marginal), Valid(a, b), k >= 0, k < m), Good(pt(a, b, k, m), pt(a, b, k + 1, m)))
def linked(v, n=None, at=None):
    k = z3.Int('ek'); n = v.f['len'] if n is None else n; return qall([k], z3.Implies(z3.And(k >= 0, k + 1 < n), Good(sel(v.f['arr'], k), sel(v.f['arr'], k + 1))), patterns=[sel(v.f['arr'], k)])
def get(v, k): return sel(v.f['arr'], k)
def F(T, p, nm, model): return T.lv(T.ex.ty.strip_ref(p['t']), T.func(nm, model), nm)
vmodel = lambda ex, a, e: Valid(ex.asval(a[0]), ex.asval(a[1])); imodel = lambda ex, a, e: Interp(*[ex.asval(x) for x in a])
def dmodel(ex, a, e):
    r = Dist(ex.asval(a[0]), ex.asval(a[1])); ex.assume(r >= 0); return r
def path(T, p, nm='path'): lv = T.obj(T.ex.ty.strip_ref(p['t']), nm); v = T.val(lv); T.assume(z3.And(v.f['len'] >= 0, v.f['len'] <= 2 ** 48), 'paths of at most 2^48 waypoints'); return lv, v
def allvalid(v): k = z3.Int('vk'); return qall([k], z3.Implies(z3.And(k >= 0, k + 1 < v.f['len']), Valid(get(v, k), get(v, k + 1))), patterns=[get(v, k)])
def counting(L):
    v = L.read(L.params('vec')[0]); i = L.i; n = [L.read(x) for x in L.written('int') if x.root != L.ind.root]; k = z3.Int('k')
    return [('position', z3.And(i >= 1, z3.Or(i <= v.f['len'], i == 1))), ('edges checked', qall([k], z3.Implies(z3.And(k >= 0, k + 1 < i), Valid(get(v, k), get(v, k + 1))), patterns=[get(v, k)]))] + [('count', x == i - 1) for x in n]
@task('C23', 'path', mode=M, loops=[counting])
def Percent(T):
    """the fraction is one exactly when every edge is valid"""
    f = T.fn(Q + 'ComputePercentCollisionFree'); lv, v = path(T, f['ps'][0]); o = T.call(f, None, [lv, F(T, f['ps'][1], 'edge_validity_check_fn', vmodel)]); T.never_throws(o); r = o.ret; n = v.f['len']; k = T.qv('k')
    T.ensure('a fraction', z3.And(r >= 0, r <= 1)); T.ensure('one only if every edge is valid', z3.Implies(z3.And(r == 1, k >= 0, k + 1 < n), Valid(get(v, k), get(v, k + 1)))); T.ensure('less only if an edge is not', z3.Implies(z3.And(n >= 2, r != 1), z3.Not(allvalid(v))))
    T.ensure('a single waypoint is checked against itself', z3.Implies(n == 1, r == z3.If(Valid(get(v, 0), get(v, 0)), 1, 0)))
def percent_con(ex, c):
    """proved by Percent"""
    v = c.val(0); r = ex.fresh(c.rettid, 'fraction'); ex.assume(z3.And(r >= 0, r <= 1, z3.Implies(z3.And(r == 1, v.f['len'] >= 2), allvalid(v)))); return r
def attempt_posts(p, s, e, interval, r):
    n = r.f['len']; return [('both ends kept', z3.Implies(n > 0, z3.And(n >= 2, get(r, 0) == get(p, s), get(r, n - 1) == get(p, e)))), ('only permitted edges', linked(r)), ('no waypoint is added without resampling', z3.Implies(interval <= 0, n <= e - s + 1)), ('length', n >= 0)]
def attempt_pre(d, p, s, e, interval, marginal): return z3.And(e < p.f['len'], s >= 0, linked(p), interval == d['interval'], marginal == d['marginal'])
def attempt_con(ex, c):
    """proved by Attempt (by induction over the number of backtracking steps in the recursive calls)"""
    d = ex.task.data; p, s, e, steps, interval, marginal = [c.val(k) for k in range(6)]; ex.oblige('callee-pre', attempt_pre(d, p, s, e, interval, marginal), c.e, 'a path of permitted edges, indices inside it, same settings'); ex.throw_if(s >= e, 'std::invalid_argument', c.e)
    if 'steps' in d: ex.oblige('termination', z3.And(steps >= 0, steps < d['steps']), c.e, 'fewer backtracking steps')
    else: ex.oblige('callee-pre', steps == d['backtrack'], c.e, 'backtracking steps as asked for')
    r = ex.fresh(c.rettid, 'shortcut'); d.setdefault('halves', []).append((r.f['len'], e))
    for nm, g in attempt_posts(p, s, e, interval, r): ex.assume(g)
    x, y = z3.Const('fx', Val), z3.Const('fy', Val); fx = lambda k, a: ex.asval(ex.invoke(c.args[k], a, c.e)); lv = [ex.new_root(ex.ty.elem(p.tid), z, 'q') for z in (x, y)]
    ex.oblige('callee-pre', z3.And(fx(6, lv) == Valid(x, y), fx(7, lv) == Dist(x, y), fx(8, lv + [z3.Real('fr')]) == Interp(x, y, z3.Real('fr'))), c.e, 'the functions are passed on'); return r
def resampling(L):
    """the part of the accepted edge inserted so far"""
    ex = L.ex; d = ex.task.data; v = L.read(L.written('vec')[0]); i = L.i; a, b = d['ends']; u = [L.read(x) for x in L.locals('int') if x.root != L.ind.root and ex.ty.name(x.tid).endswith('int')]; m = u[-1] if len(u) else None
    d['m'] = m
    ex.fact(piece(a, b, i - 1, m, d['marginal'])); ex.fact(piece(a, b, i, m, d['marginal']))
    return [('position', z3.And(i >= 1, z3.Or(i <= m, i == 1))), ('one waypoint per segment', v.f['len'] == i), ('starts at the start', get(v, 0) == a), ('last is the point reached', get(v, i - 1) == pt(a, b, i - 1, m)), ('only permitted edges', z3.Implies(z3.And(z3.Not(d['marginal']), Valid(a, b)), linked(v)))]
@task('C23', 'path', mode=M, loops=[resampling], contracts={Q + 'ComputePercentCollisionFree': percent_con, Q + 'AttemptShortcut': attempt_con})
def Attempt(T):
    ex = T.ex; f = T.fn(Q + 'AttemptShortcut'); ps = f['ps']; d = T.data; lv, p = path(T, ps[0]); s, e, steps = [T.sym(ps[k]['t'], ps[k]['n']) for k in (1, 2, 3)]; iv = T.sym(ps[4]['t'], 'interval'); mg = T.sym(ps[5]['t'], 'marginal'); d.update(steps=steps, interval=iv, marginal=mg, ends=(get(p, s), get(p, e)))
    T.assume(attempt_pre(d, p, s, e, iv, mg), 'the path contains permitted edges only and the indices lie inside it'); T.assume(z3.ForAll([a_, b_], z3.Implies(Valid(a_, b_), Good(a_, b_)), patterns=[Valid(a_, b_), Good(a_, b_)]), 'an edge the check accepts is permitted (definition)')
    T.assume(z3.Implies(iv > 0, z3.ForAll([a_, b_], Dist(a_, b_) <= iv * (2 ** 32 - 1), patterns=[Dist(a_, b_)])), 'the number of segments fits in 32 bits'); T.assumptions.append('edge check, distance and interpolation functions depend on their arguments only and have no side effects; real arithmetic')
    o = T.call(f, None, [lv, s, e, steps, iv, mg, F(T, ps[6], 'valid', vmodel), F(T, ps[7], 'distance', dmodel), F(T, ps[8], 'interpolate', imodel)]); T.throws_iff(o, s >= e, 'empty windows are rejected'); r = o.ret
    T.cover('resampled', z3.And(r.f['len'] > 3, z3.Not(mg))); T.cover('failed', r.f['len'] == 0)
    (x, mid), (y, _) = d['halves'][:2]; n = r.f['len']; k = T.qv('k'); split = z3.And(mid == s + (e - s) / 2, x >= 0); here = lambda k: z3.Implies(z3.And(k >= 0, k + 1 < n), Good(get(r, k), get(r, k + 1)))
    for nm, g in attempt_posts(p, s, e, iv, r):
        if nm != 'only permitted edges': T.ensure(nm, g)
    for nm, g in (('before the middle', k + 2 < x), ('at the middle', k + 2 >= x)):
        for n2, h in (('both halves', z3.And(x > 0, y > 0)), ('first half', z3.And(x > 0, y <= 0)), ('second half', z3.And(x <= 0, y > 0)), ('neither', z3.And(x <= 0, y <= 0))): T.ensure('only permitted edges: %s, %s' % (nm, n2), z3.Implies(z3.And(g, h), here(k)))
def smoothing(L):
    ex = L.ex; d = ex.task.data; p = d['p']; c = L.read(L.written('vec')[0]); n, n0 = c.f['len'], p.f['len']; it = [L.read(x) for x in L.written('int')]
    ex.assume(n <= 2 ** 48) if L.cur is not L.entry else None
    return [('empty only if it was', (n == 0) == (n0 == 0)), ('first waypoint kept', z3.Implies(n0 > 0, get(c, 0) == get(p, 0))), ('last waypoint kept', z3.Implies(n0 > 0, get(c, n - 1) == get(p, n0 - 1))), ('only permitted edges', linked(c)), ('no waypoint is added without resampling', z3.Implies(d['interval'] <= 0, n <= n0)), ('length', n >= 0)]
def iterations(L):
    """the limit on iterations minus the iterations done so far"""
    d = L.ex.task.data; w = {x.root for x in L.written('int')}; it = [L.read(x) for x in L.locals('int') if x.root in w]; return d['max'] - it[0]
smoothing.decreases = iterations
def unit(ex, a, e): r = ex.fresh_real('draw') if hasattr(ex, 'fresh_real') else z3.Real(ex.fresh_id('draw')); ex.assume(z3.And(r >= 0, r < 1)); return r
@task('C23', 'path', mode=M, loops=[smoothing], contracts={Q + 'AttemptShortcut': attempt_con})
def Smooth(T):
    ex = T.ex; f = T.fn(Q + 'ShortcutSmoothPath'); ps = f['ps']; d = T.data; lv, p = path(T, ps[0]); mx, mf, bt = [T.sym(ps[k]['t'], ps[k]['n']) for k in (1, 2, 3)]; fr, iv = [T.sym(ps[k]['t'], ps[k]['n']) for k in (4, 5)]; mg = T.sym(ps[6]['t'], 'marginal'); d.update(p=p, max=mx, interval=iv, marginal=mg, backtrack=bt)
    T.assume(linked(p), 'edges of the input are permitted (definition)'); T.assume(z3.And(fr >= 0, fr <= 1), 'maximum shortcut fraction between 0 and 1'); T.assumptions.append('the random stream delivers values in [0, 1); paths stay below 2^48 waypoints')
    o = T.call(f, None, [lv, mx, mf, bt, fr, iv, mg, F(T, ps[7], 'valid', vmodel), F(T, ps[8], 'distance', dmodel), F(T, ps[9], 'interpolate', imodel), F(T, ps[10], 'uniform', unit)]); T.never_throws(o); r = o.ret; n, n0 = r.f['len'], p.f['len']
    T.ensure('first waypoint kept', z3.Implies(n0 > 0, z3.And(n > 0, get(r, 0) == get(p, 0)))); T.ensure('last waypoint kept', z3.Implies(n0 > 0, get(r, n - 1) == get(p, n0 - 1))); T.ensure('only edges of the input or permitted by the check', linked(r)); T.ensure('no waypoint is added without resampling', z3.Implies(iv <= 0, n <= n0)); T.ensure('empty stays empty', z3.Implies(n0 == 0, n == 0))
# ---- resampling. Upto(i): number of waypoints emitted for the first i waypoints of the input (ghost function, defined by its recurrence)
Upto = z3.Function('emitted_for', I_, I_)
def segs(p, i, iv): q = Dist(get(p, i - 1), get(p, i)) / iv; return -z3.ToInt(-q)
def close(v, iv): k = z3.Int('gk'); return qall([k], z3.Implies(z3.And(k >= 0, k + 1 < v.f['len']), Dist(get(v, k), get(v, k + 1)) <= iv), patterns=[get(v, k)])
def kept(v, p, i): k = z3.Int('wk'); return qall([k], z3.Implies(z3.And(k >= 1, k <= i), z3.And(Upto(k) >= 1, Upto(k) <= Upto(i), get(v, Upto(k) - 1) == get(p, k - 1))), patterns=[Upto(k)])
def waypoints(L):
    """waypoints done"""
    ex = L.ex; d = ex.task.data; p, iv = d['p'], d['interval']; v = L.read(L.written('vec')[0]); i = L.i; n = v.f['len']
    ex.assume(n <= 2 ** 62) if L.cur is not L.entry else None
    ex.fact(Upto(1) == 1); ex.fact(z3.Implies(z3.And(i >= 1, i < p.f['len']), Upto(i + 1) == Upto(i) + segs(p, i, iv)))
    return [('position', z3.And(i >= 1, i <= p.f['len'])), ('one waypoint per segment', z3.And(n == Upto(i), n >= 1)), ('first waypoint kept', get(v, 0) == get(p, 0)), ('last waypoint kept', get(v, n - 1) == get(p, i - 1)), ('gaps', close(v, iv)), ('every waypoint kept', kept(v, p, i))]
def segments(L):
    """segments of the edge being divided"""
    ex = L.ex; d = ex.task.data; p, iv = d['p'], d['interval']; v = L.read(L.written('vec')[0]); i = L.i; n = v.f['len']; ex.assume(n <= 2 ** 62) if L.cur is not L.entry else None
    o = L.read([x for x in L.locals('int') if x.root != L.ind.root and ex.ty.name(x.tid) == 'unsigned long'][-1]); m = segs(p, o, iv); a, b = get(p, o - 1), get(p, o); e = L.read(L.written('vec')[0], L.entry); k = z3.Int('k')
    for x in (i - 1, i): ex.fact(equal_piece(a, b, x, m))
    return [('position', z3.And(i >= 1, z3.Or(i <= m + 1, i == 1))), ('one waypoint per segment', n == e.f['len'] + i - 1), ('last is the point reached', get(v, n - 1) == pt(a, b, i - 1, m)), ('gaps', close(v, iv)), ('earlier waypoints kept', qall([k], z3.Implies(z3.And(k >= 0, k < e.f['len']), get(v, k) == get(e, k)), patterns=[get(v, k)]))]
def equal_piece(a, b, k, m):
    """assumption on the interpolation function: equal ratios divide an edge into pieces of equal length"""
    return z3.Implies(z3.And(k >= 0, k < m), Dist(pt(a, b, k, m), pt(a, b, k + 1, m)) * z3.ToReal(m) == Dist(a, b))
@task('C23', 'path', mode=M, loops=[waypoints, segments])
def Resample(T):
    ex = T.ex; f = T.fn(Q + 'ResamplePath'); ps = f['ps']; d = T.data; lv, p = path(T, ps[0]); iv = T.sym(ps[1]['t'], 'interval'); d.update(p=p, interval=iv); n0 = p.f['len']
    T.assume(z3.ForAll([a_, b_], z3.And(Dist(a_, b_) >= 0, z3.Implies(Dist(a_, b_) == 0, a_ == b_), z3.Implies(iv > 0, Dist(a_, b_) <= iv * (2 ** 32 - 2))), patterns=[Dist(a_, b_)]), 'distances are not negative, zero only between equal states, and less than 2^32 intervals long')
    T.assume(z3.ForAll([a_, b_], Interp(a_, b_, 1) == b_, patterns=[Interp(a_, b_, 1)]), 'interpolation with ratio 1 is the end'); T.assumptions.append('equal ratios divide an edge into pieces of equal length (a property of the interpolation and distance functions given; instances at the ratios used); distance and interpolation depend on their arguments only; real arithmetic')
    o = T.call(f, None, [lv, iv, F(T, ps[2], 'distance', dmodel), F(T, ps[3], 'interpolate', imodel)]); T.throws_iff(o, z3.And(n0 >= 2, iv <= 0), 'distances that are not positive are rejected'); r = o.ret; n = r.f['len']; k = T.qv('k')
    T.ensure('short paths unchanged', z3.Implies(n0 <= 1, z3.And(n == n0, r.f['arr'] == p.f['arr']))); T.ensure('first waypoint kept', z3.Implies(n0 >= 1, z3.And(n >= 1, get(r, 0) == get(p, 0)))); T.ensure('last waypoint kept', z3.Implies(n0 >= 1, get(r, n - 1) == get(p, n0 - 1)))
    T.ensure('no gap exceeds the distance asked for', z3.Implies(z3.And(n0 >= 2, k >= 0, k + 1 < n), Dist(get(r, k), get(r, k + 1)) <= iv)); T.ensure('every waypoint of the input is kept, in order', z3.Implies(z3.And(n0 >= 2, k >= 1, k <= n0), z3.And(Upto(k) >= 1, Upto(k) <= n, get(r, Upto(k) - 1) == get(p, k - 1))))
    T.cover('divided', z3.And(n0 == 2, n == 4))
