from vc.task import *
from common import *
Q = NSP + 'simple_hausdorff_distance::'
I_ = z3.IntSort(); R_ = z3.RealSort(); M = {'opaque': ['tu::Val', 'tu::Wal']}
Val, Wal = z3.DeclareSort('S_tu::Val'), z3.DeclareSort('S_tu::Wal'); Dist = z3.Function('distance', Val, Wal, R_)
# nearest(i): the smallest distance from item i of the first set to the second set; farthest: the largest of these (ghost definitions: both sets are finite and not empty)
near = z3.Function('nearest', I_, R_); arg = z3.Function('nearest_at', I_, I_); far = z3.Real('farthest'); W = z3.Int('farthest_at')
def setup(T, f):
    ex = T.ex; d = T.data; ps = f['ps']; A, B = [T.obj(ex.ty.strip_ref(p['t']), p['n']) for p in ps[:2]]; a, b = T.val(A), T.val(B); t2 = ex.ty.strip_ref(ps[2]['t']); n, m = a.f['len'], b.f['len']; args = [A, B]; i, j = z3.Ints('i j')
    if ex.ty.kind(t2) == 'mat': X = T.obj(t2, 'distance_matrix'); x = T.val(X); D = lambda i, j: sel(sel(x.f['arr'], i), j); d['wrong'] = z3.Or(x.f['rows'] != n, x.f['cols'] != m); d['x'] = x; pat = lambda i, j: [D(i, j)]
    else:
        D = lambda i, j: Dist(sel(a.f['arr'], i), sel(b.f['arr'], j)); d['wrong'] = z3.BoolVal(False)
        def model(ex, args, e): return Dist(*[ex.asval(x) for x in args])
        X = T.lv(t2, T.func('distance_fn', model), 'distance_fn'); pat = lambda i, j: [z3.MultiPattern(sel(a.f['arr'], i), sel(b.f['arr'], j))]
        T.assumptions.append('distance_fn is a function of its arguments without side effects')
    args.append(X); T.assume(qall([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < m), z3.And(D(i, j) >= 0, D(i, j) <= ex.inf())), patterns=pat(i, j)), 'distances are non-negative and not NaN')
    rng = lambda i: z3.And(0 <= i, i < n)
    T.assume(z3.Implies(z3.And(n > 0, m > 0), z3.And(qall([i, j], z3.Implies(z3.And(rng(i), 0 <= j, j < m), near(i) <= D(i, j)), patterns=pat(i, j)),
        qall([i], z3.Implies(rng(i), z3.And(near(i) == D(i, arg(i)), 0 <= arg(i), arg(i) < m, near(i) <= far, near(i) >= 0, near(i) <= ex.inf())), patterns=[near(i)]), 0 <= W, W < n, far == near(W))))
    if len(ps) > 3: p = T.obj(ex.ty.strip_ref(ps[3]['t']), 'parallelism'); T.assume(T.val(p).f['num_threads_'] >= 1, 'DegreeOfParallelism class invariant (num_threads >= 1)'); args.append(p)
    d.update(n=n, m=m, D=D, rejected=z3.Or(n == 0, m == 0, d['wrong'])); T.assume(z3.And(n <= 2 ** 60, m <= 2 ** 60), 'containers hold fewer than 2^60 items'); return args
def scalar(L):
    vs = [L.read(v) for v in L.written('fp')]
    if len(vs) != 1: raise Unsupported('the running value of the loop')
    return vs[0]
def inner(L):
    """the minimum over the items of the second set before position j"""
    ex = L.ex; d = ex.task.data; j = L.i; k = z3.Int('k'); v = scalar(L); i = d['row'](L) if 'row' in d else [L.read(x) for x in L.locals('int') if x.root != L.ind.root][0]
    return [('position', z3.And(j >= 0, j <= d['m'])), ('not below the minimum', v >= near(i)), ('at most every distance so far', qall([k], z3.Implies(z3.And(k >= 0, k < j), v <= d['D'](i, k))))]
def outer(L):
    d = L.ex.task.data; i = L.i; k = z3.Int('k'); v = [L.read(x) for x in L.locals('fp')][0]
    return [('position', z3.And(i >= 0, i <= d['n'])), ('not above the maximum', z3.And(v >= 0, v <= far)), ('at least every earlier minimum', qall([k], z3.Implies(z3.And(k >= 0, k < i), near(k) <= v), patterns=[near(k)]))]
def serial(T, k):
    f = [f for f in T.fns(Q + 'internal::ComputeDistanceSerial') if T.ex.ty.kind(T.ex.ty.strip_ref(f['ps'][2]['t'])) == k][0]; finish(T, f)
def finish(T, f):
    a = setup(T, f); d = T.data; o = T.call(f, None, a); T.throws_iff(o, d['rejected'], 'empty sets and matrices of the wrong size are rejected'); r = T.ex.load(o.ret) if isinstance(o.ret, LVal) else o.ret
    T.cover('several items', z3.And(d['n'] == 3, d['m'] == 2)); T.lemma('the maximum is that of an item', near(W) == far); T.ensure('the largest of the smallest distances', r == far)
@task('C19', 'distance', mode=M, loops=[outer, inner])
def SerialFunction(T): serial(T, 'fnobj')
@task('C19', 'distance', mode=M, loops=[outer, inner])
def SerialMatrix(T): serial(T, 'mat')
def slots(ex, c):
    d = ex.task.data; v = [lv for lv in vars_of(ex, 'vec') if ex.ty.kind(ex.ty.elem(ex.load(lv).tid)) == 'fp']
    if not v: raise Unsupported('per-thread storage')
    k = z3.Int('k'); d['row'] = lambda L: ex.task.data['work'][1]
    I = lambda t, mem, slot, g: [('not above the maximum', z3.And(slot >= 0, slot <= far)), ('at least the minimum of every item of its thread', qall([k], z3.Implies(z3.And(mem(k), k >= 0, k < d['n']), near(k) <= slot), patterns=[near(k)]))]
    return v[0], I, None, lambda *a: None, lambda t: None if t is not None else (lambda t: None)
def last(L):
    d = L.ex.task.data; arr, ln, nt = d['slots']; k = z3.Int('k'); i = L.i; v = [L.read(x) for x in L.locals('fp')][0]
    return [('position', z3.And(i >= 0, i <= ln)), ('not above the maximum', z3.And(v >= 0, v <= far)), ('at least every earlier slot', qall([k], z3.Implies(z3.And(k >= 0, k < i), sel(arr, k) <= v), patterns=[sel(arr, k)]))]
def parallel(T, k):
    f = [f for f in T.fns(Q + 'internal::ComputeDistanceParallel') if T.ex.ty.kind(T.ex.ty.strip_ref(f['ps'][2]['t'])) == k][0]; a = setup(T, f); d = T.data; ex = T.ex
    o = T.call(f, None, a); T.throws_iff(o, d['rejected'], 'empty sets and matrices of the wrong size are rejected'); r = ex.load(o.ret) if isinstance(o.ret, LVal) else o.ret
    T.cover('several items', z3.And(d['n'] == 3, d['m'] == 2))
    if 'owner' in d and 'slots' in d:
        ow = d['owner']; T.lemma('the farthest item\'s thread', z3.And(ow(W) >= 0, ow(W) < d['slots'][2], near(W) == far)); T.lemma('its slot', sel(d['slots'][0], ow(W)) >= near(W))
    T.ensure('the largest of the smallest distances', r == far)
@task('C19', 'distance', mode=M, loops=[inner, last], contracts=parslots(slots))
def ParallelFunction(T): parallel(T, 'fnobj')
@task('C19', 'distance', mode=M, loops=[inner, last], contracts=parslots(slots))
def ParallelMatrix(T): parallel(T, 'mat')
def con(ex, c):
    """proved by the four tasks above"""
    a = [c.val(i) for i in range(2)]; d = ex.task.data; x = c.val(2); same = z3.And(a[0].f['arr'] == d['A'][0].f['arr'], a[0].f['len'] == d['n'], a[1].f['arr'] == d['A'][1].f['arr'], a[1].f['len'] == d['m'])
    ex.oblige('callee-pre', same, c.e, 'the two sets are passed on in order'); d.setdefault('calls', []).append(x)
    if 'x' in d: ex.oblige('callee-pre', z3.And(x.f['arr'] == d['x'].f['arr'], x.f['rows'] == d['x'].f['rows'], x.f['cols'] == d['x'].f['cols']), c.e, 'the matrix is passed on')
    ex.throw_if(d['rejected'], 'std::invalid_argument', c.e); return far
@task('C19', 'distance', mode=M, contracts={Q + 'internal::ComputeDistance' + n: con for n in ('Serial', 'Parallel')})
def Wrappers(T):
    ex = T.ex
    for f in {f['id']: f for f in T.fns(Q + 'ComputeDistance')}.values():
        st0 = ex.st.clone(); T.data.clear(); a = setup(T, f); T.data['A'] = [T.val(a[0]), T.val(a[1])]; o = T.call(f, None, a); T.throws_iff(o, T.data['rejected'], 'empty sets and matrices of the wrong size are rejected'); T.ensure('the largest of the smallest distances', o.ret == far); ex.st = st0
