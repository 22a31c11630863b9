from vc.task import *
from common import *
Q = NSP + 'simple_dtw::'
I_ = z3.IntSort(); R_ = z3.RealSort(); M = {'opaque': ['tu::Val', 'tu::Wal']}
Val, Wal = z3.DeclareSort('S_tu::Val'), z3.DeclareSort('S_tu::Wal'); Dist = z3.Function('distance', Val, Wal, R_)
# C(i, j): the least cost of aligning the first i items of one sequence with the first j of the other (ghost function, defined by its recurrence; tasks Least*)
C = z3.Function('least_cost', I_, I_, R_)
def add(ex, a, b): return ex.uf('fadd', R_, R_, R_)(a, b)
def mn(*x):
    r = x[0]
    for y in x[1:]: r = z3.If(y < r, y, r)
    return r
def cell(ex, D, i, j): return z3.Implies(z3.And(i >= 1, j >= 1), C(i, j) == add(ex, D(i - 1, j - 1), mn(C(i - 1, j), C(i, j - 1), C(i - 1, j - 1))))
def edges(ex):
    i = z3.Int('ci'); return z3.And(C(0, 0) == 0, qall([i], z3.Implies(i >= 1, z3.And(C(i, 0) == ex.inf(), C(0, i) == ex.inf())), patterns=[C(i, 0), C(0, i)]))
def at(x, i, j): return sel(sel(x.f['arr'], i), j)
def border(ex, x, rows=None, cols=None):
    """first row and column of the matrix (up to a row, a column)"""
    k = z3.Int('bk'); r = x.f['rows'] if rows is None else rows; c = x.f['cols'] if cols is None else cols
    return z3.And(at(x, 0, 0) == 0, qall([k], z3.Implies(z3.And(k >= 1, k < r), at(x, k, 0) == ex.inf()), patterns=[at(x, k, 0)]), qall([k], z3.Implies(z3.And(k >= 1, k < c), at(x, 0, k) == ex.inf()), patterns=[at(x, 0, k)]))
def inv(ex, s):
    """class invariant of SimpleDTW: established by the constructors, preserved by every evaluation"""
    x = s.f['dtw_matrix_']; return z3.And(x.f['rows'] >= 1, x.f['cols'] >= 1, z3.Implies(z3.And(x.f['rows'] > 1, x.f['cols'] > 1), border(ex, x)))
def mat(L): return L.ex.load(L.frame.this, L.cur).f['dtw_matrix_']
def rowloop(L):
    x = mat(L); e = L.at(L.entry); x0 = mat(e); d = L.ex.task.data; r, c = d['shape'](x0); i = L.i; k = z3.Int('k')
    return [('position', z3.And(i >= 1, i <= r)), ('shape', z3.And(x.f['rows'] == x0.f['rows'], x.f['cols'] == x0.f['cols'])), ('first column so far', border(L.ex, x, i, z3.IntVal(1)))]
def colloop(L):
    x = mat(L); e = L.at(L.entry); x0 = mat(e); i = L.i
    return [('position', z3.And(i >= 1, i <= x0.f['cols'])), ('shape', z3.And(x.f['rows'] == x0.f['rows'], x.f['cols'] == x0.f['cols'])), ('first row so far', border(L.ex, x, None, i))]
def table(L, i, j):
    """cells of the rows before i, and of row i before column j, hold the least costs"""
    ex = L.ex; d = ex.task.data; x = mat(L); x0 = mat(L.at(L.entry)); r, s = z3.Ints('tr ts'); m = d['m']
    return [('shape', z3.And(x.f['rows'] == x0.f['rows'], x.f['cols'] == x0.f['cols'])), ('borders', border(ex, x)),
            ('cells done', qall([r, s], z3.Implies(z3.And(r >= 0, s >= 0, s <= m, z3.Or(r < i, z3.And(r == i, s < j))), at(x, r, s) == C(r, s)), patterns=[at(x, r, s)]))]
def outer(L): d = L.ex.task.data; i = L.i; return [('position', z3.And(i >= 1, i <= d['n'] + 1))] + table(L, i, z3.IntVal(0))
def inner(L):
    ex = L.ex; d = ex.task.data; j = L.i; i = [L.read(x) for x in L.locals('int') if x.root not in (L.ind.root, ) and L.entry.roots.get(x.root) is not None and x.root not in d['before'](L)][0]
    ex.fact(cell(ex, d['D'], i, j)); return [('position', z3.And(j >= 1, j <= d['m'] + 1))] + table(L, i, j)
def comm(ex): a, b = z3.Reals('fa fb'); ex.fact(qall([a, b], add(ex, a, b) == add(ex, b, a), patterns=[add(ex, a, b)]))
def setup(T, f):
    ex = T.ex; d = T.data; A, B = [T.obj(ex.ty.strip_ref(p['t']), p['n']) for p in f['ps'][:2]]; a, b = T.val(A), T.val(B)
    def model(ex, args, e): return Dist(*[ex.asval(x) for x in args])
    F = T.lv(ex.ty.strip_ref(f['ps'][2]['t']), T.func('distance_fn', model), 'distance_fn'); d.update(n=a.f['len'], m=b.f['len'], D=lambda i, j: Dist(sel(a.f['arr'], i), sel(b.f['arr'], j)))
    d['shape'] = lambda x: (x.f['rows'], x.f['cols']); d['before'] = lambda L: [x.root for x in L.locals('int') if 'size' in ex.rootinfo.get(x.root, (0, ''))[1]]
    T.assumptions.append('distance_fn is a function of its arguments, returns no NaN and has no side effects'); T.assume(z3.And(d['n'] <= 2 ** 60, d['m'] <= 2 ** 60), 'sequences hold fewer than 2^60 items'); T.assume(edges(ex)); comm(ex); return [A, B, F]
@task('C20', 'distance', mode=M, loops=[rowloop, colloop, outer, inner])
def Evaluate(T):
    """for every evaluator, whatever it computed before"""
    f = T.fn('EvaluateWarpingCost', cls='SimpleDTW'); ex = T.ex; a = setup(T, f); this = T.obj(f['cls'], 'evaluator'); d = T.data; T.assume(inv(ex, T.val(this)), 'class invariant of SimpleDTW (tasks Constructors, Evaluate)')
    o = T.call(f, this, a); T.throws_iff(o, z3.Or(d['n'] == 0, d['m'] == 0), 'empty sequences are rejected'); T.cover('small', z3.And(d['n'] == 2, d['m'] == 3)); T.ensure('the least alignment cost', o.ret == C(d['n'], d['m'])); T.ensure('class invariant preserved', inv(ex, T.val(this)))
@task('C20', 'distance', mode=M, loops=[rowloop, colloop, outer, inner])
def Function(T):
    f = [f for f in T.fns('EvaluateWarpingCost') if 'cls' not in f][0]; ex = T.ex; a = setup(T, f); d = T.data; o = T.call(f, None, a)
    T.throws_iff(o, z3.Or(d['n'] == 0, d['m'] == 0), 'empty sequences are rejected'); T.ensure('the least alignment cost', o.ret == C(d['n'], d['m']))
@task('C20', 'distance', mode=M, loops=[rowloop, colloop])
def Constructors(T):
    ex = T.ex
    for f in {f['id']: f for f in T.fns('SimpleDTW', cls='SimpleDTW') if f.get('isctor') and len(f['ps']) in (0, 2)}.values():
        st0 = ex.st.clone(); T.data['shape'] = lambda x: (x.f['rows'], x.f['cols']); g = [T.sym(p['t'], p['n']) for p in f['ps']]
        for x in g: T.assume(z3.And(x >= 0, x <= 2 ** 60), 'constructor given sizes of sequences')
        this = T.lv(f['cls'], ex.fresh(f['cls'], 'new'), 'new'); T.call(f, this, g); T.ensure('class invariant established', inv(ex, T.val(this))); ex.st = st0
def costs(T):
    ex = T.ex; comm(ex); a, b, c = z3.Reals('la lb lc'); f = lambda x, y: add(ex, x, y); Dd = z3.Function('D', I_, I_, R_); T.assume(edges(ex)); i, j = z3.Ints('li lj')
    T.assume(qall([i, j], z3.Implies(z3.And(i >= 1, j >= 1), C(i, j) == f(Dd(i - 1, j - 1), mn(C(i - 1, j), C(i, j - 1), C(i - 1, j - 1)))), patterns=[C(i, j)]))
    T.assume(qall([a, b, c], z3.Implies(b <= c, f(a, b) <= f(a, c)), patterns=[z3.MultiPattern(f(a, b), f(a, c))]), 'rounded addition is monotone and stays within the infinities')
    T.assume(qall([a, b], z3.And(f(a, b) <= ex.inf(), f(a, b) >= -ex.inf()), patterns=[f(a, b)])); return Dd, f
STEPS = [(1, 0), (0, 1), (1, 1)]
@task('C20', 'distance', mode=M)
def LeastNoAlignmentIsCheaper(T):
    """rule induction over alignments: an alignment of (0, 0) costs 0; one of (i, j) extends one of (i-1, j), (i, j-1) or (i-1, j-1) by D(i-1, j-1)"""
    Dd, f = costs(T); i, j, y = T.qv('i'), T.qv('j'), z3.Real('y'); T.ensure('empty alignment', C(0, 0) <= 0); T.assume(z3.And(i >= 1, j >= 1))
    for di, dj in STEPS: T.ensure('extended by (%d, %d)' % (di, dj), z3.Implies(C(i - di, j - dj) <= y, C(i, j) <= f(Dd(i - 1, j - 1), y)))
@task('C20', 'distance', mode=M)
def LeastIsAttained(T):
    """induction over i + j: some alignment of (i, j), i, j >= 1, costs exactly C(i, j)"""
    Dd, f = costs(T); A = z3.Function('Aligned', I_, I_, R_, z3.BoolSort()); i, j = T.qv('i'), T.qv('j'); p, q = z3.Ints('p q'); T.assume(z3.And(i >= 1, j >= 1, A(0, 0, 0)))
    T.assume(qall([p, q], z3.Implies(z3.And(p >= 1, q >= 1, p + q < i + j), A(p, q, C(p, q))), patterns=[A(p, q, C(p, q))])); ih = lambda p, q: z3.Implies(z3.And(p >= 1, q >= 1), A(p, q, C(p, q)))
    for di, dj in STEPS:
        T.assume(ih(i - di, j - dj)); T.assume(z3.Implies(A(i - di, j - dj, C(i - di, j - dj)), A(i, j, f(Dd(i - 1, j - 1), C(i - di, j - dj)))))
        T.lemma('within range', z3.Implies(z3.And(i - di >= 1, j - dj >= 1), z3.And(C(i - di, j - dj) <= T.ex.inf())))
    T.ensure('attained', A(i, j, C(i, j)))
