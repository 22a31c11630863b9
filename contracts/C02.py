from vc.task import *
from common import *
P = NSP + 'parallelism::'

def setup(T, name, indexed):
    ex = T.ex
    f = T.fn(name)
    I = z3.IntSort()
    cnt0 = z3.K(I, z3.IntVal(0))
    ints = T.type('int'); 
    cnt = ex.new_root(-1, cnt0, 'ghost_count')
    threw = ex.new_root(-1, z3.BoolVal(False), 'ghost_threw')
    wit = ex.new_root(ints, z3.IntVal(0), 'ghost_witness')
    T.data.update(cnt=cnt.root, threw=threw.root, wit=wit.root)
    ps = f['ps']
    rs, re = T.sym(ps[1]['t'], 'range_start'), T.sym(ps[2]['t'], 'range_end')
    par = T.obj(ex.ty.strip_ref(ps[0]['t']), 'parallelism')
    nthr = T.val(par).f['num_threads_']
    T.assume(nthr >= 1, 'DegreeOfParallelism class invariant (num_threads >= 1)')
    T.assume(z3.Implies(re >= rs, re - rs <= 2 ** 63 - 1))
    be = T.sym(ps[4]['t'], 'backend')
    T.assume(z3.And(be >= 0, be <= 2))
    T.data.update(rs=rs, re=re, n=nthr)
    def visit(ex, lo, hi, th, e):
        ex.oblige('post', z3.And(th >= 0, th < nthr), e, 'reported thread number within [0, thread count)')
        old = ex.st.roots[cnt.root]
        new = z3.Const(ex.fresh_id('cnt'), old.sort()); i = z3.Const(ex.fresh_id('i'), I)
        ex.fact(qall([i], z3.Select(new, i) == z3.Select(old, i) + z3.If(z3.And(lo <= i, i < hi), 1, 0), patterns=[z3.Select(new, i)]))
        ex.log_write(cnt.root, ()); ex.log_write(threw.root, ())
        ex.st.roots[cnt.root] = new
        b = z3.Const(ex.fresh_id('functor_throws'), z3.BoolSort())
        before = ex.st.roots[threw.root]
        ex.st.roots[threw.root] = z3.BoolVal(True)
        ex.throw_if(b, 'user exception', e)
        ex.st.roots[threw.root] = before
    def range_model(ex, args, e):
        w = ex.asval(args[0])
        visit(ex, w.f['range_start_'], w.f['range_end_'], w.f['thread_num_'], e); return None
    def index_model(ex, args, e):
        th, ix = ex.asval(args[0]), ex.asval(args[1])
        visit(ex, ix, ix + 1, th, e); return None
    fn = T.func('work function', index_model if indexed else range_model)
    fl = T.lv(ex.ty.strip_ref(ps[3]['t']), fn, 'functor')
    i = T.qv('i')
    T.cover('pre', z3.And(rs + 5 < re, nthr > 2))
    out = T.call(f, None, [par, rs, re, fl, be])
    T.never_throws_spurious = None
    # exceptional outcomes: invalid range, or the work function threw
    for t in out.throws:
        ex.st = t.st
        ex.oblige('throws-only', z3.Or(re < rs, t.st.roots[threw.root]), t.node, 'throws only for an inverted range or when the work function threw', assume=False)
    T.ex.st = out.st
    T.ensure('an exception of the work function reaches the caller', mkNot(out.st.roots[threw.root]))
    T.ensure('inverted range rejected', re >= rs)
    c = out.st.roots[cnt.root]
    T.ensure('every index visited exactly once and none outside', qall([i], z3.Select(c, i) == z3.If(z3.And(rs <= i, i < re), 1, 0)))
    T.cover('normal return', re > rs + 3)

def G(L): return L.ex.task.data
def visited_upto(L, hi):
    """ghost count: exactly the indices of [range start, hi) visited once"""
    d = G(L); i = z3.Int('vi'); c = L.cur.roots[d['cnt']]
    return qall([i], z3.Select(c, i) == z3.If(z3.And(d['rs'] <= i, i < hi), 1, 0), patterns=[z3.Select(c, i)])
def thr(L): return L.cur.roots[G(L)['threw']]
def nreal(L): return L.v('real_num_threads')
def S(L, k):
    d = G(L); return Sfun(d['rs'], d['re'], nreal(L), k)

def inner(L):
    """index loop inside one work range: the range's first i-start indices are done"""
    d = G(L); i = z3.Int('vi'); c = L.cur.roots[d['cnt']]; c0 = L.entry.roots[d['cnt']]
    lo = L.read(L.ind, L.entry)
    return [('visited so far', qall([i], z3.Select(c, i) == z3.Select(c0, i) + z3.If(z3.And(lo <= i, i < L.i), 1, 0), patterns=[z3.Select(c, i)])),
            ('no exception yet', thr(L) == L.entry.roots[d['threw']])]
def omp_static(L):
    k = L.i
    ex = L.ex; d = G(L)
    # chunk boundaries: S(0) = start
    ex.fact(z3.Implies(nreal(L) > 0, Sfun(d['rs'], d['re'], nreal(L), 0) == d['rs']))
    ex.fact(z3.Implies(nreal(L) > 0, Sfun(d['rs'], d['re'], nreal(L), nreal(L)) == d['re']))
    le = L.v('loop_exception')
    return [('visited [start, S(k))', z3.Implies(mkNot(thr(L)), visited_upto(L, S(L, k)))), ('exception recorded', z3.Implies(thr(L), le)), ('exceptions only from the work function', z3.Implies(le, thr(L)))]
def some_exc(L, w):
    j = z3.Int('ej')
    return w
def async_static(L):
    d = G(L); ex = L.ex; j = z3.Int('wj')
    w = L.v('workers')
    fs = ex.ty.elem(w.tid); srt = ex.ty.sort(fs)
    exc = lambda t: srt.accessor(0, 0)(t)
    ex.fact(z3.Implies(nreal(L) > 0, Sfun(d['rs'], d['re'], nreal(L), 0) == d['rs']))
    ex.fact(z3.Implies(nreal(L) > 0, Sfun(d['rs'], d['re'], nreal(L), nreal(L)) == d['re']))
    return [('one future per started worker', w.f['len'] == L.i),
            ('visited [start, S(k))', z3.Implies(mkNot(thr(L)), visited_upto(L, S(L, L.i)))),
            ('exception held by a future', thr(L) == z3.Exists([j], z3.And(j >= 0, j < w.f['len'], exc(z3.Select(w.f['arr'], j)))))]
def join(L):
    ex = L.ex; j = z3.Int('wj')
    w = L.v('workers'); srt = ex.ty.sort(ex.ty.elem(w.tid))
    return [('no exception among joined workers', qall([j], z3.Implies(z3.And(j >= 0, j < L.k), mkNot(srt.accessor(0, 0)(z3.Select(w.f['arr'], j))))))]
CON = {P + 'CalcStaticThreadRangeStartAndEnd': calc_static_contract(Sfun)}

# loop order (by first encounter): [OpenMP loop, (index loop)], [async launch loop], join
@task('C02', 'parallel', contracts=CON, loops=[omp_static, async_static, join])
def StaticParallelForRangeLoop(T): setup(T, 'StaticParallelForRangeLoop', False)
@task('C02', 'parallel', contracts=CON, loops=[inner, omp_static, inner, async_static, inner, join])
def StaticParallelForIndexLoop(T): setup(T, 'StaticParallelForIndexLoop', True)

def omp_dyn(L):
    le = L.v('loop_exception')
    return [('visited [start, index)', z3.Implies(mkNot(thr(L)), visited_upto(L, L.i))), ('exception recorded', thr(L) == le)]
def keeper_init(L):
    d = G(L); q = L.read(L.frame.this).f['thread_number_queue_']; j = z3.Int('qj')
    return [('queue holds 0..k-1', z3.And(q.f['len'] == L.i, qall([j], z3.Implies(z3.And(j >= 0, j < q.f['len']), z3.Select(q.f['arr'], j) == j))))]
def futs(L):
    ex = L.ex; w = L.v('active_workers'); srt = ex.ty.sort(ex.ty.elem(w.tid))
    return w, (lambda t: srt.accessor(0, 0)(t)), (lambda t: srt.accessor(0, 1)(t))
def wit(L): return L.cur.roots[G(L)['wit']]
def dyn_state(L, done):
    d = G(L); ex = L.ex; j = z3.Int('wj')
    w, exc, val = futs(L)
    q = L.v('thread_number_keeper').f['thread_number_queue_']
    n = nreal(L)
    disp = L.v('workers_dispatched')
    return [('dispatched count in range', z3.And(disp >= 0, disp <= d['re'] - d['rs'])),
            ('visited [start, start+dispatched)', visited_upto(L, d['rs'] + disp)),
            ('thread numbers conserved', w.f['len'] + q.f['len'] == n),
            ('free thread numbers valid', qall([j], z3.Implies(z3.And(j >= 0, j < q.f['len']), z3.And(z3.Select(q.f['arr'], j) >= 0, z3.Select(q.f['arr'], j) < n)), patterns=[z3.Select(q.f['arr'], j)])),
            ('busy thread numbers valid', qall([j], z3.Implies(z3.And(j >= 0, j < w.f['len'], mkNot(exc(z3.Select(w.f['arr'], j)))), z3.And(val(z3.Select(w.f['arr'], j)) >= 0, val(z3.Select(w.f['arr'], j)) < n)), patterns=[z3.Select(w.f['arr'], j)])),
            ('a thrown exception is held by a live worker', z3.Implies(thr(L), z3.And(wit(L) >= 0, wit(L) < w.f['len'], exc(z3.Select(w.f['arr'], wit(L)))))),
            ('live workers hold only thrown exceptions', qall([j], z3.Implies(z3.And(j >= 0, j < w.f['len'], exc(z3.Select(w.f['arr'], j))), thr(L)), patterns=[z3.Select(w.f['arr'], j)]))]
def dyn_outer(L): return dyn_state(L, None)
def reap(L):
    d = G(L); it = L.v('worker'); w, _, _ = futs(L)
    return dyn_state(L, None) + [('iterator inside the list', z3.And(it.i >= 0, it.i <= w.f['len']))]
def dispatch(L): return dyn_state(L, None)

# ghost code attached to the two list operations: the position of a future that holds an exception
def ghost_push(ex, e, this, a):
    from vc.lib import H
    d = ex.task.data; w = ex.st.roots[d['wit']]; n0 = ex.vlen(this)
    r = H['vec::' + e['name']](ex, e, this, a)
    v = ex.load(this)
    if ex.ty.kind(ex.ty.elem(v.tid)) == 'future':
        x = ex.ty.sort(ex.ty.elem(v.tid)).accessor(0, 0)(z3.Select(v.f['arr'], n0))
        ex.log_write(d['wit'], ()); ex.st.roots[d['wit']] = z3.If(x, n0, w)
    return r
def ghost_erase(ex, e, this, a):
    from vc.lib import H
    d = ex.task.data; w = ex.st.roots[d['wit']]; p = ex.asval(a[0]).i
    r = H['vec::erase'](ex, e, this, a)
    if ex.ty.kind(ex.ty.elem(ex.load(this).tid)) == 'future':
        ex.log_write(d['wit'], ()); ex.st.roots[d['wit']] = z3.If(p < w, w - 1, w)
    return r
GH = {'vec::emplace_back': ghost_push, 'vec::push_back': ghost_push, 'vec::erase': ghost_erase}

@task('C02', 'parallel', libover=GH, loops=[omp_dyn, keeper_init, dyn_outer, reap, dispatch])
def DynamicParallelForRangeLoop(T): setup(T, 'DynamicParallelForRangeLoop', False)
@task('C02', 'parallel', libover=GH, loops=[inner, omp_dyn, inner, keeper_init, dyn_outer, reap, dispatch, inner])
def DynamicParallelForIndexLoop(T): setup(T, 'DynamicParallelForIndexLoop', True)
