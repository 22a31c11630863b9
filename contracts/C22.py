from vc.task import *
from common import *
import C18 as c18; REG.pop('C18', None)
from C18 import Dist, dmodel, Val, rec
Q = NSP + 'simple_kmeans_clustering::'; KQ = NSP + 'simple_knearest_neighbors::'
I_ = z3.IntSort(); R_ = z3.RealSort(); M = {'opaque': ['tu::Val'], 'fparith': 'exact'}; AI = z3.ArraySort(I_, I_)
# Centre(labels, k, c): c is what the average function returned for the items labelled k, in order, with their weights (depends on the labels of the items only)
Centre = z3.Function('centre_of', AI, I_, Val, z3.BoolSort()); cnt = z3.Function('labelled_before', I_, I_, I_)
def nearest_con(ex, c):
    """the contract of C18 for one neighbour of a list of centres"""
    d = ex.task.data; v = c.val(0); K = c.val(3); ex.throw_if(K < 0, 'std::invalid_argument', c.e); b = dict(items=v.f['arr'], n=v.f['len'], rs=z3.IntVal(0), re=v.f['len'], cur=c.val(1), K=K); r = ex.fresh(c.rettid, 'nearest'); pos = z3.Function(ex.fresh_id('listed_at'), I_, I_); ex.assume(r.f['len'] >= 0)
    for nm, g in c18.posts(ex, b, r, lambda i: pos(i)): ex.assume(g); ex.named.append(('callee: ' + nm, g, g))
    d['pos'] = pos; return r
KNN = {KQ + n: nearest_con for n in ('GetKNearestNeighborsSerial', 'GetKNearestNeighborsParallel', 'GetKNearestNeighbors')}
def par(T, p): lv = T.obj(T.ex.ty.strip_ref(p['t']), 'parallelism'); T.assume(T.val(lv).f['num_threads_'] >= 1, 'DegreeOfParallelism class invariant (num_threads >= 1)'); return lv
def container(T, p, nm): lv = T.obj(T.ex.ty.strip_ref(p['t']), nm); v = T.val(lv); T.assume(z3.And(v.f['len'] >= 0, v.f['len'] <= 2 ** 48), 'containers hold at most 2^48 items'); return lv, v
def nearest_label(l, c, C, x):
    """l labels a centre no farther from x than any other"""
    j = z3.Int('cj'); return z3.And(l >= 0, l < C, qall([j], z3.Implies(z3.And(j >= 0, j < C), Dist(sel(c, l), x) <= Dist(sel(c, j), x)), patterns=[sel(c, j)]))
def own(ex, c):
    d = ex.task.data; v = [lv for lv in vars_of(ex, 'vec') if ex.ty.kind(ex.ty.elem(ex.load(lv).tid)) == 'int']
    def post(k, o, n): pos = d.get('pos'); return [('a label of a centre', z3.And(n[0] >= 0, n[0] < d['C'])), ('no other centre nearer', (lambda j: qall([j], z3.Implies(z3.And(j >= 0, j < d['C']), Dist(sel(d['c'], n[0]), sel(d['x'], k)) <= Dist(sel(d['c'], j), sel(d['x'], k))), patterns=[sel(d['c'], j)]))(z3.Int('cj')))]
    return [v[0]], post
@task('C22', 'kmeans', mode=M, contracts={**KNN, **parloops(own)})
def Assign(T):
    f = T.fn(Q + 'PerformSingleClusteringIteration'); d = T.data; data, x = container(T, f['ps'][0], 'data'); cen, c = container(T, f['ps'][1], 'centers'); d.update(C=c.f['len'], c=c.f['arr'], x=x.f['arr']); T.assume(z3.And(c.f['len'] >= 1, c.f['len'] < 2 ** 31), 'at least one centre')
    T.assumptions.append('distance_fn is a function of its arguments, returns no NaN and has no side effects')
    o = T.call(f, None, [data, cen, T.lv(T.ex.ty.strip_ref(f['ps'][2]['t']), T.func('distance_fn', dmodel), 'distance_fn'), par(T, f['ps'][3])]); T.throws_iff(o, z3.BoolVal(False), 'accepted'); r = o.ret; k = T.qv('item')
    T.ensure('one label per item', r.f['len'] == x.f['len']); T.ensure('each a centre nearest to the item', z3.Implies(z3.And(k >= 0, k < x.f['len']), nearest_label(sel(r.f['arr'], k), c.f['arr'], c.f['len'], sel(x.f['arr'], k))))
def same(L):
    ex = L.ex; a, b = [L.read(x) for x in L.params('vec')]; k = z3.Int('k'); i = L.i
    return [('position', z3.And(i >= 0, i <= a.f['len'])), ('equal so far', qall([k], z3.Implies(z3.And(k >= 0, k < i), sel(a.f['arr'], k) == sel(b.f['arr'], k)), patterns=[sel(a.f['arr'], k), sel(b.f['arr'], k)]))]
def eq(a, b, n): k = z3.Int('ek'); return qall([k], z3.Implies(z3.And(k >= 0, k < n), sel(a, k) == sel(b, k)), patterns=[sel(a, k), sel(b, k)])
@task('C22', 'kmeans', mode=M, loops=[same])
def Converged(T):
    f = T.fn(Q + 'CheckForConvergence'); (x, a), (y, b) = container(T, f['ps'][0], 'old'), container(T, f['ps'][1], 'new'); n = a.f['len']; o = T.call(f, None, [x, y]); T.throws_iff(o, n != b.f['len'], 'lists of different lengths are rejected'); k = T.qv('k')
    T.ensure('true only when all labels agree', z3.Implies(z3.And(o.ret, k >= 0, k < n), sel(a.f['arr'], k) == sel(b.f['arr'], k))); T.ensure('true when all labels agree', z3.Implies(eq(a.f['arr'], b.f['arr'], n), o.ret))
def split(L):
    """the items before position i, by label"""
    ex = L.ex; d = ex.task.data; i = L.i; lab = d['lab']; vs = [L.read(v) for v in L.written('vec') if ex.ty.kind(ex.ty.elem(v.tid)) == 'vec']; cd = [v for v in vs if ex.ty.kind(ex.ty.elem(ex.ty.elem(v.tid))) != 'fp'][0]; cw = [v for v in vs if ex.ty.kind(ex.ty.elem(ex.ty.elem(v.tid))) == 'fp'][0]
    k, j = z3.Ints('k j'); g = lambda v, k: ex.ty.unpack(ex.ty.elem(v.tid), sel(v.f['arr'], k)); out = [('position', z3.And(i >= 0, i <= d['n'])), ('one list per cluster', z3.And(cd.f['len'] == d['C'], cw.f['len'] == d['C']))]
    for x in (i, i - 1): ex.fact(qall([k], z3.And(cnt(k, 0) == 0, z3.Implies(x >= 0, cnt(k, x + 1) == cnt(k, x) + z3.If(sel(lab, x) == k, 1, 0))), patterns=[cnt(k, x + 1), cnt(k, x)]))
    inr = z3.And(k >= 0, k < d['C'])
    out.append(('counts grow', qall([k, j], z3.Implies(z3.And(j >= 0, j < i), z3.And(cnt(k, j) >= 0, cnt(k, j) + z3.If(sel(lab, j) == k, 1, 0) <= cnt(k, i))), patterns=[cnt(k, j)])))
    out.append(('counts', qall([k], z3.And(cnt(k, i) >= 0, cnt(k, i) <= i), patterns=[cnt(k, i)])))
    for nm, v, src in (('items', cd, d['x']), ('weights', cw, d['w'])):
        out.append((nm + ' per cluster', qall([k], z3.Implies(inr, g(v, k).f['len'] == cnt(k, i)), patterns=[sel(v.f['arr'], k)])))
        out.append((nm + ' in order', qall([j], z3.Implies(z3.And(j >= 0, j < i), sel(g(v, sel(lab, j)).f['arr'], cnt(sel(lab, j), j)) == sel(src, j)), patterns=[sel(src, j), sel(lab, j)])))
    d['cd'] = cd; return out
def amodel(ex, args, e):
    """the average function is given exactly the items of the cluster of the running work item, in order, with their weights"""
    d = ex.task.data; v, w = [ex.asval(x) for x in args]; k = d['item']; n = d['n']; j = z3.Int('aj'); lab = d['lab']
    for nm, x, src in (('items', v, d['x']), ('weights', w, d['w'])):
        ex.oblige('callee-pre', z3.And(x.f['len'] == cnt(k, n), qall([j], z3.Implies(z3.And(j >= 0, j < n, sel(lab, j) == k), sel(x.f['arr'], cnt(k, j)) == sel(src, j)), patterns=[sel(lab, j)])), e, nm + ' averaged are those of the cluster, in order')
    r = ex.fresh(e['t'] if not ex.ty.kind(e['t']) in ('ref',) else ex.ty.strip_ref(e['t']), 'centre'); ex.assume(Centre(lab, k, r)); return r
def cown(ex, c):
    d = ex.task.data; v = [lv for lv in vars_of(ex, 'vec') if ex.ty.kind(ex.ty.elem(ex.load(lv).tid)) == 'opaque' and lv.root != d['data'].root]
    return [v[-1]], lambda k, o, n: [('the centre of its cluster', Centre(d['lab'], k, n[0]))]
@task('C22', 'kmeans', mode=M, loops=[split], contracts=parloops(cown))
def Centers(T):
    f = T.fn(Q + 'ComputeClusterCentersWeighted'); d = T.data; data, x = container(T, f['ps'][0], 'data'); wts, w = container(T, f['ps'][1], 'weights'); labs, l = container(T, f['ps'][2], 'labels'); C = T.sym(f['ps'][4]['t'], 'num_clusters'); n = x.f['len']; d.update(x=x.f['arr'], w=w.f['arr'], lab=l.f['arr'], n=n, C=C, data=data); k = T.qv('k')
    T.assume(w.f['len'] == n, 'one weight per item'); T.assume(z3.And(C >= 0, qall([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(sel(l.f['arr'], k) >= 0, sel(l.f['arr'], k) < C)), patterns=[sel(l.f['arr'], k)])), 'labels of existing clusters')
    T.assumptions.append('the average function depends on its arguments only (ghost predicate centre_of) and has no side effects')
    o = T.call(f, None, [data, wts, labs, T.lv(T.ex.ty.strip_ref(f['ps'][3]['t']), T.func('average_fn', amodel), 'average_fn'), C, par(T, f['ps'][5])]); T.throws_iff(o, l.f['len'] != n, 'one label per item is required'); r = o.ret
    T.ensure('one centre per cluster', r.f['len'] == C); T.ensure('each the average of its items', z3.Implies(z3.And(k >= 0, k < C), Centre(l.f['arr'], k, sel(r.f['arr'], k))))
# ---- the procedure
def assign_con(ex, c):
    """proved by Assign"""
    d = ex.task.data; x, cen = c.val(0), c.val(1); ex.oblige('callee-pre', z3.And(cen.f['len'] >= 1, cen.f['len'] < 2 ** 31), c.e, 'at least one centre'); ex.oblige('callee-pre', z3.Or(distinct(d, cen), *[z3.And(cen.f['arr'] == r.f['arr'], cen.f['len'] == r.f['len']) for r in d.get('centres', [])]), c.e, 'centres are distinct items or averages of clusters'); r = ex.fresh(c.rettid, 'labels'); k = z3.Int('lk'); ex.assume(r.f['len'] == x.f['len'])
    ex.fact(qall([k], z3.Implies(z3.And(k >= 0, k < x.f['len']), z3.And(Lab(cen.f['arr'], cen.f['len'], sel(x.f['arr'], k), sel(r.f['arr'], k)), sel(r.f['arr'], k) >= 0, sel(r.f['arr'], k) < cen.f['len'])), patterns=[sel(r.f['arr'], k)])); return r
VA = z3.ArraySort(I_, Val); Lab = z3.Function('nearest_label', VA, I_, Val, I_, z3.BoolSort())
def centers_con(ex, c):
    """proved by Centers"""
    x, w, l = c.val(0), c.val(1), c.val(2); C = c.val(4); n = x.f['len']; k = z3.Int('lk'); L = l.f['arr']; ex.oblige('callee-pre', z3.And(w.f['len'] == n, C >= 0, qall([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(sel(L, k) >= 0, sel(L, k) < C)), patterns=[sel(L, k)])), c.e, 'weights and labels of existing clusters'); ex.throw_if(l.f['len'] != n, 'std::invalid_argument', c.e)
    d = ex.task.data; ex.oblige('callee-pre', z3.Or(whole(d, x, w), subset(d, x, w)), c.e, 'items with their own weights'); r = ex.fresh(c.rettid, 'centres'); d.setdefault('centres', []).append(r); ex.assume(r.f['len'] == C); ex.fact(qall([k], z3.Implies(z3.And(k >= 0, k < C, x.f['arr'] == d['x'].f['arr']), Centre(L, k, sel(r.f['arr'], k))), patterns=[sel(r.f['arr'], k)])); return r
def whole(d, x, w): return z3.And(x.f['arr'] == d['x'].f['arr'], x.f['len'] == d['x'].f['len'], w.f['arr'] == d['w'].f['arr'], w.f['len'] == d['w'].f['len'])
def subset(d, x, w):
    f = d.get('picked')
    if f is None: return z3.BoolVal(False)
    k = z3.Int('sk'); return z3.And(x.f['len'] == w.f['len'], qall([k], z3.Implies(z3.And(k >= 0, k < x.f['len']), z3.And(sel(x.f['arr'], k) == sel(d['x'].f['arr'], sel(f, k)), sel(w.f['arr'], k) == sel(d['w'].f['arr'], sel(f, k)))), patterns=[sel(x.f['arr'], k)]))
def conv_con(ex, c):
    """proved by Converged; the predicate centre_of depends on the labels of the items only"""
    a, b = c.val(0), c.val(1); n = a.f['len']; ex.throw_if(n != b.f['len'], 'std::invalid_argument', c.e); r = z3.Const(ex.fresh_id('converged'), z3.BoolSort()); ex.assume(r == eq(a.f['arr'], b.f['arr'], n)) if False else ex.assume(z3.Implies(r, eq(a.f['arr'], b.f['arr'], n)))
    k = z3.Int('ck'); v = z3.Const('cv', Val); ex.fact(z3.Implies(r, qall([k, v], Centre(a.f['arr'], k, v) == Centre(b.f['arr'], k, v), patterns=[Centre(a.f['arr'], k, v), Centre(b.f['arr'], k, v)]))); return r
def self_con(ex, c):
    """recursive call (induction: the nested call does no preliminary clustering itself)"""
    d = ex.task.data; x, w = c.val(0), c.val(1); C = c.val(4); n = x.f['len']; ex.oblige('callee-pre', z3.Or(whole(d, x, w), subset(d, x, w)), c.e, 'items with their own weights'); ex.oblige('callee-pre', z3.And(c.val(6) == False, C * 5 < 2 ** 31), c.e, 'no second preliminary clustering')
    ex.throw_if(z3.And(n > 0, z3.Or(C < 1, n < C)), 'std::invalid_argument', c.e); r = ex.fresh(c.rettid, 'labels'); k = z3.Int('lk'); ex.assume(r.f['len'] == n); ex.fact(qall([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(sel(r.f['arr'], k) >= 0, sel(r.f['arr'], k) < C)), patterns=[sel(r.f['arr'], k)])); return r
def distinct(d, c):
    f = d.get('picked')
    if f is None: return z3.BoolVal(False)
    k, j = z3.Ints('dk dj'); n = d['x'].f['len']; inr = lambda k: z3.And(k >= 0, k < c.f['len'])
    return z3.And(qall([k], z3.Implies(inr(k), z3.And(sel(f, k) >= 0, sel(f, k) < n, sel(c.f['arr'], k) == sel(d['x'].f['arr'], sel(f, k)))), patterns=[sel(c.f['arr'], k)]), z3.ForAll([k, j], z3.Implies(z3.And(inr(k), inr(j), k != j), sel(f, k) != sel(f, j))))
def steps(L):
    """drawing indices without repetition; collecting the items drawn; iterating until the labels are stable"""
    ex = L.ex; d = ex.task.data; k = z3.Int('key'); X = d['x'].f; n = X['len']; C = d['C']
    def has(kind):
        try: return L.written(kind)
        except Unsupported: return []
    if has('map'):
        m = L.read(has('map')[0])
        return [('indices of items', qall([k], z3.Implies(sel(m.f['has'], k), z3.And(k >= 0, k < n, sel(m.f['val'], k) == 1)), patterns=[sel(m.f['has'], k)])), ('size', m.f['size'] >= 0), ('no more than wanted', m.f['size'] <= d['want']), ('there are that many items', d['want'] <= n)]
    vs = has('vec'); items = [v for v in vs if ex.ty.kind(ex.ty.elem(v.tid)) == 'opaque']; w = [v for v in vs if ex.ty.kind(ex.ty.elem(v.tid)) == 'fp']; labs = [v for v in vs if ex.ty.kind(ex.ty.elem(v.tid)) == 'int']
    if labs:
        c, l = L.read(items[0]), L.read(labs[0]); conv = L.read([v for v in L.locals('bool') if any(v.root == r for r, _ in L.extra.get('written', []))][0]); i = z3.Int('li')
        for v in has('int'): ex.fact(L.read(v) < 2 ** 31 - 1)
        Lr, cr = l.f['arr'], c.f['arr']
        d.setdefault('states', []).append((conv, c))
        return [('one label per item', l.f['len'] == n), ('labels of clusters', qall([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(sel(Lr, i) >= 0, sel(Lr, i) < C)), patterns=[sel(Lr, i)])),
                ('when done: centres are the averages of the clusters', z3.Implies(conv, qall([k], z3.Implies(z3.And(k >= 0, k < C), Centre(Lr, k, sel(cr, k))), patterns=[sel(cr, k)]))), ('when done: labels are nearest', z3.Implies(conv, z3.And(c.f['len'] == C, qall([i], z3.Implies(z3.And(i >= 0, i < n), Lab(cr, C, sel(X['arr'], i), sel(Lr, i))), patterns=[sel(Lr, i)]))))]
    m = L.read(L.locals('map')[-1]); keys, size = ex.lib.enumerate_keys(ex, m); d['picked'] = keys; i = L.i; out = [('position', z3.And(i >= 0, i <= size))]
    for v, src in [(v, X) for v in items] + [(v, d['w'].f) for v in w]:
        x = L.read(v).f; out += [('collected', x['len'] == i), ('those drawn', qall([k], z3.Implies(z3.And(k >= 0, k < i), sel(x['arr'], k) == sel(src['arr'], sel(keys, k))), patterns=[sel(x['arr'], k)]))]
    return out
def final(ex, states):
    """the centres at the loop's exit: those of the arbitrary loop state (the state before the one after the body)"""
    live = [x for x in states if z3.is_const(x[0]) and x[0].decl().kind() == z3.Z3_OP_UNINTERPRETED]; return live[max(0, len(live) - 2)][1]
@task('C22', 'kmeans', mode=M, loops=[steps] * 5, contracts={Q + 'PerformSingleClusteringIteration': assign_con, Q + 'ComputeClusterCentersWeighted': centers_con, Q + 'CheckForConvergence': conv_con, Q + 'ClusterWeighted': self_con})
def Procedure(T):
    ex = T.ex; f = T.fn(Q + 'ClusterWeighted'); d = T.data; ps = f['ps']; data, x = container(T, ps[0], 'data'); wts, w = container(T, ps[1], 'weights'); C = T.sym(ps[4]['t'], 'num_clusters'); n = x.f['len']; T.assume(w.f['len'] == n, 'one weight per item'); T.assume(z3.And(C * 5 < 2 ** 31, C * 5 >= -2 ** 31), 'fewer than 2^31 / 5 clusters'); pre = T.sym(ps[6]['t'], 'preliminary')
    eighth = z3.ToReal(n) / 8; sub = -z3.ToInt(-eighth); d.update(x=x, w=w, C=C, want=z3.If(z3.And(pre, sub >= C * 5), sub, z3.If(C < 0, 0, C)))
    T.assumptions.append('average and distance functions depend on their arguments only and have no side effects; termination of the random drawing with probability one (as many distinct indices as are wanted exist: proved); fewer than 2^31 - 1 iterations')
    o = T.call(f, None, [data, wts, T.lv(ex.ty.strip_ref(ps[2]['t']), T.func('distance_fn', None), 'd'), T.lv(ex.ty.strip_ref(ps[3]['t']), T.func('average_fn', None), 'a'), C, T.sym(ps[5]['t'], 'seed'), pre, par(T, ps[7]), T.lv(ex.ty.strip_ref(ps[8]['t']), T.func('log', lambda ex, a, e: None, z3.Const('no_logger', z3.BoolSort())), 'log')])
    T.throws_iff(o, z3.And(n > 0, z3.Or(C < 1, C > n)), 'cluster counts that are not positive or exceed the number of items are rejected'); r = o.ret; k = T.qv('item'); L = r.f['arr']
    T.cover('clusters', z3.And(n == 4, C == 2)); T.cover('preliminary', z3.And(pre, n > 300, C == 2))
    T.ensure('one label per item', r.f['len'] == n); T.ensure('of one of the clusters', z3.Implies(z3.And(k >= 0, k < n), z3.And(sel(L, k) >= 0, sel(L, k) < C)))
    T.ensure('iterated until stable', z3.BoolVal('states' in d))
    if 'states' in d:
        c = final(ex, d['states']).f; T.ensure('the last centres are the averages of the clusters returned', z3.Implies(z3.And(n > 0, C > 1, k >= 0, k < C), z3.And(c['len'] == C, Centre(L, k, sel(c['arr'], k))))); T.ensure('every label is nearest among them', z3.Implies(z3.And(n > 0, C > 1, k >= 0, k < n), Lab(c['arr'], C, sel(x.f['arr'], k), sel(L, k))))
@task('C22', 'kmeans', mode=M, contracts={Q + 'ClusterWeighted': lambda ex, c: unweighted(ex, c)})
def Unweighted(T):
    """Cluster passes its arguments on, with equal weights and the average function"""
    ex = T.ex; f = T.fn(Q + 'Cluster'); d = T.data; ps = f['ps']; data, x = container(T, ps[0], 'data'); C = T.sym(ps[3]['t'], 'num_clusters'); seed = T.sym(ps[4]['t'], 'seed'); pre = T.sym(ps[5]['t'], 'preliminary'); A = z3.Function('average', VA, I_, Val); p = par(T, ps[6]); d.update(x=x, C=C, seed=seed, pre=pre, p=T.val(p), A=A)
    av = lambda ex, a, e: A(ex.asval(a[0]).f['arr'], ex.asval(a[0]).f['len']); lg = lambda ex, a, e: None
    o = T.call(f, None, [data, T.lv(ex.ty.strip_ref(ps[1]['t']), T.func('distance_fn', dmodel), 'd'), T.lv(ex.ty.strip_ref(ps[2]['t']), T.func('average_fn', av), 'a'), C, seed, pre, p, T.lv(ex.ty.strip_ref(ps[7]['t']), T.func('log', lg, z3.Const('no_logger', z3.BoolSort())), 'log')])
    T.ensure('the labels of the weighted procedure', o.ret.f['arr'] == d['res'].f['arr']); T.ensure('their number', o.ret.f['len'] == d['res'].f['len'])
def unweighted(ex, c):
    d = ex.task.data; x, w = c.val(0), c.val(1); k = z3.Int('wk'); ob = lambda g, n: ex.oblige('callee-pre', g, c.e, n)
    ob(z3.And(x.f['arr'] == d['x'].f['arr'], x.f['len'] == d['x'].f['len'], c.val(4) == d['C'], c.val(5) == d['seed'], c.val(6) == d['pre'], c.val(7).f['num_threads_'] == d['p'].f['num_threads_']), 'arguments are passed on'); ob(z3.And(w.f['len'] == x.f['len'], qall([k], z3.Implies(z3.And(k >= 0, k < w.f['len']), sel(w.f['arr'], k) == 1), patterns=[sel(w.f['arr'], k)])), 'equal weights, one per item')
    v = ex.fresh(x.tid, 'cluster'); lv = ex.new_root(x.tid, v, 'cluster'); wl = ex.new_root(w.tid, w, 'weights'); r = ex.asval(ex.invoke(c.args[3], [lv, wl], c.e)); ob(r == d['A'](v.f['arr'], v.f['len']), 'average of the items'); a, b = z3.Const('p1', Val), z3.Const('p2', Val)
    y = [ex.new_root(ex.ty.elem(x.tid), z, 'item') for z in (a, b)]; ob(ex.asval(ex.invoke(c.args[2], y, c.e)) == Dist(a, b), 'the distance function is passed on'); d['res'] = ex.fresh(c.rettid, 'labels'); return d['res']
