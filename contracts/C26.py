from vc.task import *
from common import *
import C13 as c13; REG.pop('C13', None)
from C13 import View, has, IL, OL, fro, to, same, wf, inr, graph, same_edges, I_
Q = NSP + 'simple_prm_planner::'; G_ = 'Graph<tu::Val>::'; M = {'opaque': ['tu::Val']}; R_ = z3.RealSort(); B_ = z3.BoolSort()
Val = z3.DeclareSort('S_tu::Val'); Dist = z3.Function('distance', Val, Val, R_); Valid = z3.Function('edge_valid', Val, Val, B_); StateOk = z3.Function('state_valid', Val, B_)
def dist(ex, a, e): r = Dist(*[ex.asval(x) for x in a]); ex.assume(z3.And(r >= 0, r <= ex.inf())); return r
def valid(ex, a, e): return Valid(*[ex.asval(x) for x in a[1:]])
def setup_fns(T, ps):
    """distance and edge check: functions of their states; distances are not negative (infinity allowed, no NaN)"""
    x, y = z3.Const('dx', Val), z3.Const('dy', Val); T.assume(qall([x, y], z3.And(Dist(x, y) >= 0, Dist(x, y) <= T.ex.inf()), patterns=[Dist(x, y)]), 'distances are not negative and no NaN'); T.assumptions.append('distance and edge checks are functions of the states given')
    out = {}
    for p in ps:
        t = T.ex.ty.strip_ref(p['t'])
        if p['n'] == 'distance_fn': out[p['n']] = T.lv(t, T.func('distance_fn', dist), p['n'])
        if p['n'] == 'edge_validity_check_fn': out[p['n']] = T.lv(t, T.func('edge_validity', valid), p['n'])
    return out
def nn(ex, v): et = ex.ty.elem(v.tid); return lambda k: (lambda f: (f['index_'], f['distance_']))(ex.ty.unpack(et, sel(v.f['arr'], k)).f)
def ranges_ok(ex, v, n, mx): k = z3.Int('nk'); f = nn(ex, v); return qall([k], z3.Implies(z3.And(k >= 0, k < v.f['len']), z3.And(f(k)[0] >= 0, f(k)[0] < n, f(k)[0] < mx)), patterns=[sel(v.f['arr'], k)])
def doknn(ex, c):
    """a provider's own search: any answer"""
    d = ex.task.data; r = ex.fresh(c.rettid, 'nearest'); ex.assume(z3.And(r.f['len'] >= 0, r.f['len'] <= 2 ** 40)); d['knn'] = r; d['args'] = [c.val(i) for i in range(len(c.args))]; return r
def sanity(L):
    ex = L.ex; d = ex.task.data; i = L.i; v = d['knn']; f = nn(ex, v); k = z3.Int('k'); n, mx = d['n'], d['max']; return [('position', z3.And(i >= 0, i <= v.f['len'])), ('neighbours so far', qall([k], z3.Implies(z3.And(k >= 0, k < i), z3.And(f(k)[0] >= 0, f(k)[0] < n, f(k)[0] < mx)), patterns=[sel(v.f['arr'], k)]))]
@task('C26', 'prm', mode=M, loops=[sanity, sanity], contracts={Q + 'GraphKNNProvider<tu::Val, common_robotics_utilities::simple_graph::Graph<tu::Val>>::DoGetKNearestNeighbors': doknn, 'common_robotics_utilities::simple_graph::NonOwningGraphOverlay<tu::Val, common_robotics_utilities::simple_graph::Graph<tu::Val>>::Size': lambda ex, c: ex.task.data['n']})
def Provider(T):
    """neighbours outside the part of the roadmap asked about are rejected, whatever the provider"""
    ex = T.ex
    for f in T.fns('GraphKNNProvider<tu::Val, common_robotics_utilities::simple_graph::Graph<tu::Val>>::GetKNearestNeighbors'):
        ps = f['ps']; d = T.data; g = T.obj(ex.ty.strip_ref(ps[0]['t']), 'roadmap'); plain = 'nodes_' in T.val(g).f; d['n'] = View(ex, T.val(g)).n if plain else T.qv('size'); a = [g] + [T.obj(ex.ty.strip_ref(p['t']), p['n']) if ex.ty.kind(p['t']) == 'ref' else T.sym(p['t'], p['n']) for p in ps[1:]]; d['max'] = a[4]; K = a[2]
        o = T.call(f, T.obj(f['cls'], 'provider'), a); v = d['knn']; k = T.qv('k'); i = nn(ex, v)(k)[0]; T.throws_iff(o, z3.Not(ranges_ok(ex, v, d['n'], d['max'])), 'rejected exactly when a neighbour is outside the part of the roadmap')
        T.ensure('the answer of the provider', z3.And(same(ex, o.ret, v))); T.ensure('asked what the caller asked', z3.And(d['args'][2] == K, d['args'][3] == a[3], d['args'][4] == a[4])); T.cover('neighbours', o.ret.f['len'] == 2)
# ---- the linear provider
def linear_con(ex, c):
    """k-nearest-neighbour search over the adapter: proved for std::vector under C18; here: the adapter offers the nodes asked about, with the distance in the direction asked"""
    d = ex.task.data; T = ex.task; a = c.args[0]; a = a if isinstance(a, LVal) else ex.new_root(c.f['ps'][0]['t'] if False else a.tid, a, 'adapter'); V = d['V']; AD = NSP + 'simple_graph::GraphKNNAdapter<common_robotics_utilities::simple_graph::Graph<tu::Val>>::'; fn = lambda n: [f for f in T.ex.ast['functions'] if f['q'] == AD + n][0]
    sz = ex.call(fn('size'), a, [], c.e); ex.oblige('post', sz == d['max'], c.e, 'searched: the part of the roadmap asked about'); i = z3.Const(ex.fresh_id('i'), I_); ex.assume(z3.And(i >= 0, i < d['max'])); node = ex.call(fn('operator[]'), a, [i], c.e); ex.oblige('post', ex.load(node).f['value_'] == V.node(i).f['value_'], c.e, 'item i is node i')
    q = c.args[1] if isinstance(c.args[1], LVal) else ex.new_root(-1, c.val(1)); r = ex.invoke(ex.asval(c.args[2]), [node, q], c.e); x, y = V.node(i).f['value_'], d['state']; ex.oblige('post', r == z3.If(d['dir'] == 0, Dist(x, y), Dist(y, x)), c.e, 'distance in the direction asked'); ex.oblige('post', z3.And(c.val(1) == d['state'], c.val(3) == d['K']), c.e, 'query and K passed on')
    d['found'] = ex.fresh(c.rettid, 'found'); return d['found']
SK = NSP + 'simple_knearest_neighbors::GetKNearestNeighbors'
@task('C26', 'prm', mode=M, contracts={SK: linear_con})
def Linear(T):
    ex = T.ex
    for f in [f for f in T.fns('LinearGraphKNNProvider<tu::Val, common_robotics_utilities::simple_graph::Graph<tu::Val>>::DoGetKNearestNeighbors') if ex.ty.name(ex.ty.strip_ref(f['ps'][0]['t'])).find('Overlay') < 0]:
        ps = f['ps']; d = T.data; g = graph(T, ex.ty.strip_ref(ps[0]['t'])); V = d['V'] = View(ex, T.val(g)); st = T.obj(ex.ty.strip_ref(ps[1]['t']), 'state'); K, dr, mx = [T.sym(p['t'], p['n']) for p in ps[2:]]; d.update(state=T.val(st), K=K, dir=dr, max=mx); T.assume(z3.And(dr >= 0, dr <= 1)); T.assume(z3.And(V.n >= 0, V.n <= 2 ** 48)); this = T.obj(f['cls'], 'provider'); s = T.val(this); ex.store(this, Struct(s.tid, dict(s.f, distance_fn_=T.func('distance_fn', dist))))
        o = T.call(f, this, [g, st, K, dr, mx]); T.throws_iff(o, z3.Or(mx < 0, mx > V.n), 'rejected exactly when asked about nodes that do not exist'); T.ensure('answer of the search', same(ex, o.ret, d['found']))
# ---- adding a state
def edge_con(ex, c):
    """AddEdgeBetweenNodes, proved under C13 (AddOneWay)"""
    d = ex.task.data; g = ex.load(c.this); V = View(ex, g); a, b, w = c.val(0), c.val(1), c.val(2); ex.throw_if(mkNot(z3.And(inr(a, V), inr(b, V), a != b)), 'std::exception', c.e)
    A = z3.Const(ex.fresh_id('with_edge'), V.arr.sort()); nv = Struct(V.nv.tid, dict(V.nv.f, arr=A)); V1 = View(ex, Struct(g.tid, dict(g.f, nodes_=nv))); j = z3.Const(ex.fresh_id('j'), I_); ex.fact(qall([j], z3.Implies(z3.And(j != a, j != b), sel(A, j) == sel(V.arr, j)), patterns=[sel(A, j)])); al = lambda x, y: z3.And(x.f['arr'] == y.f['arr'], x.f['len'] == y.f['len'])
    F = []; rec = lambda f: (ex.assume(f), F.append(mkImp(ex.pcf(), f)))
    for x, w1, w0, p, q in ((a, OL, IL, a, b), (b, IL, OL, a, b)):
        k = z3.Const(ex.fresh_id('k'), I_); n = V.len(x, w1); rec(z3.And(V1.node(x).f['value_'] == V.node(x).f['value_'], al(V1.edges(x, w0), V.edges(x, w0)), V1.len(x, w1) == n + 1, is_edge(V1.edge(x, w1, n), a, b, w))); rec(qall([k], z3.Implies(z3.And(k >= 0, k < n), sel(V1.edges(x, w1).f['arr'], k) == sel(V.edges(x, w1).f['arr'], k)), patterns=[sel(V1.edges(x, w1).f['arr'], k)]))
    ex.store(c.this, Struct(g.tid, dict(g.f, nodes_=nv))); d.setdefault('ops', []).append((V, V1, F)); return None
def knn_con(ex, c):
    """GetKNearestNeighbors of a provider (task Provider: in range or rejected); assumed of the provider: no node twice, distances as computed by the distance function in the direction asked (task Linear, C18)"""
    d = ex.task.data; V = View(ex, ex.load(c.args[0])); st = c.val(1); dr = c.val(3); mx = c.val(4); r = ex.fresh(c.rettid, 'nearest'); n = r.f['len']; f = nn(ex, r); k, j = z3.Const(ex.fresh_id('nk'), I_), z3.Const(ex.fresh_id('nj'), I_); pos = z3.Function(ex.fresh_id('place'), I_, I_)
    ex.assume(z3.And(n >= 0, n <= 2 ** 40)); val = lambda i: V.node(i).f['value_']
    ex.fact(qall([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(f(k)[0] >= 0, f(k)[0] < V.n, f(k)[0] < mx, pos(f(k)[0]) == k, f(k)[1] == z3.If(dr == 0, Dist(val(f(k)[0]), st), Dist(st, val(f(k)[0]))))), patterns=[sel(r.f['arr'], k)])); d.update(nns=r, pos=pos, dir=dr, st=st, V0=V, n0=V.n, knnK=c.val(2), knnmax=mx); return r
def nb(ex, k): return nn(ex, ex.task.data['nns'])(k)[0]
def into(d, k): x = d['V0'].node(nb(d['ex'], k)).f['value_']; return z3.If(Valid(x, d['st']), Dist(x, d['st']), -1)
def outof(d, k): x = d['V0'].node(nb(d['ex'], k)).f['value_']; return z3.If(Valid(d['st'], x), Dist(d['st'], x), -1)
def pairs_spec(ex, c):
    """element k: distance of the edge from neighbour k and of the edge to it, -1 where the check failed"""
    d = ex.task.data; v = [lv for lv in vars_of(ex, 'vec') if ex.ty.kind(ex.ty.elem(lv.tid)) not in ('int', 'vec', 'float') and '/'.join(n for n, _ in ex.ty.fields(ex.ty.elem(lv.tid))) == 'first/second'][-1:]
    if not v: raise Unsupported('no vector of distance pairs')
    et = ex.ty.elem(v[0].tid); un = lambda x: ex.ty.unpack(et, x).f; d['pairs'] = v[0]; return v, lambda k, o, n: [('distances of both edges', z3.And(un(n[0])['first'] == into(d, k), un(n[0])['second'] == outof(d, k)))]
def dup(L):
    ex = L.ex; d = ex.task.data; i = L.i; r = d['nns']; k = z3.Int('k'); return [('position', z3.And(i >= 0, i <= r.f['len'])), ('no duplicate so far', qall([k], z3.Implies(z3.And(k >= 0, k < i), nn(ex, r)(k)[1] != 0), patterns=[sel(r.f['arr'], k)]))]
def is_edge(e, a, b, w): return z3.And(fro(e) == a, to(e) == b, e['weight_'] == w, e['scratchpad_'] == 0)
def new_lists(d, V, i):
    """edge lists of the new node after i neighbours: one entry per valid edge, in order"""
    k, q = z3.Ints('lk lq'); ok = []
    for w, f, cnt, org in ((IL, into, d['cin'], d['oin']), (OL, outof, d['cout'], d['oout'])):
        ends = (lambda k: (nb(d['ex'], k), d['n0'])) if w == IL else (lambda k: (d['n0'], nb(d['ex'], k))); x = V.edge(d['n0'], w, q); o = org(q)
        ok += [('number of new ' + w, V.len(d['n0'], w) == cnt(i)), ('new ' + w, qall([q], z3.Implies(z3.And(q >= 0, q < cnt(i)), z3.And(o >= 0, o < i, cnt(o) == q, f(d, o) >= 0, is_edge(x, *ends(o), f(d, o)))), patterns=[sel(V.edges(d['n0'], w).f['arr'], q), org(q)])), ('counts ' + w, z3.And(cnt(i) >= 0, qall([k], z3.Implies(z3.And(k >= 0, k < i, f(d, k) >= 0), z3.And(cnt(k) >= 0, cnt(k) < cnt(i), org(cnt(k)) == k)), patterns=[cnt(k)])))]
    return ok
def ext(V0, V, j, w, has_, a, b, wt):
    """list w of node j: the old one, followed by one edge if has_"""
    k = z3.Int('ek'); n = V0.len(j, w); return z3.And(V.len(j, w) == n + z3.If(has_, 1, 0), z3.Implies(has_, is_edge(V.edge(j, w, n), a, b, wt)), qall([k], z3.Implies(z3.And(k >= 0, k < n), sel(V.edges(j, w).f['arr'], k) == sel(V0.edges(j, w).f['arr'], k)), patterns=[sel(V.edges(j, w).f['arr'], k)]))
def listed(d, j, i): p = d['pos'](j); return z3.And(p >= 0, p < i, nb(d['ex'], p) == j)
def recur(ex, d, i):
    for cnt, org, f in ((d['cin'], d['oin'], into), (d['cout'], d['oout'], outof)):
        ex.fact(cnt(0) == 0)
        for x in (i, i - 1): ex.fact(z3.Implies(x >= 0, z3.And(cnt(x + 1) == cnt(x) + z3.If(f(d, x) >= 0, 1, 0), z3.Implies(f(d, x) >= 0, org(cnt(x)) == x))))
def connect(L):
    ex = L.ex; d = ex.task.data; i = L.i; V0 = d['V0']; V = View(ex, L.read(d['g'])); j, k = z3.Ints('j k'); recur(ex, d, i); nbp = d['pos'](j)
    return [('position', z3.And(i >= 0, i <= d['nns'].f['len'])), ('nodes', V.n == d['n0'] + 1), ('new state', V.node(d['n0']).f['value_'] == d['st']), ('nodes not yet connected', qall([j], z3.Implies(z3.And(j >= 0, j < d['n0'], z3.Not(listed(d, j, i))), sel(V.arr, j) == sel(V0.arr, j)), patterns=[sel(V.arr, j)])),
            ('connected nodes: value', qall([j], z3.Implies(z3.And(j >= 0, j < d['n0'], listed(d, j, i)), V.node(j).f['value_'] == V0.node(j).f['value_']), patterns=[sel(V.arr, j)])), ('connected nodes: out-edges', qall([j], z3.Implies(z3.And(j >= 0, j < d['n0'], listed(d, j, i)), ext(V0, V, j, OL, into(d, nbp) >= 0, j, d['n0'], into(d, nbp))), patterns=[sel(V.arr, j)])), ('connected nodes: in-edges', qall([j], z3.Implies(z3.And(j >= 0, j < d['n0'], listed(d, j, i)), ext(V0, V, j, IL, outof(d, nbp) >= 0, d['n0'], j, outof(d, nbp))), patterns=[sel(V.arr, j)]))] + new_lists(d, V, i)
def one_neighbour(H, L):
    """what one iteration does, step by step"""
    ex = L.ex; d = ex.task.data; i = H.i; V0 = d['V0']; Vp, V = View(ex, H.read(d['g'])), View(ex, L.read(d['g'])); b = nb(ex, i); n0 = d['n0']; j = z3.Const(ex.fresh_id('j'), I_); recur(ex, d, i); f, g = into(d, i), outof(d, i)
    (A, B) = d['ops'][-2:]; mid = A[1] if False else B[0]; T = ex.task
    yield ('neighbour not connected before', z3.And(b >= 0, b < n0, d['pos'](b) == i, sel(Vp.arr, b) == sel(V0.arr, b)))
    pv = ex.ty.unpack(ex.ty.elem(d['pairs'].tid), sel(H.read(d['pairs']).f['arr'], i)).f; yield ('distances computed', z3.And(pv['first'] == f, pv['second'] == g)); df = lambda x: [h for h in ex.facts if z3.is_and(h) and all(z3.is_implies(q) and z3.is_eq(q.arg(1)) and q.arg(1).arg(0).eq(x) for q in h.children())]; yield ('after the first edge', mid.arr == z3.If(f >= 0, A[1].arr, Vp.arr), [T.named('distances computed')] + df(mid.arr)); yield ('after the second edge', V.arr == z3.If(g >= 0, B[1].arr, mid.arr), [T.named('distances computed')] + df(V.arr))
    for nm, x in (('neighbour', b), ('new node', n0)): yield ('after the first edge: ' + nm, sel(mid.arr, x) == z3.If(f >= 0, sel(A[1].arr, x), sel(Vp.arr, x)), [T.named('after the first edge')]); yield ('after the second edge: ' + nm, sel(V.arr, x) == z3.If(g >= 0, sel(B[1].arr, x), sel(mid.arr, x)), [T.named('after the second edge')])
    yield ('other nodes stay', qall([j], z3.Implies(z3.And(j != b, j != n0), sel(V.arr, j) == sel(Vp.arr, j)), patterns=[sel(V.arr, j)])); yield ('neighbour: value', V.node(b).f['value_'] == V0.node(b).f['value_']); yield ('new node: value', V.node(n0).f['value_'] == Vp.node(n0).f['value_'])
    yield ('first edge is added', z3.Implies(f >= 0, z3.And(*[x.arg(0) for x in A[2] if z3.is_implies(x)]))); yield ('second edge is added', z3.Implies(g >= 0, z3.And(*[x.arg(0) for x in B[2] if z3.is_implies(x)]))); yield ('size of the roadmap', z3.And(n0 >= 0, n0 <= 2 ** 48)); N = T.named; base = [N('size of the roadmap'), N('distances computed'), N('neighbour not connected before'), N('position'), N('first edge is added'), N('second edge is added')] + A[2] + B[2]
    base1 = base + [N('after the first edge: neighbour')]; yield ('neighbour: out-edges, first', ext(V0, mid, b, OL, f >= 0, b, n0, f), base1); yield ('neighbour: in-edges, first', ext(V0, mid, b, IL, z3.BoolVal(False), n0, b, g), base1); base2 = base + [N('after the second edge: neighbour'), N('neighbour: out-edges, first'), N('neighbour: in-edges, first')]; yield ('neighbour: out-edges', ext(V0, V, b, OL, f >= 0, b, n0, f), base2); yield ('neighbour: in-edges', ext(V0, V, b, IL, g >= 0, n0, b, g), base2); yield ('new node: in-edges', ext(Vp, V, n0, IL, f >= 0, b, n0, f)); yield ('new node: out-edges', ext(Vp, V, n0, OL, g >= 0, n0, b, g))
    yield ('nodes connected before', qall([j], z3.Implies(z3.And(j >= 0, j < n0, j != b), listed(d, j, i + 1) == listed(d, j, i)), patterns=[d['pos'](j)])); inv = dict(connect(L))
    for nm, own in (('value', 'neighbour: value'), ('out-edges', 'neighbour: out-edges'), ('in-edges', 'neighbour: in-edges')): yield ('after: connected nodes: ' + nm, inv['connected nodes: ' + nm], [N('connected nodes: ' + nm), N(own), N('other nodes stay'), N('nodes connected before'), N('neighbour not connected before'), N('position')])
connect.lemmas = one_neighbour
GK = Q + 'GraphKNNProvider<tu::Val, common_robotics_utilities::simple_graph::Graph<tu::Val>>::GetKNearestNeighbors'
SG = NSP + 'simple_graph::Graph<tu::Val>::'
@task('C26', 'prm', mode=M, loops=[dup, connect], contracts={GK: knn_con, SG + 'AddEdgeBetweenNodes': edge_con, **parloops(pairs_spec)})
def AddState(T):
    ex = T.ex; f = [f for f in T.fns(Q + 'AddNodeToRoadmap') if 'Overlay' not in ex.ty.name(ex.ty.strip_ref(f['ps'][2]['t']))][0]; ps = f['ps']; d = T.data; g = graph(T, ex.ty.strip_ref(ps[2]['t']), 'roadmap'); V0 = View(ex, T.val(g)); d['ex'] = ex; d['g'] = g; fns = setup_fns(T, ps); st = T.obj(ex.ty.strip_ref(ps[0]['t']), 'state')
    T.assume(c13.linked(V0), 'the roadmap is linked'); T.assume(z3.And(V0.n >= 0, V0.n <= 2 ** 48), 'roadmaps of at most 2^48 nodes'); d.update({n: z3.Function(n, I_, I_) for n in ('cin', 'oin', 'cout', 'oout')})
    par = T.obj(ex.ty.strip_ref(ps[8]['t']), 'parallelism'); T.assume(T.val(par).f['num_threads_'] >= 1, 'DegreeOfParallelism class invariant (num_threads >= 1)'); dr, K, mx, sym_, add = [T.sym(ps[i]['t'], ps[i]['n']) for i in (1, 6, 7, 9, 10)]; x, y = z3.Const('sx', Val), z3.Const('sy', Val); T.assume(z3.And(dr >= 0, dr <= 1)); T.assume(z3.Implies(sym_, qall([x, y], z3.And(Dist(x, y) == Dist(y, x), Valid(x, y) == Valid(y, x)), patterns=[Dist(x, y), Valid(x, y)])), 'distance and edge check are symmetric when the caller says so')
    o = T.call(f, None, [st, dr, g, T.obj(ex.ty.strip_ref(ps[3]['t']), 'graph_knn'), fns['distance_fn'], fns['edge_validity_check_fn'], K, mx, par, sym_, add]); T.never_throws(o); r = o.ret; V1 = View(ex, T.val(g)); n0 = V0.n; m = d['nns'].f['len']; k, j, e = T.qv('k'), T.qv('j'), T.qv('e'); zero = lambda k: z3.And(k >= 0, k < m, nn(ex, d['nns'])(k)[1] == 0); kept = V1.n == n0; d['done'] = V1
    T.ensure('the search asked for', z3.And(d['knnK'] == K, d['knnmax'] == mx, d['dir'] == dr, d['st'] == T.val(st))); T.ensure('either unchanged or one node more', z3.Or(z3.And(kept, same(ex, View(ex, T.val(g)).nv, V0.nv)), V1.n == n0 + 1)); T.ensure('unchanged: a neighbour at distance zero was returned and duplicates are not wanted', z3.Implies(kept, z3.And(z3.Not(add), inr(r, V0), r < mx, z3.Or(z3.And(dr == 0, Dist(V0.node(r).f['value_'], T.val(st)) == 0), z3.And(dr == 1, Dist(T.val(st), V0.node(r).f['value_']) == 0)))))
    T.ensure('grown: duplicates are wanted or no neighbour is at distance zero', z3.Implies(z3.And(z3.Not(kept), z3.Not(add)), z3.Not(zero(k)))); T.ensure('grown: index and state of the new node', z3.Implies(z3.Not(kept), z3.And(r == n0, V1.node(n0).f['value_'] == T.val(st)))); T.ensure('states given stay', z3.Implies(inr(j, V0), V1.node(j).f['value_'] == V0.node(j).f['value_']))
    for w in (IL, OL):
        x = V1.edge(j, w, e); a, b = V1.node(fro(x)).f['value_'], V1.node(to(x)).f['value_']; other = fro(x) if w == IL else to(x); mine = to(x) if w == IL else fro(x); old = z3.And(j < n0, e < V0.len(j, w)); had = has(V1, j, w, e)
        T.ensure('edges given stay: ' + w, z3.Implies(z3.And(had, old), sel(V1.edges(j, w).f['arr'], e) == sel(V0.edges(j, w).f['arr'], e))); T.lemma('one end is the new node: ' + w, z3.Implies(z3.And(had, z3.Not(old)), z3.And(mine == j, z3.Or(z3.And(j == n0, other >= 0, other < n0, other < mx), z3.And(other == n0, j >= 0, j < n0))))); T.ensure('every edge added passed the check in its own direction: ' + w, z3.Implies(z3.And(had, z3.Not(old)), Valid(a, b))); T.ensure('and carries the distance for that direction: ' + w, z3.Implies(z3.And(had, z3.Not(old)), x['weight_'] == Dist(a, b))); T.ensure('and joins the new node with one of its neighbours: ' + w, z3.Implies(z3.And(had, z3.Not(old)), z3.Or(z3.And(j == n0, listed(d, other, m)), z3.And(other == n0, listed(d, j, m)))))
    wi = z3.If(z3.Or(j == n0, e >= V0.len(j, IL)), z3.If(j == n0, V0.len(fro(V1.edge(j, IL, e)), OL), d['cout'](d['pos'](j))), V0.win(j, e)); wo = z3.If(z3.Or(j == n0, e >= V0.len(j, OL)), z3.If(j == n0, V0.len(to(V1.edge(j, OL, e)), IL), d['cin'](d['pos'](j))), V0.wout(j, e))
    for nm, cnd in (('new node', j == n0), ('edges added', z3.And(j < n0, e >= V0.len(j, IL))), ('edges given', z3.And(j < n0, e < V0.len(j, IL)))): T.ensure('linked: in-edges, ' + nm, z3.Implies(z3.And(z3.Not(kept), cnd, has(V1, j, IL, e)), c13.okin(V1, j, e, wi)))
    for nm, cnd in (('new node', j == n0), ('edges added', z3.And(j < n0, e >= V0.len(j, OL))), ('edges given', z3.And(j < n0, e < V0.len(j, OL)))): T.ensure('linked: out-edges, ' + nm, z3.Implies(z3.And(z3.Not(kept), cnd, has(V1, j, OL, e)), c13.okout(V1, j, e, wo)))
    a = nb(ex, k); ok = z3.And(z3.Not(kept), k >= 0, k < m); st_ = T.val(st); av = V0.node(a).f['value_']
    T.ensure('every neighbour that can be reached from is connected', z3.Implies(z3.And(ok, Valid(av, st_)), z3.And(V1.len(a, OL) == V0.len(a, OL) + 1, to(V1.edge(a, OL, V0.len(a, OL))) == n0))); T.ensure('every neighbour that can be reached is connected', z3.Implies(z3.And(ok, Valid(st_, av)), z3.And(V1.len(a, IL) == V0.len(a, IL) + 1, fro(V1.edge(a, IL, V0.len(a, IL))) == n0)))
    T.cover('connected', z3.And(m == 2, V1.n == 4, V1.len(3, IL) == 2))
# ---- re-evaluating every edge
def W(V, a, b): x, y = V.node(a).f['value_'], V.node(b).f['value_']; return z3.If(Valid(x, y), Dist(x, y), V.ex.inf())
def same_shape(A, B):
    """same nodes and edges, except for the weights"""
    ex = A.ex; j, e = z3.Const(ex.fresh_id('j'), I_), z3.Const(ex.fresh_id('e'), I_); out = [('nodes', B.n == A.n), ('states', qall([j], z3.Implies(z3.And(j >= 0, j < A.n), B.node(j).f['value_'] == A.node(j).f['value_']), patterns=[sel(B.arr, j)]))]
    for w in (IL, OL):
        x, y = A.edge(j, w, e), B.edge(j, w, e); out += [('number of ' + w, qall([j], z3.Implies(z3.And(j >= 0, j < A.n), B.len(j, w) == A.len(j, w)), patterns=[sel(B.arr, j)])), ('ends and scratchpads of ' + w, qall([j, e], z3.Implies(has(A, j, w, e), z3.And(fro(x) == fro(y), to(x) == to(y), x['scratchpad_'] == y['scratchpad_'])), patterns=[sel(B.edges(j, w).f['arr'], e)]))]
    return out
def others_stay(R, V, i):
    """weights of edges that do not start at node i"""
    ex = V.ex; j, e = z3.Const(ex.fresh_id('j'), I_), z3.Const(ex.fresh_id('e'), I_)
    return [('other nodes\' out-edges', qall([j, e], z3.Implies(z3.And(has(R, j, OL, e), j != i), V.edge(j, OL, e)['weight_'] == R.edge(j, OL, e)['weight_']), patterns=[sel(V.edges(j, OL).f['arr'], e)])), ('in-edges from other nodes', qall([j, e], z3.Implies(z3.And(has(R, j, IL, e), fro(R.edge(j, IL, e)) != i), V.edge(j, IL, e)['weight_'] == R.edge(j, IL, e)['weight_']), patterns=[sel(V.edges(j, IL).f['arr'], e)]))]
def reset(d, V, i, k, done):
    """out-edges of node i before k and the in-edges they match carry the current weight; done(j, e): further in-edges that do"""
    ex = V.ex; R = d['rely']; j, e = z3.Const(ex.fresh_id('j'), I_), z3.Const(ex.fresh_id('e'), I_)
    return [('out-edges so far', qall([e], z3.Implies(z3.And(e >= 0, e < k(OL), e < R.len(i, OL)), V.edge(i, OL, e)['weight_'] == W(R, i, to(R.edge(i, OL, e)))), patterns=[sel(V.edges(i, OL).f['arr'], e)])), ('in-edges matching out-edges so far', qall([j, e], z3.Implies(z3.And(has(R, j, IL, e), fro(R.edge(j, IL, e)) == i, z3.Or(R.win(j, e) < k(IL), done(j, e))), V.edge(j, IL, e)['weight_'] == W(R, i, j)), patterns=[sel(V.edges(j, IL).f['arr'], e)]))]
def upd_state(L, k, done):
    ex = L.ex; d = ex.task.data; V = View(ex, L.read(d['g'])); i = d['item']; return [('node exists', z3.And(i >= 0, i < d['rely'].n))] + same_shape(d['rely'], V) + others_stay(d['rely'], V, i) + reset(d, V, i, k, done)
def upd_out(L): d = L.ex.task.data; d['k'] = k = L.i; return [('position', z3.And(k >= 0, k <= d['rely'].len(d['item'], OL)))] + upd_state(L, lambda w: k, lambda j, e: z3.BoolVal(False))
def upd_in(L): d = L.ex.task.data; k, m, R = d['k'], L.i, d['rely']; t = to(R.edge(d['item'], OL, k)); return [('position', z3.And(m >= 0, m <= R.len(t, IL), k >= 0, k < R.len(d['item'], OL)))] + upd_state(L, lambda w: k + 1 if w == OL else k, lambda j, e: z3.And(j == t, e < m))
def upd_loop(ex, c):
    """The parallel index loop (proved under C02: every index once, thread numbers in range; a body may run for several indices at once). Item i may change the weights of edges starting at node i;
    it is run from any roadmap that differs from the given one in weights only, and must leave alone the weights it may not change. What it wrote to its own edges is then there at the end, whatever the order."""
    d = ex.task.data; rs, re = c.val(1), c.val(2); ex.throw_if(re < rs, 'std::invalid_argument', c.e); s0 = ex.st; g0 = ex.load(d['g']); V0 = View(ex, g0); nt = ex.load(c.args[0]).f['num_threads_']; i, th = z3.Const(ex.fresh_id('item'), I_), z3.Const(ex.fresh_id('thread'), I_)
    ex.oblige('post', z3.And(rs == 0, re == V0.n), c.e, 'every node is visited'); sub = ex.with_pc(s0.clone(), z3.And(rs <= i, i < re, th >= 0, th < nt))
    def variant(nm):
        a = z3.Const(ex.fresh_id(nm), V0.arr.sort()); g = Struct(g0.tid, dict(g0.f, nodes_=Struct(V0.nv.tid, dict(V0.nv.f, arr=a)))); ex.store(d['g'], g); V = View(ex, g); V.win, V.wout = V0w.win, V0w.wout; return V
    V0w = d['linked']
    ex.st = sub; R = variant('others'); d.update(item=i, rely=R, k=z3.IntVal(0))
    for nm, q in same_shape(V0, R): ex.fact(q); ex.named.append(('rely: ' + nm, q, q))
    log = []; ex.wlogs.append(log)
    try:
        ex.invoke(c.args[3], [th, i], c.e); V = View(ex, ex.load(d['g']))
        for nm, q in same_shape(R, V) + others_stay(R, V, i) + reset(d, V, i, lambda w: R.len(i, OL), lambda j, e: z3.BoolVal(True)): ex.oblige('post', q, c.e, 'work item: ' + nm, assume=False)
    except Dead: pass
    finally: ex.wlogs.pop()
    bad = sorted({str(r) for r, p in log if r in s0.roots and r != d['g'].root})
    if bad: raise Unsupported('work item writes shared state %s' % bad)
    ex.st = s0; V = variant('after'); d['rely'] = V0w; j, e = z3.Const(ex.fresh_id('j'), I_), z3.Const(ex.fresh_id('e'), I_)
    for nm, q in same_shape(V0, V): ex.fact(q)
    ex.fact(qall([j, e], z3.Implies(has(V0, j, OL, e), V.edge(j, OL, e)['weight_'] == W(V0, j, to(V0.edge(j, OL, e)))), patterns=[sel(V.edges(j, OL).f['arr'], e)])); ex.fact(qall([j, e], z3.Implies(z3.And(has(V0, j, IL, e), fro(V0.edge(j, IL, e)) >= rs, fro(V0.edge(j, IL, e)) < re), V.edge(j, IL, e)['weight_'] == W(V0, fro(V0.edge(j, IL, e)), j)), patterns=[sel(V.edges(j, IL).f['arr'], e)])); return None
def check_con(ex, c):
    """CheckGraphLinkage, proved under C13"""
    V = View(ex, ex.load(c.this)); b = z3.Const(ex.fresh_id('linked'), B_); ex.fact(z3.Implies(b, linked_of(ex.task.data, V))); ex.task.data['is_linked'] = b; return b
def linked_of(d, V): q = c13.linked(V); d['linked'] = V; return q
@task('C26', 'prm', mode=M, loops=[upd_out, upd_in], contracts={SG + 'CheckGraphLinkage': check_con, PL + 'StaticParallelForIndexLoop': upd_loop, PL + 'DynamicParallelForIndexLoop': upd_loop})
def Update(T):
    ex = T.ex; f = [f for f in T.fns(Q + 'UpdateRoadMapEdges') if 'Overlay' not in ex.ty.name(ex.ty.strip_ref(f['ps'][0]['t']))][0]; ps = f['ps']; d = T.data; g = graph(T, ex.ty.strip_ref(ps[0]['t']), 'roadmap'); V0 = View(ex, T.val(g)); d['g'] = g; fns = setup_fns(T, ps); T.assume(z3.And(V0.n >= 0, V0.n <= 2 ** 48)); par = T.obj(ex.ty.strip_ref(ps[3]['t']), 'parallelism'); T.assume(T.val(par).f['num_threads_'] >= 1, 'DegreeOfParallelism class invariant (num_threads >= 1)')
    o = T.call(f, None, [g, fns['edge_validity_check_fn'], fns['distance_fn'], par]); T.throws_iff(o, z3.Not(d['is_linked']), 'rejected exactly when the linkage is broken'); V = View(ex, T.val(g)); j, e = T.qv('j'), T.qv('e')
    for nm, q in same_shape(V0, V): T.ensure('stay: ' + nm, q)
    for w in (OL, IL): T.ensure('weight of every edge is current: ' + w, z3.Implies(has(V, j, w, e), V.edge(j, w, e)['weight_'] == W(V, fro(V.edge(j, w, e)), to(V.edge(j, w, e)))))
    T.cover('an edge', z3.And(V.n == 2, V.len(0, OL) == 1, V.len(1, IL) == 1))
# ---- growing
Linked = lambda V: z3.Function('Linked', V.arr.sort(), I_, B_)(V.arr, V.n)
def grown_from(d, V0, V):
    """states and edges of V0 stay; states added are valid, edges added passed the check in their own direction and carry its distance"""
    ex = V.ex; j, e = z3.Const(ex.fresh_id('j'), I_), z3.Const(ex.fresh_id('e'), I_); out = [('no fewer nodes', V.n >= V0.n), ('states given stay', qall([j], z3.Implies(z3.And(j >= 0, j < V0.n), V.node(j).f['value_'] == V0.node(j).f['value_']), patterns=[sel(V.arr, j)])), ('states added are valid', qall([j], z3.Implies(z3.And(j >= V0.n, j < V.n), StateOk(V.node(j).f['value_'])), patterns=[sel(V.arr, j)]))]
    for w in (IL, OL):
        x = V.edge(j, w, e); a, b = V.node(fro(x)).f['value_'], V.node(to(x)).f['value_']; given = z3.And(j < V0.n, e < V0.len(j, w)); P = [sel(V.edges(j, w).f['arr'], e)]
        out += [('edges given stay: ' + w, z3.And(qall([j, e], z3.Implies(z3.And(j >= 0, j < V0.n, e >= 0, e < V0.len(j, w)), sel(V.edges(j, w).f['arr'], e) == sel(V0.edges(j, w).f['arr'], e)), patterns=P), qall([j], z3.Implies(z3.And(j >= 0, j < V0.n), V.len(j, w) >= V0.len(j, w)), patterns=[sel(V.arr, j)]))), ('edges added are checked and weighted in their own direction: ' + w, qall([j, e], z3.Implies(z3.And(has(V, j, w, e), z3.Not(given)), z3.And(fro(x) >= 0, fro(x) < V.n, to(x) >= 0, to(x) < V.n, Valid(a, b), x['weight_'] == Dist(a, b))), patterns=P))]
    return out
def addstate_con(ex, c):
    """AddNodeToRoadmap (task AddState)"""
    d = ex.task.data; g = c.args[2]; g0 = ex.load(g); V0 = View(ex, g0); st = c.val(0); ex.oblige('pre', Linked(V0), c.e, 'the roadmap is linked'); ex.oblige('post', z3.And(c.val(6) == d['K'], c.val(7) == V0.n, c.val(1) == 0, c.val(9) == d['sym'], c.val(10) == d['dup']), c.e, 'all nodes are candidates, the caller\'s K and flags'); ex.oblige('post', StateOk(st), c.e, 'only valid states are added')
    ex.assume(V0.n <= 2 ** 48); g1 = ex.fresh(g0.tid, 'with_state'); V1 = View(ex, g1); ok = z3.Const(ex.fresh_id('added'), B_); j, e = z3.Const(ex.fresh_id('j'), I_), z3.Const(ex.fresh_id('e'), I_); ex.assume(V1.n == V0.n + z3.If(ok, 1, 0)); ex.assume(z3.Implies(z3.Not(ok), z3.And(same(ex, V1.nv, V0.nv), z3.Not(d['dup'])))); ex.assume(Linked(V1)); ex.assume(V1.node(V0.n).f['value_'] == z3.If(ok, st, V1.node(V0.n).f['value_']))
    ex.fact(qall([j], z3.Implies(z3.And(j >= 0, j < V0.n), z3.And(V1.node(j).f['value_'] == V0.node(j).f['value_'], V1.len(j, IL) >= V0.len(j, IL), V1.len(j, OL) >= V0.len(j, OL))), patterns=[sel(V1.arr, j)]))
    for w in (IL, OL):
        x = V1.edge(j, w, e); a, b = V1.node(fro(x)).f['value_'], V1.node(to(x)).f['value_']; given = z3.And(j < V0.n, e < V0.len(j, w)); P = [sel(V1.edges(j, w).f['arr'], e)]
        ex.fact(qall([j, e], z3.Implies(z3.And(j >= 0, j < V0.n, e >= 0, e < V0.len(j, w)), sel(V1.edges(j, w).f['arr'], e) == sel(V0.edges(j, w).f['arr'], e)), patterns=P)); ex.fact(qall([j, e], z3.Implies(z3.And(has(V1, j, w, e), z3.Not(given)), z3.And(fro(x) >= 0, fro(x) < V1.n, to(x) >= 0, to(x) < V1.n, Valid(a, b), x['weight_'] == Dist(a, b))), patterns=P)); 
    # the ends of every edge of a linked graph exist (glinked)
        x0 = V0.edge(j, w, e); ex.fact(qall([j, e], z3.Implies(has(V0, j, w, e), z3.And(fro(x0) >= 0, fro(x0) < V0.n, to(x0) >= 0, to(x0) < V0.n)), patterns=[sel(V0.edges(j, w).f['arr'], e)]))
    ex.store(g, g1); r = z3.Const(ex.fresh_id('index'), I_); ex.assume(z3.And(r >= 0, r < V1.n, z3.Implies(ok, r == V0.n))); d['calls'] = d.get('calls', 0) + 1; return r
def grow(L): ex = L.ex; d = ex.task.data; V = View(ex, L.read(d['g'])); return [('linked', Linked(V))] + grown_from(d, d['V0'], V)
@task('C26', 'prm', mode=M, loops=[grow], contracts={Q + 'AddNodeToRoadmap': addstate_con})
def Grow(T):
    ex = T.ex; f = [f for f in T.fns(Q + 'GrowRoadMap')][0]; ps = f['ps']; d = T.data; d['ex'] = ex; g = graph(T, ex.ty.strip_ref(ps[0]['t']), 'roadmap'); V0 = View(ex, T.val(g)); d['g'] = g; d['V0'] = V0; fns = setup_fns(T, ps); T.assume(z3.And(V0.n >= 0, Linked(V0)), 'the roadmap is linked'); T.assumptions.append('roadmaps of at most 2^48 nodes'); fl = [ex.ty.strip_ref(p['t']) for p in ps]
    def sample(ex, a, e): s = z3.Const(ex.fresh_id('sample'), Val); d['sample'] = s; return s
    def done(ex, a, e): V = View(ex, ex.load(g)); ex.oblige('post', ex.asval(a[0]) == V.n, e, 'the termination check is told the size of the roadmap'); b = z3.Const(ex.fresh_id('done'), B_); d['done'] = (b, V); return b
    K, sy, du = [T.sym(ps[i]['t'], ps[i]['n']) for i in (7, 9, 10)]; par = T.obj(fl[8], 'parallelism'); d.update(K=K, sym=sy, dup=du)
    o = T.call(f, None, [g, T.lv(fl[1], T.func('sampling_fn', sample)), T.obj(fl[2], 'graph_knn'), fns['distance_fn'], T.lv(fl[4], T.func('state_validity', lambda ex, a, e: StateOk(ex.asval(a[1])))), fns['edge_validity_check_fn'], T.lv(fl[6], T.func('done', done)), K, par, sy, du]); T.never_throws(o); V = View(ex, T.val(g)); b, VD = d['done']
    T.ensure('stops when told to', z3.And(b, same(ex, V.nv, VD.nv))); T.ensure('linked', Linked(V))
    for nm, q in grown_from(d, V0, V): T.ensure(nm, q)
    T.cover('grown', V.n == V0.n + 1)
