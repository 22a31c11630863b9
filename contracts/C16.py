from vc.task import *
from common import *
import C13 as c13; REG.pop('C13', None)
from C13 import View, graph, IL, OL, fro, to, I_
M = {'opaque': ['tu::Val']}
R_, B_ = z3.RealSort(), z3.BoolSort()
# Reach(u, d): some path from node u to the start has total weight d (the least relation closed under the two rules; the proof uses closure only)
Reach = z3.Function('path_of_cost', I_, R_, B_)
# Expl(p, u, a, b): one of the edges of node p from u has a weight that takes total a to total b (the least relation closed under that rule)
Expl = z3.Function('edge_explains', I_, I_, R_, R_, B_)
def add(ex, a, b): return ex.uf('fadd', R_, R_, R_)(a, b)
def additive(ex):
    """rounded addition: commutative, never below a non-negative summand, monotone"""
    a, b, c = z3.Const('fa', R_), z3.Const('fb', R_), z3.Const('fc', R_); I = ex.inf(); f = lambda x, y: add(ex, x, y)
    ex.fact(qall([a, b], f(a, b) == f(b, a), patterns=[f(a, b)])); ex.fact(qall([a, b], z3.Implies(z3.And(b >= 0, a <= I), f(a, b) >= a), patterns=[f(a, b)])); ex.fact(qall([a, b], z3.And(f(a, b) <= I, f(a, b) >= -I), patterns=[f(a, b)]))
class S(object):
    """tables of the search"""
    def __init__(self, L):
        ex = L.ex; self.ex = ex; vs = L.locals('vec'); k = lambda lv: ex.ty.kind(ex.ty.elem(lv.tid))
        rd = lambda lv: L.read(lv)
        self.P = [rd(v).f for v in vs if k(v) == 'int'][0]; self.D = [rd(v).f for v in vs if k(v) == 'fp'][0]; q = [v for v in vs if k(v) == 'rec'][0]; self.Q = rd(q).f; self.qt = ex.ty.elem(q.tid); self.E = rd(L.locals('set')[0]).f['has']
    def d(self, u): return sel(self.D['arr'], u)
    def p(self, u): return sel(self.P['arr'], u)
    def q(self, j): return self.ex.ty.unpack(self.qt, sel(self.Q['arr'], j)).f
def inv(L, cur=None):
    """cur = (node being expanded, its edges done so far)"""
    ex = L.ex; s = S(L); d = ex.task.data; V, start = d['V'], d['start']; INF = ex.inf(); n = V.n; u, v, j, k = z3.Ints('u v j k'); D, P, E, Q, nq = s.d, s.p, (lambda x: sel(s.E, x)), s.q, s.Q['len']; rng = lambda x: z3.And(x >= 0, x < n)
    ed = lambda x, k: V.edge(x, IL, k); edone = lambda x, k: z3.And(k >= 0, k < V.len(x, IL)) if cur is None else z3.And(k >= 0, k < z3.If(x == cur[0], cur[1], V.len(x, IL)))
    raw = lambda x, k: sel(V.edges(x, IL).f['arr'], k)
    out = [('one entry per node', z3.And(s.P['len'] == n, s.D['len'] == n)), ('start at distance zero', z3.And(D(start) == 0, P(start) == start)), ('distances', qall([u], z3.Implies(rng(u), z3.And(D(u) >= 0, D(u) <= INF)), patterns=[D(u)])),
        ('queue entries', qall([j], z3.Implies(z3.And(j >= 0, j < nq), z3.And(rng(Q(j)['index_']), D(Q(j)['index_']) <= Q(j)['distance_'], Q(j)['distance_'] < INF)), patterns=[sel(s.Q['arr'], j)])),
        ('reached nodes are explored or queued', qall([u], z3.Implies(z3.And(rng(u), mkNot(E(u)), D(u) < INF), z3.Exists([j], z3.And(j >= 0, j < nq, Q(j)['index_'] == u, Q(j)['distance_'] == D(u)))), patterns=[D(u)])),
        ('explored nodes are nodes', qall([v], z3.Implies(E(v), z3.And(rng(v), D(v) < INF)), patterns=[E(v)])),
        ('explored nodes are no farther than queued ones', qall([v, j], z3.Implies(z3.And(E(v), j >= 0, j < nq), D(v) <= Q(j)['distance_']), patterns=[z3.MultiPattern(E(v), sel(s.Q['arr'], j))])),
        ('edges of explored nodes relaxed', qall([v, k], z3.Implies(z3.And(E(v), edone(v, k)), D(fro(ed(v, k))) <= add(ex, D(v), ed(v, k)['weight_'])), patterns=[z3.MultiPattern(E(v), raw(v, k))])),
        ('every distance is that of a path', qall([u], z3.Implies(z3.And(rng(u), D(u) < INF), Reach(u, D(u))), patterns=[D(u)])),
        ('predecessors', qall([u], z3.Implies(z3.And(rng(u), u != start, D(u) < INF), z3.And(E(P(u)), Expl(P(u), u, D(P(u)), D(u)))), patterns=[P(u)])),
        ('no predecessor without a path', qall([u], z3.Implies(z3.And(rng(u), D(u) == INF), P(u) == -1), patterns=[P(u)]))]
    return out
def outer(L): return inv(L)
def relax(L):
    ex = L.ex; d = ex.task.data; V = d['V']; top = [lv for lv in L.locals('rec') if any(n == 'distance_' for n, _ in ex.ty.fields(lv.tid))][-1]; t = L.read(top).f; v = t['index_']; s = S(L); i = L.i; j = z3.Int('j'); u = z3.Int('u')
    return [('position', z3.And(i >= 0, i <= V.len(v, IL))), ('expanding', z3.And(v >= 0, v < V.n, sel(s.E, v), s.d(v) == t['distance_'], t['distance_'] < ex.inf()))] + [('expanded node is the farthest explored', qall([u], z3.Implies(sel(s.E, u), s.d(u) <= s.d(v)), patterns=[sel(s.E, u)]))] + inv(L, (v, i))
@task('C16', 'search', mode=M, loops=[outer, relax], timeout=120)
def Tables(T):
    ex = T.ex; f = T.fn('simple_graph_search::PerformDijkstrasAlgorithm'); gt = ex.ty.strip_ref(f['ps'][0]['t']); g = graph(T, gt); V = View(ex, T.val(g)); start = T.sym(f['ps'][1]['t'], 'start_index'); T.data['V'], T.data['start'] = V, start; additive(ex)
    v, k, d = T.qv('v'), T.qv('k'), z3.Const('pathcost', R_); e = V.edge(v, IL, k); raw = sel(V.edges(v, IL).f['arr'], k); rng = lambda x: z3.And(x >= 0, x < V.n)
    T.assume(qall([v, k], z3.Implies(z3.And(rng(v), k >= 0, k < V.len(v, IL)), z3.And(rng(fro(e)), e['weight_'] >= 0, e['weight_'] <= ex.inf())), patterns=[raw]), 'edges come from nodes of the graph and have non-negative weights')
    T.assume(z3.Implies(rng(start), Reach(start, 0))); T.assume(qall([v, k, d], z3.Implies(z3.And(Reach(v, d), rng(v), k >= 0, k < V.len(v, IL)), Reach(fro(e), add(ex, d, e['weight_']))), patterns=[z3.MultiPattern(Reach(v, d), raw)]), 'ghost relation closed under its two rules (empty path; one more edge)')
    w = e['weight_']; isedge = z3.And(rng(v), k >= 0, k < V.len(v, IL)); T.assume(qall([v, k, d], z3.Implies(isedge, Expl(v, fro(e), d, add(ex, d, w))), patterns=[z3.MultiPattern(raw, add(ex, d, w))]), 'definition of the ghost predicate edge_explains')
    o = T.call(f, None, [g, start]); T.throws_iff(o, mkNot(rng(start)), 'rejected exactly when the start is no node')
    r = o.ret; P, D = [ex.ty.unpack(ex.ty.fieldtid(r.tid, n), r.f[n]) if not isinstance(r.f[n], Struct) else r.f[n] for n in ('previous_index_map_', 'node_distances_')]; dd, pp = (lambda x: sel(D.f['arr'], x)), (lambda x: sel(P.f['arr'], x)); u = T.qv('u'); INF = ex.inf()
    T.ensure('one entry per node', z3.And(P.f['len'] == V.n, D.f['len'] == V.n)); T.ensure('start at distance zero', z3.And(dd(start) == 0, pp(start) == start))
    T.ensure('finite distances are those of real paths', z3.Implies(z3.And(rng(u), dd(u) < INF), Reach(u, dd(u))))
    T.ensure('no edge shortens a distance', z3.Implies(z3.And(rng(v), dd(v) < INF, k >= 0, k < V.len(v, IL)), dd(fro(e)) <= add(ex, dd(v), e['weight_'])))
    T.ensure('predecessors are real neighbours that explain the distance', z3.Implies(z3.And(rng(u), u != start, dd(u) < INF), z3.And(rng(pp(u)), dd(pp(u)) < INF, Expl(pp(u), u, dd(pp(u)), dd(u)))))
    T.ensure('no predecessor where there is no path', z3.Implies(z3.And(rng(u), mkNot(dd(u) < INF)), z3.And(dd(u) == INF, pp(u) == -1)))
@task('C16', 'search', mode=M)
def Least(T):
    """rule induction: no path is cheaper than the distances of a table that no edge shortens"""
    ex = T.ex; D = z3.Function('distance', I_, R_); p, u, start = T.qv('p'), T.qv('u'), T.qv('start'); w, c = z3.Const('w', R_), z3.Const('c', R_); f = lambda x, y: add(ex, x, y); a, b, x = z3.Const('fa', R_), z3.Const('fb', R_), z3.Const('fc', R_)
    T.assume(z3.And(D(start) == 0, w >= 0, c >= 0, D(u) <= ex.inf())); T.ensure('empty path', D(start) <= 0)
    T.assume(qall([a, b, x], z3.Implies(z3.And(a <= b), f(a, x) <= f(b, x)), patterns=[z3.MultiPattern(f(a, x), f(b, x))]), 'rounded addition is monotone'); T.assume(z3.Implies(D(p) < ex.inf(), D(u) <= f(D(p), w)))
    T.ensure('one more edge', z3.Implies(z3.And(D(p) <= c, c < ex.inf()), D(u) <= f(c, w)))
@task('C16', 'search', mode=M)
def Table(T):
    """construction and reads of the result"""
    ex = T.ex; cls = T.fn('DijkstrasResult::GetNodeDistance')['cls']; fs = [f for f in ex.F.values() if f.get('isctor') and f.get('cls') == cls and len(f['ps']) == 2]
    r = T.obj(cls, 'result'); rv = T.val(r); P, D = rv.f['previous_index_map_'], rv.f['node_distances_']
    for q, a in (('GetPreviousIndex', P), ('GetNodeDistance', D)):
        f = T.fn('DijkstrasResult::' + q); i = T.sym(f['ps'][0]['t'], 'node_index'); st = ex.st.clone(); o = T.call(f, r, [i]); T.throws_iff(o, mkNot(z3.And(i >= 0, i < a.f['len'])), q + ' rejects what is no node'); T.ensure(q, o.ret == sel(a.f['arr'], i)); ex.st = st
    for f in fs[:1]:
        x, y = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'previous'), T.obj(ex.ty.strip_ref(f['ps'][1]['t']), 'distances'); n = T.lv(cls, ex.uninit(cls), 'new'); o = T.call(f, n, [x, y]); T.throws_iff(o, T.val(x).f['len'] != T.val(y).f['len'], 'tables of different size rejected')
