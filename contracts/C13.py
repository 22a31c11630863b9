from vc.task import *
from common import *
import C04 as _c4; REG.pop('C04', None); same = _c4.same
M = {'opaque': ['tu::Val']}
class View(object):
    """a graph as node count and per-node edge lists, read from any representation through n(i) -> unpacked node"""
    def __init__(self, ex, g):
        self.ex = ex; nv = g.f['nodes_']; self.nv = nv; self.n = nv.f['len']; self.arr = nv.f['arr']; self.et = ex.ty.elem(nv.tid)
    def node(self, i): return self.ex.ty.unpack(self.et, sel(self.arr, i))
    def edges(self, i, w):
        v = self.node(i).f[w]
        return v if isinstance(v, Struct) else self.ex.ty.unpack(self.ex.ty.fieldtid(self.et, w), v)
    def len(self, i, w): return self.edges(i, w).f['len']
    def edge(self, i, w, k):
        v = self.edges(i, w); e = sel(v.f['arr'], k); return self.ex.ty.unpack(self.ex.ty.elem(v.tid), e).f
def fro(e): return e['from_index_']
def to(e): return e['to_index_']
IL, OL = 'in_edges_', 'out_edges_'
def okin(V, i, k, w):
    """in-edge k of node i names i as target, an existing other node as source, and is matched by out-edge w of that node"""
    e = V.edge(i, IL, k)
    return z3.And(fro(e) >= 0, fro(e) < V.n, to(e) == i, fro(e) != i, w >= 0, w < V.len(fro(e), OL), to(V.edge(fro(e), OL, w)) == i)
def okout(V, i, k, w):
    e = V.edge(i, OL, k)
    return z3.And(to(e) >= 0, to(e) < V.n, fro(e) == i, to(e) != i, w >= 0, w < V.len(to(e), IL), fro(V.edge(to(e), IL, w)) == i)
def has(V, i, w, k): return z3.And(i >= 0, i < V.n, k >= 0, k < V.len(i, w))
I_ = z3.IntSort()
def linked(V, nm='match'):
    """the linkage relation; the matching edge of every edge is named by a witness function"""
    ex = V.ex; i, k = z3.Const(ex.fresh_id('i'), I_), z3.Const(ex.fresh_id('k'), I_)
    win, wout = z3.Function(ex.fresh_id(nm + '_in'), I_, I_, I_), z3.Function(ex.fresh_id(nm + '_out'), I_, I_, I_)
    V.win, V.wout = win, wout
    return z3.And(qall([i, k], z3.Implies(has(V, i, IL, k), okin(V, i, k, win(i, k))), patterns=[sel(V.edges(i, IL).f['arr'], k)]),
                  qall([i, k], z3.Implies(has(V, i, OL, k), okout(V, i, k, wout(i, k))), patterns=[sel(V.edges(i, OL).f['arr'], k)]))
def wf(V):
    """std::vector lengths are non-negative"""
    i = z3.Const(V.ex.fresh_id('i'), z3.IntSort())
    return z3.ForAll([i], z3.And(V.len(i, 'in_edges_') >= 0, V.len(i, 'out_edges_') >= 0), patterns=[sel(V.arr, i)])
def graph(T, cls, n='graph'):
    g = T.obj(cls, n); T.assume(wf(View(T.ex, T.val(g)))); return g
def gcls(T): return T.fn('Graph<tu::Val>::AddEdgeBetweenNodes')['cls']
def inr(i, V): return z3.And(i >= 0, i < V.n)
def same_edges(V0, V1, i, w):
    k = z3.Const(V0.ex.fresh_id('k'), z3.IntSort())
    return z3.And(V1.len(i, w) == V0.len(i, w), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < V0.len(i, w)), sel(V1.edges(i, w).f['arr'], k) == sel(V0.edges(i, w).f['arr'], k))))
def grown(V0, V1, i, w, e, by):
    """list w of node i is the old one followed by e"""
    k = z3.Const(V0.ex.fresh_id('k'), z3.IntSort()); x = V1.edge(i, w, V0.len(i, w))
    return z3.And(V1.len(i, w) == V0.len(i, w) + 1, fro(x) == e[0], to(x) == e[1], x['weight_'] == e[2], x['scratchpad_'] == 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < V0.len(i, w)), sel(V1.edges(i, w).f['arr'], k) == sel(V0.edges(i, w).f['arr'], k))))
def addedges(T, q, both):
    ex = T.ex; f = T.fn('Graph<tu::Val>::' + q); g = graph(T, f['cls']); V0 = View(ex, T.val(g)); a, b, w = [T.sym(p['t'], p['n']) for p in f['ps']]
    T.assume(linked(V0), 'the graph is linked before the operation (induction hypothesis)')
    g0 = T.val(g); o = T.call(f, g, [a, b, w]); T.throws_iff(o, mkNot(z3.And(inr(a, V0), inr(b, V0), a != b)), 'rejected exactly when a node does not exist or both are the same')
    T.at_throws(o, 'graph unchanged when rejected', lambda st: same(ex, ex.load(g, st), g0))
    V1 = View(ex, T.val(g)); i = T.qv('i')
    T.ensure('same nodes', z3.And(V1.n == V0.n, z3.ForAll([i], z3.Implies(inr(i, V0), V1.node(i).f['value_'] == V0.node(i).f['value_']))))
    T.ensure('other nodes untouched', z3.ForAll([i], z3.Implies(z3.And(inr(i, V0), i != a, i != b), sel(V1.arr, i) == sel(V0.arr, i))))
    T.ensure('edge recorded at the source', grown(V0, V1, a, 'out_edges_', (a, b, w), 1)); T.ensure('edge recorded at the target', grown(V0, V1, b, 'in_edges_', (a, b, w), 1))
    if both: T.ensure('reverse edge recorded at the source', grown(V0, V1, b, 'out_edges_', (b, a, w), 1)); T.ensure('reverse edge recorded at the target', grown(V0, V1, a, 'in_edges_', (b, a, w), 1))
    else: T.ensure('reverse lists untouched', z3.And(same_edges(V0, V1, a, 'in_edges_'), same_edges(V0, V1, b, 'out_edges_')))
    p, k = T.qv('node'), T.qv('edge'); new = [(OL, a, b, V0.len(a, OL), V0.len(b, IL))] + ([(OL, b, a, V0.len(b, OL), V0.len(a, IL))] if both else [])
    wo, wi = V0.wout(p, k), V0.win(p, k)
    for _, x, y, kx, ky in new: wo = z3.If(z3.And(p == x, k == kx), ky, wo); wi = z3.If(z3.And(p == y, k == ky), kx, wi)
    for nm, c in (('source', p == a), ('target', p == b), ('other nodes', z3.And(p != a, p != b))):
        T.ensure('still linked: in-edges, ' + nm, z3.Implies(z3.And(c, has(V1, p, IL, k)), okin(V1, p, k, wi))); T.ensure('still linked: out-edges, ' + nm, z3.Implies(z3.And(c, has(V1, p, OL, k)), okout(V1, p, k, wo)))
@task('C13', 'graph', mode=M)
def AddOneWay(T): addedges(T, 'AddEdgeBetweenNodes', False)
@task('C13', 'graph', mode=M)
def AddBothWays(T): addedges(T, 'AddEdgesBetweenNodes', True)
@task('C13', 'graph', mode=M)
def AddNode(T):
    """both overloads: a value, or a node that carries no edges"""
    ex = T.ex
    for f in T.fns('Graph<tu::Val>::AddNode'):
        g = graph(T, f['cls']); g0 = T.val(g); V0 = View(ex, g0); T.assume(linked(V0), 'the graph is linked before the operation (induction hypothesis)')
        a = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'added'); av = T.val(a); isnode = isinstance(av, Struct)
        if isnode: T.assume(z3.And(av.f[IL].f['len'] == 0, av.f[OL].f['len'] == 0), 'a node added as such carries no edges (edges are added through the graph)')
        o = T.call(f, g, [a]); T.never_throws(o); V1 = View(ex, T.val(g)); i = T.qv('i'); nm = 'node: ' if isnode else 'value: '
        T.ensure(nm + 'index of the new node', o.ret == V0.n); T.ensure(nm + 'one node more', V1.n == V0.n + 1); T.ensure(nm + 'existing nodes untouched', z3.ForAll([i], z3.Implies(inr(i, V0), sel(V1.arr, i) == sel(V0.arr, i))))
        T.ensure(nm + 'holds the value given', V1.node(V0.n).f['value_'] == (av.f['value_'] if isnode else av)); T.ensure(nm + 'no edges yet', z3.And(V1.len(V0.n, IL) == 0, V1.len(V0.n, OL) == 0))
        p, k = T.qv('node'), T.qv('edge')
        T.ensure(nm + 'still linked', z3.And(z3.Implies(has(V1, p, IL, k), okin(V1, p, k, V0.win(p, k))), z3.Implies(has(V1, p, OL, k), okout(V1, p, k, V0.wout(p, k)))))
# ---- the linkage check: HO(f, t, n) / HI(f, t, n) = one of the first n out-edges of node f leads to t / in-edges of node f comes from t (ghost, by recurrence)
B_ = z3.BoolSort()
HO = z3.Function('has_out', I_, I_, I_, B_); HI = z3.Function('has_in', I_, I_, I_, B_)
def unfold(V, f, t, n):
    ex = V.ex
    ex.fact(z3.And(mkNot(HO(f, t, 0)), mkNot(HI(f, t, 0))))
    for j in (n, n - 1): ex.fact(z3.Implies(j >= 0, z3.And(HO(f, t, j + 1) == z3.Or(HO(f, t, j), to(V.edge(f, OL, j)) == t), HI(f, t, j + 1) == z3.Or(HI(f, t, j), fro(V.edge(f, IL, j)) == t))))
def gin(V, i, k):
    e = V.edge(i, IL, k); return z3.And(fro(e) >= 0, fro(e) < V.n, to(e) == i, fro(e) != i, HO(fro(e), i, V.len(fro(e), OL)))
def gout(V, i, k):
    e = V.edge(i, OL, k); return z3.And(to(e) >= 0, to(e) < V.n, fro(e) == i, to(e) != i, HI(to(e), i, V.len(to(e), IL)))
def glinked(V, n=None):
    i, k = z3.Const(V.ex.fresh_id('i'), I_), z3.Const(V.ex.fresh_id('k'), I_); n = V.n if n is None else n
    return z3.And(qall([i, k], z3.Implies(z3.And(i >= 0, i < n, k >= 0, k < V.len(i, IL)), gin(V, i, k)), patterns=[sel(V.edges(i, IL).f['arr'], k)]),
                  qall([i, k], z3.Implies(z3.And(i >= 0, i < n, k >= 0, k < V.len(i, OL)), gout(V, i, k)), patterns=[sel(V.edges(i, OL).f['arr'], k)]))
@task('C13', 'graph', mode=M)
def MatchLemma(T):
    """induction: the recurrence says that a matching edge exists"""
    ex = T.ex; V = View(ex, T.val(graph(T, gcls(T)))); f, t, n, j = T.qv('f'), T.qv('t'), T.qv('n'), T.qv('j'); unfold(V, f, t, n)
    P = lambda m: z3.And(HO(f, t, m) == z3.Exists([j], z3.And(j >= 0, j < m, to(V.edge(f, OL, j)) == t)), HI(f, t, m) == z3.Exists([j], z3.And(j >= 0, j < m, fro(V.edge(f, IL, j)) == t)))
    T.ensure('base', P(z3.IntVal(0))); T.assume(n >= 0); T.ensure('step', z3.Implies(P(n), P(n + 1)))
def vw(L): return L.ex.task.data['V']
def outer(L): V = vw(L); i = L.i; g = glinked(V, i); return [('position', z3.And(i >= 0, i <= V.n)), ('in-edges of every earlier node', g.arg(0)), ('out-edges of every earlier node', g.arg(1))]
def edgeloop(w, ok):
    def inv(L):
        V = vw(L); idx = L.v('idx', 'node_index', 'index'); k = z3.Int('k'); i = L.i
        return [('position', z3.And(i >= 0, i <= V.len(idx, w))), ('every earlier edge', qall([k], z3.Implies(z3.And(k >= 0, k < i), ok(V, idx, k)), patterns=[sel(V.edges(idx, w).f['arr'], k)]))]
    return inv
def matchloop(var, fn):
    def inv(L):
        V = vw(L); idx = L.v('idx', 'node_index', 'index'); f = L.v(*var); i = L.i; unfold(V, f, idx, i); found = L.read(L.written('bool')[0])
        return [('position', z3.And(i >= 0, i <= V.len(f, OL if fn is HO else IL))), ('found so far', found == fn(f, idx, i))]
    return inv
CHECK = [outer, edgeloop(IL, gin), matchloop(('from_index',), HO), edgeloop(OL, gout), matchloop(('to_index',), HI)]
@task('C13', 'graph', mode=M, loops=CHECK)
def LinkageCheck(T):
    ex = T.ex; f = [f for f in T.fns('simple_graph::CheckGraphLinkage') if 'Overlay' not in ex.ty.name(f['ps'][0]['t'])][0]; g = graph(T, ex.ty.strip_ref(f['ps'][0]['t'])); V = View(ex, T.val(g)); T.data['V'] = V
    o = T.call(f, None, [g]); T.never_throws(o)
    T.ensure('true exactly when the graph is linked', o.ret == glinked(V))
def check_con(ex, c):
    """CheckGraphLinkage, proved above"""
    g = ex.asval(c.args[0]) if hasattr(c, 'args') else c.val(0); return glinked(View(ex, g))
@task('C13', 'graph', mode=M, contracts={NSP + 'simple_graph::CheckGraphLinkage': check_con})
def FromNodes(T):
    ex = T.ex; f = [f for f in ex.F.values() if f.get('isctor') and f.get('cls') == gcls(T) and len(f['ps']) == 1 and ex.ty.kind(ex.ty.strip_ref(f['ps'][0]['t'])) == 'vec'][0]
    ns = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'nodes'); nv = T.val(ns); V = View(ex, Struct(f['cls'], {'nodes_': nv})); T.assume(wf(V))
    g = T.lv(f['cls'], ex.uninit(f['cls']), 'new'); o = T.call(f, g, [ns]); T.throws_iff(o, mkNot(glinked(V)), 'rejected exactly when not linked')
    T.ensure('holds the nodes given', same(ex, T.val(g).f['nodes_'], nv))
def des_con(ex, c):
    """DeserializeVectorLike (proved under C06/C07): throws, or yields some nodes and the number of bytes read"""
    b = z3.Const(ex.fresh_id('bad_buffer'), B_); ex.throw_if(b, 'std::invalid_argument', c.e); v = ex.fresh(c.rettid, 'restored'); ex.task.data['restored'] = v; return v
@task('C13', 'graph', mode=M, contracts={NSP + 'simple_graph::CheckGraphLinkage': check_con, NSP + 'serialization::DeserializeVectorLike': des_con})
def Restored(T):
    ex = T.ex; f = T.fn('Graph<tu::Val>::DeserializeSelf'); g = graph(T, f['cls']); g0 = T.val(g); args = [T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'buffer'), T.sym(f['ps'][1]['t'], 'offset'), T.lv(ex.ty.strip_ref(f['ps'][2]['t']), T.func('deser', lambda ex, a, c: None), 'deser')]
    o = T.call(f, g, args); T.at_throws(o, 'graph unchanged when the bytes are rejected', lambda st: same(ex, ex.load(g, st), g0))
    V = View(ex, T.val(g)); T.ensure('whatever the bytes, the restored graph is linked', glinked(V)); T.ensure('the nodes read', same(ex, T.val(g).f['nodes_'], T.data['restored'].f['value_']))
    T.ensure('bytes read', o.ret == T.data['restored'].f['bytes_read_'])
