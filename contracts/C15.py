from vc.task import *
from common import *
import C13 as c13; REG.pop('C13', None)
from C13 import View, wf, linked, okin, okout, has, inr, IL, OL, fro, to, same, same_edges, grown, glinked, CHECK, I_
M = {'opaque': ['tu::Val']}
class OView(View):
    """the graph an overlay presents: node i is the overlaid one if there is one, else the base node"""
    def __init__(self, ex, o, base):
        self.ex = ex; self.base = View(ex, base); self.et = self.base.et; m = o.f['overlay_']; self.m = m; self.n = o.f['size_']; self.has_ = m.f['has']; self.val_ = m.f['val']
    def ghost(self):
        """name the presented node by a function, so that it can occur in triggers"""
        N = z3.Function(self.ex.fresh_id('presented'), I_, self.base.arr.sort().range()); i = z3.Const(self.ex.fresh_id('i'), I_); self.ex.fact(z3.And(*[qall([i], N(i) == OView.raw(self, i), patterns=[p]) for p in (N(i), sel(self.has_, i))])); self.raw = lambda i: N(i)
    def raw(self, i): return z3.If(sel(self.has_, i), sel(self.val_, i), sel(self.base.arr, i))
    def node(self, i): return self.ex.ty.unpack(self.et, self.raw(i))
def ok(V):
    """overlay invariant: at least as large as the base, every node beyond the base is overlaid, nothing is overlaid outside"""
    i = z3.Const(V.ex.fresh_id('i'), I_)
    return [('overlay at least as large as the base', V.n >= V.base.n), ('overlaid indices are nodes', qall([i], z3.Implies(sel(V.has_, i), z3.And(i >= 0, i < V.n)), patterns=[sel(V.has_, i)])), ('nodes beyond the base are overlaid', qall([i], z3.Implies(z3.And(i >= V.base.n, i < V.n), sel(V.has_, i)), patterns=[sel(V.has_, i)]))]
def O(T, q, **k): return T.fn('NonOwningGraphOverlay<tu::Val, common_robotics_utilities::simple_graph::Graph<tu::Val>>::' + q, **k)
def OS(T, q): return T.fns('NonOwningGraphOverlay<tu::Val, common_robotics_utilities::simple_graph::Graph<tu::Val>>::' + q)
def setup(T):
    ex = T.ex; cls = O(T, 'Size')['cls']; bt = ex.ty.elem(ex.ty.fieldtid(cls, 'base_graph_')) if ex.ty.kind(ex.ty.fieldtid(cls, 'base_graph_')) != 'ptr' else c13.gcls(T)
    b = c13.graph(T, c13.gcls(T), 'base'); bv = T.val(b); size = T.sym(ex.ty.fieldtid(cls, 'size_'), 'size'); ov = T.sym(ex.ty.fieldtid(cls, 'overlay_'), 'overlaid')
    T.assume(size < 2**63 - 1, 'fewer than 2^63-1 nodes')
    o = T.lv(cls, Struct(cls, {'base_graph_': Ptr(b), 'overlay_': ov, 'size_': size}), 'overlay'); V = OView(ex, T.val(o), bv)
    for nm, c in ok(V): T.assume(c, 'overlay invariant (established by the constructor, preserved by every operation)')
    i = z3.Const(ex.fresh_id('i'), I_); T.assume(qall([i], z3.And(V.len(i, IL) >= 0, V.len(i, OL) >= 0), patterns=[sel(V.has_, i)])); T.data['V'] = V
    return o, b, bv, V
def after(T, o, b, bv, nm):
    V1 = OView(T.ex, T.val(o), T.val(b))
    for n, c in ok(V1): T.ensure(nm + 'invariant kept: ' + n, c)
    T.ensure(nm + 'base graph unchanged', same(T.ex, T.val(b), bv)); T.ensure(nm + 'still the same base', z3.BoolVal(T.val(o).f['base_graph_'].lv is not None and T.val(o).f['base_graph_'].lv.root == b.root))
    return V1
def unchanged(T, o, b, bv, V, st):
    """the observable graph is as before (nodes may have been migrated into the overlay)"""
    ex = T.ex; V1 = OView(ex, ex.load(o, st), ex.load(b, st)); i = T.qv('node'); return z3.And(V1.n == V.n, same(ex, ex.load(b, st), bv), *([z3.Implies(inr(i, V), V1.raw(i) == V.raw(i))] + [c for n, c in ok(V1)]))
@task('C15', 'graph', mode=M)
def Construct(T):
    """from a graph: the graph itself; from no graph: rejected"""
    ex = T.ex; fs = [f for f in ex.F.values() if f.get('isctor') and f.get('cls') == O(T, 'Size')['cls'] and len(f['ps']) == 1 and ex.ty.kind(f['ps'][0]['t']) == 'ptr']
    for f in fs[:1]:
        b = c13.graph(T, c13.gcls(T), 'base'); bv = T.val(b); x = T.lv(f['cls'], ex.uninit(f['cls']), 'new'); st0 = ex.st.clone(); o = T.call(f, x, [Ptr(b)]); T.never_throws(o); V = OView(ex, T.val(x), bv); i = T.qv('node')
        for n, c in ok(V): T.ensure('invariant: ' + n, c)
        T.ensure('presents the base graph', z3.And(V.n == V.base.n, V.raw(i) == sel(V.base.arr, i))); T.ensure('base unchanged', same(ex, T.val(b), bv))
        ex.st = st0; y = T.lv(f['cls'], ex.uninit(f['cls']), 'none'); o = T.call(f, y, [Ptr(None)]); T.throws_iff(o, z3.BoolVal(True), 'no graph')
@task('C15', 'graph', mode=M)
def Read(T):
    ex = T.ex; f = O(T, 'GetNodeImmutable'); o, b, bv, V = setup(T); i = T.sym(f['ps'][0]['t'], 'index'); st0 = ex.st.clone()
    r = T.call(f, o, [i]); T.throws_iff(r, mkNot(inr(i, V)), 'rejected exactly when there is no such node'); T.ensure('node as presented', same(ex, T.val(r.ret), ex.ty.unpack(V.et, V.raw(i)))); after(T, o, b, bv, 'read: ')
    for q in ('IndexInRange', 'Size'):
        ex.st = st0.clone(); r = T.call(O(T, q), o, [i] if q != 'Size' else []); T.never_throws(r); T.ensure(q, r.ret == (inr(i, V) if q != 'Size' else V.n))
@task('C15', 'graph', mode=M)
def Mutable(T):
    """the reference handed out is the node's own storage in the overlay; nothing observable changes until it is written"""
    ex = T.ex; f = O(T, 'GetNodeMutable'); o, b, bv, V = setup(T); i = T.sym(f['ps'][0]['t'], 'index')
    r = T.call(f, o, [i]); T.throws_iff(r, mkNot(inr(i, V)), 'rejected exactly when there is no such node'); V1 = after(T, o, b, bv, ''); j = T.qv('node')
    T.ensure('same graph', z3.And(V1.n == V.n, z3.Implies(inr(j, V), V1.raw(j) == V.raw(j)))); T.at_throws(r, 'unchanged when rejected', lambda st: unchanged(T, o, b, bv, V, st))
    nv = T.sym(V.et, 'written'); ex.store(r.ret, nv); V2 = after(T, o, b, bv, 'after a write: ')
    T.ensure('a write reaches exactly that node', z3.And(V2.n == V.n, z3.Implies(z3.And(inr(j, V), j != i), V2.raw(j) == V.raw(j)), V2.raw(i) == ex.ty.pack(V.et, nv)))
@task('C15', 'graph', mode=M)
def AddNode(T):
    for f in OS(T, 'AddNode'):
        ex = T.ex; o, b, bv, V = setup(T); a = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'added'); av = T.val(a); isnode = isinstance(av, Struct); nm = 'node: ' if isnode else 'value: '; r = T.call(f, o, [a]); T.never_throws(r)
        V1 = after(T, o, b, bv, nm); i = T.qv('node'); T.ensure(nm + 'index of the new node', r.ret == V.n); T.ensure(nm + 'one node more', V1.n == V.n + 1); T.ensure(nm + 'existing nodes untouched', z3.Implies(inr(i, V), V1.raw(i) == V.raw(i)))
        if isnode: T.ensure(nm + 'holds the node given', V1.raw(V.n) == ex.ty.pack(V.et, av))
        else: T.ensure(nm + 'holds the value given, no edges', z3.And(V1.node(V.n).f['value_'] == av, V1.len(V.n, IL) == 0, V1.len(V.n, OL) == 0))
def addedges(T, q, both):
    ex = T.ex; f = O(T, q); o, b, bv, V0 = setup(T); x, y, w = [T.sym(p['t'], p['n']) for p in f['ps']]
    r = T.call(f, o, [x, y, w]); T.throws_iff(r, mkNot(z3.And(inr(x, V0), inr(y, V0), x != y)), 'rejected exactly when a node does not exist or both are the same'); T.at_throws(r, 'unchanged when rejected', lambda st: unchanged(T, o, b, bv, V0, st))
    V1 = after(T, o, b, bv, ''); i = T.qv('node'); T.ensure('same number of nodes', V1.n == V0.n); T.ensure('values kept', z3.Implies(inr(i, V0), V1.node(i).f['value_'] == V0.node(i).f['value_']))
    T.ensure('other nodes untouched', z3.Implies(z3.And(inr(i, V0), i != x, i != y), V1.raw(i) == V0.raw(i)))
    T.ensure('edge recorded at the source', grown(V0, V1, x, OL, (x, y, w), 1)); T.ensure('edge recorded at the target', grown(V0, V1, y, IL, (x, y, w), 1))
    if both: T.ensure('reverse edge recorded at the source', grown(V0, V1, y, OL, (y, x, w), 1)); T.ensure('reverse edge recorded at the target', grown(V0, V1, x, IL, (y, x, w), 1))
    else: T.ensure('reverse lists untouched', z3.And(same_edges(V0, V1, x, IL), same_edges(V0, V1, y, OL)))
@task('C15', 'graph', mode=M)
def AddOneWay(T): addedges(T, 'AddEdgeBetweenNodes', False)
@task('C15', 'graph', mode=M)
def AddBothWays(T): addedges(T, 'AddEdgesBetweenNodes', True)
@task('C15', 'graph', mode=M, loops=CHECK)
def LinkageCheck(T):
    ex = T.ex; o, b, bv, V = setup(T); V.ghost(); r = T.call(O(T, 'CheckGraphLinkage'), o, []); T.never_throws(r); T.ensure('true exactly when the presented graph is linked', r.ret == glinked(V)); after(T, o, b, bv, '')
