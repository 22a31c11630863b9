from vc.task import *
from common import *
Q = NSP + 'simple_rrt_planner::'; TR = 'SimpleRRTPlannerTree<tu::Val>::'; ND = 'SimpleRRTPlannerState<tu::Val>::'
I_ = z3.IntSort(); B_ = z3.BoolSort(); M = {'opaque': ['tu::Val']}
class View(object):
    """a collection of tree nodes"""
    def __init__(self, ex, v): self.ex = ex; self.n = v.f['len']; self.arr = v.f['arr']; self.et = ex.ty.elem(v.tid)
    def node(self, i): return self.ex.ty.unpack(self.et, sel(self.arr, i))
    def kids(self, i):
        v = self.node(i).f['child_indices_']; return v if isinstance(v, Struct) else self.ex.ty.unpack(self.ex.ty.fieldtid(self.et, 'child_indices_'), v)
    def nkids(self, i): return self.kids(i).f['len']
    def kid(self, i, k): return sel(self.kids(i).f['arr'], k)
    def parent(self, i): return self.node(i).f['parent_index_']
    def value(self, i): return self.node(i).f['value_']
def wf(V): i = z3.Const(V.ex.fresh_id('i'), I_); return z3.ForAll([i], z3.And(V.nkids(i) >= 0, V.nkids(i) <= 2 ** 48), patterns=[sel(V.arr, i)])
def okparent(V, i, w): p = V.parent(i); return z3.And(p < i, z3.Implies(p >= 0, z3.And(w >= 0, w < V.nkids(p), V.kid(p, w) == i)))
def okkid(V, i, k): c = V.kid(i, k); return z3.And(c > i, c < V.n, V.parent(c) == i)
def inn(V, i, n=None): return z3.And(i >= 0, i < (V.n if n is None else n))
def kidin(V, i, k, n=None): return z3.And(inn(V, i, n), k >= 0, k < V.nkids(i))
def linked(V):
    """tree invariant: parents precede their children and list them (place named by a witness function), listed children name their parent"""
    ex = V.ex; i, k = z3.Const(ex.fresh_id('i'), I_), z3.Const(ex.fresh_id('k'), I_); w = z3.Function(ex.fresh_id('listed_at'), I_, I_); V.w = w
    return z3.And(qall([i], z3.Implies(inn(V, i), okparent(V, i, w(i))), patterns=[sel(V.arr, i)]), qall([i, k], z3.Implies(kidin(V, i, k), okkid(V, i, k)), patterns=[V.kid(i, k)]))
def nodes(ex, t): return View(ex, t.f['nodes_'])
def cls(T): return T.fn(TR + 'AddNodeAndConnect')['cls']
def tree(T, nm='tree', lk=True):
    t = T.obj(cls(T), nm); V = nodes(T.ex, T.val(t)); T.assume(wf(V)); T.assume(z3.And(V.n >= 0, V.n <= 2 ** 48), 'trees of at most 2^48 nodes')
    if lk: T.assume(linked(V), 'the tree is linked before the operation (induction hypothesis)')
    return t, V
def still(T, V1, w, nm=''):
    i, k = T.qv('i'), T.qv('k'); T.ensure(nm + 'parents precede and list their children', z3.Implies(inn(V1, i), okparent(V1, i, w(i)))); T.ensure(nm + 'listed children name their parent', z3.Implies(kidin(V1, i, k), okkid(V1, i, k)))
def keeps(T, V0, V1, nm='', but=None):
    i = T.qv('i'); T.ensure(nm + 'existing nodes untouched', z3.Implies(z3.And(inn(V0, i), True if but is None else i != but), sel(V1.arr, i) == sel(V0.arr, i)))
@task('C24', 'tree', mode=M)
def Empty(T):
    """new and cleared trees"""
    ex = T.ex; c = cls(T)
    for f in [f for f in ex.F.values() if f.get('isctor') and f.get('cls') == c and (not f['ps'] or ex.ty.kind(f['ps'][0]['t']) == 'int')]:
        t = T.lv(c, ex.uninit(c), 'new'); a = [T.sym(f['ps'][0]['t'], 'anticipated')] if f['ps'] else []
        for x in a: T.assume(z3.And(x >= 0, x <= 2 ** 40), 'anticipated sizes that are not negative and can be allocated')
        o = T.call(f, t, a); T.never_throws(o); T.ensure('empty', nodes(ex, T.val(t)).n == 0)
    t, V = tree(T); f = T.fn(TR + 'Size'); o = T.call(f, t, []); T.ensure('size', o.ret == V.n); o = T.call(T.fn(TR + 'Empty'), t, []); T.ensure('emptiness', o.ret == (V.n == 0)); o = T.call(T.fn(TR + 'Clear'), t, []); T.ensure('cleared', nodes(ex, T.val(t)).n == 0)
@task('C24', 'tree', mode=M)
def AddRoot(T):
    ex = T.ex; f = T.fn(TR + 'AddNode'); t, V = tree(T); a = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'value'); o = T.call(f, t, [a]); T.never_throws(o); V1 = nodes(ex, T.val(t))
    T.ensure('index of the new node', o.ret == V.n); T.ensure('one node more', V1.n == V.n + 1); T.ensure('a root with the value given', z3.And(V1.value(V.n) == T.val(a), V1.parent(V.n) == -1, V1.nkids(V.n) == 0)); keeps(T, V, V1); still(T, V1, V.w)
def notyet(L):
    """the child is not among those looked at"""
    ex = L.ex; n = ex.load(L.frame.this, L.cur); v = n.f['child_indices_']; v = v if isinstance(v, Struct) else ex.ty.unpack(ex.ty.fieldtid(n.tid, 'child_indices_'), v); c = [L.read(x) for x in L.params('int')] or [L.locals('int')[0]]; k = z3.Int('k'); i = L.i
    return [('position', z3.And(i >= 0, i <= v.f['len'])), ('not found so far', qall([k], z3.Implies(z3.And(k >= 0, k < i), sel(v.f['arr'], k) != c[0]), patterns=[sel(v.f['arr'], k)]))]
def node(T, f):
    n = T.obj(f['cls'], 'node'); v = T.val(n); T.assume(z3.And(v.f['child_indices_'].f['len'] >= 0, v.f['child_indices_'].f['len'] <= 2 ** 48)); return n, v
@task('C24', 'tree', mode=M, loops=[notyet])
def AddChild(T):
    """a child index is listed once"""
    ex = T.ex; f = T.fn(ND + 'AddChildIndex'); n, v = node(T, f); c = T.sym(f['ps'][0]['t'], 'child'); o = T.call(f, n, [c]); T.never_throws(o); r = T.val(n); a, b = v.f['child_indices_'].f, r.f['child_indices_'].f; k, j = T.qv('k'), T.qv('j')
    T.ensure('value and parent untouched', z3.And(r.f['value_'] == v.f['value_'], r.f['parent_index_'] == v.f['parent_index_'])); T.ensure('listed children stay in their place', z3.Implies(z3.And(k >= 0, k < a['len']), sel(b['arr'], k) == sel(a['arr'], k)))
    T.ensure('added at the end, unless listed already', z3.Or(z3.And(b['len'] == a['len'] + 1, sel(b['arr'], a['len']) == c), b['len'] == a['len'])); T.ensure('appended only if not listed before', z3.Implies(z3.And(b['len'] != a['len'], k >= 0, k < a['len']), sel(a['arr'], k) != c))
    T.ensure('appended if not listed before', z3.Implies(qall([j], z3.Implies(z3.And(j >= 0, j < a['len']), sel(a['arr'], j) != c), patterns=[sel(a['arr'], j)]), b['len'] == a['len'] + 1))
@task('C24', 'tree', mode=M, loops=[notyet])
def AddConnected(T):
    ex = T.ex; f = T.fn(TR + 'AddNodeAndConnect'); t, V = tree(T); a = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'value'); p = T.sym(f['ps'][1]['t'], 'parent'); t0 = T.val(t); o = T.call(f, t, [a, p]); T.throws_iff(o, mkNot(inn(V, p)), 'rejected exactly when there is no such parent')
    T.at_throws(o, 'tree unchanged when rejected', lambda st: (lambda x: z3.And(x.f['nodes_'].f['len'] == V.n, x.f['nodes_'].f['arr'] == V.arr))(ex.load(t, st))); V1 = nodes(ex, T.val(t)); n = V.n; k = T.qv('k')
    T.ensure('index of the new node', o.ret == n); T.ensure('one node more', V1.n == n + 1); T.ensure('holds the value given, under its parent', z3.And(V1.value(n) == T.val(a), V1.parent(n) == p, V1.nkids(n) == 0)); keeps(T, V, V1, but=p)
    T.ensure('parent: value and parent untouched', z3.And(V1.value(p) == V.value(p), V1.parent(p) == V.parent(p))); T.ensure('parent: one child more', z3.And(V1.nkids(p) == V.nkids(p) + 1, V1.kid(p, V.nkids(p)) == n)); T.ensure('parent: other children untouched', z3.Implies(z3.And(k >= 0, k < V.nkids(p)), V1.kid(p, k) == V.kid(p, k)))
    still(T, V1, lambda i: z3.If(i == n, V.nkids(p), V.w(i)))
# ---- the check. Lists(p, c): c is among the children of node p (of the collection checked)
Lists = z3.Function('lists', I_, I_, B_); Where = z3.Function('where_listed', I_, I_, I_)
def lists_def(V):
    p, c, k = z3.Ints('lp lc lk'); return z3.And(qall([p, c], z3.Implies(Lists(p, c), z3.And(Where(p, c) >= 0, Where(p, c) < V.nkids(p), V.kid(p, Where(p, c)) == c)), patterns=[Lists(p, c)]), qall([p, k], z3.Implies(z3.And(k >= 0, k < V.nkids(p)), Lists(p, V.kid(p, k))), patterns=[V.kid(p, k)]))
def gparent(V, i): p = V.parent(i); return z3.And(p < i, z3.Implies(p >= 0, Lists(p, i)))
def glinked(V, n=None):
    i, k = z3.Const(V.ex.fresh_id('i'), I_), z3.Const(V.ex.fresh_id('k'), I_); return z3.And(qall([i], z3.Implies(inn(V, i, n), gparent(V, i)), patterns=[sel(V.arr, i)]), qall([i, k], z3.Implies(kidin(V, i, k, n), okkid(V, i, k)), patterns=[V.kid(i, k)]))
def eachnode(L): V = L.ex.task.data['V']; i = L.i; g = glinked(V, i); return [('position', z3.And(i >= 0, i <= V.n)), ('parents of every earlier node', g.arg(0)), ('children of every earlier node', g.arg(1))]
def eachkid(L):
    V = L.ex.task.data['V']; c = L.ex.task.data['cur'] = [L.read(x) for x in L.locals('int') if L.ex.ty.name(x.tid) == 'unsigned long'][0]; k = z3.Int('k'); i = L.i
    return [('position', z3.And(i >= 0, i <= V.nkids(c))), ('every earlier child', qall([k], z3.Implies(z3.And(k >= 0, k < i), okkid(V, c, k)), patterns=[V.kid(c, k)]))]
@task('C24', 'tree', mode=M, loops=[eachnode, eachkid])
def Check(T):
    ex = T.ex; f = T.fn(TR + 'CheckNodeLinkage'); ns = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'nodes'); V = View(ex, T.val(ns)); T.data['V'] = V; T.assume(wf(V)); T.assume(z3.And(V.n >= 0, V.n <= 2 ** 48), 'at most 2^48 nodes'); T.assume(lists_def(V)); o = T.call(f, None, [ns]); T.never_throws(o); T.ensure('true exactly when the nodes are linked', o.ret == glinked(V))
def check_con(ex, c):
    """proved by Check"""
    v = ex.asval(c.args[0]) if hasattr(c, 'args') else c.val(0); d = ex.task.data; ex.oblige('callee-pre', z3.And(v.f['arr'] == d['nodes'].f['arr'], v.f['len'] == d['nodes'].f['len']), c.e, 'the nodes given are checked'); return d['ok']
@task('C24', 'tree', mode=M, contracts={Q + TR + 'CheckNodeLinkage': check_con})
def Accept(T):
    """SetNodes and the constructor take exactly the collections the check accepts"""
    ex = T.ex; f = T.fn(TR + 'SetNodes'); t, V = tree(T); ns = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'nodes'); nv = T.val(ns); ok = z3.Const('accepted', B_); T.data.update(nodes=nv, ok=ok); o = T.call(f, t, [ns]); T.never_throws(o); r = T.val(t).f['nodes_'].f
    T.ensure('says whether they were accepted', o.ret == ok); T.ensure('holds the nodes given if accepted', z3.Implies(ok, z3.And(r['arr'] == nv.f['arr'], r['len'] == nv.f['len']))); T.ensure('unchanged otherwise', z3.Implies(z3.Not(ok), z3.And(r['arr'] == V.arr, r['len'] == V.n)))
    f = [f for f in ex.F.values() if f.get('isctor') and f.get('cls') == cls(T) and len(f['ps']) == 1 and ex.ty.kind(ex.ty.strip_ref(f['ps'][0]['t'])) == 'vec'][0]; t = T.lv(f['cls'], ex.uninit(f['cls']), 'new'); o = T.call(f, t, [ns]); T.throws_iff(o, z3.Not(ok), 'constructor rejects the others'); r = T.val(t).f['nodes_'].f; T.ensure('constructor holds the nodes given', z3.And(r['arr'] == nv.f['arr'], r['len'] == nv.f['len']))
# ---- extraction. Anc(g, k): the k-th ancestor of node g
Anc = z3.Function('ancestor', I_, I_, I_)
def climb(L):
    """the path so far, backwards"""
    ex = L.ex; d = ex.task.data; V = d['V']; g = d['goal']; p = L.read(L.written('vec')[0]).f; q = L.read(L.written('int')[0]); n = p['len']; k = z3.Int('k'); ex.fact(Anc(g, 0) == g)
    for x in (n - 1, n): ex.fact(z3.Implies(x >= 0, Anc(g, x + 1) == V.parent(Anc(g, x))))
    return [('length', z3.And(n >= 1, n <= g + 1)), ('next to visit', z3.And(q == Anc(g, n), q < V.n, q + n <= g)), ('values of the ancestors', qall([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(sel(p['arr'], k) == V.value(Anc(g, k)), inn(V, Anc(g, k)))), patterns=[sel(p['arr'], k), Anc(g, k)]))]
climb.decreases = lambda L: L.read(L.written('int')[0])+ 1
def chain(V, g, r):
    """posts of ExtractSolutionPath: r holds the values from a root down to g"""
    n = r.f['len']; k = z3.Const(V.ex.fresh_id('ck'), I_); return [('from a root', z3.And(n >= 1, V.parent(Anc(g, n - 1)) < 0)), ('to the node asked for', Anc(g, 0) == g), ('every node on the chain', qall([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(inn(V, Anc(g, k)), sel(r.f['arr'], n - 1 - k) == V.value(Anc(g, k)))), patterns=[Anc(g, k)]))]
@task('C24', 'tree', mode=M, loops=[climb])
def Extract(T):
    ex = T.ex; f = T.fn(Q + 'ExtractSolutionPath'); t, V = tree(T); g = T.sym(f['ps'][1]['t'], 'goal'); T.data.update(V=V, goal=g); o = T.call(f, None, [t, g]); T.throws_iff(o, mkNot(inn(V, g)), 'rejected exactly when there is no such node'); r = o.ret; n = r.f['len']; k = T.qv('k'); T.cover('long', n == 3)
    for nm, c in chain(V, g, r): T.ensure(nm, c)
    ex.fact(z3.Implies(k >= 0, Anc(g, k + 1) == V.parent(Anc(g, k)))); T.ensure('each value is that of the parent of the node of the next', z3.Implies(z3.And(k >= 0, k + 1 < n), z3.And(sel(r.f['arr'], n - 2 - k) == V.value(V.parent(Anc(g, k))), V.parent(Anc(g, k)) >= 0)))
def extract_con(ex, c):
    """proved by Extract"""
    d = ex.task.data; V = d['V']; g = c.val(1); t = c.val(0); ex.oblige('callee-pre', z3.And(t.f['nodes_'].f['arr'] == V.arr, t.f['nodes_'].f['len'] == V.n), c.e, 'the tree given'); ex.throw_if(mkNot(inn(V, g)), 'std::out_of_range', c.e); r = ex.fresh(c.rettid, 'path'); ex.assume(z3.And(r.f['len'] >= 1, d['isp'](g, ex.ty.pack(c.rettid, r)))); return r
def paths(L):
    d = L.ex.task.data; v = L.read(L.written('vec')[0]).f; k = z3.Int('k'); i = L.i; g = d['goals']; return [('position', z3.And(i >= 0, i <= g['len'])), ('one path per goal', v['len'] == g['len']), ('paths so far', qall([k], z3.Implies(z3.And(k >= 0, k < i), z3.And(inn(d['V'], sel(g['arr'], k)), d['isp'](sel(g['arr'], k), sel(v['arr'], k)))), patterns=[sel(v['arr'], k), sel(g['arr'], k)]))]
@task('C24', 'tree', mode=M, loops=[paths], contracts={Q + 'ExtractSolutionPath': extract_con})
def ExtractAll(T):
    ex = T.ex; f = T.fn(Q + 'ExtractSolutionPaths'); t, V = tree(T); gs = T.obj(ex.ty.strip_ref(f['ps'][1]['t']), 'goals'); g = T.val(gs).f; T.assume(z3.And(g['len'] >= 0, g['len'] <= 2 ** 40), 'at most 2^40 goals'); T.data.update(V=V, goals=g, isp=z3.Function('is_chain_to', I_, ex.ty.sort(ex.ty.elem(f['ret'] if 'ret' in f else f['rt'])), B_))
    o = T.call(f, None, [t, gs]); k = T.qv('k'); bad = z3.Exists([k], z3.And(k >= 0, k < g['len'], mkNot(inn(V, sel(g['arr'], k))))); T.throws_iff(o, bad, 'rejected exactly when there is no such node'); r = o.ret.f; T.ensure('one per goal', r['len'] == g['len']); T.ensure('in order', z3.Implies(z3.And(k >= 0, k < g['len']), T.data['isp'](sel(g['arr'], k), sel(r['arr'], k))))
