from vc.task import *
from common import *
import C24 as c24; REG.pop('C24', None)
from C24 import View, Q, TR, I_, B_, M, inn
Val = z3.DeclareSort('S_tu::Val')
# The history of a tree, as functions of the node index (prophecy: what the node holds once it has been added)
class Hist(object):
    def __init__(self, nm): self.val = z3.Function(nm + '_value', I_, Val); self.par = z3.Function(nm + '_parent', I_, I_); self.anc = z3.Function(nm + '_ancestor', I_, I_, I_); self.ok = None; self.nm = nm
Goal = z3.Function('goal_reached', Val, B_); Step = z3.Function('propagated_from', Val, Val, B_); Conn = z3.Function('connected', Val, Val, I_, B_)
def trees(a):
    """the trees an lvalue may stand for, with exclusive guards"""
    if isinstance(a, LVal): return [(z3.BoolVal(True), a)]
    out = []; seen = []
    for c, lv in a.alts: out.append((z3.And(c, *[z3.Not(s) for s in seen]), lv)); seen.append(c)
    return out
class Ghost(object):
    """ghost variables, updated by the models of the functions given to the planner"""
    def __init__(self, T, **init):
        self.ex = T.ex; self.r = {k: T.ex.new_root(-1, v, 'ghost_' + k).root for k, v in init.items()}
    def get(self, k, st=None): return (st or self.ex.st).roots[self.r[k]]
    def set(self, k, v): self.ex.log_write(self.r[k], ()); self.ex.st.roots[self.r[k]] = v
    def add(self, k, x=1): self.set(k, self.get(k) + x)
def holds(V, h, n=None):
    """every node holds what its history says"""
    i = z3.Int('hi'); return qall([i], z3.Implies(inn(V, i, n), z3.And(V.value(i) == h.val(i), V.parent(i) == h.par(i), h.par(i) < i)), patterns=[sel(V.arr, i), h.val(i), h.par(i)])
def treeok(d, v): return d['treeok'](v.f['arr'], v.f['len'])
def hist(d, lv): return d['hist'][lv.root]
def add_con(ex, c):
    """AddNodeAndConnect, proved under C24 (AddConnected): treeok stands for the tree invariant proved there"""
    d = ex.task.data; t = c.this; ts = trees(t); v = c.val(0); p = c.val(1); out = None
    x = ex.load(t); ns = x.f['nodes_']; V = View(ex, ns); ex.oblige('callee-pre', treeok(d, ns), c.e, 'the tree is linked'); ex.throw_if(mkNot(inn(V, p)), 'std::out_of_range', c.e); ex.assume(V.n <= 2 ** 48)
    n1 = ex.fresh(ns.tid, 'grown'); V1 = View(ex, n1); i = z3.Const(ex.fresh_id('ai'), I_); ex.assume(z3.And(n1.f['len'] == V.n + 1, treeok(d, n1))); ex.fact(qall([i], z3.Implies(inn(V, i), z3.And(V1.value(i) == V.value(i), V1.parent(i) == V.parent(i))), patterns=[sel(V1.arr, i)])); ex.assume(z3.And(V1.value(V.n) == v, V1.parent(V.n) == p))
    for g, lv in ts: h = hist(d, lv); ex.assume(z3.Implies(g, z3.And(h.val(V.n) == v, h.par(V.n) == p)))   # definition of the history of the new node
    ex.store(t, Struct(x.tid, dict(x.f, nodes_=n1))) if True else None
    return V.n
def chain_of(h, g, r, n):
    """what C24 (Extract) proves of an extracted path, in terms of the history"""
    k = z3.Int('ck'); l = r['len']; return z3.And(l >= 1, inn_(g, n), h.anc(g, 0) == g, h.par(h.anc(g, l - 1)) < 0, qall([k], z3.Implies(z3.And(k >= 0, k < l), z3.And(inn_(h.anc(g, k), n), sel(r['arr'], l - 1 - k) == h.val(h.anc(g, k)))), patterns=[h.anc(g, k)]))
def inn_(i, n): return z3.And(i >= 0, i < n)
def anc_def(ex, h): g, k = z3.Ints('ag ak'); ex.fact(qall([g, k], z3.Implies(z3.And(k >= 0), h.anc(g, k + 1) == h.par(h.anc(g, k))), patterns=[h.anc(g, k + 1)]))
def paths_con(ex, c):
    """ExtractSolutionPaths, proved under C24 (Extract, ExtractAll)"""
    d = ex.task.data; ns = c.val(0).f['nodes_']; V = View(ex, ns); h = hist(d, c.args[0] if isinstance(c.args[0], LVal) else c.args[0].lv); g = c.val(1).f; k = z3.Const(ex.fresh_id('pk'), I_); ex.oblige('callee-pre', treeok(d, ns), c.e, 'the tree is linked'); ex.oblige('callee-pre', qall([k], z3.Implies(inn_(k, g['len']), inn(V, sel(g['arr'], k))), patterns=[sel(g['arr'], k)]), c.e, 'goals are nodes of the tree')
    r = ex.fresh(c.rettid, 'paths'); ex.assume(r.f['len'] == g['len']); et = ex.ty.elem(r.tid); ex.fact(qall([k], z3.Implies(inn_(k, g['len']), chain_of(h, sel(g['arr'], k), ex.ty.unpack(et, sel(r.f['arr'], k)).f, V.n)), patterns=[sel(r.f['arr'], k)])); d['goals'] = g; d['paths'] = r; return r
def setup_tree(T, p, nm):
    ex = T.ex; d = T.data; t = T.obj(ex.ty.strip_ref(p['t']), nm); ns = T.val(t).f['nodes_']; V = View(ex, ns); h = Hist(nm); d.setdefault('hist', {})[t.root] = h; d['treeok'] = z3.Function('tree_invariant', ns.f['arr'].sort(), I_, B_); T.assume(c24.wf(V)); T.assume(z3.And(V.n >= 0, V.n <= 2 ** 48), 'trees of at most 2^48 nodes'); T.assume(treeok(d, ns), 'the initial trees are linked (they grew through their own operations or were accepted by the check: C24)'); T.assume(holds(V, h)); anc_def(ex, h); return t, V, h
def empty(nm): return z3.Const('no_' + nm, B_)
def models(T, hs):
    """the functions given to the planner: any function of its arguments; callbacks may be absent"""
    d = T.data; ex = T.ex; G = d['G']
    def added(ex, a, e):
        t = ex.asval(a[0]).f['nodes_']; ex.oblige('post', ex.asval(a[1]) == t.f['len'] - 1, e, 'state-added callback is given the newest node'); G.add('added'); return None
    def nearest(ex, a, e):
        n = ex.asval(a[0]).f['nodes_'].f['len']; r = z3.Int(ex.fresh_id('nearest')); ex.assume(z3.And(r >= -2 ** 63, r < 2 ** 63)); d['near'] = r; G.set('bad', z3.Or(G.get('bad'), mkNot(inn_(r, n)))); return r
    def propagate(ex, a, e):
        """any sequence of states; a state follows from the nearest one or from an earlier one (otherwise it is rejected)"""
        p = ex.asval(a[0]); r = ex.fresh(ex.rettype(e) if hasattr(ex, 'rettype') else d['proptid'], 'propagated'); n = r.f['len']; ex.assume(z3.And(n >= 0, n <= 2 ** 40)); k = z3.Const(ex.fresh_id('sk'), I_); st = lambda k: ex.ty.unpack(ex.ty.elem(r.tid), sel(r.f['arr'], k)).f; rel = lambda k: st(k)['relative_parent_index_']
        ex.fact(qall([k], z3.Implies(inn_(k, n), z3.And(z3.Implies(rel(k) < 0, Step(p, st(k)['state_'])), z3.Implies(inn_(rel(k), k), Step(st(rel(k))['state_'], st(k)['state_'])))), patterns=[sel(r.f['arr'], k)]))
        G.set('bad', z3.Or(G.get('bad'), z3.Exists([k], z3.And(inn_(k, n), rel(k) >= k)))); G.add('total', n); d['prop'] = (r, st, rel); return r
    return added, nearest, propagate
def stopper(ts):
    def stop(ex, a, e): ex.oblige('post', z3.And(*[ex.asval(x) == ex.load(t).f['nodes_'].f['len'] for x, t in zip(a, ts)]), e, 'termination check is given the tree sizes'); return z3.Const(ex.fresh_id('stop'), B_)
    return stop
def goal_list(d, h, n, g, upto=None):
    """the goals recorded are exactly the nodes accepted by the goal check, oldest first (Cnt: how many of the first nodes are)"""
    i, k = z3.Ints('gi gk'); c = d['cnt']; return z3.And(g['len'] == c(n), qall([i], z3.Implies(inn_(i, n), z3.And(c(i) >= 0, c(i) + z3.If(Goal(h.val(i)), 1, 0) <= c(n), z3.Implies(Goal(h.val(i)), sel(g['arr'], c(i)) == i))), patterns=[c(i), h.val(i)]), qall([k], z3.Implies(inn_(k, g['len']), z3.And(inn_(sel(g['arr'], k), n), Goal(h.val(sel(g['arr'], k))))), patterns=[sel(g['arr'], k)]))
def cnt_step(ex, d, h, i): c = d['cnt']; ex.fact(c(0) == 0); [ex.fact(z3.Implies(x >= 0, c(x + 1) == c(x) + z3.If(Goal(h.val(x)), 1, 0))) for x in (i, i - 1)]
def goals_of(L): return L.read(L.locals('vec')[0]).f
def counters(d, L, n):
    G = d['G']; s = L.cur; return [('state-added callbacks', z3.Implies(z3.Not(empty('added')), G.get('added', s) == n - d['n0'])), ('goal callbacks', z3.Implies(z3.Not(empty('goal')), G.get('goals', s) == goals_of(L)['len']))]
def atstart(L):
    """which of the nodes given satisfy the goal"""
    d = L.ex.task.data; h = d['h']; i = L.i; g = goals_of(L); cnt_step(L.ex, d, h, i); return [('position', inn_(i, d['n0'] + 1)), ('goals so far', goal_list(d, h, i, g))] + counters(d, L, d['n0'])
def state(L, extra=()):
    ex = L.ex; d = ex.task.data; h = d['h']; ns = L.read(d['tree']).f['nodes_']; V = View(ex, ns); n = V.n; k = z3.Int('k'); ex.assume(n <= 2 ** 48) if L.cur is not L.entry else None
    cnt_step(ex, d, h, n); return V, n, [('nodes hold their history', holds(V, h)), ('linked', treeok(d, ns)), ('nodes', n >= d['n0']), ('every added node follows from its parent', qall([k], z3.Implies(z3.And(k >= d['n0'], k < n), z3.And(h.par(k) >= 0, Step(h.val(h.par(k)), h.val(k)))), patterns=[h.val(k), h.par(k)])), ('goals', goal_list(d, h, n, goals_of(L)))] + counters(d, L, n)
def plan(L):
    V, n, inv = state(L); d = L.ex.task.data; return inv + [('growth is what was propagated', n == d['n0'] + d['G'].get('total', L.cur))]
def follow(L):
    """the propagated states added so far"""
    ex = L.ex; V, n, inv = state(L); d = ex.task.data; h = d['h']; r, st, rel = d['prop']; i = L.i; base = L.read(d['tree'], L.entry).f['nodes_'].f['len']; m = L.read(L.written('vec')[0] if len(L.locals('vec')) < 2 else [v for v in L.locals('vec') if ex.ty.kind(ex.ty.elem(v.tid)) == 'int'][-1]).f; k = z3.Int('k'); near = d['near']
    return inv + [('position', inn_(i, r.f['len'] + 1)), ('one node per state', n == base + i), ('their indices', z3.And(m['len'] == i, qall([k], z3.Implies(inn_(k, i), sel(m['arr'], k) == base + k), patterns=[sel(m['arr'], k)]))), ('states as propagated', qall([k], z3.Implies(inn_(k, i), h.val(base + k) == st(k)['state_']), patterns=[sel(r.f['arr'], k)])), ('parents are earlier', qall([k], z3.Implies(inn_(k, i), rel(k) < k), patterns=[sel(r.f['arr'], k)])), ('parents as propagated', qall([k], z3.Implies(inn_(k, i), h.par(base + k) == z3.If(rel(k) < 0, near, base + rel(k))), patterns=[sel(r.f['arr'], k)]))]
ADD = {Q + TR + 'AddNodeAndConnect': add_con, Q + 'ExtractSolutionPaths': paths_con}
@task('C25', 'tree', mode=M, loops=[atstart, plan, follow], contracts=ADD)
def Plan(T):
    ex = T.ex; f = T.fn(Q + 'RRTPlanMultiPath'); ps = f['ps']; d = T.data; t, V, h = setup_tree(T, ps[0], 'tree'); G = Ghost(T, added=z3.IntVal(0), goals=z3.IntVal(0), total=z3.IntVal(0), bad=z3.BoolVal(False)); d.update(G=G, h=h, tree=t, n0=V.n, cnt=z3.Function('goals_among', I_, I_)); added, nearest, propagate = models(T, [h])
    d['proptid'] = [x['t'] for x in []] or T.ex.ty.find('std::vector<common_robotics_utilities::simple_rrt_planner::PropagatedState<tu::Val>, Eigen::aligned_allocator<common_robotics_utilities::simple_rrt_planner::PropagatedState<tu::Val>>>')
    def reached(ex, a, e):
        x = View(ex, ex.asval(a[0]).f['nodes_']); i = ex.asval(a[1]); ex.oblige('post', z3.And(inn(x, i), Goal(x.value(i))), e, 'goal callback is given a node that satisfies the goal'); G.add('goals'); return None
    F = lambda k, nm, m, e=None: T.lv(ex.ty.strip_ref(ps[k]['t']), T.func(nm, m, e), nm)
    o = T.call(f, None, [t, F(1, 'sampling_fn', lambda ex, a, e: z3.Const(ex.fresh_id('sample'), Val)), F(2, 'nearest_neighbor_fn', nearest), F(3, 'forward_propagation_fn', propagate), F(4, 'state_added', added, empty('added')), F(5, 'goal_check', lambda ex, a, e: Goal(ex.asval(a[0]))), F(6, 'goal_reached', reached, empty('goal')), F(7, 'termination', stopper([t]))])
    T.assumptions.append('planner functions have no side effects on the tree; the goal check depends on its argument only')
    for x in o.throws:
        ex.st = x.st; ex.oblige('throws-only', z3.Or(V.n == 0, G.get('bad')), x.node, 'throws only for an empty tree, a neighbour that is not in the tree or a propagated state that does not follow from an earlier one', assume=False)
    ex.st = o.st; T.ensure('trees without nodes are rejected', V.n > 0); r = o.ret.f['paths_']; r = r if isinstance(r, Struct) else ex.ty.unpack(ex.ty.fieldtid(o.ret.tid, 'paths_'), r); V1 = View(ex, T.val(t).f['nodes_']); n = V1.n; k, j = T.qv('k'), T.qv('j'); pk = ex.ty.unpack(ex.ty.elem(r.tid), sel(r.f['arr'], k)).f; g = sel(d['goals']['arr'], k); l = pk['len']
    T.ensure('the tree grew by exactly the propagated states', n == V.n + G.get('total')); T.ensure('nodes given keep value and parent', z3.Implies(inn_(k, V.n), z3.And(V1.value(k) == V.value(k), V1.parent(k) == V.parent(k)))); T.ensure('every other node follows from its parent', z3.Implies(z3.And(k >= V.n, k < n), z3.And(V1.parent(k) >= 0, V1.parent(k) < k, Step(V1.value(V1.parent(k)), V1.value(k)))))
    T.ensure('one path per node that satisfies the goal', r.f['len'] == d['cnt'](n)); inp = inn_(k, r.f['len']); T.ensure('paths are not empty', z3.Implies(inp, l >= 1)); T.ensure('paths end in a state the goal check accepts', z3.Implies(inp, Goal(sel(pk['arr'], l - 1)))); T.ensure('of a node of the tree', z3.Implies(inp, inn(V1, g)))
    root = h.anc(g, l - 1); T.ensure('paths begin at a root of the tree given', z3.Implies(inp, z3.And(inn(V, root), V.parent(root) < 0, sel(pk['arr'], 0) == V.value(root)))); a, b = h.anc(g, j), h.anc(g, j + 1); inj = z3.And(inp, j >= 0, j + 1 < l)
    T.lemma('ancestors', z3.Implies(inj, z3.And(b == h.par(a), inn(V1, a), inn(V1, b)))); T.lemma('their values', z3.Implies(inj, z3.And(sel(pk['arr'], l - 1 - j) == h.val(a), sel(pk['arr'], l - 2 - j) == h.val(b)))); T.lemma('as stored', z3.Implies(inj, z3.And(V1.parent(a) == b, V1.value(a) == h.val(a), V1.value(b) == h.val(b)))); T.ensure('consecutive states: child follows its parent', z3.Implies(inj, z3.And(sel(pk['arr'], l - 1 - j) == V1.value(a), sel(pk['arr'], l - 2 - j) == V1.value(V1.parent(a)), inn(V1, a), inn(V1, V1.parent(a))))); T.ensure('consecutive states: propagated, or linked in the tree given', z3.Implies(inj, z3.Or(inn(V, a), Step(sel(pk['arr'], l - 2 - j), sel(pk['arr'], l - 1 - j)))))
    T.ensure('state-added callback once per added node', z3.Implies(z3.Not(empty('added')), G.get('added') == n - V.n)); T.ensure('goal callback once per goal', z3.Implies(z3.Not(empty('goal')), G.get('goals') == r.f['len'])); T.cover('a path', z3.And(r.f['len'] == 1, V.n == 1, n == 3))
# ---- the bidirectional planner
StepB = z3.Function('propagated_in_tree', Val, Val, B_, B_)   # third argument: in the start tree
def in_start(x): return x == 0
def extract_con(ex, c):
    """ExtractSolutionPath, proved under C24 (Extract); the number of ancestors is a function of the node (trees no longer change)"""
    d = ex.task.data; lv = c.args[0]; h = hist(d, lv); ns = ex.load(lv).f['nodes_']; V = View(ex, ns); g = c.val(1); ex.oblige('callee-pre', treeok(d, ns), c.e, 'the tree is linked'); ex.throw_if(mkNot(inn(V, g)), 'std::out_of_range', c.e); r = ex.fresh(c.rettid, 'part'); ex.assume(z3.And(chain_of(h, g, r.f, V.n), r.f['len'] == d['depth'][lv.root](g), r.f['len'] <= 2 ** 48)); return r
def bstate(L):
    ex = L.ex; d = ex.task.data; G = d['G']; s = L.cur; out = []; size = []; k = z3.Int('k')
    for nm, t in zip(('start', 'goal'), d['trees']):
        h = d['hist'][t.root]; ns = L.read(t).f['nodes_']; V = View(ex, ns); n0 = d['n0'][t.root]; size.append(V.n); ex.assume(V.n <= 2 ** 48) if L.cur is not L.entry else None
        out += [(nm + ' tree: nodes hold their history', holds(V, h)), (nm + ' tree: linked', treeok(d, ns)), (nm + ' tree: nodes', V.n >= n0), (nm + ' tree: every added node follows from its parent', qall([k], z3.Implies(z3.And(k >= n0, k < V.n), z3.And(h.par(k) >= 0, StepB(h.val(h.par(k)), h.val(k), z3.BoolVal(nm == 'start')))), patterns=[h.val(k), h.par(k)]))]
    b = bridges_of(L); return size, out + [('bridges', bridged(ex, d, b, size)), ('state-added callbacks', z3.Implies(z3.Not(empty('added')), G.get('added', s) == size[0] + size[1] - sum(d['n0'].values()))), ('bridge callbacks', z3.Implies(z3.Not(empty('bridge')), G.get('bridges', s) == b.f['len']))]
def bridges_of(L):
    for v in L.locals('vec'):
        et = L.ex.ty.elem(v.tid)
        if L.ex.ty.kind(et) not in ('int', 'vec', 'opaque') and 'start_tree_index_' in str(L.ex.ty.fields(et) if hasattr(L.ex.ty, 'fields') else L.ex.ty.name(et) + 'start_tree_index_'): return L.read(v)
    raise Unsupported('no list of bridges')
def ends(ex, b, k): f = ex.ty.unpack(ex.ty.elem(b.tid), sel(b.f['arr'], k)).f; return f['start_tree_index_'], f['goal_tree_index_']
def joined(d, s, g): hs, hg = [d['hist'][t.root] for t in d['trees']]; return z3.Or(Conn(hs.val(s), hg.val(g), 0), z3.And(d['conn_goal'](hg.val(g), hs.val(s))))
def bridged(ex, d, b, size):
    k = z3.Int('bk'); s, g = ends(ex, b, k); return z3.And(b.f['len'] >= 0, qall([k], z3.Implies(inn_(k, b.f['len']), z3.And(inn_(s, size[0]), inn_(g, size[1]), joined(d, s, g))), patterns=[sel(b.f['arr'], k)]))
def pairs(L):
    """the nodes given are checked against each other"""
    size, inv = bstate(L); d = L.ex.task.data; return [('position', L.i >= 0)] + inv + [('trees as given', z3.And(size[0] == d['n0'][d['trees'][0].root], size[1] == d['n0'][d['trees'][1].root]))]
def bplan(L): size, inv = bstate(L); d = L.ex.task.data; return inv + [('growth is what was propagated', size[0] + size[1] == sum(d['n0'].values()) + d['G'].get('total', L.cur))]
def bfollow(L):
    ex = L.ex; size, inv = bstate(L); d = ex.task.data; r, st, rel, p0, ty = d['prop']; i = L.i; k = z3.Int('k'); m = L.read([v for v in L.locals('vec') if ex.ty.kind(ex.ty.elem(v.tid)) == 'int'][-1]).f; near = d['near']; out = [('position', inn_(i, r.f['len'] + 1)), ('one index per state', m['len'] == i)]
    for q, t in enumerate(d['trees']):
        h = d['hist'][t.root]; base = L.read(t, L.entry).f['nodes_'].f['len']; act = in_start(ty) if q == 0 else mkNot(in_start(ty)); nm = ('start', 'goal')[q] + ' tree active: '
        out += [(nm + 'one node per state', z3.Implies(act, size[q] == base + i)), (nm + 'other tree unchanged', z3.Implies(mkNot(act), size[q] == base)), (nm + 'their indices', z3.Implies(act, qall([k], z3.Implies(inn_(k, i), sel(m['arr'], k) == base + k), patterns=[sel(m['arr'], k)]))), (nm + 'states as propagated', z3.Implies(act, qall([k], z3.Implies(inn_(k, i), h.val(base + k) == st(k)['state_']), patterns=[sel(r.f['arr'], k)]))), (nm + 'parents as propagated', z3.Implies(act, qall([k], z3.Implies(inn_(k, i), h.par(base + k) == z3.If(rel(k) < 0, near, base + rel(k))), patterns=[sel(r.f['arr'], k)])))]
    return inv + out + [('parents are earlier', qall([k], z3.Implies(inn_(k, i), rel(k) < k), patterns=[sel(r.f['arr'], k)]))]
def whole(ex, d, b, k, p, size):
    """path p joins a root of the start tree with a root of the goal tree over bridge k"""
    (ts, tg) = d['trees']; hs, hg = d['hist'][ts.root], d['hist'][tg.root]; s, g = ends(ex, b, k); a = d['depth'][ts.root](s); c = d['depth'][tg.root](g); j = z3.Int('pj')
    return z3.And(a >= 1, c >= 1, p['len'] == a + c, hs.par(hs.anc(s, a - 1)) < 0, hg.par(hg.anc(g, c - 1)) < 0, hs.anc(s, 0) == s, hg.anc(g, 0) == g, qall([j], z3.Implies(inn_(j, a), z3.And(inn_(hs.anc(s, j), size[0]), sel(p['arr'], a - 1 - j) == hs.val(hs.anc(s, j)))), patterns=[hs.anc(s, j)]), qall([j], z3.Implies(inn_(j, c), z3.And(inn_(hg.anc(g, j), size[1]), sel(p['arr'], a + j) == hg.val(hg.anc(g, j)))), patterns=[hg.anc(g, j)]))
def collect(L):
    ex = L.ex; d = ex.task.data; b = bridges_of(L); i = L.i; ps = L.read([v for v in L.written('vec') if ex.ty.kind(ex.ty.elem(v.tid)) == 'vec'][0]); k = z3.Int('k'); size = [L.read(t).f['nodes_'].f['len'] for t in d['trees']]; d['bridges'] = b
    return [('position', inn_(i, b.f['len'] + 1)), ('one path per bridge', ps.f['len'] == i), ('paths so far', qall([k], z3.Implies(inn_(k, i), whole(ex, d, b, k, ex.ty.unpack(ex.ty.elem(ps.tid), sel(ps.f['arr'], k)).f, size)), patterns=[sel(ps.f['arr'], k)]))]
@task('C25', 'tree', mode=M, loops=[pairs, pairs, bplan, bfollow, collect], contracts={Q + TR + 'AddNodeAndConnect': add_con, Q + 'ExtractSolutionPath': extract_con})
def PlanBi(T):
    ex = T.ex; f = T.fn(Q + 'BiRRTPlanMultiPath'); ps = f['ps']; d = T.data; (ts, V0, h0), (tg, V1, h1) = setup_tree(T, ps[0], 'start'), setup_tree(T, ps[1], 'goal'); G = Ghost(T, added=z3.IntVal(0), bridges=z3.IntVal(0), total=z3.IntVal(0), bad=z3.BoolVal(False)); d.update(G=G, trees=[ts, tg], n0={ts.root: V0.n, tg.root: V1.n}, depth={ts.root: z3.Function('start_depth', I_, I_), tg.root: z3.Function('goal_depth', I_, I_)}, conn_goal=z3.Function('connected_from_goal', Val, Val, B_)); d['proptid'] = ex.ty.find('std::vector<common_robotics_utilities::simple_rrt_planner::PropagatedState<tu::Val>, Eigen::aligned_allocator<common_robotics_utilities::simple_rrt_planner::PropagatedState<tu::Val>>>')
    added, nearest, propagate = models(T, None); which = lambda lv: z3.If(z3.Or(*[g for g, x in trees(lv) if x.root == ts.root] or [z3.BoolVal(False)]), 0, 1)
    def badd(ex, a, e): ex.oblige('post', in_start(ex.asval(a[2])) == (which(a[0]) == 0), e, 'state-added callback is told the tree'); return added(ex, a, e)
    def pick(ex, a, e): x = nearest(ex, a, e); return x
    def bprop(ex, a, e):
        p, ty = ex.asval(a[0]), ex.asval(a[2]); r = ex.fresh(d['proptid'], 'propagated'); n = r.f['len']; ex.assume(z3.And(n >= 0, n <= 2 ** 40)); k = z3.Const(ex.fresh_id('sk'), I_); st = lambda k: ex.ty.unpack(ex.ty.elem(r.tid), sel(r.f['arr'], k)).f; rel = lambda k: st(k)['relative_parent_index_']
        ex.fact(qall([k], z3.Implies(inn_(k, n), z3.And(z3.Implies(rel(k) < 0, StepB(p, st(k)['state_'], in_start(ty))), z3.Implies(inn_(rel(k), k), StepB(st(rel(k))['state_'], st(k)['state_'], in_start(ty))))), patterns=[sel(r.f['arr'], k)])); G.set('bad', z3.Or(G.get('bad'), z3.Exists([k], z3.And(inn_(k, n), rel(k) >= k)))); G.add('total', n); d['prop'] = (r, st, rel, p, ty); return r
    def conn(ex, a, e): x, y, ty = [ex.asval(z) for z in a]; return z3.If(in_start(ty), Conn(x, y, 0), d['conn_goal'](x, y))
    def tsample(ex, a, e): n = ex.asval(a[0]).f['nodes_'].f['len']; r = z3.Int(ex.fresh_id('sampled')); ex.assume(z3.And(r >= -2 ** 63, r < 2 ** 63)); G.set('bad', z3.Or(G.get('bad'), mkNot(inn_(r, n)))); return r
    def bridge(ex, a, e):
        x, y = View(ex, ex.asval(a[0]).f['nodes_']), View(ex, ex.asval(a[2]).f['nodes_']); s, g = ex.asval(a[1]), ex.asval(a[3]); ex.oblige('post', z3.And(which(a[0]) == 0, which(a[2]) == 1, inn(x, s), inn(y, g), z3.Or(Conn(x.value(s), y.value(g), 0), d['conn_goal'](y.value(g), x.value(s)))), e, 'bridge callback is given connected nodes of both trees'); G.add('bridges'); return None
    F = lambda k, nm, m, e=None: T.lv(ex.ty.strip_ref(ps[k]['t']), T.func(nm, m, e), nm); anyenum = lambda nm: (lambda ex, a, e: (lambda r: (ex.assume(z3.And(r >= 0, r <= 255)), r)[1])(z3.Int(ex.fresh_id(nm))))
    o = T.call(f, None, [ts, tg, F(2, 'select_sample_type', anyenum('sample_type')), F(3, 'sampling_fn', lambda ex, a, e: z3.Const(ex.fresh_id('sample'), Val)), F(4, 'tree_sampling', tsample), F(5, 'nearest', pick), F(6, 'propagation', bprop), F(7, 'state_added', badd, empty('added')), F(8, 'connected', conn), F(9, 'goal_bridge', bridge, empty('bridge')), F(10, 'select_tree', anyenum('active_tree')), F(11, 'termination', stopper([ts, tg]))])
    T.assumptions.append('planner functions have no side effects on the trees; the connection check depends on its arguments only')
    for x in o.throws:
        ex.st = x.st; ex.oblige('throws-only', z3.Or(V0.n == 0, V1.n == 0, G.get('bad')), x.node, 'throws only for an empty tree, a neighbour or sample that is not in its tree or a propagated state that does not follow from an earlier one', assume=False)
    ex.st = o.st; T.ensure('trees without nodes are rejected', z3.And(V0.n > 0, V1.n > 0)); r = o.ret.f['paths_']; r = r if isinstance(r, Struct) else ex.ty.unpack(ex.ty.fieldtid(o.ret.tid, 'paths_'), r); Vs, Vg = [View(ex, T.val(t).f['nodes_']) for t in (ts, tg)]; b = d['bridges']; k, j = T.qv('k'), T.qv('j'); size = [Vs.n, Vg.n]; pk = ex.ty.unpack(ex.ty.elem(r.tid), sel(r.f['arr'], k)).f; inp = inn_(k, r.f['len']); s, g = ends(ex, b, k); a, c = d['depth'][ts.root](s), d['depth'][tg.root](g)
    T.ensure('the trees grew by exactly the propagated states', Vs.n + Vg.n == V0.n + V1.n + G.get('total'))
    for nm, V, V2, q in (('start', V0, Vs, True), ('goal', V1, Vg, False)):
        T.ensure(nm + ' tree: nodes given keep value and parent', z3.Implies(inn(V, k), z3.And(V2.value(k) == V.value(k), V2.parent(k) == V.parent(k)))); T.ensure(nm + ' tree: every other node follows from its parent', z3.Implies(z3.And(k >= V.n, k < V2.n), z3.And(inn_(V2.parent(k), k), StepB(V2.value(V2.parent(k)), V2.value(k), z3.BoolVal(q)))))
    T.ensure('one path per bridge', r.f['len'] == b.f['len']); T.lemma('each joins the trees', z3.Implies(inp, whole(ex, d, b, k, pk, size))); rs, rg = h0.anc(s, a - 1), h1.anc(g, c - 1)
    T.ensure('paths begin at a root of the start tree given', z3.Implies(inp, z3.And(inn(V0, rs), V0.parent(rs) < 0, sel(pk['arr'], 0) == V0.value(rs)))); T.ensure('paths end at a root of the goal tree given', z3.Implies(inp, z3.And(inn(V1, rg), V1.parent(rg) < 0, sel(pk['arr'], pk['len'] - 1) == V1.value(rg)))); T.ensure('the trees meet at states reported connected', z3.Implies(inp, z3.Or(Conn(sel(pk['arr'], a - 1), sel(pk['arr'], a), 0), d['conn_goal'](sel(pk['arr'], a), sel(pk['arr'], a - 1)))))
    x, y = h0.anc(s, j), h0.anc(s, j + 1); inj = z3.And(inp, j >= 0, j + 1 < a); T.lemma('ancestors in the start tree', z3.Implies(inj, z3.And(y == h0.par(x), inn(Vs, x), inn(Vs, y)))); T.lemma('their values', z3.Implies(inj, z3.And(sel(pk['arr'], a - 1 - j) == h0.val(x), sel(pk['arr'], a - 2 - j) == h0.val(y)))); T.ensure('start part: propagated from the predecessor, or linked in the tree given', z3.Implies(inj, z3.Or(inn(V0, x), StepB(sel(pk['arr'], a - 2 - j), sel(pk['arr'], a - 1 - j), z3.BoolVal(True)))))
    x, y = h1.anc(g, j), h1.anc(g, j + 1); inj = z3.And(inp, j >= 0, j + 1 < c); T.lemma('ancestors in the goal tree', z3.Implies(inj, z3.And(y == h1.par(x), inn(Vg, x), inn(Vg, y)))); T.lemma('their values (goal tree)', z3.Implies(inj, z3.And(sel(pk['arr'], a + j) == h1.val(x), sel(pk['arr'], a + j + 1) == h1.val(y)))); T.ensure('goal part: propagated from the successor, or linked in the tree given', z3.Implies(inj, z3.Or(inn(V1, x), StepB(sel(pk['arr'], a + j + 1), sel(pk['arr'], a + j), z3.BoolVal(False)))))
    T.ensure('state-added callback once per added node', z3.Implies(z3.Not(empty('added')), G.get('added') == Vs.n + Vg.n - V0.n - V1.n)); T.ensure('bridge callback once per bridge', z3.Implies(z3.Not(empty('bridge')), G.get('bridges') == r.f['len']))
# ---- the single-path planners: the first path of the planner above, which is told to stop once there is a solution
def single_con(np, cb, term):
    def con(ex, c):
        d = ex.task.data; G = d['G']; ps = c.args
        for k, a in enumerate(ps):
            if k in (cb, term): continue
            want = d['args'][k]; same = isinstance(a, LVal) and a.root == want.root and a.path == want.path; ex.oblige('callee-pre', z3.BoolVal(same), c.e, 'planner is given tree / function %d' % k)
        sizes = [z3.Int(ex.fresh_id('size')) for _ in d['trees']]; idx = [z3.Int(ex.fresh_id('node')) for _ in d['trees']]; [ex.assume(z3.And(x >= 0, x < 2 ** 62)) for x in sizes + idx]; d['sizes'] = sizes; d['idx'] = idx
        stop = lambda: ex.truth(ex.invoke(ex.asval(ps[term]), list(sizes), c.e)); r = stop(); ex.oblige('post', z3.Implies(z3.Not(d['stop']), z3.Not(r)), c.e, 'planning continues until there is a solution or the user stops it'); ex.oblige('post', z3.Implies(d['stop'], r), c.e, 'planning stops when the user says so')
        a = [d['trees'][0], idx[0]] if len(sizes) == 1 else [d['trees'][0], idx[0], d['trees'][1], idx[1], z3.IntVal(1)]; ex.invoke(ex.asval(ps[cb]), a, c.e); ex.oblige('post', z3.Implies(z3.Not(empty('goal')), G.get('goals') == 1), c.e, 'goal callback is passed on'); ex.oblige('post', stop(), c.e, 'planning stops once there is a solution')
        res = ex.fresh(c.rettid, 'planned'); d['res'] = res; return res
    return con
def single(T, name, ntrees, cb, term):
    ex = T.ex; f = T.fn(Q + name); ps = f['ps']; d = T.data; G = Ghost(T, goals=z3.IntVal(0)); d.update(G=G, stop=z3.Bool('user_stops')); d['trees'] = [T.obj(ex.ty.strip_ref(ps[k]['t']), 'tree%d' % k) for k in range(ntrees)]
    def goal(ex, a, e):
        ts = [x for x in a if isinstance(x, LVal) and x.root in [t.root for t in d['trees']]]; ix = [ex.asval(a[1])] + ([ex.asval(a[3])] if ntrees == 2 else []); ex.oblige('post', z3.And(z3.BoolVal([x.root for x in ts] == [t.root for t in d['trees']]), *[x == y for x, y in zip(ix, d['idx'])]), e, 'goal callback is given the same nodes'); G.add('goals'); return None
    def stop(ex, a, e): ex.oblige('post', z3.And(*[ex.asval(x) == y for x, y in zip(a, d['sizes'])]), e, 'termination check is given the tree sizes'); return d['stop']
    def never(ex, a, e): raise Unsupported('called outside the planner')
    d['args'] = d['trees'] + [T.lv(ex.ty.strip_ref(ps[k]['t']), T.func(['goal', 'stop', 'fn%d' % k][0 if k == cb else 1 if k == term else 2], goal if k == cb else stop if k == term else never, empty('goal') if k == cb else z3.Const('empty_%d' % k, B_)), 'fn%d' % k) for k in range(ntrees, len(ps))]
    T.assume(z3.Not(z3.Const('empty_%d' % term, B_))); o = T.call(f, None, list(d['args'])); T.never_throws(o); ex.st = o.st; r = o.ret.f['path_']; ps_ = d['res'].f['paths_']; un = lambda owner, n, v: v if isinstance(v, Struct) else ex.ty.unpack(ex.ty.fieldtid(owner.tid, n), v); r = un(o.ret, 'path_', r); ps_ = un(d['res'], 'paths_', ps_); p0 = ex.ty.unpack(ex.ty.elem(ps_.tid), sel(ps_.f['arr'], 0)).f; k = T.qv('k')
    T.ensure('no path exactly if the planner found none', z3.Implies(ps_.f['len'] == 0, r.f['len'] == 0)); T.ensure('otherwise its first path', z3.Implies(ps_.f['len'] > 0, z3.And(r.f['len'] == p0['len'], z3.Implies(inn_(k, r.f['len']), sel(r.f['arr'], k) == sel(p0['arr'], k)))))
@task('C25', 'tree', mode=M, contracts={Q + 'RRTPlanMultiPath': single_con(8, 6, 7)})
def PlanSingle(T): single(T, 'RRTPlanSinglePath', 1, 6, 7)
@task('C25', 'tree', mode=M, contracts={Q + 'BiRRTPlanMultiPath': single_con(12, 9, 11)})
def PlanSingleBi(T): single(T, 'BiRRTPlanSinglePath', 2, 9, 11)
