from vc.task import *
from common import *
import C13 as c13; REG.pop('C13', None)
from C13 import View, graph, gcls, linked, okin, okout, has, IL, OL, fro, to, same, wf, I_
M = {'opaque': ['tu::Val']}
# B(x): number of pruned indices below x; R(x) = x - B(x): new index of a kept node x; O(k): the kept node with new index k
B = z3.Function('pruned_below', I_, I_); O = z3.Function('origin', I_, I_)
def R(x): return x - B(x)
def P(d, x): return sel(d['P'], x)
F = {w: z3.Function('kept_' + w, I_, I_, I_) for w in (IL, OL)}     # F[w](k, e): kept edges among the first e edges of (new) node k
EO = {w: z3.Function('origin_' + w, I_, I_, I_) for w in (IL, OL)}  # EO[w](k, q): original position of edge q of new node k
def far(w, e): return fro(e) if w == IL else to(e)
def recB(ex, d, x):
    for y in (x, x - 1): ex.fact(z3.Implies(z3.And(d['srt'], y >= 0), B(y + 1) == B(y) + z3.If(P(d, y), 1, 0)))
    ex.fact(z3.Implies(d['srt'], B(0) == 0))
def originax(ex, d):
    p = z3.Const(ex.fresh_id('p'), I_); d['originax'] = (qall([p], z3.Implies(z3.And(d['srt'], p >= 0, mkNot(P(d, p))), O(R(p)) == p), patterns=[B(p)])); ex.fact(d['originax'])
@task('C14', 'graph', mode=M)
def RankLemma(T):
    """induction: new indices of kept nodes strictly increase (so the origin of a new index is well defined); same for edge positions"""
    ex = T.ex; p, q = T.qv('p'), T.qv('q'); Pr = z3.Function('pruned', I_, z3.BoolSort()); rec = lambda y: B(y + 1) == B(y) + z3.If(Pr(y), 1, 0)
    T.assume(z3.And(p >= 0, mkNot(Pr(p)), q > p, rec(p), rec(q)), 'ghost functions defined by their recurrences')
    claim = lambda q: R(q) >= R(p) + 1
    T.ensure('base', claim(p + 1)); T.ensure('step', z3.Implies(claim(q), claim(q + 1)))
    f = z3.Function('f', I_, I_); kept = z3.Function('kept', I_, z3.BoolSort()); T.assume(z3.And(kept(p), f(p + 1) == f(p) + 1, f(q + 1) == f(q) + z3.If(kept(q), 1, 0)))
    T.ensure('edge positions: base', f(p + 1) >= f(p) + 1); T.ensure('edge positions: step', z3.Implies(f(q) >= f(p) + 1, f(q + 1) >= f(p) + 1))
@task('C14', 'graph', mode=M)
def CountLemma(T):
    """the count of pruned indices below x, read off a strictly sorted enumeration v of the pruned set, satisfies the recurrence"""
    ex = T.ex; v = z3.Const('v', z3.ArraySort(I_, I_)); m, x = T.qv('m'), T.qv('x'); Ps = z3.Const('P', z3.ArraySort(I_, z3.BoolSort())); pos = z3.Function('pos', I_, I_); j, k, y = T.qv('j'), T.qv('k'), T.qv('y')
    T.assume(z3.And(m >= 0, qall([j, k], z3.Implies(z3.And(j >= 0, j < k, k < m), sel(v, j) < sel(v, k)))))
    T.assume(z3.And(qall([j], z3.Implies(z3.And(j >= 0, j < m), sel(Ps, sel(v, j))), patterns=[sel(v, j)]), qall([y], z3.Implies(sel(Ps, y), z3.And(pos(y) >= 0, pos(y) < m, sel(v, pos(y)) == y)), patterns=[sel(Ps, y)])))
    for z in (x, x + 1): y = z; T.assume(z3.And(B(y) >= 0, B(y) <= m)); T.assume(qall([j], z3.Implies(z3.And(j >= 0, j < m), (j < B(y)) == (sel(v, j) < y)), patterns=[sel(v, j)]))
    for t in (B(x), B(x) - 1, B(x + 1) - 1, B(x + 1), pos(x), pos(x) + 1, pos(x) - 1): T.assume(z3.Or(sel(v, t) == x, sel(v, t) != x))
    T.assume(z3.Or(sel(Ps, x), mkNot(sel(Ps, x))))
    T.ensure('recurrence', B(x + 1) == B(x) + z3.If(sel(Ps, x), 1, 0))
    y = T.qv('y'); T.assume(qall([y], z3.Implies(sel(Ps, y), y >= 0), patterns=[sel(Ps, y)])); T.assume(z3.Implies(z3.And(z3.IntVal(0) < m), sel(Ps, sel(v, 0)))); T.assume(z3.And(B(0) >= 0, B(0) <= m, z3.Implies(m > 0, (0 < B(0)) == (sel(v, 0) < 0))))
    T.ensure('nothing below zero', B(0) == 0)
def ranked(L):
    """the sorted vector of pruned indices: B is its rank function (exists because the vector is strictly sorted; CountLemma gives the recurrence)"""
    ex = L.ex; d = ex.task.data
    if 'srt' not in d:
        v = L.entry and L.at(L.entry).read(L.locals('vec')[0]); d['v'] = v; a, m = v.f['arr'], v.f['len']; j, k, x = [z3.Const(ex.fresh_id(n), I_) for n in 'jkx']
        d['srt'] = z3.Const(ex.fresh_id('sorted'), z3.BoolSort()); pos = ex.keypos_of = z3.Function(ex.fresh_id('vpos'), I_, I_)
        body = z3.And(qall([j, k], z3.Implies(z3.And(j >= 0, j < k, k < m), sel(a, j) < sel(a, k)), patterns=[z3.MultiPattern(sel(a, j), sel(a, k))]), qall([j], z3.Implies(z3.And(j >= 0, j < m), P(d, sel(a, j))), patterns=[sel(a, j)]), qall([x], z3.Implies(P(d, x), z3.Exists([j], z3.And(j >= 0, j < m, sel(a, j) == x))), patterns=[P(d, x)]))
        ex.fact(d['srt'] == body)
        ex.fact(z3.Implies(d['srt'], z3.And(qall([x], z3.And(B(x) >= 0, B(x) <= m), patterns=[B(x)]), qall([x, j], z3.Implies(z3.And(j >= 0, j < m), (j < B(x)) == (sel(a, j) < x)), patterns=[z3.MultiPattern(B(x), sel(a, j))]))))
        originax(ex, d)
    return d
def pruned(ex, ls):
    ls = [lv for lv in ls if lv.root not in ex.task.data['params'] and any(n == 'nodes_' for n, _ in ex.ty.fields(lv.tid))]
    if not ls: raise Unsupported('no local graph')
    return ls[-1]
def copyloop(L):
    ex = L.ex; d = ranked(L); V = d['V']; i = L.i; recB(ex, d, i); g = View(ex, L.read(pruned(ex, L.locals('rec')))); k, p = z3.Int('k'), z3.Int('p'); d['copied'] = g
    return [('pruned indices sorted', d['srt']), ('copy position', z3.And(i >= 0, i <= V.n)), ('kept so far', g.n == R(i)), ('count non-negative', R(i) >= 0),
            ('copies in order', qall([k], z3.Implies(z3.And(k >= 0, k < g.n), z3.And(sel(g.arr, k) == sel(V.arr, O(k)), O(k) >= 0, O(k) < i, mkNot(P(d, O(k))), R(O(k)) == k)), patterns=[sel(g.arr, k)])),
            ('every kept node copied', qall([p], z3.Implies(z3.And(p >= 0, p < i, mkNot(P(d, p))), z3.And(R(p) >= 0, R(p) < g.n)), patterns=[B(p)]))]
def node(ex, et, x): return ex.ty.unpack(et, x)
def unp(ex, v, tid): return v if isinstance(v, Struct) else ex.ty.unpack(tid, v)
def lst(ex, et, nd, w): return unp(ex, node(ex, et, nd).f[w], ex.ty.fieldtid(et, w))
def edge(ex, l, e): return ex.ty.unpack(ex.ty.elem(l.tid), sel(l.f['arr'], e)).f
def updated(w, k, old, new):
    """same weight and scratchpad, this end renamed to k, the far end to its new index"""
    return z3.And(new['weight_'] == old['weight_'], new['scratchpad_'] == old['scratchpad_'], (to(new) if w == IL else fro(new)) == k, far(w, new) == R(far(w, old)))
def filtered(ex, d, w, k, old, new, upto):
    e = z3.Const(ex.fresh_id('e'), I_)
    return z3.And(new.f['len'] == F[w](k, upto), qall([e], z3.Implies(z3.And(e >= 0, e < upto, mkNot(P(d, far(w, edge(ex, old, e))))), z3.And(F[w](k, e) >= 0, F[w](k, e) < F[w](k, upto), updated(w, k, edge(ex, old, e), edge(ex, new, F[w](k, e))))), patterns=[F[w](k, e)] if True else []))
def recF(ex, d, w, k, old, e):
    ex.fact(F[w](k, 0) == 0)
    for y in (e, e - 1): ex.fact(z3.Implies(y >= 0, F[w](k, y + 1) == F[w](k, y) + z3.If(P(d, far(w, edge(ex, old, y))), 0, 1)))
def old_list(ex, d, k, w): return lst(ex, d['et'], sel(d['arr0'], k), w)
def edges(w):
    def inv(L):
        ex = L.ex; d = ex.task.data; k = d['item']; i = L.i; old = old_list(ex, d, k, w); recF(ex, d, w, k, old, i); new = L.read(L.written('vec')[0])
        return [('position', z3.And(i >= 0, i <= old.f['len'])), ('kept edges so far', filtered(ex, d, w, k, old, new, i)), ('count', F[w](k, i) >= 0)]
    return inv
def gen(T, x, fact, t, also=None):
    """fact was proved for the arbitrary constant x (fresh, occurring in no assumption but instances of universal facts): hence for t"""
    if not T.known(fact): raise Unsupported('generalising a fact not established')
    f = z3.substitute(fact, (x, t), *([also] if also else [])); T.ex.assume(f); return f
def shift(L):
    ex = L.ex; d = ex.task.data; i = L.i; v = d['v']; w = L.written('int')[0]; x = L.read(w, L.entry); j = z3.Int('j')
    ex.fact(z3.Implies(d['srt'], z3.And(B(x) >= 0, B(x) <= v.f['len'], *[z3.Implies(z3.And(t >= 0, t < v.f['len']), (t < B(x)) == (sel(v.f['arr'], t) < x)) for t in (i, i - 1, B(x), B(x) - 1)])))
    return [('position', z3.And(i >= 0, i <= v.f['len'])), ('one less per smaller pruned index', L.read(w) == x - i), ('all smaller so far', qall([j], z3.Implies(z3.And(j >= 0, j < i), sel(v.f['arr'], j) < x), patterns=[sel(v.f['arr'], j)]))]
def spec(ex, c):
    d = ex.task.data; root = pruned(ex, [lv for lv in ex.frames[-1].env.values() if isinstance(lv, LVal) and not lv.path and isinstance(lv.tid, int) and lv.tid >= 0 and ex.ty.kind(lv.tid) == 'rec'])
    t = root.fld('nodes_', ex.ty.fieldtid(root.tid, 'nodes_')); et = ex.ty.elem(t.tid); d['et'] = et; d['arr0'] = ex.load(t).f['arr']; d['n1'] = ex.load(t).f['len']
    def post(k, old, new):
        out = [('node value kept', node(ex, et, new[0]).f['value_'] == node(ex, et, old[0]).f['value_'])]
        for w in (IL, OL): lo, ln = lst(ex, et, old[0], w), lst(ex, et, new[0], w); out.append(('exactly the kept %s, renamed' % w, filtered(ex, d, w, k, lo, ln, lo.f['len'])))
        return out
    return [t], post
@task('C14', 'graph', mode=M, contracts={NSP + 'parallelism::StaticParallelForIndexLoop': parfor(spec), NSP + 'utility::GetKeysFromSetLike': keys_contract}, loops=[copyloop, edges(IL), shift, edges(OL), shift])
def Prune(T):
    ex = T.ex; d = T.data; f = T.fn('simple_graph::PruneGraph'); gt, st, pt = [ex.ty.strip_ref(p['t']) for p in f['ps']]
    g = graph(T, gt); V = View(ex, T.val(g)); s = T.obj(st, 'nodes_to_prune'); sv = T.val(s); par = T.obj(pt, 'parallelism'); d['V'] = V; d['P'] = sv.f['has']
    d['params'] = [g.root]
    x = T.qv('x'); T.assume(z3.And(qall([x], z3.Implies(P(d, x), z3.And(x >= 0, x < V.n)), patterns=[P(d, x)]), sv.f['size'] <= V.n), 'the nodes to prune are nodes of the graph (so there are at most as many)')
    T.assume(T.val(par).f['num_threads_'] >= 1); T.assume(linked(V), 'the input graph is linked')
    o = T.call(f, None, [g, s, par]); T.never_throws(o); W = View(ex, o.ret); n = V.n; recB(ex, d, n)
    if 'et' not in d: raise Unsupported('the parallel edge update was not reached')
    # from here on every step names the facts it uses
    k0, p0v = T.qv('node'), T.qv('kept'); H0 = z3.And(k0 >= 0, k0 < W.n)
    def state(nm, f): T.lemma(nm, f); return f
    size = state('as many nodes as are kept', z3.And(W.n == R(n), W.n == d['n1'])); sort = state('ranks', d['srt'])
    cop, every, pos = T.named('copies in order'), T.named('every kept node copied'), T.named('copy position'); cnt = T.named('kept so far'); all_ = state('all nodes visited', pos.arg(0).arg(0) == n); rng = state('all nodes updated', z3.And(d['range'][0] == 0, d['range'][1] == W.n))
    c0 = T.inst(cop, k0)
    copied = lambda k: z3.And(O(k) >= 0, O(k) < n, mkNot(P(d, O(k))), R(O(k)) == k)
    whole = lambda k: sel(d['arr0'], k) == sel(V.arr, O(k))
    T.have('kept nodes in their order', z3.Implies(H0, copied(k0)), [c0, size, cnt, pos], kind='post'); cp = lambda k: gen(T, k0, z3.Implies(H0, copied(k0)), k)
    T.have('copied whole', z3.Implies(H0, whole(k0)), [c0, size, cnt, pos], kind='post'); wh = lambda k: gen(T, k0, z3.Implies(H0, whole(k0)), k)
    wv = T.inst(T.named('work item: node value kept'), k0)
    T.have('with their values', z3.Implies(H0, W.node(k0).f['value_'] == V.node(O(k0)).f['value_']), [z3.Implies(H0, copied(k0)), z3.Implies(H0, whole(k0)), wv, size, rng], kind='post')
    ev0 = T.inst(every, p0v); ox = T.inst(d['originax'], p0v); Kp = z3.And(p0v >= 0, p0v < n, mkNot(P(d, p0v)))
    T.have('every kept node is there', z3.Implies(Kp, z3.And(R(p0v) >= 0, R(p0v) < W.n, O(R(p0v)) == p0v)), [ev0, ox, size, sort, cnt, pos, all_], kind='post')
    there = lambda p: gen(T, p0v, z3.Implies(Kp, z3.And(R(p0v) >= 0, R(p0v) < W.n, O(R(p0v)) == p0v)), p)
    e = T.qv('edge'); keptedge = {}; wt = {}; lens = {}
    for w in (IL, OL):
        wi = T.inst(T.named('work item: exactly the kept %s, renamed' % w), k0); p = O(k0); base = [z3.Implies(H0, copied(k0)), z3.Implies(H0, whole(k0)), wi, size, rng]; k = k0
        c = z3.Implies(z3.And(H0, e >= 0, e < V.len(p, w), mkNot(P(d, far(w, V.edge(p, w, e))))), z3.And(F[w](k, e) >= 0, F[w](k, e) < F[w](k, V.len(p, w)), updated(w, k, V.edge(p, w, e), W.edge(k, w, F[w](k, e)))))
        l = z3.Implies(H0, W.len(k, w) == F[w](k, V.len(p, w)))
        T.have('exactly the kept %s: number' % w, l, base, kind='post'); T.have('exactly the kept %s, renamed, in order' % w, c, base, kind='post'); keptedge[w], lens[w] = c, l
    lv = linked(V); lin = {IL: lv.arg(0), OL: lv.arg(1)}; T.assume(lin[IL], 'the input graph is linked'); T.assume(lin[OL])
    for w, other, wit, ok in ((IL, OL, V.win, okin), (OL, IL, V.wout, okout)):
        q0 = T.qv('position'); p0 = O(k0); e0 = EO[w](k0, q0); m, y, y0 = T.qv('m'), T.qv('y'), T.qv('y0')
        # EO inverts F (RankLemma: F strictly increases at kept edges); surjectivity by induction over the prefix length
        inv_ = lambda e: z3.Implies(z3.And(H0, e >= 0, e < V.len(p0, w), mkNot(P(d, far(w, V.edge(p0, w, e))))), EO[w](k0, F[w](k0, e)) == e)
        T.assume(inv_(m)); recF(ex, d, w, k0, V.edges(p0, w), m); rec = ex.facts[-2:]; f0_ = F[w](k0, 0) == 0; T.assume(f0_)
        fact = lambda m, y: z3.Implies(z3.And(y >= 0, y < F[w](k0, m)), z3.And(EO[w](k0, y) >= 0, EO[w](k0, y) < m, mkNot(P(d, far(w, V.edge(p0, w, EO[w](k0, y))))), F[w](k0, EO[w](k0, y)) == y))
        hyp = z3.And(H0, m >= 0, m < V.len(p0, w))
        T.have('every new %s edge comes from a kept one: base' % w, fact(z3.IntVal(0), y0), [f0_], assume=False); T.have('every new %s edge comes from a kept one: step' % w, z3.Implies(z3.And(hyp, fact(m, y0)), fact(m + 1, y0)), rec + [inv_(m)], assume=False)
        on = z3.Implies(H0, fact(V.len(p0, w), q0)); T.assume(on)
        old = V.edge(p0, w, e0); f0 = far(w, old); wp = wit(p0, e0); q1 = F[other](R(f0), wp); hq = has(W, k0, w, q0)
        k1 = gen(T, e, keptedge[w], e0)
        s1 = T.have('%s: original edge' % w, z3.Implies(hq, z3.And(e0 >= 0, e0 < V.len(p0, w), F[w](k0, e0) == q0, mkNot(P(d, f0)), mkNot(P(d, p0)), p0 >= 0, p0 < n, updated(w, k0, old, W.edge(k0, w, q0)))), [on, lens[w], k1, z3.Implies(H0, copied(k0))])
        li = T.inst(lin[w], p0, e0)
        s2 = T.have('%s: original edge matched' % w, z3.Implies(hq, z3.And(f0 >= 0, f0 < n, f0 != p0, wp >= 0, wp < V.len(f0, other), far(other, V.edge(f0, other, wp)) == p0)), [s1, li])
        th = there(f0)
        s3 = T.have('%s: far end' % w, z3.Implies(hq, z3.And(R(f0) >= 0, R(f0) < W.n, O(R(f0)) == f0, R(f0) != k0)), [s1, s2, th, z3.Implies(H0, copied(k0))])
        k2 = gen(T, k0, keptedge[other], R(f0), also=(e, wp)); l2 = gen(T, k0, lens[other], R(f0))
        T.have('result linked: every %s edge is matched' % w, z3.Implies(hq, ok(W, k0, q0, q1)), [s1, s2, s3, k2, l2, z3.Implies(H0, copied(k0))], kind='post')
