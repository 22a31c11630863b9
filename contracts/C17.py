from vc.task import *
from common import *
import C13 as c13; REG.pop('C13', None)
from C13 import View, graph, OL, to, fro
M = {'opaque': ['tu::Val'], 'fparith': 'exact', 'wholeunion': True}
I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort(); S_ = z3.DeclareSort('S_tu::Val'); SV = lambda n: z3.Const(n, S_)
# the search problem over states of sort S: goal test, heuristic, transitions. Ghost relations:
# Go(s, d): some valid path from s to a goal has total weight d (least relation closed under its two rules)
# Step(p, s, d): some valid transition p -> s weighs at most d; Start(s, c): s is a start of cost c (both defined by the closure rules below)
class P(object):
    def setup(self, T, S, nm):
        self.ex = T.ex; self.S = S; F = lambda n, *a: z3.Function(n + nm, *a); self.goal, self.h, self.Go, self.Step, self.Start = F('is_goal', S, B_), F('heuristic', S, R_), F('cost_to_go', S, R_, B_), F('transition_within', S, S, R_, B_), F('start_of_cost', S, R_, B_); self.adm = z3.Const('heuristic_admissible', B_); T.data['P'] = self
    def rules(self, T):
        S = self.S; s, d, i, p, e, k = self.v('state'), z3.Const('togo', R_), z3.Int('child'), self.v('from'), z3.Const('slack', R_), z3.Int('start'); raw, w, c = self.raw(s, i), self.w(s, i), self.c(s, i); Go, Step = self.Go, self.Step
        T.assume(qall([k], z3.Implies(z3.And(k >= 0, k < self.n), self.scost(k) >= 0), patterns=[self.sraw(k)]), 'StateWithCost holds a non-negative cost (its constructor rejects others, proved below)')
        T.assume(z3.And(qall([s], z3.Implies(self.goal(s), Go(s, 0)), patterns=[self.goal(s)]), qall([s, i, d], z3.Implies(z3.And(self.has(s, i), Go(c, d)), Go(s, w + d)), patterns=[z3.MultiPattern(raw, Go(c, d))])), 'ghost relation cost_to_go closed under its two rules (a goal costs nothing; one more transition)')
        T.assume(z3.And(qall([s, i], z3.Implies(self.has(s, i), Step(s, c, w)), patterns=[raw]), qall([p, s, d, e], z3.Implies(z3.And(Step(p, s, d), d <= e), Step(p, s, e)), patterns=[z3.MultiPattern(Step(p, s, d), Step(p, s, e))]), qall([k], z3.Implies(z3.And(k >= 0, k < self.n), self.Start(self.sst(k), self.scost(k))), patterns=[self.sraw(k)])), 'definitions of the ghost relations transition_within and start_of_cost')
        T.assume(z3.Implies(self.adm, z3.And(qall([s, d], z3.Implies(Go(s, d), self.h(s) <= d), patterns=[Go(s, d)]), qall([s], self.h(s) >= 0, patterns=[self.h(s)]))), 'definition of an admissible heuristic: non-negative, never above the cost of a path to a goal')
        self.facts = list(self.ex.facts)
    def v(self, n): return z3.Const(n, self.S)
    def el(self, a, i): return self.ex.ty.unpack(self.et, sel(a, i)).f
    def sraw(self, k): return sel(self.s['arr'], k)
    def sst(self, k): return self.el(self.s['arr'], k)['state_']
    def scost(self, k): return self.el(self.s['arr'], k)['cost_']
class States(P):
    """states of an opaque type, transitions from a children function"""
    def __init__(self, T, f):
        ex = T.ex; self.setup(T, S_, ''); self.rt = ex.ty.strip_ref(f['ps'][0]['t']); self.et = ex.ty.elem(self.rt); self.stv = T.obj(self.rt, 'starts'); self.s = T.val(self.stv).f; self.n = self.s['len']; self.ch = z3.Function('children', S_, self.s['arr'].sort()); self.nch = z3.Function('children_count', S_, I_)
        s, i = SV('state'), z3.Int('child'); T.assume(qall([s], z3.And(self.nch(s) >= 0, self.nch(s) < 2 ** 48), patterns=[self.nch(s)])); T.assume(qall([s, i], z3.Implies(self.has(s, i), self.w(s, i) >= 0), patterns=[self.raw(s, i)])); self.rules(T)
    def has(self, s, i): return z3.And(i >= 0, i < self.nch(s))
    def count(self, s): return self.nch(s)
    def raw(self, s, i): return sel(self.ch(s), i)
    def c(self, s, i): return self.el(self.ch(s), i)['state_']
    def w(self, s, i): return self.el(self.ch(s), i)['cost_']
class Nodes(P):
    """nodes of a graph, transitions along its valid edges"""
    def __init__(self, T, f):
        ex = T.ex; self.setup(T, I_, '_of_node'); gt = ex.ty.strip_ref(f['ps'][0]['t']); self.g = graph(T, gt); self.V = V = View(ex, T.val(self.g)); self.rt = ex.ty.strip_ref(f['ps'][1]['t']); self.et = ex.ty.elem(self.rt); self.stv = T.obj(self.rt, 'starts'); self.s = T.val(self.stv).f; self.n = self.s['len']
        v, k = z3.Int('state'), z3.Int('child'); es = sel(V.edges(v, OL).f['arr'], k).sort(); self.okf, self.wf = z3.Function('edge_valid', es, B_), z3.Function('edge_distance', es, R_); inr = lambda x: z3.And(x >= 0, x < V.n); e = V.edge(v, OL, k)
        T.assume(qall([v, k], z3.Implies(z3.And(inr(v), k >= 0, k < V.len(v, OL)), z3.And(inr(to(e)), self.w(v, k) >= 0)), patterns=[self.raw(v, k)]), 'edges lead to nodes of the graph (C13); the distance function is non-negative'); T.assume(qall([k], z3.Implies(z3.And(k >= 0, k < self.n), inr(self.sst(k))), patterns=[self.sraw(k)]), 'starts are nodes of the graph'); self.inr = inr; self.rules(T)
    def count(self, s): return self.V.len(s, OL)
    def raw(self, s, i): return sel(self.V.edges(s, OL).f['arr'], i)
    def has(self, s, i): return z3.And(self.inr2(s), i >= 0, i < self.V.len(s, OL), self.okf(self.raw(s, i)))
    def inr2(self, s): return z3.And(s >= 0, s < self.V.n)
    def c(self, s, i): return to(self.V.edge(s, OL, i))
    def w(self, s, i): return self.wf(self.raw(s, i))
class Tab(object):
    """tables of the search"""
    def __init__(self, p, Q, X, qm):
        ex = self.ex = p.ex; self.p = p; self.Q, self.X, self.M = Q, X, qm; self.qt = ex.ty.elem(Q.tid); self.n = Q.f['len']; self.xt = dict(ex.ty.fields(X.tid))['val'][2][1]; self.mt = dict(ex.ty.fields(self.xt))['back_pointer_'][1]
    def up(self, t, v): return self.ex.ty.unpack(t, v) if not isinstance(v, Struct) else v
    def raw(self, j): return sel(self.Q.f['arr'], j)
    def q(self, j): return self.up(self.qt, self.raw(j)).f
    def has(self, j): return z3.And(j >= 0, j < self.n)
    def maybe(self, v):
        mt = self.mt; m = self.up(mt, v); ut = dict(self.ex.ty.fields(mt))['item_storage_'][1]; u = self.up(ut, m.f['item_storage_']); un = self.up(dict(self.ex.ty.fields(ut))[''][1], u.f['']); return u.f['type_'] == 1, un.f['value_b_'], z3.And(u.f['type_'] >= 0, u.f['type_'] <= 1, un.f['__live'] == u.f['type_'] + 1)
    def qb(self, j): return self.maybe(self.q(j)['back_pointer_'])
    def E(self, s): return sel(self.X.f['has'], s)
    def x(self, s): return self.up(self.xt, sel(self.X.f['val'], s)).f
    def C(self, s): return self.x(s)['cost_to_come_']
    def xb(self, s): return self.maybe(self.x(s)['back_pointer_'])
    def covered(self, s, g):
        j = z3.Int('queued'); return z3.Or(z3.And(self.E(s), self.C(s) <= g), qex([j], z3.And(self.has(j), self.q(j)['state_'] == s, self.q(j)['cost_to_come_'] <= g), patterns=[self.raw(j)]))
    def valid(self, st, cost, b):
        has, par, wf = b; return z3.And(wf, cost >= 0, z3.If(has, z3.And(self.E(par), self.p.Step(par, st, cost - self.C(par))), self.p.Start(st, cost)))
def inv(p, t, cur=None, starts=None, checked=True):
    """cur = (state being expanded, children done); starts = number of starts queued so far"""
    j, s, i, k = z3.Int('entry'), p.v('state'), z3.Int('child'), z3.Int('start'); q = t.q(j); done = lambda s, i: z3.And(i >= 0, i < p.count(s)) if cur is None else z3.And(i >= 0, i < z3.If(s == cur[0], cur[1], p.count(s)))
    out = [('entries of the queue', qall([j], z3.Implies(t.has(j), z3.And(q['value_'] == q['cost_to_come_'] + p.h(q['state_']), t.valid(q['state_'], q['cost_to_come_'], t.qb(j)))), patterns=[t.raw(j)])),
        ('every start is covered', qall([k], z3.Implies(z3.And(k >= 0, k < (p.n if starts is None else starts)), t.covered(p.sst(k), p.scost(k))), patterns=[p.sraw(k)]))]
    if t.M is not None: out.append(('duplicate table', z3.Implies(t.limit, qall([s], z3.Implies(sel(t.M.f['has'], s), qex([j], z3.And(t.has(j), q['state_'] == s, q['cost_to_come_'] == sel(t.M.f['val'], s)), patterns=[t.raw(j)])), patterns=[sel(t.M.f['has'], s)]))))
    if p.S != S_: out.append(('queued states are nodes', qall([j], z3.Implies(t.has(j), p.inr2(q['state_'])), patterns=[t.raw(j)])))
    if starts is not None: return out + [('nothing explored', qall([s], mkNot(t.E(s)), patterns=[t.E(s)]))]
    return out + [('explored states', qall([s], z3.Implies(t.E(s), z3.And(t.valid(s, t.C(s), t.xb(s)))), patterns=[t.E(s)])),
        ('children of explored states are covered', qall([s, i], z3.Implies(z3.And(t.E(s), done(s, i), p.has(s, i)), t.covered(p.c(s, i), t.C(s) + p.w(s, i))), patterns=[z3.MultiPattern(t.E(s), p.raw(s, i))])),
        ('no goal explored yet', qall([s], z3.Implies(t.E(s), mkNot(p.goal(s))), patterns=[t.E(s)]))]
def prospect(p, t):
    """lemma Prospect (proved below by rule induction): whatever is covered and can still reach a goal is represented in the queue"""
    s, d, g, j = p.v('state'), z3.Const('togo', R_), z3.Const('bound', R_), z3.Int('entry')
    f = lambda s, g, d: z3.Implies(t.covered(s, g), qex([j], z3.And(t.has(j), z3.Implies(p.adm, t.q(j)['value_'] <= g + d)), patterns=[t.raw(j)])); return s, d, g, f
def tables(L):
    ex = L.ex; p = ex.task.data['P']; Q = [v for v in L.locals('vec') if ex.ty.kind(ex.ty.elem(v.tid)) == 'rec' and 'value_' in dict(ex.ty.fields(ex.ty.elem(v.tid)))]; ms = L.locals('map'); kd = lambda m: ex.ty.kind(dict(ex.ty.fields(m.tid))['val'][2][1]); X = [m for m in ms if kd(m) == 'rec']; D = [m for m in ms if kd(m) == 'fp']
    t = Tab(p, L.read(Q[0]), L.read(X[0]), L.read(D[0]) if D else None); t.limit = ex.task.data['limit']; return p, t
def goals(L):
    """starts meeting the goal"""
    ex = L.ex; p = ex.task.data['P']; best, low = [L.read(v) for v in [v for v in L.locals('fp')][:2]]; at = L.read(L.locals('int')[0]); k = z3.Int('start'); i = L.i; st = lambda: p.sst(at) if p.S == S_ else at
    return [('position', z3.And(i >= 0, i <= p.n)), ('lowest cost', qall([k], z3.Implies(z3.And(k >= 0, k < i), low <= p.scost(k)), patterns=[p.sraw(k)])), ('best start', z3.Or(at == -1, z3.And(at >= 0, best >= 0, z3.BoolVal(True) if p.S != S_ else at < i, p.goal(st()), p.Start(st(), best), best < ex.inf(), z3.BoolVal(True) if p.S != S_ else p.scost(at) == best)))]
def queue_starts(L): p, t = tables(L); return inv(p, t, starts=L.i)
def search(L):
    p, t = tables(L); s, d, g, f = prospect(p, t); k = z3.Int('start'); L.ex.task.data['T'] = t
    m = t.maybe(L.read([lv for lv in L.locals('rec') if 'item_storage_' in dict(L.ex.ty.fields(lv.tid))][0]))
    return inv(p, t) + [('no goal found yet', z3.And(m[2], mkNot(m[0]))), ('~lemma Prospect, at the starts', qall([k, d], z3.Implies(z3.And(k >= 0, k < p.n, p.Go(p.sst(k), d)), f(p.sst(k), p.scost(k), d)), patterns=[z3.MultiPattern(p.sraw(k), p.Go(p.sst(k), d))]))]
def expand(L):
    p, t = tables(L); top = [lv for lv in L.locals('rec') if 'value_' in dict(L.ex.ty.fields(lv.tid))][-1]; v = L.read(top).f; s = v['state_']
    return [('expanding', z3.And(t.E(s), t.C(s) == v['cost_to_come_'], L.i >= 0, L.i <= p.count(s)))] + inv(p, t, (s, L.i))
def chain(L):
    """path extraction: from the goal back along the back pointers"""
    ex = L.ex; p = ex.task.data['P']; t = ex.task.data['T']; path = L.read(L.written('vec')[0]).f; cb = t.maybe(L.read([lv for lv in L.written('rec') if 'item_storage_' in dict(ex.ty.fields(lv.tid))][-1])); i = z3.Int('step'); n = path['len']; at = lambda i: sel(path['arr'], i)
    X = [lv for lv in L.params('map')][0]; t = ex.task.data['F'] = Tab(p, t.Q, L.read(X), None); g = L.params('opaque' if p.S == S_ else 'int')[0]; last = t.xb(at(n - 1)); ex.task.data['g'] = L.read(g)
    return [('goal first', z3.And(n >= 1, at(0) == ex.task.data['g'])), ('explored', qall([i], z3.Implies(z3.And(i >= 0, i < n), t.E(at(i))), patterns=[at(i)])), ('next back pointer', z3.And(cb[2], cb[0] == last[0], z3.Implies(cb[0], cb[1] == last[1]))),
        ('steps follow the back pointers', qall([i], z3.Implies(z3.And(i >= 0, i + 1 < n), z3.And(t.xb(at(i))[0], t.xb(at(i))[1] == at(i + 1))), patterns=[at(i)]))]
def outcome(T, p, o):
    ex = T.ex; t = T.data['F']; T.throws_only_if(o, z3.Or(p.n == 0, z3.And(t.E(T.data['g']), t.C(T.data['g']) >= ex.inf())), 'rejected only without a start or with infinite costs'); T.ensure('empty starts rejected', p.n > 0)
    path, cost = o.ret.f['path_'].f, o.ret.f['path_cost_']; n = path['len']; at = lambda i: sel(path['arr'], i); i, k, d = T.qv('i'), T.qv('k'), z3.Const('pathcost', R_); g = T.data['g']
    T.ensure('a path starts at a start', z3.Implies(n > 0, z3.Or(p.Start(at(0), cost), p.Start(at(0), t.C(at(0)))))); early = z3.And(n == 1, p.goal(at(n - 1))); T.lemma('the last state is the goal popped', z3.Implies(n > 0, z3.Or(early, at(n - 1) == g))); T.lemma('the state popped last is a goal', z3.Implies(n > 0, z3.Or(early, p.goal(g))))
    T.ensure('a path ends at a goal', z3.Implies(n > 0, p.goal(at(n - 1)))); T.ensure('a path of one state costs what the start costs', z3.Implies(n == 1, p.Start(at(0), cost)))
    T.ensure('the cost is infinite exactly when there is no path', (n == 0) == (cost == ex.inf())); T.ensure('a cost is not negative', z3.And(cost >= 0, cost <= ex.inf()))
    T.ensure('no path is reported only if no goal is reachable', z3.Implies(z3.And(n == 0, k >= 0, k < p.n), mkNot(p.Go(p.sst(k), d))))
    T.ensure('with an admissible heuristic no path is cheaper', z3.Implies(z3.And(p.adm, n > 0, k >= 0, k < p.n, p.Go(p.sst(k), d)), cost <= p.scost(k) + d))
    T.ensure('steps are transitions, and the reported cost pays for them', z3.Implies(z3.And(i >= 0, i + 1 < n), z3.And(p.Step(at(i), at(i + 1), t.C(at(i + 1)) - t.C(at(i))), t.C(at(n - 1)) == cost)))
    # lemma Prospect, by rule induction over cost_to_go, for arbitrary tables that satisfy the invariants
    q = Tab(p, T.sym(t.Q.tid, 'some_queue'), T.sym(t.X.tid, 'some_explored'), None); I = mkAnd(*[g for _, g in inv(p, q)]); _, _, _, pr = prospect(p, q); s, i, g, d, b = p.v('s0'), T.qv('i'), z3.Const('g', R_), z3.Const('d', R_), z3.Const('b', R_)
    T.have('lemma Prospect: a goal', z3.Implies(z3.And(I, p.goal(s)), pr(s, g, 0)), using=p.facts, assume=False)
    c, w = p.c(s, i), p.w(s, i); hyp = z3.And(I, p.has(s, i), p.Go(c, d), p.Go(s, w + d), pr(c, q.C(s) + w, d), pr(c, g + w, d)); T.have('lemma Prospect: one more transition', z3.Implies(hyp, pr(s, g, w + d)), using=p.facts, assume=False)
@task('C17', 'search', mode=M, loops=[goals, queue_starts, search, expand, chain], timeout=120)
def Search(T):
    """the search over states: a path exactly when a goal is reachable, along real transitions, and with an admissible heuristic no cheaper path exists"""
    ex = T.ex; f = [f for f in T.fns('simple_astar_search::PerformAstarSearch') if len(f['ps']) == 7][0]; p = States(T, f); v1 = lambda a: ex.asval(a[0]); ref = lambda i: ex.ty.strip_ref(f['ps'][i]['t']); T.data['limit'] = T.sym(f['ps'][4]['t'], 'limit')
    kids = lambda ex, a, c: Struct(p.rt, {'arr': p.ch(v1(a)), 'len': p.nch(v1(a))})
    o = T.call(f, None, [p.stv, T.lv(ref(1), T.func('goal_check', lambda ex, a, c: p.goal(v1(a))), 'goal_check'), T.lv(ref(2), T.func('children', kids), 'children'), T.lv(ref(3), T.func('heuristic', lambda ex, a, c: p.h(v1(a))), 'heuristic'), T.data['limit'], T.obj(ref(5), 'hasher'), T.obj(ref(6), 'equal')]); outcome(T, p, o)
@task('C17', 'search', mode=M, loops=[goals, queue_starts, search, expand, chain], timeout=120)
def GraphSearch(T):
    """the search over the nodes of a graph"""
    ex = T.ex; f = [f for f in T.fns('simple_graph_search::PerformLazyAstarSearch') if 'StateWithCost' in ex.ty.name(ex.ty.strip_ref(f['ps'][1]['t']))][0]; p = Nodes(T, f); v1 = lambda a: ex.asval(a[1]); ref = lambda i: ex.ty.strip_ref(f['ps'][i]['t']); T.data['limit'] = T.sym(f['ps'][6]['t'], 'limit'); et = p.V.et if hasattr(p.V, 'et') else None
    raw = lambda a: (lambda v: ex.ty.pack(v.tid, v) if isinstance(v, Struct) else v)(ex.asval(a[1])); fn = lambda i, n, m: T.lv(ref(i), T.func(n, m), n)
    o = T.call(f, None, [p.g, p.stv, fn(2, 'goal_check', lambda ex, a, c: p.goal(v1(a))), fn(3, 'edge_validity', lambda ex, a, c: p.okf(raw(a))), fn(4, 'distance', lambda ex, a, c: p.wf(raw(a))), fn(5, 'heuristic', lambda ex, a, c: p.h(v1(a))), T.data['limit']]); outcome(T, p, o)
# ---- entry points that wrap the searches: the search they start is over the right problem
def core(T, n, check):
    """contract of the inner search (verified by Search / GraphSearch): records what it is given"""
    def con(ex, c):
        if len(c.f['ps']) != n[0] or (n[1] and not n[1](ex, c.f)): return ex.call(c.f, None, c.args, c.e)
        s0 = ex.st.clone()
        def ask(i, *a):
            """value of the function passed as argument i; nothing it is asked may change anything"""
            ex.st = s0.clone(); t0 = len(ex.throws); r = ex.asval(ex.invoke(c.args[i] if not isinstance(c.args[i], LVal) else ex.load(c.args[i]), [x() for x in a], c.e)); th = ex.throws[t0:]; del ex.throws[t0:]
            for t in th: old = ex.st; ex.st = t.st; ex.oblige('throws-only', z3.BoolVal(False), t.node, 'the function passed on throws nothing of its own', assume=False); ex.st = old
            return r
        check(ex, c, ask); ex.st = s0; r = ex.fresh(c.rettid, 'result'); T.data['result'] = r; return r
    return con
isstate = lambda ex, f: 'StateWithCost' in ex.ty.name(ex.ty.strip_ref(f['ps'][1]['t']))
valid2, dist2, h2 = z3.Function('edge_valid', S_, S_, B_), z3.Function('distance', S_, S_, R_), z3.Function('heuristic_to', S_, S_, R_)
def filtered(L):
    """valid children so far: each comes from a valid candidate, and each valid candidate is there"""
    ex = L.ex; d = ex.task.data; cand, s, et = d['cand'], d['at'], d['et']; out = L.read(L.written('vec')[0]).f; el = lambda j: ex.ty.unpack(et, sel(out['arr'], j)).f; i, j = z3.Int('candidate'), z3.Int('kept'); ci = sel(cand['arr'], i); n = L.i
    return kept(d, out, el, n)
def kept(d, out, el, n):
    cand, s = d['cand'], d['at']; i, j = z3.Int('candidate'), z3.Int('kept'); ci = sel(cand['arr'], i); same = lambda: z3.And(el(j)['state_'] == ci, el(j)['cost_'] == dist2(s, ci))
    return [('length', z3.And(out['len'] >= 0, out['len'] <= n, n >= 0)), ('kept ones are valid candidates', qall([j], z3.Implies(z3.And(j >= 0, j < out['len']), qex([i], z3.And(i >= 0, i < n, valid2(s, ci), same()), patterns=[ci])), patterns=[sel(out['arr'], j)])),
        ('valid candidates are kept', qall([i], z3.Implies(z3.And(i >= 0, i < n, valid2(s, ci)), qex([j], z3.And(j >= 0, j < out['len'], same()), patterns=[sel(out['arr'], j)])), patterns=[ci]))]
def statewrap(T, two):
    ex = T.ex; fs = [f for f in T.fns('simple_astar_search::PerformAstarSearch') if ('StateWithCost' in ex.ty.name(f['ps'][0]['t'])) != two and len(f['ps']) == (9 if two is False else 9)]; f = fs[0]; P_ = f['ps']; ref = lambda i: ex.ty.strip_ref(P_[i]['t']); d = T.data; v = lambda a, i=0: ex.asval(a[i])
    nc = z3.Function('candidates', S_, I_); off = 2; ct = ex.ty.T[ref(off)]
    x = SV('some_state'); d['at'] = x; vt = [t for t in range(len(ex.ty.T)) if ex.ty.kind(t) == 'vec' and ex.ty.kind(ex.ty.elem(t)) == 'opaque'][0]; cv = T.sym(vt, 'candidate_children'); d['cand'] = cv.f; i = z3.Int('candidate'); T.assume(qall([i], dist2(x, sel(cv.f['arr'], i)) >= 0, patterns=[sel(cv.f['arr'], i)]), 'the distance function is non-negative')
    fn = lambda i, n, m: T.lv(ref(i), T.func(n, m), n); limit = T.sym(P_[-3]['t'], 'limit'); gen = lambda ex, a, c: cv
    if two: st, go = T.obj(ref(0), 'start'), T.obj(ref(1), 'goal_state'); args = [st, go]
    else: starts = T.obj(ref(0), 'starts'); args = [starts, fn(1, 'goal_check', lambda ex, a, c: z3.Function('is_goal', S_, B_)(v(a)))]
    args += [fn(2, 'children', gen), fn(3, 'validity', lambda ex, a, c: valid2(v(a), v(a, 1))), fn(4, 'distance', lambda ex, a, c: dist2(v(a), v(a, 1)))]
    args += [fn(5, 'heuristic', (lambda ex, a, c: h2(v(a), v(a, 1))) if two else (lambda ex, a, c: z3.Function('heuristic', S_, R_)(v(a))))] + [limit, T.obj(ref(7), 'hasher'), T.obj(ref(8), 'equal')]
    def check(ex, c, ask):
        sv = c.val(0).f; d['et'] = et = ex.ty.elem(c.val(0).tid); X = lambda: T.lv(ref(0) if two else ex.ty.elem(vt), x, 'state')
        if two: e0 = ex.ty.unpack(et, sel(sv['arr'], 0)).f; ex.oblige('post', z3.And(sv['len'] == 1, e0['state_'] == T.val(st), e0['cost_'] == 0), None, 'the start given, at no cost'); ex.oblige('post', ask(1, X) == (x == T.val(go)), None, 'the goal given'); ex.oblige('post', ask(3, X) == h2(x, T.val(go)), None, 'heuristic towards the goal given')
        else: ex.oblige('post', z3.And(sv['len'] == T.val(starts).f['len'], sv['arr'] == T.val(starts).f['arr']), None, 'the starts given'); ex.oblige('post', ask(1, X) == z3.Function('is_goal', S_, B_)(x), None, 'the goal test given'); ex.oblige('post', ask(3, X) == z3.Function('heuristic', S_, R_)(x), None, 'the heuristic given')
        ex.oblige('post', c.val(4) == limit, None, 'duplicate limiting as given'); out = ask(2, X).f
        for n, g in kept(d, out, lambda j: ex.ty.unpack(et, sel(out['arr'], j)).f, cv.f['len']): ex.oblige('post', g, None, 'transitions: ' + n)
    q = f['q']; T.ex.contracts[q] = core(T, (7, None), check); o = T.call(f, None, args); T.never_throws(o); T.ensure('result passed on', z3.And(*[a == b for a, b in zip(flat(o.ret), flat(T.data['result']))]))
def flat(v): return [x for y in v.f.values() for x in flat(y)] if isinstance(v, Struct) else [v]
@task('C17', 'search', mode=M, loops=[filtered], timeout=60)
def CheckedChildren(T): statewrap(T, False)
@task('C17', 'search', mode=M, loops=[filtered], timeout=60, libover={'tu::Eq::operator()': lambda ex, e, this, a: ex.rv(a[0]) == ex.rv(a[1])})
def OneStart(T): statewrap(T, True)
# graph entry points
hn = z3.Function('heuristic_between_nodes', I_, I_, R_)
def inrange(which):
    def spec(L):
        d = L.ex.task.data; a = d[which]; k = z3.Int('checked'); V = d['V']; return [('position', z3.And(L.i >= 0, L.i <= a['len'])), ('in range so far', qall([k], z3.Implies(z3.And(k >= 0, k < L.i), z3.And(sel(a['arr'], k) >= 0, sel(a['arr'], k) < V.n)), patterns=[sel(a['arr'], k)]))]
    return spec
def pushed(L):
    ex = L.ex; d = ex.task.data; out = L.read(L.written('vec')[0]); k = z3.Int('pushed'); e = lambda k: ex.ty.unpack(ex.ty.elem(out.tid), sel(out.f['arr'], k)).f
    return [('position', z3.And(L.i >= 0, L.i <= d['starts']['len'], out.f['len'] == L.i)), ('starts so far', qall([k], z3.Implies(z3.And(k >= 0, k < L.i), z3.And(e(k)['state_'] == sel(d['starts']['arr'], k), e(k)['cost_'] == 0)), patterns=[sel(out.f['arr'], k)]))]
def nogoal(L):
    d = L.ex.task.data; k = z3.Int('tried'); return [('position', z3.And(L.i >= 0, L.i <= d['goals']['len'])), ('none so far', qall([k], z3.Implies(z3.And(k >= 0, k < L.i), sel(d['goals']['arr'], k) != d['x']), patterns=[sel(d['goals']['arr'], k)]))]
def least(d, best, n, inf):
    k = z3.Int('tried'); gk = sel(d['goals']['arr'], k); return [('no larger than any', qall([k], z3.Implies(z3.And(k >= 0, k < n), best <= hn(d['x'], gk)), patterns=[gk])), ('one of them', z3.Or(best == inf, qex([k], z3.And(k >= 0, k < n, best == hn(d['x'], gk)), patterns=[gk])))]
def besth(L): d = L.ex.task.data; return [('position', z3.And(L.i >= 0, L.i <= d['goals']['len']))] + least(d, L.read(L.written('fp')[0]), L.i, L.ex.inf())
@task('C17', 'search', mode=M, loops=[inrange('starts'), inrange('goals'), pushed, nogoal, besth], timeout=60)
def Lists(T):
    """several starts and goals, given as node indices"""
    ex = T.ex; d = T.data; f = [f for f in T.fns('simple_graph_search::PerformLazyAstarSearch') if not isstate(ex, f) and not f.get('ta', [{}])[0].get('t') == T.type('tu::Val') and 'GraphEdge' in ex.ty.name(f['ps'][3]['t'])][0]; ref = lambda i: ex.ty.strip_ref(f['ps'][i]['t']); v = lambda a, i: ex.asval(a[i])
    g = graph(T, ref(0)); V = d['V'] = View(ex, T.val(g)); st, go = T.obj(ref(1), 'starts'), T.obj(ref(2), 'goals'); d['starts'], d['goals'] = T.val(st).f, T.val(go).f; et = V.ex.ty.elem(V.ex.ty.fieldtid(V.et, OL)); es = ex.ty.sort(et); okf, wf = z3.Function('edge_valid_', es, B_), z3.Function('edge_distance_', es, R_)
    raw = lambda a: (lambda v: ex.ty.pack(v.tid, v) if isinstance(v, Struct) else v)(ex.asval(a[1])); fn = lambda i, n, m: T.lv(ref(i), T.func(n, m), n); limit = T.sym(f['ps'][6]['t'], 'limit'); x = d['x'] = T.sym('int64_t' if False else ex.ty.elem(ref(1)), 'some_node'); T.assume(z3.And(x >= 0, x < V.n)); e0 = T.sym(et, 'some_edge')
    def check(ex, c, ask):
        sv = c.val(1); s = sv.f; k = z3.Int('start'); e = ex.ty.unpack(ex.ty.elem(sv.tid), sel(s['arr'], k)).f; a, b = d['starts'], d['goals']; j = z3.Int('goal'); gj = sel(b['arr'], j); G = lambda: g; X = lambda: x; E0 = lambda: T.lv(et, e0, 'edge')
        ex.oblige('post', z3.And(s['len'] == a['len'], qall([k], z3.Implies(z3.And(k >= 0, k < a['len']), z3.And(e['state_'] == sel(a['arr'], k), e['cost_'] == 0)), patterns=[sel(s['arr'], k)])), None, 'starts as given, at no cost')
        isgoal = ask(2, G, X); ex.oblige('post', isgoal == z3.Exists([j], z3.And(j >= 0, j < b['len'], gj == x)), None, 'goal exactly when it is one of the goals given')
        h = ask(5, G, X); [ex.oblige('post', q, None, 'heuristic towards the nearest goal: ' + n) for n, q in least(d, h, b['len'], ex.inf())]
        ex.oblige('post', z3.And(ask(3, G, E0) == okf(ex.ty.pack(et, e0)), ask(4, G, E0) == wf(ex.ty.pack(et, e0)), c.val(6) == limit), None, 'edge validity, distance and duplicate limiting as given')
    T.ex.contracts[f['q']] = core(T, (7, isstate), check)
    o = T.call(f, None, [g, st, go, fn(3, 'validity', lambda ex, a, c: okf(raw(a))), fn(4, 'distance', lambda ex, a, c: wf(raw(a))), fn(5, 'heuristic', lambda ex, a, c: hn(v(a, 1), v(a, 2))), limit])
    k = T.qv('k'); bad = lambda a: z3.Exists([k], z3.And(k >= 0, k < a['len'], mkNot(z3.And(sel(a['arr'], k) >= 0, sel(a['arr'], k) < V.n)))); T.throws_iff(o, z3.Or(bad(d['starts']), bad(d['goals'])), 'rejected exactly when a start or goal is no node')
    T.ensure('result passed on', z3.And(*[a == b for a, b in zip(flat(o.ret), flat(d['result']))]))
def values(T, eager):
    ex = T.ex; d = T.data; q = 'simple_graph_search::PerformAstarSearch' if eager else 'simple_graph_search::PerformLazyAstarSearch'; f = [f for f in T.fns(q) if eager or (not isstate(ex, f) and 'GraphEdge' not in ex.ty.name(f['ps'][3]['t']))][0]; ref = lambda i: ex.ty.strip_ref(f['ps'][i]['t']); v = lambda a, i: ex.asval(a[i]); fn = lambda i, n, m: T.lv(ref(i), T.func(n, m), n)
    g = graph(T, ref(0)); V = d['V'] = View(ex, T.val(g)); st, go = T.obj(ref(1), 'starts'), T.obj(ref(2), 'goals'); et = ex.ty.elem(ex.ty.fieldtid(V.et, OL)); limit = T.sym(f['ps'][-1]['t'], 'limit'); e0 = T.sym(et, 'some_edge'); a, b = T.sym(ex.ty.elem(ref(1)), 'node_a'), T.sym(ex.ty.elem(ref(1)), 'node_b'); inr = lambda x: z3.And(x >= 0, x < V.n)
    T.assume(z3.And(inr(a), inr(b), inr(fro(e0.f)), inr(to(e0.f)))); val = lambda x: V.node(x).f['value_']
    def check(ex, c, ask):
        G = lambda: g; E0 = lambda: T.lv(et, e0, 'edge'); same = lambda i, o: all(p.eq(q) for p, q in zip(flat(c.val(i)), flat(T.val(o))))
        ex.oblige('post', z3.BoolVal(same(1, st) and same(2, go)), None, 'starts and goals as given'); ex.oblige('post', c.val(6) == limit, None, 'duplicate limiting as given')
        ex.oblige('post', ask(5, G, lambda: a, lambda: b) == h2(val(a), val(b)), None, 'heuristic between the values of the nodes')
        ok, w = ask(3, G, E0), ask(4, G, E0); x, y = val(fro(e0.f)), val(to(e0.f))
        ex.oblige('post', ok == ((e0.f['weight_'] < ex.inf()) if eager else valid2(x, y)), None, 'an edge is usable ' + ('exactly when its weight is finite' if eager else 'exactly when the values of its ends may be connected')); ex.oblige('post', w == (e0.f['weight_'] if eager else dist2(x, y)), None, 'its cost is ' + ('its weight' if eager else 'the distance between the values of its ends'))
    lists = lambda ex, f: 'GraphEdge' in ex.ty.name(f['ps'][3]['t']); T.ex.contracts['common_robotics_utilities::simple_graph_search::PerformLazyAstarSearch'] = core(T, (7, lists), check)
    args = [g, st, go] + ([] if eager else [fn(3, 'validity', lambda ex, a, c: valid2(v(a, 0), v(a, 1))), fn(4, 'distance', lambda ex, a, c: dist2(v(a, 0), v(a, 1)))]) + [fn(3 if eager else 5, 'heuristic', lambda ex, a, c: h2(v(a, 0), v(a, 1))), limit]
    o = T.call(f, None, args); T.never_throws(o); T.ensure('result passed on', z3.And(*[p == q for p, q in zip(flat(o.ret), flat(d['result']))]))
@task('C17', 'search', mode=M)
def Values(T): values(T, False)
@task('C17', 'search', mode=M)
def Eager(T): values(T, True)
@task('C17', 'search', mode=M)
def Costs(T):
    """results and starts never hold what the search relies on not being there"""
    ex = T.ex
    for f in [f for f in ex.ast['functions'] if f.get('isctor') and f['q'].endswith('::StateWithCost') and len(f['ps']) == 2 and 'body' in f]:
        if True:
            s = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 's') if ex.ty.kind(f['ps'][0]['t']) == 'ref' else T.sym(f['ps'][0]['t'], 's'); c = T.sym(f['ps'][1]['t'], 'cost'); n = T.lv(f['cls'], ex.uninit(f['cls']), 'new'); sv = ex.asval(s); o = T.call(f, n, [s, c]); T.throws_iff(o, c < 0, 'negative costs rejected'); v = T.val(n).f; T.ensure('holds the state and cost given', z3.And(v['state_'] == sv, v['cost_'] == c))
