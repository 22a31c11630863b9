from vc.task import *
from common import *
TP = NSP + 'simple_task_planner::'; CT = 'tu::Val, std::vector<tu::Val, std::allocator<tu::Val>>>'; AP = TP + 'ActionPrimitiveInterface<' + CT; PC = TP + 'ActionPrimitiveCollection<' + CT
# states, primitives and names are opaque; a shared pointer is the primitive it points to
M = {'opaque': ['tu::Val', 'std::shared_ptr', 'std::basic_string'], 'fparith': 'exact'}
I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
class S(object):
    """sorts and functions of a task"""
    def __init__(self, ex):
        ty = ex.ty; g = lambda p: [i for i, t in enumerate(ty.T) if isinstance(t, dict) and t.get('k') == 'rec' and p(t)]
        self.prim_t = [i for i in g(lambda t: t.get('n') == 'std::shared_ptr' and 'ActionPrimitiveInterface' in t['s'])][0]; self.str_t = g(lambda t: t.get('n') == 'std::basic_string')[0]
        self.P, self.N, self.V = ty.sort(self.prim_t), ty.sort(self.str_t), z3.DeclareSort('S_tu::Val'); self.name = z3.Function('name_of', self.P, self.N); self.cand = z3.Function('is_candidate', self.P, self.V, B_); self.null = z3.Const('dflt_%s' % ty.name(self.prim_t), self.P)
def arrow(ex, c):
    p = ex.asval(c.this); s = S(ex); ex.oblige('null', p != s.null, c.e, 'a primitive is there') if 'nullable' in ex.task.data else None; return Ptr(ex.new_root(s.prim_t, p, 'primitive'))
def name_con(ex, c): p = ex.load(c.this); s = S(ex); return ex.new_root(s.str_t, s.name(p), 'name')
SPA = 'std::__shared_ptr_access<' + AP + ', __gnu_cxx::_S_atomic, false, false>::operator->'
CON = {SPA: arrow, SPA[:-2] + '*': arrow, AP + '::Name': name_con}
def prims(ex, v): return v.f['primitives_']
def distinct(s, v):
    i, j = z3.Ints('di dj'); a = v.f['arr']; return qall([i, j], z3.Implies(z3.And(i >= 0, i < j, j < v.f['len']), s.name(sel(a, i)) != s.name(sel(a, j))), patterns=[z3.MultiPattern(sel(a, i), sel(a, j))])
def collection(T):
    s = S(T.ex); f = T.fns(PC + '::RegisterPrimitive')[0]; o = T.obj(f['cls'], 'collection'); x = T.val(o); T.ex.store(o, Struct(x.tid, dict(x.f, logging_fn_=T.func('logging_fn', lambda ex, a, e: None, empty=z3.Bool('no_logging'))))); v = prims(T.ex, T.val(o)); T.assume(z3.And(v.f['len'] >= 0, v.f['len'] <= 2 ** 40)); return s, o, v
def reg_loop(L):
    ex = L.ex; d = ex.task.data; s = d['s']; v = d['v']; k = z3.Int('k'); i = L.i; return [('position', z3.And(i >= 0, i <= v.f['len'])), ('no primitive so far has the name', qall([k], z3.Implies(z3.And(k >= 0, k < i), s.name(sel(v.f['arr'], k)) != s.name(d['new'])), patterns=[sel(v.f['arr'], k)]))]
@task('C28', 'task', mode=M, loops=[reg_loop], contracts=CON)
def Register(T):
    ex = T.ex; s, o, v = collection(T); T.assume(distinct(s, v), 'names in the collection are distinct (class invariant)'); f = T.fns(PC + '::RegisterPrimitive')[0]; p = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'primitive'); T.data.update(s=s, v=v, new=T.val(p)); k = T.qv('k')
    r = T.call(f, o, [p]); taken = z3.Exists([z3.Int('tk')], z3.And(z3.Int('tk') >= 0, z3.Int('tk') < v.f['len'], s.name(sel(v.f['arr'], z3.Int('tk'))) == s.name(T.val(p)))); T.throws_iff(r, taken, 'rejected exactly when the name is taken'); same = lambda w: z3.And(w.f['len'] == v.f['len'], w.f['arr'] == v.f['arr']); T.at_throws(r, 'collection unchanged when rejected', lambda st: same(prims(ex, ex.load(o, st)))); w = prims(ex, T.val(o))
    T.ensure('one primitive more', w.f['len'] == v.f['len'] + 1); T.ensure('the new one is last', sel(w.f['arr'], v.f['len']) == T.val(p)); T.ensure('others keep their place', z3.Implies(z3.And(k >= 0, k < v.f['len']), sel(w.f['arr'], k) == sel(v.f['arr'], k))); T.ensure('names stay distinct', distinct(s, w)); T.cover('second primitive', w.f['len'] == 2)
# ---- removing by name: cnt(i) primitives among the first i are kept, the q-th kept one was at org(q)
cnt, org = z3.Function('kept_before', I_, I_), z3.Function('origin', I_, I_)
def keep(d, k): return z3.Not(sel(d['names'].f['has'], d['s'].name(sel(d['v'].f['arr'], k))))
def unreg_loop(L):
    ex = L.ex; d = ex.task.data; v = d['v']; i = L.i; k, q = z3.Ints('k q'); w = [x for x in vars_of(ex, 'vec') if x.root != d['o'].root][-1]; W = L.read(w).f
    ex.fact(cnt(0) == 0)
    for x in (i, i - 1): ex.fact(z3.Implies(x >= 0, z3.And(cnt(x + 1) == cnt(x) + z3.If(keep(d, x), 1, 0), z3.Implies(keep(d, x), org(cnt(x)) == x))))
    return [('position', z3.And(i >= 0, i <= v.f['len'])), ('number kept', z3.And(W['len'] == cnt(i), cnt(i) >= 0)), ('kept', qall([q], z3.Implies(z3.And(q >= 0, q < cnt(i)), z3.And(org(q) >= 0, org(q) < i, keep(d, org(q)), sel(W['arr'], q) == sel(v.f['arr'], org(q)))), patterns=[sel(W['arr'], q), org(q)])), ('in order', qall([k, q], z3.Implies(z3.And(k >= 0, k < q, q < cnt(i)), org(k) < org(q)), patterns=[z3.MultiPattern(org(k), org(q))])), ('places', qall([k], z3.Implies(z3.And(k >= 0, k < i, keep(d, k)), z3.And(cnt(k) >= 0, cnt(k) < cnt(i), org(cnt(k)) == k)), patterns=[cnt(k)]))]
def unregistered(T, s, o, v, names):
    w = prims(T.ex, T.val(o)); k, q, j = T.qv('k'), T.qv('q'), T.qv('j'); d = T.data; at = lambda x, y: sel(x.f['arr'], y)
    for q_ in (k, q, j): pass
    T.ensure('every primitive left was there and is not named', z3.Implies(z3.And(q >= 0, q < w.f['len']), z3.And(org(q) >= 0, org(q) < v.f['len'], at(w, q) == at(v, org(q)), keep(d, org(q))))); T.ensure('in the order they were', z3.Implies(z3.And(k >= 0, k < q, q < w.f['len']), org(k) < org(q))); T.ensure('every primitive not named is left', z3.Implies(z3.And(k >= 0, k < v.f['len'], keep(d, k)), z3.And(cnt(k) >= 0, cnt(k) < w.f['len'], at(w, cnt(k)) == at(v, k))))
    T.ensure('names stay distinct', z3.Implies(z3.And(k >= 0, k < q, q < w.f['len']), s.name(at(w, k)) != s.name(at(w, q)))); T.cover('one of two is removed', z3.And(v.f['len'] == 2, w.f['len'] == 1))
@task('C28', 'task', mode=M, loops=[unreg_loop], contracts=CON)
def Unregister(T):
    ex = T.ex; s, o, v = collection(T); T.assume(distinct(s, v), 'names in the collection are distinct (class invariant)'); f = T.fns(PC + '::UnregisterPrimitivesByName')[0]; names = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'names'); T.data.update(s=s, v=v, o=o, names=T.val(names)); r = T.call(f, o, [names]); T.never_throws(r); unregistered(T, s, o, v, names)
@task('C28', 'task', mode=M, loops=[unreg_loop], contracts=CON)
def UnregisterOne(T):
    ex = T.ex; s, o, v = collection(T); T.assume(distinct(s, v), 'names in the collection are distinct (class invariant)'); f = T.fns(PC + '::UnregisterPrimitiveByName')[0]; nm = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'name'); d = T.data; x = z3.Const('any_name', s.N); one = z3.Lambda([x], x == T.val(nm)); d.update(s=s, v=v, o=o, names=Struct(-1, {'has': one})); r = T.call(f, o, [nm]); T.never_throws(r); unregistered(T, s, o, v, nm)
@task('C28', 'task', mode=M, contracts=CON)
def Clear(T):
    s, o, v = collection(T); r = T.call(T.fns(PC + '::ClearPrimitives')[0], o, []); T.never_throws(r); T.ensure('empty', prims(T.ex, T.val(o)).f['len'] == 0); r = T.call(T.fns(PC + '::Primitives')[0], o, []); T.ensure('the primitives held', T.val(r.ret).f['len'] == 0)
# ---- primitives made of functions
@task('C28', 'task', mode=M)
def Wrapper(T):
    """a primitive made of functions answers what its functions answer, and carries the name given"""
    ex = T.ex; W = TP + 'ActionPrimitiveWrapper<' + CT + '::'; s = S(ex); fn = lambda n, k=0: [f for f in T.fns(W + n)][k]; ctor = [f for f in T.fns(W + 'ActionPrimitiveWrapper') if len(f['ps']) == 4][0]; d = T.data; out = fn('GetOutcomes'); ot, et = out['ret'] if 'ret' in out else None, None
    def cand(ex, a, e): return z3.Function('f_cand', s.V, B_)(ex.asval(a[0]))
    def outc(ex, a, e): d['o'] = ex.fresh(ex.ty.strip_ref(e['t']) if e and 't' in e else None, 'outcomes'); d['oa'] = ex.asval(a[0]); return d['o']
    def exe(ex, a, e): d['x'] = ex.fresh(ex.ty.strip_ref(e['t']), 'result'); d['xa'] = ex.asval(a[0]); return d['x']
    ps = ctor['ps']; a = [T.lv(ex.ty.strip_ref(p['t']), v, n) for p, v, n in zip(ps, [T.func('is_candidate_fn', cand), T.func('get_outcomes_fn', outc), T.func('execute_fn', exe)], 'coe')] + [T.obj(ex.ty.strip_ref(ps[3]['t']), 'name')]; w = T.lv(ctor['cls'], ex.uninit(ctor['cls']), 'wrapper'); T.never_throws(T.call(ctor, w, a)); st = T.obj(ex.ty.strip_ref(fn('IsCandidate')['ps'][0]['t']), 'state'); same = lambda a, b: z3.And(a.f['len'] == b.f['len'], a.f['arr'] == b.f['arr'])
    o = T.call(fn('IsCandidate'), w, [st]); T.ensure('candidate as the function says', o.ret == z3.Function('f_cand', s.V, B_)(T.val(st))); o = T.call(fn('GetOutcomes'), w, [st]); T.ensure('outcomes of the function for the state given', z3.And(same(o.ret, d['o']), d['oa'] == T.val(st))); o = T.call(fn('Execute'), w, [st]); T.ensure('result of the function for the state given', z3.And(same(o.ret, d['x']), d['xa'] == T.val(st))); o = T.call(fn('Name'), w, []); T.ensure('name given', ex.asval(o.ret) == T.val(a[3]))
# ---- planning
def un(ex, tid, v): return v if isinstance(v, Struct) else ex.ty.unpack(tid, v)
def fld(ex, s, n): t = dict(ex.ty.fields(s.tid))[n][1]; v = s.f[n]; return v if isinstance(v, Struct) or ex.ty.kind(t) not in ('rec', 'vec', 'tuple') else ex.ty.unpack(t, v)
class Plan_(object):
    """what the planner is asked: primitives, outcomes, starts"""
    def __init__(self, T, f):
        ex = self.ex = T.ex; s = self.s = S(ex); d = T.data; ps = f['ps']; self.T = T; d['pl'] = self; s_, o, v = collection(T); self.o, self.v = o, v; self.n = v.f['len']; self.complete = z3.Function('complete', s.V, B_); self.h = z3.Function('heuristic', s.V, R_); self.noh = z3.Bool('no_heuristic'); self.eq = z3.Function('state_equal', s.V, s.V, B_); self.hash = z3.Function('state_hash', s.V, I_)
        g = [x for x in ex.ast['functions'] if x['q'] == AP + '::GetOutcomes'][0]; self.ot = ex.ty.strip_ref(g['rt'] if 'rt' in g else g['ret']); self.oe = ex.ty.elem(self.ot); z = ex.fresh(self.ot, 'o'); self.oarr = z3.Function('outcomes', s.P, s.V, z.f['arr'].sort()); self.olen = z3.Function('outcome_count', s.P, s.V, I_)
        p, x, j = z3.Const('op', s.P), z3.Const('ox', s.V), z3.Int('oj'); T.assume(qall([p, x], z3.And(self.olen(p, x) >= 0, self.olen(p, x) <= 2 ** 40), patterns=[self.olen(p, x)])); T.assume(qall([p, x, j], self.out(p, x, j)['cost_'] >= 0, patterns=[sel(self.oarr(p, x), j)]), 'StateWithCost holds a non-negative cost (its constructor rejects others, proved under C17)')
        T.assume(qall([j], z3.Implies(z3.And(j >= 0, j < self.n), self.p(j) != s.null), patterns=[sel(v.f['arr'], j)]), 'registered primitives are not null')
    def p(self, i): return sel(self.v.f['arr'], i)
    def out(self, p, x, j): return self.ex.ty.unpack(self.oe, sel(self.oarr(p, x), j)).f
    def is_step(self, x, j, y, i, w=None):
        """y, i is outcome j of primitive i at x"""
        return z3.And(i >= 0, i < self.n, self.s.cand(self.p(i), x), j >= 0, j < self.olen(self.p(i), x), self.out(self.p(i), x, j)['state_'] == y, *([self.out(self.p(i), x, j)['cost_'] == w] if w is not None else []))
def cand_con(ex, c): P = ex.task.data['pl']; return P.s.cand(ex.load(c.this), c.val(0))
def outc_con(ex, c): P = ex.task.data['pl']; p, x = ex.load(c.this), c.val(0); ex.oblige('post', P.s.cand(p, x), c.e, 'only asked for outcomes where it is a candidate'); return Struct(c.rettid, {'arr': P.oarr(p, x), 'len': P.olen(p, x)})
EQ, HASH = 'tu::Eq::operator()', 'tu::Hash::operator()'
CON2 = dict(CON, **{AP + '::IsCandidate': cand_con, AP + '::GetOutcomes': outc_con, EQ: lambda ex, c: ex.task.data['pl'].eq(c.val(0), c.val(1)), HASH: lambda ex, c: ex.task.data['pl'].hash(c.val(0))})
base, pi, oj = z3.Function('children_before', I_, I_), z3.Function('primitive_of_child', I_, I_), z3.Function('outcome_of_child', I_, I_)
def kid(ex, W, et, q): x = ex.ty.unpack(et, sel(W['arr'], q)); o = fld(ex, x, 'state_'); return o.f['outcome_'], o.f['primitive_index_'], x.f['cost_']
def steps(ex, P, i): P.cnt = lambda k: z3.If(P.s.cand(P.p(k), P.x), P.olen(P.p(k), P.x), 0); ex.fact(base(0) == 0); [ex.fact(z3.Implies(k >= 0, base(k + 1) == base(k) + P.cnt(k))) for k in (i, i - 1)]
def kids_inv(ex, P, W, et, n):
    """the children listed so far: n of them, child q is outcome oj(q) of primitive pi(q)"""
    q = z3.Int('q'); y, i, w = kid(ex, W, et, q); return [('number of children', z3.And(W['len'] == n, n >= 0)), ('children are outcomes of the primitive they name', qall([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(i == pi(q), P.is_step(P.x, oj(q), y, i, w))), patterns=[sel(W['arr'], q)]))]
def kidvec(ex): d = ex.task.data; return [v for v in vars_of(ex, 'vec') if 'OutcomeWithPrimitiveIndex' in ex.ty.name(ex.ty.elem(v.tid))][-1]
def outer_loop(L):
    ex = L.ex; P = ex.task.data['pl']; i = L.i; w = kidvec(ex); P.kv = w; W = L.read(w).f; P.i = i; steps(ex, P, i); k, j = z3.Ints('k j'); return [('position', z3.And(i >= 0, i <= P.n))] + kids_inv(ex, P, W, ex.ty.elem(w.tid), base(i)) + complete_upto(ex, P, i)
def complete_upto(ex, P, i): k, j = z3.Ints('k j'); return [('all outcomes so far are children', qall([k, j], z3.Implies(z3.And(k >= 0, k < i, j >= 0, P.s.cand(P.p(k), P.x), j < P.olen(P.p(k), P.x)), z3.And(base(k) + j >= 0, base(k) + j < base(i), pi(base(k) + j) == k, oj(base(k) + j) == j)), patterns=[sel(P.oarr(P.p(k), P.x), j)]))]
def inner_loop(L):
    ex = L.ex; P = ex.task.data['pl']; j, i = L.i, L.read(vars_of(ex, 'int')[0]); P.kv = kidvec(ex); W = L.read(P.kv).f; steps(ex, P, i)
    for q in (j, j - 1): ex.fact(z3.Implies(z3.And(q >= 0, base(i) + q >= 0), z3.And(pi(base(i) + q) == i, oj(base(i) + q) == q)))
    q = z3.Int('iq'); return [('position', z3.And(j >= 0, j <= P.olen(P.p(i), P.x), P.s.cand(P.p(i), P.x), i >= 0, i < P.n))] + kids_inv(ex, P, W, ex.ty.elem(P.kv.tid), base(i) + j) + complete_upto(ex, P, i) + [('and those of this primitive', qall([q], z3.Implies(z3.And(q >= 0, q < j), z3.And(pi(base(i) + q) == i, oj(base(i) + q) == q)), patterns=[sel(P.oarr(P.p(i), P.x), q)]))]
def start_loop(L):
    ex = L.ex; P = ex.task.data['pl']; i = L.i; w = kidvec(ex); W = L.read(w).f; q = z3.Int('q'); y, ix, c = kid(ex, W, ex.ty.elem(w.tid), q); return [('position', z3.And(i >= 0, i <= P.starts.f['len'])), ('starts so far', z3.And(W['len'] == i, qall([q], z3.Implies(z3.And(q >= 0, q < i), z3.And(y == sel(P.starts.f['arr'], q), ix == -1, c == 0)), patterns=[sel(W['arr'], q)])))]
def result_facts(P, r, ex):
    """the result of a search from the starts over the outcomes of the primitives"""
    path = fld(ex, r, 'path_'); n = path.f['len']; cost = r.f['path_cost_']; et = ex.ty.elem(path.tid); at = lambda k: ex.ty.unpack(et, sel(path.f['arr'], k)).f; P.at, P.len, P.cost = at, n, cost; k = z3.Int('pk'); return [('length', z3.And(n >= 0, n <= 2 ** 48)), ('no path exactly when the cost is infinite', z3.And((n == 0) == (cost == ex.inf()), z3.Implies(n > 0, z3.And(cost >= 0, cost < ex.inf())))), ('starts at a start', z3.Implies(n > 0, z3.And(P.start >= 0, P.start < P.starts.f['len'], at(0)['outcome_'] == sel(P.starts.f['arr'], P.start), at(0)['primitive_index_'] == -1))), ('ends at a state that is complete', z3.Implies(n > 0, P.complete(at(n - 1)['outcome_']))), ('every step is an outcome of the primitive named, a candidate for the state before', qall([k], z3.Implies(z3.And(k >= 1, k < n), P.is_step(at(k - 1)['outcome_'], P.wit(k), at(k)['outcome_'], at(k)['primitive_index_'])), patterns=[sel(path.f['arr'], k)]))]
def witness(P): P.start = z3.Int(P.ex.fresh_id('start_of_path')); P.wit = z3.Function(P.ex.fresh_id('outcome_taken'), I_, I_)
def astar_con(ex, c):
    """PerformAstarSearch, proved under C17: a path is a chain of children from a start to a goal, or no goal can be reached"""
    P = ex.task.data['pl']; sv = ex.asval(c.args[0]); q = z3.Const(ex.fresh_id('q'), I_); W = sv.f; et = ex.ty.elem(sv.tid); y, ix, w = kid(ex, W, et, q)
    ex.oblige('post', z3.And(W['len'] == P.starts.f['len'], z3.Implies(z3.And(q >= 0, q < W['len']), z3.And(y == sel(P.starts.f['arr'], q), ix == -1, w == 0))), c.e, 'searched from the start states, at no cost'); s0 = ex.st; ex.st = ex.with_pc(s0.clone(), z3.BoolVal(True)) or s0.clone(); log = []; ex.wlogs.append(log); ot = dict(ex.ty.fields(et))['state_'][1]; x = ex.fresh(ot, 'state'); X = x.f['outcome_']; P.x = X; xl = lambda: ex.new_root(ot, x, 'state')
    try:
        ex.oblige('post', ex.asval(ex.invoke(ex.asval(c.args[1]), [xl()], c.e)) == P.complete(X), c.e, 'goals are the states that are complete', assume=False); ex.oblige('post', ex.asval(ex.invoke(ex.asval(c.args[3]), [xl()], c.e)) == z3.If(P.noh, z3.RealVal(0), P.h(X)), c.e, 'the heuristic is the caller\'s, or none', assume=False)
        ch = ex.asval(ex.invoke(ex.asval(c.args[2]), [xl()], c.e)); y, i, w = kid(ex, ch.f, et, q); k, j = z3.Const(ex.fresh_id('k'), I_), z3.Const(ex.fresh_id('j'), I_); ex.oblige('post', z3.Implies(z3.And(q >= 0, q < ch.f['len']), P.is_step(X, oj(q), y, i, w)), c.e, 'children are outcomes of applicable primitives, with the index of the primitive and the cost', assume=False); y, i, w = kid(ex, ch.f, et, base(k) + j); o = P.out(P.p(k), X, j)
        ex.oblige('post', z3.Implies(z3.And(k >= 0, k < P.n, P.s.cand(P.p(k), X), j >= 0, j < P.olen(P.p(k), X)), z3.And(base(k) + j >= 0, base(k) + j < ch.f['len'], y == o['state_'], i == k, w == o['cost_'])), c.e, 'every outcome of every applicable primitive is a child', assume=False)
        e = ex.asval(c.args[6]); h = ex.asval(c.args[5]); x2 = ex.fresh(ot, 'other'); fe = [f for f in ex.ast['functions'] if f.get('cls') == e.tid and f['name'] == 'operator()'][0]; fh = [f for f in ex.ast['functions'] if f.get('cls') == h.tid and f['name'] == 'operator()'][0]; el, hl = ex.new_root(e.tid, e, 'equal'), ex.new_root(h.tid, h, 'hash'); r = ex.asval(ex.call(fe, el, [xl(), ex.new_root(ot, x2, 'other')], c.e)); ex.oblige('post', r == z3.And(x.f['primitive_index_'] == x2.f['primitive_index_'], P.eq(X, x2.f['outcome_'])), c.e, 'search states are equal exactly when reached by the same primitive and equal as states', assume=False); y1, y2 = ex.asval(ex.call(fh, hl, [xl()], c.e)), ex.asval(ex.call(fh, hl, [ex.new_root(ot, x2, 'other')], c.e)); ex.oblige('post', z3.Implies(P.hash(X) == P.hash(x2.f['outcome_']), y1 == y2), c.e, 'states with one hash have one hash in the search', assume=False)
    except Dead: pass
    finally: ex.wlogs.pop()
    bad = sorted({str(r) for r, p in log if r in s0.roots})
    if bad: raise Unsupported('a callback writes shared state %s' % bad)
    ex.st = s0; ex.throw_if(z3.Or(W['len'] == 0, z3.Bool('cost_not_finite')), 'std::exception', c.e); r = ex.fresh(c.rettid, 'found'); witness(P); P.result = r
    for nm, q in result_facts(P, r, ex): ex.assume(q)
    return r
def plan_args(T, P, f):
    ex = T.ex; ps = f['ps']; ty = ex.ty.strip_ref; V_ = P.s.V; P.startlv = T.obj(ty(ps[2]['t']), 'starts'); P.starts = T.val(P.startlv); T.assume(z3.And(P.starts.f['len'] >= 0, P.starts.f['len'] <= 2 ** 40)); return [P.o, T.lv(ty(ps[1]['t']), T.func('complete_fn', lambda ex, a, e: P.complete(ex.asval(a[0]))), 'complete'), P.startlv]
def plan_more(T, P, ps): ex = T.ex; ty = ex.ty.strip_ref; return [T.lv(ty(ps[0]['t']), T.func('heuristic_fn', lambda ex, a, e: P.h(ex.asval(a[0])), empty=P.noh), 'heuristic'), T.obj(ty(ps[1]['t']), 'hash'), T.obj(ty(ps[2]['t']), 'equal')]
@task('C28', 'task', mode=M, loops=[start_loop, outer_loop, inner_loop], contracts=dict(CON2, **{NSP + 'simple_astar_search::PerformAstarSearch': astar_con}))
def Plan(T):
    ex = T.ex; f = T.fns(TP + 'PlanTaskStateSequence')[0]; P = Plan_(T, f); o = T.call(f, None, plan_args(T, P, f) + plan_more(T, P, f['ps'][3:])); T.throws_only_if(o, z3.Or(P.starts.f['len'] == 0, z3.Bool('cost_not_finite')), 'rejected only without a start, or when the search finds a path of infinite cost'); r = o.ret; flat = lambda r: (r.f['path_cost_'], fld(ex, r, 'path_').f['len'], fld(ex, r, 'path_').f['arr']); T.ensure('result of the search', z3.And(*[a == b for a, b in zip(flat(r), flat(P.result))])); T.cover('two steps', P.len == 3)

# ---- the next primitive
def forwarded(ex, c, P, a):
    """collection and callbacks at these positions of a call are the caller's: collection, completion, heuristic, hash, equality"""
    v = prims(ex, ex.load(c.args[a[0]])); ex.oblige('post', z3.And(v.f['len'] == P.n, v.f['arr'] == P.v.f['arr']), c.e, 'the primitives passed on are the ones given'); x = z3.Const(ex.fresh_id('state'), P.s.V); vt = P.vt; lv = lambda: ex.new_root(vt, x, 'state')
    ex.oblige('post', ex.asval(ex.invoke(ex.asval(c.args[a[1]]), [lv()], c.e)) == P.complete(x), c.e, 'the completion check passed on is the one given', assume=False)
    h = ex.asval(c.args[a[2]]); ok = h is P.hfn
    ex.oblige('post', z3.BoolVal(True) if ok else ex.asval(ex.invoke(h, [lv()], c.e)) == z3.If(P.noh, z3.RealVal(0), P.h(x)), c.e, 'the heuristic passed on is the one given', assume=False)
def new_result(ex, c, P): r = ex.fresh(c.rettid, 'planned'); witness(P); P.result = r; return r
def plan_con(ex, c):
    P = ex.task.data['pl']; forwarded(ex, c, P, (0, 1, 3)); P.starts = ex.asval(c.args[2]); ex.throw_if(z3.Or(P.starts.f['len'] == 0, z3.Bool('cost_not_finite')), 'std::exception', c.e); r = new_result(ex, c, P)
    for nm, q in result_facts(P, r, ex): ex.assume(q)
    return r
def is_null(ex, c): return ex.load(c.this) == S(ex).null
def bool_con(ex, c): return mkNot(is_null(ex, c))
SP = 'std::__shared_ptr<' + AP + ', __gnu_cxx::_S_atomic>::operator bool'
CON3 = dict(CON2, **{SP: bool_con, SPA[:-10] + 'operator bool': bool_con, 'std::shared_ptr<' + AP + '>::operator bool': bool_con})
def first_equal(L):
    """the potential outcomes before this one are not the outcome the plan starts with"""
    ex = L.ex; P = ex.task.data['pl']; k = z3.Int('k'); i = L.i; s0 = P.at(0)['outcome_']; b = [L.read(v) for v in L.locals('int') if L.ind is None or v.root != getattr(L.ind, 'root', None)]
    return [('position', z3.And(i >= 0, i <= P.starts.f['len'])), ('none equal so far', qall([k], z3.Implies(z3.And(k >= 0, k < i), z3.Not(P.eq(s0, sel(P.starts.f['arr'], k)))), patterns=[sel(P.starts.f['arr'], k)]))]
def next_facts(P, r, ex):
    """what is said about the next primitive to execute: the plan, the outcome chosen, and the primitive"""
    res = fld(ex, r, 'planning_result_'); fs = result_facts(P, res, ex); b = r.f['selected_outcome_index_']; p = r.f['action_primitive_']; k = z3.Int('nk'); st = lambda k: sel(P.starts.f['arr'], k); P.chosen, P.prim = b, p; i1 = P.at(1)['primitive_index_']
    return fs + [('there is a plan', P.len >= 1), ('the outcome chosen is one of those given', z3.And(b >= 0, b < P.starts.f['len'])), ('it is the state the plan starts with', P.eq(P.at(0)['outcome_'], st(b))), ('the primitive that makes the first step of the plan', z3.Implies(P.len > 1, z3.And(i1 >= 0, i1 < P.n, p == P.p(i1), P.s.cand(p, P.at(0)['outcome_'])))), ('no primitive exactly when the state is complete at once', (p == P.s.null) == (P.len == 1))]
def reflexive(T, P): x = z3.Const('rx', P.s.V); T.assume(qall([x], P.eq(x, x), patterns=[P.eq(x, x)]), 'state equality is reflexive')
def more_args(T, P, ps): a = plan_more(T, P, ps); P.hfn = T.val(a[0]); return a
@task('C28', 'task', mode=M, loops=[first_equal], contracts=dict(CON3, **{TP + 'PlanTaskStateSequence': plan_con}))
def GetNext(T):
    ex = T.ex; f = T.fns(TP + 'GetNextPrimitiveToExecute')[0]; P = Plan_(T, f); T.data['nullable'] = True; ps = f['ps']; a = plan_args(T, P, f); P.vt = ex.ty.elem(P.starts.tid); reflexive(T, P); st = P.starts; P.starts0 = st; x = z3.Const('start0', P.s.V)
    o = T.call(f, None, a + more_args(T, P, ps[3:])); T.throws_only_if(o, z3.Or(st.f['len'] == 0, z3.Bool('cost_not_finite'), P.len == 0), 'rejected only without a potential outcome, or a plan from one'); P.starts = st; r = o.ret
    for nm, q in next_facts(P, r, ex): T.ensure(nm, q)
    T.cover('second outcome chosen', z3.And(st.f['len'] == 2, r.f['selected_outcome_index_'] == 1, P.len == 2))
# ---- performing a task
olen, best = z3.Function('outcomes_after', I_, I_), z3.Function('chosen_of', I_, I_)
def ghosts(P):
    P.Oarr = z3.Function('outcomes_of', I_, P.starts.f['arr'].sort()); P.ep, P.xs = z3.Function('performed', I_, P.s.P), z3.Function('performed_on', I_, P.s.V)
    P.O = lambda t, j: sel(P.Oarr(t), j); P.sel = lambda t: P.O(t, best(t))
def rd(ex, lv): return ex.load(lv)
def next_con(ex, c):
    P = ex.task.data['pl']; forwarded(ex, c, P, (0, 1, 3)); st = P.starts = ex.asval(c.args[2]); k = rd(ex, P.g); ex.oblige('post', z3.And(st.f['len'] == olen(k), st.f['arr'] == P.Oarr(k)), c.e, 'planned from the outcomes of the last execution'); ex.throw_if(z3.Or(st.f['len'] == 0, z3.Bool(ex.fresh_id('no_plan'))), 'std::exception', c.e); r = ex.fresh(c.rettid, 'next'); witness(P)
    for nm, q in next_facts(P, r, ex): ex.assume(q)
    ex.assume(z3.And(best(k) == P.chosen, k < 2 ** 31 - 1)); return r   # assumed: fewer than 2^31 - 1 executions (the count is an int32_t)
def exec_con(ex, c):
    P = ex.task.data['pl']; k = rd(ex, P.g); p, x = ex.load(c.this), c.val(0); ex.oblige('post', z3.Or(P.max < 0, k < P.max), c.e, 'no more executions than allowed'); ex.oblige('post', z3.And(p == P.prim, p != P.s.null), c.e, 'the primitive performed is the next one'); i1 = P.at(1)['primitive_index_']; ex.oblige('post', z3.And(i1 >= 0, i1 < P.n, p == P.p(i1), P.s.cand(p, P.at(0)['outcome_']), P.eq(P.at(0)['outcome_'], x)), c.e, 'it is registered, and a candidate for the state it is performed on')
    ex.oblige('post', x == P.sel(k), c.e, 'performed on the outcome chosen'); ex.oblige('post', z3.And(called(ex, P, 'out', k + 1), called(ex, P, 'pre', k + 1), called(ex, P, 'post', k)), c.e, 'the callbacks have been told'); ex.store(P.g, k + 1); z = ex.fresh(c.rettid, 'outcomes'); ex.assume(z3.And(z.f['len'] >= 0, z.f['len'] <= 2 ** 40, olen(k + 1) == z.f['len'], P.Oarr(k + 1) == z.f['arr'], P.ep(k) == p, P.xs(k) == x, P.reg(k) == i1, k < 2 ** 31 - 1)); return z
def called(ex, P, n, k): return z3.Or(P.no[n], rd(ex, P.calls[n]) == k)
def callback(n):
    def m(ex, a, e):
        P = ex.task.data['pl']; k = rd(ex, P.g); i = rd(ex, P.calls[n]); ex.oblige('post', z3.And(mkNot(P.no[n]), i == (k - 1 if n == 'post' else k)), e, 'callback %s: told once' % n); ex.store(P.calls[n], i + 1); g = lambda j: ex.asval(a[j])
        if n == 'pre': ex.oblige('post', z3.And(g(0) == P.sel(k), g(1) == P.prim, g(1) != P.s.null), e, 'told which primitive is about to be performed on which state')
        else: ex.oblige('post', z3.And(g(0).f['len'] == olen(k), g(0).f['arr'] == P.Oarr(k), *([g(1) == best(k)] if n == 'out' else [])), e, 'told the outcomes' + (', and which is chosen' if n == 'out' else ''))
    return m
def run_inv(ex, P, k, tr, cur):
    q = z3.Int('q'); return [('executions', z3.And(k >= 0, k <= 2 ** 31 - 1, z3.Or(P.max < 0, k <= P.max))), ('outcomes of the last execution', z3.And(cur['len'] == olen(k), cur['arr'] == P.Oarr(k))), ('states are chosen from the outcomes of the execution before', qall([q], z3.Implies(z3.And(q >= 0, q < tr['len']), z3.And(best(q) >= 0, best(q) < olen(q), sel(tr['arr'], q) == P.sel(q))), patterns=[sel(tr['arr'], q)])), ('executions performed on the states recorded', qall([q], z3.Implies(z3.And(q >= 0, q < k), P.xs(q) == P.sel(q)), patterns=[P.xs(q)])), ('by primitives registered', qall([q], z3.Implies(z3.And(q >= 0, q < k), z3.And(P.reg(q) >= 0, P.reg(q) < P.n, P.ep(q) == P.p(P.reg(q)))), patterns=[P.ep(q)]))]
def run_loop(L):
    ex = L.ex; P = ex.task.data['pl']; vs = [v for v in L.locals('vec')]; k = L.read(P.g); zero = lambda v: z3.is_true(z3.simplify(L.read(v, L.entry).f['len'] == 0)); tr = [v for v in vs if zero(v)][-1]; cur = [v for v in vs if v.root != tr.root and v.root != P.startlv.root][-1]; T_, C = L.read(tr).f, L.read(cur).f; fl = [L.read(v) for v in L.locals('bool') if v.root in [r for r, _ in L.extra.get('written', [])]]
    n = [L.read(v) for v in L.locals('int') if v.root in [r for r, _ in L.extra.get('written', [])] and v.root != P.g.root]
    return run_inv(ex, P, k, T_, C) + [('a state recorded for each execution', T_['len'] == k), ('executions counted', z3.And(*[x == k for x in n])), ('not done', z3.And(*[z3.Not(b) for b in fl]))] + [('callback %s' % m, z3.Or(P.no[m], L.read(P.calls[m]) == k)) for m in P.no]
def exec_args(T, f, P, a):
    ex = T.ex; ps = f['ps']; ty = ex.ty.strip_ref; P.vt = ex.ty.elem(P.starts.tid); reflexive(T, P); P.max = T.sym(ps[3]['t'], 'max_executions'); ghosts(P); i64 = f['ps'][3]['t']; P.g = T.lv(i64, z3.IntVal(0), 'executions'); P.no = {n: z3.Bool('no_callback_' + n) for n in ('pre', 'post', 'out')}; P.calls = {n: T.lv(i64, z3.IntVal(0), 'calls_' + n) for n in P.no}; more = more_args(T, P, ps[4:]); cb = [T.lv(ty(ps[7 + i]['t']), T.func(n, callback(n), empty=P.no[n]), n) for i, n in enumerate(('pre', 'post', 'out'))]; T.assume(z3.And(olen(0) == P.starts.f['len'], P.Oarr(0) == P.starts.f['arr'])); P.reg = z3.Function('registered_at', I_, I_); return a + [P.max] + more + cb
@task('C28', 'task', mode=M, loops=[run_loop], contracts=dict(CON3, **{TP + 'GetNextPrimitiveToExecute': next_con, AP + '::Execute': exec_con}))
def Execute(T):
    ex = T.ex; f = [f for f in T.fns(TP + 'PerformSingleTaskExecution') if ex.ty.kind(ex.ty.strip_ref(f['ps'][2]['t'])) == 'vec'][0]; P = Plan_(T, f); T.data['nullable'] = True; o = T.call(f, None, exec_args(T, f, P, plan_args(T, P, f))); tr = o.ret.f; k = T.val(P.g); q = T.qv('q')
    T.ensure('no more executions than allowed', z3.And(k >= 0, z3.Or(P.max < 0, k <= P.max))); T.ensure('states recorded are outcomes of the executions before, or starts', z3.Implies(z3.And(q >= 0, q < tr['len']), z3.And(best(q) >= 0, best(q) < olen(q), sel(tr['arr'], q) == P.sel(q)))); T.ensure('every execution was performed on the state recorded for it', z3.Implies(z3.And(q >= 0, q < k), z3.And(q < tr['len'], P.xs(q) == sel(tr['arr'], q)))); T.ensure('one state more than executions when the task is complete', z3.Or(tr['len'] == k, tr['len'] == k + 1)); T.ensure('it stops early only when complete', z3.Implies(z3.Or(P.max < 0, k < P.max), z3.And(tr['len'] == k + 1, P.complete(P.at(0)['outcome_']), P.eq(P.at(0)['outcome_'], sel(tr['arr'], k)))))
    for n in P.no: T.ensure('callback %s told of everything' % n, z3.Or(P.no[n], T.val(P.calls[n]) == (tr['len'] if n == 'out' else k)))
    T.ensure('performed by registered primitives', z3.Implies(z3.And(q >= 0, q < k), z3.And(P.reg(q) >= 0, P.reg(q) < P.n, P.ep(q) == P.p(P.reg(q))))); T.cover('two executions', z3.And(k == 2, tr['len'] == 3))

def single_con(ex, c):
    """the overload for many start states (task Execute)"""
    P = ex.task.data['pl']; forwarded(ex, c, P, (0, 1, 4)); v = c.val(2); ex.oblige('post', z3.And(v.f['len'] == 1, sel(v.f['arr'], 0) == P.one), c.e, 'one start state, the one given'); ex.oblige('post', c.val(3) == P.max, c.e, 'the number of executions allowed is the one given')
    for i, n in enumerate(('pre', 'post', 'out')): ex.oblige('post', z3.BoolVal(c.val(7 + i) is P.cb[i]), c.e, 'callback %s is the one given' % n)
    ex.throw_if(z3.Bool('fails'), 'std::exception', c.e); P.result = ex.fresh(c.rettid, 'trace'); return P.result
@task('C28', 'task', mode=M, contracts=CON3)
def ExecuteOne(T):
    """from a single start state: what is done is what is done from a list of that state alone"""
    ex = T.ex; fs = T.fns(TP + 'PerformSingleTaskExecution'); f = [f for f in fs if ex.ty.kind(ex.ty.strip_ref(f['ps'][2]['t'])) == 'opaque'][0]; g = [g for g in fs if g is not f][0]; P = Plan_(T, g); a = plan_args(T, P, g); more = exec_args(T, g, P, a); P.cb = [T.val(x) for x in more[-3:]]; one = T.obj(ex.ty.strip_ref(f['ps'][2]['t']), 'start'); P.one = T.val(one); more[2] = one; ex.contracts[f['q']] = single_con; o = T.call(f, None, more); T.throws_only_if(o, z3.Bool('fails'), 'nothing else fails'); T.ensure('trace passed on', z3.And(o.ret.f['len'] == P.result.f['len'], o.ret.f['arr'] == P.result.f['arr']))
