"""Contracts shared by several properties (each is proved by the property named in its docstring)."""
from vc.task import *
NSP = 'common_robotics_utilities::'
def struct_of(T, tid, **f): return Struct(tid, f)

def calc_static_contract(S):
    """CalcStaticThreadRangeStartAndEnd, proved under C01: sub-range t is [S(t), S(t+1)) with S(0)=start, S(n)=end, S monotone."""
    def con(ex, c):
        rs, re, n, t = [c.val(i) for i in range(4)]
        ex.throw_if(z3.Or(re < rs, n < 1, t < 0, t >= n), 'std::invalid_argument', c.e)
        ex.oblige('callee-pre', re - rs <= 2 ** 63 - 1, c.e, 'range length representable')
        s, e = S(rs, re, n, t), S(rs, re, n, t + 1)
        ex.assume(z3.And(s >= rs, s <= e, e <= re, z3.Implies(t == 0, s == rs), z3.Implies(t == n - 1, e == re)))
        return Struct(c.rettid, {'first': s, 'second': e})
    return con
Sfun = z3.Function('static_start', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())

MAXI = 2 ** 63 - 1
def grid_inv(s):
    """class invariant of GridSizes (established by every constructor and by deserialization under C05)"""
    nx, ny, nz = (s.f['num_%s_cells_' % a] for a in 'xyz')
    ok = z3.And(nx >= 1, ny >= 1, nz >= 1, s.f['stride1_'] == ny * nz, s.f['stride2_'] == nz, ny * nz <= MAXI, nx * ny * nz <= MAXI, nx * (ny * nz) <= MAXI)
    zero = z3.And(nx == 0, ny == 0, nz == 0, s.f['stride1_'] == 0, s.f['stride2_'] == 0)
    return z3.If(s.f['valid_'], ok, zero)
def counts(s): return tuple(s.f['num_%s_cells_' % a] for a in 'xyz')
def inb(s, i):
    return mkAnd(*[z3.And(x >= 0, x < n) for x, n in zip(i, counts(s))])
def offset(s, i):
    nx, ny, nz = counts(s); x, y, z = i
    return x * (ny * nz) + y * nz + z
def offset_lemma(T, s, i, cond=None):
    """lemma (proved here as obligations, then used): an in-bounds cell's offset lies in [0, total)"""
    nx, ny, nz = counts(s); x, y, z = i
    hyp = z3.And(s.f['valid_'], inb(s, i))
    T.lemma('x*(ny*nz) <= (nx-1)*(ny*nz)', z3.Implies(hyp, x * (ny * nz) <= (nx - 1) * (ny * nz)))
    T.lemma('y*nz <= (ny-1)*nz', z3.Implies(hyp, y * nz <= (ny - 1) * nz))
    T.lemma('partial products non-negative', z3.Implies(hyp, z3.And(x * (ny * nz) >= 0, y * nz >= 0)))
    T.lemma('total regrouped', nx * ny * nz == nx * (ny * nz))
    T.lemma('offset bounded', z3.Implies(hyp, z3.And(offset(s, i) >= 0, offset(s, i) < nx * (ny * nz))))
def arg(T, p, v, name='a'):
    """value v as an argument of parameter p (by reference: a fresh object holding v)"""
    if T.ex.ty.kind(p['t']) in ('ref', 'rref'): return T.lv(T.ex.ty.strip_ref(p['t']), v, name)
    return v
def mkargs(T, f, vals): return [arg(T, p, v, p['n']) for p, v in zip(f['ps'], vals)]
def index_arg(T, f, i):
    """three integers, or one GridIndex, whichever overload f is; further parameters appended by the caller"""
    if T.ex.ty.kind(T.ex.ty.strip_ref(f['ps'][0]['t'])) == 'int': return list(i)
    return [Struct(T.ex.ty.strip_ref(f['ps'][0]['t']), {'x_': i[0], 'y_': i[1], 'z_': i[2]})]
def sel(a, i): return z3.Select(a, i)
def parfor(spec):
    """Contract of the parallel index loops (proved under C02: the body runs exactly once for every index of [start, end), with a thread number in [0, threads)).
    spec(ex, c) -> (targets, post[, shift]): element k - shift of every target vector belongs to index k. The body is verified for an arbitrary index from a state in which every
    element another index may be changing is arbitrary (rely), must change nothing but its own elements (guarantee) and establish post(k, old elements, new elements)."""
    def con(ex, c):
        rs, re = c.val(1), c.val(2); work = c.args[3]; I = z3.IntSort()
        ex.throw_if(re < rs, 'std::invalid_argument', c.e)
        targets, post = spec(ex, c)[:2]; sh = (spec(ex, c) + (0,))[2]; s0 = ex.st; olds = [ex.load(t) for t in targets]; nt = ex.load(c.args[0]).f['num_threads_'] if isinstance(c.args[0], LVal) else c.val(0).f['num_threads_']
        k, th = z3.Const(ex.fresh_id('item'), I), z3.Const(ex.fresh_id('thread'), I)
        sub = ex.with_pc(s0.clone(), z3.And(rs <= k, k < re, th >= 0, th < nt))
        ex.task.data['item'] = k; ex.task.data['range'] = (rs, re)
        if sub is not None:
            ex.st = sub; mids = []
            for t, o in zip(targets, olds):
                a = z3.Const(ex.fresh_id('others'), o.f['arr'].sort()); ex.fact(sel(a, k - sh) == sel(o.f['arr'], k - sh)); m = Struct(o.tid, dict(o.f, arr=a)); ex.store(t, m); mids.append(m)
            log = []; ex.wlogs.append(log)
            try:
                ex.invoke(work, [th, k], c.e)
                news = [ex.load(t) for t in targets]; j = z3.Const(ex.fresh_id('j'), I)
                for m, n in zip(mids, news): ex.oblige('frame', z3.And(n.f['len'] == m.f['len'], qall([j], z3.Implies(j != k - sh, sel(n.f['arr'], j) == sel(m.f['arr'], j)))), c.e, 'the work item changes its own element only')
                for nm, g in post(k, [sel(o.f['arr'], k - sh) for o in olds], [sel(n.f['arr'], k - sh) for n in news]): ex.oblige('post', g, c.e, 'work item: ' + nm, assume=False)
            except Dead: pass
            finally: ex.wlogs.pop()
            own = {t.root for t in targets}
            bad = sorted({str(r) for r, p in log if r in s0.roots and r not in own})
            ex.st = s0
            if bad: raise Unsupported('work item writes shared state %s' % bad)
        ex.st = s0; j = z3.Const(ex.fresh_id('j'), I); arrs = []
        for t, o in zip(targets, olds):
            a = z3.Const(ex.fresh_id('after'), o.f['arr'].sort()); arrs.append(a); ex.store(t, Struct(o.tid, dict(o.f, arr=a)))
            ex.fact(qall([j], z3.Implies(z3.Or(j < rs - sh, j >= re - sh), sel(a, j) == sel(o.f['arr'], j)), patterns=[sel(a, j)]))
        ps = post(j + sh, [sel(o.f['arr'], j) for o in olds], [sel(a, j) for a in arrs])
        for nm, g in ps:
            q = qall([j], z3.Implies(z3.And(rs - sh <= j, j < re - sh), g), patterns=[sel(a, j) for a in arrs[:1]]); ex.fact(q); ex.named.append(('work item: ' + nm, q, q))
        return None
    return con
def keys_contract(ex, c):
    """GetKeysFromSetLike / GetKeysFromMapLike (proved under C12): every key once, in the container's order"""
    m = c.val(0); keys, n = ex.lib.enumerate_keys(ex, m); v = ex.fresh(c.rettid, 'keys'); k = z3.Const(ex.fresh_id('k'), z3.IntSort())
    ex.assume(v.f['len'] == n); ex.fact(qall([k], z3.Implies(z3.And(k >= 0, k < n), sel(v.f['arr'], k) == sel(keys, k)), patterns=[sel(v.f['arr'], k)])); return v
PL = NSP + 'parallelism::'
def parloops(spec): return {PL + n: parfor(spec) for n in ('StaticParallelForIndexLoop', 'DynamicParallelForIndexLoop')}
def parranges(spec, single=False):
    """Contract of the parallel range loops (proved under C02: the work ranges partition [start, end), each is run once, with a thread number in [0, threads); ranges given to the same
    thread number run one after the other). spec(ex, c) -> (slots, I, ghost): slots is a vector with one element per thread number, I(t, member, slot, g) a list of named clauses telling
    that slot (with ghost g) is a correct summary of the indices satisfying member; ghost(member, slot, g, a, b) the ghost after the body ran for [a, b).
    single: the loop is an index loop (its body is given a thread number and one index: [a, b) = [index, index + 1))."""
    def con(ex, c):
        rs, re = c.val(1), c.val(2); work = c.args[3]; I_ = z3.IntSort()
        ex.throw_if(re < rs, 'std::invalid_argument', c.e)
        nt = ex.load(c.args[0]).f['num_threads_'] if isinstance(c.args[0], LVal) else c.val(0).f['num_threads_']
        slots, Inv, g0, gnext, garr = spec(ex, c); s0 = ex.st; old = ex.load(slots); et = ex.ty.elem(old.tid); t, a, b = [z3.Const(ex.fresh_id(n), I_) for n in ('thread', 'from', 'upto')]
        unp = lambda arr, t: ex.ty.unpack(et, sel(arr, t)) if ex.ty.composite(et) else sel(arr, t)
        ex.oblige('pre', old.f['len'] >= nt, c.e, 'one slot per thread number')
        tq = z3.Const(ex.fresh_id('t'), I_)
        for nm, g in Inv(tq, lambda i: z3.BoolVal(False), unp(old.f['arr'], tq), g0): ex.oblige('init', z3.ForAll([tq], z3.Implies(z3.And(tq >= 0, tq < nt), g)), c.e, 'empty slot: ' + nm, assume=False)
        done = z3.Const(ex.fresh_id('done'), z3.ArraySort(I_, z3.BoolSort())); i = z3.Const(ex.fresh_id('i'), I_)
        sub = ex.with_pc(s0.clone(), z3.And(t >= 0, t < nt, rs <= a, a <= b, b <= re, *([b == a + 1] if single else [])))
        if sub is not None:
            ex.st = sub; log = []; ex.wlogs.append(log)
            try:
                mid = z3.Const(ex.fresh_id('slots'), old.f['arr'].sort()); ex.store(slots, Struct(old.tid, dict(old.f, arr=mid))); gi = garr(t)
                ex.fact(qall([i], z3.Implies(sel(done, i), z3.And(rs <= i, i < re, z3.Or(i < a, i >= b))), patterns=[sel(done, i)]))
                mem = lambda i: sel(done, i)
                for nm, g in Inv(t, mem, unp(mid, t), gi): ex.assume(g); ex.named.append(('slot before: ' + nm, g, g))
                if single: wargs = [t, a]
                else:
                    wt = ex.ty.strip_ref(ex.ty.find('common_robotics_utilities::parallelism::ThreadWorkRange'))
                    wargs = [ex.new_root(wt, Struct(wt, {'range_start_': a, 'range_end_': b, 'thread_num_': t}), 'work_range')]
                ex.task.data['work'] = (t, a, b); ex.invoke(work, wargs, c.e); new = ex.load(slots); j = z3.Const(ex.fresh_id('j'), I_)
                ex.oblige('frame', z3.And(new.f['len'] == old.f['len'], qall([j], z3.Implies(j != t, sel(new.f['arr'], j) == sel(mid, j)), patterns=[sel(new.f['arr'], j)])), c.e, 'the work range changes its own slot only')
                mem2 = lambda i: z3.Or(sel(done, i), z3.And(a <= i, i < b)); gn = gnext(mem, unp(mid, t), gi, a, b)
                for nm, g in Inv(t, mem2, unp(new.f['arr'], t), gn): ex.oblige('post', g, c.e, 'slot after the work range: ' + nm, assume=False)
            except Dead: pass
            finally: ex.wlogs.pop()
            bad = sorted({str(r) for r, p in log if r in s0.roots and r != slots.root}); ex.st = s0
            if bad: raise Unsupported('work range writes shared state %s' % bad)
        ex.st = s0; after = z3.Const(ex.fresh_id('slots'), old.f['arr'].sort()); ex.store(slots, Struct(old.tid, dict(old.f, arr=after)))
        own = z3.Function(ex.fresh_id('owner'), I_, I_); ex.task.data['owner'] = own; gf = garr(None)
        ex.fact(qall([i], z3.Implies(z3.And(rs <= i, i < re), z3.And(own(i) >= 0, own(i) < nt)), patterns=[own(i)]))
        ex.fact(qall([tq], z3.Implies(z3.Or(tq < 0, tq >= nt), sel(after, tq) == sel(old.f['arr'], tq)), patterns=[sel(after, tq)]))
        for nm, g in Inv(tq, lambda i: z3.And(rs <= i, i < re, own(i) == tq), unp(after, tq), gf(tq)):
            q = qall([tq], z3.Implies(z3.And(tq >= 0, tq < nt), g), patterns=[sel(after, tq)]); ex.fact(q); ex.named.append(('slots: ' + nm, q, q))
        ex.task.data['slots'] = (after, old.f['len'], nt); return None
    return con
def parrangeloops(spec): return {PL + n: parranges(spec) for n in ('StaticParallelForRangeLoop', 'DynamicParallelForRangeLoop')}
def parslots(spec): return {PL + n: parranges(spec, True) for n in ('StaticParallelForIndexLoop', 'DynamicParallelForIndexLoop')}
def vars_of(ex, kind):
    """local objects of a kind in the function being executed"""
    out = []; fr = ex.frames[-1]
    for vid, lv in fr.env.items():
        if isinstance(lv, LVal) and not lv.path and lv.root in ex.st.roots and isinstance(lv.tid, int) and lv.tid >= 0 and ex.ty.kind(lv.tid) == kind: out.append(lv)
    return out
def parcells(spec):
    """Like parfor, for a matrix: spec(ex, c) -> (matrix, owner(r, c), value(r, c)); the item numbered owner(r, c) gives cell (r, c) its value and leaves the cells of other items alone."""
    def con(ex, c):
        rs, re = c.val(1), c.val(2); work = c.args[3]; I = z3.IntSort(); ex.throw_if(re < rs, 'std::invalid_argument', c.e); t, own, val = spec(ex, c); s0 = ex.st; o = ex.load(t); nt = ex.load(c.args[0]).f['num_threads_'] if isinstance(c.args[0], LVal) else c.val(0).f['num_threads_']
        k, th, r, q = [z3.Const(ex.fresh_id(n), I) for n in ('item', 'thread', 'row', 'col')]; cell = lambda m: sel(sel(m.f['arr'], r), q); inr = z3.And(r >= 0, r < o.f['rows'], q >= 0, q < o.f['cols']); sub = ex.with_pc(s0.clone(), z3.And(rs <= k, k < re, th >= 0, th < nt)); ex.task.data['item'] = k; ex.task.data['range'] = (rs, re)
        if sub is not None:
            ex.st = sub; m = Struct(o.tid, dict(o.f, arr=z3.Const(ex.fresh_id('others'), o.f['arr'].sort()))); ex.store(t, m); log = []; ex.wlogs.append(log)
            try:
                ex.invoke(work, [th, k], c.e); n = ex.load(t)
                ex.oblige('frame', z3.And(n.f['rows'] == o.f['rows'], n.f['cols'] == o.f['cols'], qall([r, q], z3.Implies(z3.And(inr, own(r, q) != k), cell(n) == cell(m)), patterns=[cell(n)])), c.e, 'the work item changes its own cells only')
                ex.oblige('post', qall([r, q], z3.Implies(z3.And(inr, own(r, q) == k), cell(n) == val(r, q)), patterns=[cell(n)]), c.e, 'work item: its cells hold their values', assume=False)
            except Dead: pass
            finally: ex.wlogs.pop()
            bad = sorted({str(x) for x, p in log if x in s0.roots and x != t.root}); ex.st = s0
            if bad: raise Unsupported('work item writes shared state %s' % bad)
        ex.st = s0; n = Struct(o.tid, dict(o.f, arr=z3.Const(ex.fresh_id('after'), o.f['arr'].sort()))); ex.store(t, n)
        ex.fact(qall([r, q], z3.Implies(inr, cell(n) == z3.If(z3.And(rs <= own(r, q), own(r, q) < re), val(r, q), cell(o))), patterns=[cell(n)])); return None
    return {PL + n: con for n in ('StaticParallelForIndexLoop', 'DynamicParallelForIndexLoop')}
