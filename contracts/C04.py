from vc.task import *
from common import *
B = 'VoxelGridBase<tu::Val, std::vector<tu::Val, std::allocator<tu::Val>>>::'
SUCCESS, OOB, PROHIBITED, UNKNOWN = 0, 1, 2, 3

def approve(ex, c):
    """the environment's decision; records the cell it was asked about"""
    d = ex.task.data
    x, y, z = [c.val(i) for i in range(3)]
    calls, last = d['calls'], d['last']
    for r in (calls, *last): ex.log_write(r, ())
    ex.st.roots[calls] = ex.st.roots[calls] + 1
    for r, v in zip(last, (x, y, z)): ex.st.roots[r] = v
    return d['decision']
def approve_raw(ex, c):
    d = ex.task.data
    ex.log_write(d['calls'], ()); ex.st.roots[d['calls']] = ex.st.roots[d['calls']] + 1
    return d['rawdecision']
CON = {'tu::approve_access': approve, 'tu::approve_raw': approve_raw}

def grid(T):
    ex = T.ex
    f = T.fn('Guarded::OnMutableAccess')
    g = T.obj(f['cls'], 'grid'); v = T.val(g)
    s = v.f['sizes_']
    T.assume(grid_inv(s))
    nx, ny, nz = counts(s)
    T.assume(v.f['data_'].f['len'] == nx * (ny * nz), 'class invariant: one stored value per cell (established by Initialize, kept by every mutator, below)')
    I = T.type('long')
    d = T.data
    d['calls'] = ex.new_root(I, z3.IntVal(0), 'ghost_calls').root
    d['last'] = [ex.new_root(I, z3.Const(ex.fresh_id('none'), z3.IntSort()), 'ghost_last').root for _ in 'xyz']
    d['decision'] = z3.Const(ex.fresh_id('approved'), z3.BoolSort()); d['rawdecision'] = z3.Const(ex.fresh_id('rawapproved'), z3.BoolSort())
    return g, v, s
def same(ex, a, b):
    """structural equality of two values"""
    if a is b: return z3.BoolVal(True)
    if isinstance(a, Struct): return mkAnd(*[same(ex, a.f[k], b.f[k]) for k in a.f])
    if z3.is_expr(a): return a == b
    return z3.BoolVal(a is b)
def same_but_data(ex, a, b): return mkAnd(*[same(ex, a.f[k], b.f[k]) for k in a.f if k != 'data_'])
def asked(T, st, i):
    d = T.data
    return z3.And(st.roots[d['calls']] == 1, *[st.roots[r] == v for r, v in zip(d['last'], i)])
def idx(T): return [T.sym('long', 'i' + a) for a in 'xyz']

@task('C04', 'voxel', contracts=CON)
def SetIndex(T):
    """const& and && forms, both index forms"""
    for f in T.fns(B + 'SetIndex'):
        T.ex.st = T.ex.st.copy() if hasattr(T.ex.st, 'copy') else T.ex.st
        g, v0, s = grid(T); i = idx(T); val = T.sym(T.ex.ty.strip_ref(f['ps'][-1]['t']), 'value')
        offset_lemma(T, s, i)
        ok = z3.And(s.f['valid_'], inb(s, i))
        T.lemma('invalid grids have no cells', z3.Implies(inb(s, i), s.f['valid_']))
        T.cover('pre', z3.And(ok, T.data['decision']))
        n0 = len(T.ex.st.pc)
        o = T.call(f, g, mkargs(T, f, index_arg(T, f, i) + [val]))
        T.never_throws(o)
        v1 = T.val(g); dec = T.data['decision']
        T.ensure('status', o.ret == z3.If(inb(s, i), z3.If(dec, SUCCESS, PROHIBITED), OOB))
        T.ensure('approval asked for exactly the accessed cell', z3.If(inb(s, i), asked(T, T.ex.st, i), T.ex.st.roots[T.data['calls']] == 0))
        a0, a1 = v0.f['data_'].f['arr'], v1.f['data_'].f['arr']
        k = T.qv('k')
        packed = T.ex.ty.pack(('t', val.tid), val)
        T.ensure('stored at the addressed cell only', qall([k], z3.Select(a1, k) == z3.If(z3.And(inb(s, i), dec, k == offset(s, i)), packed, z3.Select(a0, k))))
        T.ensure('nothing else changed', z3.And(v1.f['data_'].f['len'] == v0.f['data_'].f['len'], same_but_data(T.ex, v1, v0)))

def query_ok(T, o, g, s, i, cond, a0):
    """GridQuery result: refers to the addressed cell when cond, empty otherwise"""
    p = o.ret.f['value_']
    return p

@task('C04', 'voxel', contracts=CON)
def GetIndex(T):
    for q in ('GetIndexImmutable', 'GetIndexMutable'):
        for f in T.fns(B + q):
            g, v0, s = grid(T); i = idx(T)
            offset_lemma(T, s, i)
            T.lemma('invalid grids have no cells', z3.Implies(inb(s, i), s.f['valid_']))
            o = T.call(f, g, mkargs(T, f, index_arg(T, f, i)))
            T.never_throws(o)
            mut = q == 'GetIndexMutable'
            dec = T.data['decision'] if mut else z3.BoolVal(True)
            r = o.ret
            T.ensure(q + ': status', r.f['status_'] == z3.If(inb(s, i), z3.If(dec, SUCCESS, PROHIBITED), OOB))
            T.ensure(q + ': approval asked for exactly the accessed cell', z3.If(z3.And(inb(s, i), z3.BoolVal(mut)), asked(T, T.ex.st, i), T.ex.st.roots[T.data['calls']] == 0))
            T.ensure(q + ': grid unchanged', same(T.ex, T.val(g), v0))
            vf = [x for x in T.fns('GridQuery::Value', pred=lambda x: True)] or None
            # a value is present exactly on success
            m = r.f['value_']
            hf = T.fns('HasValue', cls=T.ex.ty.name(m.tid))
            ml = T.lv(m.tid, m, 'maybe')
            h = T.call(hf[0], ml); T.never_throws(h)
            T.ensure(q + ': a value is present exactly on success', h.ret == z3.And(inb(s, i), dec))
            T.assume(z3.And(inb(s, i), dec))
            gv = T.fns('Value', cls=T.ex.ty.name(m.tid))
            x = T.call(gv[0], ml); T.never_throws(x)
            T.ensure(q + ': refers to the value of the addressed cell', same(T.ex, T.val(x.ret), T.ex.ty.unpack(T.type('tu::Val'), z3.Select(v0.f['data_'].f['arr'], offset(s, i)))) if not z3.is_expr(x.ret) else z3.BoolVal(False))
            if mut:
                nv = T.sym('tu::Val', 'nv')
                T.ex.store(x.ret, nv)
                k = T.qv('k'); a1 = T.val(g).f['data_'].f['arr']; a0 = v0.f['data_'].f['arr']
                T.ensure(q + ': writing through the result changes the addressed cell only', z3.And(qall([k], z3.Select(a1, k) == z3.If(k == offset(s, i), T.ex.ty.pack(('t', nv.tid), nv), z3.Select(a0, k))), same_but_data(T.ex, T.val(g), v0)))

@task('C04', 'voxel', contracts=CON)
def DataIndex(T):
    for q in ('GetDataIndexImmutable', 'GetDataIndexMutable', 'SetDataIndex'):
        for f in T.fns(B + q):
            g, v0, s = grid(T); d = T.sym('long', 'data_index')
            n = v0.f['data_'].f['len']
            mut = q != 'GetDataIndexImmutable'
            vals = [d]
            if q == 'SetDataIndex': val = T.sym('tu::Val', 'value'); vals.append(val)
            o = T.call(f, g, mkargs(T, f, vals))
            ok = z3.And(d >= 0, d < n, T.data['rawdecision'] if mut else z3.BoolVal(True))
            T.throws_iff(o, z3.Not(ok), q + ' rejected')
            T.at_throws(o, q + ': refusal leaves the grid unchanged', lambda st: same(T.ex, T.ex.load(g), v0))
            a0 = v0.f['data_'].f['arr']; v1 = T.val(g); k = T.qv('k')
            if q == 'SetDataIndex':
                T.ensure(q + ': stored at the addressed offset only', z3.And(qall([k], z3.Select(v1.f['data_'].f['arr'], k) == z3.If(k == d, T.ex.ty.pack(('t', val.tid), val), z3.Select(a0, k))), v1.f['data_'].f['len'] == n, same_but_data(T.ex, v1, v0)))
            else:
                T.ensure(q + ': refers to the addressed value', same(T.ex, T.val(o.ret), T.ex.ty.unpack(T.type('tu::Val'), z3.Select(a0, d))))
                T.ensure(q + ': grid unchanged', same(T.ex, v1, v0))

@task('C04', 'voxel', contracts=CON)
def Reset(T):
    for q, np in (('ResetWithDefault', 0), ('ResetWithNewValue', 1), ('ResetWithNewDefault', 1)):
        f = T.fn(B + q); g, v0, s = grid(T); nx, ny, nz = counts(s)
        T.lemma('partial product bounded', z3.Implies(s.f['valid_'], z3.And(nx * ny >= 0, nx * ny <= nx * ny * nz)))
        T.lemma('total regrouped', nx * ny * nz == nx * (ny * nz))
        val = T.sym('tu::Val', 'value') if np else v0.f['default_value_']
        o = T.call(f, g, mkargs(T, f, [val][:np]))
        T.throws_only_if(o, nx * ny * nz > 2 ** 60, 'only an allocation failure is reported')
        v1 = T.val(g); k = T.qv('k'); arr = v1.f['data_'].f['arr']
        T.ensure(q + ': every cell holds the value', z3.And(v1.f['data_'].f['len'] == nx * (ny * nz), qall([k], z3.Implies(z3.And(k >= 0, k < nx * (ny * nz)), z3.Select(arr, k) == T.ex.ty.pack(('t', val.tid), val)))))
        T.ensure(q + ': nothing else changed', mkAnd(*[same(T.ex, v1.f[n], v0.f[n]) for n in v1.f if n not in ('data_', 'default_value_' if q == 'ResetWithNewDefault' else '')]))

@task('C04', 'voxel', contracts=CON)
def RawData(T):
    f = T.fn(B + 'SetRawData'); g, v0, s = grid(T); nx, ny, nz = counts(s)
    T.lemma('partial product bounded', z3.Implies(s.f['valid_'], z3.And(nx * ny >= 0, nx * ny <= nx * ny * nz)))
    T.lemma('total regrouped', nx * ny * nz == nx * (ny * nz))
    data = T.obj(T.ex.ty.strip_ref(f['ps'][0]['t']), 'data'); dv = T.val(data)
    o = T.call(f, g, [data])
    T.throws_iff(o, z3.Not(z3.And(T.data['rawdecision'], dv.f['len'] == nx * (ny * nz))), 'rejected when prohibited or of the wrong size')
    T.at_throws(o, 'refusal leaves the grid unchanged', lambda st: same(T.ex, T.ex.load(g), v0))
    T.ensure('stores exactly the given data', z3.And(same(T.ex, T.val(g).f['data_'], dv), same_but_data(T.ex, T.val(g), v0)))
