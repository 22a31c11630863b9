from vc.task import *
from common import *
M = {'fp': 'fp', 'fparith': 'uf'}
D = z3.Float64()
def posfin(x): return z3.And(z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsInf(x)), z3.fpGT(x, z3.FPVal(0, D)))
def consistent(T, o, st=None):
    s = o
    nx, ny, nz = counts(s)
    T.ensure('cell sizes positive and finite', mkAnd(*[posfin(s.f['cell_%s_size_' % a]) for a in 'xyz']))
    T.ensure('counts positive', z3.And(nx >= 1, ny >= 1, nz >= 1))
    T.ensure('product of the counts representable', nx * (ny * nz) <= MAXI)
    T.ensure('strides are the row sizes', z3.And(s.f['stride1_'] == ny * nz, s.f['stride2_'] == nz))
    T.ensure('marked valid', s.f['valid_'])
def lemmas(T, nx, ny, nz):
    pos = z3.And(nx >= 1, ny >= 1, nz >= 1)
    M_ = z3.IntVal(MAXI)
    T.lemma('ny <= M/nz iff ny*nz <= M', z3.Implies(pos, (ny <= M_ / nz) == (ny * nz <= M_)))
    T.lemma('nx <= M/(ny*nz) iff nx*(ny*nz) <= M', z3.Implies(z3.And(pos, ny * nz >= 1), (nx <= M_ / (ny * nz)) == (nx * (ny * nz) <= M_)))
    T.lemma('ny*nz positive', z3.Implies(pos, ny * nz >= 1))
    T.lemma('nx at most nx*(ny*nz)', z3.Implies(pos, nx * (ny * nz) >= ny * nz))

def ctor(T, np, kind):
    for f in T.fns('GridSizes::GridSizes', nparams=np, pred=lambda f: T.ex.ty.kind(f['ps'][-1]['t']) == kind):
        vals = [T.sym(p['t'], p['n']) for p in f['ps']]
        g = T.lv(f['cls'], T.ex.fresh(f['cls'], 'uninit'), 'new')
        cells = [vals[0]] * 3 if np == 4 else vals[:3]
        if kind == 'int':
            nx, ny, nz = vals[-3:]
            lemmas(T, nx, ny, nz)
            ok = z3.And(*[posfin(c) for c in cells], nx >= 1, ny >= 1, nz >= 1, nx * (ny * nz) <= MAXI)
        else:
            q = []
            for s, c in zip(vals[-3:], cells):
                r = T.ex.uf('ceil_fp', D, D)(T.ex.uf('fdiv', D, D, D)(s, c)); q.append(r)
            n = [T.ex.uf('f2i64', D, z3.IntSort())(r) for r in q]
            lemmas(T, *n)
            fits = [z3.And(z3.fpGEQ(r, z3.FPVal(1, D)), z3.fpLT(r, z3.FPVal(2 ** 63, D))) for r in q]
            ok = z3.And(*[posfin(c) for c in cells], *[posfin(v) for v in vals[-3:]], *fits, n[0] * (n[1] * n[2]) <= MAXI)
        T.cover('accepted input exists', ok)
        o = T.call(f, g, vals)
        T.throws_iff(o, z3.Not(ok), 'rejected exactly for invalid parameters')
        s = T.val(g)
        consistent(T, s)
        for a, c in zip('xyz', cells): T.ensure('cell size kept', s.f['cell_%s_size_' % a] == c)
        if kind == 'int':
            for a, c in zip('xyz', vals[-3:]): T.ensure('count kept', s.f['num_%s_cells_' % a] == c)
        else:
            for a, c in zip('xyz', n): T.ensure('count is ceil(size / cell size)', s.f['num_%s_cells_' % a] == c)

@task('C05', 'voxel', mode=M)
def CtorCounts(T): ctor(T, 6, 'int')
@task('C05', 'voxel', mode=M)
def CtorSizes(T): ctor(T, 6, 'fp')
@task('C05', 'voxel', mode=M)
def CtorUniformCounts(T): ctor(T, 4, 'int')
@task('C05', 'voxel', mode=M)
def CtorUniformSizes(T): ctor(T, 4, 'fp')
@task('C05', 'voxel', mode=M)
def CtorDefault(T):
    f = T.fn('GridSizes::GridSizes', nparams=0)
    g = T.lv(f['cls'], T.ex.fresh(f['cls'], 'uninit'), 'new')
    o = T.call(f, g, []); T.never_throws(o)
    s = T.val(g); nx, ny, nz = counts(s)
    T.ensure('default sizes are empty and invalid', z3.And(nx == 0, ny == 0, nz == 0, s.f['stride1_'] == 0, s.f['stride2_'] == 0, z3.Not(s.f['valid_'])))

def des_con(ex, c):
    """DeserializeMemcpyable<T> (contract proved under C06/C07): either throws or yields some value of T"""
    t = c.rettid
    fs = {n: d for n, d in ex.ty.fields(t)}
    b = z3.Const(ex.fresh_id('short_buffer'), z3.BoolSort())
    ex.throw_if(b, 'std::invalid_argument', c.e)
    v = ex.fresh(t, 'deserialized')
    ex.task.data.setdefault('read', []).append(v)
    return v
@task('C05', 'voxel', mode=M, contracts={NSP + 'serialization::DeserializeMemcpyable': des_con})
def Restored(T):
    """whatever the bytes: consistent or marked invalid and zeroed"""
    f = T.fn('GridSizes::DeserializeSelf')
    g = T.obj(f['cls'], 'sizes'); b = T.obj(T.ex.ty.strip_ref(f['ps'][0]['t']), 'buffer'); off = T.sym('unsigned long', 'offset')
    o = T.call(f, g, [b, off])
    s = T.val(g); nx, ny, nz = counts(s)
    lemmas(T, nx, ny, nz)
    good = z3.And(*[posfin(s.f['cell_%s_size_' % a]) for a in 'xyz'], nx >= 1, ny >= 1, nz >= 1, s.f['stride1_'] == ny * nz, s.f['stride2_'] == nz, nx * (ny * nz) <= MAXI)
    zero = z3.And(nx == 0, ny == 0, nz == 0, s.f['stride1_'] == 0, s.f['stride2_'] == 0)
    T.ensure('consistent or marked invalid', z3.If(s.f['valid_'], good, zero))
