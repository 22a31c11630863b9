from vc.task import *
from common import *

def grid(T):
    f = T.fn('GridSizes::TotalCells')
    g = T.obj(f['cls'], 'sizes'); s = T.val(g)
    T.assume(grid_inv(s))
    return g, s
def idx(T, n='i'):
    i = [T.sym('long', n + a) for a in 'xyz']
    return i

@task('C03', 'voxel')
def TotalCells(T):
    g, s = grid(T); nx, ny, nz = counts(s)
    f = T.fn('GridSizes::TotalCells')
    T.cover('pre', nx > 3)
    T.lemma('partial product bounded', z3.Implies(s.f['valid_'], z3.And(nx * ny >= 0, nx * ny <= nx * ny * nz)))
    o = T.call(f, g)
    T.never_throws(o); T.ensure('product of the counts', o.ret == nx * ny * nz)

@task('C03', 'voxel')
def IndexInBounds(T):
    ex = T.ex
    for f in T.fns('GridSizes::IndexInBounds'):
        g, s = grid(T); i = idx(T)
        T.cover('pre', s.f['valid_'])
        o = T.call(f, g, mkargs(T, f, index_arg(T, f, i)))
        T.never_throws(o); T.ensure('in bounds exactly when every component lies in [0, count)', o.ret == inb(s, i))

@task('C03', 'voxel')
def GetDataIndex(T):
    for f in T.fns('GridSizes::GetDataIndex'):
        g, s = grid(T); i = idx(T)
        T.assume(z3.And(s.f['valid_'], inb(s, i)))
        T.cover('pre', i[0] > 2)
        offset_lemma(T, s, i)
        o = T.call(f, g, mkargs(T, f, index_arg(T, f, i)))
        T.never_throws(o)
        T.ensure('row-major offset', o.ret == offset(s, i))
        T.ensure('offset within [0, total)', z3.And(o.ret >= 0, o.ret < counts(s)[0] * (counts(s)[1] * counts(s)[2])))

@task('C03', 'voxel')
def RoundTripCell(T):
    """cell -> offset -> cell is the identity; hence distinct cells get distinct offsets"""
    for f in T.fns('GridSizes::GetDataIndex'):
        g, s = grid(T); i = idx(T); nx, ny, nz = counts(s)
        T.assume(z3.And(s.f['valid_'], inb(s, i)))
        offset_lemma(T, s, i)
        T.lemma('inner part below one row', z3.And(i[1] * nz + i[2] >= 0, i[1] * nz + i[2] < ny * nz))
        o = T.call(f, g, mkargs(T, f, index_arg(T, f, i)))
        d = o.ret
        S1 = T.qv('S1'); R = T.qv('R')
        T.lemma('quotient by the row size', z3.And(d / (ny * nz) == i[0], d % (ny * nz) == i[1] * nz + i[2]))
        T.lemma('quotient inside the row', z3.And((i[1] * nz + i[2]) / nz == i[1], (i[1] * nz + i[2]) % nz == i[2]))
        h = T.fn('GridSizes::GetGridIndexFromDataIndex')
        r = T.call(h, g, [d])
        T.never_throws(r)
        T.ensure('cell -> offset -> cell is the identity', z3.And(r.ret.f['x_'] == i[0], r.ret.f['y_'] == i[1], r.ret.f['z_'] == i[2]))

@task('C03', 'voxel')
def RoundTripOffset(T):
    """offset -> in-bounds cell -> the same offset"""
    for f in T.fns('GridSizes::GetDataIndex'):
        g, s = grid(T); nx, ny, nz = counts(s); d = T.sym('long', 'data_index')
        T.assume(z3.And(s.f['valid_'], d >= 0, d < nx * (ny * nz)))
        T.cover('pre', d > 10)
        q, r = d / (ny * nz), d % (ny * nz)
        T.lemma('division', z3.And(d == q * (ny * nz) + r, r >= 0, r < ny * nz, q >= 0))
        T.lemma('x in range', q < nx)
        T.lemma('division inside the row', z3.And(r == (r / nz) * nz + r % nz, r % nz >= 0, r % nz < nz, r / nz >= 0))
        T.lemma('y in range', r / nz < ny)
        h = T.fn('GridSizes::GetGridIndexFromDataIndex')
        o = T.call(h, g, [d])
        T.never_throws(o)
        i = [o.ret.f[a + '_'] for a in 'xyz']
        T.ensure('offset converts to an in-bounds cell', inb(s, i))
        T.lemma('components', z3.And(i[0] == q, i[1] == r / nz, i[2] == r % nz))
        offset_lemma(T, s, [q, r / nz, r % nz])
        o2 = T.call(f, g, mkargs(T, f, index_arg(T, f, i)))
        T.never_throws(o2); T.ensure('offset -> cell -> offset is the identity', o2.ret == d)

@task('C03', 'voxel')
def GridForwards(T):
    """VoxelGridBase forwards the conversions to its own size description"""
    for q in ('GridIndexToDataIndex', 'HashDataIndex'):
        for f in T.fns('VoxelGridBase<tu::Val, std::vector<tu::Val, std::allocator<tu::Val>>>::' + q):
            g = T.obj(f['cls'], 'grid'); s = T.val(g).f['sizes_']; i = idx(T)
            T.assume(grid_inv(s)); T.assume(z3.And(s.f['valid_'], inb(s, i)))
            offset_lemma(T, s, i)
            o = T.call(f, g, mkargs(T, f, index_arg(T, f, i)))
            T.never_throws(o); T.ensure('row-major offset', o.ret == offset(s, i))
    f = T.fn('VoxelGridBase<tu::Val, std::vector<tu::Val, std::allocator<tu::Val>>>::DataIndexToGridIndex')
    g = T.obj(f['cls'], 'grid'); s = T.val(g).f['sizes_']; T.assume(grid_inv(s)); nx, ny, nz = counts(s)
    d = T.sym('long', 'data_index'); T.assume(z3.And(s.f['valid_'], d >= 0, d < nx * (ny * nz)))
    o = T.call(f, g, [d]); T.never_throws(o)
    T.ensure('quotients', z3.And(o.ret.f['x_'] == d / (ny * nz), o.ret.f['y_'] == (d % (ny * nz)) / nz, o.ret.f['z_'] == (d % (ny * nz)) % nz))
    for f in T.fns('VoxelGridBase<tu::Val, std::vector<tu::Val, std::allocator<tu::Val>>>::IndexInBounds'):
        g = T.obj(f['cls'], 'grid'); s = T.val(g).f['sizes_']; i = idx(T)
        o = T.call(f, g, mkargs(T, f, index_arg(T, f, i)))
        T.never_throws(o); T.ensure('in bounds exactly when every component lies in [0, count)', o.ret == inb(s, i))
