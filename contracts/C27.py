from vc.task import *
from common import *
VG = NSP + 'voxel_grid::'; CT = 'tu::Val, std::vector<tu::Val, std::allocator<tu::Val>>>'; CK = 'DynamicSpatialHashedVoxelGridChunk<' + CT + '::'; BS = 'DynamicSpatialHashedVoxelGridBase<' + CT + '::'; QR = VG + 'ChunkRegion'
# chunk regions and transforms are opaque: a region is the three coordinates of its base (proved of the class below), a transform a function of locations
M = {'opaque': ['tu::Val', QR, 'Eigen::Transform'], 'fparith': 'exact'}
R_, B_ = z3.RealSort(), z3.BoolSort()
NOT_FILLED, CHUNK, CELL = 0, 1, 2
NOT_FOUND, IN_CHUNK, IN_CELL, PROHIBITED = 0, 1, 2, 3
SET_CHUNK, SET_CELL = 0, 1          # DSHVGSetType; DSHVGFillType in the same order
class S(object):
    def __init__(self, ex):
        self.R = z3.DeclareSort('S_' + QR); self.reg = z3.Function('region_at', R_, R_, R_, self.R); self.base = [z3.Function('base_' + a, self.R, R_) for a in 'xyz']; xs = z3.Reals('bx by bz')
        ex.fact(qall(xs, mkAnd(*[b(self.reg(*xs)) == x for b, x in zip(self.base, xs)]), patterns=[self.reg(*xs)]))
def get(ex): return ex.task.data.setdefault('S', None) or ex.task.data.update(S=S(ex)) or ex.task.data['S']
def vec(ex, t, xs):
    """column vector of the given components"""
    arr = ex.fresh(t, 'vec'); col = lambda i: sel(sel(arr.f['arr'], i), 0)
    return arr, [col(i) for i in range(len(xs))]
def comps(v): return [sel(sel(v.f['arr'], z3.IntVal(i)), z3.IntVal(0)) for i in range(4)]
def vec4(ex, tid, xs):
    v = ex.fresh(tid, 'vector'); ex.fact(mkAnd(*[a == b for a, b in zip(comps(v), xs)])); return v
def region_ctor(ex, c):
    s = get(ex); vs = [ex.asval(a) for a in c.args]
    if len(vs) == 3: return s.reg(*vs)
    if len(vs) == 1 and isinstance(vs[0], Struct): return s.reg(*comps(vs[0])[:3])
    if len(vs) == 1: return vs[0]
    return s.reg(*[z3.RealVal(0)] * 3)
def region_base(ex, c):
    s = get(ex); r = ex.asval(c.this); t = ex.ty.strip_ref(c.rettid); return ex.new_root(t, vec4(ex, t, [b(r) for b in s.base] + [z3.RealVal(1)]), 'base')
def apply_tf(ex, e, this, a):
    vs = [ex.rv(x) if isinstance(x, dict) else ex.asval(x) for x in a]; t = (ex.asval(this) if this is not None else vs.pop(0)); v = vs[0]; d = ex.task.data; mt = v.tid
    return vec4(ex, mt, tf(ex, t, comps(v)))
def tf(ex, t, p): return [ex.uf('transformed_' + a, t.sort(), *([R_] * 5))(t, *p) for a in 'xyzw']
def inverse(ex, e, this, a): t = ex.asval(this); return ex.uf('inverse_of', t.sort(), t.sort())(t)
def identity(ex, e, this, a): return z3.Const('identity_transform', ex.ty.sort(ex.ty.strip_ref(e['t'])) if ex.ty.kind(ex.ty.strip_ref(e['t'])) == 'opaque' else z3.DeclareSort('S_Eigen::Transform<double, 3, 1, 0>'))
def assign(ex, e, this, a): v = ex.rv(a[0]) if isinstance(a[0], dict) else ex.asval(a[0]); ex.store(this, v); return this
def approve(ex, c):
    """the environment's decision: a function of the location it is asked about"""
    d = ex.task.data; v = ex.asval(c.args[0])
    if 'G' in d: ex.oblige('post', mkAnd(*[x == y for x, y in zip(comps(v), d['G'])]), c.e, 'approval is asked for the accessed location, in the frame of the grid')
    ex.st.roots[d['calls']] = ex.st.roots[d['calls']] + 1; ex.log_write(d['calls'], ()); return d['decision']
CON = {QR + '::ChunkRegion': region_ctor, QR + '::Base': region_base, 'tu::approve_location': approve}
LIB = dict([(k % t, h) for t in ('', '<double, 3, 1, 0>') for k, h in (('Eigen::Transform%s::operator*', apply_tf), ('Eigen::Transform%s::inverse', inverse), ('Eigen::Transform%s::Identity', identity), ('Eigen::Transform%s::operator=', assign))])
def same(ex, a, b):
    if a is b: return z3.BoolVal(True)
    if isinstance(a, Struct): return mkAnd(*[same(ex, a.f[k], b.f[k]) for k in a.f])
    if z3.is_expr(a): return a == b
    return z3.BoolVal(a is b)
def sizes_ok(s): return z3.And(grid_inv(s), s.f['valid_'], *[z3.And(s.f['cell_%s_size_' % a] > 0, s.f['%s_size_' % a] == z3.ToReal(n) * s.f['cell_%s_size_' % a]) for a, n in zip('xyz', counts(s))])
def size_of(s, a): return s.f['%s_size_' % a]
def cell_of(s, a): return s.f['cell_%s_size_' % a]
def total(s): nx, ny, nz = counts(s); return nx * (ny * nz)
def axis_lemmas(T, s, off):
    """a coordinate in [0, n c) is in cell floor(off / c), which is in [0, n)"""
    out = []
    for a, n, o in zip('xyz', counts(s), off):
        c = cell_of(s, a); k = z3.ToInt(o / c); inr = z3.And(o >= 0, o < size_of(s, a))
        nn = z3.ToReal(n); T.lemma('size positive (%s)' % a, nn * c > 0)
        T.lemma('ratio not negative (%s)' % a, z3.Implies(inr, o / c >= 0)); T.lemma('ratio below the count (%s)' % a, z3.Implies(inr, o / c < nn)); T.lemma('cell in range (%s)' % a, z3.Implies(inr, z3.And(k >= 0, k < n))); out.append(k)
    nx, ny, nz = counts(s)
    T.lemma('total regrouped', nx * ny * nz == nx * (ny * nz)); T.lemma('total positive', z3.And(ny * nz >= 1, nx * (ny * nz) >= 1)); T.lemma('partial product bounded', z3.And(nx * ny >= 0, nx * ny <= nx * ny * nz))
    return out
def chunk_ok(ck, sizes, region, ex):
    f = ck.f; d = f['data_'] if isinstance(f['data_'], Struct) else ex.ty.unpack(ex.ty.fieldtid(ck.tid, 'data_'), f['data_']); sz = f['sizes_'] if isinstance(f['sizes_'], Struct) else ex.ty.unpack(ex.ty.fieldtid(ck.tid, 'sizes_'), f['sizes_'])
    return z3.And(f['region_'] == region, same(ex, sz, sizes), z3.Or(z3.And(f['fill_status_'] == CELL, d.f['len'] == total(sizes)), z3.And(f['fill_status_'] == CHUNK, d.f['len'] == 1)))
def data(ex, ck): return ck.f['data_'] if isinstance(ck.f['data_'], Struct) else ex.ty.unpack(ex.ty.fieldtid(ck.tid, 'data_'), ck.f['data_'])
class Ck(object):
    """a chunk and a location in it"""
    def __init__(self, T, filled=True):
        ex = T.ex; self.s = get(ex); d = T.data; self.g = T.obj(T.fns(CK + 'FillStatus')[0]['cls'], 'chunk'); self.v = T.val(self.g); self.sz = self.v.f['sizes_']; T.assume(sizes_ok(self.sz), 'class invariant of GridSizes: the size along an axis is the number of cells times the cell size (proved of its constructors below)'); T.assume(total(self.sz) <= 2 ** 56, 'the cells of a chunk fit in memory')
        self.r = self.v.f['region_']; st = self.v.f['fill_status_']; T.assume(z3.And(st >= 0, st <= 2)); D = data(ex, self.v); T.assume(z3.Implies(st == CELL, D.f['len'] == total(self.sz)), 'class invariant of the chunk'); T.assume(z3.Implies(st == CHUNK, D.f['len'] == 1)); self.D, self.st = D, st
    def loc(self, T, tid):
        ex = T.ex; self.p = T.obj(ex.ty.strip_ref(tid), 'location'); x = comps(T.val(self.p)); self.off = [x[i] - self.s.base[i](self.r) for i in range(3)]; T.assume(mkAnd(*[z3.And(o >= 0, o < size_of(self.sz, a)) for a, o in zip('xyz', self.off)]), 'the location is in the chunk (the grid chooses the chunk containing it, below)'); self.k = axis_lemmas(T, self.sz, self.off); offset_lemma(T, self.sz, self.k); self.at = offset(self.sz, self.k); return self.p
    def frame(self, T, w): return z3.And(w.f['region_'] == self.r, same(T.ex, w.f['sizes_'], self.sz))
def answer(T, o, st, what, D, at):
    """a query result: status and, exactly when there is one, the value referred to"""
    ex = T.ex; T.never_throws(o); r = o.ret; m = r.f['value_']; T.ensure(what + ': status', r.f['found_status_'] == st); h = [f for f in T.fns('HasValue', cls=ex.ty.name(m.tid))][0]; ml = T.lv(m.tid, m, 'maybe'); x = T.call(h, ml); found = z3.Or(st == IN_CHUNK, st == IN_CELL); T.ensure(what + ': a value exactly when found', x.ret == found); return ml, m, found
@task('C27', 'dshvg', mode=M, contracts=CON, libover=LIB)
def ChunkRead(T):
    """a location in a filled chunk is answered from its cell or from the chunk"""
    ex = T.ex; c = Ck(T); T.assume(c.st != NOT_FILLED, 'chunks of a grid are filled (below)')
    for q in ('GetLocationImmutable4d', 'GetLocationMutable4d'):
        f = T.fns(CK + q)[0]; p = c.loc(T, f['ps'][0]['t']); o = T.call(f, c.g, [p]); ml, m, found = answer(T, o, z3.If(c.st == CELL, z3.IntVal(IN_CELL), z3.IntVal(IN_CHUNK)), q, c.D, c.at); T.ensure(q + ': chunk unchanged', same(ex, T.val(c.g), c.v)); v = T.call(T.fns('Value', cls=ex.ty.name(m.tid))[0], ml); T.never_throws(v); T.ensure(q + ': value of the cell or the chunk', T.val(v.ret) == sel(c.D.f['arr'], z3.If(c.st == CELL, c.at, 0)))
        if 'Mutable' in q and 'Im' not in q:
            nv = T.sym('tu::Val', 'new'); ex.store(v.ret, nv); w = T.val(c.g); k = T.qv('k'); T.ensure(q + ': writing through the answer changes that value only', z3.And(c.frame(T, w), w.f['fill_status_'] == c.st, data(ex, w).f['len'] == c.D.f['len'], qall([k], sel(data(ex, w).f['arr'], k) == z3.If(k == z3.If(c.st == CELL, c.at, 0), nv, sel(c.D.f['arr'], k)))))
def with_cell(k, at, v, old): return z3.If(k == at, v, old)
@task('C27', 'dshvg', mode=M, contracts=CON, libover=LIB)
def ChunkSetCell(T):
    """setting a cell of a filled chunk changes that cell only; a chunk holding one value keeps it in every other cell"""
    ex = T.ex
    for f in T.fns(CK + 'SetCellLocation4d'):
        c = Ck(T); T.assume(c.st != NOT_FILLED); p = c.loc(T, f['ps'][0]['t']); nv = T.obj(ex.ty.strip_ref(f['ps'][1]['t']), 'value'); v = T.val(nv); o = T.call(f, c.g, [p, nv]); T.never_throws(o); w = T.val(c.g); k = T.qv('k'); d = data(ex, w)
        T.ensure('reports a cell set', o.ret == SET_CELL_STATUS); T.ensure('every cell has a value of its own', z3.And(w.f['fill_status_'] == CELL, d.f['len'] == total(c.sz))); T.ensure('the cell of the location has the value, every other what it had', z3.Implies(z3.And(k >= 0, k < total(c.sz)), sel(d.f['arr'], k) == with_cell(k, c.at, v, sel(c.D.f['arr'], z3.If(c.st == CELL, k, 0))))); T.ensure('region and sizes unchanged', c.frame(T, w))
SET_CHUNK_STATUS, SET_CELL_STATUS = 1, 2      # DSHVGSetStatus
@task('C27', 'dshvg', mode=M, contracts=CON, libover=LIB)
def ChunkSetChunk(T):
    ex = T.ex
    for f in T.fns(CK + 'SetChunkValue'):
        c = Ck(T); nv = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'value'); v = T.val(nv); o = T.call(f, c.g, [nv]); T.throws_iff(o, c.st == NOT_FILLED, 'only filled chunks are set'); w = T.val(c.g); d = data(ex, w); T.ensure('reports a chunk set', o.ret == SET_CHUNK_STATUS); T.ensure('the chunk holds the value', z3.And(w.f['fill_status_'] == CHUNK, d.f['len'] == 1, sel(d.f['arr'], 0) == v)); T.ensure('region and sizes unchanged', c.frame(T, w))
@task('C27', 'dshvg', mode=M, contracts=CON, libover=LIB)
def ChunkNew(T):
    """a new chunk has the region and sizes given and the initial value everywhere"""
    ex = T.ex; f = [x for x in T.fns(CK + 'DynamicSpatialHashedVoxelGridChunk') if len(x['ps']) == 4][0]; s = get(ex); r = T.lv(ex.ty.strip_ref(f['ps'][0]['t']), z3.Const('region', s.R), 'region'); sz = T.obj(ex.ty.strip_ref(f['ps'][1]['t']), 'sizes'); S_ = T.val(sz); T.assume(grid_inv(S_)); T.assume(total(S_) <= 2 ** 56, 'the cells of a chunk fit in memory'); nx, ny, nz = counts(S_); T.lemma('total regrouped', nx * ny * nz == nx * (ny * nz)); T.lemma('partial product bounded', z3.Implies(S_.f['valid_'], z3.And(nx * ny >= 0, nx * ny <= nx * ny * nz)))
    ft = T.sym('int', 'fill_type'); T.assume(z3.And(ft >= 0, ft <= 1)); v = T.obj(ex.ty.strip_ref(f['ps'][3]['t']), 'value'); g = T.lv(f['cls'], ex.uninit(f['cls']), 'chunk'); o = T.call(f, g, [r, sz, ft, v]); T.throws_iff(o, z3.Not(S_.f['valid_']), 'invalid sizes rejected'); w = T.val(g); d = data(ex, w); k = T.qv('k'); T.ensure('region and sizes as given', z3.And(w.f['region_'] == T.val(r), same(ex, w.f['sizes_'], S_))); T.ensure('filled as asked', z3.And(w.f['fill_status_'] == z3.If(ft == 1, CELL, CHUNK), d.f['len'] == z3.If(ft == 1, total(S_), 1))); T.ensure('holds the initial value everywhere', z3.Implies(z3.And(k >= 0, k < d.f['len']), sel(d.f['arr'], k) == T.val(v)))
@task('C27', 'dshvg', mode=M, contracts=CON, libover=LIB)
def ChunkIndex(T):
    """lookup by the index of a cell in the chunk"""
    ex = T.ex; c = Ck(T); f = T.fns(CK + 'GetIndexImmutable')[0]; i = [T.sym('long', 'i' + a) for a in 'xyz']; offset_lemma(T, c.sz, i); o = T.call(f, c.g, mkargs(T, f, index_arg(T, f, i))); T.throws_iff(o, z3.Not(z3.Or(z3.And(c.st == CELL, inb(c.sz, i)), z3.And(c.st == CHUNK, *[x == 0 for x in i]))), 'rejected exactly when there is no such cell')
    m = o.ret.f['value_']; ml = T.lv(m.tid, m, 'maybe'); T.ensure('status', o.ret.f['found_status_'] == z3.If(c.st == CELL, IN_CELL, IN_CHUNK)); v = T.call(T.fns('Value', cls=ex.ty.name(m.tid))[0], ml); T.never_throws(v); T.ensure('value of the cell or of the chunk', T.val(v.ret) == sel(c.D.f['arr'], z3.If(c.st == CELL, offset(c.sz, i), 0)))
    o = T.call(T.fns(CK + 'FillStatus')[0], c.g, []); T.ensure('fill status', o.ret == c.st)
@task('C27', 'dshvg', mode=M, contracts=CON, libover=LIB)
def ChunkGeometry(T):
    """centre of a cell and of the chunk, in the frame of the grid: each lies in the chunk and in the cell"""
    ex = T.ex; c = Ck(T); f = T.fns(CK + 'GetCellLocationInGridFrame')[0]; i = [T.sym('long', 'i' + a) for a in 'xyz']; o = T.call(f, c.g, mkargs(T, f, index_arg(T, f, i))); T.never_throws(o); x = comps(ex.asval(o.ret)); h = z3.Q(1, 2)
    for a, j, y, b in zip('xyz', i, x, c.s.base): T.ensure('centre of the cell (%s)' % a, y == b(c.r) + cell_of(c.sz, a) * (z3.ToReal(j) + h))
    T.ensure('a location', x[3] == 1); o = T.call(T.fns(CK + 'GetChunkCenterInGridFrame')[0], c.g, []); T.never_throws(o); x = comps(ex.asval(o.ret))
    for a, y, b in zip('xyz', x, c.s.base): T.ensure('centre of the chunk (%s)' % a, y == b(c.r) + size_of(c.sz, a) / 2)
    T.ensure('a location (chunk)', x[3] == 1)
# ---- contracts of the chunk (proved above), as the grid uses them: the index of the cell is kept abstract
cellof = z3.Function('cell_offset', *([R_] * 9), z3.IntSort())
def cell_index(sz, off): return cellof(*[size_of(sz, a) for a in 'xyz'], *[cell_of(sz, a) for a in 'xyz'], *off)
def chunk_pre(ex, c):
    """location in the chunk, chunk filled with the sizes and region it is stored under"""
    s = get(ex); ck = ex.load(c.this); x = comps(ex.asval(c.args[0])); sz = ck.f['sizes_'] if isinstance(ck.f['sizes_'], Struct) else ex.ty.unpack(ex.ty.fieldtid(ck.tid, 'sizes_'), ck.f['sizes_']); off = [x[i] - s.base[i](ck.f['region_']) for i in range(3)]; D = data(ex, ck); st = ck.f['fill_status_']
    ex.oblige('callee-pre', z3.And(sizes_ok(sz), z3.Or(z3.And(st == CELL, D.f['len'] == total(sz)), z3.And(st == CHUNK, D.f['len'] == 1))), c.e, 'the chunk is filled and consistent')
    for a, o in zip('xyz', off): ex.oblige('callee-pre', z3.And(o >= 0, o < size_of(sz, a)), c.e, 'the location is in the chunk (%s)' % a)
    at = cell_index(sz, off); ex.assume(z3.And(at >= 0, at < total(sz))); return ck, sz, D, st, at
def read_con(const):
    def con(ex, c):
        ck, sz, D, st, at = chunk_pre(ex, c); dt = ex.ty.fieldtid(ck.tid, 'data_'); el = c.this.fld('data_', dt).idx(z3.If(st == CELL, at, z3.IntVal(0)), ex.ty.elem(dt)); f = [g for g in ex.F.values() if g['q'].endswith('DynamicSpatialHashedGridQuery<%stu::Val>::FoundInCell' % const) and 'body' in g][0]; r = ex.asval(ex.call(f, None, [el], c.e)); return Struct(r.tid, dict(r.f, found_status_=z3.If(st == CELL, z3.IntVal(IN_CELL), z3.IntVal(IN_CHUNK))))
    return con
def setcell_con(ex, c):
    ck, sz, D, st, at = chunk_pre(ex, c); v = ex.asval(c.args[1]); a = z3.Const(ex.fresh_id('cells'), D.f['arr'].sort()); k = z3.Const(ex.fresh_id('k'), z3.IntSort()); ex.fact(qall([k], z3.Implies(z3.And(k >= 0, k < total(sz)), sel(a, k) == with_cell(k, at, v, sel(D.f['arr'], z3.If(st == CELL, k, 0)))), patterns=[sel(a, k)]))
    ex.store(c.this, Struct(ck.tid, dict(ck.f, data_=Struct(D.tid, dict(D.f, arr=a, len=total(sz))), fill_status_=z3.IntVal(CELL)))); return z3.IntVal(SET_CELL_STATUS)
def new_chunk_con(ex, c):
    if len(c.args) != 4: raise Unsupported('constructor of a chunk')
    r, sz, ft, v = [ex.asval(a) for a in c.args]; ex.throw_if(z3.Not(sz.f['valid_']), 'std::invalid_argument', c.e); ex.oblige('callee-pre', z3.And(ft >= 0, ft <= 1), c.e, 'kind of fill'); ex.oblige('callee-pre', grid_inv(sz), c.e, 'sizes consistent'); t = c.e['t']; D = ex.fresh(ex.ty.fieldtid(t, 'data_'), 'cells'); n = z3.If(ft == 1, total(sz), z3.IntVal(1)); k = z3.Const(ex.fresh_id('k'), z3.IntSort()); ex.fact(qall([k], z3.Implies(z3.And(k >= 0, k < n), sel(D.f['arr'], k) == v), patterns=[sel(D.f['arr'], k)]))
    return Struct(t, {'region_': r, 'sizes_': sz, 'data_': Struct(D.tid, dict(D.f, len=n)), 'fill_status_': z3.If(ft == 1, z3.IntVal(CELL), z3.IntVal(CHUNK))})
CONG = dict(CON, **{VG + CK + 'GetLocationImmutable4d': read_con('const '), VG + CK + 'GetLocationMutable4d': read_con(''), VG + CK + 'SetCellLocation4d': setcell_con, VG + CK + 'DynamicSpatialHashedVoxelGridChunk': new_chunk_con})
# ---- the grid
class Gr(object):
    def __init__(self, T, derived=True):
        ex = T.ex; self.s = get(ex); d = T.data; self.g = T.obj(T.fns('Guarded::OnMutableAccess')[0]['cls'], 'grid'); self.v = v = T.val(self.g); self.sz = v.f['chunk_sizes_']; T.assume(z3.And(sizes_ok(self.sz), v.f['initialized_']), 'the grid is initialised: valid chunk sizes (its constructors reject others, below)'); T.assume(total(self.sz) <= 2 ** 56, 'the cells of a chunk fit in memory'); d['calls'] = ex.new_root(T.type('long'), z3.IntVal(0), 'ghost_calls').root; d['decision'] = z3.Const(ex.fresh_id('approved'), B_); d.pop('G', None); self.ch = v.f['chunks_']; self.kt, self.vt = [a['t'] for a in ex.ty.T[self.ch.tid]['a'][:2]]; T.assume(self.ch.f['size'] <= 2 ** 56)
    def locate(self, T, p):
        """location p (four components): its chunk region, offset in the chunk and cell"""
        ex = T.ex; d = T.data; G = tf(ex, self.v.f['inverse_origin_transform_'], p); d['G'] = G; self.off, bs = [], []
        for a, x in zip('xyz', G[:3]):
            sz = size_of(self.sz, a); q = z3.ToInt(x / sz); nn = z3.ToReal(counts(self.sz)['xyz'.index(a)]); T.lemma('size positive (%s)' % a, sz > 0); fl = z3.ToReal(q); T.lemma('in the chunk, from below (%s)' % a, fl * sz <= x); T.lemma('in the chunk, from above (%s)' % a, x < fl * sz + sz); bs.append(fl * sz); self.off.append(x - fl * sz)
        self.rg = self.s.reg(*bs); self.at = cell_index(self.sz, self.off); self.has = sel(self.ch.f['has'], self.rg); self.ck = ex.ty.unpack(self.vt, sel(self.ch.f['val'], self.rg)); self.D = data(ex, self.ck); self.st = self.ck.f['fill_status_']
        T.assume(z3.Implies(self.has, chunk_ok(self.ck, self.sz, self.rg, ex)), 'class invariant: every chunk is stored under its region, with the chunk sizes of the grid, filled (established for new chunks and kept by every write, below)'); return self
    def fixed(self, T, w): return mkAnd(*[same(T.ex, w.f[n], self.v.f[n]) for n in w.f if n != 'chunks_'])
    def others(self, T, w): r = z3.Const(T.ex.fresh_id('r'), self.s.R); T.ex.oblige; return z3.ForAll([r], z3.Implies(r != self.rg, z3.And(sel(w.f['chunks_'].f['has'], r) == sel(self.ch.f['has'], r), sel(w.f['chunks_'].f['val'], r) == sel(self.ch.f['val'], r))))
def location(T, f):
    """the location argument of whichever overload f is, and its four components"""
    ex = T.ex
    if ex.ty.kind(f['ps'][0]['t']) == 'fp': xs = [T.sym(f['ps'][i]['t'], 'xyz'[i]) for i in range(3)]; return xs, xs + [z3.RealVal(1)]
    p = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'location'); n = 4 if f['q'].endswith('4d') else 3; arr = T.val(p).f['arr']; xs = [sel(sel(arr, z3.IntVal(i)), z3.IntVal(0)) for i in range(n)]; return [p], (xs + [z3.RealVal(1)])[:4]
def gread(T, mut, n):
    ex = T.ex
    for f in T.fns(BS + 'GetLocation' + ('Mutable' if mut else 'Immutable') + n):
        G = Gr(T); a, p = location(T, f); G.locate(T, p); q = f['q'].split('::')[-1]; o = T.call(f, G.g, a); dec = T.data['decision'] if mut else z3.BoolVal(True); found = z3.And(G.has, dec); ml, m, fd = answer(T, o, z3.If(G.has, z3.If(dec, z3.If(G.st == CELL, IN_CELL, IN_CHUNK), PROHIBITED), NOT_FOUND), q, G.D, G.at); T.ensure(q + ': grid unchanged', same(ex, T.val(G.g), G.v)); T.assume(found); v = T.call(T.fns('Value', cls=ex.ty.name(m.tid))[0], ml); T.never_throws(v); at = z3.If(G.st == CELL, G.at, 0); T.ensure(q + ': value of the cell or the chunk', T.val(v.ret) == sel(G.D.f['arr'], at))
        if mut:
            nv = T.sym('tu::Val', 'new'); ex.store(v.ret, nv); w = T.val(G.g); k = T.qv('k'); c = ex.ty.unpack(G.vt, sel(w.f['chunks_'].f['val'], G.rg)); d = data(ex, c); T.ensure(q + ': writing through the answer changes that value only', z3.And(chunk_ok(c, G.sz, G.rg, ex), c.f['fill_status_'] == G.st, d.f['len'] == G.D.f['len'], sel(w.f['chunks_'].f['has'], G.rg), z3.ForAll([k], sel(d.f['arr'], k) == with_cell(k, at, nv, sel(G.D.f['arr'], k))))); T.ensure(q + ': other chunks unchanged', G.others(T, w)); T.ensure(q + ': rest of the grid unchanged', G.fixed(T, w))
for i_ in (False, True):
    for n_ in ('', '3d', '4d'):
        def reg_(m=i_, n=n_):
            def body(T): gread(T, m, n)
            body.__name__ = 'GridRead%s%s' % ('Mutable' if m else '', n); body.__doc__ = 'looking up a location'; task('C27', 'dshvg', mode=M, contracts=CONG, libover=LIB)(body)
        reg_()
def again(ex, c):
    """a nested call of SetLocation4d is made only once the chunk is there, so that it makes none itself"""
    n = sum(1 for fr in ex.frames if fr.fn is not None and fr.fn['q'].endswith('SetLocation4d')); d = ex.task.data
    if n >= 1: ex.oblige('variant', sel(ex.load(d['grid']).f['chunks_'].f['has'], d['region']) if n == 1 else z3.BoolVal(False), c.e, 'stores again only with the chunk allocated')
    if n >= 2: raise Dead()
    return ex.call(ex.F[c.e['fn']], c.this, c.args, c.e)
CONS = dict(CONG, **{VG + BS + 'SetLocation4d': again})
def gset(T, fs):
    ex = T.ex
    for f in fs:
        G = Gr(T); a, p = location(T, f); G.locate(T, p); T.data.update(grid=G.g, region=G.rg); q = f['q'].split('::')[-1]; st = T.sym('int', 'set_type'); T.assume(z3.And(st >= 0, st <= 1)); v = T.obj(ex.ty.strip_ref(f['ps'][-1]['t']), 'value'); nv = T.val(v); o = T.call(f, G.g, a + [st, v]); T.never_throws(o); dec = T.data['decision']; w = T.val(G.g); c = ex.ty.unpack(G.vt, sel(w.f['chunks_'].f['val'], G.rg)); d = data(ex, c); k = T.qv('k'); cell = st == SET_CELL
        T.ensure(q + ': status', o.ret == z3.If(dec, z3.If(cell, SET_CELL_STATUS, SET_CHUNK_STATUS), 0)); T.ensure(q + ': prohibited writes change nothing', z3.Implies(z3.Not(dec), same(ex, w, G.v))); T.ensure(q + ': the chunk of the location is there', z3.Implies(dec, z3.And(sel(w.f['chunks_'].f['has'], G.rg), w.f['chunks_'].f['size'] == G.ch.f['size'] + z3.If(G.has, 0, 1)))); T.ensure(q + ': stored under its region, filled', z3.Implies(dec, z3.And(chunk_ok(c, G.sz, G.rg, ex), c.f['fill_status_'] == z3.If(cell, CELL, CHUNK)))); T.ensure(q + ': the chunk holds the value', z3.Implies(z3.And(dec, z3.Not(cell)), sel(d.f['arr'], 0) == nv)); old = z3.If(G.has, sel(G.D.f['arr'], z3.If(G.st == CELL, k, 0)), G.v.f['default_value_']); T.ensure(q + ': the cell of the location has the value, every other what it had', z3.Implies(z3.And(dec, cell, k >= 0, k < total(G.sz)), sel(d.f['arr'], k) == with_cell(k, G.at, nv, old))); T.ensure(q + ': other chunks unchanged', G.others(T, w)); T.ensure(q + ': rest of the grid unchanged', G.fixed(T, w))
        T.cover('allocates', z3.And(dec, z3.Not(G.has)))
for i_ in range(2):
    for n_ in ('', '3d', '4d'):
        def reg_(i=i_, n=n_):
            def body(T): gset(T, T.fns(BS + 'SetLocation' + n)[i:i + 1])
            body.__name__ = 'GridSet%s_%d' % (n, i); body.__doc__ = 'storing at a location'; task('C27', 'dshvg', mode=M, contracts=CONS, libover=LIB)(body)
        reg_()
@task('C27', 'dshvg', mode=M, contracts=CONG, libover=LIB)
def GridNew(T):
    """a new grid has no chunks, the sizes and default value given, and the inverse of the transform given"""
    ex = T.ex
    for f in T.fns(BS + 'DynamicSpatialHashedVoxelGridBase'):
        ps = f['ps']
        if len(ps) not in (3, 4): continue
        a = [T.obj(ex.ty.strip_ref(p['t']), p['n']) if ex.ty.kind(p['t']) in ('ref', 'rref') else T.sym(p['t'], p['n']) for p in ps]; sz = T.val(a[-3]); T.assume(grid_inv(sz)); T.assume(a[-1] <= 2 ** 48, 'the expected number of chunks can be reserved'); g = T.lv(f['cls'], ex.uninit(f['cls']), 'grid'); o = T.call(f, g, a); T.throws_iff(o, z3.Not(sz.f['valid_']), 'invalid sizes rejected'); w = T.val(g); k = z3.Const(ex.fresh_id('r'), get(ex).R); t = w.f['origin_transform_']
        T.ensure('no chunks', z3.And(w.f['chunks_'].f['size'] == 0, z3.ForAll([k], z3.Not(sel(w.f['chunks_'].f['has'], k))))); T.ensure('sizes and default value as given', z3.And(same(ex, w.f['chunk_sizes_'], sz), w.f['default_value_'] == T.val(a[-2]))); T.ensure('initialised', w.f['initialized_']); T.ensure('inverse of the transform', w.f['inverse_origin_transform_'] == inverse(ex, None, t, []))
        if len(ps) == 4: T.ensure('transform as given', t == T.val(a[0]))
@task('C27', 'dshvg', mode=M, contracts=CONG, libover=LIB)
def GridOther(T):
    """the default value, transform and sizes are set and reported without touching the chunks"""
    ex = T.ex; G = Gr(T); f = lambda n: T.fns(BS + n)[0]; g = G.g; v = T.obj('tu::Val', 'value'); nv = T.val(v); T.never_throws(T.call(f('SetDefaultValue'), g, [v])); w = T.val(g); T.ensure('default value set', w.f['default_value_'] == nv); T.ensure('nothing else changed', mkAnd(*[same(ex, w.f[n], G.v.f[n]) for n in w.f if n != 'default_value_'])); o = T.call(f('GetDefaultValue'), g, []); T.ensure('default value reported', ex.asval(o.ret) == nv)
    u = f('UpdateOriginTransform'); t = T.obj(ex.ty.strip_ref(u['ps'][0]['t']), 'transform'); T.never_throws(T.call(u, g, [t])); x = T.val(g); T.ensure('transform and its inverse set', z3.And(x.f['origin_transform_'] == T.val(t), x.f['inverse_origin_transform_'] == inverse(ex, None, T.val(t), []))); T.ensure('rest unchanged', mkAnd(*[same(ex, x.f[n], w.f[n]) for n in w.f if 'transform' not in n])); z = T.val(g)
    for n, e in (('GetOriginTransform', 'origin_transform_'), ('GetInverseOriginTransform', 'inverse_origin_transform_'), ('IsInitialized', 'initialized_'), ('GetImmutableInternalChunks', 'chunks_'), ('GetChunkGridSizes', 'chunk_sizes_')): o = T.call(f(n), g, []); T.never_throws(o); T.ensure(n, same(ex, ex.asval(o.ret), z.f[e]))
    o = T.call(f('HasUniformCellSize'), g, []); c = [cell_of(G.sz, a) for a in 'xyz']; T.ensure('uniform cells', o.ret == z3.And(c[0] == c[1], c[1] == c[2]))
@task('C27', 'dshvg', mode=M, contracts=CONG, libover=LIB)
def PlainGrid(T):
    """the ready-made grid approves every access"""
    ex = T.ex
    for n in ('OnMutableAccess', 'OnMutableRawAccess'):
        f = T.fns('DynamicSpatialHashedVoxelGrid<' + CT + '::' + n)[0]; o = T.call(f, T.obj(f['cls'], 'grid'), [T.obj(ex.ty.strip_ref(p['t']), 'location') for p in f['ps']]); T.never_throws(o); T.ensure(n + ' approved', o.ret)
# ---- what is taken for granted above
@task('C27', 'dshvg', mode={'fparith': 'exact'})
def Region(T):
    """a chunk region is the coordinates of its base: regions are equal exactly when those are, and hash alike"""
    ex = T.ex; cs = T.fns(QR + '::ChunkRegion'); mk = {}
    for f in cs:
        if f.get('copy') or f.get('move') or 'body' not in f: continue
        ps = f['ps']; n = len(ps); g = T.lv(f['cls'], ex.uninit(f['cls']), 'region')
        if n == 3: a = [T.sym(p['t'], p['n']) for p in ps]; want = list(a)
        elif n == 1 and ex.ty.kind(ex.ty.strip_ref(ps[0]['t'])) == 'mat':
            p = T.obj(ex.ty.strip_ref(ps[0]['t']), 'base'); a = [p]; d = ex.ty.matdims(ex.ty.strip_ref(ps[0]['t']))[0]; x = [sel(sel(T.val(p).f['arr'], z3.IntVal(i)), z3.IntVal(0)) for i in range(d)]; want = x[:3]
        elif n == 0: a, want = [], [z3.RealVal(0)] * 3
        else: continue
        o = T.call(f, g, a)
        if n == 1 and d == 4: T.throws_iff(o, x[3] != 1, 'only locations')
        else: T.never_throws(o)
        b = T.call([h for h in T.fns(QR + '::Base')][0], g, []); y = comps(ex.asval(b.ret)); T.ensure('base as given (%d parameters)' % n, mkAnd(*[p == q for p, q in zip(y, want + [z3.RealVal(1)])]))
    f = T.fns(QR + '::operator==')[0]; a, b = [T.obj(f['cls'], n) for n in 'ab']; base = lambda v: comps(v.f['base_']); o = T.call(f, a, [b]); T.never_throws(o); T.ensure('equal exactly when the bases are', o.ret == mkAnd(*[p == q for p, q in zip(base(T.val(a)), base(T.val(b)))]))
def sz_ctor(np, kind):
    def body(T):
        """the size along an axis is the number of cells times the cell size"""
        for f in T.fns('GridSizes::GridSizes', nparams=np, pred=lambda f: T.ex.ty.kind(f['ps'][-1]['t']) == kind):
            vals = [T.sym(p['t'], p['n']) for p in f['ps']]; g = T.lv(f['cls'], T.ex.uninit(f['cls']), 'new'); o = T.call(f, g, vals); s = T.val(g)
            for a, n in zip('xyz', counts(s)): T.ensure('size is the number of cells times the cell size (%s)' % a, s.f['%s_size_' % a] == z3.ToReal(n) * s.f['cell_%s_size_' % a]); T.ensure('cell size positive (%s)' % a, cell_of(s, a) > 0)
    body.__name__ = 'Sizes_%d_%s' % (np, kind); task('C27', 'voxel', mode={'fparith': 'exact'})(body)
for np_, k_ in ((6, 'int'), (6, 'fp'), (4, 'int'), (4, 'fp')): sz_ctor(np_, k_)
