from vc.task import *
from common import *
ZH = NSP + 'zlib_helpers::'
I_, B_ = z3.IntSort(), z3.BoolSort()
OK, END, NO_FLUSH, FINISH = 0, 1, 0, 4
# zlib, by its documentation. Bytes given so far and bytes produced so far determine what happens; the bytes produced are those of one stream:
#   inflate: if the input begins with a whole valid stream (valid), its content data(0..data_len); if not, the end of a stream is never reported
#   deflate: a whole valid stream z(0..z_len) whose content is the input
data, data_len, valid, z, z_len = z3.Function('data', I_, I_), z3.Int('data_len'), z3.Bool('input_begins_with_a_valid_stream'), z3.Function('deflated', I_, I_), z3.Int('deflated_len')
class Z(object):
    def __init__(self, T, inp): self.T = T; self.inp = inp; self.alive = T.lv(T.ex.ty.byname['bool'], z3.BoolVal(False), 'stream_alive'); self.fin = T.lv(T.ex.ty.byname['bool'], z3.BoolVal(False), 'stream_finishing'); self.n = T.val(inp).f['len']
def zs(ex, c): return ex.asval(c.args[0]).lv
def init(kind):
    def con(ex, c):
        d = ex.task.data[kind]; s = zs(ex, c); x = ex.load(s); ex.oblige('post', mkNot(ex.load(d.alive)), c.e, 'a stream is set up once')
        for n in ('zalloc', 'zfree', 'opaque'): ex.oblige('post', z3.BoolVal(isinstance(x.f[n], Ptr) and x.f[n].lv is None), c.e, '%s: the default allocator' % n)
        ok = z3.Bool(kind + '_starts'); ex.store(d.alive, ok); ex.store(s.fld('total_out', None), z3.IntVal(0)); ex.store(s.fld('total_in', None), z3.IntVal(0)); r = ex.fresh(c.rettid, 'ret'); ex.assume((r == OK) == ok); return r
    return con
def end(kind):
    def con(ex, c): d = ex.task.data[kind]; ex.store(d.alive, z3.BoolVal(False)); r = ex.fresh(c.rettid, 'ret'); return r
    return con
def step(kind):
    def con(ex, c):
        d = ex.task.data[kind]; s = zs(ex, c); x = ex.load(s); fl = c.val(1); fin = ex.load(d.fin); f = x.f; pin, pout, ain, aout, tot = f['next_in'], f['next_out'], f['avail_in'], f['avail_out'], f['total_out']; ex.oblige('post', ex.load(d.alive), c.e, 'the stream is set up'); ob = lambda g, nm: ex.oblige('post', g, c.e, nm)
        src = isinstance(pin, Ptr) and pin.lv is not None and pin.lv.root == d.inp.root
        if not src: raise Unsupported('input of the stream is not the data given')
        ob(z3.And(pin.off >= 0, ain == d.n - pin.off), 'the input offered is all the input not yet taken'); dst = LVal(pout.lv.root, pout.lv.path, pout.lv.tid) if pout.lv is not None else None
        if dst is None: raise Unsupported('no room for the output')
        room = ex.load(dst); cap = ex.vlen(dst); ob(z3.And(pout.off >= 0, pout.off + aout <= cap), 'the output fits the buffer'); arr = room.f['arr']; nc, np_ = ex.fresh_desc('nat', 'taken'), ex.fresh_desc('nat', 'made'); ex.assume(z3.And(nc >= 0, nc <= ain, np_ >= 0, np_ <= aout)); out = data if kind == 'inflate' else z; na = z3.Const(ex.fresh_id('out'), arr.sort()); j = z3.Const(ex.fresh_id('j'), I_)
        ex.fact(qall([j], sel(na, j) == z3.If(z3.And(j >= pout.off, j < pout.off + np_), out(tot + (j - pout.off)), sel(arr, j)), patterns=[sel(na, j)])); ex.store(dst.fld('arr', None), na)
        for n, v in (('next_in', Ptr(pin.lv, pin.off + nc)), ('avail_in', ain - nc), ('next_out', Ptr(pout.lv, pout.off + np_)), ('avail_out', aout - np_), ('total_out', tot + np_)): ex.store(s.fld(n, None), v)
        ex.store(s.fld('total_in', None), f['total_in'] + nc); r = ex.fresh(c.rettid, 'ret'); ex.assume(tot + np_ < 2 ** 59); A = lambda q: ex.assume(q)
        if kind == 'inflate': A(z3.Implies(r == END, z3.And(valid, tot + np_ == data_len))); A(z3.Implies(valid, tot + np_ <= data_len)); A(z3.Implies(z3.And(valid, aout > 0), z3.Or(r == OK, r == END)))
        else:
            ob(z3.Or(fl == NO_FLUSH, fl == FINISH), 'fed, or finished'); ob(z3.Implies(fin, fl == FINISH), 'nothing is fed after finishing began'); ex.store(d.fin, z3.Or(fin, fl == FINISH)); A(z3.Implies(z3.And(fl == NO_FLUSH, aout > 0, ain > 0), z3.And(r == OK, z3.Or(nc == ain, np_ == aout)))); A(z3.Implies(fl == NO_FLUSH, r != END)); A(z3.Implies(z3.And(fl == FINISH, aout > 0), z3.Or(r == OK, r == END))); A(z3.Implies(z3.And(fl == FINISH, r == OK), np_ == aout)); A(z3.Implies(r == END, z3.And(nc == ain, tot + np_ == z_len))); A(tot + np_ <= z_len)
        return r
    return con
CON = {'inflateInit_': init('inflate'), 'inflate': step('inflate'), 'inflateEnd': end('inflate'), 'deflateInit_': init('deflate'), 'deflate': step('deflate'), 'deflateEnd': end('deflate')}
def stream(L): return [v for v in L.locals('rec') if 'z_stream_s' in L.ex.ty.name(v.tid)][0]
def rets(L): return [L.read(v) for v in L.locals('int') if v.root in [r for r, _ in L.extra.get('written', [])]]
def held(L, b, fn, n): q = z3.Int('q'); return z3.And(b['len'] == n, qall([q], z3.Implies(z3.And(q >= 0, q < n), sel(b['arr'], q) == fn(q)), patterns=[sel(b['arr'], q)]))
def inflating(L):
    """after a step: everything made so far is in the buffer"""
    ex = L.ex; d = ex.task.data['inflate']; x = L.read(stream(L)).f; b = L.read(L.written('vec')[0]).f; r = rets(L)[0]; return [('the stream is set up', L.read(d.alive)), ('input', z3.And(x['next_in'].off >= 0, x['avail_in'] == d.n - x['next_in'].off)), ('everything made so far is kept', held(L, b, data, x['total_out'])), ('what zlib said', z3.And(z3.Implies(r == END, z3.And(valid, x['total_out'] == data_len)), z3.Implies(valid, z3.Or(r == OK, r == END))))]
@task('C10', 'zlib', mode={}, loops=[inflating], contracts=CON)
def Decompress(T):
    ex = T.ex; f = T.fns(ZH + 'DecompressBytes')[0]; a = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'compressed'); T.assume(z3.And(T.val(a).f['len'] >= 0, T.val(a).f['len'] < 2 ** 59, data_len >= 0, data_len < 2 ** 58)); d = T.data['inflate'] = Z(T, a); o = T.call(f, None, [a]); T.throws_iff(o, mkNot(z3.And(d.n < 2 ** 32, valid, z3.Bool('inflate_starts'))), 'rejected exactly when the input holds no valid stream (or is too long, or zlib cannot start)'); T.at_throws(o, 'the stream is released', lambda st: mkNot(ex.load(d.alive, st))); r = o.ret.f; q = T.qv('q'); T.ensure('length', r['len'] == data_len); T.ensure('content', z3.Implies(z3.And(q >= 0, q < data_len), sel(r['arr'], q) == data(q))); T.ensure('the stream is released', mkNot(T.val(d.alive))); T.cover('two buffers full', data_len == 2 ** 21)

def deflating(L):
    """what was made so far is in the buffer, followed by the bytes in the temporary buffer"""
    ex = L.ex; d = ex.task.data['deflate']; x = L.read(stream(L)).f; vs = [v for v in L.locals('vec') if v.root != d.inp.root]; b = L.read(vs[0]).f; t = x['next_out']; tmp = L.read(t.lv); cap = ex.vlen(t.lv); q = z3.Int('q'); n = b['len']
    return [('the stream is set up', L.read(d.alive)), ('input', z3.And(x['next_in'].off >= 0, x['avail_in'] == d.n - x['next_in'].off)), ('room', z3.And(t.off >= 0, x['avail_out'] == cap - t.off)), ('made so far', x['total_out'] == n + t.off), ('bytes in the buffer', qall([q], z3.Implies(z3.And(q >= 0, q < n), sel(b['arr'], q) == z(q)), patterns=[sel(b['arr'], q)])), ('bytes in the temporary buffer', qall([q], z3.Implies(z3.And(q >= 0, q < t.off), sel(tmp.f['arr'], q) == z(n + q)), patterns=[sel(tmp.f['arr'], q)]))]
def feeding(L): d = L.ex.task.data['deflate']; x = L.read(stream(L)).f; return deflating(L) + [('not finishing', mkNot(L.read(d.fin))), ('room left', x['avail_out'] > 0)]
def finishing(L): d = L.ex.task.data['deflate']; x = L.read(stream(L)).f; r = rets(L)[-1]; return deflating(L) + [('what zlib said', z3.And(z3.Or(r == OK, r == END), z3.Implies(r == END, x['total_out'] == z_len)))]
@task('C10', 'zlib', mode={}, loops=[feeding, finishing], contracts=CON)
def Compress(T):
    ex = T.ex; f = T.fns(ZH + 'CompressBytes')[0]; a = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'uncompressed'); T.assume(z3.And(T.val(a).f['len'] >= 0, T.val(a).f['len'] < 2 ** 59, z_len >= 0, z_len < 2 ** 58)); d = T.data['deflate'] = Z(T, a); o = T.call(f, None, [a]); T.throws_iff(o, mkNot(z3.And(d.n < 2 ** 32, z3.Bool('deflate_starts'))), 'rejected exactly when the input is too long (or zlib cannot start)'); T.at_throws(o, 'the stream is released', lambda st: mkNot(ex.load(d.alive, st))); r = o.ret.f; q = T.qv('q'); T.ensure('length of the whole stream', r['len'] == z_len); T.ensure('the whole stream', z3.Implies(z3.And(q >= 0, q < z_len), sel(r['arr'], q) == z(q))); T.ensure('the stream is released', mkNot(T.val(d.alive))); T.cover('two buffers full', z_len == 2 ** 21)
@task('C10', 'zlib', mode={}, loops=[feeding, finishing, inflating], contracts=CON)
def RoundTrip(T):
    """decompressing what was compressed gives it back; zlib: a whole deflated stream is valid and inflates to what was deflated, if nothing else is given"""
    ex = T.ex; f, g = T.fns(ZH + 'CompressBytes')[0], T.fns(ZH + 'DecompressBytes')[0]; a = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'original'); x = T.val(a).f; T.assume(z3.And(x['len'] >= 0, x['len'] < 2 ** 32, z_len >= 0, z_len < 2 ** 32, data_len >= 0, data_len < 2 ** 58, z3.Bool('deflate_starts'), z3.Bool('inflate_starts')), 'lengths of both forms below 2^32'); T.data['deflate'] = Z(T, a); o = T.call(f, None, [a]); T.never_throws(o); c = ex.new_root(ex.ty.strip_ref(g['ps'][0]['t']), o.ret, 'compressed'); d = T.data['inflate'] = Z(T, c); r = o.ret.f; q = z3.Int('rq'); whole = z3.And(r['len'] == z_len, qall([q], z3.Implies(z3.And(q >= 0, q < z_len), sel(r['arr'], q) == z(q)), patterns=[sel(r['arr'], q)]))
    T.lemma('the whole stream', whole); T.assume(z3.Implies(whole, z3.And(valid, data_len == x['len'], qall([q], z3.Implies(z3.And(q >= 0, q < x['len']), data(q) == sel(x['arr'], q)), patterns=[data(q)]))), 'zlib: a whole deflated stream inflates to what was deflated'); o = T.call(g, None, [c]); T.never_throws(o); w = o.ret.f; k = T.qv('k'); T.ensure('length', w['len'] == x['len']); T.ensure('content', z3.Implies(z3.And(k >= 0, k < x['len']), sel(w['arr'], k) == sel(x['arr'], k)))

# ---- files: a file is a name, a length and bytes; a stream on it has a position
fbyte, flen = z3.Function('byte_of_file', I_, I_), z3.Int('file_len')
class F(object): pass
def file_open(T, name):
    d = T.data['file'] = F(); ex = T.ex; d.pos = T.lv(ex.ty.byname['long'], z3.IntVal(0), 'position'); d.name = T.val(name); d.ok = z3.Bool('file_opens'); d.readok = z3.Bool('file_is_read')
    def opened(ex, e, a):
        same = z3.And(a[0].f['len'] == d.name.f['len'], a[0].f['arr'] == d.name.f['arr']); ex.oblige('post', same, e, 'the file named is the one opened'); fl = z3.simplify(a[1])
        if not z3.is_int_value(fl): raise Unsupported('mode of a file stream')
        fl = fl.as_long(); ex.oblige('post', z3.BoolVal(fl & 4 != 0), e, 'opened for bytes, not text'); d.flags = fl; ex.store(d.pos, flen if fl & 2 else z3.IntVal(0))
    T.data['file_opened'] = opened
FS = lambda c, m: 'std::basic_%s<char, std::char_traits<char>>::%s' % (c, m)
def bytes_of(ex, p):
    while isinstance(p, Special) or not isinstance(p, Ptr): raise Unsupported('buffer of a file stream')
    return p
def seek(ex, c): d = ex.task.data['file']; w = z3.simplify(c.val(1)); ex.store(d.pos, c.val(0) if w.as_long() == 0 else ex.load(d.pos) + c.val(0) if w.as_long() == 1 else flen + c.val(0)); return c.this
def read(ex, c):
    d = ex.task.data['file']; p = byteptr(ex, c.args[0]); n = c.val(1); k = ex.load(d.pos); v = ex.load(p.lv); ex.oblige('bounds', z3.And(n >= 0, p.off >= 0, p.off + n <= v.f['len']), c.e, 'bytes read fit the buffer'); ex.oblige('post', z3.And(k >= 0, k + n <= flen), c.e, 'bytes read are bytes of the file'); j = z3.Const(ex.fresh_id('j'), I_); na = z3.Const(ex.fresh_id('read'), v.f['arr'].sort()); ex.fact(z3.Implies(d.readok, qall([j], sel(na, j) == z3.If(z3.And(j >= p.off, j < p.off + n), fbyte(k + j - p.off), sel(v.f['arr'], j)), patterns=[sel(na, j)]))); ex.store(p.lv.fld('arr', None), na); ex.store(d.pos, k + n); return c.this
def byteptr(ex, a):
    p = ex.asval(a)
    if hasattr(p, 'd') and 'ptr' in p.d: p = p.d['ptr']
    if not isinstance(p, Ptr) or p.lv is None: raise Unsupported('bytes %r %r' % (p, getattr(p, 'd', None)))
    return p
def write(ex, c):
    d = ex.task.data['file']; p = byteptr(ex, c.args[0]); n = c.val(1); v = ex.load(p.lv); W = ex.task.data['bytes']; q = z3.Const(ex.fresh_id('q'), I_); ex.oblige('post', z3.And(n == W.f['len'], z3.Implies(z3.And(q >= 0, q < n), sel(v.f['arr'], p.off + q) == sel(W.f['arr'], q))), c.e, 'what is written is the compressed form', assume=False); ex.oblige('bounds', z3.And(p.off >= 0, p.off + n <= v.f['len']), c.e, 'bytes written are there'); ex.store(d.pos, ex.load(d.pos) + n); return c.this
FCON = {'std::fpos<__mbstate_t>::operator long': lambda ex, c: ex.asval(c.this), FS('ifstream', 'is_open'): lambda ex, c: ex.task.data['file'].ok, FS('istream', 'tellg'): lambda ex, c: ex.load(ex.task.data['file'].pos), FS('istream', 'seekg'): seek, FS('istream', 'read'): read, FS('ios', 'operator!'): lambda ex, c: mkNot(ex.task.data['file'].readok), FS('ostream', 'write'): write, FS('ofstream', 'close'): lambda ex, c: None}
def passing(check):
    def con(ex, c): check(ex, c); ex.throw_if(z3.Bool('fails'), 'std::exception', c.e); r = ex.fresh(c.rettid, 'bytes'); ex.task.data['bytes'] = r; return r
    return con
def file_content(ex, c): v = c.val(0); q = z3.Const(ex.fresh_id('q'), I_); ex.oblige('post', z3.And(v.f['len'] == flen, z3.Implies(z3.And(q >= 0, q < flen), sel(v.f['arr'], q) == fbyte(q))), c.e, 'what is decompressed is the content of the file', assume=False)
@task('C10', 'zlib', mode={}, contracts=dict(FCON, **{ZH + 'DecompressBytes': passing(file_content)}))
def LoadFile(T):
    ex = T.ex; f = T.fns(ZH + 'LoadFromFileAndDecompress')[0]; a = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'filename'); file_open(T, a); T.assume(z3.And(flen >= 0, flen < 2 ** 40)); o = T.call(f, None, [a]); d = T.data['file']; T.throws_iff(o, z3.Or(mkNot(d.ok), mkNot(d.readok), z3.Bool('fails')), 'rejected exactly when the file cannot be opened, read or decompressed'); T.ensure('the content decompressed', z3.And(o.ret.f['len'] == T.data['bytes'].f['len'], o.ret.f['arr'] == T.data['bytes'].f['arr']))
def given(ex, c): v, w = c.val(0), ex.task.data['given']; ex.oblige('post', z3.And(v.f['len'] == w.f['len'], v.f['arr'] == w.f['arr']), c.e, 'what is compressed is what was given')
@task('C10', 'zlib', mode={}, contracts=dict(FCON, **{ZH + 'CompressBytes': passing(given)}))
def WriteFile(T):
    """writing failures are not reported by the function, and not covered by the property"""
    ex = T.ex; f = T.fns(ZH + 'CompressAndWriteToFile')[0]; u, a = [T.obj(ex.ty.strip_ref(p['t']), n) for p, n in zip(f['ps'], ('uncompressed', 'filename'))]; T.data['given'] = T.val(u); file_open(T, a); o = T.call(f, None, [u, a]); T.throws_only_if(o, z3.Bool('fails'), 'fails only if compressing fails'); T.ensure('everything is written, once', T.val(T.data['file'].pos) == T.data['bytes'].f['len'])
