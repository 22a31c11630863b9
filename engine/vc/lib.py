"""Assumed contracts of the C++ standard library, Eigen, OpenMP and std::async (the trusted base).
Every use is counted in ex.used_lib and reported in the evidence."""
import z3
from .vtypes import *
from .sym import qall, mpat, mkAnd, mkOr, mkNot, mkIf, mkImp, LChoice, PChoice, FChoice, is_t, is_f, Call, LoopView, Dead

H = {}
def lib(*names):
    def d(f):
        for n in names: H[n] = f
        return f
    return d
C = {}
def ctor(*names):
    def d(f):
        for n in names: C[n] = f
        return f
    return d

ITERCLS = ('std::_Rb_tree_const_iterator', 'std::_Rb_tree_iterator', 'std::__detail::_Node_const_iterator', 'std::__detail::_Node_iterator', '__gnu_cxx::__normal_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::_Deque_iterator', 'std::reverse_iterator', 'std::move_iterator')

def clsname(ex, e):
    return ex.ty.T[e['cls']].get('n') if 'cls' in e else None

def call(ex, e, q, this, args, f):
    name = e['name']
    ov = getattr(ex.task, 'libover', {}) if ex.task else {}
    if q in ov:
        ex.used_lib[q] = ex.used_lib.get(q, 0) + 1
        return ov[q](ex, e, this, args)
    # iterator operations are resolved on the value
    if this is not None:
        tv = ex.load(this) if isinstance(this, (LVal, LChoice)) else this
        if isinstance(tv, Special) and tv.kind == 'quatcoeffs' and name == 'data': return Special('matdata', lv=tv.d['lv'], view='quat')
        if name == 'operator=' and clsname(ex, e) in ITERCLS: ex.store(this, ex.rv(args[0])); return this
        if isinstance(tv, (Iter, MapIter)): return iter_call(ex, e, name, this, tv, args)
    elif name.startswith('operator') and args:
        av = [ex.ev(a) for a in args]
        vals = [ex.asval(a) for a in av]
        if any(isinstance(v, (Iter, MapIter)) for v in vals): return iter_free(ex, e, name, av, vals)
        if any(isinstance(v, (Closure, OpaqueFn, FChoice)) for v in vals) and name in ('operator==', 'operator!='):
            fv = [v for v in vals if isinstance(v, (Closure, OpaqueFn, FChoice))][0]
            return mkNot(ex.truth(fv)) if name == 'operator==' else ex.truth(fv)
        if q in H or name in H:
            h = H.get(q) or H.get(name)
            ex.used_lib[q] = ex.used_lib.get(q, 0) + 1
            return h(ex, e, this, av)
        k = ex.ty.kind(ex.ty.strip_ref(e['pts'][0])) if e.get('pts') else None
        if name in ('operator==', 'operator!='):
            r = ex_eq(ex, ex.ty.strip_ref(e['pts'][0]), vals[0], vals[1])
            return r if name == 'operator==' else mkNot(r)
        raise Unsupported('library operator %s' % q)
    cn = clsname(ex, e)
    key = None
    if cn is not None:
        group = 'vec' if cn in VECLIKE or cn == 'std::basic_string' or cn == 'std::initializer_list' else 'map' if cn in MAPLIKE else 'set' if cn in SETLIKE else cn
        if group == 'std::array': group = 'arr'
        # methods inherited from library bases
        tid = e['cls']
        for key in ('%s::%s' % (group, name), '%s::%s' % (cn, name), q):
            if key in H: break
        else: key = q
        if key not in H and this is not None:
            tv = ex.load(this) if isinstance(this, (LVal, LChoice)) else this
            if isinstance(tv, Struct):
                g2 = ex.ty.kind(tv.tid)
                if '%s::%s' % (g2, name) in H: key = '%s::%s' % (g2, name)
    else: key = q
    h = ov.get(key) or H.get(key)
    if h is None: raise Unsupported('library function %s (line %s)' % (q, e.get('l')))
    ex.used_lib[q] = ex.used_lib.get(q, 0) + 1
    return h(ex, e, this, [ex.ev(a) for a in args])

def construct(ex, e, tid, args):
    ty = ex.ty; t = ty.T[tid]; n = t.get('n', ''); k = ty.kind(tid)
    ov = getattr(ex.task, 'ctorover', {}) if ex.task else {}
    if n in ov: return ov[n](ex, e, tid, args)
    if n in ITERCLS:
        return ex.rv(args[0]) if args else ex.zero(tid)
    if e.get('copy') or e.get('move'):
        if e.get('move') and args:
            src = ex.ev(args[0])
            v = ex.asval(src)
            # moved-from containers are left valid but unspecified: not modelled as changed unless read (recorded assumption)
            return v
        return ex.rv(args[0])
    h = C.get(n) or C.get(k)
    if h is None:
        if k == 'obj': 
            for a in args: ex.ev(a)
            return Special('obj', tid=tid)
        raise Unsupported('constructor of ' + t['s'])
    ex.used_lib[n + '::ctor'] = ex.used_lib.get(n + '::ctor', 0) + 1
    return h(ex, e, tid, args)

def bitcast(ex, e, v):
    if isinstance(v, (Ptr,)) or (isinstance(v, Special) and v.kind == 'matdata'): return v
    raise Unsupported('reinterpretation of memory (line %s)' % e.get('l'))

def idxnum(ex, tid, v):
    """integer value used as an index -> nat sort"""
    if ex.ty.natbv:
        return v if z3.is_bv(v) else z3.Int2BV(v, 64)
    return z3.BV2Int(v, ex.ty.ibits(tid)[1]) if z3.is_bv(v) else v

# ------------------------------------------------------------------ equality of values
def ex_eq(ex, tid, a, b):
    ty = ex.ty; k = ty.kind(tid)
    if z3.is_expr(a) and ty.composite(tid): a = ty.unpack(tid, a)
    if z3.is_expr(b) and ty.composite(tid): b = ty.unpack(tid, b)
    if k == 'vec':
        i = z3.Const(ex.fresh_id('qe'), ty.I)
        e = ty.elem(a.tid)
        la, lb = a.f['len'], b.f['len']
        rng = z3.And(i >= 0, i < la) if not ty.natbv else z3.ULT(i, la)
        return z3.And(la == lb, qall([i], mkImp(rng, ex_eq(ex, e, ex.sel(a.f['arr'], i), ex.sel(b.f['arr'], i)))))
    if k == 'arr':
        return mkAnd(*[ex_eq(ex, ty.elem(a.tid), ex.sel(a.f['arr'], ex.nat(i)), ex.sel(b.f['arr'], ex.nat(i))) for i in range(ty.arrlen(a.tid))])
    if k in ('tuple', 'rec', 'quat', 'xform'):
        return mkAnd(*[ex_eq(ex, d[1], a.f[n], b.f[n]) for n, d in ty.fields(a.tid)])
    if k == 'mat':
        e = ty.T[tid]['a'][0]['t']
        r, c = ty.matdims(tid)
        cs = [a.f['rows'] == b.f['rows'], a.f['cols'] == b.f['cols']]
        i = z3.Const(ex.fresh_id('qi'), ty.I); j = z3.Const(ex.fresh_id('qj'), ty.I)
        cs.append(qall([i, j], mkImp(z3.And(i >= 0, i < a.f['rows'], j >= 0, j < a.f['cols']), ex_eq(ex, e, z3.Select(z3.Select(a.f['arr'], i), j), z3.Select(z3.Select(b.f['arr'], i), j)))))
        return mkAnd(*cs)
    if k in ('map', 'set'):
        kk = z3.Const(ex.fresh_id('qk'), ty.dsort(('t', ty.T[tid]['a'][0]['t'])))
        body = z3.Select(a.f['has'], kk) == z3.Select(b.f['has'], kk)
        if k == 'map':
            vt = dict(ty.fields(a.tid))['val'][2][1]
            body = z3.And(body, mkImp(z3.Select(a.f['has'], kk), ex_eq(ex, vt, z3.Select(a.f['val'], kk), z3.Select(b.f['val'], kk))))
        return z3.And(a.f['size'] == b.f['size'], qall([kk], body))
    if k == 'fp' and ty.fpmode == 'fp': return z3.fpEQ(a, b)
    if z3.is_expr(a) and z3.is_expr(b): return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr): return ex.ptreq(a, b)
    raise Unsupported('equality of ' + ty.name(tid))

# ------------------------------------------------------------------ iterators
def iter_step(ex, it, d, e):
    if isinstance(it, Iter):
        one = ex.nat(1)
        up = (d == '+') != it.rev
        return Iter(it.lv, ex.natop('+' if up else '-', it.i, one), it.rev)
    if isinstance(it, EIter) and d == '+':
        ex.oblige('bounds', mkNot(it.end), e, 'iterator is incrementable'); return EIter(it.lv, it.i + 1, it.keys, it.n)
    raise Unsupported('stepping an associative iterator')

def iter_call(ex, e, name, this, tv, args):
    if name in ('operator*', 'operator->'):
        if isinstance(tv, MapIter):
            ex.oblige('bounds', mkNot(tv.end), e, 'iterator is dereferenceable')
            v = ex.load(tv.lv)
            if isinstance(tv, EIter):
                ex.fact(mkImp(z3.And(tv.i >= 0, tv.i < tv.n), z3.Select(v.f['has'], tv.key))); key_pos_fact(ex, tv.keys, tv.i, tv.n)
            if ex.ty.kind(v.tid) == 'set': return ex.new_root(ex.ty.T[v.tid]['a'][0]['t'], tv.key, 'key')
            p = MapElem(ex, tv)
            return Ptr(p) if name == 'operator->' else p
        i = tv.i
        if tv.rev: i = ex.natop('-', i, ex.nat(1))
        lv = ex.elem_at(tv.lv, i, e, 'iter')
        return Ptr(lv) if name == 'operator->' else lv
    if name in ('operator++', 'operator--'):
        new = iter_step(ex, tv, name[-1], e)
        ex.store(this, new)
        return tv if args else this
    if name in ('operator+', 'operator-'):
        a = ex.rv(args[0])
        if isinstance(a, Iter): return ex.natop('-', tv.i, a.i)
        up = (name[-1] == '+') != tv.rev
        return Iter(tv.lv, ex.natop('+' if up else '-', tv.i, a), tv.rev)
    if name in ('operator+=', 'operator-='):
        a = ex.rv(args[0])
        up = (name[-2] == '+') != tv.rev
        ex.store(this, Iter(tv.lv, ex.natop('+' if up else '-', tv.i, a), tv.rev)); return this
    if name == 'operator[]':
        a = ex.rv(args[0])
        return ex.elem_at(tv.lv, ex.natop('+', tv.i, a), e, 'iter')
    if name == 'operator=':
        ex.store(this, ex.rv(args[0])); return this
    if name in ('operator==', 'operator!=', 'operator<'):
        b = ex.rv(args[0]); return iter_cmp(ex, name, tv, b)
    if name == 'base': return tv
    raise Unsupported('iterator ' + name)

def MapElem(ex, it):
    """location of the (key, value) element a map iterator refers to; second writes through"""
    v = ex.load(it.lv)
    kt = ex.ty.T[v.tid]['a'][0]['t']; vt = dict(ex.ty.fields(v.tid))['val'][2][1]
    pt = None
    for tid, t in enumerate(ex.ty.T):
        if t and t.get('n') == 'std::pair' and t['a'][0].get('t') == kt and t['a'][1].get('t') == vt: pt = tid; break
    if pt is None: raise Unsupported('pair type of map element')
    class ML(LVal):
        __slots__ = ()
        def fld(self, n, t):
            if n == 'second': return it.lv.key(it.key, vt)
            return LVal.fld(self, n, t)
    r = ex.new_root(pt, Struct(pt, {'first': ex.ty.unpack(kt, it.key), 'second': ex.ty.unpack(vt, ex.sel(v.f['val'], it.key))}), 'melem')
    return ML(r.root, r.path, r.tid)

def iter_cmp(ex, name, a, b):
    if isinstance(a, EIter) and isinstance(b, EIter) and a.keys.eq(b.keys):
        return a.i == b.i if name.endswith('==') else mkNot(a.i == b.i)
    if isinstance(a, MapIter) and isinstance(b, MapIter):
        r = mkIf(a.end, b.end, mkAnd(mkNot(b.end), a.key == b.key))
        if is_t(b.end): r = a.end
        elif is_t(a.end): r = b.end
        return r if name.endswith('==') else mkNot(r)
    if isinstance(a, Iter) and isinstance(b, Iter):
        if name.endswith('=='): return ex.fold(a.i == b.i)
        if name.endswith('!='): return ex.fold(mkNot(a.i == b.i))
        if name.endswith('<'): return ex.fold(a.i < b.i)
    raise Unsupported('iterator comparison')
def iter_free(ex, e, name, av, vals):
    if name in ('operator==', 'operator!=', 'operator<'): return iter_cmp(ex, name, vals[0], vals[1])
    if name == 'operator-': return ex.natop('-', vals[0].i, vals[1].i)
    if name == 'operator+':
        a, b = vals
        if isinstance(b, Iter): a, b = b, a
        return Iter(a.lv, ex.natop('+', a.i, b), a.rev)
    raise Unsupported('iterator ' + name)

# ------------------------------------------------------------------ vector-like
def L(lv): return lv.fld('len', None) if isinstance(lv, LVal) else lv
def vstruct(ex, this): 
    v = ex.asval(this)
    if isinstance(v, Struct): return v
    raise Unsupported('container value %r' % (v,))
def tolv(ex, this, tid):
    return this if isinstance(this, (LVal, LChoice)) else ex.new_root(tid, this, 'tmp')
@lib('vec::size', 'vec::length')
def _(ex, e, this, a): return ex.vlen(tolv(ex, this, e['cls']))
@lib('vec::capacity')
def _(ex, e, this, a):
    c = ex.fresh_desc('nat', 'cap'); ex.assume(c >= ex.vlen(this)); return c
@lib('arr::size')
def _(ex, e, this, a): return ex.nat(ex.ty.arrlen(e['cls']))
@lib('vec::empty')
def _(ex, e, this, a): return ex.fold(ex.vlen(tolv(ex, this, e['cls'])) == ex.nat(0))
@lib('vec::at')
def _(ex, e, this, a):
    this = tolv(ex, this, e['cls'])
    i = idxnum(ex, e['pts'][0], ex.asval(a[0])); n = ex.vlen(this)
    g = ex.fold2(mkAnd(i >= 0, i < n) if not z3.is_bv(i) else z3.ULT(i, n))
    ex.throw_if(mkNot(g), 'std::out_of_range', e)
    v = ex.load(this)
    return this.idx(i, ex.ty.elem(v.tid))
@lib('arr::at')
def _(ex, e, this, a): return H['vec::at'](ex, e, this, a)
@lib('vec::operator[]', 'arr::operator[]')
def _(ex, e, this, a):
    this = tolv(ex, this, e['cls'])
    return ex.elem_at(this, idxnum(ex, e['pts'][0], ex.asval(a[0])), e)
@lib('vec::front')
def _(ex, e, this, a): return ex.elem_at(tolv(ex, this, e['cls']), ex.nat(0), e)
@lib('vec::back')
def _(ex, e, this, a):
    this = tolv(ex, this, e['cls']); return ex.elem_at(this, ex.natop('-', ex.vlen(this), ex.nat(1)), e)
@lib('vec::data', 'arr::data')
def _(ex, e, this, a): return Ptr(this, ex.nat(0))
@lib('vec::begin', 'vec::cbegin', 'arr::begin')
def _(ex, e, this, a): return Iter(tolv(ex, this, e['cls']), ex.nat(0))
@lib('vec::end', 'vec::cend', 'arr::end')
def _(ex, e, this, a):
    this = tolv(ex, this, e['cls']); return Iter(this, ex.vlen(this))
@lib('vec::rbegin')
def _(ex, e, this, a): return Iter(this, ex.vlen(this), True)
@lib('vec::rend')
def _(ex, e, this, a): return Iter(this, ex.nat(0), True)
@lib('vec::reserve')
def _(ex, e, this, a):
    n = ex.asval(a[0])
    # vector::reserve throws length_error above max_size
    lim = (2 ** 63 - 1)
    ex.throw_if(ex.fold2(n > lim if not z3.is_bv(n) else z3.UGT(n, z3.BitVecVal(lim, 64))), 'std::length_error', e)
    return None
@lib('vec::shrink_to_fit')
def _(ex, e, this, a): return None
def set_len(ex, lv, n): ex.store(lv.fld('len', None), n)
def push(ex, this, val):
    v = ex.load(this); n = ex.vlen(this)
    el = ex.ty.elem(v.tid)
    ex.store(this.idx(n, el), val)
    set_len(ex, this, ex.natop('+', n, ex.nat(1)))
@lib('vec::push_back', 'vec::push')
def _(ex, e, this, a):
    if is_pq(ex, e): pq_push(ex, this, ex.asval(a[0])); return None
    push(ex, this, ex.asval(a[0])); return None
# ---- std::priority_queue: a bag; top is an element that no element is ordered after
def is_pq(ex, e): return e.get('cls') is not None and ex.ty.T[e['cls']].get('n') == 'std::priority_queue'
def pq_less(ex, e, el, x, y):
    """the comparator applied to two elements"""
    ta = ex.ty.T[e['cls']].get('a') or []; cmp = [t['t'] for t in ta if 't' in t][2:3]
    mk = lambda z: ex.new_root(el, ex.ty.unpack(el, z), 'cmp')
    if cmp:
        nm = ex.ty.name(cmp[0]); fs = [f for f in ex.ast['functions'] if f['q'].endswith('::operator()') and f.get('cls') == cmp[0] and 'body' in f]
        if fs:
            ob = ex.new_root(cmp[0], ex.uninit(cmp[0]), 'comparator'); return ex.asval(ex.call(fs[0], ob, [mk(x), mk(y)], e))
        if 'std::less' in nm and ex.ty.kind(el) in ('int', 'fp'): return ex.compare('<', el, x, y)
        if 'std::greater' in nm and ex.ty.kind(el) in ('int', 'fp'): return ex.compare('>', el, x, y)
        raise Unsupported('comparator %s' % nm)
    if ex.ty.kind(el) in ('int', 'fp'): return ex.compare('<', el, x, y)
    raise Unsupported('default order')
def pq_push(ex, this, val):
    v = ex.load(this); n = ex.vlen(this); el = ex.ty.elem(v.tid); a0 = v.f['arr']; arr = z3.Const(ex.fresh_id('queued'), a0.sort()); j = z3.Const(ex.fresh_id('j'), ex.ty.I)
    ex.fact(z3.Select(arr, n) == ex.ty.pack(el, val)); f = mkImp(z3.And(j >= 0, j < n), z3.Select(arr, j) == z3.Select(a0, j))
    for p in (z3.Select(arr, j), z3.Select(a0, j)): ex.fact(qall([j], f, patterns=[p]))
    ex.store(this, Struct(v.tid, dict(v.f, arr=arr))); set_len(ex, this, ex.natop('+', n, ex.nat(1)))
def pq_top(ex, e, this):
    v = ex.load(this); n = ex.vlen(this); el = ex.ty.elem(v.tid); arr = v.f['arr']; memo = ex.__dict__.setdefault('_pqtop', {}); key = (arr.get_id(), n.get_id())
    ex.oblige('bounds', n > 0, e, 'priority queue is not empty')
    if key not in memo:
        t = z3.Const(ex.fresh_id('top'), ex.ty.I); j = z3.Const(ex.fresh_id('j'), ex.ty.I); x, y = z3.Select(arr, t), z3.Select(arr, j)
        nf = len(ex.facts); b = pq_less(ex, e, el, x, y); extra = ex.facts[nf:]; del ex.facts[nf:]
        for f in extra:
            if j.get_id() not in {c.get_id() for c in consts_of(f)}: ex.facts.append(f)
        ex.facts.append(mkImp(n > 0, z3.And(t >= 0, t < n))); ex.facts.append(qall([j], mkImp(z3.And(j >= 0, j < n), mkNot(b)), patterns=[y]))
        memo[key] = (t, arr, n)
    return memo[key][0], v, n, el
def consts_of(f):
    out = []; todo = [f]; seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x): out.append(x)
        todo += x.children() if not z3.is_quantifier(x) else [x.body()]
    return out
@lib('vec::top')
def _(ex, e, this, a):
    if is_pq(ex, e): t, v, n, el = pq_top(ex, e, this); return this.idx(t, el) if isinstance(this, LVal) else ex.ty.unpack(el, z3.Select(v.f['arr'], t))
    this = tolv(ex, this, e['cls']); return ex.elem_at(this, ex.natop('-', ex.vlen(this), ex.nat(1)), e)
@lib('vec::pop')
def _(ex, e, this, a):
    if not is_pq(ex, e): return H['vec::pop_front' if ex.ty.T[e['cls']].get('n') == 'std::queue' else 'vec::pop_back'](ex, e, this, a)
    t, v, n, el = pq_top(ex, e, this); a0 = v.f['arr']; arr = z3.Const(ex.fresh_id('popped'), a0.sort()); j = z3.Const(ex.fresh_id('j'), ex.ty.I); nm = ex.fresh_id('moved'); src, dst = z3.Function(nm + '_from', ex.ty.I, ex.ty.I), z3.Function(nm + '_to', ex.ty.I, ex.ty.I)
    ex.fact(qall([j], mkImp(z3.And(j >= 0, j < n - 1), z3.And(src(j) >= 0, src(j) < n, src(j) != t, dst(src(j)) == j, z3.Select(arr, j) == z3.Select(a0, src(j)))), patterns=[z3.Select(arr, j)]))
    ex.fact(qall([j], mkImp(z3.And(j >= 0, j < n, j != t), z3.And(dst(j) >= 0, dst(j) < n - 1, src(dst(j)) == j, z3.Select(arr, dst(j)) == z3.Select(a0, j))), patterns=[z3.Select(a0, j)]))
    ex.store(this, Struct(v.tid, dict(v.f, arr=arr))); set_len(ex, this, ex.natop('-', n, ex.nat(1))); return None
@lib('vec::emplace_back', 'vec::emplace_front', 'vec::emplace')
def _(ex, e, this, a):
    if e['name'] != 'emplace_back' and ex.ty.T[e['cls']].get('n') not in ('std::queue', 'std::stack'): raise Unsupported('emplace_front')
    v = ex.load(this); el = ex.ty.elem(v.tid)
    n = ex.vlen(this)
    push(ex, this, emplace_value(ex, e, el, a))
    return this.idx(n, el)
def emplace_value(ex, e, el, a):
    ty = ex.ty; k = ty.kind(el)
    vals = [ex.asval(x) for x in a]
    if len(vals) == 1:
        v = vals[0]
        if isinstance(v, Struct) and v.tid == el: return v
        if k in ('opaque', 'fnobj', 'obj', 'ptr', 'bool') : return v
        if k in ('int', 'fp'):
            src = ty.strip_ref(e['pts'][0])
            return ex.convert(v, src, el, e)
    if len(vals) == 0: return ex.zero(el) if k != 'rec' else default_construct(ex, el, e)
    if k == 'tuple':
        return mk_tuple(ex, el, a, e, [ty.strip_ref(p) for p in e['pts']])
    if k == 'rec': return call_ctor(ex, el, a, e)
    raise Unsupported('emplace of ' + ty.name(el))
def find_ctors(ex, tid):
    return [f for f in ex.ast['functions'] if f.get('isctor') and f.get('cls') == tid]
def default_construct(ex, tid, e):
    for f in find_ctors(ex, tid):
        if not f['ps'] and ('inits' in f or 'body' in f):
            obj = ex.new_root(tid, ex.uninit(tid), 'obj'); ex.call(f, obj, [], e); return ex.load(obj)
    return ex.zero(tid)
def call_ctor(ex, tid, a, e):
    cands = [f for f in find_ctors(ex, tid) if len(f['ps']) == len(a) and ('body' in f)]
    pts = [ex.ty.strip_ref(p) for p in e['pts']]
    best = [f for f in cands if all(ex.ty.strip_ref(p['t']) == q for p, q in zip(f['ps'], pts))]
    if not best: best = [f for f in cands if all(ex.ty.kind(ex.ty.strip_ref(p['t'])) == ex.ty.kind(q) for p, q in zip(f['ps'], pts))]
    if len(best) < 1: raise Unsupported('constructor overload for ' + ex.ty.name(tid))
    f = best[0]
    args = []
    for p, q, v in zip(f['ps'], pts, a):
        if ex.ty.kind(p['t']) != 'ref' and ex.ty.kind(p['t']) in ('int', 'fp', 'bool') and p['t'] != q: v = ex.convert(ex.asval(v), q, p['t'], e)
        args.append(v)
    con = ex.find_contract(f['q'], f, e)
    if con is not None: return con(ex, Call(ex, e, f, None, args))
    obj = ex.new_root(tid, ex.uninit(tid), 'obj')
    ex.call(f, obj, args, e)
    return ex.load(obj)
@lib('vec::pop_back')
def _(ex, e, this, a):
    n = ex.vlen(this)
    ex.oblige('bounds', n > 0, e, 'pop_back on non-empty container'); set_len(ex, this, ex.natop('-', n, ex.nat(1))); return None
@lib('vec::clear')
def _(ex, e, this, a): set_len(ex, this, ex.nat(0)); return None
@lib('vec::swap')
def _(ex, e, this, a):
    x = ex.load(this); y = ex.load(a[0]); ex.store(this, y); ex.store(a[0], x); return None
@lib('vec::operator=', 'map::operator=', 'set::operator=', 'arr::operator=', 'std::pair::operator=', 'std::tuple::operator=', 'std::function::operator=', 'Eigen::Quaternion::operator=', 'std::shared_ptr::operator=')
def _(ex, e, this, a):
    v = ex.asval(a[0])
    if isinstance(v, Ptr) and v.lv is None and ex.ty.kind(e['cls']) == 'fnobj': v = ex.zero(e['cls'])
    if isinstance(v, Special) and v.kind == 'str': v = str_struct(ex, e['cls'], v.d['v'])
    ex.store(this, v); return this
@lib('vec::resize')
def _(ex, e, this, a):
    v = ex.load(this); el = ex.ty.elem(v.tid); n = ex.asval(a[0]); old = ex.vlen(this)
    ex.throw_if(ex.fold2(n > 2 ** 60 if not z3.is_bv(n) else z3.UGT(n, z3.BitVecVal(2 ** 60, 64))), 'std::length_error', e)
    fill = ex.asval(a[1]) if len(a) > 1 else (ex.zero(el) if ex.ty.kind(el) != 'rec' else default_construct(ex, el, e))
    if z3.is_int_value(old) and old.as_long() == 0:
        arr = z3.K(ex.ty.I, ex.ty.pack(('t', el), fill))
    else:
        i = z3.Const(ex.fresh_id('ri'), ex.ty.I)
        arr = z3.Const(ex.fresh_id('rarr'), ex.ty.dsort(dict(ex.ty.fields(v.tid))['arr']))
        ex.fact(qall([i], z3.Select(arr, i) == z3.If(i < old, z3.Select(v.f['arr'], i), ex.ty.pack(('t', el), fill)), patterns=[z3.Select(arr, i)]))
    ex.store(this.fld('arr', None), arr); set_len(ex, this, n); return None
@lib('vec::assign')
def _(ex, e, this, a):
    if len(a) == 2 and not isinstance(ex.asval(a[0]), (Iter, Ptr)):
        v = ex.load(this); el = ex.ty.elem(v.tid)
        ex.store(this.fld('arr', None), z3.K(ex.ty.I, ex.ty.pack(('t', el), ex.asval(a[1])))); set_len(ex, this, ex.asval(a[0])); return None
    b, en = ex.asval(a[0]), ex.asval(a[1])
    n, src = rng(ex, b, en)
    v = ex.load(this)
    ex.store(this.fld('arr', None), copy_arr(ex, v.tid, src, b)); set_len(ex, this, n); return None
def rng(ex, b, en):
    if isinstance(b, Ptr): b = Iter(b.lv, b.off)
    if isinstance(en, Ptr): en = Iter(en.lv, en.off)
    if not (isinstance(b, Iter) and isinstance(en, Iter)) or b.rev != en.rev: raise Unsupported('iterator range')
    if b.rev: return ex.natop('-', b.i, en.i), ex.load(b.lv)
    return ex.natop('-', en.i, b.i), ex.load(b.lv)
def copy_arr(ex, tid, src, b):
    """array whose element j is src[b+j]"""
    if isinstance(b, Ptr): b = Iter(b.lv, b.off)
    if not b.rev and z3.is_int_value(b.i) and b.i.as_long() == 0: return src.f['arr']
    arr = z3.Const(ex.fresh_id('carr'), ex.ty.dsort(('arr', 'nat', ('t', ex.ty.elem(tid)))))
    j = z3.Const(ex.fresh_id('j'), ex.ty.I)
    s = z3.Select(src.f['arr'], b.i + j) if not b.rev else z3.Select(src.f['arr'], b.i - 1 - j)
    ex.fact(qall([j], z3.Select(arr, j) == s, patterns=[z3.Select(arr, j)]))
    return arr
@lib('vec::insert')
def _(ex, e, this, a):
    pos = ex.asval(a[0]); n = ex.vlen(this); v = ex.load(this)
    if len(a) == 3:
        b, en = ex.asval(a[1]), ex.asval(a[2])
        m, src = rng(ex, b, en)
        if isinstance(b, Ptr): b = Iter(b.lv, b.off)
        ex.oblige('bounds', mkAnd(m >= 0, *( [b.i >= 0, b.i + m <= ex.vlen(b.lv)] if not b.rev else [])), e, 'inserted range valid')
        if not pos.i.eq(n) and not is_t(z3.simplify(pos.i == n)):
            arr = z3.Const(ex.fresh_id('iarr'), ex.ty.dsort(('arr', 'nat', ('t', ex.ty.elem(v.tid)))))
            j = z3.Const(ex.fresh_id('j'), ex.ty.I)
            ex.oblige('bounds', mkAnd(pos.i >= 0, pos.i <= n), e, 'insert position valid')
            ex.fact(qall([j], z3.Select(arr, j) == z3.If(j < pos.i, z3.Select(v.f['arr'], j), z3.If(j < pos.i + m, (z3.Select(src.f['arr'], b.i + j - pos.i) if not b.rev else z3.Select(src.f['arr'], b.i - 1 - (j - pos.i))), z3.Select(v.f['arr'], j - m))), patterns=[z3.Select(arr, j)]))
        else:
            arr = z3.Const(ex.fresh_id('iarr'), ex.ty.dsort(('arr', 'nat', ('t', ex.ty.elem(v.tid)))))
            j = z3.Const(ex.fresh_id('j'), ex.ty.I)
            ex.fact(qall([j], z3.Select(arr, j) == z3.If(j < n, z3.Select(v.f['arr'], j), (z3.Select(src.f['arr'], b.i + j - n) if not b.rev else z3.Select(src.f['arr'], b.i - 1 - (j - n)))), patterns=[z3.Select(arr, j)]))
        ex.store(this.fld('arr', None), arr); set_len(ex, this, ex.natop('+', n, m))
        return Iter(this, pos.i)
    if len(a) == 2:
        el = ex.ty.elem(v.tid)
        ex.oblige('bounds', mkAnd(pos.i >= 0, pos.i <= n), e, 'insert position valid')
        arr = z3.Const(ex.fresh_id('iarr'), ex.ty.dsort(('arr', 'nat', ('t', el))))
        j = z3.Const(ex.fresh_id('j'), ex.ty.I)
        val = ex.ty.pack(('t', el), ex.asval(a[1]))
        ex.fact(qall([j], z3.Select(arr, j) == z3.If(j < pos.i, z3.Select(v.f['arr'], j), z3.If(j == pos.i, val, z3.Select(v.f['arr'], j - 1))), patterns=[z3.Select(arr, j)]))
        ex.store(this.fld('arr', None), arr); set_len(ex, this, ex.natop('+', n, ex.nat(1)))
        return Iter(this, pos.i)
    raise Unsupported('insert form')
@lib('vec::erase')
def _(ex, e, this, a):
    v = ex.load(this); n = ex.vlen(this)
    p = ex.asval(a[0]).i; m = ex.nat(1) if len(a) == 1 else ex.asval(a[1]).i - p
    ex.oblige('bounds', mkAnd(p >= 0, m >= 0, p + m <= n, *( [p < n] if len(a) == 1 else [])), e, 'erase position valid')
    arr = z3.Const(ex.fresh_id('earr'), ex.ty.dsort(('arr', 'nat', ('t', ex.ty.elem(v.tid)))))
    j = z3.Const(ex.fresh_id('j'), ex.ty.I)
    ex.fact(qall([j], z3.Select(arr, j) == z3.If(j < p, z3.Select(v.f['arr'], j), z3.Select(v.f['arr'], j + m)), patterns=[z3.Select(arr, j)]))
    ex.store(this.fld('arr', None), arr); set_len(ex, this, ex.natop('-', n, m))
    return Iter(this, p)
@lib('vec::pop_front')
def _(ex, e, this, a):
    v = ex.load(this); n = ex.vlen(this)
    ex.oblige('bounds', n > 0, e, 'pop_front on non-empty container')
    arr = z3.Const(ex.fresh_id('parr'), ex.ty.dsort(('arr', 'nat', ('t', ex.ty.elem(v.tid)))))
    j = z3.Const(ex.fresh_id('j'), ex.ty.I)
    ex.fact(qall([j], z3.Select(arr, j) == z3.Select(v.f['arr'], j + 1), patterns=[z3.Select(arr, j)]))
    ex.fact(qall([j], z3.Select(arr, j - 1) == z3.Select(v.f['arr'], j), patterns=[z3.Select(v.f['arr'], j)]))
    ex.store(this.fld('arr', None), arr); set_len(ex, this, ex.natop('-', n, ex.nat(1))); return None

@ctor('std::vector', 'std::deque', 'std::list', 'std::queue', 'std::stack', 'std::basic_string')
def _(ex, e, tid, args):
    ty = ex.ty; el = ty.elem(tid)
    if not args: return ex.zero(tid)
    if e.get('ilist'):
        v = ex.ev(args[0])
        v = ex.asval(v)
        if isinstance(v, Struct):
            if ty.kind(v.tid) == 'arr': return Struct(tid, {'len': ex.nat(ty.arrlen(v.tid)), 'arr': v.f['arr']})
            return Struct(tid, {'len': v.f['len'], 'arr': v.f['arr']})
        raise Unsupported('initializer list')
    vals = [ex.rv(a) for a in args if not is_alloc(ex, a)]
    if vals and isinstance(vals[0], Special) and vals[0].kind == 'str': return str_struct(ex, tid, vals[0].d['v'])
    if len(vals) >= 2 and isinstance(vals[0], (Iter, Ptr)):
        n, src = rng(ex, vals[0], vals[1]) if isinstance(vals[1], (Iter, Ptr)) else (vals[1], ex.load(vals[0].lv))
        b = vals[0]
        if isinstance(b, Ptr): b = Iter(b.lv, b.off)
        if not b.rev: ex.oblige('bounds', mkAnd(n >= 0, b.i >= 0, b.i + n <= ex.vlen(b.lv)), e, 'constructed from a valid range')
        return Struct(tid, {'len': n, 'arr': copy_arr(ex, tid, src, vals[0])})
    n = vals[0]
    if isinstance(n, Struct) and n.tid == tid: return n
    if isinstance(n, Struct) and ty.kind(n.tid) == 'arr': return Struct(tid, {'len': ex.nat(ty.arrlen(n.tid)), 'arr': n.f['arr']})
    if isinstance(n, Struct) and 'initializer_list' in ty.name(n.tid): return Struct(tid, {'len': n.f['len'], 'arr': n.f['arr']})
    if z3.is_bv(n) and not ty.natbv: n = z3.BV2Int(n)
    ex.throw_if(ex.fold2(n > 2 ** 60 if not z3.is_bv(n) else z3.UGT(n, z3.BitVecVal(2 ** 60, 64))), 'std::length_error', e)
    fill = vals[1] if len(vals) > 1 else (ex.zero(el) if ty.kind(el) != 'rec' else default_construct(ex, el, e))
    return Struct(tid, {'len': n, 'arr': const_arr(ex, el, fill)})
def const_arr(ex, el, fill): 
    return z3.K(ex.ty.I, ex.ty.pack(('t', el), fill))
def is_alloc(ex, a):
    return 'allocator' in ex.ty.name(a['t'])
def str_struct(ex, tid, s):
    arr = z3.Const(ex.fresh_id('str'), ex.ty.dsort(('arr', 'nat', ('t', ex.ty.elem(tid)))))
    if len(s) <= 128:
        for i, c in enumerate(s): arr = z3.Store(arr, ex.nat(i), ex.intval(ex.ty.elem(tid), ord(c)))
    return Struct(tid, {'len': ex.nat(len(s)), 'arr': arr})
def str_index(ex, a, i, e):
    raise Unsupported('string literal index')

@ctor('std::array')
def _(ex, e, tid, args): return ex.uninit(tid) if not e.get('zero') else ex.zero(tid)
@ctor('arr')
def _(ex, e, tid, args):
    el = ex.ty.elem(tid)
    if ex.ty.kind(el) == 'rec': return Struct(tid, {'arr': const_arr(ex, el, default_construct(ex, el, e))})
    if ex.ty.kind(el) in ('vec', 'map', 'set'): return ex.zero(tid)
    return ex.uninit(tid)

# ------------------------------------------------------------------ pair / tuple
def mk_tuple(ex, tid, a, e, srcs):
    ty = ex.ty; f = {}
    vals = [ex.asval(x) for x in a]
    for (n, d), v, s in zip(ty.fields(tid), vals, srcs):
        if ty.kind(d[1]) in ('int', 'fp', 'bool') and s != d[1]: v = ex.convert(v, s, d[1], e)
        f[n] = v
    return Struct(tid, f)
@ctor('std::pair', 'std::tuple')
def _(ex, e, tid, args):
    if not args: return ex.zero(tid)
    if len(args) == 1 and len(ex.ty.fields(tid)) != 1:
        v = ex.rv(args[0])
        if isinstance(v, Struct):
            f = {}
            for (n, d), (m, d2) in zip(ex.ty.fields(tid), ex.ty.fields(v.tid)):
                x = v.f[m]
                if ex.ty.kind(d[1]) in ('int', 'fp', 'bool') and d[1] != d2[1]: x = ex.convert(x, d2[1], d[1], e)
                f[n] = x
            return Struct(tid, f)
    return mk_tuple(ex, tid, [ex.ev(a) for a in args], e, [a['t'] for a in args])
@lib('std::make_pair', 'std::make_tuple', 'std::tie', 'std::forward_as_tuple')
def _(ex, e, this, a):
    return mk_tuple(ex, e['t'], a, e, [ex.ty.strip_ref(p) for p in e['pts']])
@lib('std::get')
def _(ex, e, this, a):
    ta = e.get('ta') or []
    i = None
    if ta and 'v' in ta[0]: i = int(ta[0]['v'])
    if i is None: raise Unsupported('std::get by type')
    o = a[0] if isinstance(a[0], (LVal, LChoice)) else ex.new_root(ex.ty.strip_ref(e['pts'][0]), a[0])
    v = ex.load(o)
    if ex.ty.kind(v.tid) == 'arr': return o.idx(ex.nat(i), ex.ty.elem(v.tid))
    n, d = ex.ty.fields(v.tid)[i]
    return o.fld(n, d[1])
@lib('std::move', 'std::forward', 'std::as_const')
def _(ex, e, this, a): return a[0]
@lib('std::addressof')
def _(ex, e, this, a): return ex.addrof(a[0])
@lib('std::swap')
def _(ex, e, this, a):
    x = ex.load(a[0]); y = ex.load(a[1]); ex.store(a[0], y); ex.store(a[1], x); return None
@lib('std::iter_swap')
def _(ex, e, this, a):
    p = [ex.deref(ex.asval(x), e) for x in a]
    x = ex.load(p[0]); y = ex.load(p[1]); ex.store(p[0], y); ex.store(p[1], x); return None

# ------------------------------------------------------------------ maps and sets
def msize(ex, v):
    ex.ground_nat(v.f['size']); return v.f['size']
def mkey(ex, this, k):
    v = ex.load(this)
    return ex.ty.pack(('t', ex.ty.T[v.tid]['a'][0]['t']), k)
@lib('map::size', 'set::size')
def _(ex, e, this, a): return msize(ex, ex.asval(this))
@lib('map::empty', 'set::empty')
def _(ex, e, this, a): return ex.fold(msize(ex, ex.asval(this)) == ex.nat(0))
@lib('map::clear', 'set::clear')
def _(ex, e, this, a):
    v = ex.load(this); kt = ex.ty.T[v.tid]['a'][0]['t']
    ex.store(this.fld('has', None), z3.K(ex.ty.sort(kt), z3.BoolVal(False))); ex.store(this.fld('size', None), ex.nat(0)); return None
@lib('map::reserve', 'set::reserve', 'map::rehash')
def _(ex, e, this, a): return None
@lib('map::count', 'set::count', 'map::contains', 'set::contains')
def _(ex, e, this, a):
    v = ex.load(this); k = mkey(ex, this, ex.asval(a[0]))
    h = ex.sel(v.f['has'], k)
    pos_fact(ex, v, k)
    return mkIf(h, ex.nat(1), ex.nat(0)) if e['name'] == 'count' else h
def pos_fact(ex, v, k):
    ex.fact(mkImp(z3.Select(v.f['has'], k), v.f['size'] >= 1))
@lib('map::find', 'set::find')
def _(ex, e, this, a):
    v = ex.load(this); k = mkey(ex, this, ex.asval(a[0])); pos_fact(ex, v, k)
    return MapIter(this, mkNot(ex.sel(v.f['has'], k)), k)
@lib('map::end', 'set::end', 'map::cend', 'set::cend')
def _(ex, e, this, a):
    v = ex.load(this); kt = ex.ty.T[v.tid]['a'][0]['t']
    return MapIter(this, z3.BoolVal(True), z3.Const('anykey_%d' % kt, ex.ty.sort(kt)))
@lib('map::begin', 'set::begin', 'map::cbegin', 'set::cbegin')
def _(ex, e, this, a):
    v = ex.load(this); kt = ex.ty.T[v.tid]['a'][0]['t']
    keys, n = enumerate_keys(ex, v)
    return EIter(this, ex.nat(0), keys, n)
@lib('map::at')
def _(ex, e, this, a):
    v = ex.load(this); k = mkey(ex, this, ex.asval(a[0]))
    ex.throw_if(mkNot(ex.sel(v.f['has'], k)), 'std::out_of_range', e)
    return this.key(k, dict(ex.ty.fields(v.tid))['val'][2][1])
def map_put(ex, this, k, val, only_if_absent, cond=None):
    v = ex.load(this)
    h = ex.sel(v.f['has'], k)
    pos_fact(ex, v, k)
    ex.store(this.fld('has', None), ex.mkstore(v.f['has'], k, z3.BoolVal(True)))
    ex.store(this.fld('size', None), mkIf(h, v.f['size'], ex.natop('+', v.f['size'], ex.nat(1))))
    if 'val' in v.f and val is not None:
        vt = dict(ex.ty.fields(v.tid))['val'][2][1]
        pv = ex.ty.pack(('t', vt), val)
        nv = mkIf(h, ex.sel(v.f['val'], k), pv) if only_if_absent else pv
        ex.store(this.fld('val', None), ex.mkstore(v.f['val'], k, nv))
    return h
@lib('map::operator[]')
def _(ex, e, this, a):
    v = ex.load(this); k = mkey(ex, this, ex.asval(a[0])); vt = dict(ex.ty.fields(v.tid))['val'][2][1]
    dv = ex.zero(vt) if ex.ty.kind(vt) != 'rec' else default_construct(ex, vt, e)
    map_put(ex, this, k, dv, True)
    return this.key(k, vt)
def pair_iter_bool(ex, e, it, b):
    return Struct(e['t'], {'first': it, 'second': b})
@lib('map::insert', 'map::emplace', 'map::insert_or_assign', 'map::try_emplace')
def _(ex, e, this, a):
    if len(a) == 1:
        p = ex.asval(a[0])
        if not (isinstance(p, Struct) and 'first' in p.f): raise Unsupported('map insert')
        kk, val = p.f['first'], p.f['second']
    elif len(a) == 2 and e['name'] in ('emplace', 'insert_or_assign', 'try_emplace'): 
        kk, val = ex.asval(a[0]), ex.asval(a[1])
        v = ex.load(this); vt = dict(ex.ty.fields(v.tid))['val'][2][1]; kt = ex.ty.T[v.tid]['a'][0]['t']
        st = ex.ty.strip_ref(e['pts'][-1]); sk = ex.ty.strip_ref(e['pts'][0])
        if ex.ty.kind(vt) in ('int', 'fp') and st != vt: val = ex.convert(val, st, vt, e)
        if ex.ty.kind(kt) in ('int', 'fp') and sk != kt: kk = ex.convert(kk, sk, kt, e)
    else: raise Unsupported('map insert form')
    k = mkey(ex, this, kk)
    h = map_put(ex, this, k, val, e['name'] != 'insert_or_assign')
    if ex.ty.kind(e['t']) == 'tuple': return pair_iter_bool(ex, e, MapIter(this, z3.BoolVal(False), k), mkNot(h))
    return MapIter(this, z3.BoolVal(False), k)
@lib('set::insert', 'set::emplace')
def _(ex, e, this, a):
    if len(a) != 1: raise Unsupported('set insert form')
    k = mkey(ex, this, ex.asval(a[0])); h = map_put(ex, this, k, None, True)
    if ex.ty.kind(e['t']) == 'tuple': return pair_iter_bool(ex, e, MapIter(this, z3.BoolVal(False), k), mkNot(h))
    return MapIter(this, z3.BoolVal(False), k)
@lib('map::erase', 'set::erase')
def _(ex, e, this, a):
    v = ex.load(this); x = ex.asval(a[0])
    if isinstance(x, MapIter):
        ex.oblige('bounds', mkNot(x.end), e, 'erased iterator is valid'); k = x.key
    else: k = mkey(ex, this, x)
    h = ex.sel(v.f['has'], k); pos_fact(ex, v, k)
    ex.store(this.fld('has', None), ex.mkstore(v.f['has'], k, z3.BoolVal(False)))
    ex.store(this.fld('size', None), mkIf(h, ex.natop('-', v.f['size'], ex.nat(1)), v.f['size']))
    if isinstance(x, MapIter): return MapIter(this, z3.BoolVal(False), z3.Const(ex.fresh_id('nextkey'), k.sort()))
    return mkIf(h, ex.nat(1), ex.nat(0))
@ctor('map', 'set', 'std::map', 'std::unordered_map', 'std::set', 'std::unordered_set')
def _(ex, e, tid, args):
    if not args: return ex.zero(tid)
    if e.get('pts') and ex.ty.kind(ex.ty.strip_ref(e['pts'][0])) == 'int': return ex.zero(tid)   # bucket count (and hash / equality objects)
    if ex.ty.kind(tid) == 'set' and e.get('pts') and ex.ty.T[ex.ty.strip_ref(e['pts'][0])].get('n') == 'std::initializer_list':
        v = ex.asval(ex.ev(args[0])); n = ex.ty.T[v.tid]['n'] if ex.ty.T[v.tid]['k'] == 'arr' else None
        if n is not None:
            lv = ex.new_root(tid, ex.zero(tid), 'set')
            for i in range(n): map_put(ex, lv, mkey(ex, lv, ex.ty.unpack(ex.ty.elem(v.tid), ex.sel(v.f['arr'], ex.nat(i)))), None, True)
            return ex.load(lv)
    raise Unsupported('associative container constructor')
@ctor('z_stream_s')
def _(ex, e, tid, args): return ex.uninit(tid)
@ctor('std::basic_ifstream', 'std::basic_ofstream')
def _(ex, e, tid, args):
    f = ex.task.data.get('file_opened')
    if f is None: raise Unsupported('file stream')
    f(ex, e, [ex.rv(x) for x in args]); return Special('obj', tid=tid)
@ctor('std::priority_queue')
def _(ex, e, tid, args):
    if not args: return ex.zero(tid)
    raise Unsupported('priority_queue constructor')
def enumerate_keys(ex, v):
    """iteration order of an associative container: some enumeration of its keys without repetition"""
    kt = ex.ty.T[v.tid]['a'][0]['t']; ks = ex.ty.sort(kt)
    cache = getattr(ex, '_enum', None)
    if cache is None: cache = ex._enum = {}
    c = (v.f['has'].get_id(), v.f['size'].get_id())
    if c not in cache:
        nm = ex.fresh_id('keys')
        cache[c] = (z3.Const(nm, z3.ArraySort(ex.ty.I, ks)), z3.Function(nm + '_pos', ks, ex.ty.I), v.f)
    keys, pos, _ = cache[c]
    n = msize(ex, v)
    i = z3.Const(ex.fresh_id('i'), ex.ty.I); x = z3.Const(ex.fresh_id('x'), ks)
    ex.fact(qall([x], mkImp(z3.Select(v.f['has'], x), z3.And(pos(x) >= 0, pos(x) < n, z3.Select(keys, pos(x)) == x)), patterns=[z3.Select(v.f['has'], x)]))
    ex.fact(qall([i], mkImp(z3.And(i >= 0, i < n), z3.And(z3.Select(v.f['has'], z3.Select(keys, i)), pos(z3.Select(keys, i)) == i)), patterns=[z3.Select(keys, i)]))
    ex.keypos = getattr(ex, 'keypos', {}); ex.keypos[keys.get_id()] = pos
    return keys, n
def key_pos_fact(ex, keys, i, n):
    pos = ex.keypos[keys.get_id()]
    ex.fact(mkImp(z3.And(i >= 0, i < n), pos(z3.Select(keys, i)) == i))

# ------------------------------------------------------------------ numeric helpers
def cmpkind(ex, e): return ex.ty.strip_ref(e['pts'][0])
@lib('std::min', 'std::max')
def _(ex, e, this, a):
    t = cmpkind(ex, e)
    if len(a) == 1: raise Unsupported('std::min of list')
    x, y = ex.asval(a[0]), ex.asval(a[1])
    if e['name'] == 'min': return mkIf(ex.compare('<', t, y, x), y, x)
    return mkIf(ex.compare('<', t, x, y), y, x)
@lib('std::abs', 'abs', 'fabs', 'std::fabs')
def _(ex, e, this, a):
    x = ex.asval(a[0]); t = e['t']
    if ex.ty.kind(t) == 'fp':
        return z3.fpAbs(x) if ex.ty.fpmode == 'fp' else z3.If(x >= 0, x, -x)
    return mkIf(ex.compare('>=', t, x, ex.intval(t, 0)), x, ex.arith('-', t, ex.intval(t, 0), x, e))
@lib('std::isnan', 'isnan')
def _(ex, e, this, a):
    x = ex.asval(a[0])
    return z3.fpIsNaN(x) if ex.ty.fpmode == 'fp' else z3.BoolVal(False)
@lib('std::isinf', 'isinf')
def _(ex, e, this, a):
    x = ex.asval(a[0])
    return z3.fpIsInf(x) if ex.ty.fpmode == 'fp' else mkOr(x >= ex.inf(), x <= -ex.inf())
@lib('std::isfinite', 'isfinite')
def _(ex, e, this, a):
    x = ex.asval(a[0])
    return mkNot(mkOr(z3.fpIsNaN(x), z3.fpIsInf(x))) if ex.ty.fpmode == 'fp' else mkAnd(x < ex.inf(), x > -ex.inf())
@lib('std::numeric_limits::infinity')
def _(ex, e, this, a): return ex.inf() if ex.ty.fpmode == 'real' else z3.fpPlusInfinity(ex.ty.sort(e['t']))
@lib('std::numeric_limits::quiet_NaN')
def _(ex, e, this, a):
    if ex.ty.fpmode == 'fp': return z3.fpNaN(ex.ty.sort(e['t']))
    raise Unsupported('NaN in real mode')
@lib('std::numeric_limits::max', 'std::numeric_limits::min', 'std::numeric_limits::lowest', 'std::numeric_limits::epsilon')
def _(ex, e, this, a):
    t = e['t']; k = ex.ty.kind(t)
    if k == 'int':
        w, sg = ex.ty.ibits(t)
        if e['name'] == 'max': return ex.intval(t, (1 << (w - 1)) - 1 if sg else (1 << w) - 1)
        return ex.intval(t, -(1 << (w - 1)) if sg else 0)
    import sys
    m = sys.float_info.max
    if ex.ty.T[t]['w'] != 64: raise Unsupported('float limits')
    return ex.fpval(t, {'max': m, 'lowest': -m, 'min': sys.float_info.min, 'epsilon': sys.float_info.epsilon}[e['name']])
def rnd(mode):
    def h(ex, e, this, a):
        x = ex.asval(a[0])
        if ex.ty.fpmode == 'fp':
            if ex.mode.get('fparith') == 'uf': return ex.uf(mode + '_fp', x.sort(), x.sort())(x)
            return z3.fpRoundToIntegral({'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA()}[mode], x)
        big = z3.Or(x >= ex.inf(), x <= -ex.inf())
        r = {'floor': z3.ToReal(z3.ToInt(x)), 'ceil': -z3.ToReal(z3.ToInt(-x)), 'trunc': z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x))),
             'round': z3.If(x >= 0, z3.ToReal(z3.ToInt(x + z3.RealVal('1/2'))), -z3.ToReal(z3.ToInt(-x + z3.RealVal('1/2'))))}[mode]
        return r
    return h
for m in ('floor', 'ceil', 'trunc', 'round'):
    H['std::' + m] = H[m] = rnd(m)
def ufun(name, facts=None):
    def h(ex, e, this, a):
        xs = [ex.asval(x) for x in a]
        s = ex.ty.sort(e['t'])
        f = ex.uf('m_' + name, *([x.sort() for x in xs] + [s]))
        r = f(*xs)
        if ex.ty.fpmode == 'real':
            ex.ground_range(e['t'], r)
            if facts:
                for g in facts(r, *xs): ex.fact(g)
            if ex.mode.get('fparith') in ('exact', 'extended'):
                for g in EXACT.get(name, lambda ex, r, *x: [])(ex, r, *xs): ex.fact(g)
        return r
    return h
def _pythagoras(ex, r, x):
    o = [ex.uf('m_' + n, x.sort(), x.sort())(x) for n in ('sin', 'cos')]; return [o[0] * o[0] + o[1] * o[1] == 1]
PIQ = z3.RealVal('884279719003555/281474976710656')
# what the exact functions satisfy (assumed in exact arithmetic)
EXACT = {'sqrt': lambda ex, r, x: [mkImp(z3.And(x >= 0, x < ex.inf()), r * r == x)], 'sin': _pythagoras, 'cos': _pythagoras, 'acos': lambda ex, r, x: [mkImp(z3.And(x >= -1, x <= 1), z3.And(r >= 0, r <= PIQ))], 'pow': lambda ex, r, x, y: [mkImp(z3.And(y == 2, x < ex.inf(), x > -ex.inf()), r == x * x)]}
for n, fc in (('sqrt', lambda r, x: [mkImp(x >= 0, r >= 0), mkImp(x == 0, r == 0), mkImp(x > 0, r > 0)]), ('cos', lambda r, x: [r >= -1, r <= 1]), ('sin', lambda r, x: [r >= -1, r <= 1]),
              ('atan2', None), ('acos', None), ('asin', None), ('exp', lambda r, x: [r >= 0]), ('log', None), ('pow', None), ('tan', None), ('atan', None), ('nextafter', None)):
    H['std::' + n] = H[n] = ufun(n, fc)

@lib('std::lock_guard::lock_guard')
def _(ex, e, this, a): return None
@lib('std::distance')
def _(ex, e, this, a):
    x, y = ex.asval(a[0]), ex.asval(a[1]); return ex.natop('-', y.i, x.i)
@lib('std::next', 'std::prev')
def _(ex, e, this, a):
    x = ex.asval(a[0]); n = ex.asval(a[1]) if len(a) > 1 else ex.nat(1)
    return Iter(x.lv, ex.natop('+' if e['name'] == 'next' else '-', x.i, n), x.rev)
@lib('std::begin', 'std::cbegin')
def _(ex, e, this, a): return Iter(a[0], ex.nat(0))
@lib('std::end', 'std::cend')
def _(ex, e, this, a): return Iter(a[0], ex.vlen(a[0]))
@lib('std::reverse')
def _(ex, e, this, a):
    b, en = ex.asval(a[0]), ex.asval(a[1])
    v = ex.load(b.lv); n = ex.vlen(b.lv)
    if not (is_t(z3.simplify(b.i == 0)) and is_t(z3.simplify(en.i == n))): raise Unsupported('partial reverse')
    arr = z3.Const(ex.fresh_id('rev'), v.f['arr'].sort()); j = z3.Const(ex.fresh_id('j'), ex.ty.I)
    ex.fact(qall([j], mkImp(z3.And(j >= 0, j < n), z3.Select(arr, j) == z3.Select(v.f['arr'], n - 1 - j)), patterns=[z3.Select(arr, j)]))
    ex.store(b.lv.fld('arr', None), arr); return None
@lib('std::fill')
def _(ex, e, this, a):
    b, en = ex.asval(a[0]), ex.asval(a[1]); v = ex.load(b.lv); n = ex.vlen(b.lv)
    val = ex.ty.pack(('t', ex.ty.elem(v.tid)), ex.asval(a[2]))
    arr = z3.Const(ex.fresh_id('fill'), v.f['arr'].sort()); j = z3.Const(ex.fresh_id('j'), ex.ty.I)
    ex.fact(qall([j], z3.Select(arr, j) == z3.If(z3.And(j >= b.i, j < en.i), val, z3.Select(v.f['arr'], j)), patterns=[z3.Select(arr, j)]))
    ex.store(b.lv.fld('arr', None), arr); return None
@lib('std::copy')
def _(ex, e, this, a):
    b, en, o = [ex.asval(x) for x in a]
    n, src = rng(ex, b, en)
    if isinstance(b, Ptr): b = Iter(b.lv, b.off)
    if isinstance(o, Ptr): o = Iter(o.lv, o.off)
    if not isinstance(o, Iter): raise Unsupported('std::copy destination')
    v = ex.load(o.lv)
    ex.oblige('bounds', mkAnd(n >= 0, b.i >= 0, b.i + n <= ex.vlen(b.lv), o.i >= 0, o.i + n <= ex.vlen(o.lv)), e, 'copied ranges valid')
    arr = z3.Const(ex.fresh_id('cp'), v.f['arr'].sort()); j = z3.Const(ex.fresh_id('j'), ex.ty.I)
    ex.fact(qall([j], z3.Select(arr, j) == z3.If(z3.And(j >= o.i, j < o.i + n), z3.Select(src.f['arr'], b.i + j - o.i), z3.Select(v.f['arr'], j)), patterns=[z3.Select(arr, j)]))
    ex.store(o.lv.fld('arr', None), arr); return Iter(o.lv, o.i + n)
@lib('std::find')
def _(ex, e, this, a):
    b, en = ex.asval(a[0]), ex.asval(a[1]); v = ex.load(b.lv); el = ex.ty.elem(v.tid)
    x = ex.ty.pack(('t', el), ex.asval(a[2]))
    r = ex.fresh_desc('nat', 'found'); j = z3.Const(ex.fresh_id('j'), ex.ty.I)
    ex.assume(z3.And(r >= b.i, r <= en.i, mkImp(r < en.i, z3.Select(v.f['arr'], r) == x), qall([j], mkImp(z3.And(j >= b.i, j < r), z3.Select(v.f['arr'], j) != x), patterns=[z3.Select(v.f['arr'], j)])))
    return Iter(b.lv, r)
@lib('std::sort', 'std::stable_sort', 'std::nth_element', 'std::partial_sort')
def _(ex, e, this, a):
    """permutation of the range; sortedness only w.r.t. the comparator evaluated symbolically is left to overrides"""
    b, en = ex.asval(a[0]), ex.asval(a[1]); v = ex.load(b.lv); n = ex.vlen(b.lv)
    arr = z3.Const(ex.fresh_id('sorted'), v.f['arr'].sort())
    nm = ex.fresh_id('perm'); p = z3.Function(nm, ex.ty.I, ex.ty.I); pi = z3.Function(nm + 'i', ex.ty.I, ex.ty.I)
    j = z3.Const(ex.fresh_id('j'), ex.ty.I)
    lo, hi = b.i, en.i; ex.perms = getattr(ex, 'perms', []) + [(p, pi)]
    if e['name'] in ('nth_element', 'partial_sort'):
        hi = ex.asval(a[2]).i; ex.oblige('bounds', z3.And(lo <= en.i, en.i <= hi), e, 'middle position inside the range')
    ex.oblige('bounds', z3.And(lo >= 0, lo <= hi, hi <= n), e, 'sorted range valid')
    ex.fact(qall([j], mkImp(z3.And(j >= lo, j < hi), z3.And(p(j) >= lo, p(j) < hi, pi(p(j)) == j, z3.Select(arr, j) == z3.Select(v.f['arr'], p(j)))), patterns=[z3.Select(arr, j)]))
    ex.fact(qall([j], mkImp(z3.And(j >= lo, j < hi), z3.And(pi(j) >= lo, pi(j) < hi, p(pi(j)) == j, z3.Select(arr, pi(j)) == z3.Select(v.f['arr'], j))), patterns=[z3.Select(v.f['arr'], j)]))
    if not (is_t(z3.simplify(lo == 0)) and is_t(z3.simplify(hi == n))):
        ex.fact(qall([j], mkImp(z3.Or(j < lo, j >= hi), z3.Select(arr, j) == z3.Select(v.f['arr'], j)), patterns=[z3.Select(arr, j)]))
    if len(a) in (2, 3, 4):
        comp = ex.asval(a[-1]) if len(a) == (4 if e['name'] in ('nth_element', 'partial_sort') else 3) else None
        el = ex.ty.elem(v.tid)
        def less(x, y):
            if comp is None:
                if ex.ty.kind(el) in ('int', 'fp'): return ex.compare('<', el, x, y)
                raise Unsupported('default order')
            rt = lambda z: ex.new_root(el, ex.ty.unpack(el, z), 'cmp')
            no = len(ex.obls)
            r = ex.asval(ex.invoke(comp, [rt(x), rt(y)], e))
            return r
        j1 = z3.Const(ex.fresh_id('ja'), ex.ty.I); j2 = z3.Const(ex.fresh_id('jb'), ex.ty.I)
        nf = len(ex.facts)
        body = mkNot(less(z3.Select(arr, j2), z3.Select(arr, j1)))
        extra = ex.facts[nf:]; del ex.facts[nf:]
        x, y = (lo, hi)
        if e['name'] == 'nth_element':
            nth = ex.asval(a[1]).i
            ex.fact(qall([j1, j2], mkImp(z3.And(lo <= j1, j1 <= nth, nth <= j2, j2 < hi, j1 < j2), body), patterns=mpat(z3.Select(arr, j1), z3.Select(arr, j2))))
        elif e['name'] == 'partial_sort':
            mid = ex.asval(a[1]).i
            ex.fact(qall([j1, j2], mkImp(z3.And(lo <= j1, j1 < mid, j1 < j2, j2 < hi), body), patterns=mpat(z3.Select(arr, j1), z3.Select(arr, j2))))
        else:
            ex.fact(qall([j1, j2], mkImp(z3.And(lo <= j1, j1 < j2, j2 < hi), body), patterns=mpat(z3.Select(arr, j1), z3.Select(arr, j2))))
    ex.store(b.lv.fld('arr', None), arr); return None
@lib('std::operator|')
def _(ex, e, this, a):
    x, y = [z3.simplify(ex.asval(v)) for v in a]
    if z3.is_int_value(x) and z3.is_int_value(y) and ex.ty.kind(ex.ty.strip_ref(e['pts'][0])) == 'int': return z3.IntVal(x.as_long() | y.as_long())   # flags of a file stream
    raise Unsupported('library operator |')
@lib('std::operator==', 'std::operator!=')
def _(ex, e, this, a):
    t = ex.ty.strip_ref(e['pts'][0])
    x, y = ex.asval(a[0]), ex.asval(a[1])
    r = ex_eq(ex, t, x, y)
    return r if e['name'] == 'operator==' else mkNot(r)
@lib('std::to_string', 'std::operator+', 'std::operator<<')
def _(ex, e, this, a):
    if ex.ty.kind(e['t']) == 'vec': return ex.fresh(e['t'], 'str')
    return a[0]
@lib('vec::operator+=', 'vec::append')
def _(ex, e, this, a): 
    if ex.ty.T[e['cls']].get('n') != 'std::basic_string': raise Unsupported('append')
    ex.store(this, ex.fresh(e['cls'], 'str')); return this

# ------------------------------------------------------------------ smart pointers, functions, exceptions, time
@lib('std::__shared_ptr_access::operator*', 'std::__shared_ptr_access::operator->', 'std::shared_ptr::operator*', 'std::shared_ptr::operator->', 'std::unique_ptr::operator*', 'std::unique_ptr::operator->')
def _(ex, e, this, a):
    p = ex.asval(this)
    lv = ex.deref(p, e)
    return Ptr(lv) if e['name'] == 'operator->' else lv
@lib('std::__shared_ptr::get', 'std::unique_ptr::get')
def _(ex, e, this, a): return ex.asval(this)
@lib('std::__shared_ptr::operator bool', 'std::unique_ptr::operator bool', 'std::function::operator bool', 'std::shared_ptr::operator bool')
def _(ex, e, this, a): return ex.truth(ex.asval(this))
@lib('std::make_shared', 'std::make_unique')
def _(ex, e, this, a):
    t = ex.ty.T[e['t']]['a'][0]['t']
    return Ptr(ex.new_root(t, emplace_value(ex, e, t, a), 'heap'))
@ctor('ptr', 'std::shared_ptr', 'std::unique_ptr')
def _(ex, e, tid, args):
    if not args: return Ptr(None)
    return ex.rv(args[0])
@lib('std::__exception_ptr::exception_ptr::operator bool', 'std::exception_ptr::operator bool')
def _(ex, e, this, a): return ex.asval(this)
@lib('std::__exception_ptr::exception_ptr::operator=', 'std::exception_ptr::operator=')
def _(ex, e, this, a): ex.store(this, ex.asval(a[0])); return this
@lib('std::current_exception')
def _(ex, e, this, a): return z3.BoolVal(True)
@lib('std::rethrow_exception')
def _(ex, e, this, a):
    from .sym import Thrown
    ex.throws.append(Thrown(ex.st, 'rethrown', e, ex.frames[-1].fn if ex.frames else None)); ex.die()
@ctor('bool')
def _(ex, e, tid, args): return z3.BoolVal(False) if not args else ex.rv(args[0])
@ctor('future')
def _(ex, e, tid, args): return ex.zero(tid) if not args else ex.rv(args[0])
@lib('std::async')
def _(ex, e, this, a):
    """assumed: runs the callable exactly once (sequentialised at the launch point); the future holds its result or exception"""
    ft = e['t']; fn = ex.asval(a[1])
    args = []
    srcs = [ex.ty.strip_ref(p) for p in e['pts'][2:]]
    f = ex.F.get(fn.fn) if isinstance(fn, Closure) else None
    for i, x in enumerate(a[2:]):
        v = ex.asval(x)
        if f is not None:
            pt = ex.ty.strip_ref(f['ps'][i]['t'])
            if ex.ty.kind(pt) in ('int', 'fp', 'bool') and pt != srcs[i]: v = ex.convert(v, srcs[i], pt, e)
        args.append(v)
    saved = ex.throws; ex.throws = []
    key = ex.fresh_id('fut'); ex.rootinfo[key] = (ft, 'fut')
    s0 = ex.st
    outs = []
    fs = dict(ex.ty.fields(ft))
    try:
        r = ex.asval(ex.invoke(fn, args, e))
        ex.st.roots[key] = Struct(ft, {'exc': z3.BoolVal(False), 'val': r if fs['val'] != 'nat' else ex.nat(0)})
        outs.append(ex.st)
    except Dead: pass
    for t in ex.throws:
        t.st.roots[key] = Struct(ft, {'exc': z3.BoolVal(True), 'val': ex.fresh_desc(fs['val'], 'noval')})
        outs.append(t.st)
    ex.throws = saved
    ex.st = ex.merge(outs)
    return ex.st.roots.pop(key)
@lib('std::future::get')
def _(ex, e, this, a):
    v = ex.load(this)
    ex.throw_if(v.f['exc'], 'rethrown', e)
    return v.f['val'] if dict(ex.ty.fields(v.tid))['val'] != 'nat' else None
@lib('std::future::wait', 'std::condition_variable::notify_all', 'std::condition_variable::notify_one', 'std::condition_variable::wait', 'std::unique_lock::unlock', 'std::unique_lock::lock', 'std::mutex::lock', 'std::mutex::unlock')
def _(ex, e, this, a): return None
@lib('std::future::wait_for', 'std::__basic_future::wait_for')
def _(ex, e, this, a): return ex.fresh(e['t'], 'fstatus')
@lib('std::chrono::_V2::steady_clock::now', 'std::chrono::steady_clock::now')
def _(ex, e, this, a): return Special('time')
@lib('std::chrono::operator-')
def _(ex, e, this, a): return Special('time')
@lib('std::chrono::duration::count')
def _(ex, e, this, a): return ex.fresh(e['t'], 'dur')

# ------------------------------------------------------------------ Eigen (fixed and dynamic dense matrices)
@lib('mat::rows', 'Eigen::EigenBase::rows')
def _(ex, e, this, a): return ex.asval(this).f['rows']
@lib('mat::cols', 'Eigen::EigenBase::cols')
def _(ex, e, this, a): return ex.asval(this).f['cols']
@lib('mat::size', 'Eigen::EigenBase::size')
def _(ex, e, this, a):
    v = ex.asval(this)
    if is_t(z3.simplify(v.f['cols'] == 1)): return v.f['rows']
    return v.f['rows'] * v.f['cols']
@lib('mat::operator()', 'mat::operator[]', 'mat::coeff', 'mat::coeffRef')
def _(ex, e, this, a):
    this = tolv(ex, this, e['cls'])
    v = ex.load(this)
    el = ex.ty.T[v.tid]['a'][0]['t']
    if len(a) == 2: i, j = ex.asval(a[0]), ex.asval(a[1])
    else:
        i = ex.asval(a[0]); j = ex.nat(0)
        if is_t(z3.simplify(v.f['rows'] == 1)) and not is_t(z3.simplify(v.f['cols'] == 1)): i, j = j, i
    ex.oblige('bounds', ex.fold2(mkAnd(i >= 0, i < v.f['rows'], j >= 0, j < v.f['cols'])), e, 'matrix coefficient within bounds (Eigen assertion)')
    return LVal(this.root, this.path + (('i', (i, j)),), el)
for n, i in (('x', 0), ('y', 1), ('z', 2), ('w', 3)):
    def mk(i):
        def h(ex, e, this, a):
            this = tolv(ex, this, e['cls']); v = ex.load(this)
            return LVal(this.root, this.path + (('i', (ex.nat(i), ex.nat(0))),), ex.ty.T[v.tid]['a'][0]['t'])
        return h
    H['mat::' + n] = mk(i)
    def mq(n):
        def h(ex, e, this, a):
            this = tolv(ex, this, e['cls']); v = ex.load(this); return this.fld(n, ex.ty.T[v.tid]['a'][0]['t'])
        return h
    H['quat::' + n] = mq(n)
@ctor('mat', 'Eigen::Matrix')
def _(ex, e, tid, args):
    ty = ex.ty; r, c = ty.matdims(tid)
    arrd = ty.fields(tid)[2][1]
    el = ty.T[tid]['a'][0]['t']
    arr = z3.Const(ex.fresh_id('m'), ty.dsort(arrd))
    vals = [ex.rv(a) for a in args]
    if not vals: return Struct(tid, {'rows': ex.nat(max(r, 0)), 'cols': ex.nat(max(c, 0)), 'arr': arr})
    if len(vals) == 1 and isinstance(vals[0], Special) and vals[0].kind == 'eigexpr': return vals[0].d['f'](ex, tid)
    if len(vals) == 1 and isinstance(vals[0], Struct): return vals[0]
    if r == -1 and c == -1 and len(vals) == 2: return Struct(tid, {'rows': vals[0], 'cols': vals[1], 'arr': arr})
    if r == -1 and c == 1 and len(vals) == 1: 
        ex.oblige('bounds', vals[0] >= 0, e, 'vector size non-negative'); return Struct(tid, {'rows': vals[0], 'cols': ex.nat(1), 'arr': arr})
    if c == 1 and len(vals) == r:
        K = lambda x: z3.K(ty.I, x)
        arr = z3.Const(ex.fresh_id('m'), ty.dsort(arrd))
        for i, v in enumerate(vals):
            s = ty.strip_ref(e['pts'][i])
            arr = z3.Store(arr, ex.nat(i), z3.Store(z3.Const(ex.fresh_id('row'), z3.ArraySort(ty.I, ty.sort(el))), ex.nat(0), v))
        return Struct(tid, {'rows': ex.nat(r), 'cols': ex.nat(1), 'arr': arr})
    raise Unsupported('Eigen constructor')

# ------------------------------------------------------------------ parallel regions
@lib('omp_get_thread_num')
def _(ex, e, this, a):
    t = ex.fresh(e['t'], 'omp_thread'); b = getattr(ex, 'omp_bound', None)
    ex.assume(z3.And(t >= 0, *( [t < b] if b is not None else [t == 0])))
    return t
@lib('omp_get_max_threads', 'omp_get_num_threads', 'omp_get_num_procs')
def _(ex, e, this, a):
    t = ex.fresh(e['t'], 'omp_n'); ex.assume(t >= 1); return t

def omp_parallel_for(ex, s):
    """#pragma omp parallel for: assumed contract - every iteration of the canonical loop is executed exactly once,
    by a thread numbered in [0, num_threads); order arbitrary (sequentialised: sound for iterations that do not
    interfere, which is reported as an assumption)."""
    nt = None
    for c in s['cl']:
        if c['k'] == 'num_threads' and c.get('e'): nt = ex.rv(c['e'])
    if nt is not None: ex.oblige('omp-num-threads', nt > 0, s, 'num_threads is positive')
    ob = getattr(ex, 'omp_bound', None); ex.omp_bound = nt
    ex.used_lib['#pragma omp parallel for'] = ex.used_lib.get('#pragma omp parallel for', 0) + 1
    try: ex.exec(s['b'])
    finally: ex.omp_bound = ob

# ------------------------------------------------------------------ object representation (memcpy)
def tsize(ex, tid):
    w, _ = ex.ty.ibits(tid) if ex.ty.kind(tid) in ('int', 'bool') else (ex.ty.T[tid]['w'], 0)
    return max(w // 8, 1)
def enc_byte(ex, tid, v, j):
    """byte j (in memory order) of the representation of v"""
    n = tsize(ex, tid)
    if ex.ty.kind(tid) == 'int' and n == 1: return z3.If(v < 0, v + 256, v) if ex.ty.ibits(tid)[1] else v
    return ex.uf('byte_%s_%d' % (ex.ty.name(tid).replace(' ', '_'), j), ex.ty.sort(tid), z3.IntSort())(v)
def dec_bytes(ex, tid, bs):
    n = tsize(ex, tid)
    if ex.ty.kind(tid) == 'int' and n == 1: return z3.If(bs[0] > 127, bs[0] - 256, bs[0]) if ex.ty.ibits(tid)[1] else bs[0]
    return ex.uf('unbyte_' + ex.ty.name(tid).replace(' ', '_'), *([z3.IntSort()] * n + [ex.ty.sort(tid)]))(*bs)
def enc_facts(ex, tid, v):
    """the representation determines the value"""
    n = tsize(ex, tid)
    if ex.ty.kind(tid) == 'int' and n == 1: return z3.And(v >= -128, v <= 127) if ex.ty.ibits(tid)[1] else z3.And(v >= 0, v <= 255)
    bs = [enc_byte(ex, tid, v, j) for j in range(n)]
    return z3.And(dec_bytes(ex, tid, bs) == v, *[z3.And(b >= 0, b <= 255) for b in bs])
def dec_facts(ex, tid, bs):
    """every byte string is the representation of the value read from it"""
    n = tsize(ex, tid); d = dec_bytes(ex, tid, bs)
    if ex.ty.kind(tid) == 'int' and n == 1: return z3.BoolVal(True)
    return z3.And(*[enc_byte(ex, tid, d, j) == b for j, b in enumerate(bs)])
class Region(object):
    def __init__(self, ex, p, e):
        self.off = ex.nat(0)
        if isinstance(p, Special) and p.kind == 'matdata':
            self.lv = p.d['lv']; v = ex.load(self.lv); self.k = p.d.get('view', 'mat'); self.el = ex.ty.T[v.tid]['a'][0]['t']
            self.len = v.f['rows'] * v.f['cols'] if self.k == 'mat' else z3.IntVal(4)
            if self.k == 'mat' and is_t(z3.simplify(v.f['cols'] == 1)): self.len = v.f['rows']
            self.len = z3.simplify(self.len)
        elif isinstance(p, Iter) and not p.rev: self.k = 'seq'; self.lv = p.lv; self.off = p.i
        elif isinstance(p, Ptr) and p.lv is not None and p.off is not None: self.k = 'seq'; self.lv = p.lv; self.off = p.off
        elif isinstance(p, Ptr) and isinstance(p.lv, LVal) and ex.ty.kind(p.lv.tid) in ('int', 'fp', 'bool'): self.k = 'obj'; self.lv = p.lv; self.el = p.lv.tid; self.len = z3.IntVal(1)
        else: raise Unsupported('memcpy operand %r (line %s)' % (p, e.get('l')))
        if self.k == 'seq':
            v = ex.load(self.lv); self.el = ex.ty.elem(v.tid); self.len = ex.vlen(self.lv)
        if ex.ty.kind(self.el) not in ('int', 'fp', 'bool'): raise Unsupported('memcpy of ' + ex.ty.name(self.el))
        self.sz = tsize(ex, self.el)
    def get(self, ex, i):
        """element i (relative), concrete or symbolic index"""
        v = ex.load(self.lv)
        if self.k == 'obj': return v
        if self.k == 'seq': return ex.sel(v.f['arr'], z3.simplify(self.off + i) if not z3.is_expr(i) else self.off + i)
        if self.k == 'quat': return v.f['xyzw'[i]]
        r = z3.simplify(v.f['rows'])
        if is_t(z3.simplify(v.f['cols'] == 1)): return z3.Select(z3.Select(v.f['arr'], ex.nat(i) if not z3.is_expr(i) else i), ex.nat(0))
        if z3.is_int_value(r) and not z3.is_expr(i): return z3.Select(z3.Select(v.f['arr'], ex.nat(i % r.as_long())), ex.nat(i // r.as_long()))
        raise Unsupported('matrix element')
    def put(self, ex, i, val):
        v = ex.load(self.lv)
        if self.k == 'obj': ex.store(self.lv, val)
        elif self.k == 'seq': ex.store(self.lv.idx(z3.simplify(self.off + i), self.el), val)
        elif self.k == 'quat': ex.store(self.lv.fld('xyzw'[i], self.el), val)
        else:
            r = z3.simplify(v.f['rows'])
            if not z3.is_int_value(r): raise Unsupported('matrix element')
            ex.store(LVal(self.lv.root, self.lv.path + (('i', (ex.nat(i % r.as_long()), ex.nat(i // r.as_long()))),), self.el), val)
@lib('memcpy', 'std::memcpy')
def _(ex, e, this, a):
    d = Region(ex, ex.asval(a[0]), e); s = Region(ex, ex.asval(a[1]), e); n = z3.simplify(ex.asval(a[2]))
    for r, w in ((d, 'destination'), (s, 'source')):
        ex.oblige('bounds', z3.And(r.off >= 0, r.sz * r.off + n <= r.sz * r.len), e, 'memcpy %s inside the object' % w)
    if z3.is_int_value(n):
        n = n.as_long()
        if n % s.sz or n % d.sz: raise Unsupported('memcpy of a partial element')
        vals = [s.get(ex, i) for i in range(n // s.sz)]
        if d.el == s.el:
            for i, v in enumerate(vals): d.put(ex, i, v)
            return a[0]
        bs = []
        for v in vals:
            ex.fact(enc_facts(ex, s.el, v)); bs += [enc_byte(ex, s.el, v, j) for j in range(s.sz)]
        for i in range(n // d.sz):
            b = bs[d.sz * i: d.sz * (i + 1)]
            ex.fact(dec_facts(ex, d.el, b)); d.put(ex, i, dec_bytes(ex, d.el, b))
        return a[0]
    i = z3.Const(ex.fresh_id('mi'), ex.ty.I); k = z3.Const(ex.fresh_id('mk'), ex.ty.I)
    m = n / z3.IntVal(max(s.sz, d.sz))
    if s.k != 'mat' and d.k != 'mat': ex.oblige('bounds', n == max(s.sz, d.sz) * m, e, 'memcpy of whole elements')
    if d.k == 'seq' and d.sz == 1 and s.k == 'seq' and (d.el == s.el or 'unsigned' in ex.ty.name(d.el)):
        dv = ex.load(d.lv); old = dv.f['arr']
        new = z3.Const(ex.fresh_id('cpy'), old.sort())
        ex.fact(qall([k], mkImp(z3.Or(k < d.off, k >= d.off + n), z3.Select(new, k) == z3.Select(old, k)), patterns=[z3.Select(new, k)]))
        sa = ex.load(s.lv).f['arr']; x = z3.Select(sa, s.off + i)
        if s.el == d.el: ex.fact(qall([k], mkImp(z3.And(k >= d.off, k < d.off + n), z3.Select(new, k) == z3.Select(sa, s.off + k - d.off)), patterns=[z3.Select(new, k)]))
        else: ex.fact(qall([i], mkImp(z3.And(i >= 0, i < m), z3.And(enc_facts(ex, s.el, x), *[z3.Select(new, d.off + s.sz * i + j) == enc_byte(ex, s.el, x, j) for j in range(s.sz)])), patterns=[z3.simplify(x)]))
        ex.store(d.lv.fld('arr', None), new); return a[0]
    if s.k == 'seq' and s.sz == 1 and d.k == 'seq':
        dv = ex.load(d.lv); old = dv.f['arr']; new = z3.Const(ex.fresh_id('cpy'), old.sort()); sa = ex.load(s.lv).f['arr']
        if not is_t(z3.simplify(d.off == 0)): raise Unsupported('memcpy into the middle of a sequence')
        bs = [z3.Select(sa, s.off + d.sz * i + j) for j in range(d.sz)]
        ex.fact(qall([i], mkImp(z3.And(i >= 0, i < m), z3.And(dec_facts(ex, d.el, bs), z3.Select(new, i) == dec_bytes(ex, d.el, bs))), patterns=[z3.Select(new, i)]))
        ex.fact(qall([i], mkImp(z3.Or(i < 0, i >= m), z3.Select(new, i) == z3.Select(old, i)), patterns=[z3.Select(new, i)]))
        ex.store(d.lv.fld('arr', None), new); return a[0]
    # dynamic matrices, column-major
    j2 = z3.Const(ex.fresh_id('mj'), ex.ty.I)
    def mel(v, i, j): return z3.Select(z3.Select(v.f['arr'], i), j)
    if s.k == 'mat' and d.k == 'seq' and d.sz == 1:
        dv = ex.load(d.lv); old = dv.f['arr']; new = z3.Const(ex.fresh_id('cpy'), old.sort()); sv = ex.load(s.lv)
        ex.oblige('bounds', n == s.sz * s.len, e, 'memcpy of the whole matrix')
        ex.fact(qall([k], mkImp(z3.Or(k < d.off, k >= d.off + n), z3.Select(new, k) == z3.Select(old, k)), patterns=[z3.Select(new, k)]))
        x = mel(sv, i, j2)
        ex.fact(qall([i, j2], mkImp(z3.And(i >= 0, i < sv.f['rows'], j2 >= 0, j2 < sv.f['cols']), z3.And(enc_facts(ex, s.el, x), *[z3.Select(new, d.off + s.sz * (j2 * sv.f['rows'] + i) + b) == enc_byte(ex, s.el, x, b) for b in range(s.sz)])), patterns=[x]))
        ex.store(d.lv.fld('arr', None), new); return a[0]
    if d.k == 'mat' and s.k == 'seq' and s.sz == 1:
        dv = ex.load(d.lv); old = dv.f['arr']; new = z3.Const(ex.fresh_id('cpy'), old.sort()); sa = ex.load(s.lv).f['arr']
        ex.oblige('bounds', n == d.sz * d.len, e, 'memcpy of the whole matrix')
        nv = dv.set('arr', new)
        bs = [z3.Select(sa, s.off + d.sz * (j2 * dv.f['rows'] + i) + b) for b in range(d.sz)]
        ex.fact(qall([i, j2], mkImp(z3.And(i >= 0, i < dv.f['rows'], j2 >= 0, j2 < dv.f['cols']), z3.And(dec_facts(ex, d.el, bs), mel(nv, i, j2) == dec_bytes(ex, d.el, bs))), patterns=[mel(nv, i, j2)]))
        ex.store(d.lv.fld('arr', None), new); return a[0]
    raise Unsupported('memcpy form (line %s)' % e.get('l'))
@lib('mat::data', 'quat::data')
def _(ex, e, this, a): return Special('matdata', lv=tolv(ex, this, e['cls']))
@lib('quat::coeffs')
def _(ex, e, this, a): return Special('quatcoeffs', lv=tolv(ex, this, e['cls']))
@lib('xform::matrix')
def _(ex, e, this, a):
    this = tolv(ex, this, e['cls']); return this.fld('m', dict(ex.ty.fields(ex.load(this).tid))['m'][1])
def bswap(w):
    """byte order reversal: byte j of the result is byte w-1-j of the argument"""
    def h(ex, e, this, a):
        v = ex.asval(a[0]); t = e['t']
        bs = [enc_byte(ex, t, v, j) for j in range(w)]
        ex.fact(enc_facts(ex, t, v)); rb = list(reversed(bs))
        ex.fact(dec_facts(ex, t, rb))
        return dec_bytes(ex, t, rb)
    return h
for w in (2, 4, 8):
    for nm in ('__bswap_%d', '__builtin_bswap%d', 'htobe%d', 'be%dtoh'): H[nm % (8 * w)] = bswap(w)
@lib('Eigen::DenseBase::Zero', 'Eigen::DenseBase::Ones', 'Eigen::DenseBase::Constant')
def _(ex, e, this, a):
    vals = [ex.asval(x) for x in a]; nm = e['name']; c = vals.pop() if nm == 'Constant' else None
    def f(ex, tid):
        el = ex.ty.T[tid]['a'][0]['t']; r, cc = ex.ty.matdims(tid)
        x = c if c is not None else (ex.fpval(el, 0.0 if nm == 'Zero' else 1.0) if ex.ty.kind(el) == 'fp' else ex.intval(el, 0 if nm == 'Zero' else 1))
        R, Cc = (vals if len(vals) == 2 else (vals[0], ex.nat(1)) if len(vals) == 1 else (ex.nat(max(r, 0)), ex.nat(max(cc, 0))))
        return Struct(tid, {'rows': R, 'cols': Cc, 'arr': z3.K(ex.ty.I, z3.K(ex.ty.I, x))})
    for v in vals: ex.oblige('bounds', v >= 0, e, 'matrix dimension non-negative')
    return Special('eigexpr', f=f)
@lib('Eigen::Matrix::operator=')
def _(ex, e, this, a):
    v = ex.asval(a[0]); t = this.tid
    if isinstance(v, Special) and v.kind == 'eigexpr': v = v.d['f'](ex, t)
    if not isinstance(v, Struct): raise Unsupported('assigned matrix expression')
    ex.store(this, v); return this
@ctor('xform', 'quat')
def _(ex, e, tid, args):
    vals = [ex.rv(a) for a in args]
    if not vals: return ex.fresh(tid, 'eig')
    if len(vals) == 1 and isinstance(vals[0], Struct) and vals[0].tid == tid: return vals[0]
    if len(vals) == 4 and ex.ty.kind(tid) == 'quat': return Struct(tid, dict(zip('wxyz', vals)))
    raise Unsupported('Eigen constructor of ' + ex.ty.name(tid))

# ------------------------------------------------------------------ random number generation (trusted contracts on <random>: deterministic functions of state and parameters, results in range)
def _rng_step(ex, tag, gen, *key):
    """state of a generator after being used by tag: a function of its state and of key; generators of classes of the repository become arbitrary"""
    g = ex.load(gen)
    if z3.is_expr(g): ex.store(gen, ex.uf('after_' + tag, *([k.sort() for k in key] + [g.sort(), g.sort()]))(*key, g)); return g
    ex.store(gen, ex.fresh(gen.tid, 'generator')); return None
@ctor('std::mersenne_twister_engine')
def _(ex, e, tid, args):
    s = ex.ty.sort(tid)
    if not args: return ex.uf('default_seeded', s)() if False else z3.Const('default_seeded_%s' % s, s)
    v = ex.rv(args[0])
    if z3.is_expr(v) and z3.is_int(v): return ex.uf('seeded', z3.IntSort(), s)(v)
    return ex.fresh(tid, 'generator')
@lib('std::mersenne_twister_engine::seed')
def _(ex, e, this, a):
    s = ex.ty.sort(this.tid); v = ex.asval(a[0]) if a else None
    ex.store(this, ex.uf('seeded', z3.IntSort(), s)(v) if v is not None and z3.is_expr(v) and z3.is_int(v) else z3.Const('default_seeded_%s' % s, s)); return None
@lib('std::mersenne_twister_engine::operator()')
def _(ex, e, this, a):
    g = ex.load(this); w, _ = ex.ty.ibits(e['t']); r = ex.uf('draw', g.sort(), z3.IntSort())(g); ex.store(this, ex.uf('after_draw', g.sort(), g.sort())(g)); ex.assume(z3.And(r >= 0, r < 2 ** w)); return r
@lib('std::mersenne_twister_engine::discard')
def _(ex, e, this, a):
    g = ex.load(this); n = ex.asval(a[0]); ex.store(this, ex.uf('discarded', z3.IntSort(), g.sort(), g.sort())(n, g)); return None
def _dist(nm, fp):
    S = z3.RealSort() if fp else z3.IntSort()
    def ctor_(ex, e, tid, args):
        d = ex.fresh(tid, 'distribution'); lo, hi = ex.uf('dist_lo', d.sort(), S), ex.uf('dist_hi', d.sort(), S); v = [ex.rv(a) for a in args]
        if not fp: v = v or [z3.IntVal(0)]; v = v + [z3.IntVal(2 ** (ex.ty.ibits(ex.ty.T[tid]['a'][0]['t'])[0] - 1) - 1)] * (2 - len(v))
        else: v = v or [z3.RealVal(0)]; v = v + [z3.RealVal(1)] * (2 - len(v))
        ex.oblige('callee-pre', v[0] <= v[1], e, 'range of the distribution not empty'); ex.assume(z3.And(lo(d) == v[0], hi(d) == v[1])); return d
    def draw(ex, e, this, a):
        d = ex.load(this); lo, hi = ex.uf('dist_lo', d.sort(), S)(d), ex.uf('dist_hi', d.sort(), S)(d)
        if len(a) != 1: raise Unsupported('distribution with parameters')
        if not isinstance(a[0], LVal) or ex.ty.kind(a[0].tid) == 'fnobj':
            ex.invoke(a[0], [], e); r = z3.Const(ex.fresh_id('drawn'), S)
        else:
            g = _rng_step(ex, nm, a[0], d); r = z3.Const(ex.fresh_id('drawn'), S) if g is None else ex.uf('drawn_' + nm, d.sort(), g.sort(), S)(d, g)
        ex.assume(z3.And(r >= lo, r <= hi, z3.Or(r < hi, lo == hi) if fp else True)); return r
    C['std::' + nm] = ctor_; H['std::%s::operator()' % nm] = draw; H['std::%s::reset' % nm] = lambda ex, e, this, a: None
_dist('uniform_int_distribution', False); _dist('uniform_real_distribution', True)
def _shape(nm, ok):
    def ctor_(ex, e, tid, args):
        d = ex.fresh(tid, 'distribution'); ex.assume(z3.And(*[ex.uf('dist_%s%d' % (nm, i), d.sort(), z3.RealSort())(d) == ex.rv(a) for i, a in enumerate(args)])); return d
    def draw(ex, e, this, a):
        """some number of the distribution's support, a function of the states of the distribution and of the generator"""
        d = ex.load(this); g = _rng_step(ex, nm, a[0], d); S = z3.RealSort(); r = z3.Const(ex.fresh_id('drawn'), S) if g is None else ex.uf('drawn_' + nm, d.sort(), g.sort(), S)(d, g); ex.assume(z3.And(r < ex.inf(), r > -ex.inf(), ok(r)))
        ex.store(this, ex.uf('after_' + nm, d.sort(), d.sort())(d) if g is not None else ex.fresh(this.tid, 'distribution')); return r
    C['std::' + nm] = ctor_; H['std::%s::operator()' % nm] = draw
def _assign(ex, e, this, a): ex.store(this, ex.load(a[0]) if isinstance(a[0], LVal) else ex.rv(a[0])); return this
for _n in ('uniform_int_distribution', 'uniform_real_distribution', 'normal_distribution', 'exponential_distribution', 'mersenne_twister_engine'): H['std::%s::operator=' % _n] = _assign
_shape('normal_distribution', lambda r: True); _shape('exponential_distribution', lambda r: r >= 0)

@lib('std::fmod', 'fmod')
def _(ex, e, this, a):
    """fmod is exact: x - m * trunc(x / m) (trusted: IEEE-754); in floating-point mode its sign, magnitude and identity properties"""
    x, m = ex.asval(a[0]), ex.asval(a[1]); S = x.sort(); r = ex.uf('fmod', S, S, S)(x, m)
    if ex.ty.fpmode == 'fp':
        fin = z3.And(*[z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x), z3.fpIsNaN(m), z3.fpIsInf(m), z3.fpIsZero(m)))]); ab = z3.fpAbs
        ex.fact(z3.Implies(fin, z3.And(z3.Not(z3.fpIsNaN(r)), z3.Not(z3.fpIsInf(r)), z3.fpLT(ab(r), ab(m)), z3.fpLEQ(ab(r), ab(x)), z3.fpIsNegative(r) == z3.fpIsNegative(x), z3.Implies(z3.fpLT(ab(x), ab(m)), r == x)))); return r
    k = ex.uf('fmod_turns', S, S, z3.IntSort())(x, m); ex.oblige('domain', m != 0, e, 'fmod by a non-zero number')
    am = z3.If(m >= 0, m, -m); ex.fact(z3.And(r == x - m * z3.ToReal(k), z3.Implies(x >= 0, z3.And(r >= 0, r < am)), z3.Implies(x <= 0, z3.And(r <= 0, -r < am)))); return r

# ------------------------------------------------------------------ Eigen: sums, differences and scalar multiples of matrices (trusted: coefficient-wise)
def eig_view(ex, x):
    """(rows, cols, coefficient function, element type) of a matrix or of an expression over matrices"""
    x = ex.asval(x)
    if isinstance(x, Special) and x.kind == 'eigexpr' and 'at' in x.d: return x.d['shape'] + (x.d['at'], x.d['el'])
    if isinstance(x, Struct) and ex.ty.kind(x.tid) == 'mat': return x.f['rows'], x.f['cols'], (lambda i, j: z3.Select(z3.Select(x.f['arr'], i), j)), ex.ty.T[x.tid]['a'][0]['t']
    raise Unsupported('matrix expression operand')
def eig_expr(ex, R, C_, at, el):
    def f(ex, tid):
        r, c = ex.ty.matdims(tid); I = ex.ty.I; arr = z3.Const(ex.fresh_id('m'), ex.ty.dsort(ex.ty.fields(tid)[2][1]))
        if 0 < r * c <= 36 and r > 0 and c > 0:
            for i in range(r):
                row = z3.Const(ex.fresh_id('row'), z3.ArraySort(I, ex.ty.sort(el)))
                for j in range(c): row = z3.Store(row, ex.nat(j), at(ex.nat(i), ex.nat(j)))
                arr = z3.Store(arr, ex.nat(i), row)
        else:
            i, j = z3.Const(ex.fresh_id('i'), I), z3.Const(ex.fresh_id('j'), I); g = z3.Select(z3.Select(arr, i), j); ex.fact(qall([i, j], mkImp(z3.And(i >= 0, i < R, j >= 0, j < C_), g == at(i, j)), patterns=[g]))
        return Struct(tid, {'rows': R, 'cols': C_, 'arr': arr})
    return Special('eigexpr', f=f, at=at, shape=(R, C_), el=el)
def eig_bin(op):
    def h(ex, e, this, a):
        xs = ([this] if this is not None else []) + list(a); vs = [ex.asval(x) for x in xs]
        if len(vs) == 1 and op == '-':
            R, C_, p, el = eig_view(ex, vs[0]); return eig_expr(ex, R, C_, lambda i, j: ex.fparith('-', el, ex.fpval(el, 0.0), p(i, j)), el)
        num = [z3.is_expr(v) for v in vs]
        if op in '*/' and num == [False, True]:
            R, C_, p, el = eig_view(ex, vs[0]); return eig_expr(ex, R, C_, lambda i, j: ex.fparith(op, el, p(i, j), vs[1]), el)
        if op == '*' and num == [True, False]:
            R, C_, p, el = eig_view(ex, vs[1]); return eig_expr(ex, R, C_, lambda i, j: ex.fparith(op, el, vs[0], p(i, j)), el)
        if op in '+-' and num == [False, False]:
            R, C_, p, el = eig_view(ex, vs[0]); R2, C2, q, _ = eig_view(ex, vs[1]); ex.oblige('bounds', ex.fold2(mkAnd(R == R2, C_ == C2)), e, 'matrices of the same size (Eigen assertion)'); return eig_expr(ex, R, C_, lambda i, j: ex.fparith(op, el, p(i, j), q(i, j)), el)
        raise Unsupported('matrix operator ' + op)
    return h
for _o in '+-*/':
    for _c in ('Eigen::MatrixBase', 'Eigen::DenseBase', 'mat', 'Eigen::Matrix'): H['%s::operator%s' % (_c, _o)] = eig_bin(_o)
    H['Eigen::operator' + _o] = eig_bin(_o)
