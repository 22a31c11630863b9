from ser import *
def short(ex, f): return ex.ty.name(ex.ty.strip_ref(f['ps'][0]['t'])) if not f['q'].split('::')[-1].startswith('Des') else ex.ty.name(ex.ty.fieldtid(f['ret'], 'value_'))

def scalar_ser(T, q, net):
    ex = T.ex
    for f in T.fns(NS + q):
        t = ex.ty.strip_ref(f['ps'][0]['t']); nm = ex.ty.name(t)
        b = buffer(T); v = T.obj(t, 'value'); l0, a0 = snap(T, b)
        o = T.call(f, None, [v, b]); T.never_throws(o)
        a1 = appended(T, b, l0, a0, z3.IntVal(tsize(ex, t)), o)
        T.ensure('%s: representation appended%s' % (nm, ', most significant byte first' if net else ''), held_bytes(ex, a1, l0, t, T.val(v), net))
def scalar_des(T, q, net):
    ex = T.ex
    for f in T.fns(NS + q):
        t = ex.ty.fieldtid(f['ret'], 'value_'); nm = ex.ty.name(t); n = tsize(ex, t)
        b = buffer(T); off = T.sym('unsigned long', 'starting_offset'); l0, a0 = snap(T, b)
        v0 = T.sym(t, 'original')
        ex.fact(enc_facts(ex, t, v0))
        o = T.call(f, None, [b, off])
        T.throws_iff(o, z3.Or(off >= l0, off + n > l0), nm + ': rejected exactly when the buffer does not hold it')
        v, k = value(ex, o)
        T.ensure(nm + ': value serialized at the offset is returned', z3.Implies(held_bytes(ex, a0, off, t, v0, net), v == v0))
        T.ensure(nm + ': bytes read', k == n)
        T.ensure(nm + ': the value is that of its bytes', v == dec_bytes(ex, t, read_at(ex, a0, off, t, net)))
@task('C06', 'serialization', mode=M)
def ScalarSerialize(T): scalar_ser(T, 'SerializeMemcpyable', False)
@task('C06', 'serialization', mode=M)
def ScalarDeserialize(T): scalar_des(T, 'DeserializeMemcpyable', False)

# ---------------- sequences of scalars
def seq_held(ex, arr, off, t, va, m, net=False):
    i = z3.Const(ex.fresh_id('si'), I); n = tsize(ex, t)
    return qall([i], z3.Implies(z3.And(i >= 0, i < m), z3.And(enc_facts(ex, t, sel(va, i)), held_bytes(ex, arr, off + n * i, t, sel(va, i), net))), patterns=[sel(va, i)])
def header_held(ex, arr, off, n, net): return held_bytes(ex, arr, off, ex.ty.find('unsigned long'), n, net)
def fact_hdr(T, n): T.ex.fact(enc_facts(T.ex, T.ex.ty.find('unsigned long'), n))

def strloop_ser(net):
    def inv(L):
        ex = L.ex; d = ex.task.data; b = L.cur.roots[d['b'].root]; i = L.i; k = z3.Int('k')
        t = d['el']; n = tsize(ex, t)
        return [('length', b.f['len'] == d['l0'] + 8 + n * i), ('prefix', qall([k], z3.Implies(z3.And(k >= 0, k < d['l0']), sel(b.f['arr'], k) == sel(d['a0'], k)), patterns=[sel(b.f['arr'], k)])),
                ('header', header_held(ex, b.f['arr'], d['l0'], d['n'], net)), ('items so far', seq_held(ex, b.f['arr'], d['l0'] + 8, t, d['va'], i, net)), ('counter', i <= d['n'])]
    return inv
def seq_ser(T, q, net, el=None):
    ex = T.ex
    for f in T.fns(NS + q, pred=lambda f: ex.ty.kind(ex.ty.strip_ref(f['ps'][0]['t'])) == 'vec'):
        st = ex.ty.strip_ref(f['ps'][0]['t']); t = ex.ty.elem(st)
        if el and ex.ty.name(t) != el: continue
        b = buffer(T); s = T.obj(st, 'seq'); sv = T.val(s); n = sv.f['len']; l0, a0 = snap(T, b)
        T.assume(l0 + 8 + tsize(ex, t) * n <= LIM)
        fact_hdr(T, n)
        T.data.update(b=b, l0=l0, a0=a0, n=n, va=sv.f['arr'], el=t)
        o = T.call(f, None, [s, b]); T.never_throws(o)
        a1 = appended(T, b, l0, a0, 8 + tsize(ex, t) * n, o)
        nm = ex.ty.name(t) + ': '
        T.ensure(nm + 'length header', header_held(ex, a1, l0, n, net))
        i = T.qv('i'); m = tsize(ex, t)
        T.ensure(nm + 'every element in order', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), held_bytes(ex, a1, l0 + 8 + m * i, t, sel(sv.f['arr'], i), net))))
def strloop_des(var):
    def inv(L):
        ex = L.ex; d = ex.task.data; r = L.v('deserialized'); i = L.i; k = z3.Int('k')
        out = [('position', L.v('current_position') == d['off'] + 8 + tsize(ex, d['el']) * i), ('counter', i <= d['n']),
               ('items so far', qall([k], z3.Implies(z3.And(k >= 0, k < i), sel(r.f['arr'], k) == sel(d['va'], k)), patterns=[sel(r.f['arr'], k)]))]
        out.append(('length', r.f['len'] == (i if var else d['n'])))
        return out
    return inv
def seq_des(T, q, net, el=None):
    ex = T.ex
    for f in T.fns(NS + q, pred=lambda f: ex.ty.kind(ex.ty.fieldtid(f['ret'], 'value_')) == 'vec'):
        st = ex.ty.fieldtid(f['ret'], 'value_'); t = ex.ty.elem(st)
        if el and ex.ty.name(t) != el: continue
        m = tsize(ex, t)
        b = buffer(T); off = T.sym('unsigned long', 'starting_offset'); l0, a0 = snap(T, b)
        s = T.sym(st, 'original'); n = s.f['len']
        T.data.update(b=b, off=off, n=n, va=s.f['arr'], el=t)
        fact_hdr(T, n)
        T.assume(z3.And(off + 8 + m * n <= l0, header_held(ex, a0, off, n, net), seq_held(ex, a0, off + 8, t, s.f['arr'], n, net)))
        o = T.call(f, None, [b, off]); T.never_throws(o, 'accepts what was serialized')
        v, k = value(ex, o); i = T.qv('i'); nm = ex.ty.name(t) + ': '
        T.ensure(nm + 'same number of elements', v.f['len'] == n)
        T.ensure(nm + 'equal elements', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), sel(v.f['arr'], i) == sel(s.f['arr'], i))))
        T.ensure(nm + 'bytes read', k == 8 + m * n)
@task('C06', 'serialization', mode=M, contracts=SER, loops=[strloop_ser(False)] * 2)
def StringSerialize(T): seq_ser(T, 'SerializeString', False)
@task('C06', 'serialization', mode=M, contracts=SER, loops=[strloop_des(True)] * 2)
def StringDeserialize(T): seq_des(T, 'DeserializeString', False)
def each(prop, name, types, body, **kw):
    """one task per element type"""
    for t in types:
        def f(T, t=t): body(T, t)
        f.__name__ = name + '_' + t.replace(' ', '_'); f.__doc__ = body.__doc__
        task(prop, 'serialization', mode=M, **kw)(f)
SCAL = ['unsigned char', 'char', 'int', 'long', 'unsigned long', 'float', 'double']
each('C06', 'MemcpyableVectorSerialize', SCAL, lambda T, t: seq_ser(T, 'SerializeMemcpyableVectorLike', False, t), contracts=SER)
each('C06', 'MemcpyableVectorDeserialize', SCAL, lambda T, t: seq_des(T, 'DeserializeMemcpyableVectorLike', False, t), contracts=SER)

# ---------------- custom elements
def chain(T, n, x, at, base, sz):
    """ghost positions: pos(0) = base, pos(i+1) = pos(i) + size of item i"""
    ex = T.ex; p = z3.Function(ex.fresh_id('pos'), I, I); i = T.qv('i')
    ex.fact(p(z3.IntVal(0)) == base)
    ex.fact(qall([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(p(i + 1) == p(i) + sz(i), sz(i) >= 1)), patterns=[x(i)]))
    T.data['pos'] = p
    return p
def step(L, i):
    """instance of the position recurrence at i"""
    d = L.ex.task.data
    L.ex.fact(z3.Implies(z3.And(i >= 0, i < d['n']), z3.And(d['pos'](i + 1) == d['pos'](i) + d['sz'](i), d['sz'](i) >= 1)))
def cust_ser_loop(net):
    def inv(L):
        ex = L.ex; d = ex.task.data; b = L.cur.roots[d['b'].root]; i = L.i; k = z3.Int('k'); p = d['pos']
        step(L, i); step(L, i - 1)
        return [('length', b.f['len'] == p(i)), ('prefix', qall([k], z3.Implies(z3.And(k >= 0, k < d['l0']), sel(b.f['arr'], k) == sel(d['a0'], k)), patterns=[sel(b.f['arr'], k)])),
                ('header', header_held(ex, b.f['arr'], d['l0'], d['n'], net)), ('counter', z3.And(i >= 0, i <= d['n'])),
                ('items so far', qall([k], z3.Implies(z3.And(k >= 0, k < i), z3.And(d['item'](b.f['arr'], k), p(k) >= d['l0'] + 8, p(k) + d['sz'](k) <= b.f['len'])), patterns=[d['x'](k)]))]
    return inv
def item_preds(T, cs, xs):
    """the i-th item is the concatenation of its components"""
    p = lambda: T.data['pos']
    def item(arr, k):
        o = p()(k); out = []
        for c, x in zip(cs, xs): out.append(c.holds(arr, o, x(k))); o = o + c.sz(x(k))
        return z3.And(*out)
    sz = lambda k: sum([c.sz(x(k)) for c, x in zip(cs, xs)][1:], cs[0].sz(xs[0](k)))
    for c in cs: v = z3.Const('anyv_' + T.ex.ty.name(c.tid), c.sort); T.ex.fact(qall([v], c.sz(v) >= 1, patterns=[c.sz(v)]))
    T.data.update(item=item, sz=sz, x=xs[0]); return item, sz
def cont_items(T, s, kind):
    """items of a container in iteration order"""
    ex = T.ex; tid = s.tid
    if kind == 'vec':
        return s.f['len'], [custom(ex, ex.ty.elem(tid))], [lambda i: sel(s.f['arr'], i)]
    keys, n = ex.lib.enumerate_keys(ex, s); kt = ex.ty.T[tid]['a'][0]['t']
    xs = [lambda i: sel(keys, i)]; cs = [custom(ex, kt)]
    T.data['keys'] = keys; T.data['keypos'] = ex.keypos[keys.get_id()]
    if kind == 'map':
        vt = ex.ty.T[tid]['a'][1]['t']; cs.append(custom(ex, vt)); xs.append(lambda i: sel(s.f['val'], sel(keys, i)))
    return n, cs, xs
def cont_ser(T, f, net, kind):
    ex = T.ex; st = ex.ty.strip_ref(f['ps'][0]['t'])
    b = buffer(T); s = T.obj(st, 'container'); sv = T.val(s); l0, a0 = snap(T, b)
    n, cs, xs = cont_items(T, sv, kind); item, sz = item_preds(T, cs, xs)
    p = chain(T, n, xs[0], None, l0 + 8, sz); fact_hdr(T, n); T.assume(n >= 0); T.data.update(n=n, b=b, l0=l0, a0=a0)
    T.assume(n <= LIM)
    fns = [T.lv(ex.ty.strip_ref(q['t']), custom_ser(T, c.tid), 'ser') for q, c in zip(f['ps'][2:], cs)]
    o = T.call(f, None, [s, b] + fns); T.never_throws(o)
    a1 = appended(T, b, l0, a0, p(n) - l0, o)
    T.ensure('length header', header_held(ex, a1, l0, n, net))
    k = T.qv('k'); T.ensure('every element, one after the other', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(item(a1, k), p(k) >= l0 + 8, p(k) + sz(k) <= l0 + o.ret))))
def cust_des_loop(kind):
    def inv(L):
        ex = L.ex; d = ex.task.data; r = L.v('deserialized'); i = L.i; k = z3.Int('k'); p = d['pos']; s = d['s']
        step(L, i); step(L, i - 1)
        out = [('position', z3.And(L.v('current_position') == p(i), p(i) >= d['off'] + 8)), ('counter', z3.And(i >= 0, i <= d['n']))]
        if kind == 'vec': out += [('length', r.f['len'] == i), ('items so far', qall([k], z3.Implies(z3.And(k >= 0, k < i), sel(r.f['arr'], k) == sel(s.f['arr'], k)), patterns=[sel(r.f['arr'], k)]))]
        else:
            x = z3.Const('key', d['keys'].sort().range()); kp = d['keypos']
            ex.lib.key_pos_fact(ex, d['keys'], i, d['n']); ex.lib.key_pos_fact(ex, d['keys'], i - 1, d['n'])
            out += [('size', r.f['size'] == i), ('keys so far', qall([x], sel(r.f['has'], x) == z3.And(sel(s.f['has'], x), kp(x) < i), patterns=[sel(r.f['has'], x)]))]
            if kind == 'map': out += [('values so far', qall([x], z3.Implies(sel(r.f['has'], x), sel(r.f['val'], x) == sel(s.f['val'], x)), patterns=[sel(r.f['val'], x)]))]
        return out
    return inv
def cont_des(T, f, net, kind):
    ex = T.ex; st = ex.ty.fieldtid(f['ret'], 'value_')
    b = buffer(T); off = T.sym('unsigned long', 'starting_offset'); l0, a0 = snap(T, b)
    s = T.sym(st, 'original'); n, cs, xs = cont_items(T, s, kind); item, sz = item_preds(T, cs, xs)
    p = chain(T, n, xs[0], None, off + 8, sz); fact_hdr(T, n); T.data.update(n=n, s=s, off=off); k = T.qv('k'); j = T.qv('j')
    T.assume(z3.And(n >= 0, p(n) <= l0, off + 8 <= l0, n <= LIM, header_held(ex, a0, off, n, net)), 'the buffer holds the serialized form at the offset (post-condition of the serializer)')
    T.assume(qall([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(item(a0, k), p(k) + sz(k) <= l0)), patterns=[xs[0](k)]))
    fns = [T.lv(ex.ty.strip_ref(q['t']), custom_deser(T, c.tid), 'deser') for q, c in zip(f['ps'][2:], cs)]
    o = T.call(f, None, [b, off] + fns); T.never_throws(o, 'accepts what was serialized')
    v, c = value(ex, o)
    T.ensure('equal value', ex_eq(ex, st, v, s))
    T.ensure('bytes read', c == p(n) - off)
def cont(prop, name, q, net, kind, contracts, cls=None):
    def body(T):
        fs = T.fns(NS + q, pred=(lambda f: cls in (T.ex.ty.T[T.ex.ty.strip_ref(f['ps'][0]['t'])]['n'] if q.startswith('Ser') else T.ex.ty.T[T.ex.ty.fieldtid(f['ret'], 'value_')]['n'])) if cls else None)
        if not fs: raise Unsupported('function ' + q)
        (cont_ser if q.startswith('Ser') else cont_des)(T, fs[0], net, kind)
    body.__name__ = name
    task(prop, 'serialization', mode=M, contracts=contracts, loops=[cust_ser_loop(net) if q.startswith('Ser') else cust_des_loop(kind)])(body)
SP = dict(SER); SP.update(PAIR)
cont('C06', 'VectorSerialize', 'SerializeVectorLike', False, 'vec', SER)
cont('C06', 'VectorDeserialize', 'DeserializeVectorLike', False, 'vec', SER)
for c_ in ('std::map', 'std::unordered_map'):
    cont('C06', 'MapSerialize_' + c_[5:], 'SerializeMapLike', False, 'map', SP, c_)
    cont('C06', 'MapDeserialize_' + c_[5:], 'DeserializeMapLike', False, 'map', SP, c_)
for c_ in ('std::set', 'std::unordered_set'):
    cont('C06', 'SetSerialize_' + c_[5:], 'SerializeSetLike', False, 'set', SER, c_)
    cont('C06', 'SetDeserialize_' + c_[5:], 'DeserializeSetLike', False, 'set', SER, c_)
@task('C06', 'serialization', mode=M)
def PairSerialize(T):
    ex = T.ex; f = T.fn(NS + 'SerializePair'); b = buffer(T); p = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'pair'); pv = T.val(p); l0, a0 = snap(T, b)
    (_, d1), (_, d2) = ex.ty.fields(pv.tid); c1, c2 = custom(ex, d1[1]), custom(ex, d2[1])
    o = T.call(f, None, [p, b, T.lv(ex.ty.strip_ref(f['ps'][2]['t']), custom_ser(T, c1.tid)), T.lv(ex.ty.strip_ref(f['ps'][3]['t']), custom_ser(T, c2.tid))]); T.never_throws(o)
    a1 = appended(T, b, l0, a0, c1.sz(pv.f['first']) + c2.sz(pv.f['second']), o)
    T.ensure('first then second', z3.And(c1.holds(a1, l0, pv.f['first']), c2.holds(a1, l0 + c1.sz(pv.f['first']), pv.f['second'])))
@task('C06', 'serialization', mode=M)
def PairDeserialize(T):
    ex = T.ex; f = T.fn(NS + 'DeserializePair'); b = buffer(T); off = T.sym('unsigned long', 'starting_offset'); l0, a0 = snap(T, b)
    pt = ex.ty.fieldtid(f['ret'], 'value_'); pv = T.sym(pt, 'original'); (_, d1), (_, d2) = ex.ty.fields(pt); c1, c2 = custom(ex, d1[1]), custom(ex, d2[1]); x, y = pv.f['first'], pv.f['second']
    T.assume(z3.And(c1.sz(x) >= 1, c2.sz(y) >= 1))
    H = z3.And(c1.holds(a0, off, x), c2.holds(a0, off + c1.sz(x), y), off + c1.sz(x) + c2.sz(y) <= l0)
    o = T.call(f, None, [b, off, T.lv(ex.ty.strip_ref(f['ps'][2]['t']), custom_deser(T, c1.tid)), T.lv(ex.ty.strip_ref(f['ps'][3]['t']), custom_deser(T, c2.tid))])
    T.throws_only_if(o, mkNot(H), 'accepts what was serialized')
    v, n = value(ex, o)
    T.ensure('equal value and bytes read', z3.Implies(H, z3.And(v.f['first'] == x, v.f['second'] == y, n == c1.sz(x) + c2.sz(y))))
    T.ensure('consumes only bytes inside the buffer', z3.And(n >= 2, off + n <= l0))

# ---------------- Eigen types
def mel(v, i, j): return z3.Select(z3.Select(v.f['arr'], i), j)
def comps(ex, v):
    """components of a fixed-size Eigen value in memory order"""
    k = ex.ty.kind(v.tid)
    if k == 'quat': return [v.f[c] for c in 'xyzw']
    if k == 'xform':
        m = v.f['m']; m = ex.ty.unpack(ex.ty.fieldtid(v.tid, 'm'), m) if z3.is_expr(m) else m; return [mel(m, z3.IntVal(i), z3.IntVal(j)) for j in range(4) for i in range(4)]
    r, c = ex.ty.matdims(v.tid)
    return [mel(v, z3.IntVal(i), z3.IntVal(j)) for j in range(c) for i in range(r)]
def fixed(prop, nm, ser, des):
    def s(T):
        ex = T.ex; D = ex.ty.find('double'); f = T.fn(NS + ser); b = buffer(T); v = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'value'); l0, a0 = snap(T, b)
        cs = comps(ex, T.val(v)); o = T.call(f, None, [v, b]); T.never_throws(o)
        a1 = appended(T, b, l0, a0, z3.IntVal(8 * len(cs)), o)
        for i, c in enumerate(cs): T.ensure('component %d' % i, held_bytes(ex, a1, l0 + 8 * i, D, c))
    def d(T):
        ex = T.ex; D = ex.ty.find('double'); f = T.fn(NS + des); b = buffer(T); off = T.sym('unsigned long', 'starting_offset'); l0, a0 = snap(T, b)
        st = ex.ty.fieldtid(f['ret'], 'value_'); w = T.sym(st, 'original'); cs = comps(ex, w)
        for c in cs: ex.fact(enc_facts(ex, D, c))
        o = T.call(f, None, [b, off]); n = 8 * len(cs)
        T.throws_iff(o, z3.Or(off >= l0, off + n > l0), 'rejected exactly when the buffer does not hold it')
        v, k = value(ex, o); rs = comps(ex, v)
        for i, (c, r) in enumerate(zip(cs, rs)): T.ensure('component %d' % i, z3.Implies(held_bytes(ex, a0, off + 8 * i, D, c), r == c))
        T.ensure('bytes read', k == n)
    s.__name__ = nm + 'Serialize'; d.__name__ = nm + 'Deserialize'
    task(prop, 'serialization', mode=M)(s); task(prop, 'serialization', mode=M)(d)
for t_ in ('Vector2d', 'Vector3d', 'Vector4d', 'Quaterniond', 'Isometry3d'): fixed('C06', t_, 'Serialize' + t_, 'Deserialize' + t_)
def dynheld(ex, arr, off, v, n):
    D = ex.ty.find('double'); i = z3.Const(ex.fresh_id('i'), I); j = z3.Const(ex.fresh_id('j'), I)
    x = mel(v, i, j)
    return qall([i, j], z3.Implies(z3.And(i >= 0, i < v.f['rows'], j >= 0, j < v.f['cols']), z3.And(enc_facts(ex, D, x), held_bytes(ex, arr, off + 8 * (j * v.f['rows'] + i), D, x))), patterns=[x])
def dyn(prop, nm, vec):
    def s(T):
        ex = T.ex; D = ex.ty.find('double'); f = T.fn(NS + 'Serialize' + nm); b = buffer(T); v = T.obj(ex.ty.strip_ref(f['ps'][0]['t']), 'value'); l0, a0 = snap(T, b); x = T.val(v)
        r, c = x.f['rows'], x.f['cols']; cnt = r if vec else r * c
        T.assume(z3.And(r >= 0, c >= 0, *([c == 1] if vec else []), r <= LIM, c <= LIM))
        T.assume(z3.And(cnt >= 0, 8 * cnt + l0 + 16 <= LIM), 'matrices fit in memory'); U = ex.ty.find('unsigned long')
        hs = [r] if vec else [r, c]
        for h in hs: fact_hdr(T, h)
        if not vec: T.lemma('8*rows bounded', z3.Implies(c >= 1, 8 * r <= 8 * (r * c))); T.lemma('product regrouped', 8 * r * c == 8 * (r * c))
        o = T.call(f, None, [v, b]); T.never_throws(o)
        a1 = appended(T, b, l0, a0, 8 * len(hs) + 8 * cnt, o)
        for i, h in enumerate(hs): T.ensure('header %d' % i, header_held(ex, a1, l0 + 8 * i, h, False))
        i, j = T.qv('i'), T.qv('j'); y = mel(x, i, j); off = l0 + 8 * len(hs)
        if vec: T.ensure('coefficients', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < r), held_bytes(ex, a1, off + 8 * i, D, mel(x, i, z3.IntVal(0))))))
        else: T.ensure('coefficients in column-major order', z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < r, j >= 0, j < c), held_bytes(ex, a1, off + 8 * (j * r + i), D, y))))
    def d(T):
        ex = T.ex; D = ex.ty.find('double'); f = T.fn(NS + 'Deserialize' + nm); b = buffer(T); off = T.sym('unsigned long', 'starting_offset'); l0, a0 = snap(T, b)
        st = ex.ty.fieldtid(f['ret'], 'value_'); w = T.sym(st, 'original'); r, c = w.f['rows'], w.f['cols']; cnt = r if vec else r * c
        hs = [r] if vec else [r, c]
        for h in hs: fact_hdr(T, h)
        T.assume(z3.And(r >= 0, c >= 0, *([c == 1] if vec else []), r <= LIM, c <= LIM, cnt >= 0, off + 8 * len(hs) + 8 * cnt <= l0, *[header_held(ex, a0, off + 8 * i, h, False) for i, h in enumerate(hs)]))
        if not vec: T.lemma('8*rows bounded', z3.Implies(c >= 1, 8 * r <= 8 * (r * c))); T.lemma('product regrouped', 8 * r * c == 8 * (r * c)); T.lemma('rows fit', z3.Implies(z3.And(c >= 1, 8 * (r * c) <= l0 - off - 16), r <= ((l0 - off - 16) / 8) / c))
        i, j = T.qv('i'), T.qv('j')
        if vec:
            x = mel(w, i, z3.IntVal(0)); T.assume(qall([i], z3.Implies(z3.And(i >= 0, i < r), z3.And(enc_facts(ex, D, x), held_bytes(ex, a0, off + 8 + 8 * i, D, x))), patterns=[x]))
        else: T.assume(dynheld(ex, a0, off + 16, w, None))
        o = T.call(f, None, [b, off]); T.never_throws(o, 'accepts what was serialized')
        v, k = value(ex, o)
        T.ensure('same dimensions', z3.And(v.f['rows'] == r, v.f['cols'] == c))
        if vec: T.ensure('equal coefficients', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < r), mel(v, i, z3.IntVal(0)) == mel(w, i, z3.IntVal(0)))))
        else: T.ensure('equal coefficients', z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < r, j >= 0, j < c), mel(v, i, j) == mel(w, i, j))))
        T.ensure('bytes read', k == 8 * len(hs) + 8 * cnt)
    s.__name__ = nm + 'Serialize'; d.__name__ = nm + 'Deserialize'
    task(prop, 'serialization', mode=M, contracts=SER)(s); task(prop, 'serialization', mode=M, contracts=SER)(d)
dyn('C06', 'VectorXd', True); dyn('C06', 'MatrixXd', False)
