"""Types of the extracted program -> SMT sorts and structured symbolic values."""
import json, z3

class Unsupported(Exception):
    """The source uses something the generator has no rule for (or a spec role did not match)."""

INF = z3.RealVal(2) ** 0  # replaced below
_INFV = 2 ** 1024

class Struct(object):
    """Immutable structured value: tid plus named components."""
    __slots__ = ('tid', 'f')
    def __init__(self, tid, f):
        self.tid = tid; self.f = f
    def set(self, n, v):
        if self.f.get(n) is v: return self
        g = dict(self.f); g[n] = v
        return Struct(self.tid, g)
    def __repr__(self): return 'Struct(%s,%s)' % (self.tid, list(self.f))

class LVal(object):
    """A memory location: root id, path of ('f', name, tid) / ('i', index, tid) steps, type id."""
    __slots__ = ('root', 'path', 'tid')
    def __init__(self, root, path, tid):
        self.root = root; self.path = path; self.tid = tid
    def fld(self, n, tid): return LVal(self.root, self.path + (('f', n),), tid)
    def idx(self, i, tid): return LVal(self.root, self.path + (('i', i),), tid)
    def key(self, k, tid): return LVal(self.root, self.path + (('m', k),), tid)
    def __repr__(self): return 'LVal(%s%s)' % (self.root, ''.join('.' + str(p[1]) for p in self.path))

class Ptr(object):
    """Pointer / reference value: lv None means null; off is an element offset into an array location."""
    __slots__ = ('lv', 'off')
    def __init__(self, lv, off=None): self.lv = lv; self.off = off

class Iter(object):
    """Iterator into a vector-like container location. ptr: raw pointer semantics."""
    __slots__ = ('lv', 'i', 'rev')
    def __init__(self, lv, i, rev=False): self.lv = lv; self.i = i; self.rev = rev

class MapIter(object):
    """Iterator into an associative container: at_end flag (Bool) and key."""
    __slots__ = ('lv', 'end', 'key')
    def __init__(self, lv, end, key): self.lv = lv; self.end = end; self.key = key

class EIter(MapIter):
    """Iterator into an associative container at position i of its enumeration keys[0..n)"""
    __slots__ = ('i', 'keys', 'n')
    def __init__(self, lv, i, keys, n):
        MapIter.__init__(self, lv, i == n, z3.Select(keys, i)); self.i = i; self.keys = keys; self.n = n

class Closure(object):
    __slots__ = ('fn', 'env', 'this', 'lam')
    def __init__(self, fn, env, this, lam): self.fn = fn; self.env = env; self.this = this; self.lam = lam

class OpaqueFn(object):
    """A user-supplied callback with an assumed model: model(ex, args, call) -> value."""
    __slots__ = ('name', 'model', 'empty')
    def __init__(self, name, model, empty=None): self.name = name; self.model = model; self.empty = empty

class FnRef(object):
    __slots__ = ('fn', 'q', 'node')
    def __init__(self, fn, q, node): self.fn = fn; self.q = q; self.node = node

class Special(object):
    """Opaque library object (mutex, future, generator state ...)."""
    __slots__ = ('kind', 'd')
    def __init__(self, kind, **d): self.kind = kind; self.d = d

SPECIALS = (Ptr, Iter, MapIter, Closure, OpaqueFn, FnRef, Special)

RANDOM = ('std::mersenne_twister_engine', 'std::uniform_int_distribution', 'std::uniform_real_distribution', 'std::normal_distribution', 'std::exponential_distribution', 'std::seed_seq')
VECLIKE = {'std::vector', 'std::deque', 'std::list', 'std::queue', 'std::stack', 'std::priority_queue'}
MAPLIKE = {'std::map', 'std::unordered_map'}
SETLIKE = {'std::set', 'std::unordered_set'}

class Types(object):
    def __init__(self, ast, mode):
        self.ast = ast; self.T = ast['types']; self.R = ast['records']
        self.mode = mode
        self.sorts = {}
        self.bvset = set(mode.get('bv', ()))
        self.fpmode = mode.get('fp', 'real')
        self.opaque = set(mode.get('opaque', ()))
        self.natbv = 'unsigned long' in self.bvset
        self.I = z3.BitVecSort(64) if self.natbv else z3.IntSort()
        self.fdesc = {}
        self.byname = {}
        for i, t in enumerate(self.T):
            if t: self.byname.setdefault(t.get('s', ''), i)
        self.intern = {}; self.interned = {}
        self.PtrSort = z3.DeclareSort('PtrS'); self.FnSort = z3.DeclareSort('FnS'); self.ObjSort = z3.DeclareSort('ObjS')
        self._kind = {}
        self._ctor = {}

    def t(self, tid): return self.T[tid]
    def name(self, tid): return self.T[tid].get('s', '?')
    def strip_ref(self, tid):
        t = self.T[tid]
        return t['t'] if t['k'] == 'ref' else tid
    def find(self, name):
        if name in self.byname: return self.byname[name]
        raise Unsupported('type %s not in the translation unit' % name)

    def kind(self, tid):
        k = self._kind.get(tid)
        if k is None:
            k = self._kind[tid] = self._mkkind(tid)
        return k

    def _mkkind(self, tid):
        t = self.T[tid]; k = t['k']
        if k in ('bool', 'int', 'fp', 'ptr', 'ref', 'arr', 'void', 'nullptr', 'fn'): return k
        if k == 'enum': return 'int'
        if k == 'rec':
            n = t['n']
            if t['s'] in self.opaque or n in self.opaque: return 'opaque'
            if n in VECLIKE or n == 'std::basic_string': return 'vec'
            if n == 'std::initializer_list': return 'vec'
            if n in MAPLIKE: return 'map'
            if n in SETLIKE: return 'set'
            if n in ('std::pair', 'std::tuple'): return 'tuple'
            if n == 'std::array': return 'arr'
            if n == 'std::function' or 'lam' in t: return 'fnobj'
            if n in ('Eigen::Matrix',): return 'mat'
            if n == 'Eigen::Quaternion': return 'quat'
            if n == 'Eigen::Transform': return 'xform'
            if n in ('std::shared_ptr', 'std::unique_ptr'): return 'ptr'
            if n.endswith('exception_ptr') and n.startswith('std::'): return 'bool'
            if n == 'std::future': return 'future'
            if n == 'std::optional': return 'optional'
            if n in RANDOM: return 'opaque'
            if n.startswith('std::') or n.startswith('Eigen::') or n.startswith('__gnu_cxx::') or not t.get('repo'): return 'obj'
            return 'rec'
        if k == 'other': return 'obj'
        return 'obj'

    def targs(self, tid): return self.T[tid].get('a', [])
    def elem(self, tid):
        t = self.T[tid]
        if t['k'] == 'arr': return t['t']
        n = t.get('n')
        if n == 'std::basic_string': return t['a'][0]['t']
        if n in ('std::queue', 'std::stack'): return t['a'][0]['t']
        return t['a'][0]['t']
    def arrlen(self, tid):
        t = self.T[tid]
        if t['k'] == 'arr': return int(t['n'])
        return int(t['a'][1]['v'])
    def matdims(self, tid):
        a = self.T[tid]['a']
        return int(a[1]['v']), int(a[2]['v'])

    # ---- component descriptors: ('t', tid) | 'nat' | ('arr', key desc, val desc)
    def fields(self, tid):
        r = self.fdesc.get(tid)
        if r is not None: return r
        k = self.kind(tid); t = self.T[tid]; out = []
        if k == 'vec': out = [('len', 'nat'), ('arr', ('arr', 'nat', ('t', self.elem(tid))))]
        elif k == 'arr': out = [('arr', ('arr', 'nat', ('t', self.elem(tid))))]
        elif k == 'map':
            kk, vv = t['a'][0]['t'], t['a'][1]['t']
            out = [('has', ('arr', ('t', kk), 'bool')), ('val', ('arr', ('t', kk), ('t', vv))), ('size', 'nat')]
        elif k == 'set':
            kk = t['a'][0]['t']
            out = [('has', ('arr', ('t', kk), 'bool')), ('size', 'nat')]
        elif k == 'tuple':
            a = t['a']
            if t['n'] == 'std::pair': out = [('first', ('t', a[0]['t'])), ('second', ('t', a[1]['t']))]
            else: out = [('e%d' % i, ('t', x['t'])) for i, x in enumerate(a)]
        elif k == 'mat':
            out = [('rows', 'nat'), ('cols', 'nat'), ('arr', ('arr', 'nat', ('arr', 'nat', ('t', t['a'][0]['t']))))]
        elif k == 'future':
            a = t['a'][0]['t']
            out = [('exc', 'bool')] + ([('val', ('t', a))] if self.T[a]['k'] != 'void' else [('val', 'nat')])
        elif k == 'optional':
            out = [('has', 'bool'), ('val', ('t', t['a'][0]['t']))]
        elif k == 'xform':
            out = [('m', ('t', self.mattype(t['a'][0]['t'], int(t['a'][1]['v']) + 1, int(t['a'][1]['v']) + 1)))]
        elif k == 'quat':
            e = t['a'][0]['t']; out = [(c, ('t', e)) for c in 'wxyz']
        elif k == 'rec':
            r = self.R.get(str(tid))
            if r is None: raise Unsupported('record layout of %s' % t['s'])
            for b in r['b']:
                for n, d in self.fields(b):
                    out.append((n, d))
            for f in r['f']: out.append((f['n'], ('t', f['t'])))
            if r.get('union'): out.append(('__live', 'nat'))  # ghost: 0 none alive, i+1 member i alive
        else: raise Unsupported('fields of ' + t.get('s', '?'))
        self.fdesc[tid] = out
        return out
    def composite(self, tid):
        return self.kind(tid) in ('vec', 'arr', 'map', 'set', 'tuple', 'mat', 'quat', 'xform', 'rec', 'future', 'optional')
    def mattype(self, el, r, c):
        for i, t in enumerate(self.T):
            if t and t.get('n') == 'Eigen::Matrix' and t['a'][0].get('t') == el and self.matdims(i) == (r, c): return i
        # the translation unit may never spell the type of the matrix inside a transform
        nm = 'Eigen::Matrix<%s, %d, %d, 0, %d, %d>' % (self.name(el), r, c, r, c)
        self.T.append({'a': [{'t': el}] + [{'v': str(x)} for x in (r, c, 0, r, c)], 'k': 'rec', 'n': 'Eigen::Matrix', 'r': nm, 'repo': False, 's': nm}); self.byname.setdefault(nm, len(self.T) - 1)
        return len(self.T) - 1

    def fieldtid(self, tid, n):
        for m, d in self.fields(tid):
            if m == n:
                if isinstance(d, tuple) and d[0] == 't': return d[1]
                return None
        raise Unsupported('no field %s in %s' % (n, self.name(tid)))

    def isbv(self, tid):
        t = self.T[tid]
        while t['k'] == 'enum': t = self.T[t['u']]
        return t.get('s') in self.bvset or (t['k'] == 'int' and ('w%d%s' % (t['w'], 's' if t['sg'] else 'u')) in self.bvset)
    def ibits(self, tid):
        t = self.T[tid]
        while t['k'] == 'enum': t = self.T[t['u']]
        if t['k'] == 'bool': return 1, False
        return t['w'], t['sg']

    def sort(self, tid):
        s = self.sorts.get(tid)
        if s is not None: return s
        k = self.kind(tid)
        if k == 'bool': s = z3.BoolSort()
        elif k == 'int': s = z3.BitVecSort(self.ibits(tid)[0]) if self.isbv(tid) else z3.IntSort()
        elif k == 'fp':
            w = self.T[tid]['w']
            if self.fpmode == 'fp': s = z3.Float64() if w == 64 else z3.Float32()
            else: s = z3.RealSort()
        elif k in ('ptr', 'ref', 'nullptr'): s = self.PtrSort
        elif k in ('fnobj', 'fn'): s = self.FnSort
        elif k == 'opaque': s = z3.DeclareSort('S_%s' % self.name(tid))
        elif k in ('obj', 'void'): s = self.ObjSort
        else:
            fs = self.fields(tid)
            nm = 'D%d' % tid
            dt = z3.Datatype(nm)
            dt.declare('mk' + nm, *[('%s_%s' % (nm, n), self.dsort(d)) for n, d in fs])
            s = dt.create()
            self._ctor[tid] = s.constructor(0)
        self.sorts[tid] = s
        return s
    def dsort(self, d):
        if d == 'nat': return self.I
        if d == 'bool': return z3.BoolSort()
        if d[0] == 't': return self.sort(d[1])
        return z3.ArraySort(self.dsort(d[1]), self.dsort(d[2]))

    def fixdims(self, v):
        """dimensions fixed by the type are constants"""
        r, c = self.matdims(v.tid)
        nat = lambda n: z3.BitVecVal(n, 64) if self.natbv else z3.IntVal(n)
        if r >= 0: v = v.set('rows', nat(r))
        if c >= 0: v = v.set('cols', nat(c))
        return v
    # ---- packing
    def internSpecial(self, v, sort):
        key = id(v)
        if key in self.intern: return self.intern[key][0]
        c = z3.Const('obj!%d' % len(self.intern), sort)
        self.intern[key] = (c, v)
        self.interned[c.get_id()] = v
        self._keep = getattr(self, '_keep', []); self._keep.append(c)
        return c
    def pack(self, d, v):
        if isinstance(d, int): d = ('t', d)
        if isinstance(v, Struct):
            s = self.sort(v.tid)
            want = d[1] if d[0] == 't' else None
            args = [self.pack(fd, v.f[n]) for n, fd in self.fields(v.tid)]
            return self._ctor[v.tid](*args)
        if isinstance(v, SPECIALS):
            return self.internSpecial(v, self.dsort(d))
        return v
    def unpack(self, tid, term):
        """One level: z3 term of composite sort -> Struct; interned constants -> specials."""
        if isinstance(term, Struct) or isinstance(term, SPECIALS): return term
        if self.composite(tid):
            s = self.sort(tid)
            fs = self.fields(tid)
            con = self._ctor[tid]
            if z3.is_app(term) and term.decl().eq(con):
                return Struct(tid, {n: self.respecial(term.arg(i), d) for i, (n, d) in enumerate(fs)})
            if z3.is_app_of(term, z3.Z3_OP_ITE):
                a = term.arg(1); b = term.arg(2)
                if (z3.is_app(a) and a.decl().eq(con)) or (z3.is_app(b) and b.decl().eq(con)):
                    pass
            r = Struct(tid, {n: s.accessor(0, i)(term) for i, (n, d) in enumerate(fs)})
            return self.fixdims(r) if self.kind(tid) == 'mat' else r
        k = self.kind(tid)
        if k in ('ptr', 'ref', 'fnobj', 'obj', 'fn'):
            return self.respecial(term, ('t', tid))
        return term
    def respecial(self, term, d):
        if z3.is_const(term) and term.get_id() in self.interned: return self.interned[term.get_id()]
        if isinstance(d, tuple) and d[0] == 't' and self.kind(d[1]) in ('ptr', 'ref', 'fnobj', 'obj', 'fn'):
            t2 = z3.simplify(term)
            if z3.is_const(t2) and t2.get_id() in self.interned: return self.interned[t2.get_id()]
        return term
