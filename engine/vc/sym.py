"""Forward symbolic execution of the extracted AST; generates verification conditions."""
import z3
from .vtypes import *

class Dead(Exception): pass

def is_t(x): return z3.is_true(x)
def is_f(x): return z3.is_false(x)
def mkNot(a):
    if is_t(a): return z3.BoolVal(False)
    if is_f(a): return z3.BoolVal(True)
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def mkAnd(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = mkAnd(*x)
        if isinstance(x, bool): x = z3.BoolVal(x)
        if is_t(x): continue
        if is_f(x): return z3.BoolVal(False)
        ys.append(x)
    if not ys: return z3.BoolVal(True)
    if len(ys) == 1: return ys[0]
    return z3.And(*ys)
def mkOr(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = mkOr(*x)
        if is_f(x): continue
        if is_t(x): return z3.BoolVal(True)
        ys.append(x)
    if not ys: return z3.BoolVal(False)
    if len(ys) == 1: return ys[0]
    return z3.Or(*ys)
def mkImp(a, b):
    if is_t(a): return b
    if is_f(a) or is_t(b): return z3.BoolVal(True)
    return z3.Implies(a, b)
def mkIf(c, a, b):
    if is_t(c): return a
    if is_f(c): return b
    if a.eq(b): return a
    return z3.If(c, a, b)

def patok(t):
    """a term the solver accepts inside a trigger"""
    seen = set(); todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_var(x): continue
        if not z3.is_app(x): return False
        k = x.decl().kind()
        if k in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE): return False
        todo += x.children()
    return True
def qall(vs, body, patterns=None):
    """universal quantifier; trigger terms are used only where the solver accepts them"""
    if patterns:
        ok = [p for p in patterns if (isinstance(p, z3.PatternRef) or patok(p))]
        if ok:
            try: return z3.ForAll(vs, body, patterns=ok)
            except z3.Z3Exception: pass
    return z3.ForAll(vs, body)
def qex(vs, body, patterns=None):
    ok = [p for p in patterns or [] if (isinstance(p, z3.PatternRef) or patok(p))]
    if ok:
        try: return z3.Exists(vs, body, patterns=ok)
        except z3.Z3Exception: pass
    return z3.Exists(vs, body)
def mpat(*ts):
    """multi-pattern, or nothing if a term cannot be a trigger"""
    return [z3.MultiPattern(*ts)] if all(patok(t) for t in ts) else None

class State(object):
    __slots__ = ('roots', 'pc')
    def __init__(self, roots, pc): self.roots = roots; self.pc = pc
    def clone(self): return State(dict(self.roots), self.pc)

class Frame(object):
    def __init__(self, fn, this, site, parent):
        self.fn = fn; self.this = this; self.env = {}; self.returns = []; self.site = site; self.parent = parent
        self.depth = (parent.depth + 1) if parent else 0
        self.breaks = None; self.conts = None

class Obl(object):
    def __init__(self, kind, desc, loc, pc, goal, nf, fn):
        self.kind = kind; self.desc = desc; self.loc = loc; self.pc = pc; self.goal = goal; self.nf = nf; self.fn = fn
        self.status = None; self.solver = None; self.t = 0.0; self.model = None; self.abstracted = False

class Thrown(object):
    def __init__(self, st, et, node, fn): self.st = st; self.et = et; self.node = node; self.fn = fn

class LoopView(object):
    """What an invariant may talk about."""
    def __init__(self, ex, frame, entry, cur, k=None, ind=None, extra=None):
        self.ex = ex; self.frame = frame; self.entry = entry; self.cur = cur; self._k = k; self.ind = ind; self.extra = extra or {}
    def at(self, st): return LoopView(self.ex, self.frame, self.entry, st, self._k, self.ind, self.extra)
    def read(self, lv, st=None):
        return self.ex.load(lv, st or self.cur)
    def _find(self, name):
        fr = self.frame
        while fr is not None:
            for vid, lv in fr.env.items():
                if self.ex.varname.get(vid) == name: return lv
            fr = fr.captured_parent if hasattr(fr, 'captured_parent') else None
        return None
    def lv(self, *names):
        for n in names:
            r = self._find(n)
            if r is not None: return r
        raise Unsupported('loop role: variable %s' % (names,))
    def v(self, *names): return self.read(self.lv(*names))
    def v0(self, *names): return self.read(self.lv(*names), self.entry)
    def mods(self, tname):
        """locals modified by the loop whose printed type is tname (in declaration order)."""
        out = []
        for (root, path) in self.extra.get('written', []):
            if root in self.ex.rootinfo:
                tid, nm = self.ex.rootinfo[root]
                if self.ex.ty.name(tid) == tname and (root not in [o.root for o in out]): out.append(LVal(root, (), tid))
        return out
    def locals(self, kind):
        """local objects of a kind in scope, in declaration order"""
        out = []
        for vid, lv in self.frame.env.items():
            if isinstance(lv, LVal) and not lv.path and lv.root in self.cur.roots and isinstance(lv.tid, int) and lv.tid >= 0 and self.ex.ty.kind(lv.tid) == kind and (lv.root not in [o.root for o in out]): out.append(lv)
        return out
    def params(self, kind):
        """parameters of the function whose loop it is, by kind of the type referred to"""
        out = []
        for p in self.frame.fn.get('ps', []):
            lv = self.frame.env.get(p.get('id', p.get('v')))
            if isinstance(lv, LVal):
                v = self.ex.load(lv, self.cur)
                if isinstance(v, Ptr): lv = v.lv
            if isinstance(lv, LVal) and isinstance(lv.tid, int) and lv.tid >= 0 and self.ex.ty.kind(lv.tid) == kind: out.append(lv)
        return out
    def written(self, kind):
        """objects of a kind ('map', 'vec', ...) modified by the loop"""
        out = []
        for (root, path) in self.extra.get('written', []):
            if root in self.ex.rootinfo and root in self.cur.roots:
                tid, nm = self.ex.rootinfo[root]
                if tid is not None and tid >= 0 and self.ex.ty.kind(tid) == kind and root not in [o.root for o in out]: out.append(LVal(root, (), tid))
        if not out: raise Unsupported('loop role: modified %s' % kind)
        return out
    def mod(self, tname, k=0, names=()):
        for n in names:
            r = self._find(n)
            if r is not None: return r
        m = self.mods(tname)
        if len(m) <= k: raise Unsupported('loop role: modified %s #%d' % (tname, k))
        return m[k]
    @property
    def k(self):
        if self._k is None: raise Unsupported('loop has no iteration counter')
        return self.cur.roots[self._k]
    @property
    def i(self):
        if self.ind is None:
            if self._k is not None: return self.k
            raise Unsupported('loop has no induction variable')
        v = self.read(self.ind)
        if isinstance(v, (Iter, EIter)): return v.i
        return v

class Ex(object):
    def __init__(self, ast, mode, task):
        self.ast = ast; self.mode = mode; self.task = task
        self.ty = Types(ast, mode)
        self.F = {f['id']: f for f in ast['functions']}
        self.named = []; self.facts = []; self.obls = []; self.throws = []
        self.nobl_guard = 0
        self.st = State({}, ())
        self.frames = []
        self.uid = 0
        self.probing = 0
        self.wlogs = []
        self.rootinfo = {}; self.varname = {}
        self.contracts = task.contracts if task else {}
        self.used_fns = {}; self.used_lib = {}; self.used_contracts = {}
        self.loopidx = {}; self.loopstack = []
        self.globals = {}
        self.lowzero = {}
        self.maxdepth = 40
        self.abstract_loops = 0
        self.auto = {}
        self.ufs = {}
        self.cbcalls = []
        self.rangeknown = set()
        self.inputs = []
        self.statics = {}
        from . import lib
        self.lib = lib

    # ------------------------------------------------------------ basics
    def fresh_id(self, nm='t'):
        self.uid += 1
        return '%s!%d' % (nm, self.uid)
    def pcf(self): return mkAnd(*self.st.pc)
    def assume(self, f):
        if is_t(f): return
        self.facts.append(mkImp(self.pcf(), f))
    def fact(self, f):
        if not is_t(f): self.facts.append(f)
    def oblige(self, kind, goal, node=None, desc='', assume=True):
        if self.st is None: return
        goal_s = goal
        if isinstance(goal, bool): goal_s = z3.BoolVal(goal)
        if not self.probing:
            fn = self.frames[-1].fn if self.frames else None
            loc = ('%s:%s' % ((fn or {}).get('file', '?').split('/')[-1], node.get('l', '?') if node else '?'))
            self.obls.append(Obl(kind, desc, loc, self.pcf(), goal_s, len(self.facts), (fn or {}).get('q', self.task.name if self.task else '?')))
        if assume: self.assume(goal_s)
    def die(self):
        self.st = None
        raise Dead()
    def uf(self, name, *sorts):
        key = (name,) + tuple(str(s) for s in sorts)
        if key not in self.ufs: self.ufs[key] = z3.Function(name, *sorts)
        return self.ufs[key]

    def fresh_desc(self, d, nm):
        if d == 'bool': return z3.Const(self.fresh_id(nm), z3.BoolSort())
        c = z3.Const(self.fresh_id(nm), self.ty.dsort(d))
        if d == 'nat':
            if not self.ty.natbv: self.fact(z3.And(c >= 0, c < 2 ** 60))
            else: self.fact(z3.ULT(c, z3.BitVecVal(2 ** 60, 64)))
            return c
        if isinstance(d, tuple) and d[0] == 't': return self.fresh(d[1], nm)
        return c
    def fresh(self, tid, nm='v'):
        """Arbitrary value of the type, with its type invariant assumed."""
        ty = self.ty; k = ty.kind(tid)
        if ty.composite(tid):
            r = Struct(tid, {n: self.fresh_desc(d, nm + '.' + n) for n, d in ty.fields(tid)})
            return ty.fixdims(r) if k == 'mat' else r
        if k in ('obj',): return Special('obj', tid=tid)
        if k in ('ptr', 'ref', 'nullptr'): 
            return z3.Const(self.fresh_id(nm), ty.sort(tid))
        c = z3.Const(self.fresh_id(nm), ty.sort(tid))
        self.fact(self.range_of(tid, c))
        return c
    def range_of(self, tid, c):
        ty = self.ty; k = ty.kind(tid)
        if k == 'int' and not ty.isbv(tid):
            w, sg = ty.ibits(tid)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            return z3.And(c >= lo, c <= hi)
        if k == 'fp' and ty.fpmode == 'real':
            return z3.And(c >= -self.inf(), c <= self.inf())
        return z3.BoolVal(True)
    def inf(self): return z3.RealVal(str(2 ** 1024))
    def ground_range(self, tid, c):
        """type-range fact about a term read from an array or structure"""
        if not z3.is_expr(c): return
        if z3.is_bool(c) or z3.is_int_value(c) or z3.is_rational_value(c): return
        if not (z3.is_int(c) or z3.is_real(c)): return
        key = (tid, c.get_id())
        if key in self.rangeknown: return
        self.rangeknown.add(key)
        self._keepalive = getattr(self, '_keepalive', []); self._keepalive.append(c)
        self.fact(self.range_of(tid, c))
    def ground_nat(self, c):
        key = ('nat', c.get_id())
        if key in self.rangeknown or z3.is_int_value(c) or z3.is_bv(c): return
        self.rangeknown.add(key)
        self._keepalive = getattr(self, '_keepalive', []); self._keepalive.append(c)
        self.fact(z3.And(c >= 0, c < 2 ** 60))

    def zero(self, tid):
        ty = self.ty; k = ty.kind(tid)
        if k == 'bool': return z3.BoolVal(False)
        if k == 'int': return self.intval(tid, 0)
        if k == 'fp': return self.fpval(tid, 0.0)
        if k in ('ptr', 'nullptr'): return Ptr(None)
        if k == 'fnobj': return OpaqueFn('empty', None, empty=z3.BoolVal(True))
        if k == 'vec':
            n = {n: d for n, d in ty.fields(tid)}
            return Struct(tid, {'len': self.nat(0), 'arr': z3.Const(self.fresh_id('earr'), ty.dsort(n['arr']))})
        if k == 'arr':
            d = ty.fields(tid)[0][1]
            return Struct(tid, {'arr': z3.K(ty.I, ty.pack(d[2], self.zero(ty.elem(tid))))})
        if k in ('map', 'set'):
            f = {}
            for n, d in ty.fields(tid):
                if n == 'size': f[n] = self.nat(0)
                elif n == 'has': f[n] = z3.K(ty.dsort(d[1]), z3.BoolVal(False))
                else: f[n] = z3.Const(self.fresh_id('mval'), ty.dsort(d))
            return Struct(tid, f)
        if k == 'mat':
            r, c = ty.matdims(tid)
            return Struct(tid, {'rows': self.nat(max(r, 0)), 'cols': self.nat(max(c, 0)), 'arr': z3.Const(self.fresh_id('marr'), ty.dsort(ty.fields(tid)[2][1]))})
        if ty.composite(tid):
            return Struct(tid, {n: (self.nat(0) if d == 'nat' else z3.BoolVal(False) if d == 'bool' else self.zero(d[1])) for n, d in ty.fields(tid)})
        if k == 'obj': return Special('obj', tid=tid)
        if k == 'opaque': return z3.Const('dflt_%s' % ty.name(tid), ty.sort(tid))
        raise Unsupported('zero of ' + ty.name(tid))

    def nat(self, n): return z3.BitVecVal(n, 64) if self.ty.natbv else z3.IntVal(n)
    def intval(self, tid, v):
        if self.ty.isbv(tid): return z3.BitVecVal(v, self.ty.ibits(tid)[0])
        return z3.IntVal(v)
    def fpval(self, tid, d):
        if self.ty.fpmode == 'fp': return z3.FPVal(d, self.ty.sort(tid))
        import fractions
        if d != d: raise Unsupported('NaN in real mode')
        if d in (float('inf'), float('-inf')): return self.inf() if d > 0 else -self.inf()
        fr = fractions.Fraction(d)
        return z3.RealVal('%d/%d' % (fr.numerator, fr.denominator)) if fr.denominator != 1 else z3.RealVal(str(fr.numerator))

    # ------------------------------------------------------------ memory
    def new_root(self, tid, val, nm='tmp'):
        r = self.fresh_id(nm)
        self.st.roots[r] = val
        self.rootinfo[r] = (tid, nm)
        return LVal(r, (), tid)
    def log_write(self, root, path):
        for w in self.wlogs: w.append((root, path))

    def comp_get(self, s, n):
        v = s.f[n]
        return v
    def load(self, lv, st=None):
        st = st or self.st
        if st is None: raise Dead()
        if not isinstance(lv, LVal):
            if isinstance(lv, LChoice):
                return self.choose([(c, self.load(l, st)) for c, l in lv.alts])
            raise Unsupported('load of non-location %r' % (lv,))
        if lv.root not in st.roots: raise Unsupported('dangling location %r' % lv)
        v = st.roots[lv.root]; tid = self.rootinfo[lv.root][0]
        for stp in lv.path:
            v, tid = self.step_get(v, tid, stp)
        if tid is not None:
            v = self.ty.unpack(tid, v) if z3.is_expr(v) else v
            if z3.is_expr(v): self.ground_range(tid, v)
        return v
    def step_get(self, v, tid, stp):
        ty = self.ty
        if z3.is_expr(v): v = ty.unpack(tid, v)
        if not isinstance(v, Struct): raise Unsupported('step into %r' % (v,))
        if stp[0] == 'f':
            if stp[1] not in v.f: raise Unsupported('field %s of %s' % (stp[1], ty.name(v.tid)))
            x = v.f[stp[1]]
            d = dict(ty.fields(v.tid))[stp[1]]
            if d == 'nat': self.ground_nat(x)
            if isinstance(d, tuple) and d[0] == 't':
                return x, d[1]
            return x, None
        if stp[0] == 'i':
            k = ty.kind(v.tid)
            if k == 'mat':
                i, j = stp[1]
                x = self.sel(self.sel(v.f['arr'], i), j)
                return x, ty.T[v.tid]['a'][0]['t']
            x = self.sel(v.f['arr'], stp[1])
            e = ty.elem(v.tid)
            return ty.respecial(x, ('t', e)) if ty.kind(e) in ('ptr', 'ref', 'fnobj', 'obj') else x, e
        if stp[0] == 'm':
            x = self.sel(v.f['val'], stp[1])
            return x, dict(ty.fields(v.tid))['val'][2][1]
        raise Unsupported('step')
    def sel(self, a, i):
        while z3.is_app_of(a, z3.Z3_OP_STORE):
            j = a.arg(1)
            if j.eq(i): return a.arg(2)
            if (z3.is_int_value(j) or z3.is_bv_value(j)) and (z3.is_int_value(i) or z3.is_bv_value(i)):
                a = a.arg(0); continue
            break
        if z3.is_K(a): return a.arg(0)
        return z3.Select(a, i)
    def store(self, lv, val, st=None):
        st = st or self.st
        if st is None: raise Dead()
        if isinstance(lv, LChoice):
            seen = z3.BoolVal(False)    # the first alternative whose condition holds
            for c, l in lv.alts:
                old = self.load(l, st)
                self.store(l, self.choose([(mkAnd(c, mkNot(seen)), val), (z3.BoolVal(True), old)]), st); seen = mkOr(seen, c)
            return
        self.log_write(lv.root, lv.path)
        if lv.root not in st.roots: raise Unsupported('dangling store %r' % lv)
        tid = self.rootinfo[lv.root][0]
        st.roots[lv.root] = self.upd(st.roots[lv.root], tid, lv.path, val)
    def upd(self, v, tid, path, val):
        if not path: return val
        ty = self.ty
        if z3.is_expr(v): v = ty.unpack(tid, v)
        stp = path[0]
        if not isinstance(v, Struct): raise Unsupported('update into %r' % (v,))
        if stp[0] == 'f':
            d = dict(ty.fields(v.tid))[stp[1]]
            t2 = d[1] if isinstance(d, tuple) and d[0] == 't' else None
            return v.set(stp[1], self.upd(v.f[stp[1]], t2, path[1:], val))
        if stp[0] == 'i':
            if ty.kind(v.tid) == 'mat':
                i, j = stp[1]
                row = self.sel(v.f['arr'], i)
                e = ty.T[v.tid]['a'][0]['t']
                return v.set('arr', z3.Store(v.f['arr'], i, z3.Store(row, j, ty.pack(('t', e), self.upd(None, e, path[1:], val)))))
            e = ty.elem(v.tid)
            old = self.sel(v.f['arr'], stp[1]) if len(path) > 1 else None
            new = self.upd(old, e, path[1:], val)
            return v.set('arr', self.mkstore(v.f['arr'], stp[1], ty.pack(('t', e), new)))
        if stp[0] == 'm':
            e = dict(ty.fields(v.tid))['val'][2][1]
            old = self.sel(v.f['val'], stp[1]) if len(path) > 1 else None
            new = self.upd(old, e, path[1:], val)
            return v.set('val', self.mkstore(v.f['val'], stp[1], ty.pack(('t', e), new)))
        raise Unsupported('upd')
    def mkstore(self, a, i, v):
        if z3.is_app_of(a, z3.Z3_OP_STORE) and a.arg(1).eq(i): a = a.arg(0)
        return z3.Store(a, i, v)

    def choose(self, alts):
        """value of the first alternative whose condition holds; last alternative is the default"""
        r = alts[-1][1]
        for c, v in reversed(alts[:-1]): r = self.vmerge(c, v, r)
        return r

    def same(self, a, b):
        if a is b: return True
        if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
        if isinstance(a, Struct) and isinstance(b, Struct):
            return a.tid == b.tid and all(self.same(a.f[k], b.f[k]) for k in a.f)
        if isinstance(a, LVal) and isinstance(b, LVal):
            return a.root == b.root and len(a.path) == len(b.path) and all(
                x[0] == y[0] and (x[1] == y[1] if x[0] == 'f' else (isinstance(x[1], tuple) and all(p.eq(q) for p, q in zip(x[1], y[1]))) or (not isinstance(x[1], tuple) and x[1].eq(y[1]))) for x, y in zip(a.path, b.path))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return (a.lv is None and b.lv is None) or (a.lv is not None and b.lv is not None and self.same(a.lv, b.lv) and ((a.off is None and b.off is None) or (a.off is not None and b.off is not None and a.off.eq(b.off))))
        if isinstance(a, Iter) and isinstance(b, Iter): return self.same(a.lv, b.lv) and a.i.eq(b.i)
        return False
    def vmerge(self, c, a, b):
        if a is b: return a
        if is_t(c): return a
        if is_f(c): return b
        if self.same(a, b): return a
        if z3.is_expr(a) and z3.is_expr(b) and not isinstance(a, Struct):
            if z3.is_array(a):
                # merged arrays are named, so that quantified facts about them have usable triggers
                m = z3.Const(self.fresh_id('marr'), a.sort())
                self.fact(z3.And(z3.Implies(c, m == a), z3.Implies(z3.Not(c), m == b)))
                return m
            return mkIf(c, a, b)
        if isinstance(a, Struct) and isinstance(b, Struct):
            if a.tid == b.tid: return Struct(a.tid, {k: self.vmerge(c, a.f[k], b.f[k]) for k in a.f})
            raise Unsupported('merge of different record types')
        if isinstance(a, Struct) and z3.is_expr(b): return self.vmerge(c, a, self.ty.unpack(a.tid, b))
        if isinstance(b, Struct) and z3.is_expr(a): return self.vmerge(c, self.ty.unpack(b.tid, a), b)
        if isinstance(a, Iter) and isinstance(b, Iter) and self.same(a.lv, b.lv):
            return Iter(a.lv, mkIf(c, a.i, b.i), a.rev)
        if isinstance(a, EIter) and isinstance(b, EIter) and self.same(a.lv, b.lv) and a.keys.eq(b.keys):
            return EIter(a.lv, mkIf(c, a.i, b.i), a.keys, a.n)
        if isinstance(a, MapIter) and isinstance(b, MapIter) and self.same(a.lv, b.lv):
            return MapIter(a.lv, mkIf(c, a.end, b.end), mkIf(c, a.key, b.key))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv is not None and b.lv is not None and a.off is not None and b.off is not None and self.same(a.lv, b.lv):
            return Ptr(a.lv, mkIf(c, a.off, b.off))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return PChoice([(c, a), (z3.BoolVal(True), b)])
        if isinstance(a, PChoice) or isinstance(b, PChoice):
            return PChoice([(c, a), (z3.BoolVal(True), b)])
        if isinstance(a, Special) and isinstance(b, Special): return a
        if isinstance(a, (LVal, LChoice)) and isinstance(b, (LVal, LChoice)):
            return LChoice([(c, a), (z3.BoolVal(True), b)])
        if isinstance(a, (Closure, OpaqueFn, FnRef, FChoice)) and isinstance(b, (Closure, OpaqueFn, FnRef, FChoice)):
            return FChoice([(c, a), (z3.BoolVal(True), b)])
        raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))

    def merge(self, states):
        states = [s for s in states if s is not None]
        if not states: return None
        cur = states[0]
        for s in states[1:]: cur = self.merge2(cur, s)
        return cur
    def merge2(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and (a.pc[n] is b.pc[n] or a.pc[n].eq(b.pc[n])): n += 1
        ra = mkAnd(*a.pc[n:]); rb = mkAnd(*b.pc[n:])
        roots = {}
        for r, v in a.roots.items():
            if r in b.roots:
                w = b.roots[r]
                if v is w: roots[r] = v
                else:
                    try: roots[r] = self.vmerge(ra, v, w)
                    except Unsupported as e:
                        roots[r] = Special('unmergeable', why=str(e))
            else: roots[r] = v
        for r, v in b.roots.items():
            if r not in roots: roots[r] = v
        if is_t(ra) or is_t(rb) or mkNot(ra).eq(rb) or mkNot(rb).eq(ra): pc = a.pc[:n]
        else:
            # drop complementary structure (c & x) | (~c & x)
            pc = a.pc[:n] + (mkOr(ra, rb),)
            if len(a.pc) > n and len(b.pc) > n and len(a.pc) == len(b.pc) and mkNot(a.pc[n]).eq(b.pc[n]) and all(x.eq(y) for x, y in zip(a.pc[n+1:], b.pc[n+1:])):
                pc = a.pc[:n] + a.pc[n+1:]
        return State(roots, pc)

    def with_pc(self, st, c):
        if is_f(c): return None
        s = st.clone()
        if not is_t(c): s.pc = s.pc + (c,)
        return s

    # ------------------------------------------------------------ arithmetic
    def arith(self, op, tid, a, b, node=None):
        ty = self.ty; k = ty.kind(tid)
        if k == 'fp': return self.fparith(op, tid, a, b)
        if k == 'bool':
            a = self.b2i(a); b = self.b2i(b)
            raise Unsupported('bool arithmetic')
        w, sg = ty.ibits(tid)
        if ty.isbv(tid):
            return self.bvarith(op, a, b, w, sg, node)
        if z3.is_bv(a): a = z3.BV2Int(a, sg)
        if z3.is_bv(b): b = z3.BV2Int(b, sg)
        lit = z3.is_int_value(a) and z3.is_int_value(b)
        if op in '+-*' and len(op) == 1:
            r = a + b if op == '+' else a - b if op == '-' else a * b
            if lit: r = z3.simplify(r)
            elif op == '+' and z3.is_int_value(b) and b.as_long() == 0: return a
            elif op == '-' and z3.is_int_value(b) and b.as_long() == 0: return a
            elif op == '*' and z3.is_int_value(b) and b.as_long() == 1: return a
            return self.fit(r, w, sg, node, op, a, b)
        if op in ('/', '%'):
            self.oblige('div-by-zero', b != 0, node, 'divisor is non-zero')
            if not sg: return a / b if op == '/' else a % b
            if sg and op == '/':
                self.oblige('overflow', mkNot(mkAnd(a == -(1 << (w - 1)), b == -1)), node, 'quotient representable')
            nn = z3.is_int_value(b) and b.as_long() > 0
            q = z3.If(a >= 0, a / b, -((-a) / b))
            return q if op == '/' else z3.If(a >= 0, a % b, -((-a) % b))
        if op == '<<' and z3.is_int_value(b):
            return self.fit(a * (1 << b.as_long()), w, sg, node, op, a, b)
        if op == '>>' and z3.is_int_value(b):
            r = a / z3.IntVal(1 << b.as_long())
            return self.named_bits('shr%d' % b.as_long(), a, r)
        if op == '&' and z3.is_int_value(b) and b.as_long() >= 0 and (b.as_long() & (b.as_long() + 1)) == 0:
            return self.named_bits('low%d' % b.as_long().bit_length(), a, a % z3.IntVal(b.as_long() + 1))
        if op in ('&', '|', '^', '<<', '>>'):
            f = self.uf('bit' + {'&': 'and', '|': 'or', '^': 'xor', '<<': 'shl', '>>': 'shr'}[op] + str(w), z3.IntSort(), z3.IntSort(), z3.IntSort())
            r = f(a, b); self.assume(self.range_of(tid, r))
            if op in '|^':  # disjoint bits: one operand a multiple of 2^k, the other below 2^k
                for x, y in ((a, b), (b, a)):
                    k = self.trailing(x)
                    if k: self.fact(z3.Implies(z3.And(x >= 0, y >= 0, y < (1 << k)), r == x + y)); break
            return r
        raise Unsupported('int op ' + op)
    def named_bits(self, nm, a, r):
        """bits of a combined word get a name, so that lemmas about equal words apply by congruence"""
        if not (a.decl().name().startswith('bitor') or a.decl().name().startswith('shr')): return r
        t = self.uf(nm, z3.IntSort(), z3.IntSort())(a)
        self.fact(t == r)
        return t
    def trailing(self, x):
        """number of low bits syntactically known to be zero"""
        k = self.lowzero.get(x.get_id(), (0, None))[0]
        if k: return k
        if z3.is_int_value(x):
            v = x.as_long(); return 0 if v == 0 else (v & -v).bit_length() - 1
        if x.decl().kind() == z3.Z3_OP_MUL:
            return sum(self.trailing(c) for c in x.children())
        if x.decl().kind() == z3.Z3_OP_ADD: return min(self.trailing(c) for c in x.children())
        if x.decl().kind() == z3.Z3_OP_ITE: return min(self.trailing(c) for c in x.children()[1:])
        if x.num_args() == 2 and x.decl().name().startswith('bitor'): return min(self.trailing(c) for c in x.children())
        return 0
    def fit(self, r, w, sg, node, op, a=None, b=None):
        if sg:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            if z3.is_int_value(r):
                if lo <= r.as_long() <= hi: return r
            self.oblige('overflow', z3.And(r >= lo, r <= hi), node, 'signed %d-bit %s does not overflow' % (w, op))
            return r
        m = 1 << w
        if z3.is_int_value(r): return z3.IntVal(r.as_long() % m)
        if op == '+': return z3.If(r < m, r, r - m)
        if op == '-': return z3.If(r >= 0, r, r + m)
        return z3.If(r < m, r, r % m)
    def bvarith(self, op, a, b, w, sg, node):
        if z3.is_int(a): a = z3.Int2BV(a, w)
        if z3.is_int(b): b = z3.Int2BV(b, w) if True else b
        if b.size() != w:
            b = z3.ZeroExt(w - b.size(), b) if b.size() < w else z3.Extract(w - 1, 0, b)
        if op == '+':
            if sg: self.oblige('overflow', z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)), node, 'signed add')
            return a + b
        if op == '-':
            if sg: self.oblige('overflow', z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)), node, 'signed sub')
            return a - b
        if op == '*':
            if sg: self.oblige('overflow', z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)), node, 'signed mul')
            return a * b
        if op == '/':
            self.oblige('div-by-zero', b != 0, node, 'divisor is non-zero')
            return a / b if sg else z3.UDiv(a, b)
        if op == '%':
            self.oblige('div-by-zero', b != 0, node, 'divisor is non-zero')
            return z3.SRem(a, b) if sg else z3.URem(a, b)
        if op == '&': return a & b
        if op == '|': return a | b
        if op == '^': return a ^ b
        if op in ('<<', '>>'):
            self.oblige('shift', z3.ULT(b, z3.BitVecVal(w, w)), node, 'shift amount in range')
            if op == '<<': return a << b
            return (a >> b) if sg else z3.LShR(a, b)
        raise Unsupported('bv op ' + op)
    def fparith(self, op, tid, a, b):
        if self.ty.fpmode == 'fp':
            rm = z3.RNE()
            if self.mode.get('fparith') == 'uf':
                srt = self.ty.sort(tid)
                return self.uf({'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'fdiv'}[op], srt, srt, srt)(a, b)
            if self.mode.get('fparith') == 'special':
                srt = self.ty.sort(tid); r = self.uf({'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'fdiv'}[op], srt, srt, srt)(a, b); nan, inf, zero, neg = z3.fpIsNaN, z3.fpIsInf, z3.fpIsZero, z3.fpIsNegative
                bad = {'+': z3.And(inf(a), inf(b), neg(a) != neg(b)), '-': z3.And(inf(a), inf(b), neg(a) == neg(b)), '*': z3.Or(z3.And(inf(a), zero(b)), z3.And(zero(a), inf(b))), '/': z3.Or(z3.And(inf(a), inf(b)), z3.And(zero(a), zero(b)))}[op]
                self.fact(nan(r) == z3.Or(nan(a), nan(b), bad))  # IEEE 754: when a result is not a number, and the sign of differences (gradual underflow)
                if op == '*': one = z3.FPVal(1.0, srt); self.fact(z3.And(*[z3.Implies(z3.And(z3.fpLEQ(z3.fpAbs(x), one), z3.Not(inf(y))), z3.Not(inf(r))) for x, y in ((a, b), (b, a))]))
                if op == '-':
                    subs = self.__dict__.setdefault('fsubs', [])
                    for x, y, q in subs:  # rounding is monotone
                        if y.eq(b): self.fact(z3.And(z3.Implies(z3.And(z3.fpLEQ(x, a), z3.Not(nan(q)), z3.Not(nan(r))), z3.fpLEQ(q, r)), z3.Implies(z3.And(z3.fpLEQ(a, x), z3.Not(nan(q)), z3.Not(nan(r))), z3.fpLEQ(r, q))))
                    subs.append((a, b, r))
                if op == '-': self.fact(z3.Implies(z3.Not(z3.Or(nan(a), nan(b), inf(a), inf(b))), z3.And(zero(r) == z3.fpEQ(a, b), z3.fpLT(r, z3.FPVal(0.0, srt)) == z3.fpLT(a, b))))
                return r
            if op == '+': return z3.fpAdd(rm, a, b)
            if op == '-': return z3.fpSub(rm, a, b)
            if op == '*': return z3.fpMul(rm, a, b)
            if op == '/': return z3.fpDiv(rm, a, b)
            raise Unsupported('fp op ' + op)
        if self.mode.get('fparith', 'uf') == 'exact':
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*': return a * b
            if op == '/':
                return a / b
            raise Unsupported('fp op ' + op)
        if self.mode.get('fparith', 'uf') == 'extended':
            I = self.inf(); R = z3.RealSort(); fin = lambda x: z3.And(x < I, x > -I); pos = (a > 0) == (b > 0); nan = lambda n: self.uf('undefined_' + n, R, R, R)(a, b)  # what the operation has no value for: any number
            if op in '+-':
                c = b if op == '+' else -b
                return z3.If(fin(a), z3.If(fin(b), a + c, c), z3.If(z3.Or(fin(b), a == c), a, nan('add')))
            if op == '*': return z3.If(z3.And(fin(a), fin(b)), a * b, z3.If(z3.Or(a == 0, b == 0), nan('mul'), z3.If(pos, I, -I)))
            if op == '/': return z3.If(b == 0, nan('div'), z3.If(fin(a), z3.If(fin(b), a / b, 0), z3.If(fin(b), z3.If(pos, I, -I), nan('div'))))
            raise Unsupported('fp op ' + op)
        R = z3.RealSort()
        nm = {'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'fdiv'}[op]
        f = self.uf(nm, R, R, R)
        zero = z3.RealVal(0); I = self.inf()
        if op in '+*' and b.get_id() < a.get_id(): a, b = b, a
        r = f(a, b)
        key = (nm, r.get_id())
        if key not in self.rangeknown:
            self.rangeknown.add(key)
            self._keepalive = getattr(self, '_keepalive', []); self._keepalive.append(r)
            self.fact(z3.And(r >= -I, r <= I))
            if op == '+':
                self.fact(z3.And(mkImp(b >= 0, r >= a), mkImp(a >= 0, r >= b), mkImp(b <= 0, r <= a), mkImp(a <= 0, r <= b),
                                 mkImp(z3.And(a == I, b > -I), r == I), mkImp(z3.And(b == I, a > -I), r == I)))
                self.fadds = getattr(self, 'fadds', []); self.fadds.append((a, b, r))
            elif op == '-':
                self.fact(z3.And(mkImp(z3.And(a < I, b < I), z3.And((r >= 0) == (a >= b), (r <= 0) == (a <= b))), mkImp(b == 0, r == a),
                                 mkImp(b >= 0, r <= a), mkImp(b <= 0, r >= a)))
            elif op == '*':
                self.fact(z3.And(mkImp(z3.And(a >= 0, b >= 0), r >= 0), mkImp(z3.And(a <= 0, b <= 0), r >= 0),
                                 mkImp(z3.And(a >= 0, b <= 0), r <= 0), mkImp(z3.And(a <= 0, b >= 0), r <= 0),
                                 mkImp(a == 1, r == b), mkImp(b == 1, r == a),
                                 mkImp(z3.And(a >= 0, b >= 0, b <= 1), r <= a), mkImp(z3.And(a >= 0, a <= 1, b >= 0), r <= b)))
            elif op == '/':
                self.fact(z3.And(mkImp(z3.And(a >= 0, b > 0), r >= 0), mkImp(z3.And(a <= 0, b > 0), r <= 0), mkImp(b == 1, r == a),
                                 mkImp(z3.And(a >= 0, b >= 1), r <= a), mkImp(z3.And(a == b, b > 0, b < I), r == 1),
                                 mkImp(z3.And(a >= 0, a <= b, b > 0), r <= 1)))
        return r
    def compare(self, op, tid, a, b):
        k = self.ty.kind(tid)
        if k == 'fp' and self.ty.fpmode == 'fp':
            return {'<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ, '==': z3.fpEQ, '!=': lambda x, y: z3.Not(z3.fpEQ(x, y))}[op](a, b)
        if op == '==': return self.fold(a == b)
        if op == '!=': return self.fold(mkNot(a == b))
        if z3.is_bv(a) or z3.is_bv(b):
            w, sg = self.ty.ibits(tid)
            if z3.is_int(a): a = z3.Int2BV(a, w)
            if z3.is_int(b): b = z3.Int2BV(b, w)
            if not sg: return self.fold({'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[op](a, b))
        return self.fold({'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y}[op](a, b))
    def fold(self, t):
        if all(z3.is_int_value(c) or z3.is_rational_value(c) or z3.is_bv_value(c) or z3.is_true(c) or z3.is_false(c) for c in (t.arg(0).children() if z3.is_not(t) else t.children())):
            return z3.simplify(t)
        return t
    def b2i(self, b): return z3.If(b, z3.IntVal(1), z3.IntVal(0))

    def convert(self, v, src, dst, node=None):
        """scalar conversion src type -> dst type"""
        ty = self.ty; ks, kd = ty.kind(src), ty.kind(dst)
        if ks == kd == 'bool': return v
        if kd == 'bool':
            if ks == 'int': return self.fold(v != self.intval(src, 0)) 
            if ks == 'fp': return mkNot(self.compare('==', src, v, self.fpval(src, 0.0)))
            if ks in ('ptr', 'fnobj'): return self.truth(v)
            raise Unsupported('to bool')
        if kd == 'int':
            w, sg = ty.ibits(dst)
            if ks == 'bool':
                if ty.isbv(dst): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
                return z3.simplify(self.b2i(v)) if (is_t(v) or is_f(v)) else self.b2i(v)
            if ks == 'int':
                w0, sg0 = ty.ibits(src)
                if ty.isbv(src) and ty.isbv(dst):
                    if w == w0: return v
                    if w < w0: return self.simp(z3.Extract(w - 1, 0, v))
                    return self.simp(z3.SignExt(w - w0, v) if sg0 else z3.ZeroExt(w - w0, v))
                if ty.isbv(src):
                    if z3.is_bv_value(v): v = z3.IntVal(v.as_signed_long() if sg0 else v.as_long())
                    else: v = z3.BV2Int(v, sg0)
                elif ty.isbv(dst):
                    if z3.is_int_value(v): return z3.BitVecVal(v.as_long(), w)
                    return z3.Int2BV(v, w)
                return self.wrapto(v, w0, sg0, w, sg)
            if ks == 'fp':
                if ty.fpmode == 'fp':
                    # C++: value truncated must be representable
                    lo, hi = (-(2 ** (w - 1)), 2 ** (w - 1)) if sg else (0, 2 ** w)
                    srt = ty.sort(src)
                    self.oblige('fp-to-int', z3.And(z3.fpLT(v, z3.FPVal(hi, srt)), z3.fpGT(v, z3.FPVal(lo - 1, srt)) if w < 53 else z3.fpGEQ(v, z3.FPVal(lo, srt))), node, 'floating value representable in target integer')
                    if self.mode.get('fparith') == 'uf':
                        r = self.uf('f2i%d' % w, srt, z3.IntSort())(v)
                        self.fact(z3.And(mkImp(z3.fpGEQ(v, z3.FPVal(1, srt)), r >= 1), mkImp(z3.fpGEQ(v, z3.FPVal(0, srt)), r >= 0), mkImp(z3.And(z3.fpLT(v, z3.FPVal(hi, srt)), z3.fpGEQ(v, z3.FPVal(lo, srt))), z3.And(r >= lo, r < hi))))
                        return r
                    if ty.isbv(dst): return z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(w)) if sg else z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(w))
                    r = z3.fpToReal(z3.fpRoundToIntegral(z3.RTZ(), v))
                    return z3.ToInt(r)
                r = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
                if z3.is_rational_value(v): r = z3.simplify(r)
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
                self.oblige('fp-to-int', z3.And(r >= lo, r <= hi), node, 'floating value representable in target integer')
                return r
        if kd == 'fp':
            if ks == 'bool': return z3.If(v, self.fpval(dst, 1.0), self.fpval(dst, 0.0))
            if ks == 'int':
                if ty.fpmode == 'fp':
                    if self.mode.get('fparith') == 'uf' and not z3.is_int_value(v): return self.uf('i2f%d' % ty.T[dst]['w'], z3.IntSort(), ty.sort(dst))(v)
                    if z3.is_bv(v): return z3.fpSignedToFP(z3.RNE(), v, ty.sort(dst)) if ty.ibits(src)[1] else z3.fpUnsignedToFP(z3.RNE(), v, ty.sort(dst))
                    return z3.fpRealToFP(z3.RNE(), z3.ToReal(v), ty.sort(dst))
                if z3.is_bv(v): v = z3.BV2Int(v, ty.ibits(src)[1])
                if z3.is_int_value(v):
                    w = ty.T[dst]['w']
                    return self.fpval(dst, float(v.as_long()))
                lim = 1 << (53 if ty.T[dst]['w'] == 64 else 24)
                if self.mode.get('fparith', 'uf') == 'exact' or ty.ibits(src)[0] < 53: return z3.ToReal(v)
                f = self.uf('i2d', z3.IntSort(), z3.RealSort())
                return z3.If(z3.And(v <= lim, v >= -lim), z3.ToReal(v), f(v))
            if ks == 'fp':
                if ty.fpmode == 'fp':
                    if ty.T[src]['w'] == ty.T[dst]['w']: return v
                    return z3.fpFPToFP(z3.RNE(), v, ty.sort(dst))
                if ty.T[src]['w'] <= ty.T[dst]['w'] or self.mode.get('fparith') == 'exact': return v
                f = self.uf('d2f', z3.RealSort(), z3.RealSort()); return f(v)
        if kd in ('ptr', 'nullptr'): return v
        raise Unsupported('conversion %s -> %s' % (ty.name(src), ty.name(dst)))
    def simp(self, v):
        return z3.simplify(v) if all(z3.is_bv_value(c) for c in v.children()) else v
    def wrapto(self, v, w0, sg0, w, sg):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        lo0, hi0 = (-(1 << (w0 - 1)), (1 << (w0 - 1)) - 1) if sg0 else (0, (1 << w0) - 1)
        if z3.is_int_value(v):
            x = v.as_long() % (1 << w)
            if sg and x > hi: x -= 1 << w
            return z3.IntVal(x)
        if lo <= lo0 and hi0 <= hi: return v
        if w == w0:
            if sg: return z3.If(v <= hi, v, v - (1 << w))
            return z3.If(v >= 0, v, v + (1 << w))
        if not sg:
            if w > w0: return z3.If(v >= 0, v, v + (1 << w))
            return z3.If(z3.And(v >= lo, v <= hi), v, v % (1 << w))
        return z3.If(z3.And(v >= lo, v <= hi), v, ((v + (1 << (w - 1))) % (1 << w)) - (1 << (w - 1)))

    def truth(self, v):
        if isinstance(v, Ptr): return z3.BoolVal(v.lv is not None)
        if isinstance(v, PChoice): return self.choose([(c, self.truth(x)) for c, x in v.alts])
        if isinstance(v, (Closure, FnRef)): return z3.BoolVal(True)
        if isinstance(v, OpaqueFn): return z3.BoolVal(True) if v.empty is None else mkNot(v.empty)
        if isinstance(v, FChoice): return self.choose([(c, self.truth(x)) for c, x in v.alts])
        if z3.is_expr(v):
            if z3.is_bool(v): return v
            if v.sort().eq(self.ty.PtrSort): return v != z3.Const('nullp', self.ty.PtrSort)
        raise Unsupported('truth of %r' % (v,))

    # ------------------------------------------------------------ expressions
    def rv(self, e):
        """evaluate to a value"""
        v = self.ev(e)
        if isinstance(v, (LVal, LChoice)): return self.load(v)
        return v
    def asval(self, v):
        return self.load(v) if isinstance(v, (LVal, LChoice)) else v
    def aslv(self, v, tid, nm='tmp'):
        if isinstance(v, (LVal, LChoice)): return v
        return self.new_root(tid, v, nm)
    def ev(self, e):
        if self.st is None: raise Dead()
        if e is None: raise Unsupported('missing expression')
        m = getattr(self, 'x_' + e['k'], None)
        if m is None: raise Unsupported('expression kind %s (%s) at line %s' % (e['k'], e.get('what', ''), e.get('l')))
        return m(e)
    def x_const(self, e):
        t = self.ty.kind(e['t'])
        if t == 'bool': return z3.BoolVal(e['v'] != '0')
        return self.intval(e['t'], int(e['v']))
    def x_fconst(self, e):
        import struct
        if e['d'] == 64: d = struct.unpack('<d', struct.pack('<Q', int(e['bits'], 16)))[0]
        else: d = struct.unpack('<f', struct.pack('<I', int(e['bits'], 16)))[0]
        if d != d and self.ty.fpmode == 'fp': return z3.fpNaN(self.ty.sort(e['t']))
        if d != d: return self.nanconst()
        return self.fpval(e['t'], d)
    def nanconst(self):
        raise Unsupported('NaN in real mode')
    def x_str(self, e): return Special('str', v=e['v'])
    def x_nullptr(self, e): return Ptr(None)
    def x_var(self, e):
        fr = self.frames[-1]
        lv = fr.env.get(e['id'])
        if lv is not None: return lv
        if e['id'] in self.globals:
            g = self.globals[e['id']]
            if g.root not in self.st.roots: self.st.roots[g.root] = self.globvals[g.root]
            return g
        if 'init' in e and e['init'] is not None:
            v = self.rv(e['init'])
            v = self.const_table(e, v)
            lv = self.new_root(e['vt'] if self.ty.kind(e['vt']) != 'ref' else self.ty.strip_ref(e['vt']), v, 'g_' + e['n'])
            self.globals[e['id']] = lv
            self.globvals = getattr(self, 'globvals', {}); self.globvals[lv.root] = v
            return lv
        if e['id'] in self.statics:
            return self.statics[e['id']]
        raise Unsupported('variable %s unbound' % e['n'])
    def const_table(self, e, v):
        """large constant arrays become a named array described by proved properties of their elements"""
        hook = getattr(self.task, 'ontable', None)
        if hook is None or not isinstance(v, Struct) or self.ty.kind(v.tid) != 'arr': return v
        items = {}; a = v.f['arr']
        while z3.is_app_of(a, z3.Z3_OP_STORE):
            if not z3.is_int_value(a.arg(1)): return v
            items.setdefault(a.arg(1).as_long(), a.arg(2)); a = a.arg(0)
        n = self.ty.arrlen(v.tid)
        if n < 17: return v
        dflt = a.arg(0) if z3.is_app_of(a, z3.Z3_OP_CONST_ARRAY) else None
        t = z3.Const(self.fresh_id('table'), a.sort())
        vals = [items.get(i, dflt) for i in range(n)]
        if any(x is None for x in vals): return v
        hook(self, t, vals)  # proves properties of the literal values and states them for t
        return Struct(v.tid, {'arr': t})
    def x_binding(self, e):
        fr = self.frames[-1]
        lv = fr.env.get(e['id'])
        if lv is not None: return lv
        raise Unsupported('structured binding ' + e['n'])
    def x_fnref(self, e): return FnRef(e['fn'], e['q'], e)
    def x_this(self, e):
        t = self.frames[-1].this
        if t is None: raise Unsupported('this outside a method')
        return Ptr(t)
    def deref(self, p, node=None):
        if isinstance(p, (LVal, LChoice)): return self.deref(self.load(p), node)
        if isinstance(p, Ptr):
            if p.lv is None:
                self.oblige('null-deref', z3.BoolVal(False), node, 'pointer is not null'); self.die()
            if p.off is not None: return self.elem_at(p.lv, p.off, node, 'ptr')
            return p.lv
        if isinstance(p, PChoice):
            alts = [(c, x) for c, x in p.alts]
            out = []; seen = z3.BoolVal(False)
            for c, x in alts:
                if isinstance(x, Ptr) and x.lv is None:
                    self.oblige('null-deref', mkNot(mkAnd(c, mkNot(seen))), node, 'pointer is not null')
                else: out.append((c, self.deref(x, node)))
                seen = mkOr(seen, c)
            if len(out) == 1: return out[0][1]
            return LChoice(out)
        if isinstance(p, Iter): return self.elem_at(p.lv, p.i, node, 'iter')
        if isinstance(p, Closure): return self.new_root(-1, p)
        raise Unsupported('dereference of %r' % (p,))
    def vlen(self, lv, st=None):
        v = self.load(lv, st)
        if self.ty.kind(v.tid) == 'arr': return self.nat(self.ty.arrlen(v.tid))
        n = v.f['len']
        self.ground_nat(n)
        return n
    def natlt(self, a, b): return self.fold(z3.ULT(a, b) if z3.is_bv(a) else a < b)
    def elem_at(self, lv, i, node, why='index'):
        """unchecked element access: index must be in range"""
        if isinstance(lv, LChoice): return LChoice([(c, self.elem_at(l, i, node, why)) for c, l in lv.alts])
        n = self.vlen(lv)
        if z3.is_bv(i) and not z3.is_bv(n): i = z3.BV2Int(i)
        if z3.is_int(i) and z3.is_bv(n): i = z3.Int2BV(i, 64)
        g = mkAnd(i >= 0, i < n) if not z3.is_bv(i) else z3.ULT(i, n)
        if why == 'index' and self.ty.T[self.load(lv).tid].get('n') == 'std::basic_string' and z3.is_int(i): g = mkAnd(i >= 0, i <= n)  # s[s.size()] is the terminator (an arbitrary value here)
        self.oblige('bounds', self.fold2(g), node, 'element access within bounds')
        v = self.load(lv)
        return lv.idx(i, self.ty.elem(v.tid))
    def fold2(self, g):
        s = z3.simplify(g)
        return s if (is_t(s) or is_f(s)) else g

    def x_member(self, e):
        o = self.ev(e['o'])
        if e.get('arrow'): o = self.deref(o, e)
        if isinstance(o, LChoice): return LChoice([(c, self.member(l, e)) for c, l in o.alts])
        return self.member(o, e)
    def member(self, o, e):
        if isinstance(o, LVal):
            v = self.load(o)
            if isinstance(v, Struct):
                ft = self.ty.fieldtid(v.tid, e['f'])
                if '__live' in v.f and not getattr(self, 'rawunion', 0) and not self.mode.get('wholeunion'):
                    idx = [n for n, d in self.ty.fields(v.tid)].index(e['f'])
                    self.oblige('lifetime', v.f['__live'] == idx + 1, e, 'the union member accessed is the one alive')
                if ft is not None and self.ty.kind(ft) == 'ref':
                    return self.deref(v.f[e['f']], e)
                return o.fld(e['f'], ft)
            raise Unsupported('member %s of %r' % (e['f'], v))
        if isinstance(o, Struct):
            ft = self.ty.fieldtid(o.tid, e['f'])
            x = o.f[e['f']]
            return self.ty.unpack(ft, x) if z3.is_expr(x) else x
        if z3.is_expr(o):
            return self.member(self.ty.unpack(e['o']['t'], o), e)
        raise Unsupported('member of %r' % (o,))
    def x_mat(self, e):
        v = self.ev(e['e'])
        if isinstance(v, (LVal, LChoice)): return v
        return self.new_root(e['t'], v, 'mat')
    def x_cast(self, e):
        ck = e['ck']; sub = e['e']
        if ck == 'LValueToRValue': return self.rv(sub)
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic', 'AtomicToNonAtomic', 'NonAtomicToAtomic'): return self.ev(sub)
        if ck == 'ToVoid': self.ev(sub); return None
        if ck in ('IntegralCast', 'IntegralToBoolean', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'FloatingToBoolean', 'BooleanToSignedIntegral', 'PointerToBoolean'):
            return self.convert(self.rv(sub), sub['t'], e['t'], e)
        if ck == 'ArrayToPointerDecay':
            a = self.ev(sub)
            if isinstance(a, Special) : return a
            return Ptr(a, self.nat(0))
        if ck == 'FunctionToPointerDecay': return self.ev(sub)
        if ck == 'NullToPointer': return Ptr(None)
        if ck in ('BitCast', 'LValueBitCast'):
            return self.lib.bitcast(self, e, self.ev(sub))
        if ck == 'PointerToIntegral' or ck == 'IntegralToPointer': raise Unsupported('cast ' + ck)
        return self.ev(sub)
    def addrof(self, v):
        if isinstance(v, LVal) and v.path and v.path[-1][0] == 'i' and not isinstance(v.path[-1][1], tuple):
            return Ptr(LVal(v.root, v.path[:-1], None), v.path[-1][1])
        if isinstance(v, FnRef): return v
        return Ptr(v)
    def x_unop(self, e):
        op = e['op']
        if op == '*':
            p = self.rv(e['e']); return self.deref(p, e)
        if op == '&':
            return self.addrof(self.ev(e['e']))
        if op == '!':
            v = self.rv(e['e'])
            return mkNot(v if z3.is_bool(v) else self.truth(v))
        if op in ('++', '--'):
            lv = self.ev(e['e']); old = self.load(lv)
            tid = e['e']['t']
            d = op[0]
            if isinstance(old, Ptr): new = Ptr(old.lv, self.natop(d, old.off, self.nat(1)))
            elif isinstance(old, Iter): new = self.lib.iter_step(self, old, d, e)
            elif self.ty.kind(tid) == 'fp': new = self.fparith(d, tid, old, self.fpval(tid, 1.0))
            else:
                w, sg = self.ty.ibits(tid)
                if w < 32 and not self.ty.isbv(tid): new = self.wrapto(old + 1 if d == '+' else old - 1, 32, True, w, sg)
                elif w < 32: new = old + 1 if d == '+' else old - 1
                else: new = self.arith(d, tid, old, self.intval(tid, 1), e)
            self.store(lv, new)
            return old if e.get('post') else lv
        v = self.rv(e['e']); tid = e['t']
        if op == '+': return v
        if op == '-':
            if self.ty.kind(tid) == 'fp': return z3.fpNeg(v) if self.ty.fpmode == 'fp' else z3.simplify(-v) if z3.is_rational_value(v) else -v
            return self.arith('-', tid, self.intval(tid, 0), v, e)
        if op == '~':
            if self.ty.isbv(tid): return ~v
            w, sg = self.ty.ibits(tid)
            return (-v - 1) if sg else ((1 << w) - 1 - v)
        raise Unsupported('unary ' + op)
    def natop(self, d, a, b): return z3.simplify(a + b if d == '+' else a - b) if (z3.is_int_value(a) and z3.is_int_value(b)) else (a + b if d == '+' else a - b)
    def x_binop(self, e):
        op = e['op']
        if op == ',':
            self.ev(e['a']); return self.ev(e['b'])
        if op in ('&&', '||'):
            a = self.rv(e['a'])
            if is_t(a): return self.rv(e['b']) if op == '&&' else a
            if is_f(a): return a if op == '&&' else self.rv(e['b'])
            s0 = self.st
            c = a if op == '&&' else mkNot(a)
            self.st = self.with_pc(s0, c)
            other = self.with_pc(s0, mkNot(c))
            try:
                b = self.rv(e['b']); sb = self.st
            except Dead:
                self.st = other
                if self.st is None: raise
                return z3.BoolVal(op == '||')
            self.st = self.merge([sb, other])
            # b's facts are guarded by pc; the result is the plain connective
            return mkAnd(a, b) if op == '&&' else mkOr(a, b)
        a = self.rv(e['a']); b = self.rv(e['b'])
        return self.binop(op, e, e['a']['t'], e['b']['t'], a, b)
    def binop(self, op, e, ta, tb, a, b):
        ka = self.ty.kind(ta); kb = self.ty.kind(tb)
        if isinstance(a, (Ptr, PChoice)) or isinstance(b, (Ptr, PChoice)) or ka == 'ptr' or kb == 'ptr':
            return self.ptrop(op, e, a, b, tb)
        if op in ('<', '<=', '>', '>=', '==', '!='):
            if ka == 'bool':
                return self.fold(a == b) if op == '==' else self.fold(mkNot(a == b)) if op == '!=' else self.compare(op, self.ty.find('int'), self.b2i(a), self.b2i(b))
            return self.compare(op, ta, a, b)
        return self.arith(op, e['t'], a, b, e)
    def ptrop(self, op, e, a, b, tb):
        if op in ('==', '!='):
            if isinstance(a, (Ptr, PChoice)) and isinstance(b, (Ptr, PChoice)):
                r = self.ptreq(a, b)
                return r if op == '==' else mkNot(r)
            if z3.is_expr(a) and z3.is_expr(b): return a == b if op == '==' else a != b
            if isinstance(b, Ptr) and b.lv is None: return mkNot(self.truth(a)) if op == '==' else self.truth(a)
        if op in ('+', '-') and isinstance(a, Ptr) and not isinstance(b, Ptr):
            if a.off is None: raise Unsupported('pointer arithmetic')
            if z3.is_bv(b): b = z3.BV2Int(b, self.ty.ibits(tb)[1])
            return Ptr(a.lv, self.natop(op, a.off, b))
        if op == '-' and isinstance(a, Ptr) and isinstance(b, Ptr) and self.same(a.lv, b.lv): return a.off - b.off
        raise Unsupported('pointer operation ' + op)
    def ptreq(self, a, b):
        if isinstance(a, PChoice): return self.choose([(c, self.ptreq(x, b)) for c, x in a.alts])
        if isinstance(b, PChoice): return self.choose([(c, self.ptreq(a, x)) for c, x in b.alts])
        if (a.lv is None) != (b.lv is None): return z3.BoolVal(False)
        if a.lv is None: return z3.BoolVal(True)
        if self.same(a.lv, b.lv):
            if a.off is None and b.off is None: return z3.BoolVal(True)
            if a.off is not None and b.off is not None: return a.off == b.off
        if a.lv.root != b.lv.root: return z3.BoolVal(False)
        return self.lveq(a.lv, b.lv)
    def lveq(self, a, b):
        if a.root != b.root or len(a.path) != len(b.path): return z3.BoolVal(False)
        cs = []
        for x, y in zip(a.path, b.path):
            if x[0] != y[0]: return z3.BoolVal(False)
            if x[0] == 'f':
                if x[1] != y[1]: return z3.BoolVal(False)
            elif isinstance(x[1], tuple): cs += [p == q for p, q in zip(x[1], y[1])]
            else: cs.append(x[1] == y[1])
        return mkAnd(*cs)
    def x_assign(self, e):
        # right operand is sequenced before the left one
        b = self.rv(e['b'])
        lv = self.ev(e['a'])
        self.store(lv, b); return lv
    def x_cassign(self, e):
        b = self.rv(e['b'])
        lv = self.ev(e['a'])
        a = self.load(lv)
        if isinstance(a, Ptr):
            self.store(lv, Ptr(a.lv, self.natop(e['op'], a.off, b))); return lv
        ta = e['a']['t']
        a2 = self.convert(a, ta, e['lt'], e)
        if e['op'] in ('<<', '>>'):
            r = self.arith(e['op'], e['ct'], a2, b, e)
        else:
            r = self.arith(e['op'], e['ct'], a2, self.convert(b, e['b']['t'], e['ct'], e) if self.ty.kind(e['ct']) in ('int', 'fp', 'bool') else b, e)
        self.store(lv, self.convert(r, e['ct'], ta, e)); return lv
    def x_cond(self, e):
        c = self.rv(e['c'])
        if is_t(c): return self.ev(e['a'])
        if is_f(c): return self.ev(e['b'])
        s0 = self.st
        outs = []
        for cc, sub in ((c, e['a']), (mkNot(c), e['b'])):
            self.st = self.with_pc(s0, cc)
            try:
                v = self.ev(sub); outs.append((cc, v, self.st))
            except Dead: pass
        if not outs: self.die()
        self.st = self.merge([o[2] for o in outs])
        if len(outs) == 1: return outs[0][1]
        va, vb = outs[0][1], outs[1][1]
        if isinstance(va, (LVal, LChoice)) != isinstance(vb, (LVal, LChoice)): va, vb = self.asval(va), self.asval(vb)
        if va is None: return None
        return self.vmerge(c, va, vb)
    def x_subscript(self, e):
        a = self.ev(e['a']); i = self.rv(e['b'])
        if isinstance(a, (LVal, LChoice)): a = self.load(a)
        if isinstance(a, Special) and a.kind == 'str':
            return self.lib.str_index(self, a, i, e)
        if isinstance(a, Ptr):
            if z3.is_bv(i) and not self.ty.natbv: i = z3.BV2Int(i, self.ty.ibits(e['b']['t'])[1])
            off = a.off if a.off is not None else None
            if off is None: raise Unsupported('subscript of plain pointer')
            return self.elem_at(a.lv, self.natop('+', off, i) if not (z3.is_int_value(off) and off.as_long() == 0) else i, e)
        raise Unsupported('subscript of %r' % (a,))
    def x_zeroinit(self, e): return self.zero(e['t'])
    def x_throw(self, e):
        et = self.ty.name(e['et']) if e.get('et') is not None else 'rethrow'
        self.throws.append(Thrown(self.st, et, e, self.frames[-1].fn if self.frames else None))
        self.die()
    def throw_if(self, cond, et, node):
        """branch off an exceptional outcome when cond holds, continue with its negation"""
        if is_f(cond): return
        s = self.with_pc(self.st, cond)
        if s is not None: self.throws.append(Thrown(s, et, node, self.frames[-1].fn if self.frames else None))
        n = self.with_pc(self.st, mkNot(cond))
        if n is None: self.die()
        self.st = n
    def x_lambda(self, e):
        fr = self.frames[-1]
        env = {}; this = None
        for c in e['caps']:
            if c.get('this'): this = fr.this
            elif 'init' in c and c['init'] is not None:
                if c.get('byref'): env[c['id']] = self.ev(c['init'])
                else: env[c['id']] = self.new_root(c['t'], self.rv(c['init']), c['n'])
                self.varname[c['id']] = c['n']
            elif 'id' in c:
                lv = fr.env.get(c['id'])
                if lv is None: continue
                self.varname[c['id']] = c['n']
                if c.get('byref'): env[c['id']] = lv
                else: env[c['id']] = self.new_root(lv.tid if lv.tid is not None else c['t'], self.load(lv), c['n'])
        cl = Closure(e.get('fn'), env, this if this is not None else fr.this, e['lam'])
        return cl
    def x_stdilist(self, e): return self.ev(e['e'])
    def x_initlist(self, e):
        ty = self.ty; k = ty.kind(e['t'])
        if k == 'arr':
            vals = [self.rv(a) for a in e['a']]
            if ty.T[e['t']].get('n') == 'std::array' and len(vals) == 1 and isinstance(vals[0], Struct) and ty.kind(vals[0].tid) == 'arr' and ty.T[vals[0].tid]['k'] == 'arr':
                return Struct(e['t'], {'arr': vals[0].f['arr']})
            d = ('t', ty.elem(e['t']))
            arr = self.zero(e['t']).f['arr'] if ty.kind(ty.elem(e['t'])) not in ('fnobj', 'ptr', 'obj') else z3.Const(self.fresh_id('ia'), ty.dsort(ty.fields(e['t'])[0][1]))
            if len(vals) == 0 and e.get('filler'):
                return Struct(e['t'], {'arr': z3.K(ty.I, ty.pack(d, self.rv(e['filler'])))})
            for i, v in enumerate(vals): arr = z3.Store(arr, self.nat(i), ty.pack(d, v))
            return Struct(e['t'], {'arr': arr})
        if k == 'rec' or k == 'tuple':
            fs = ty.fields(e['t'])
            vals = [self.rv(a) for a in e['a']]
            f = {}
            for i, (n, d) in enumerate(fs):
                f[n] = vals[i] if i < len(vals) else self.zero(d[1])
            return Struct(e['t'], f)
        if len(e['a']) == 1: return self.rv(e['a'][0])
        if len(e['a']) == 0: return self.zero(e['t'])
        raise Unsupported('initializer list of ' + ty.name(e['t']))
    def x_new(self, e):
        if e.get('pl'):
            self.rawunion = getattr(self, 'rawunion', 0) + 1
            try: lv = self.deref(self.rv(e['pl']), e)
            finally: self.rawunion -= 1
            u, idx = self.union_of(lv)
            if u is None: raise Unsupported('placement new outside a union')
            v = self.rv(e['e'])
            self.oblige('lifetime', self.load(u).f['__live'] == 0, e, 'no union member is alive where a new one is constructed')
            self.store(lv, v); self.store(u.fld('__live', None), z3.IntVal(idx + 1))
            return Ptr(lv)
        v = self.rv(e['e']) if e.get('e') else self.fresh(e['nt'])
        return Ptr(self.new_root(e['nt'], v, 'heap'))
    def x_delete(self, e): self.ev(e['e']); return None
    def x_typeid(self, e): return Special('typeid')
    def x_pseudodtor(self, e): return None

    # ------------------------------------------------------------ calls
    def x_call(self, e):
        if 'fn' in e: return self.docall(e, None, e['a'])
        c = self.rv(e['callee'])
        args = [self.ev(a) for a in e['a']]
        return self.invoke(c, args, e)
    def union_of(self, lv):
        if not isinstance(lv, LVal) or not lv.path: return None, None
        u = LVal(lv.root, lv.path[:-1], None) if True else None
        v = self.load(u)
        if isinstance(v, Struct) and '__live' in v.f and lv.path[-1][0] == 'f':
            ns = [n for n, d in self.ty.fields(v.tid)]
            return LVal(lv.root, lv.path[:-1], v.tid), ns.index(lv.path[-1][1])
        return None, None
    def x_mcall(self, e):
        if e.get('name', '').startswith('~') and e['o'].get('k') == 'member':
            self.rawunion = getattr(self, 'rawunion', 0) + 1
            try: o = self.ev(e['o'])
            finally: self.rawunion -= 1
            if e.get('arrow'): o = self.deref(o, e)
            u, idx = self.union_of(o)
            if u is None: raise Unsupported('explicit destructor call')
            self.oblige('lifetime', self.load(u).f['__live'] == idx + 1, e, 'the union member destroyed is the one alive')
            self.store(u.fld('__live', None), z3.IntVal(0))
            return None
        o = self.ev(e['o'])
        if e.get('arrow'): o = self.deref(o, e)
        return self.docall(e, o, e['a'])
    def x_opcall(self, e):
        if 'fn' not in e: raise Unsupported('operator call without callee')
        if 'cls' in e: 
            o = self.ev(e['a'][0])
            return self.docall(e, o, e['a'][1:])
        return self.docall(e, None, e['a'])
    def x_ctor(self, e):
        return self.construct(e, e['t'], e['a'])

    def docall(self, e, this, args):
        fid = e['fn']; f = self.F.get(fid)
        q = e['q']
        # operator() on callable objects
        if this is not None and e['name'] == 'operator()' and self.ty.kind(e['cls']) == 'fnobj':
            c = self.load(this) if isinstance(this, (LVal, LChoice)) else this
            return self.invoke(c, [self.ev(a) for a in args], e)
        if this is not None and e.get('virt') and not e.get('qualified'):
            fid, f = self.resolve_virtual(e, this, fid, f)
            q = f['q'] if f else q
        con = self.find_contract(q, f, e)
        if con is not None:
            av = [self.ev(a) for a in args]
            self.used_contracts[q] = self.used_contracts.get(q, 0) + 1
            return con(self, Call(self, e, f, this, av))
        if f is not None and self.whole_union(f) and f['name'] == 'operator=':
            self.union_contract('operator='); src = self.ev(args[0]); self.store(this, self.load(src) if isinstance(src, (LVal, LChoice)) else src); return this
        if f is not None and f.get('repo'):
            if f.get('defaulted') or ('body' not in f and f['name'] == 'operator='):
                if f['name'] == 'operator=':
                    src = self.ev(args[0]); o = self.load(this)
                    own = [(n, d[1], self.user_assign(d[1], bool(f.get('moveassign')))) for n, d in self.ty.fields(o.tid) if isinstance(d, tuple) and d[0] == 't'] if isinstance(o, Struct) and self.ty.kind(o.tid) == 'rec' else []
                    if isinstance(src, LVal) and any(g for _, _, g in own):
                        for n, d in self.ty.fields(o.tid):
                            t = d[1] if isinstance(d, tuple) and d[0] == 't' else None
                            g = [g for m, _, g in own if m == n and g]
                            if g and not self.whole_union(g[0]): self.call(g[0], this.fld(n, t), [src.fld(n, t)], e)
                            else: self.store(this.fld(n, t), self.load(src.fld(n, t)))
                        return this
                    b = self.load(src) if isinstance(src, (LVal, LChoice)) else src
                    self.store(this, b); return this
            if 'body' in f:
                av = [self.ev(a) for a in args]
                return self.call(f, this, av, e)
        r = self.lib.call(self, e, q, this, args, f)
        return r
    def whole_union(self, f):
        """mode wholeunion: copying, moving and destroying a tagged union follow its contract (proved under C11): the target equals what the source held"""
        return self.mode.get('wholeunion') and f.get('cls') is not None and 'TaggedUnion<' in self.ty.name(f['cls']) and '::operator' not in self.ty.name(f['cls'])
    def union_contract(self, n):
        q = 'internal::TaggedUnion: %s (contract proved under C11)' % n; self.used_contracts[q] = self.used_contracts.get(q, 0) + 1
    def user_assign(self, tid, move):
        """the user-provided assignment operator of a member's class, if any"""
        if self.ty.kind(tid) != 'rec': return None
        c = [g for g in self.F.values() if g.get('cls') == tid and g['name'] == 'operator=' and 'body' in g]
        best = [g for g in c if bool(g.get('moveassign')) == move] or c
        return best[0] if best else None
    def find_contract(self, q, f, e):
        c = self.contracts.get(q)
        if c is None: return None
        if self.task is not None and f is not None and self.task.proving is f['id'] and not any(fr.fn is f for fr in self.frames): return None
        return c
    def resolve_virtual(self, e, this, fid, f):
        lv = this
        v = self.load(lv) if isinstance(lv, LVal) else lv
        if not isinstance(v, Struct): return fid, f
        # search for the overrider starting at the dynamic class
        def supers(fn):
            s = set(fn.get('over', []))
            for x in list(s):
                if x in self.F: s |= supers(self.F[x])
            return s
        cls = v.tid
        todo = [cls]; 
        while todo:
            c = todo.pop(0)
            r = self.ty.R.get(str(c))
            if r is None: continue
            for nm, vid in r.get('virt', []):
                if vid == fid: return fid, self.F.get(vid, f)
                g = self.F.get(vid)
                if g is not None and fid in supers(g): return vid, g
            todo += r['b']
        return fid, f

    def invoke(self, c, args, e):
        if isinstance(c, (LVal, LChoice)): c = self.load(c)
        if isinstance(c, Closure):
            f = self.F.get(c.fn)
            if f is None or 'body' not in f:
                fid = e.get('fn'); f = self.F.get(fid)
                if f is None or 'body' not in f: raise Unsupported('generic lambda body')
            return self.call(f, c.this, args, e, closure=c)
        if isinstance(c, FnRef):
            f = self.F.get(c.fn)
            con = self.find_contract(c.q, f, e)
            if con is not None: return con(self, Call(self, e, f, None, args))
            if f is not None and 'body' in f: return self.call(f, None, args, e)
            raise Unsupported('call through reference to ' + c.q)
        if isinstance(c, OpaqueFn):
            if c.empty is not None: self.oblige('empty-callback', mkNot(c.empty), e, 'callback %s is not empty when called' % c.name)
            if c.model is None: self.die()
            return c.model(self, args, e)
        if isinstance(c, FChoice):
            s0 = self.st; outs = []; seen = z3.BoolVal(False)
            for cond, x in c.alts:
                g = mkAnd(cond, mkNot(seen)); seen = mkOr(seen, cond)
                self.st = self.with_pc(s0, g)
                if self.st is None: continue
                try:
                    v = self.asval(self.invoke(x, args, e)); outs.append((g, v, self.st))
                except Dead: pass
            if not outs: self.die()
            self.st = self.merge([o[2] for o in outs])
            if outs[0][1] is None: return None
            return self.choose([(g, v) for g, v, _ in outs])
        if isinstance(c, Struct):  # functor object
            raise Unsupported('functor object call')
        raise Unsupported('call of %r' % (c,))

    def call(self, f, this, args, site, closure=None):
        """inline a repository function"""
        if len(self.frames) > self.maxdepth: raise Unsupported('call depth (recursion?) at ' + f['q'])
        if sum(1 for fr in self.frames if fr.fn is f) > 3: raise Unsupported('recursion in ' + f['q'])
        self.used_fns[(f['q'], f.get('file', '').split('/')[-1], f.get('line'))] = self.used_fns.get((f['q'], f.get('file', '').split('/')[-1], f.get('line')), 0) + 1
        fr = Frame(f, this, site.get('l') if site else 0, self.frames[-1] if self.frames else None)
        if closure is not None: fr.env.update(closure.env)
        if isinstance(this, Struct) or (this is not None and not isinstance(this, (LVal, LChoice))):
            fr.this = this = self.new_root(f['cls'], this, 'this') if not isinstance(this, (Closure,)) else this
        ps = f['ps']
        for i, p in enumerate(ps):
            if i >= len(args): raise Unsupported('missing argument')
            self.bind_param(fr, p, args[i])
        s_pc = self.st.pc
        self.frames.append(fr)
        try:
            if 'inits' in f and f.get('isctor'): self.run_inits(f, this)
            try:
                if 'body' in f: self.exec(f['body'])
            except Dead: self.st = None
        finally:
            self.frames.pop()
        rets = fr.returns
        if self.st is not None:
            rets = rets + [(self.st, None)]
        if not rets: self.die()
        if len(rets) == 1:
            self.st, v = rets[0]
            return v
        # merge return states
        if all(v is None for _, v in rets):
            self.st = self.merge([s for s, _ in rets]); return None
        isl = [isinstance(v, (LVal, LChoice)) for _, v in rets]
        if all(isl) and all(self.same(rets[0][1], v) for _, v in rets):
            self.st = self.merge([s for s, _ in rets]); return rets[0][1]
        key = self.fresh_id('ret')
        self.rootinfo[key] = (f['ret'], 'ret')
        for s, v in rets: s.roots[key] = v
        self.st = self.merge([s for s, _ in rets])
        v = self.st.roots.pop(key)
        if isinstance(v, Special) and v.kind == 'unmergeable': raise Unsupported('return values of %s: %s' % (f['q'], v.d['why']))
        return v
    def bind_param(self, fr, p, a):
        self.varname[p['id']] = p['n']
        if self.ty.kind(p['t']) == 'ref':
            if not isinstance(a, (LVal, LChoice)):
                a = self.new_root(self.ty.strip_ref(p['t']), a, p['n'] or 'arg')
            fr.env[p['id']] = a
        else:
            a = self.asval(a)
            fr.env[p['id']] = self.new_root(p['t'], a, p['n'] or 'arg')
    def run_inits(self, f, this):
        o = self.load(this)
        if isinstance(o, Struct) and isinstance(o.f.get(''), Struct) and '__live' in o.f[''].f:
            self.store(this.fld('', o.f[''].tid).fld('__live', None), z3.IntVal(0))
        for i in f['inits']:
            if 'field' in i and isinstance(o, Struct) and isinstance(o.f.get(''), Struct) and i['field'] not in o.f and i['e'] is not None:
                un = o.f['']; v = self.ev(i['e'])
                if isinstance(v, (LVal, LChoice)): v = self.load(v)
                ns = [n for n, d in self.ty.fields(un.tid)]; lu = this.fld('', un.tid)
                self.store(lu.fld(i['field'], self.ty.fieldtid(un.tid, i['field'])), v); self.store(lu.fld('__live', None), z3.IntVal(ns.index(i['field']) + 1))
                continue
            if i.get('deleg'):
                v = self.ev(i['e'])
                if isinstance(v, LVal): v = self.load(v)
                self.store(this, v)
            elif 'base' in i:
                v = self.ev(i['e'])
                if isinstance(v, (LVal,)): v = self.load(v)
                if isinstance(v, Struct):
                    for n in v.f: self.store(this.fld(n, None), v.f[n])
            else:
                o = self.load(this)
                ft = self.ty.fieldtid(o.tid, i['field'])
                if i['e'] is None: continue
                v = self.ev(i['e'])
                if self.ty.kind(ft) == 'ref':
                    v = Ptr(v) if isinstance(v, (LVal, LChoice)) else v
                elif isinstance(v, (LVal, LChoice)): v = self.load(v)
                self.store(this.fld(i['field'], ft), v)
    def construct(self, e, tid, args):
        ty = self.ty; k = ty.kind(tid)
        f = self.F.get(e['fn'])
        if k == 'rec' and f is not None and f.get('repo'):
            con = self.find_contract(e['q'], f, e)
            if con is not None:
                self.used_contracts[e['q']] = self.used_contracts.get(e['q'], 0) + 1
                return con(self, Call(self, e, f, None, [self.ev(a) for a in args]))
            if (e.get('copy') or e.get('move')) and 'body' not in f:
                return self.rv(args[0])
            if (e.get('copy') or e.get('move')) and self.whole_union(f): self.union_contract('copy and move construction'); return self.rv(args[0])
            if e.get('inherited'): raise Unsupported('inherited constructor')
            av = [self.ev(a) for a in args]
            obj = self.new_root(tid, self.uninit(tid), 'obj')
            if e.get('zero'): self.store(obj, self.zero(tid))
            if 'body' in f or 'inits' in f: self.call(f, obj, av, e)
            elif args: raise Unsupported('constructor without body ' + e['q'])
            v = self.load(obj)
            return v
        if k in ('opaque',):
            if (e.get('copy') or e.get('move')): return self.rv(args[0])
            if f is not None and f.get('repo') and not f.get('defaulted'):
                con = self.find_contract(e['q'], f, e)
                if con is not None:
                    self.used_contracts[e['q']] = self.used_contracts.get(e['q'], 0) + 1
                    return con(self, Call(self, e, f, None, [self.ev(a) for a in args]))
            if not args: return self.zero(tid)
        if k == 'fnobj':
            if not args: return self.zero(tid)
            v = self.rv(args[0])
            if isinstance(v, Ptr) and v.lv is None: return self.zero(tid)
            return v
        return self.lib.construct(self, e, tid, args)
    def uninit(self, tid):
        """object before its constructor ran: arbitrary contents"""
        ty = self.ty
        k = ty.kind(tid)
        if k == 'rec':
            return Struct(tid, {n: (self.uninit(d[1]) if isinstance(d, tuple) and d[0] == 't' else self.fresh_desc(d, n)) for n, d in ty.fields(tid)})
        if k in ('vec', 'map', 'set', 'fnobj', 'ptr'): return self.zero(tid)
        if k == 'obj': return Special('obj', tid=tid)
        if k == 'ref': return Ptr(None)
        return self.fresh(tid, 'uninit')

    # ------------------------------------------------------------ statements
    def exec(self, s):
        if s is None: return
        if self.st is None: return
        try:
            m = getattr(self, 's_' + s['k'], None)
            if m is None: raise Unsupported('statement %s %s' % (s['k'], s.get('what', '')))
            m(s)
        except Dead:
            self.st = None
    def s_block(self, s):
        for x in s['b']:
            if self.st is None: return
            self.exec(x)
    def s_null(self, s): pass
    def s_expr(self, s): self.ev(s['e'])
    def s_decl(self, s):
        for d in s['d']: self.declare(d)
    def declare(self, d):
        fr = self.frames[-1]
        self.varname[d['id']] = d['n']
        if d.get('static'):
            if d['init'] is None: raise Unsupported('static local without initializer')
        k = self.ty.kind(d['t'])
        if k == 'ref':
            v = self.ev(d['init'])
            if not isinstance(v, (LVal, LChoice)): v = self.new_root(self.ty.strip_ref(d['t']), v, d['n'])
            fr.env[d['id']] = v
        else:
            if d['init'] is None: v = self.uninit(d['t'])
            else:
                v = self.rv(d['init'])
                if v is None: v = self.uninit(d['t'])
            fr.env[d['id']] = self.new_root(d['t'], v, d['n'] or 'var')
        for b in d.get('bindings', []):
            self.varname[b['id']] = b['n']
            be = b['e']
            lv = self.bind_decomp(d, b, fr.env[d['id']], d['bindings'].index(b))
            fr.env[b['id']] = lv
    def bind_decomp(self, d, b, base, i):
        v = self.load(base)
        if isinstance(v, Struct):
            fs = self.ty.fields(v.tid)
            n, dd = fs[i]
            return base.fld(n, dd[1])
        raise Unsupported('structured binding')
    def s_if(self, s):
        if s.get('init'): self.exec(s['init'])
        if self.st is None: return
        if s.get('cv'): self.declare(s['cv'])
        c = self.rv(s['c'])
        if not z3.is_bool(c): c = self.truth(c)
        if is_t(c): return self.exec(s['a'])
        if is_f(c): return self.exec(s['b']) if s.get('b') else None
        s0 = self.st
        self.st = self.with_pc(s0, c)
        self.exec(s['a']); sa = self.st
        self.st = self.with_pc(s0, mkNot(c))
        if s.get('b'): self.exec(s['b'])
        sb = self.st
        self.st = self.merge([sa, sb])
    def s_return(self, s):
        fr = self.frames[-1]
        v = None
        if s['e'] is not None:
            isref = self.ty.kind(fr.fn['ret']) == 'ref'
            v = self.ev(s['e'])
            if isref:
                if not isinstance(v, (LVal, LChoice)): v = self.new_root(self.ty.strip_ref(fr.fn['ret']), v, 'retref')
            elif isinstance(v, (LVal, LChoice)): v = self.load(v)
        fr.returns.append((self.st, v))
        self.st = None
    def s_break(self, s):
        self.frames[-1].breaks.append(self.st); self.st = None
    def s_continue(self, s):
        self.frames[-1].conts.append(self.st); self.st = None
    def s_try(self, s):
        saved = self.throws; self.throws = []
        self.exec(s['b'])
        normal = self.st; thrown = self.throws; self.throws = saved
        outs = [normal]
        h = s['h']
        for t in thrown:
            self.st = t.st
            hit = None
            for x in h:
                if 't' not in x or self.exc_match(t.et, self.ty.name(self.ty.strip_ref(x['t']))):
                    hit = x; break
            if hit is None: self.throws.append(t); continue
            self.cur_exc = t
            self.exec(hit['b'])
            outs.append(self.st)
        self.st = self.merge(outs)
    def exc_match(self, et, ht):
        H = {'std::exception': True, 'std::runtime_error': et in ('std::runtime_error', 'std::overflow_error', 'std::range_error'),
             'std::logic_error': et in ('std::invalid_argument', 'std::out_of_range', 'std::logic_error', 'std::length_error')}
        return et == ht or H.get(ht, False)
    def s_switch(self, s):
        c = self.rv(s['c'])
        body = s['b']['b'] if s['b']['k'] == 'block' else [s['b']]
        # flatten cases
        flat = []
        def flatten(x):
            if x['k'] in ('case', 'default'):
                flat.append(('label', x)); flatten(x['s']) if x['s'] else None
            else: flat.append(('stmt', x))
        for x in body: flatten(x)
        fr = self.frames[-1]; ob = fr.breaks; fr.breaks = []
        s0 = self.st; seen = z3.BoolVal(False)
        conds = []
        for kind, x in flat:
            if kind == 'label' and x['k'] == 'case':
                conds.append((id(x), self.fold(c == self.rv(x['e']))))
        allc = mkOr(*[q for _, q in conds]); cm = dict(conds)
        self.st = None
        for kind, x in flat:
            if kind == 'label':
                cond = cm[id(x)] if x['k'] == 'case' else mkNot(allc)
                ent = self.with_pc(s0, cond)
                self.st = self.merge([self.st, ent])
            else: self.exec(x)
        outs = fr.breaks + [self.st]
        if not any(k == 'label' and x['k'] == 'default' for k, x in flat): outs.append(self.with_pc(s0, mkNot(allc)))
        fr.breaks = ob
        self.st = self.merge(outs)
    def s_omp(self, s):
        d = s['d']
        if 'ParallelFor' in d:
            return self.lib.omp_parallel_for(self, s)
        if 'Critical' in d or 'Single' in d: return self.exec(s['b'])
        raise Unsupported('omp ' + d)

    # ------------------------------------------------------------ loops
    def s_for(self, s):
        if s.get('init'): self.exec(s['init'])
        if self.st is None: return
        ind = None
        if s.get('init') and s['init']['k'] == 'decl':
            d0 = s['init']['d'][0]; ind = self.frames[-1].env.get(d0['id'])
        elif s.get('init') and s['init']['k'] == 'expr' and s['init']['e']['k'] == 'assign' and s['init']['e']['a']['k'] == 'var':
            ind = self.frames[-1].env.get(s['init']['e']['a']['id'])
        self.loop(s, (lambda: self.cond(s['c'])) if s.get('c') else (lambda: z3.BoolVal(True)), lambda: self.exec(s['b']),
                  (lambda: self.ev(s['inc'])) if s.get('inc') else (lambda: None), ind)
    def cond(self, e):
        c = self.rv(e)
        return c if z3.is_bool(c) else self.truth(c)
    def s_while(self, s):
        if s.get('cv'): raise Unsupported('while condition variable')
        self.loop(s, lambda: self.cond(s['c']), lambda: self.exec(s['b']), lambda: None, None)
    def s_do(self, s):
        # do B while(c): execute B once, then while(c) B. (first copy executed inline)
        fr = self.frames[-1]; ob, oc = fr.breaks, fr.conts
        fr.breaks = []; fr.conts = []
        self.exec(s['b'])
        br = fr.breaks; self.st = self.merge([self.st] + fr.conts); fr.breaks, fr.conts = ob, oc
        if self.st is not None:
            self.loop(s, lambda: self.cond(s['c']), lambda: self.exec(s['b']), lambda: None, None)
        self.st = self.merge([self.st] + br)
    def s_rangefor(self, s):
        r = self.ev(s['r'])
        if not isinstance(r, (LVal, LChoice)): r = self.new_root(s['r']['t'], r, 'range')
        v = self.load(r)
        if not isinstance(v, Struct): raise Unsupported('range-for over %r' % (v,))
        k = self.ty.kind(v.tid)
        fr = self.frames[-1]
        var = s['v']
        kr = self.new_root(self.ty.find('unsigned long') if 'unsigned long' in self.ty.byname else -1, self.nat(0), 'k')
        one = self.nat(1)
        self.varname[var['id']] = var['n']
        isref = self.ty.kind(var['t']) == 'ref'
        if k in ('vec', 'arr'):
            e = self.ty.elem(v.tid)
            n0 = self.vlen(r)
            def bind():
                i = self.st.roots[kr.root]
                el = r.idx(i, e)
                if isref: fr.env[var['id']] = el
                else: fr.env[var['id']] = self.new_root(var['t'], self.load(el), var['n'])
                self.bindvars(var, fr)
            def body():
                bind(); self.exec(s['b'])
            def inc():
                i = self.st.roots[kr.root]
                if k == 'vec' and not self.vlen(r).eq(n0):
                    self.oblige('iter-invalid', self.vlen(r) == n0, s, 'container not resized while iterating')
                self.log_write(kr.root, ()); self.st.roots[kr.root] = z3.simplify(i + one)
            self.loop(s, lambda: self.natlt(self.st.roots[kr.root], n0), body, inc, None, kroot=kr.root, extra={'range': r, 'n': n0})
            return
        if k in ('map', 'set'):
            keys, n0 = self.lib.enumerate_keys(self, v)
            kt = self.ty.T[v.tid]['a'][0]['t']
            v0 = v
            def body():
                i = self.st.roots[kr.root]
                key = z3.Select(keys, i)
                self.fact(mkImp(z3.And(i >= 0, i < n0), z3.Select(v0.f['has'], key)))
                self.lib.key_pos_fact(self, keys, i, n0)
                self.ground_range(kt, key)
                cur = self.load(r)
                if k == 'set':
                    el = self.new_root(kt, self.ty.unpack(kt, key), var['n'])
                    fr.env[var['id']] = el; self.bindvars(var, fr); self.exec(s['b']); return
                ptid = self.ty.strip_ref(var['t'])
                vt = dict(self.ty.fields(v.tid))['val'][2][1]
                val = self.ty.unpack(vt, self.sel(cur.f['val'], key))
                el = self.new_root(ptid, Struct(ptid, {'first': self.ty.unpack(kt, key), 'second': val}), var['n'])
                fr.env[var['id']] = el; self.bindvars(var, fr)
                before = len(self.wlogs[-1]) if self.wlogs else 0
                nb = list(self.frames[-1].conts)
                self.exec(s['b'])
                def wb(st):
                    if st is None: return
                    nv = st.roots[el.root].f['second']
                    if not self.same(nv, val):
                        sv = self.st; self.st = st
                        self.store(r.key(key, vt), nv)
                        self.st = sv
                if isref and not self.ty.T[var['t']].get('c'):
                    wb(self.st)
                    for c in self.frames[-1].conts: wb(c)
            def inc():
                i = self.st.roots[kr.root]
                self.log_write(kr.root, ()); self.st.roots[kr.root] = z3.simplify(i + one)
            self.loop(s, lambda: self.natlt(self.st.roots[kr.root], n0), body, inc, None, kroot=kr.root, extra={'range': r, 'n': n0, 'keys': keys, 'v0': v0})
            return
        raise Unsupported('range-for over ' + self.ty.name(v.tid))
    def bindvars(self, var, fr):
        for i, b in enumerate(var.get('bindings', [])):
            self.varname[b['id']] = b['n']
            fr.env[b['id']] = self.bind_decomp(var, b, fr.env[var['id']], i)

    def loopkey(self, s):
        return tuple((fr.site, fr.fn['id']) for fr in self.frames) + (id(s),)
    def snapshot(self): return (len(self.facts), len(self.obls), list(self.throws), list(self.frames[-1].returns), dict(self.frames[-1].env), set(self.rangeknown), [list(w) for w in self.wlogs], len(getattr(self, 'fadds', [])), dict(self.globals))
    def restore(self, sn):
        del self.facts[sn[0]:]; del self.obls[sn[1]:]; self.throws = sn[2]
        self.frames[-1].returns[:] = sn[3]; self.frames[-1].env = sn[4]
        self.rangeknown = sn[5]; self.globals = dict(sn[8])
        for w, x in zip(self.wlogs, sn[6]): w[:] = x
        if hasattr(self, 'fadds'): del self.fadds[sn[7]:]

    def norm_write(self, root, path):
        out = []
        for stp in path:
            if stp[0] == 'f': out.append(stp[1])
            elif stp[0] == 'i': out.append('arr'); break
            else: out.append('val'); break
        return (root, tuple(out))

    def havoc_at(self, st, root, path):
        tid = self.rootinfo[root][0]
        def go(v, tid, p):
            if not p:
                if isinstance(v, Struct): return self.fresh(v.tid, 'h_' + root.split('!')[0])
                if isinstance(v, Iter): return Iter(v.lv, self.fresh_desc('nat', 'it'), v.rev)
                if isinstance(v, EIter): return EIter(v.lv, self.fresh_desc('nat', 'it'), v.keys, v.n)
                if isinstance(v, MapIter):
                    kt = v.key.sort()
                    return MapIter(v.lv, z3.Const(self.fresh_id('end'), z3.BoolSort()), z3.Const(self.fresh_id('key'), kt))
                if isinstance(v, Special): return v
                if isinstance(v, (Ptr, PChoice)):
                    if isinstance(v, Ptr) and v.off is not None: return Ptr(v.lv, self.fresh_desc('nat', 'off'))
                    raise Unsupported('loop changes a pointer')
                if isinstance(v, (Closure, OpaqueFn)): raise Unsupported('loop changes a callable')
                if tid is None or tid == -1:
                    c = z3.Const(self.fresh_id('h'), v.sort())
                    return c
                return self.fresh(tid, 'h_' + root.split('!')[0])
            if z3.is_expr(v): v = self.ty.unpack(tid, v)
            if not isinstance(v, Struct): raise Unsupported('havoc path')
            d = dict(self.ty.fields(v.tid))[p[0]]
            if len(p) == 1 and not (isinstance(d, tuple) and d[0] == 't'):
                if d == 'nat': return v.set(p[0], self.fresh_desc('nat', 'h_' + p[0]))
                return v.set(p[0], z3.Const(self.fresh_id('h_' + root.split('!')[0] + '_' + p[0]), self.ty.dsort(d)))
            return v.set(p[0], go(v.f[p[0]], d[1] if isinstance(d, tuple) and d[0] == 't' else None, p[1:]))
        st.roots[root] = go(st.roots[root], tid, path)

    def loop(self, s, condf, bodyf, incf, ind, kroot=None, extra=None):
        fr = self.frames[-1]
        key = self.loopkey(s)
        specs = self.task.loops if self.task else []
        if key not in self.loopidx: self.loopidx[key] = len(self.loopidx)
        idx = self.loopidx[key]
        spec = specs[idx] if idx < len(specs) else None
        ob, oc = fr.breaks, fr.conts
        try:
            if spec is None or spec == 'unroll':
                if self.try_unroll(condf, bodyf, incf, fr, 130 if spec == 'unroll' else 40): return
                # loops inside an abandoned unrolling attempt get re-indexed
                for k2 in [k for k, v in self.loopidx.items() if v > idx]: del self.loopidx[k2]
            self.abstract_loop(s, condf, bodyf, incf, ind, kroot, extra or {}, spec if callable(spec) else None, fr)
        finally:
            fr.breaks, fr.conts = ob, oc

    def try_unroll(self, condf, bodyf, incf, fr, maxn):
        sn = self.snapshot(); s0 = self.st.clone()
        exits = []
        for it in range(maxn):
            try: c = condf()
            except Dead: break
            c2 = z3.simplify(c)
            if is_f(c2):
                exits.append(self.st); self.st = None; break
            if not is_t(c2) or it == maxn - 1:
                self.restore(sn); self.st = s0; return False
            fr.breaks = []; fr.conts = []
            bodyf()
            self.st = self.merge([self.st] + fr.conts)
            exits += fr.breaks
            if self.st is None: break
            incf()
        self.st = self.merge(exits)
        return True

    def one_iter(self, condf, bodyf, incf, fr, st):
        """returns (cond, exit state, end-of-iteration state, breaks)"""
        self.st = st
        fr.breaks = []; fr.conts = []
        try: c = condf()
        except Dead: return None, None, None, []
        after = self.st
        ex = self.with_pc(after, mkNot(c))
        self.st = self.with_pc(after, c)
        if self.st is not None:
            bodyf()
            br = fr.breaks
            self.st = self.merge([self.st] + fr.conts)
            if self.st is not None:
                try: incf()
                except Dead: self.st = None
        else: br = []
        return c, ex, self.st, br

    def written_ok(self, w, st0):
        return w[0] in st0.roots

    def abstract_loop(self, s, condf, bodyf, incf, ind, kroot, extra, spec, fr):
        st0 = self.st
        env0 = dict(fr.env)
        writes = []
        # 1. discover the frame: what an arbitrary iteration may write
        for rnd in range(12):
            sn = self.snapshot()
            h = st0.clone()
            for (r, p) in self.maximal(writes): self.havoc_at(h, r, p)
            self.probing += 1
            log = []; self.wlogs.append(log)
            hv = State(dict(h.roots), h.pc)
            try:
                c, exs, end, br = self.one_iter(condf, bodyf, incf, fr, h)
            finally:
                self.probing -= 1
                self.wlogs.pop()
            new = []
            for (r, p) in log:
                if r in st0.roots:
                    nw = self.norm_write(r, p)
                    if not self.covered(nw, writes) and nw not in new: new.append(nw)
            deltas = {}
            if end is not None and not new:
                for (r, p) in writes:
                    if p == () and z3.is_expr(end.roots.get(r)) and z3.is_int(end.roots[r]):
                        d = z3.simplify(end.roots[r] - hv.roots[r])
                        if z3.is_int_value(d): deltas[r] = d.as_long()
                    elif p == () and isinstance(end.roots.get(r), (Iter, EIter)):
                        d = z3.simplify(end.roots[r].i - hv.roots[r].i)
                        if z3.is_int_value(d): deltas[r] = d.as_long()
            ci = (c, hv, deltas)
            self.restore(sn)
            self.st = st0
            if not new: break
            writes += new
        else: raise Unsupported('loop frame does not stabilise')
        writes = self.maximal(writes)
        extra = dict(extra); extra['written'] = writes
        # 2. automatic counter invariants
        autos = []
        c, hv, deltas = ci
        for r, d in deltas.items():
            v0 = st0.roots[r]; hvv = hv.roots[r]
            get = (lambda st, r=r: st.roots[r].i if isinstance(st.roots[r], (Iter, EIter)) else st.roots[r])
            i0 = v0.i if isinstance(v0, (Iter, EIter)) else v0
            hh = hvv.i if isinstance(hvv, (Iter, EIter)) else hvv
            B = self.bound_of(c, hh, hv, writes) if c is not None else None
            if d > 0:
                autos.append((lambda st, g=get, i0=i0: g(st) >= i0, 'counter does not decrease'))
                if B is not None and d == 1:
                    op, b = B
                    if op == '<': autos.append((lambda st, g=get, b=b, i0=i0: z3.Or(g(st) <= b, g(st) == i0), 'counter bounded'))
                    elif op == '<=': autos.append((lambda st, g=get, b=b, i0=i0: z3.Or(g(st) <= b + 1, g(st) == i0), 'counter bounded'))
                    elif op == '!=': autos.append((lambda st, g=get, b=b, i0=i0: z3.Or(g(st) <= b, i0 > b), 'counter bounded'))
            elif d < 0:
                autos.append((lambda st, g=get, i0=i0: g(st) <= i0, 'counter does not increase'))
                if B is not None and d == -1:
                    op, b = B
                    if op == '>': autos.append((lambda st, g=get, b=b, i0=i0: z3.Or(g(st) >= b, g(st) == i0), 'counter bounded'))
                    elif op == '>=': autos.append((lambda st, g=get, b=b, i0=i0: z3.Or(g(st) >= b - 1, g(st) == i0), 'counter bounded'))
        if ind is None and kroot is None:
            up = [r for r, d in deltas.items() if d == 1]
            if len(up) == 1: ind = LVal(up[0], (), self.rootinfo[up[0]][0])
        mk = lambda st: LoopView(self, fr, st0, st, kroot, ind, extra)
        fnname = fr.fn.get('q', '?')
        def invs(st):
            out = [(n, f(st)) for f, n in autos]
            if spec is not None:
                old = self.st; self.st = st
                try:
                    r = spec(mk(st))
                finally: self.st = old
                if isinstance(r, dict): r = list(r.items())
                out += [(n, g) for n, g in r]
            return out
        # 3. initiation
        self.st = st0
        for n, g in invs(st0): n[:1] == '~' or self.oblige('inv-init', g, s, 'loop invariant holds on entry: ' + n)
        # 4. arbitrary iteration
        h = st0.clone()
        for (r, p) in writes: self.havoc_at(h, r, p)
        self.st = h
        for n, g in invs(h):
            self.assume(g); self.named.append((n, mkImp(self.pcf(), g), g))
        self.abstract_loops += 1
        fr.env = dict(env0)
        hview = State(dict(h.roots), h.pc)
        c, exs, end, br = self.one_iter(condf, bodyf, incf, fr, h)
        if end is not None:
            self.st = end
            if hasattr(spec, 'lemmas'):    # ghost assertions about one iteration
                for x in spec.lemmas(mk(hview), mk(end)):    # (name, goal[, facts it follows from])
                    if len(x) > 2: self.named.append((x[0], self.task.have(*x), x[1]))
                    else: self.oblige('lemma', x[1], s, x[0]); self.named.append((x[0], mkImp(self.pcf(), x[1]), x[1]))
            for n, g in invs(end):
                if n[:1] == '~': continue
                self.oblige('inv-keep', g, s, 'loop invariant preserved: ' + n, assume=False); full = [f for _, f, x in self.named if z3.is_expr(x) and x.eq(g)]
                if full and hasattr(spec, 'lemmas') and not self.probing: self.obls[-1].only = full[-1:]
            dec = getattr(spec, 'decreases', None)
            if dec is not None:
                m0 = dec(mk(hview)); m1 = dec(mk(end))
                self.oblige('termination', z3.And(m0 >= 0, m1 < m0), s, 'loop variant decreases')
        fr.env = env0
        self.st = self.merge([exs] + br)
        if self.st is not None and spec is not None and hasattr(spec, 'onexit'):
            for n, g in spec.onexit(mk(self.st)): self.oblige('loop-exit', g, s, n)

    def covered(self, w, ws):
        return any(w[0] == x[0] and w[1][:len(x[1])] == x[1] for x in ws)
    def maximal(self, ws):
        out = []
        for w in ws:
            if any(x is not w and w[0] == x[0] and len(x[1]) < len(w[1]) and w[1][:len(x[1])] == x[1] for x in ws): continue
            if w not in out: out.append(w)
        return out
    def bound_of(self, c, h, hv, writes):
        """c as a comparison of h with a loop-invariant bound"""
        hc = set()
        for (r, p) in writes: hc |= self.consts_at(hv, r, p)
        def inv(t): return not (self.consts(t) & hc)
        neg = False
        cs = [c]
        if z3.is_and(c): cs = list(c.children())
        for t in cs:
            neg = False
            if z3.is_not(t): t = t.arg(0); neg = True
            if not z3.is_app(t) or t.num_args() != 2: continue
            k = t.decl().kind()
            m = {z3.Z3_OP_LT: '<', z3.Z3_OP_LE: '<=', z3.Z3_OP_GT: '>', z3.Z3_OP_GE: '>=', z3.Z3_OP_EQ: '=='}.get(k)
            if m is None: continue
            a, b = t.arg(0), t.arg(1)
            if b.eq(h) and inv(a): a, b = b, a; m = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '=='}[m]
            if a.eq(h) and inv(b):
                if neg: m = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!='}[m]
                if m != '==': return (m, b)
        return None
    def consts(self, t):
        out = set(); seen = set(); todo = [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            todo += x.children()
        return out
    def consts_at(self, st, root, path):
        v = st.roots[root]; tid = self.rootinfo[root][0]
        for p in path:
            if z3.is_expr(v): v = self.ty.unpack(tid, v)
            d = dict(self.ty.fields(v.tid))[p]; v = v.f[p]; tid = d[1] if isinstance(d, tuple) and d[0] == 't' else None
        out = set()
        def go(v):
            if z3.is_expr(v): out.update(self.consts(v))
            elif isinstance(v, Struct):
                for x in v.f.values(): go(x)
            elif isinstance(v, (Iter, EIter)): go(v.i)
        go(v)
        return out

class LChoice(object):
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
    @property
    def tid(self): return self.alts[0][1].tid
    def fld(self, n, t): return LChoice([(c, l.fld(n, t)) for c, l in self.alts])
    def idx(self, n, t): return LChoice([(c, l.idx(n, t)) for c, l in self.alts])
class PChoice(object):
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
class FChoice(object):
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts

class Call(object):
    """what a contract sees of a call site"""
    def __init__(self, ex, e, f, this, args):
        self.ex = ex; self.e = e; self.f = f; self.this = this; self.args = args
    def val(self, i): return self.ex.asval(self.args[i])
    def thisval(self): return self.ex.load(self.this)
    @property
    def rettid(self): return self.f['ret'] if self.f else self.e['t']
    def require(self, g, desc): self.ex.oblige('callee-pre', g, self.e, desc)
