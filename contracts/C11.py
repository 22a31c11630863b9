from vc.task import *
from common import *
import C04 as _c4; REG.pop('C04', None)
same = _c4.same
M = {'opaque': ['tu::A', 'tu::B']}
def rv(T, f): return bool(T.ex.ty.T[f['ps'][0]['t']].get('rv'))
def inv(s): return z3.And(s.f['type_'] >= 0, s.f['type_'] <= 1, s.f[''].f['__live'] == s.f['type_'] + 1)
def holds(ex, s, t): return mkAnd(inv(s), s.f['type_'] == t.f['type_'], z3.Implies(t.f['type_'] == 0, same(ex, s.f[''].f['value_a_'], t.f[''].f['value_a_'])), z3.Implies(t.f['type_'] == 1, same(ex, s.f[''].f['value_b_'], t.f[''].f['value_b_'])))
def unions(T): 
    ids = {}
    for f in T.fns('TaggedUnion::Cleanup') or [f for f in T.ex.F.values() if f['name'] == 'Cleanup']: ids[f['cls']] = f
    return list(ids)
def meths(T, cls, pred): return [f for f in T.ex.F.values() if f.get('cls') == cls and 'body' in f and pred(f)]
def is_union(T, tid): return 'TaggedUnion' in T.ex.ty.name(tid)
def U(T, cls, n):
    g = T.obj(cls, n); T.assume(inv(T.val(g)), 'class invariant of the tagged union: exactly the alternative named by the tag is alive (established by every constructor, kept by every assignment, below)'); return g

@task('C11', 'maybe', mode=M)
def UnionFromValue(T):
    """each alternative's constructors"""
    for cls in unions(T):
        un = T.ex.ty.fieldtid(cls, '')
        for f in meths(T, cls, lambda f: f.get('isctor') and len(f['ps']) == 1 and not is_union(T, T.ex.ty.strip_ref(f['ps'][0]['t']))):
            vt = T.ex.ty.strip_ref(f['ps'][0]['t']); v = T.ex.fresh(vt, 'v')
            g = T.lv(cls, T.ex.uninit(cls), 'u'); o = T.call(f, g, [T.lv(vt, v, 'arg')]); T.never_throws(o); s = T.val(g)
            alt = 0 if T.ex.ty.fieldtid(un, 'value_a_') == vt else 1
            T.ensure('holds the alternative given', mkAnd(inv(s), s.f['type_'] == alt)); T.ensure('and its value', same(T.ex, s.f[''].f['value_%s_' % 'ab'[alt]], v))
def transfer(T, copy, ctor, alias=False):
    for cls in unions(T):
        key = lambda f: (f.get('isctor') and not f['name'].startswith('~') and len(f['ps']) == 1 and is_union(T, T.ex.ty.strip_ref(f['ps'][0]['t']))) if ctor else f['name'] == 'operator='
        for f in meths(T, cls, key):
            if rv(T, f) == copy: continue
            src = U(T, cls, 'other'); s0 = T.val(src)
            dst = src if alias else T.lv(cls, T.ex.uninit(cls), 'this') if ctor else U(T, cls, 'this')
            o = T.call(f, dst, [src]); T.never_throws(o)
            T.ensure('equal to what the source held', holds(T.ex, T.val(dst), s0))
            if copy: T.ensure('source unchanged', holds(T.ex, T.val(src), s0))
            else: T.ensure('source still a valid union', inv(T.val(src)))
@task('C11', 'maybe', mode=M)
def UnionCopyConstruct(T): transfer(T, True, True)
@task('C11', 'maybe', mode=M)
def UnionMoveConstruct(T): transfer(T, False, True)
@task('C11', 'maybe', mode=M)
def UnionCopyAssign(T): transfer(T, True, False)
@task('C11', 'maybe', mode=M)
def UnionMoveAssign(T): transfer(T, False, False)
@task('C11', 'maybe', mode=M)
def UnionSelfCopyAssign(T): transfer(T, True, False, True)
@task('C11', 'maybe', mode=M)
def UnionSelfMoveAssign(T): transfer(T, False, False, True)
@task('C11', 'maybe', mode=M)
def UnionDestroy(T):
    """destruction destroys exactly the alternative that is alive"""
    for cls in unions(T):
        for f in meths(T, cls, lambda f: f.get('isdtor')):
            g = U(T, cls, 'u'); o = T.call(f, g, []); T.never_throws(o); T.ensure('nothing stays alive', T.val(g).f[''].f['__live'] == 0)
# ---- OwningMaybe
def maybe(T): return T.fn('OwningMaybe<tu::B>::HasValue')['cls']
def MB(T, n):
    g = T.obj(maybe(T), n); T.assume(inv(T.val(g).f['item_storage_']), 'class invariant of the storage'); return g
def full(s): return s.f['item_storage_'].f['type_'] == 1
def item(s): return s.f['item_storage_'].f[''].f['value_b_']
def mholds(ex, s, t): return mkAnd(inv(s.f['item_storage_']), full(s) == full(t), z3.Implies(full(t), same(ex, item(s), item(t))))
@task('C11', 'maybe', mode=M)
def MaybeConstruct(T):
    cls = maybe(T)
    for f in [f for f in T.ex.F.values() if f.get('cls') == cls and f.get('isctor') and 'body' in f]:
        g = T.lv(cls, T.ex.uninit(cls), 'm')
        if not f['ps']:
            o = T.call(f, g, []); T.never_throws(o); T.ensure('default is empty', mkAnd(inv(T.val(g).f['item_storage_']), mkNot(full(T.val(g)))))
        else:
            vt = T.ex.ty.strip_ref(f['ps'][0]['t']); v = T.ex.fresh(vt, 'v'); o = T.call(f, g, [T.lv(vt, v, 'arg')]); T.never_throws(o)
            T.ensure('holds the value given', mkAnd(inv(T.val(g).f['item_storage_']), full(T.val(g)), same(T.ex, item(T.val(g)), v)))
@task('C11', 'maybe', mode=M)
def MaybeCopyMove(T):
    cls = maybe(T)
    for f in [f for f in T.ex.F.values() if f.get('cls') == cls and f.get('defaulted') and len(f['ps']) == 1]:
        for alias in ([False] if f.get('isctor') else [False, True]):
            src = MB(T, 'other'); s0 = T.val(src); dst = src if alias else T.lv(cls, T.ex.uninit(cls), 'm') if f.get('isctor') else MB(T, 'this')
            if f.get('isctor'): o = T.call(f, dst, [src])
            else:
                ex = T.ex; own = ex.user_assign(ex.ty.fieldtid(cls, 'item_storage_'), rv(T, f))
                o = T.call(own, dst.fld('item_storage_', own['cls']), [src.fld('item_storage_', own['cls'])])
            T.never_throws(o); T.ensure('equal to what the source held', mholds(T.ex, T.val(dst), s0))
            if not rv(T, f) : T.ensure('source unchanged', mholds(T.ex, T.val(src), s0))
            else: T.ensure('source still valid', inv(T.val(src).f['item_storage_']))
@task('C11', 'maybe', mode=M)
def MaybeRead(T):
    cls = maybe(T)
    for f in T.fns('OwningMaybe<tu::B>::Value'):
        g = MB(T, 'm'); s0 = T.val(g); o = T.call(f, g, []); T.throws_iff(o, mkNot(full(s0)), 'reading an empty optional throws')
        r = o.ret; v = T.ex.load(r) if isinstance(r, LVal) else r
        T.ensure('the contained value', same(T.ex, v, item(s0))); T.ensure('unchanged', mholds(T.ex, T.val(g), s0))
    for q in ('OwningMaybe<tu::B>::HasValue', 'OwningMaybe<tu::B>::operator bool'):
        g = MB(T, 'm'); s0 = T.val(g); o = T.call(T.fn(q), g, []); T.never_throws(o); T.ensure(q + ' tells whether a value is held', o.ret == full(s0))
@task('C11', 'maybe', mode=M)
def MaybeReset(T):
    g = MB(T, 'm'); o = T.call(T.fn('OwningMaybe<tu::B>::Reset'), g, []); T.never_throws(o); T.ensure('empty afterwards', mkAnd(inv(T.val(g).f['item_storage_']), mkNot(full(T.val(g)))))
@task('C11', 'maybe', mode=M)
def Referencing(T):
    ex = T.ex; cls = T.fn('ReferencingMaybe<tu::B>::HasValue')['cls']; et = ex.ty.strip_ref(T.fn('ReferencingMaybe<tu::B>::Value')['ret'])
    e = T.obj(et, 'element')
    def mk(full): return T.lv(cls, Struct(cls, {'item_ptr_': Ptr(e) if full else Ptr(None)}), 'm')
    for f in [f for f in ex.F.values() if f.get('cls') == cls and f.get('isctor') and 'body' in f]:
        g = T.lv(cls, ex.uninit(cls), 'm'); o = T.call(f, g, [e] if f['ps'] else []); T.never_throws(o); p = T.val(g).f['item_ptr_']
        T.ensure('refers to the element given, or to nothing', z3.BoolVal(isinstance(p, Ptr) and ((p.lv is None) if not f['ps'] else (p.lv is not None and p.lv.root == e.root))))
    for full in (False, True):
        for f in T.fns('ReferencingMaybe<tu::B>::Value'):
            g = mk(full); st0 = ex.st.clone(); o = T.call(f, g, []); T.throws_iff(o, z3.BoolVal(not full), 'reading an empty reference throws')
            if ex.st is None: ex.st = st0
            if full: T.ensure('the element itself', z3.BoolVal(not o.ret is None and isinstance(o.ret, LVal) and o.ret.root == e.root))
        for q in ('ReferencingMaybe<tu::B>::HasValue', 'ReferencingMaybe<tu::B>::operator bool'):
            g = mk(full); o = T.call(T.fn(q), g, []); T.never_throws(o); T.ensure('has value', o.ret == z3.BoolVal(full))
        g = mk(full); o = T.call(T.fn('ReferencingMaybe<tu::B>::Reset'), g, []); T.never_throws(o); p = T.val(g).f['item_ptr_']; T.ensure('empty afterwards', z3.BoolVal(isinstance(p, Ptr) and p.lv is None))
