from vc.task import *
from common import *
Q = NSP + 'color_builder::'; F = {'fp': 'fp', 'fparith': 'special'}; B = {'fp': 'fp', 'bv': ['unsigned char', 'int']}
F32 = z3.Float32(); CH = 'rgba'
def k(x): return z3.FPVal(x, F32)
def clamp(x): return z3.If(z3.fpLT(x, k(0.0)), k(0.0), z3.If(z3.fpGT(x, k(1.0)), k(1.0), x))
def unit(x): return z3.And(z3.fpGEQ(x, k(0.0)), z3.fpLEQ(x, k(1.0)))
def num(T, n, t='float'): x = T.sym(t, n); T.assume(z3.Not(z3.fpIsNaN(x)), 'channels are numbers (not NaN)'); return x
def eq(a, b): return z3.fpEQ(a, b)
def kinds(T, f): return ''.join('f' if T.ex.ty.kind(T.ex.ty.strip_ref(p['t'])) == 'fp' else 'h' for p in f['ps'])
def args(T, f): return [num(T, p['n'], T.ex.ty.strip_ref(p['t'])) if c == 'f' else T.sym(p['t'], p['n']) for p, c in zip(f['ps'], kinds(T, f))]
FROM = z3.Function('channel_of_byte', z3.IntSort(), F32); TO = z3.Function('byte_of_channel', F32, z3.IntSort())
def fromhex(ex, c):
    """proved by Bytes: a number in [0, 1] that determines the byte it came from"""
    h = c.val(0); r = FROM(h); ex.assume(z3.Implies(z3.And(h >= 0, h <= 255), z3.And(unit(r), z3.Not(z3.fpIsNegative(r)), TO(r) == h))); return r
def tohex(ex, c):
    """proved by ToByte"""
    x = c.val(0); r = TO(x); ex.assume(z3.And(r >= 0, r <= 255)); return r
HC = {Q + 'ColorChannelFromHex': fromhex, Q + 'ColorChannelToHex': tohex}
@task('C32', 'color', mode=B)
def Bytes(T):
    h = T.sym('unsigned char', 'byte'); o = T.call(T.fn(Q + 'ColorChannelFromHex'), None, [h]); T.never_throws(o); r = o.ret; T.ensure('in [0, 1]', z3.And(unit(r), z3.Not(z3.fpIsNegative(r)))); T.ensure('zero for 0', z3.Implies(h == 0, eq(r, k(0.0)))); T.ensure('one for 255', z3.Implies(h == 255, eq(r, k(1.0))))
    p = T.call(T.fn(Q + 'ColorChannelToHex'), None, [r]); T.never_throws(p); T.ensure('back to the same byte', p.ret == h); g = T.sym('unsigned char', 'other'); q = T.call(T.fn(Q + 'ColorChannelFromHex'), None, [g]); T.ensure('increasing', z3.Implies(z3.ULT(h, g), z3.fpLT(r, q.ret)))
@task('C32', 'color', mode=B)
def ToByte(T):
    x = num(T, 'channel'); o = T.call(T.fn(Q + 'ColorChannelToHex'), None, [x]); T.never_throws(o); r = o.ret; y = num(T, 'higher'); p = T.call(T.fn(Q + 'ColorChannelToHex'), None, [y])
    T.ensure('0 for nothing', z3.Implies(z3.fpLEQ(x, k(0.0)), r == 0)); T.ensure('255 for everything', z3.Implies(z3.fpGEQ(x, k(1.0)), r == 255))
    T.ensure('not decreasing', z3.Implies(z3.fpLEQ(x, y), z3.ULE(r, p.ret)))
@task('C32', 'color', mode=F)
def Trim(T):
    x = num(T, 'value'); o = T.call(T.fn(Q + 'TrimColorValue'), None, [x]); T.never_throws(o); T.ensure('clamped to [0, 1]', eq(o.ret, clamp(x))); T.ensure('in [0, 1]', unit(o.ret))
def chans(T, r): return [r.f[c] for c in CH]
def expected(ks, a): xs = [clamp(x) if c == 'f' else FROM(x) for c, x in zip(ks, a)]; return xs + [k(1.0)] * (4 - len(xs))
@task('C32', 'color', mode=F, contracts=HC)
def Construct(T):
    for f in T.fns(Q + 'RGBAColor::RGBAColor'):
        if 'body' not in f or len(f['ps']) not in (0, 3, 4): continue
        a = args(T, f); c = T.obj(Q + 'RGBAColor', 'colour'); o = T.call(f, c, a); T.never_throws(o); v = T.val(c)
        want = expected(kinds(T, f), a) if a else [k(0.0)] * 4
        for n, w in zip(CH, want): T.ensure('channel %s in its place (%s)' % (n, kinds(T, f)), eq(v.f[n], w)); T.ensure('%s in [0, 1] (%s)' % (n, kinds(T, f)), unit(v.f[n]))
@task('C32', 'color', mode=F, contracts=HC)
def Members(T):
    c = T.obj(Q + 'RGBAColor', 'colour')
    for n in CH: T.assume(unit(T.val(c).f[n]), 'the colour is in range (established by the constructors and setters)')
    for n in CH:
        N = n.upper(); v = T.val(c); o = T.call(T.fn(Q + 'RGBAColor::' + N), c, []); T.never_throws(o); T.ensure('reads ' + n, eq(o.ret, v.f[n])); o = T.call(T.fn(Q + 'RGBAColor::Get%sHex' % N), c, []); T.never_throws(o); T.ensure('byte of ' + n, o.ret == TO(v.f[n]))
        for m, conv in (('Set' + N, clamp), ('Set%sHex' % N, FROM)):
            f = T.fn(Q + 'RGBAColor::' + m); x, = args(T, f); v = T.val(c); o = T.call(f, c, [x]); T.never_throws(o); w = T.val(c)
            for q in CH: T.ensure('%s: %s' % (m, q), eq(w.f[q], conv(x) if q == n else v.f[q]))
def make(T, f):
    a = args(T, f); o = T.call(f, None, a); T.never_throws(o); return a, o.ret
@task('C32', 'color', mode=F, contracts=HC)
def Make(T):
    for nm in ('MakeFromFloatColors', 'MakeFromHexColors', 'MakeFromMixedColors'):
        f = T.fn(Q + nm); a, r = make(T, f)
        for n, w in zip(CH, expected(kinds(T, f), a)): T.ensure('%s: channel %s in its place' % (nm, n), eq(r.f[n], w)); T.ensure('%s: %s in [0, 1]' % (nm, n), unit(r.f[n]))
@task('C32', 'color', mode=F)
def Convert(T):
    for f in T.fns(Q + 'ConvertColor'):
        c = T.obj(T.ex.ty.strip_ref(f['ps'][0]['t']), 'colour'); v = T.val(c)
        for n in CH: T.assume(z3.Not(z3.fpIsNaN(v.f[n])))
        o = T.call(f, None, [c]); T.never_throws(o)
        for n in CH: T.ensure('channel %s in its place' % n, eq(o.ret.f[n], clamp(v.f[n])))
@task('C32', 'color', mode=F)
def Equal(T):
    f = T.fn(Q + 'ColorsEqual'); a, b = [T.obj(T.ex.ty.strip_ref(f['ps'][i]['t']), 'colour%d' % i) for i in range(2)]; t = num(T, 'tolerance'); u, v = T.val(a), T.val(b); o = T.call(f, None, [a, b, t]); T.never_throws(o); tid = T.type('float'); fin = [z3.Not(z3.Or(z3.fpIsNaN(x.f[n]), z3.fpIsInf(x.f[n]))) for x in (u, v) for n in CH]
    T.assume(z3.And(*fin), 'finite channels'); T.ensure('equal exactly when every channel is within the tolerance', o.ret == z3.And(*[z3.fpLEQ(z3.fpAbs(T.ex.fparith('-', tid, u.f[n], v.f[n])), t) for n in CH]))
@task('C32', 'color', mode=F, contracts=HC)
def Lookup(T):
    f = T.fn(Q + 'LookupUniqueColor'); key = T.sym('unsigned int', 'key'); al = num(T, 'alpha'); o = T.call(f, None, [key, al]); T.never_throws(o); r = o.ret
    for n in CH: T.ensure(n + ' in [0, 1]', unit(r.f[n]))
    T.ensure('alpha as requested', z3.Implies(key != 0, eq(r.f['a'], clamp(al)))); T.ensure('key 0 is transparent', z3.Implies(key == 0, eq(r.f['a'], k(0.0)))); T.ensure('black beyond the table', z3.Implies(key > 20, z3.And(*[eq(r.f[n], k(0.0)) for n in 'rgb'])))
    other = T.sym('unsigned int', 'other'); p = T.call(f, None, [other, al]);
    T.ensure('different colours for different keys of the table', z3.Implies(z3.And(key > 0, key < other, other <= 20), z3.Not(z3.And(*[eq(r.f[n], p.ret.f[n]) for n in 'rgb']))))
@task('C32', 'color', mode=F)
def HotToCold(T):
    f = T.fn(Q + 'InterpolateHotToCold'); fin = lambda x: z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x))); v, lo, hi = [num(T, n, 'double') for n in ('value', 'min_value', 'max_value')]; rng = T.ex.fparith('-', T.type('double'), hi, lo)
    T.assume(z3.And(fin(lo), fin(hi), fin(rng), z3.fpLT(lo, hi)), 'a finite, non-empty range of values'); o = T.call(f, None, [v, lo, hi]); T.never_throws(o)
    for n in CH: T.ensure(n + ' in [0, 1]', unit(o.ret.f[n]))
    T.ensure('opaque', eq(o.ret.f['a'], k(1.0)))
