from vc.task import *
from common import *
NS = NSP + 'base64_helpers::'
SYM = z3.Function('alphabet', z3.IntSort(), z3.IntSort())
def sym(v): return SYM(v)
def symdef(v): return z3.If(v < 26, v + 65, z3.If(v < 52, v + 71, z3.If(v < 62, v - 4, z3.If(v == 62, z3.IntVal(43), z3.IntVal(47)))))
def ontable(ex, t, vals):
    v = z3.Int('v'); S = lambda j: z3.simplify(symdef(z3.IntVal(j)))
    if len(vals) == 64:
        ex.oblige('lemma', z3.And(*[vals[j] == S(j) for j in range(64)]), None, 'the encoding table is the standard alphabet', assume=False)
        ex.fact(qall([v], z3.Implies(z3.And(v >= 0, v < 64), t[v] == SYM(v)), patterns=[t[v]]))
    else:
        ex.oblige('lemma', z3.And(*[vals[S(j).as_long()] == j for j in range(64)]), None, 'the decoding table inverts the standard alphabet', assume=False)
        ex.oblige('lemma', z3.And(*[z3.And(x >= 0, x < 64) for x in vals]), None, 'every entry of the decoding table is a six-bit value', assume=False)
        ex.fact(qall([v], z3.Implies(z3.And(v >= 0, v < 64), t[SYM(v)] == v), patterns=[SYM(v)]))
        ex.fact(qall([v], z3.Implies(z3.And(v >= 0, v < len(vals)), z3.And(t[v] >= 0, t[v] < 64)), patterns=[t[v]]))
def alphabet(T):
    v = z3.Int('v'); rng = lambda c: z3.And(c >= 43, c <= 122, c != 61)
    T.ex.oblige('lemma', z3.And(*[rng(symdef(z3.IntVal(j))) for j in range(64)]), None, 'the alphabet is printable and does not contain the padding character', assume=False)
    T.ex.fact(qall([v], z3.Implies(z3.And(v >= 0, v < 64), rng(SYM(v))), patterns=[SYM(v)]))
EQ = z3.IntVal(61)
TRIG = z3.Function('at_group', z3.IntSort(), z3.IntSort())
def mark(ex, *ks):
    k = z3.Int('k'); ex.fact(qall([k], TRIG(k) >= 0, patterns=[TRIG(k)]))
    for g in ks: ex.fact(TRIG(g) >= 0)
def group(s, b, k):
    """characters 4k..4k+3 of s encode bytes 3k..3k+2 of b"""
    x, y, w = sel(b, 3 * k), sel(b, 3 * k + 1), sel(b, 3 * k + 2)
    return z3.And(sel(s, 4 * k) == sym(x / 4), sel(s, 4 * k + 1) == sym((x % 4) * 16 + y / 16), sel(s, 4 * k + 2) == sym((y % 16) * 4 + w / 64), sel(s, 4 * k + 3) == sym(w % 64))
def tail(s, b, n):
    k = n / 3; r = n % 3; x, y = sel(b, 3 * k), sel(b, 3 * k + 1)
    return z3.And(z3.Implies(r == 1, z3.And(sel(s, 4 * k) == sym(x / 4), sel(s, 4 * k + 1) == sym((x % 4) * 16), sel(s, 4 * k + 2) == EQ, sel(s, 4 * k + 3) == EQ)),
                  z3.Implies(r == 2, z3.And(sel(s, 4 * k) == sym(x / 4), sel(s, 4 * k + 1) == sym((x % 4) * 16 + y / 16), sel(s, 4 * k + 2) == sym((y % 16) * 4), sel(s, 4 * k + 3) == EQ)))
def groups(s, b, upto):
    k = z3.Int('k')
    return qall([k], z3.Implies(z3.And(TRIG(k) >= 0, k >= 0, k < upto), group(s, b, k)), patterns=[TRIG(k)])
def bytesok(b):
    k = z3.Int('k'); return qall([k], z3.And(sel(b, k) >= 0, sel(b, k) <= 255), patterns=[sel(b, k)])

def encloop(L):
    d = L.ex.task.data; i, o = L.v('input_position'), L.v('output_position'); e = L.v('encoded'); g = i / 3
    mark(L.ex, g)
    return [('position', z3.And(i == 3 * g, i >= 0, i <= d['n'], o == 4 * g)), ('length', e.f['len'] == d['L']), ('groups so far', groups(e.f['arr'], d['b'], g))]
@task('C09', 'base64', ontable=ontable, loops=[encloop])
def Encode(T):
    f = T.fn(NS + 'Encode'); b = T.obj(T.ex.ty.strip_ref(f['ps'][0]['t']), 'binary'); s = T.val(b); n = s.f['len']
    T.assume(z3.And(n >= 0, n <= 2 ** 62), 'object size'); T.assume(bytesok(s.f['arr']))
    T.data.update(n=n, L=4 * ((n + 2) / 3), b=s.f['arr'])
    T.cover('some input', n == 5)
    o = T.call(f, None, [b]); T.never_throws(o)
    r = o.ret.f
    T.ensure('length is four times the number of groups rounded up', r['len'] == 4 * ((n + 2) / 3))
    T.ensure('whole groups hold the standard characters', groups(r['arr'], s.f['arr'], n / 3))
    T.ensure('padded tail', tail(r['arr'], s.f['arr'], n))
def decloop(L):
    d = L.ex.task.data; i, j = L.v('i'), L.v('j'); b = L.v('buffer'); k = z3.Int('k'); g = i / 4
    mark(L.ex, g)
    return [('position', z3.And(i == 4 * g, j == 3 * g, i >= 0, i <= L.v('L'))), ('length', b.f['len'] == d['outlen']),
            *[('bytes so far, residue %d' % q, qall([k], z3.Implies(z3.And(k >= 0, k < g, TRIG(k) >= 0), sel(b.f['arr'], 3 * k + q) == sel(d['b'], 3 * k + q)), patterns=[TRIG(k)])) for q in range(3)]]
@task('C09', 'base64', ontable=ontable, loops=[decloop])
def Decode(T):
    """the contract of Encode is the precondition: decoding returns the bytes that were encoded"""
    x, y, w = z3.Ints('x y w')
    def words(x, y, w):
        a, b, c, d = (x / 4) * 2 ** 18, ((x % 4) * 16 + y / 16) * 2 ** 12, ((y % 16) * 4 + w / 64) * 64, w % 64
        return a + ((x % 4) * 16) * 2 ** 12, a + b + ((y % 16) * 4) * 64, a + b + c + d
    def whole(x, y, w):
        n1, n2, n3 = words(x, y, w)
        return z3.And(n1 >= 0, n2 >= 0, n3 >= 0, n3 < 2 ** 24, n1 / 65536 == x, n2 / 65536 == x, n2 / 256 % 256 == y, n3 / 65536 == x, n3 / 256 % 256 == y, n3 % 256 == w)
    T.lemma('four symbols make up three bytes', z3.Implies(z3.And(x >= 0, x < 256, y >= 0, y < 256, w >= 0, w < 256), whole(x, y, w)))
    f = T.fn(NS + 'Decode'); sl = T.obj(T.ex.ty.strip_ref(f['ps'][0]['t']), 'encoded'); s = T.val(sl); n = z3.Int('n'); b = z3.Const('bytes', s.f['arr'].sort())
    T.assume(z3.And(n >= 0, n <= 2 ** 60, s.f['len'] == 4 * ((n + 2) / 3), groups(s.f['arr'], b, n / 3), tail(s.f['arr'], b, n)), 'the text is what Encode returns for some bytes')
    alphabet(T)
    k = z3.Int('k'); T.assume(qall([k], z3.And(sel(b, k) >= 0, sel(b, k) <= 255), patterns=[sel(b, k)]))
    k = z3.Int('k'); I = z3.IntSort(); shr16, shr8, low8 = (T.ex.uf(q, I, I) for q in ('shr16', 'shr8', 'low8'))
    def named(x, y, w):
        n1, n2, n3 = words(x, y, w)
        return z3.And(n1 >= 0, n2 >= 0, n3 >= 0, n3 < 2 ** 24, shr16(n1) == x, shr16(n2) == x, low8(shr8(n2)) == y, shr16(n3) == x, low8(shr8(n3)) == y, low8(n3) == w)
    T.ex.fact(qall([k], named(sel(b, 3 * k), sel(b, 3 * k + 1), sel(b, 3 * k + 2)), patterns=[TRIG(k)]))  # instances of the lemma; shr/low are the engine's names for the same bits
    T.data.update(s=s.f['arr'], b=b, outlen=z3.If(n % 3 == 0, n, n - n % 3 + 1))
    g = n / 3; last = g - 1; mark(T.ex, last, g)
    T.lemma('the last character of a whole group is not the padding character', z3.Implies(z3.And(n % 3 == 0, n > 0), sel(s.f['arr'], s.f['len'] - 1) != EQ))
    T.cover('some input', n == 5)
    o = T.call(f, None, [sl]); T.never_throws(o); r = o.ret.f
    T.ensure('same number of bytes', r['len'] == n)
    k = T.qv('k'); mark(T.ex, k / 3); T.ensure('same bytes', z3.Implies(z3.And(k >= 0, k < n), sel(r['arr'], k) == sel(b, k)))
def anyloop(L):
    i, j = L.v('i'), L.v('j'); g = i / 4
    return [('position', z3.And(i == 4 * g, j == 3 * g, i >= 0, i <= L.v('L'), L.v('buffer').f['len'] == L.v('L') / 4 * 3 + L.v('pad')))]
@task('C09', 'base64', ontable=ontable, loops=[anyloop], timeout=30)
def DecodeAnything(T):
    """memory safety for every string whatsoever"""
    f = T.fn(NS + 'Decode'); sl = T.obj(T.ex.ty.strip_ref(f['ps'][0]['t']), 'encoded'); s = T.val(sl)
    T.assume(z3.And(s.f['len'] >= 0, s.f['len'] <= 2 ** 62), 'object size')
    o = T.call(f, None, [sl]); T.never_throws(o)
    T.ensure('at most three bytes per four characters', 4 * o.ret.f['len'] <= 3 * (s.f['len'] + 4))
