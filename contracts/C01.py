from vc.task import *

def spec_start(rs, re, n, t):
    """start of sub-range t: rs + t*q + min(t, r)"""
    q = (re - rs) / n; r = (re - rs) % n
    return rs + t * q + z3.If(t < r, t, r)

@task('C01', 'parallel')
def CalcStaticThreadRangeStartAndEnd(T):
    f = T.fn('CalcStaticThreadRangeStartAndEnd')
    ps = [T.sym(p['t'], p['n']) for p in f['ps']]
    rs, re, n, t = ps
    # every range whose length is representable
    T.assume(re - rs <= 2 ** 63 - 1)
    T.cover('pre', z3.And(rs < re, n > 2, t >= 0, t < n))
    out = T.call(f, None, [T.lv(T.ex.ty.strip_ref(p['t']), v) if T.ex.ty.kind(p['t']) == 'ref' else v for p, v in zip(f['ps'], ps)])
    bad = z3.Or(re < rs, n <= 0, t < 0, t >= n)
    T.throws_iff(out, bad, 'argument validation')
    T.ex.st = out.st
    s, e = out.ret.f['first'], out.ret.f['second']
    T.ensure('start of sub-range', s == spec_start(rs, re, n, t))
    T.ensure('end of sub-range is the next start', e == spec_start(rs, re, n, t + 1))
    T.ensure('length is floor or floor+1', z3.And(e - s >= (re - rs) / n, e - s <= (re - rs) / n + 1))
    T.ensure('first begins at range start', z3.Implies(t == 0, s == rs))
    T.ensure('last ends at range end', z3.Implies(t == n - 1, e == re))
    T.ensure('inside the range', z3.And(rs <= s, s <= e, e <= re))
    T.cover('normal return')
