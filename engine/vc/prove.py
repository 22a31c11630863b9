"""Discharging obligations: z3 (API) first, then cvc5 / an alternative z3 configuration."""
import z3, os, subprocess, time, multiprocessing, tempfile, signal

_G = {}

def solver_for(facts, obl, timeout, seed=0, opts=None, sub=None):
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    if seed: s.set('random_seed', seed)
    for k, v in (opts or {}).items(): s.set(k, v)
    for f in (sub if sub is not None else facts[:obl.nf] if getattr(obl, 'only', None) is None else obl.only): s.add(f)
    s.add(obl.pc)
    s.add(z3.Not(obl.goal))
    return s

_SY = {}
def syms(f):
    """uninterpreted symbols of a fact"""
    k = f.get_id()
    if k in _SY: return _SY[k][1]
    out = set(); seen = set(); todo = [f]
    while todo:
        x = todo.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED: out.add(d.name())
            elif d.kind() in (z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_DT_CONSTRUCTOR): pass
            todo += x.children()
    _SY[k] = (f, out); return out
def relevant(facts, obl, depth, tol):
    """subset of the facts reached from the goal through shared symbols that are rare for the fact (any subset is sound)"""
    fs = [(f, syms(f)) for f in facts]; occ = {}
    for _, sy in fs:
        for x in sy: occ[x] = occ.get(x, 0) + 1
    have = syms(obl.goal) | syms(obl.pc); pick = [not sy for _, sy in fs]
    for _ in range(depth):
        new = set(); ch = False
        for i, (f, sy) in enumerate(fs):
            if pick[i] or not sy: continue
            m = min(occ[x] for x in sy)
            if any(x in have and occ[x] <= tol * m for x in sy): pick[i] = True; new |= sy; ch = True
        have |= new
        if not ch: break
    return [f for (f, _), p in zip(fs, pick) if p]
def qfree(f):
    seen = set(); todo = [f]
    while todo:
        x = todo.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): return False
        todo += x.children()
    return True

def run_cvc5(smt, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False, dir=_G.get('tmp')) as f:
        f.write('(set-logic ALL)\n' + smt); p = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--quiet', p], capture_output=True, text=True, timeout=timeout + 5)
        o = r.stdout.strip().split('\n')[0] if r.stdout else ''
        return o if o in ('sat', 'unsat') else 'unknown'
    except Exception: return 'unknown'
    finally: os.unlink(p)

def run_z3cli(smt, timeout, binary='z3-new'):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False, dir=_G.get('tmp')) as f:
        f.write(smt); p = f.name
    try:
        r = subprocess.run([binary, '-T:%d' % int(timeout), p], capture_output=True, text=True, timeout=timeout + 5)
        o = r.stdout.strip().split('\n')[0] if r.stdout else ''
        return o if o in ('sat', 'unsat') else 'unknown'
    except Exception: return 'unknown'
    finally: os.unlink(p)

def one(i):
    obl = _G['obls'][i]; facts = _G['facts']; tl = _G['timeout']
    t0 = time.time()
    g = z3.simplify(obl.goal)
    if z3.is_true(g): return (i, 'unsat', 'simplifier', time.time() - t0, None)
    attempts = [('z3', min(tl, 3), {}), ('z3/arith2', min(tl, 4), {'smt.arith.solver': 2}), ('z3/no-mbqi', min(tl, 10), {'smt.mbqi': False} ), ('z3/seed', tl / 3, {}), ('z3/seed', tl / 3, {'smt.mbqi': False}), ('z3/seed', tl / 3, {})]
    last = 'unknown'; model = None; dl = _G.get('deadline') or 1e18
    if time.time() > dl: return (i, 'skipped', 'none', 0.0, None)
    for n, (nm, t, o) in enumerate(attempts):
        if time.time() > dl: break
        t = max(1, min(t, dl - time.time()))
        try:
            s = solver_for(facts, obl, t, seed=7 * n if n > 2 else 0, opts={k.replace('smt.', ''): v for k, v in o.items()})
            r = s.check()
        except z3.Z3Exception as e:
            continue
        if r == z3.unsat: return (i, 'unsat', nm, time.time() - t0, None)
        if r == z3.sat:
            if nm in ('z3', 'z3/seed') and not o:
                m = s.model(); md = {}
                for name, term in _G['inputs']:
                    try: md[name] = str(m.eval(term, model_completion=True))[:200]
                    except Exception: pass
                return (i, 'sat', nm, time.time() - t0, md)
        if n == 0 and getattr(obl, 'only', None) is None:
            # cheaper attempts from a subset of the facts (sound: an obligation that follows from fewer facts follows)
            base = facts[:obl.nf]; qf = [f for f in base if qfree(f)]; last_n = -1
            for nm2, sub, t2, o2 in [('z3/ground', lambda: qf, 2, {}), ('z3/near', lambda: relevant(base, obl, 1, 1.5), tl / 8, {}), ('z3/near', lambda: relevant(base, obl, 2, 1.5), tl / 6, {'mbqi': False}), ('z3/near', lambda: relevant(base, obl, 2, 4), tl / 6, {})]:
                sb = sub()
                if len(sb) == last_n or len(sb) == len(base): continue
                last_n = len(sb)
                try:
                    if solver_for(facts, obl, min(t2, 10), 0, o2, sb).check() == z3.unsat: return (i, 'unsat', nm2, time.time() - t0, None)
                except z3.Z3Exception: pass
        if n == 1:
            # second opinion early for quantified goals
            r2 = run_cvc5(s.to_smt2(), min(tl, 20))
            if r2 == 'unsat': return (i, 'unsat', 'cvc5', time.time() - t0, None)
    return (i, last, 'none', time.time() - t0, None)

def discharge(facts, obls, inputs, timeout=60, procs=8, tmp='/tmp', deadline=None):
    _G.update(facts=facts, obls=obls, inputs=inputs, timeout=timeout, tmp=tmp, deadline=deadline)
    todo = list(range(len(obls)))
    res = {}
    # cheap pass in-process
    rest = []
    for i in todo:
        t0 = time.time()
        g = obls[i].goal
        if z3.is_true(z3.simplify(g)): res[i] = ('unsat', 'simplifier', time.time() - t0, None)
        else: rest.append(i)
    if rest:
        if len(rest) == 1 or procs == 1:
            for i in rest:
                r = one(i); res[r[0]] = r[1:]
        else:
            ctx = multiprocessing.get_context('fork')
            with ctx.Pool(min(procs, len(rest))) as pool:
                it = pool.imap_unordered(one, rest)
                try:
                    for _ in rest:
                        r = it.next(max(1, deadline + 15 - time.time()) if deadline else None); res[r[0]] = r[1:]
                except multiprocessing.TimeoutError: pool.terminate()
    for i in rest:
        if i not in res: res[i] = ('skipped', 'none', 0.0, None)
    for i, (st, sv, t, m) in res.items():
        o = obls[i]; o.status = {'unsat': 'discharged', 'sat': 'refuted', 'skipped': 'skipped'}.get(st, 'unknown'); o.solver = sv; o.t = t; o.model = m

def satisfiable(facts, pc, timeout=10):
    s = z3.Solver(); s.set('timeout', int(timeout * 1000))
    for f in facts: s.add(f)
    s.add(pc)
    return str(s.check())

def _cov(i):
    name, c, nf = _G['covers'][i]
    try: return (name, satisfiable(_G['facts'][:nf], c, _G['ct']))
    except z3.Z3Exception: return (name, 'unknown')
def covers(facts, cs, timeout, procs):
    _G.update(facts=facts, covers=cs, ct=timeout)
    if not cs: return []
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(procs, len(cs))) as pool: return pool.map(_cov, range(len(cs)))
