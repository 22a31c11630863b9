"""Verification tasks: a function of /repo, its contract, and the obligations that result."""
import z3, json, os, time, traceback
from .vtypes import *
from .sym import *
from . import prove

REG = {}

class Outcome(object):
    def __init__(self, st, ret, throws): self.st = st; self.ret = ret; self.throws = throws

class Task(object):
    def __init__(self, prop, name, body, tu, mode=None, loops=(), contracts=None, libover=None, ctorover=None, timeout=60, desc='', ontable=None):
        self.ontable = ontable
        self.prop = prop; self.name = name; self.body = body; self.tu = tu
        self.mode = dict(mode or {}); self.loops = list(loops); self.contracts = dict(contracts or {})
        self.libover = dict(libover or {}); self.ctorover = dict(ctorover or {})
        self.timeout = timeout; self.desc = desc or (body.__doc__ or '').strip()
        self.proving = None
        self.error = None; self.covers = []; self.assumptions = []
        self.targets = []
        self.data = {}

    # ---- access to the program
    def fns(self, q, **kw):
        out = []
        for f in self.ex.ast['functions']:
            if f['q'] != q and not f['q'].endswith('::' + q): continue
            if 'body' not in f and not f.get('isctor'): continue
            if kw.get('nparams') is not None and len(f['ps']) != kw['nparams']: continue
            if kw.get('cls') and not ('cls' in f and kw['cls'] in self.ex.ty.name(f['cls'])): continue
            if kw.get('ta') and not (kw['ta'] in ','.join(self.ex.ty.name(x['t']) for x in (f.get('ta') or []) if 't' in x)): continue
            if kw.get('params') is not None:
                ps = [self.ex.ty.name(p['t']) for p in f['ps']]
                if len(ps) != len(kw['params']) or not all(a in b for a, b in zip(kw['params'], ps)): continue
            if kw.get('pred') and not kw['pred'](f): continue
            out.append(f)
        return out
    def fn(self, q, **kw):
        r = self.fns(q, **kw)
        if not r: raise Unsupported('function %s not found in the extracted program' % q)
        ids = {}
        for f in r: ids[f['id']] = f
        return list(ids.values())[0]
    def type(self, name): return self.ex.ty.find(name)
    # ---- symbolic inputs
    def sym(self, tid, name):
        if isinstance(tid, str): tid = self.type(tid)
        v = self.ex.fresh(tid, name)
        if z3.is_expr(v): self.ex.inputs.append((name, v))
        elif isinstance(v, Struct):
            for n, x in v.f.items():
                if z3.is_expr(x) and not z3.is_array(x): self.ex.inputs.append((name + '.' + n, x))
        return v
    def lv(self, tid, val, name='obj'):
        if isinstance(tid, str): tid = self.type(tid)
        return self.ex.new_root(tid, val, name)
    def obj(self, tid, name):
        if isinstance(tid, str): tid = self.type(tid)
        return self.lv(tid, self.sym(tid, name), name)
    def assume(self, f, why=None):
        self.ex.assume(f)
        if why: self.assumptions.append(why)
    def val(self, lv): return self.ex.load(lv)
    # ---- running
    def call(self, f, this=None, args=(), proving=True):
        ex = self.ex
        if proving:
            self.proving = f['id']
            self.targets.append('%s (%s:%s)' % (f['q'], f.get('file', '').split('/')[-1], f.get('line')))
        t0 = len(ex.throws)
        saved = ex.st
        try:
            r = ex.call(f, this, list(args), None)
            st = ex.st
        except Dead:
            r = None; st = None; ex.st = None
        th = ex.throws[t0:]; del ex.throws[t0:]
        if proving and st is not None: self.covers.append(('returns: ' + f['q'].split('::')[-1] + ' (%d)' % len(self.covers), mkAnd(*st.pc), len(ex.facts)))
        return Outcome(st, r, th)
    def invoke(self, c, args):
        ex = self.ex; t0 = len(ex.throws)
        try: r = ex.invoke(c, args, {'l': 0}); st = ex.st
        except Dead: r = None; st = None
        th = ex.throws[t0:]; del ex.throws[t0:]
        return Outcome(st, r, th)
    # ---- contract clauses
    def ensure(self, name, goal, st=None, kind='post'):
        ex = self.ex; old = ex.st
        if st is not None: ex.st = st
        if ex.st is not None: ex.oblige(kind, goal, None, name, assume=False)
        ex.st = old
    def lemma(self, name, f):
        """ghost assertion: discharged as an obligation of its own, available afterwards"""
        self.ex.oblige('lemma', f, None, name, assume=True)
    def known(self, f):
        """is f one of the facts established so far?"""
        ids = {x.get_id() for x in self.ex.facts}
        return f.get_id() in ids or mkImp(self.ex.pcf(), f).get_id() in ids
    def inst(self, q, *ts):
        """instance of a universally quantified fact"""
        if not self.known(q): raise Unsupported('instance of a fact not established: %s' % str(q)[:80])
        assert z3.is_quantifier(q) and q.is_forall() and q.num_vars() == len(ts)
        f = z3.substitute_vars(q.body(), *reversed(ts)); self.ex.assume(f); return f
    def have(self, name, goal, using, assume=True, kind='lemma'):
        """ghost assertion discharged from the listed facts alone (each must be established already), available afterwards"""
        bad = [f for f in using if not self.known(f)]
        if bad: raise Unsupported('have: not an established fact: %s' % str(bad[0])[:80])
        self.ex.oblige(kind, goal, None, name, assume=False); self.ex.obls[-1].only = list(using)
        if assume: self.ex.assume(goal)
        return goal
    def named(self, name, n=-1):
        """the conjunct of a loop invariant or contract assumed under that name (last occurrence)"""
        r = [(full, f) for k, full, f in self.ex.named if k == name]
        if not r: raise Unsupported('no fact named ' + name)
        full, f = r[n]; return self.have('here: ' + name, f, [full]) if not full.eq(f) else f
    def throws_iff(self, out, cond, name='throws exactly when', only=None):
        ex = self.ex; old = ex.st
        for t in out.throws:
            ex.st = t.st
            ex.oblige('throws-only', cond, t.node, '%s: throws only if the condition holds' % name, assume=False)
        if out.st is not None:
            ex.st = out.st
            ex.oblige('must-throw', mkNot(cond), None, '%s: returns only if the condition does not hold' % name, assume=False)
        ex.st = old
    def throws_only_if(self, out, cond, name='throws only when'):
        ex = self.ex; old = ex.st
        for t in out.throws:
            ex.st = t.st
            ex.oblige('throws-only', cond, t.node, name, assume=False)
        ex.st = old
    def never_throws(self, out, name='does not throw'):
        self.throws_only_if(out, z3.BoolVal(False), name)
    def at_throws(self, out, name, fn):
        """clause that must hold in every exceptional outcome"""
        ex = self.ex; old = ex.st
        for t in out.throws:
            ex.st = t.st
            ex.oblige('post-throw', fn(t.st), t.node, name, assume=False)
        ex.st = old
    def cover(self, name, cond=True, st=None):
        ex = self.ex; s = st or ex.st
        if s is None: self.covers.append((name, z3.BoolVal(False), 0)); return
        self.covers.append((name, mkAnd(mkAnd(*s.pc), cond if z3.is_expr(cond) else z3.BoolVal(True)), len(ex.facts)))
    def func(self, name, model, empty=None):
        return OpaqueFn(name, model, empty)
    def qv(self, nm='i', tid=None):
        return z3.Const(self.ex.fresh_id(nm), self.ex.ty.I if tid is None else self.ex.ty.sort(tid))

    # ---- driver
    def generate(self, ast):
        self.ex = None
        self.covers = []; self.assumptions = []; self.targets = []; self.proving = None; self.data = {}
        self.error = None
        self.ex = Ex(ast, self.mode, self)
        try:
            self.body(self)
        except Unsupported as e:
            self.error = 'unsupported: ' + str(e)
        except Dead:
            self.error = 'unsupported: task body reached a dead state'
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, z3.Z3Exception, RecursionError) as e:
            self.error = 'generator: %s: %s | %s' % (type(e).__name__, str(e)[:200], traceback.format_exc().strip().split('\n')[-3].strip())
            self.tb = traceback.format_exc()
    def solve(self, procs=8, tmp='/tmp', timeout=None, deadline=None):
        prove.discharge(self.ex.facts, self.ex.obls, self.ex.inputs, timeout or self.timeout, procs, tmp, deadline)
        self.coverres = prove.covers(self.ex.facts, self.covers, 3, procs)

def task(prop, tu, **kw):
    def d(f):
        t = Task(prop, f.__name__, f, tu, **kw)
        REG.setdefault(prop, []).append(t)
        return f
    return d
