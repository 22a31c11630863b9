#!/opt/veriftools/pyvenv/bin/python3
"""Check of one property: regenerate the verification conditions of its contracts from /repo's current source, discharge them,
then replay / search on the real code.   usage: run.py ID [--tier quick|thorough] [--baseline] [--noharness] [--noproof]"""
import sys, os, json, time, hashlib, subprocess, threading, importlib, argparse, shutil, re, glob, signal
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'engine')); sys.path.insert(0, os.path.join(ROOT, 'contracts'))
BUILD = os.path.join(ROOT, '.build')
from vc import program
REPO = program.REPO

def props():
    return {p['id']: p for p in map(json.loads, open(os.path.join(ROOT, 'properties.jsonl')))}

def known():
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m: out[(m.group(1), m.group(2))] = m.group(3)
    return out

# ---------------------------------------------------------------- harness
def harness_build(pid, res):
    src = os.path.join(ROOT, 'harness', pid + '.cpp')
    if not os.path.exists(src): res['missing'] = True; return
    text = open(src).read()
    flags = []; srcs = []; san = '-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr'.split(); opt = '-O1'
    for l in text.split('\n')[:20]:
        m = re.match(r'// (SRC|FLAGS|SAN|OPT): ?(.*)', l)
        if m:
            if m.group(1) == 'SRC': srcs += m.group(2).split()
            if m.group(1) == 'FLAGS': flags += m.group(2).split()
            if m.group(1) == 'SAN': san = m.group(2).split()
            if m.group(1) == 'OPT': opt = m.group(2).strip()
    h = hashlib.sha256()
    h.update(program.repo_hash().encode()); h.update(text.encode())
    for f in sorted(glob.glob(os.path.join(ROOT, 'harness', '*.hpp'))): h.update(open(f, 'rb').read())
    d = os.path.join(BUILD, 'harness'); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, '%s-%s' % (pid, h.hexdigest()[:20]))
    if not os.path.exists(out):
        for old in glob.glob(os.path.join(d, pid + '-*')):
            try: os.unlink(old)
            except OSError: pass
        base = ['g++', '-std=c++17', opt, '-g1', '-fopenmp', '-w'] + san + flags + ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(ROOT, 'harness'), '-I/usr/include/eigen3', '-I' + REPO]
        objs = []; ps = []
        for i, s in enumerate([src] + [os.path.join(REPO, 'src/common_robotics_utilities', x) for x in srcs]):
            o = out + '.%d.%d.o' % (os.getpid(), i); objs.append(o)
            ps.append((s, subprocess.Popen(base + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        err = ''
        for s, p in ps:
            o = p.communicate()[0]
            if p.returncode != 0: err += '%s:\n%s\n' % (s, o[-2500:])
        if not err:
            r = subprocess.run(base + objs + ['-o', out + '.tmp', '-lz', '-lpthread'], capture_output=True, text=True)
            if r.returncode != 0: err = r.stderr[-2500:]
            else: os.rename(out + '.tmp', out)
        for o in objs:
            if os.path.exists(o): os.unlink(o)
        if err: res['error'] = err; return
    res['bin'] = out

def harness_run(pid, binp, seed, limit, hints, tier):
    """returns dict(fails=[(key, text)], stats={}, out=text)"""
    d = os.path.join(BUILD, 'scratch', '%s-%d' % (pid, os.getpid())); os.makedirs(d, exist_ok=True)
    hf = os.path.join(d, 'hints.txt')
    with open(hf, 'w') as f:
        for k, v in hints: f.write('%s=%s\n' % (k, v))
    env = dict(os.environ, VERIF_HINTS=hf, VERIF_TIER=tier, VERIF_SCRATCH=d, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2000:abort_on_error=0:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=0', OMP_NUM_THREADS='4')
    r = {'fails': [], 'stats': {}, 'out': '', 'rc': None}
    try:
        p = subprocess.Popen([binp, str(seed), str(limit)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, env=env, start_new_session=True)
        try: o = p.communicate(timeout=limit * 2 + 150)[0]
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); o = p.communicate()[0]; r['timeout'] = True
        o = o.decode('utf-8', 'replace')
        r['rc'] = p.returncode; r['out'] = o[-20000:]
        for l in o.split('\n'):
            if l.startswith('FAIL '):
                k, _, t = l[5:].partition(' | '); r['fails'].append((k.strip(), t))
            elif l.startswith('STAT '):
                k, _, v = l[5:].partition('='); r['stats'][k] = int(v)
            elif l.startswith('SAMPLE '): r['stats'].setdefault('samples', []).append(l[7:])
            elif l.startswith('RULE '): r['stats']['rule'] = l[5:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r

# ---------------------------------------------------------------- proof
def oblname(t, o): return '%s/%s/%s: %s' % (t.name, o.kind, o.fn.split('::')[-1], o.desc)
def oblhash(t, o):
    """hash of everything an obligation is made of (facts, path condition, goal)"""
    c = getattr(t, '_fh', None)
    if c is None or c[0] is not t.ex: c = t._fh = (t.ex, [''], {})
    fh = c[1]
    def one(f):
        k = f.get_id()
        if k not in c[2]: c[2][k] = (f, hashlib.sha256(f.sexpr().encode()).hexdigest()[:16])
        return c[2][k][1]
    if getattr(o, 'only', None) is not None: base = ','.join(one(f) for f in o.only)
    else:
        while len(fh) <= o.nf and len(fh) <= len(t.ex.facts): fh.append(hashlib.sha256((fh[-1] + one(t.ex.facts[len(fh) - 1])).encode()).hexdigest()[:16])
        base = fh[min(o.nf, len(fh) - 1)]
    return hashlib.sha256((base + '|' + o.pc.sexpr() + '|' + o.goal.sexpr()).encode()).hexdigest()[:16]

def run_tasks(pid, deadline, tier, seed):
    from vc import task as T
    out = {'tasks': [], 'tot': 0, 'dis': 0, 'fails': [], 'by': {}, 'time': 0.0, 'functions': [], 'assume': set(), 'lib': {}, 'hints': [], 'error': [], 'covers': 0, 'vacuous': []}
    cf = os.path.join(ROOT, 'contracts', pid + '.py')
    if not os.path.exists(cf): return out
    importlib.import_module(pid)
    bl = {}
    bf = os.path.join(ROOT, 'baseline', pid + '.json')
    if os.path.exists(bf): bl = json.load(open(bf))
    tasks = T.REG.get(pid, [])
    asts = {}
    for n, t in enumerate(tasks):
        try:
            if t.tu not in asts: asts[t.tu] = program.load(t.tu)
            ast = asts[t.tu]
        except Exception as e:
            out['error'].append((t.name, 'extraction: ' + str(e)[:600])); continue
        t0 = time.time()
        t.generate(ast)
        left = deadline - time.time()
        tmo = max(2, min(t.timeout * (1 if tier == 'quick' else 3), left / 2))
        if t.ex is None or (t.error and not t.ex.obls):
            out['error'].append((t.name, t.error)); continue
        if left < 5: out['error'].append((t.name, 'time budget used up')); continue
        t.solve(timeout=tmo, procs=8, tmp=None, deadline=deadline)
        if t.error: out['error'].append((t.name, t.error))
        nd = 0
        base = bl.get(t.name, {})
        for o in t.ex.obls:
            out['tot'] += 1
            out['time'] += o.t
            if o.status == 'discharged':
                nd += 1; out['by'][o.solver] = out['by'].get(o.solver, 0) + 1
            else:
                if o.status == 'skipped': out['error'].append((t.name, 'time budget used up: ' + oblname(t, o))); continue
                if o.status == 'unknown' and oblhash(t, o) in base.get('hashes', {}):
                    out['error'].append((t.name, 'timed out (identical obligation discharged when the baseline was recorded): ' + oblname(t, o))); continue
                if t.error and o.kind not in ('post',):
                    # generation stopped early: the specification could not be attached to the current shape of the code
                    out['error'].append((t.name, 'undecided: ' + oblname(t, o))); continue
                out['fails'].append((t, o))
                if o.model: out['hints'] += [('%s.%s' % (t.name, k), v) for k, v in o.model.items()]
        out['dis'] += nd
        for name, r in t.coverres:
            out['covers'] += 1
            if r == 'unsat' and not t.error: out['vacuous'].append((t.name, name))
        out['functions'] += t.targets
        out['functions'] += ['%s [inlined]' % q for q in sorted(getattr(t.ex, 'inlined', ())) ]
        for k, v in t.ex.used_lib.items(): out['lib'][k] = out['lib'].get(k, 0) + v
        out['assume'].update(t.assumptions)
        for q in t.contracts: out['assume'].add('callee contract used for %s' % q)
        out['tasks'].append({'task': t.name, 'obligations': len(t.ex.obls), 'discharged': nd, 'seconds': round(time.time() - t0, 1), 'covers': dict(t.coverres), 'error': t.error})
        t._hashes = None
    out['_tasks'] = tasks
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--baseline', action='store_true'); ap.add_argument('--noharness', action='store_true'); ap.add_argument('--noproof', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.id; tier = a.tier; t_start = time.time()
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    man = {}
    try: man = {c['property']: c for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']}
    except Exception: pass
    kf = known()
    hres = {}
    th = threading.Thread(target=harness_build, args=(pid, hres)); 
    if not a.noharness: th.start()
    perr = None
    pr = None
    if not a.noproof:
        try:
            program.ensure_extractor()
            pr = run_tasks(pid, t_start + (330 if tier == 'quick' else 3000), tier, seed)
        except Exception as e:
            import traceback; traceback.print_exc(); perr = str(e)[:500]
    if pr is None: pr = {'tasks': [], 'tot': 0, 'dis': 0, 'fails': [], 'by': {}, 'time': 0.0, 'functions': [], 'assume': set(), 'lib': {}, 'hints': [], 'error': [('-', perr or 'skipped')] if not a.noproof else [], 'covers': 0, 'vacuous': []}
    hr = {'fails': [], 'stats': {}, 'out': '', 'rc': 0}
    if not a.noharness:
        th.join()
        if 'bin' in hres:
            lim = float(os.environ.get('VERIF_HARNESS_SECONDS', '0')) or (60 if tier == 'quick' else 600)
            hr = harness_run(pid, hres['bin'], seed, lim, pr['hints'], tier)
    viol = []      # (key, text, kind)
    seen = set()
    knownhit = []
    for k, t in hr['fails']:
        if k in seen: continue
        seen.add(k)
        if (pid, k) in kf: knownhit.append((k, t))
        else: viol.append((k, t, 'input'))
    if 'bin' in hres and not hr['fails'] and hr['rc'] not in (0, None) and not hr.get('timeout'):
        # died without a diagnosis of its own: out of memory or killed => no verdict; a sanitizer report => failing input
        if 'ERROR: AddressSanitizer' in hr['out'] or 'runtime error:' in hr['out']: viol.append(('sanitizer', hr['out'][-3000:], 'input'))
        else: pr['error'].append(('harness', 'harness ended with status %s' % hr['rc']))
    pviol = [(oblname(t, o), t, o) for t, o in pr['fails']]
    for name, t, o in list(pviol):
        if (pid, 'obl:' + name) in kf or (pid, 'obl:' + name.replace(' ', '_')) in kf:
            knownhit.append(('obl:' + name, 'obligation')); pviol.remove((name, t, o))
    rep = os.path.join(ROOT, 'evidence', 'replay_%s.txt' % pid)
    lines = []
    if viol or pviol:
        with open(rep, 'w') as f:
            f.write('property %s tier %s seed %d\n' % (pid, tier, seed))
            if viol:
                f.write('\nFailing inputs found on the real code (harness/%s.cpp, re-run: VERIF_SEED=%d python3 engine/run.py %s):\n' % (pid, seed, pid))
                for k, t, _ in viol: f.write('  [%s] %s\n' % (k, t))
                f.write('\nharness output:\n' + hr['out'][-6000:] + '\n')
            for name, t, o in pviol:
                f.write('\nfailed obligation: %s\n  at %s in %s\n  verifier: %s by %s after %.1fs\n  counterexample (inputs): %s\n  goal: %s\n' % (name, o.loc, o.fn, o.status, o.solver, o.t, json.dumps(o.model), str(o.goal)[:3000]))
    for k, t in knownhit: lines.append('KNOWN-FINDING: property=%s %s' % (pid, kf.get((pid, k), k)))
    if viol: lines.append('VIOLATION property=%s replay=%s' % (pid, rep))
    elif pviol: lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rep))
    # ---- evidence
    level = man.get(pid, {}).get('level', 'proof' if pr['tot'] else 'exploration')
    cov = {'obligations': pr['tot'], 'discharged': pr['dis'], 'checker_cmd': 'python3-vt engine/run.py %s --tier %s' % (pid, tier),
           'trusted_base': ['clang 18 front end + engine/extract.cpp (AST extraction of the functions below from /repo on this run)', 'engine/vc (semantics of the C++ subset, VC generation)', 'z3 5.3 / cvc5 1.1.2',
                            'assumed library contracts: ' + ', '.join(sorted(pr['lib']))],
           'functions_under_contract': sorted(set(pr['functions'])), 'by_backend': pr['by'], 'solver_seconds': round(pr['time'], 1), 'tasks': pr['tasks'],
           'vacuity_covers': pr['covers'], 'vacuous': pr['vacuous'], 'undecided': [list(x) for x in pr['error']],
           'failed_obligations': [n for n, _, _ in pviol],
           'bounded_standin': {'harness': 'harness/%s.cpp' % pid if 'bin' in hres else None, 'evaluations': hr['stats'].get('evaluations', 0), 'distinct_nontrivial': hr['stats'].get('nontrivial', 0),
                               'error': hres.get('error', '')[:600], 'exit': hr['rc'], 'label': 'bounded: never counted as proved'},
           'evaluations': hr['stats'].get('evaluations', 0), 'distinct_nontrivial': hr['stats'].get('nontrivial', 0), 'rule': hr['stats'].get('rule', 'random and edge-case inputs to the real functions, checked against an oracle'), 'samples': hr['stats'].get('samples', [])[:10] or ['none'],
           'explanation': man.get(pid, {}).get('level_note', 'deductive obligations plus a bounded stand-in')}
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': sorted(pr['assume']), 'wall_s': round(time.time() - t_start, 1), 'violations': len(viol) + len(pviol)}
    tmp = os.path.join(ROOT, 'evidence', '.%s.tmp' % pid)
    json.dump(ev, open(tmp, 'w'), indent=1); os.rename(tmp, os.path.join(ROOT, 'evidence', pid + '.json'))
    print('%s: %d/%d obligations discharged %s, %d undecided; harness: %d evaluations, %d failing keys; %.0fs' % (pid, pr['dis'], pr['tot'], pr['by'], len(pr['error']), hr['stats'].get('evaluations', 0), len(hr['fails']), time.time() - t_start))
    if a.v or a.baseline or viol or pviol:
        for x in pr['error']: print('  undecided:', x[0], str(x[1])[:300])
        for n, t, o in pviol: print('  failed:', n, o.loc, o.status, str(o.model)[:300])
        for k, t, _ in viol: print('  failing input: [%s] %s' % (k, t[:400]))
        for x in pr['vacuous']: print('  VACUOUS:', x)
        if hres.get('error'): print('  harness build:', hres['error'][:2500])
        if a.v and hr['rc']: print(hr['out'][-2500:])
    if a.baseline and not pviol:
        bl = {}
        for t in pr.get('_tasks', []):
            if t.ex is None: continue
            bl[t.name] = {'obligations': sorted(oblname(t, o) for o in t.ex.obls if o.status == 'discharged'), 'hashes': {oblhash(t, o): 1 for o in t.ex.obls if o.status == 'discharged' and o.solver != 'simplifier'}}
        json.dump(bl, open(os.path.join(ROOT, 'baseline', pid + '.json'), 'w'), indent=0, sort_keys=True)
    for l in lines: print(l)
    sys.stdout.flush()
    os._exit(1 if (viol or pviol) else 0)

main()
