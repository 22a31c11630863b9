#!/usr/bin/env python3
"""Verify planted bugs (never part of a check).  seed.py WORKER spec.py...   each spec defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo, srcs)].
A bug is written to /verif/seeded/<id>/ when the demonstration passes unchanged and fails patched and the stable tests still pass; the property's check is then run against it (in a private mount namespace, on copies)."""
import sys, os, subprocess as sp, json, tempfile, time
W = '/tmp/wt/' + sys.argv[1]; R = W + '/repo'; V = W + '/verif'
only = os.environ.get('ONLY', '').split()
DEMO = '''#!/bin/bash
# exit 0: behaves as stated; nonzero: broken
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -g -fopenmp %s -Iinclude -I/usr/include/eigen3 "$d/demo.cpp" %s -o "$t/demo" -lz >"$t/log" 2>&1 || { tail -5 "$t/log"; exit 2; }
cd "$t"; timeout 250 ./demo
'''
def sh(c, cwd=None, t=2000): return sp.run(c, shell=True, cwd=cwd, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, timeout=t)
if not os.path.exists(R): os.makedirs(W, exist_ok=True); sh('cp -a /repo ' + R)
os.makedirs(V, exist_ok=True)
ns = lambda c: "unshare -Urm bash -c 'mount --bind %s /repo; mount --bind %s /verif; %s'" % (R, V, c)
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def log(*a): print(time.strftime('%H:%M:%S'), *a, flush=True)
head = None
for spec in sys.argv[2:]:
    g = {}; exec(open(spec).read(), g)
    for b in g['BUGS']:
        if only and b['id'] not in only: continue
        sh('git checkout -q -- . ; git fetch -q /repo HEAD && git checkout -q FETCH_HEAD', R)
        bad = None
        for f, o, n in b['edits']:
            s = open(R + '/' + f).read()
            if s.count(o) != 1: bad = '%s: %d matches of %r' % (f, s.count(o), o[:50]); break
            open(R + '/' + f, 'w').write(s.replace(o, n))
        if bad: log(b['id'], 'EDIT', bad); continue
        d = '/verif/seeded/' + b['id']; td = tempfile.mkdtemp()
        open(td + '/patch.diff', 'w').write(sh('git diff', R).stdout)
        if 'demo' in b: open(td + '/demo.cpp', 'w').write(b['demo'])
        srcs = ' '.join('src/common_robotics_utilities/' + x for x in b.get('srcs', []))
        open(td + '/demo.sh', 'w').write(b.get('sh') or DEMO % (b.get('flags', ''), srcs)); os.chmod(td + '/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(td + '/meta.json', 'w'), indent=1)
        if not b.get('skipverify'):
            c0 = sh('bash %s/demo.sh' % td, '/repo'); c1 = sh('bash %s/demo.sh' % td, R)
            if c0.returncode != 0 or c1.returncode in (0, 2): log(b['id'], 'DEMO clean', c0.returncode, 'patched', c1.returncode, c0.stdout[-300:], c1.stdout[-300:]); continue
            t = sh(ns('bash /opt/vp/test.sh %s/t.json' % W), '/')
            r = json.load(open(W + '/t.json'))
            miss = base - set(r['passed'])
            if miss: log(b['id'], 'TESTS missing', len(miss), [x[-60:] for x in miss][:3]); continue
        sp.run(['mkdir', '-p', d]); sh('cp %s/* %s/' % (td, d))
        log(b['id'], 'KEPT')
        sh('rsync -a --delete --exclude .git --exclude seeded /verif/ %s/' % V) if os.path.exists('/usr/bin/rsync') else sh('find %s -mindepth 1 -delete; cd /verif; tar c --exclude .git --exclude seeded . | tar x -C %s' % (V, V))
        x = sh(ns('cd /verif; python3-vt engine/run.py %s' % b['prop']))
        log(b['id'], 'CHECK exit', x.returncode, [l[:150] for l in x.stdout.split('\n') if 'VIOLATION' in l][:3], x.stdout[-120:].strip() if x.returncode not in (1,) else '')
