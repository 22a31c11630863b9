"""Extracts /repo's current sources for an instantiation translation unit."""
import hashlib, json, os, subprocess, glob
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, '.build')
def repo_files():
    fs = []
    for d in ('include', 'src'):
        for p, _, names in os.walk(os.path.join(REPO, d)):
            fs += [os.path.join(p, n) for n in names if n.endswith(('.hpp', '.cpp', '.h'))]
    return sorted(fs)
_rh = None
def repo_hash():
    global _rh
    if _rh is None:
        h = hashlib.sha256()
        for f in repo_files(): h.update(f.encode()); h.update(open(f, 'rb').read())
        _rh = h.hexdigest()
    return _rh
def ensure_extractor():
    subprocess.run(['bash', os.path.join(ROOT, 'engine', 'build.sh')], check=True, stdout=subprocess.DEVNULL)
def load(tu):
    """AST of the translation unit /verif/tu/<tu>.cpp against the current /repo"""
    src = os.path.join(ROOT, 'tu', tu + '.cpp')
    os.makedirs(os.path.join(BUILD, 'ast'), exist_ok=True)
    h = hashlib.sha256()
    h.update(repo_hash().encode()); h.update(open(src, 'rb').read()); h.update(open(os.path.join(ROOT, 'engine', 'extract.cpp'), 'rb').read())
    out = os.path.join(BUILD, 'ast', '%s-%s.json' % (tu, h.hexdigest()[:20]))
    if not os.path.exists(out):
        for old in glob.glob(os.path.join(BUILD, 'ast', tu + '-*.json')):
            try: os.unlink(old)
            except OSError: pass
        tmp = out + '.%d.tmp' % os.getpid()
        r = subprocess.run([os.path.join(BUILD, 'extract'), tmp, REPO + ':' + os.path.join(ROOT, 'tu'), src, '--', '-std=c++17', '-fopenmp', '-w',
                            '-I' + os.path.join(ROOT, 'engine', 'inc'), '-I' + os.path.join(REPO, 'include'), '-I/usr/include/eigen3', '-DVERIF_REPO_SRC="%s/src"' % REPO, '-I' + REPO,
                            '-resource-dir', '/usr/lib/llvm-18/lib/clang/18'], capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(tmp):
            raise RuntimeError('extraction of %s failed: %s' % (tu, r.stderr[-1500:]))
        os.rename(tmp, out)
    return json.load(open(out))
