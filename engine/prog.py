"""Builds the analysable program from the sources under $REPO (default /repo): clang bitcode -> canonical IR (JSON).
Everything is derived from the current source text on every run; a content-addressed cache avoids redoing equal inputs."""
import os, sys, re, glob, json, hashlib, subprocess, fcntl, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import ir
REPO = os.environ.get('PNUMPY_REPO', '/repo')
UNITS = ['pnumpy/_pnumpy', 'pnumpy/module_init', 'pnumpy/common', 'pnumpy/ledger', 'pnumpy/getitem', 'pnumpy/conversions', 'pnumpy/recycler', 'pnumpy/sorting',
         'atop/atop', 'atop/threads', 'atop/recarray', 'atop/sort', 'atop/fill', 'atop/ops_binary', 'atop/ops_compare', 'atop/ops_unary', 'atop/ops_trig', 'atop/ops_log']
class BuildError(Exception): pass

def cachedir():
    d = os.environ.get('PNUMPY_CACHE') or os.path.join(VERIF, '.cache')
    try: os.makedirs(d, exist_ok=True); open(os.path.join(d, '.w'), 'w').close(); return d
    except OSError:
        d = os.path.join(tempfile.gettempdir(), 'pnumpy-verif-cache-%d' % os.getuid()); os.makedirs(d, exist_ok=True); return d

def sha(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f: h.update(f.read())
    return h.hexdigest()[:24]

def run(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if r.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), '\n'.join([l for l in r.stdout.splitlines() if 'error' in l] or r.stdout.splitlines())[:1500]))
    return r.stdout

def tool():
    src = os.path.join(HERE, 'irdump.cpp'); d = cachedir(); out = os.path.join(d, 'irdump-' + sha([src]))
    if not os.path.exists(out):
        with open(os.path.join(d, 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(out):
                cfg = lambda a: subprocess.check_output(['llvm-config-18', a], text=True).split()
                run(['clang++-18', '-O1'] + cfg('--cxxflags') + ['-fno-rtti', src, '-o', out + '.tmp'] + cfg('--ldflags') + ['-lLLVM-18'])
                os.rename(out + '.tmp', out)
    return out

def includes():
    c = glob.glob('/opt/vp/venv/lib/python3*/site-packages/numpy/core/include') + glob.glob('/opt/vp/venv/lib/python3*/site-packages/numpy/_core/include') + glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages/numpy/*/include')
    if not c: raise BuildError('numpy headers not found')
    py = sorted(glob.glob('/usr/include/python3.*'))
    if not py: raise BuildError('python headers not found')
    return ['-I' + py[-1], '-I' + c[0]]

def flags():
    return ['-g', '-O1', '-Xclang', '-disable-llvm-passes', '-DPyUnicode_GET_SIZE=PyUnicode_GET_LENGTH', '-mavx2', '-fpermissive', '-std=c++11', '-pthread',
            '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION', '-w'] + includes()

class Program:
    def __init__(self, repo=None, modes=('flat',)):
        self.repo = repo or REPO; self.src = os.path.join(self.repo, 'src')
        self._mods = {}; self._raw = {}
        hs = [p for p in glob.glob(self.src + '/**/*', recursive=True) if p.endswith(('.h', '.hpp', '.inc', '.cpp')) and not p.endswith('PNUMPY.h')]
        t = tool()
        key = sha(hs, extra=os.path.basename(t) + ' '.join(flags()) + self.repo)
        self.key = key
        self.dir = os.path.join(cachedir(), 'ir-' + key)
        with open(os.path.join(cachedir(), 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(os.path.join(self.dir, 'done')): self.build(t)
    def build(self, t):
        os.makedirs(self.dir, exist_ok=True)
        old = sorted([d for d in glob.glob(os.path.join(cachedir(), 'ir-*')) if d != self.dir], key=os.path.getmtime)
        for d in old[:-3]: shutil.rmtree(d, ignore_errors=True)
        gen = os.path.join(self.dir, 'gen'); os.makedirs(gen, exist_ok=True)
        mi = os.path.join(self.src, 'pnumpy/module_init.cpp')
        names = sorted(set(re.findall(r'\b[A-Z][A-Z0-9_]*_DOC\b', open(mi, errors='replace').read()))) if os.path.exists(mi) else []
        with open(os.path.join(gen, 'PNUMPY.h'), 'w') as f: f.write(''.join('static char %s[] = "";\n' % n for n in names))
        fl = flags()
        def one(u):
            s = os.path.join(self.src, u + '.cpp'); b = os.path.basename(u)
            if not os.path.exists(s): raise BuildError('source %s is missing' % s)
            if b == 'module_init': s = shutil.copy(s, gen)   # its quoted include must find the generated header, not a stale one in the tree
            bc = os.path.join(self.dir, b + '.bc')
            cmd = ['clang++-18', '-c', '-emit-llvm'] + fl + ['-I' + gen, '-I' + self.src + '/pnumpy', '-I' + self.src + '/atop', s, '-o', bc]
            run(cmd)
            run([t, bc, os.path.join(self.dir, b + '.json')])
            run([t, '--mode=raw', bc, os.path.join(self.dir, b + '.raw.json')])
        with ThreadPoolExecutor(8) as ex: list(ex.map(one, UNITS))
        open(os.path.join(self.dir, 'done'), 'w').close()
    def mod(self, unit):
        if unit not in self._mods: self._mods[unit] = ir.Module(os.path.join(self.dir, unit + '.json'), unit)
        return self._mods[unit]
    def raw(self, unit):
        if unit not in self._raw: self._raw[unit] = ir.Module(os.path.join(self.dir, unit + '.raw.json'), unit)
        return self._raw[unit]
    @property
    def units(self): return [os.path.basename(u) for u in UNITS]
    def rel(self, p): return os.path.relpath(p, self.repo)
