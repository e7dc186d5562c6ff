"""The Python surface (C28): name resolution over every module, and abstract interpretation of the package's import and of its wrapper functions."""
import os, ast, symtable, builtins
import prog, report, dispatch, pyabs
from pyabs import M, T, G, Exc, NoVal, Interp, Mod, where
from c_columns import Meth
PK = 'src/pnumpy'
def files():
    d = os.path.join(prog.REPO, PK)
    return {f[:-3]: os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.py')}
# ------------------------------------------------------------------------------------------------ names
def globalsof(tree, ctx=True):
    """names the module body binds (also in nested blocks and through global statements)"""
    r = set(); star = []
    def body(n):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): r.add(x.name); continue
            if isinstance(x, ast.Lambda): continue
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    if a.name == '*': star.append(x.module); continue
                    r.add(a.asname or a.name.split('.')[0])
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): r.add(x.id)
            if isinstance(x, ast.ExceptHandler) and x.name: r.add(x.name)
            body(x)
    body(tree)
    for x in ast.walk(tree):
        if isinstance(x, ast.Global): r |= set(x.names)
    return r, star
def names(ck, fs, native):
    mods = {}
    for m, p in fs.items():
        try: mods[m] = ast.parse(open(p).read(), p)
        except SyntaxError as e: ck.violation('names', 'syntax', '%s/%s.py:%s' % (PK, m, e.lineno), 'does not parse: %s' % e.msg)
    gl = {m: globalsof(t) for m, t in mods.items()}
    BI = set(dir(builtins)) | {'__file__', '__name__', '__package__', '__path__', '__doc__', '__spec__', '__loader__', '__builtins__'}
    n = 0
    def target(m, level, pkgname):
        """what an import names: ('native',), ('sub', module) or None for something outside the package"""
        if level: pkgname = 'pnumpy' + ('.' + pkgname if pkgname else '')
        if pkgname == 'pnumpy._pnumpy': return ('native',)
        if pkgname == 'pnumpy': return ('sub', '__init__')
        if pkgname and pkgname.startswith('pnumpy.'): return ('sub', pkgname[7:])
        return None
    def has(tg, name):
        if tg[0] == 'native': return name in native
        if tg[1] not in gl: return None
        return name in gl[tg[1]][0] or bool(gl[tg[1]][1]) or tg[1] == '__init__' and (name in gl or name == '_pnumpy')
    for m, t in mods.items():
        path = fs[m]; rel = '%s/%s.py' % (PK, m); known, star = gl[m]
        if m == '_version': pass
        alias = {}
        for x in ast.walk(t):
            if isinstance(x, ast.ImportFrom):
                tg = target(m, x.level, x.module)
                if tg is None: continue
                for a in x.names:
                    if a.name == '*': continue
                    h = has(tg, a.name)
                    if h is None: ck.violation('names', 'module:%s' % x.module, where(rel, x), 'imports from %s, which is not in the package' % x.module)
                    elif not h: ck.violation('names', 'import:%s:%s' % (m, a.name), where(rel, x), 'imports %s, which %s does not provide' % (a.name, 'the native module' if tg[0] == 'native' else tg[1] + '.py'))
                    else: n += 1
                    if tg == ('sub', '__init__') and a.name == '_pnumpy': alias[a.asname or a.name] = ('native',)
                    elif tg == ('sub', '__init__') and a.name in gl and a.name not in gl['__init__'][0]: alias[a.asname or a.name] = ('sub', a.name)
            elif isinstance(x, ast.Import):
                for a in x.names:
                    tg = target(m, 0, a.name)
                    if tg is not None and a.asname: alias[a.asname] = tg
        for x in ast.walk(t):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in alias and isinstance(x.ctx, ast.Load):
                h = has(alias[x.value.id], x.attr)
                if h is False and not x.attr.startswith('__'): ck.violation('names', 'attr:%s:%s' % (m, x.attr), where(rel, x), '%s.%s does not exist' % (x.value.id, x.attr))
                else: n += 1
        st = symtable.symtable(open(path).read(), path, 'exec')
        lines = {}
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load): lines.setdefault(x.id, x.lineno)
        def scope(s):
            nonlocal n
            for y in s.get_symbols():
                if y.is_referenced() and y.is_global() or s.get_type() == 'module' and y.is_referenced() and not y.is_local():
                    v = y.get_name()
                    if v in known or v in BI or star: n += 1
                    else: ck.violation('names', 'undefined:%s:%s' % (m, v), '%s:%s' % (rel, lines.get(v, s.get_lineno())), 'uses the name %s, which is defined nowhere' % v)
            for c in s.get_children(): scope(c)
        scope(st)
    if n: ck.ok('names', n, '%d modules, %d native functions' % (len(mods), len(native)))
    return mods
# ------------------------------------------------------------------------------------------------ import and switches
class File(M):
    def __init__(self, lines): self.lines = lines
    def p_attr(self, I, n):
        if n == '__enter__': return Meth(lambda I, a, k, x: self)
        if n == 'read': return Meth(lambda I, a, k, x: b''.join(self.lines))
        if n == 'readlines': return Meth(lambda I, a, k, x: list(self.lines))
        return T('attr', self, n)
    def p_iter(self, I): return iter(self.lines)
    def p_isinstance(self, I, t): return False
CPUINFO = {'two sockets': [b'processor\t: 0\n', b'physical id\t: 0\n', b'cpu cores\t: 4\n', b'\n', b'processor\t: 1\n', b'physical id\t: 1\n', b'cpu cores\t: 4\n', b'flags\t\t: avx2\n', b'\n'],
           'no topology': [b'processor\t: 0\n', b'flags\t\t: avx2\n', b'\n', b'\n'], 'one half': [b'physical id\t: 0\n', b'\n'], 'empty': []}
STAT = ['cpu  1 2 3\n', 'cpu0 1 2 3\n', 'cpu1 1 2 3\n', 'intr 4\n']
def world():
    H = {}
    def opn(I, a, k, x):
        p = a[0]; mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        if p == '/proc/cpuinfo':
            l = CPUINFO[I.choose('cpuinfo', tuple(CPUINFO))]
            return File(l if 'b' in mode else [y.decode() for y in l])
        if p == '/proc/stat': return File(STAT if 'b' not in mode else [y.encode() for y in STAT])
        if isinstance(p, str) and p.startswith('/sys/'): return File([b'0,4\n'] if 'b' in mode else ['0,4\n'])
        raise Exc('FileNotFoundError', p, x)
    H['builtins.open'] = H['io.open'] = opn
    def sysconf(I, a, k, x):
        if I.choose('sysconf'): return 8
        raise Exc('ValueError', None, x)
    H['os.sysconf'] = sysconf
    H['os.cpu_count'] = lambda I, a, k, x: 8 if I.choose('cpu_count') else None
    H['glob.glob'] = H['glob.iglob'] = lambda I, a, k, x: ['/sys/a', '/sys/b'] if I.choose(('glob', a[0])) else []
    H['platform.system'] = lambda I, a, k, x: I.choose('system', ('Linux', 'Windows', 'Darwin'))
    class Pat(M):
        def __init__(self, p): self.p = p
        def p_attr(self, I, n):
            import re
            def f(I, a, k, x):
                if not isinstance(a[0], (str, bytes)): raise NoVal('regular expression')
                return T('match') if getattr(re.compile(self.p), n)(a[0]) else None
            return Meth(f)
    class Match(T): pass
    H['re.compile'] = lambda I, a, k, x: Pat(a[0])
    return H
class Native(M):
    """the native module"""
    def __init__(self, names): self.names = names
    def __repr__(self): return 'pnumpy._pnumpy'
    def p_attr(self, I, n):
        if n in self.names: return G('pnumpy._pnumpy.' + n)
        raise Exc('AttributeError', n)
def loader(fs, native):
    """resolver of module names: modules of the package are interpreted, in the order the imports ask for"""
    nat = Native(native)
    def res(I, path):
        if path == 'pnumpy._pnumpy': return nat
        if path == 'pnumpy' or path.startswith('pnumpy.'):
            m = '__init__' if path == 'pnumpy' else path[7:]
            if m.startswith('_pnumpy.'): return None
            if m not in fs:
                return None if '.' in m or not m else None
            c = I.__dict__.setdefault('mods', {})
            if path in c: return c[path]
            s = pyabs.Scope(); s.d['__name__'] = path; s.d['__package__'] = 'pnumpy'; s.d['__file__'] = fs[m]; s.rel = '%s/%s.py' % (PK, m)
            c[path] = Mod(path, s); t = ast.parse(open(fs[m]).read(), fs[m])
            for x in ast.walk(t): x.file = s.rel
            I.block(t.body, s)
            if m != '__init__' and 'pnumpy' in c: c['pnumpy'].scope.d.setdefault(m, c[path])
            return c[path]
        return None
    return res
class Interp2(Interp):
    def reset(self, dec=()): Interp.reset(self, dec); self.__dict__.pop('mods', None)
    def builtin(self, n, a, k, node):
        return Interp.builtin(self, n, a, k, node)
def truthmatch(self, I): return True
def mk(fs, native, H):
    def feat(I, path):
        if path in ('numpy.core._multiarray_umath.__cpu_features__',): return Feat()
        return load(I, path)
    load = loader(fs, native)
    return Interp2(H, resolver=feat, opaque=lambda I, f, a, k, x: NotImplemented)
class Feat(M):
    def p_item(self, I, k):
        c = I.choose('features', ('avx2', 'unknown', 'none'))
        if c == 'none': raise Exc('KeyError')
        return c == 'avx2'
    def p_attr(self, I, n):
        if n == 'get': return Meth(lambda I, a, k, x: {'avx2': True, 'unknown': False}.get(I.choose('features', ('avx2', 'unknown', 'none')), a[1] if len(a) > 1 else None))
        return T('attr', self, n)
def calls(evs): return [(e[2].path[len('pnumpy._pnumpy.'):], e[1]) for e in evs if e[0] == 'call' and isinstance(e[2], G) and e[2].path.startswith('pnumpy._pnumpy.')]
def package(ck, fs, native):
    rel = PK + '/__init__.py'; n = 0
    def imports():
        I = mk(fs, native, world())
        for r in I.runs(lambda: I.imp('pnumpy'), 600): yield I, r
    und = None; exp = 0
    for I, (out, v, evs, dec) in imports():
        d = dict((k, x) for k, x in dec)
        if out == 'und': und = v; continue
        if d.get('features') == 'unknown':
            if out != 'raise': ck.violation('import', 'avx2', rel, 'a processor without AVX2 is accepted'); return
            n += 1; continue
        if out == 'raise': ck.violation('import', 'raises', where(rel if v.node is None else '', v.node) if v.node is not None else rel, 'importing the package raises %s%s' % (v.kind, ' (%s)' % v.val if isinstance(v.val, str) else ''), {str(k): str(x) for k, x in dec}); return
        s = v.scope.d
        c = calls(evs)
        if [x[0] for x in c].count('initialize') != 1: ck.violation('import', 'init', rel, 'importing the package starts the engines %d times' % [x[0] for x in c].count('initialize'), {str(k): str(x) for k, x in dec}); return
        bad = [x for x, _ in c if x.endswith('_disable')]
        if bad: ck.violation('import', 'disable', rel, 'importing the package calls %s' % bad[0]); return
        al = s.get('__all__')
        if isinstance(al, (list, tuple)):
            for a in al:
                if a not in s: ck.violation('import', 'all:%s' % a, rel, '__all__ lists %s, which the package does not define' % a); return
                exp += 1
        for m, o in I.mods.items():
            al = o.scope.d.get('__all__')
            for a in al if isinstance(al, (list, tuple)) else ():
                if a not in o.scope.d: ck.violation('import', 'all:%s:%s' % (m, a), o.scope.rel, '__all__ of %s lists %s, which it does not define' % (m, a)); return
        n += 1
    if und: ck.undecided('import', rel, und)
    if n: ck.ok('import', n, 'machine descriptions; %d exported names' % exp)
    WANT = {'enable': {'atop_enable', 'thread_enable'}, 'disable': {'atop_disable', 'thread_disable'}, 'init': {'initialize'}, 'initialize': {'initialize'}}
    for fn, want in WANT.items():
        I = mk(fs, native, world()); n = 0
        def thunk():
            I.choose('features', ('avx2', 'none'))
            p = I.imp('pnumpy'); I.events.append(('mark', None)); 
            return I.call(I.attr(p, fn), [], {}, None)
        und = None
        for out, v, evs, dec in I.runs(thunk, 600):
            if out == 'und': und = v; continue
            mk_ = [i for i, e in enumerate(evs) if e[0] == 'mark']
            if not mk_: continue
            if out == 'raise': ck.violation('switch', 'raises:' + fn, where('', v.node) if v.node is not None else fn, '%s() raises %s' % (fn, v.kind)); break
            got = [x for x, _ in calls(evs[mk_[0]:])]
            if set(got) & {x for f in WANT.values() for x in f} != want: ck.violation('switch', fn, PK + '/cpu.py', '%s() calls %s, expected %s' % (fn, ', '.join(got) or 'nothing', ', '.join(sorted(want)))); break
            n += 1
        else:
            if und: ck.undecided('switch', fn, und)
            if n: ck.ok('switch', n, '%s() -> %s' % (fn, ', '.join(sorted(want))))
# ------------------------------------------------------------------------------------------------ wrappers
class Given(T):
    """an argument the caller gave: some value other than None"""
    notnone = True
    def p_truth(self, I): return True
class A(M):
    """an argument or an array made from it: its history as a term"""
    def __init__(self, h, fresh, kind='array'): self.h = h; self.fresh = fresh; self.kind = kind
    def __repr__(self): return str(self.h)
    def __eq__(self, o): return self is o
    def __hash__(self): return id(self)
    def p_attr(self, I, n):
        if self.kind == 'any' and not self.known(I) and not I.choose(('has', self.h, n)): raise Exc('AttributeError')
        if n == '__array_wrap__': return Meth(lambda I, a, k, x: A(('wrap', a[0].h if isinstance(a[0], A) else a[0]), True))
        if n == 'copy': return Meth(lambda I, a, k, x: A(('copy', self.h), True))
        if n in ('flatten',): return Meth(lambda I, a, k, x: A(('flat', self.h), True))
        if n in ('ravel', 'reshape', 'view'): return Meth(lambda I, a, k, x: A(('flat', self.h) if n == 'ravel' or n == 'reshape' and a == [-1] else (n, self.h), self.fresh))
        if n == 'sort':
            def f(I, a, k, x):
                c = ax(I, a, k, ('axis', 'kind', 'order'), (-1, None, None))
                if not I.choose(('sort ok', c)): raise Exc('ValueError', None, x)
                I.ev('sort', x, self, self.fresh); self.h = ('sorted', self.h) + c
            return Meth(f)
        if n in SIG:
            def g(I, a, k, x):
                c = ax(I, a, k, SIG[n][0], SIG[n][1])
                r = I.choose(('method', n, self.h), ('ok', 'TypeError', 'ValueError') if self.kind == 'any' and not self.known(I) else ('ok', 'ValueError'))
                if r != 'ok': raise Exc(r, None, x)
                return A(('method', n, self.h) + c, True)
            return Meth(g)
        if n in ('ndim', 'dtype', 'shape', 'size', 'strides', 'flags'): return T(n, str(self.h))
        return T('attr', self, n)
    def known(self, I): return any(d[0] == ('isarray', self.h) and d[1] for d in I.dec[:I.nd])
    def p_truth(self, I): raise Exc('ValueError')
    def p_isinstance(self, I, t):
        if isinstance(t, G) and t.path == 'numpy.ndarray': return True if self.kind == 'array' else I.choose(('isarray', self.h))
        return I.choose(('isinstance', self.h, str(t)))
SIG = {'argsort': (('axis', 'kind', 'order'), (-1, None, None)), 'argmax': (('axis', 'out'), (None, None)), 'argmin': (('axis', 'out'), (None, None)), 'searchsorted': (('v', 'side', 'sorter'), (None, 'left', None))}
def ax(I, a, k, names, dflt):
    r = list(dflt); k = dict(k)
    if len(a) > len(names): raise Exc('TypeError')
    for i, v in enumerate(a): r[i] = v
    for n in list(k):
        if n not in names: 
            if n in ('stable', 'keepdims'): raise NoVal(n)
            raise Exc('TypeError')
        r[names.index(n)] = k[n]
    return tuple(r)
def wmodel():
    def asany(I, a, k, x): return a[0] if isinstance(a[0], A) and a[0].kind == 'array' else A(('arr', a[0].h), False) if isinstance(a[0], A) else NoV()
    def NoV(): raise NoVal('asarray')
    def nparr(I, a, k, x):
        if k.get('copy', True) is not True or not isinstance(a[0], A): raise NoVal('array')
        return A(('copy', a[0].h), True)
    def npsort(I, a, k, x):
        c = ax(I, a, k, ('a', 'axis', 'kind', 'order'), (None, -1, None, None)); h = c[0].h
        if not I.choose(('sort ok', c[1:])): raise Exc('ValueError', None, x)
        if c[1] is None: return A(('sorted', ('flat', h)) + (-1,) + c[2:], True)
        return A(('sorted', h) + c[1:], True)
    H = {'numpy.asanyarray': asany, 'numpy.asarray': asany, 'numpy.array': nparr, 'numpy.copy': nparr, 'numpy.ravel': lambda I, a, k, x: A(('flat', a[0].h), a[0].fresh), 'numpy.sort': npsort}
    def npm(n):
        def f(I, a, k, x):
            c = ax(I, a, k, ('a',) + SIG[n][0], (None,) + SIG[n][1])
            if not isinstance(c[0], A): raise NoVal(n)
            r = I.choose(('method', n, c[0].h), ('ok', 'ValueError'))
            if r != 'ok': raise Exc(r, None, x)
            return A(('method', n, c[0].h) + c[1:], True)
        return f
    for n in SIG: H['numpy.' + n] = npm(n)
    for w in ('lexsort32', 'lexsort64'):
        def f(I, a, k, x, w=w):
            I.ev('native', x, w, tuple(a), dict(k))
            if not I.choose(('native', w)): raise Exc('*', None, x)
            return ('native', w, tuple(a), tuple(sorted(k.items())))
        H['pnumpy._pnumpy.' + w] = f
    def npl(I, a, k, x):
        if not I.choose(('np', 'lexsort')): raise Exc('*', None, x)
        return ('numpy', 'lexsort', tuple(a), tuple(sorted(k.items())))
    H['numpy.lexsort'] = npl
    return H
def strip(h):
    """a history without the steps that keep values and order"""
    if isinstance(h, tuple) and h and h[0] in ('copy', 'arr', 'wrap', 'view'): return strip(h[1])
    if isinstance(h, tuple) and h and h[0] == 'flat': return ('flat', strip(h[1]) if not (isinstance(strip(h[1]), tuple) and strip(h[1])[0] == 'flat') else strip(h[1])[1])
    if isinstance(h, tuple) and h and h[0] == 'sorted': return ('sorted', strip(h[1])) + h[2:]
    if isinstance(h, tuple) and h and h[0] == 'method': return h[:2] + (strip(h[2]),) + h[3:]
    return h
def wrappers(ck, fs, native):
    rel = PK + '/sort.py'; H = wmodel(); H.update({'pnumpy._pnumpy.initialize': lambda I, a, k, x: None})
    load = loader(fs, native)
    def run(fn, a, k, limit=400):
        I = Interp2(H, resolver=load)
        def thunk():
            m = I.imp('pnumpy.sort')
            if not isinstance(m, Mod): raise NoVal('no module sort')
            return I.call(I.attr(m, fn), list(a()), dict(k), None)
        return I.runs(thunk, limit)
    # sort
    K, O = Given('kind'), Given('order'); n = 0
    for kw, exp in (({}, (-1, None, None)), ({'axis': None}, ('flat', None, None)), ({'axis': 0}, (0, None, None)), ({'axis': 1, 'kind': K, 'order': O}, (1, K, O)), ({'axis': None, 'kind': K, 'order': O}, ('flat', K, O)), ({'axis': None, 'kind': 'stable'}, ('flat', 'stable', None)), ({'axis': -2, 'kind': 'mergesort'}, (-2, 'mergesort', None))):
        und = None
        for kind in ('array', 'any'):
            src = []
            def a():
                src[:] = [A('a', False, kind)]; return src
            for out, v, evs, dec in run('sort', a, kw):
                if out == 'und': und = v; continue
                d = dict(dec); wit = dict(call='sort(a%s)' % ''.join(', %s=%s' % z for z in kw.items()))
                e = [x for x in evs if x[0] == 'sort' and not x[3]]
                if e and not (e[0][2] is not src[0] and kind == 'any' and False): ck.violation('sort', 'inplace', where(rel, e[0][1]), 'sort reorders memory of its argument', wit); return
                okk = ('sort ok', (-1 if exp[0] == 'flat' else exp[0],) + exp[1:])
                if out == 'raise':
                    if any(q[0] == 'sort ok' and not x for q, x in dec if isinstance(q, tuple)) and v.kind == 'ValueError': 
                        bad = [q for q, x in dec if isinstance(q, tuple) and q[0] == 'sort ok' and not x]
                        if okk in bad or all(q != okk for q, x in dec): 
                            if okk in bad: n += 1; continue
                        ck.violation('sort', 'raises', where(rel, v.node), 'sort raises although the same call of NumPy does not', wit); return
                    if kind == 'any' and v.kind == 'AttributeError': und = 'argument without attributes'; continue
                    ck.violation('sort', 'raises', where(rel, v.node), 'sort raises %s' % v.kind, wit); return
                h = strip(v.h) if isinstance(v, A) else None
                want = ('sorted', ('flat', 'a'), -1) + exp[1:] if exp[0] == 'flat' else ('sorted', 'a') + exp
                if h is None: ck.violation('sort', 'result', rel, 'sort returns %r' % (v,), wit); return
                if h != want:
                    # the exception of an earlier attempt may have been swallowed: the result must still be the one asked for
                    ck.violation('sort', 'result', rel, 'sort gives %s, expected %s' % (h, want), wit); return
                if not v.fresh: ck.violation('sort', 'view', rel, 'sort returns its argument', wit); return
                n += 1
        if und: ck.undecided('sort', rel, und)
    if n: ck.ok('sort', n, 'calls of sort: a new array, sorted as asked')
    # lexsort
    n = 0
    for a, k in ((('keys',), {}), (('keys', 0), {}), (('k1', 'k2'), {}), (('keys',), {'axis': 0}), (('keys',), {'cutoffs': Given('c')})):
        und = None
        for out, v, evs, dec in run('lexsort', lambda: a, k):
            if out == 'und': und = v; continue
            d = dict(dec); nat = [x for q, x in dec if isinstance(q, tuple) and q[0] == 'native']; wit = dict(arguments=[str(y) for y in a], keywords={x: str(y) for x, y in k.items()})
            full = (tuple(a), tuple(sorted(k.items())))
            if out == 'raise':
                if d.get(('np', 'lexsort')) is False and v.kind == '*': n += 1; continue
                ck.violation('lexsort', 'raises', where(rel, v.node), 'lexsort raises although NumPy handles the keys' if v.kind == '*' else 'lexsort raises %s' % v.kind, wit); return
            if not (isinstance(v, tuple) and len(v) == 4 and v[0] in ('native', 'numpy')): ck.violation('lexsort', 'result', rel, 'lexsort gives %r' % (v,), wit); return
            if v[2:] != full: ck.violation('lexsort', 'arguments', rel, 'lexsort passes on other arguments than it was given', wit); return
            n += 1
        if und: ck.undecided('lexsort', rel, und)
    if n: ck.ok('lexsort', n, 'calls of lexsort: native, or NumPy where the native sort refuses')
    # methods
    for fn, (names, dflt) in SIG.items():
        n = 0; und = None
        for vary in (None,) + names:
            k = {}; exp = list(dflt)
            for nm in names:
                if vary == nm or (fn == 'searchsorted' and nm == 'v'): k[nm] = Given('given', nm); exp[names.index(nm)] = k[nm]
            if vary is not None and vary == names[-1]:
                for i, nm in enumerate(names): k[nm] = Given('given', nm); exp[i] = k[nm]
            def a(): return [A('a', False, 'any')]
            for out, v, evs, dec in run(fn, a, k):
                if out == 'und': und = v; continue
                wit = dict(call='%s(a%s)' % (fn, ''.join(', %s=%s' % z for z in k.items())))
                if out == 'raise':
                    if v.kind == 'ValueError' and any(x == 'ValueError' for q, x in dec): n += 1; continue
                    ck.violation('forward', 'raises:' + fn, where(rel, v.node), '%s raises %s' % (fn, v.kind), wit); break
                h = strip(v.h) if isinstance(v, A) else v
                want = ('method', fn, 'a') + tuple(exp)
                if h != want: ck.violation('forward', fn, rel, '%s gives %s, expected %s' % (fn, h, want), wit); break
                n += 1
            else: continue
            break
        else:
            if und: ck.undecided('forward', fn, und)
            if n: ck.ok('forward', n, '%s: all arguments reach the method' % fn)
def c28(pid, tier):
    ck = report.Check(pid, tier, 'name resolution over the Python syntax trees and the native method table; abstract interpretation of the package import and of the wrapper functions with unknown outcomes enumerated')
    ck.rule('names', 'every name a Python function uses is defined, and everything imported from the native module or a sibling module exists there')
    ck.rule('import', 'importing the package defines every exported name and starts the engines once, whatever the machine says about its processors; without AVX2 it refuses')
    ck.rule('switch', 'enable, disable and init call the native switches they stand for')
    ck.rule('sort', 'sort gives a new array sorted with the axis, kind and order asked, and leaves its argument alone')
    ck.rule('lexsort', 'lexsort gives the native result for the same arguments, or what NumPy gives where the native sort refuses')
    ck.rule('forward', 'argsort, argmin, argmax and searchsorted pass all arguments to the method of the array, and fall back as NumPy does')
    P = prog.Program(); native = set(dispatch.methods(P)); fs = files()
    names(ck, fs, native)
    package(ck, fs, native)
    wrappers(ck, fs, native)
    ck.assume('NumPy functions behave as documented; /proc and /sys files have the layout of Linux')
    return report.finish(ck, explanation='All outcomes of the environment and of called functions (present, absent, raising) are enumerated along the syntax tree.')
