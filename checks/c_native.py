"""C23, C24: every function the native module offers, called with every kind of argument, and with every place where Python, NumPy
or an allocation can fail failing once: references and memory stay balanced (C23), and NULL is returned exactly with an exception,
nothing is used that could not be made (C24)."""
import os, sys, time, re
import multiprocessing as mp
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import prog, ordx, report, pyrt, npapi
import c_sort, c_lexsort
from ordx import Machine, Compiler, Alarm, Stuck, Budget

UNITS = ('module_init', '_pnumpy', 'common', 'sorting', 'getitem', 'conversions', 'recycler', 'ledger', 'sort', 'recarray', 'threads', 'atop', 'ops_binary', 'ops_compare', 'ops_unary', 'ops_trig', 'ops_log', 'fill')
UF = {0: 'PyUFunc_Type', 336: 'ReplaceLoop'}

class Run(c_sort.Run):
    def __init__(self, prg, limit=3000000):
        self.mods = [prg.raw(u) for u in UNITS]
        self.S = S = Machine(None, False, None, limit); S.half = False; S.mixed = True
        self.C = Compiler(self.mods, S)
        c_sort.models(S, self.C); self.C.relax = set()
        C = self.C
        def chunk(this, n, cb, arg, *r): C.indirect(cb, arg, 0, 0, n); return 0
        for m in self.mods:
            for f in m.functions.values():
                if 'CMathWorker::DoMultiThreadedChunkWork(' in f.dem: S.models[f.name] = chunk
        self.rt = pyrt.RT(S, self.C); self.rt.zerodata = True; self.paths = 0
        world(S, self.C, self.rt)

def world(S, C, rt):
    """the rest of what the functions use: the thread pool, the modules they import, the loops of numpy"""
    def pool(b, r):
        p = S.region(1 << 20, None, False, 'the thread pool'); S.R[p >> 40].zero = True; S.M[b] = p if rt.pool else 0
    S.ginit['g_cMathWorker'] = pool
    S.ginit['g_avx2'] = lambda b, r: S.M.__setitem__(b, rt.avx2)
    def module(name):
        if name not in rt.mods:
            b = rt.mods[name] = rt.new('module', val=name); rt.obj[b].held = 1; rt.obj[b].attrs = {}
        return rt.mods[name]
    def imp(s):
        n = rt.text(s)
        if rt.may_fail('PyImport_ImportModule'): rt.raise_('ImportError', n); return 0
        b = module(n); rt.rc(b, 1); return b
    def getattr_(o, s):
        v = rt.obj_of(o, 'PyObject_GetAttrString'); n = rt.text(s)
        if rt.may_fail('PyObject_GetAttrString'): rt.raise_('AttributeError', n); return 0
        if v.kind != 'module': return type(rt).c_PyObject_GetAttrString(rt, o, s)
        if n not in v.attrs:
            if n.startswith('_') and n.endswith('_API'): x = rt.new('capsule', val=n)
            elif n in ('setbufsize',): x = rt.new('function', val=n)
            elif n in rt.missing: return rt.raise_('AttributeError', n)
            elif n in rt.notufunc: x = rt.new('function', val=n)
            else: x = rt.new('ufunc', val=n)
            v.attrs[n] = x; v.items.append(x)
        rt.rc(v.attrs[n], 1); return v.attrs[n]
    def capsule(o, nm):
        rt.obj_of(o, 'PyCapsule_GetPointer'); v = rt.obj[o].val
        if v == '_ARRAY_API': return S.M[C.glob('PyArray_API')] or api()
        b = rt.uapi or S.region(1 << 12, None, True, 'the ufunc API'); rt.uapi = b
        S.R[b >> 40].gen = lambda off, w, loc: rt.type('ufunc') if off == 0 else 'uapi:%d' % off
        return b
    def api():
        t = S.region(1 << 14, None, True, 'the NumPy API'); S.R[t >> 40].gen = rt.slot; return t
    def call(o, args, *kw):
        rt.obj_of(o, 'PyObject_CallObject')
        if args: rt.obj_of(args, 'PyObject_CallObject')
        if rt.may_fail('PyObject_CallObject'): rt.raise_('RuntimeError', 'the call failed'); return 0
        return rt.int(8192)
    m = S.models
    m['PyImport_ImportModule'] = imp; m['PyObject_GetAttrString'] = getattr_; m['PyCapsule_GetPointer'] = capsule
    m['PyObject_CallObject'] = call; m['PyCallable_Check'] = lambda o: int(bool(o) and rt.obj_of(o).kind in ('function', 'ufunc'))
    m['clock_gettime'] = lambda k, p: (S.st(p, 5, 8, 'clock_gettime'), S.st(p + 8, 7, 8, 'clock_gettime'), 0)[2]
    m['syscall'] = lambda *a: 0
    for n in ('memset', 'llvm.memset.p0.i64'): m[n] = lambda p, v, n, *r: fillmem(S, p, v, n)
    def modcreate(d, v):
        if rt.memerr('PyModule_Create2'): return 0
        return rt.new('module', val='new')
    m['PyModule_Create2'] = modcreate
    # numpy entries
    h = rt.handlers
    def one(v): return lambda *a: v
    h['PyArray_GetNDArrayCVersion'] = one(0x1000009 if False else 0x1000009); h['PyArray_GetNDArrayCFeatureVersion'] = one(0x10); h['PyArray_GetEndianness'] = one(1)
    def setitem(a, p, o): raise Stuck('PyArray_SETITEM')
    old = rt.api
    def api2(p, a):
        if p.startswith('uapi:'):
            if p == 'uapi:168' or True:
                if len(a) != 4: raise Stuck('the ufunc API with %d arguments' % len(a))
                u = rt.obj_of(a[0], 'PyUFunc_ReplaceLoopBySignature')
                if u.kind != 'ufunc': raise Alarm('null', 'a loop is replaced in a %s' % u.kind)
                if rt.noloop(u.val, a): return -1
                S.st(a[3], 'old:' + str(u.val), 8, 'PyUFunc_ReplaceLoopBySignature'); return 0
        if p.startswith('copyswap:'): return copyswap(*a)
        return old(p, a)
    S.onold = api2
    def copyswap(dst, src, swap, arr):
        o = rt.obj_of(arr, 'copyswap')
        if src:
            for k in range(o.w):
                if src + k in S.M: S.M[dst + k] = S.M[src + k]
        return 0
    rt.descrhook = lambda b, t: None

def fillmem(S, p, v, n):
    if n == 0: return p
    r = S.find(p, n, 'memset', 'write')
    for a in [a for a in S.M if p <= a < p + n]: del S.M[a]
    if v == 0: S.R[p >> 40].zero = True if n == r.size else S.R[p >> 40].zero
    if v == 0 and n != r.size:
        for k in range(n): S.M[p + k] = 0
    return p

# ---------------------------------------------------------------- the functions and their arguments
def table(P):
    """-> [(name in Python, C function, flags)] of the module"""
    for u in P.units:
        for n, g in P.raw(u).globals.items():
            if 'module_functions' in n and g.get('init'): return P.raw(u), g['init']
    return None, None

def methods(P):
    m, init = table(P)
    out = []
    for row in init[1]:
        if row[0] != 'v': continue
        f = [x for x in row[1]]
        if f[0][0] == 'null': continue
        name = cstr(m, f[0]); fn = f[1][1]; flags = next((x[1] for x in f if x[0] == 'i'), 0)
        out.append((name, fn, flags))
    return out

def cstr(m, v):
    g = m.globals[v[1]]['init']
    if g[0] == 'v': return ''.join(chr(x[1] & 255) for x in g[1] if x[1])
    return str(g[1]).rstrip('\0')

# an argument: int, float, str, bytes, bool, None, or (kind, ...): ('arr', type, dims, options), ('list', ...), ('tuple', ...), ('np', scalar kind, value), ('thing',)
def arg(rt, a):
    if a is None: return rt.none()
    if a is True or a is False: return rt.bool(a)
    if type(a) is int: return rt.int(a)
    if type(a) is float: return rt.float(a)
    if type(a) is str: return rt.str(a)
    if type(a) is bytes:
        b = rt.new('bytes', 40 + len(a), val=a); rt.S.M[b + 16] = len(a)
        for k, c in enumerate(a): rt.S.M[b + 32 + k] = c
        return b
    k = a[0]
    if k == 'list': return rt.list([arg(rt, x) for x in a[1:]])
    if k == 'tuple': return rt.tuple([arg(rt, x) for x in a[1:]])
    if k == 'thing': return rt.new('thing', val=0)
    if k == 'np': return npscalar(rt, a[1], a[2])
    if k == 'arr':
        o = dict(a[3]) if len(a) > 3 else {}; vals = o.pop('vals', None); w = o.get('itemsize') or pyrt.ITEM.get(a[1], 8); step = o.pop('step', 1); cells = o.pop('cells', None)
        n = rt.prod(a[2]); st = [w * step] if step != 1 else None
        if 'strides' in o: st = [w * x for x in o.pop('strides')]
        if st is not None:
            reg = rt.S.region(max(1, n * abs(step) * w if cells is None else cells * w), None, False, 'the data of an array'); o['data'] = reg if step > 0 else reg + (n - 1) * -step * w
        b = rt.array(a[1], list(a[2]), st, **o)
        v = rt.obj[b]
        if st is not None and a[1] == 17: v.owns = reg
        for j, p in enumerate(rt.elements(v)):
            if a[1] == 17:
                x = arg(rt, vals[j] if vals else 1000 + j); rt.S.M[p] = x
            elif vals is not None: rt.S.M[p] = vals[j]
            else:
                for q in range(0, w, 8) if w > 8 else (0,): rt.S.M[p + q] = 1
        return b
    raise Stuck('argument %r' % (a,))

SC = {'int32': ('PyInt32ArrType', ['PyIntegerArrType_Type', 'PySignedIntegerArrType_Type']), 'uint64': ('PyUInt64ArrType', ['PyIntegerArrType_Type', 'PyUnsignedIntegerArrType_Type']),
      'float64': ('PyDoubleArrType', ['PyFloatingArrType_Type', 'float']), 'bool': ('PyBoolArrType_Type', []), 'datetime64': ('PyDatetimeArrType', []), 'timedelta64': ('PyTimedeltaArrType', ['PyIntegerArrType_Type', 'PySignedIntegerArrType_Type']), 'complex128': ('PyCDoubleArrType', [])}
SCT = {'int32': 5, 'uint64': 8, 'float64': 12, 'bool': 0, 'datetime64': 21, 'timedelta64': 22, 'complex128': 15}
def npscalar(rt, kind, v):
    tn, up = SC[kind]
    b = rt.new('scalar', tp=tn, val=v); rt.S.M[b + 16] = v; rt.obj[b].sct = SCT[kind]
    for u in up + ['PyGenericArrType_Type', 'PyNumberArrType_Type']: rt.isa.add((tn, u))
    return b

def scenarios(tier):
    """per Python name: [(label, args, kwargs or None, settings)]"""
    D = {}
    no = [('no argument', ()), ('an unexpected argument', (3,))]
    for n in ('atop_enable', 'atop_disable', 'atop_isenabled', 'thread_enable', 'thread_disable', 'thread_isenabled', 'thread_getworkers', 'thread_zigzag', 'timer_gettsc', 'timer_getutc', 'hook_enable', 'hook_disable',
              'ledger_enable', 'ledger_disable', 'ledger_isenabled', 'ledger_info', 'recycler_enable', 'recycler_disable', 'recycler_isenabled', 'recycler_info', 'cpustring'):
        D[n] = [(l, a, None, {}) for l, a in no]
    D['hook_disable'].append(('after hook_enable', (), None, dict(before=[('hook_enable', ())])))
    D['hook_enable'].append(('twice', (), None, dict(before=[('hook_enable', ())])))
    D['thread_setworkers'] = [('%r' % (a,), a, None, {}) for a in ((), (3,), (-1,), (1000,), (1 << 40,), ('x',), (3, 4), (None,))]
    D['atop_setworkers'] = [('%r' % (a,), a, None, dict(udict=[('add', 12)])) for a in ((), ('add', 12, 3), ('add', 12, 99), ('add', 12, -1), ('nothing', 12, 3), ('add', 12), ('add', 'x', 3), (1, 2, 3))] + [('before initialize', ('add', 12, 3), None, {}), ('off', ('add', 12, 3), None, dict(udict=[('add', 12)], before=[('atop_disable', ())]))]
    D['atop_info'] = [('%r' % (a,), a, None, dict(udict=[('add', 12)])) for a in ((), ('add', 12), ('nothing', 12), ('add',), (1, 2), ('add', 12, 3))] + [('before initialize', (), None, {}), ('before initialize', ('add', 12), None, {})]
    D['initialize'] = [('first', (), None, {}), ('without AVX2', (), None, dict(avx2=0)), ('a function is missing', (), None, dict(missing=('add', 'sin', 'less', 'abs', 'absolute'))), ('a loop is missing', (), None, dict(noloop=1))]
    D['oldinit'] = [('add', ('add',), None, {}), ('no ufunc', ('zeros',), None, dict(notufunc=('zeros',))), ('unknown name', ('zork',), None, dict(missing=('zork',))), ('no argument', (), None, {}), ('a number', (3,), None, {}), ('no int32 loop', ('sqrt',), None, dict(noloop=1))]
    # index selection
    G = []; I8 = lambda v, **k: ('arr', 7, (len(v),), dict(k, vals=v))
    for t, nm in ((5, 'int32'), (12, 'float64'), (13, 'longdouble'), (14, 'complex64'), (15, 'complex128'), (17, 'objects'), (21, 'datetime64'), (23, 'float16'), (0, 'bool'), (2, 'uint8')):
        G.append((nm, (('arr', t, (3,)), I8([1, 0, 2])), None, {}))
    G.append(('strings', (('arr', 18, (2,), dict(itemsize=3)), I8([1, 5])), None, {}))
    G.append(('records', (('arr', 20, (2,), dict(itemsize=12)), I8([1, -9])), None, {}))
    for dflt in (None, 5, 1 << 70, 1.5, True, False, 'x', b'x', ('thing',), ('np', 'int32', 7), ('np', 'uint64', 3), ('np', 'timedelta64', 7), ('np', 'float64', 2), ('np', 'bool', 1), ('np', 'datetime64', 1), ('np', 'complex128', 1)):
        for t in (5, 17): G.append(('default %r of type %d' % (dflt, t), (('arr', t, (2,)), I8([1, 9]), dflt), None, {}))
    for t in (0, 2, 8, 12, 11, 23, 21): G.append(('default 5 of type %d' % t, (('arr', t, (2,)), I8([1, 9]), 5), None, {}))
    G.append(('default of byte-swapped values', (('arr', 5, (2,), dict(byteorder='>')), I8([1, 9]), 5), None, {}))
    G.append(('objects with a step', (('arr', 17, (2,), dict(step=2)), I8([1, 9, 0])), None, {}))
    for t in (1, 2, 3, 4, 5, 6, 8, 9, 10): G.append(('index type %d' % t, (('arr', 5, (2,)), ('arr', t, (2,), dict(vals=[1, 0]))), None, {}))
    for t in (11, 12, 17, 18, 21): G.append(('index type %d' % t, (('arr', 5, (2,)), ('arr', t, (2,), dict(vals=[1, 0] if t != 17 else None))), None, {}))
    G.append(('byte-swapped index', (('arr', 5, (2,)), I8([1, 0], byteorder='>')), None, {}))
    G.append(('byte-swapped index, objects', (('arr', 17, (2,)), I8([1, 0], byteorder='>'), 3), None, {}))
    G.append(('values of two dimensions', (('arr', 5, (2, 2), dict(strides=(4, 1), cells=8)), I8([1, 0])), None, {}))
    G.append(('an index of two dimensions', (('arr', 5, (2,)), ('arr', 7, (2, 2), dict(strides=(4, 1), cells=8, vals=[1, 0, 1, 0]))), None, {}))
    for a in ((), (3,), (('arr', 5, (2,)),), (('arr', 5, (2,)), 3), (3, ('arr', 5, (2,))), (('arr', 5, (2,)), I8([1]), 3, 4), (('list', 1, 2), I8([0]))): G.append(('arguments %r' % (a,), a, None, {}))
    for v in ([1, 0, 1], [0, 0, 0], []):
        for t in (5, 17): G.append(('mask %s of type %d' % (v, t), (('arr', t, (len(v),)), ('arr', 0, (len(v),), dict(vals=v))), None, {}))
    G.append(('mask of another length', (('arr', 5, (3,)), ('arr', 0, (2,), dict(vals=[1, 0]))), None, {}))
    G.append(('mask with a step', (('arr', 5, (3,)), ('arr', 0, (3,), dict(vals=[1, 0, 1], step=2))), None, {}))
    G.append(('mask of two dimensions', (('arr', 5, (2, 2), dict(strides=(4, 1), cells=8)), ('arr', 0, (2, 2), dict(vals=[1, 0, 1, 0]))), None, {}))
    D['getitem'] = G
    # records
    R = []; rec = ('arr', 20, (2,), dict(itemsize=12)); off = lambda v: ('arr', 7, (len(v),), dict(vals=v)); col = lambda *c: ('arr', 17, (len(c),), dict(vals=list(c)))
    c5 = ('arr', 5, (2,)); c7 = ('arr', 7, (2,))
    R.append(('two columns', (rec, off([0, 4]), col(c5, c7)), None, {}))
    R.append(('no columns', (rec, off([]), col()), None, {}))
    R.append(('no records', (('arr', 20, (0,), dict(itemsize=12)), off([0]), col(('arr', 5, (0,)))), None, {}))
    for l, a in (('a column outside', (rec, off([10]), col(c5))), ('negative offset', (rec, off([-1]), col(c5))), ('short column', (rec, off([0]), col(('arr', 5, (1,))))), ('column of objects', (rec, off([0]), col(('arr', 17, (2,))))), ('column that is None', (rec, off([0]), col(None))),
                 ('too few offsets', (rec, off([0]), col(c5, c7))), ('no record array', (c5, off([0]), col(c5))), ('no object array', (rec, off([0]), c5)), ('numbers', (1, 2, 3)), ('two arguments', (rec, off([0]))), ('no argument', ()), ('offsets of int32', (rec, ('arr', 5, (1,), dict(vals=[0])), col(c5))),
                 ('offsets with a step', (rec, ('arr', 7, (2,), dict(vals=[0, 4], step=2)), col(c5, c7))), ('columns with a step', (rec, off([0, 4]), ('arr', 17, (2,), dict(vals=[c5, c7], step=2)))), ('records with a step', (('arr', 20, (2,), dict(itemsize=12, step=2)), off([0]), col(c5))), ('two dimensions', (('arr', 20, (2, 1), dict(itemsize=12)), off([0]), col(c5)))):
        R.append((l, a, None, {}))
    D['recarray_to_colmajor'] = R
    # sorts: the same arguments as C26 are judged there; here everything that is made and dropped
    L = []; k3 = ('arr', 5, (3,), dict(vals=[3, 1, 2])); ks = ('arr', 5, (3,), dict(vals=[3, 1, 2], step=2))
    for l, a, kw in (('one key', (('list', k3),), {}), ('two keys', (('list', k3, ks),), {}), ('an array', (k3,), {}), ('kind', (k3,), dict(kind='stable')), ('kind None', (k3,), dict(kind=None)), ('kind as a number', (k3,), dict(kind=3)), ('cutoffs', (('list', k3),), dict(cutoffs=I8([1, 3]))), ('bad cutoffs', (('list', k3),), dict(cutoffs=I8([9]))), ('cutoffs of floats', (('list', k3),), dict(cutoffs=('arr', 12, (1,)))), ('index of int64', (('list', k3),), dict(index=I8([2, 0]))), ('index of int32', (('list', k3),), dict(index=('arr', 5, (2,), dict(vals=[2, 0])))),
                     ('index out of range', (('list', k3),), dict(index=I8([7]))), ('index as a number', (('list', k3),), dict(index=5)), ('strings', (('arr', 18, (2,), dict(itemsize=1, vals=[3, 2])),), {}), ('objects', (('list', ('arr', 17, (2,))),), {}), ('nothing', (), {}), ('None', (None,), {}), ('an empty list', (('list',),), {}), ('different lengths', (('list', k3, ('arr', 5, (2,))),), {}), ('text', ('x',), {}), ('a list with text', (('list', k3, 'x'),), {}), ('axis', (('list', k3),), dict(axis=0)), ('step', (ks,), {}), ('byte order', (('arr', 5, (2,), dict(byteorder='>')),), {}), ('strings with a step', (('arr', 18, (2,), dict(itemsize=1, vals=[3, 2], step=2)),), {})):
        L.append((l, a, kw, {}))
    for n in ('lexsort32', 'lexsort64', 'sort'): D[n] = L
    D['values[index] with the hook on'] = [(l, a, None, {}) for l, a, k, st in G if len(a) == 2 and all(type(x) is tuple and x[0] == 'arr' for x in a)] + [('an int', (('arr', 5, (3,)), 1), None, {}), ('a slice', (('arr', 5, (3,)), ('thing',)), None, {})]
    D['import'] = [('import', (), None, {})]
    return D

def call(run, fn, flags, sc, faults, fail):
    rt = run.rt; label, args, kwargs, st = sc
    def go(S, C):
        S.fail = False; S.failed = False; rt.faults = False
        rt.reset(); rt.mods = {}; rt.uapi = 0; rt.isa = set(); rt.pool = st.get('pool', 1); rt.avx2 = st.get('avx2', 1); rt.missing = st.get('missing', ()); rt.notufunc = st.get('notufunc', ())
        rt.nl = 0
        def noloop(u, a): rt.nl += 1; return bool(st.get('noloop'))
        rt.noloop = noloop
        C.glob('g_cMathWorker')
        if st.get('udict'):
            g = C.glob('gpUnaryDict'); d = rt.dict({}); S.M[g] = d; rt.obj[d].keys = {}
            for k in st['udict']:
                v = S.region(64, None, False, 'a record of a function'); S.R[v >> 40].zero = True
                kk = rt.tuple([rt.str(k[0]), rt.int(k[1])]); rt.obj[d].val[k] = rt.int(v); rt.obj[d].keys[k] = kk
        tm = rt.type('ndarray'); mp_ = S.region(64, None, False, 'the mapping methods of numpy'); S.M[mp_ + 8] = 'old:subscript'; S.M[tm + 112] = mp_
        for f, a in st.get('before', ()): C.fn(f)(0, rt.tuple([arg(rt, x) for x in a]))
        objs = [arg(rt, a) for a in args]
        hook = fn == 'GetItemHook'
        roots = []
        if hook:
            ca = objs; roots += objs; C.fn('hook_enable')(0, rt.tuple([]))
            if rt.err: rt.err = None; return None
        elif fn.startswith('PyInit'): ca = []
        else:
            t = rt.tuple(objs); roots.append(t); ca = [0, t]
            if flags & 2:
                k = rt.dict({k: arg(rt, v) for k, v in kwargs.items()}) if kwargs else 0
                if k: roots.append(k)
                ca.append(k)
        c_lexsort.settle(rt, roots, [])
        if st.get('udict'):
            d = S.M[C.glob('gpUnaryDict')]; S.M[d] = 1
        if st.get('before'):
            for b, o in rt.obj.items():
                if not o.immortal and o.kind in ('module',): S.M[b] = 1
        S.fail = fail; rt.faults = faults; rt.called = []
        f = C.lookup(fn)
        S.at = ''
        res = C.fn(fn)(*ca[:len(f.args)])
        w = ' when %s fails at %s' % (rt.fault, rt.faultat) if rt.fault else ' when an allocation fails' if S.failed else ''
        if type(res) is not int: return ('rc', 'the result is %r' % (res,), '', None)
        if hook and res == 77: return None
        if res == 0 and rt.err is None: return ('rc', 'NULL is returned without an exception' + w, rt.faultat, None)
        if res and rt.err is not None: return ('rc', 'a result is returned with the exception %s (%s) pending%s' % (rt.err[0], rt.err[1], w), rt.faultat, None)
        if res and res not in rt.obj: return ('rc', 'the result is no object' + w, '', None)
        if res and S.R[res >> 40].freed: return ('ref', 'the result was freed' + w, '', None)
        a = rt.audit(res)
        if a: return ('ref', a + w, rt.faultat, None)
        return None
    def numpys(a, b):
        rt.obj_of(a); rt.obj_of(b)
        if rt.err is not None: raise Alarm('rc', "numpy's own indexing is called with the exception %s pending" % rt.err[0])
        return rt.int(1)
    run.S.models['old:subscript'] = numpys
    return go

_P = None; _M = None
def one(job):
    name, fn, flags, sc, mode = job
    t0 = time.time(); used = []
    try:
        Machine.depth0 = False; Machine.order = 0
        run = Run(_P)
        r = run.all(call(run, fn, flags, sc, mode == 'faults', mode == 'alloc'), 100000, t0, 200 if os.environ.get('VERIF_TIER') != 'thorough' else 600)
        return job, r, run.paths, sorted(f.dem or f.name for f in run.C.used), sorted({k for k in run.rt.allsites}), time.time() - t0
    except Stuck as e: return job, ('stuck', str(e), '', None), 0, [], [], time.time() - t0
    except Exception as e:
        import traceback
        return job, ('stuck', '%s: %s' % (type(e).__name__, traceback.format_exc()[-500:]), '', None), 0, [], [], time.time() - t0

def jobs(P, tier):
    D = scenarios(tier); J = []
    ms = methods(P) + [('values[index] with the hook on', 'GetItemHook', 0), ('import', 'PyInit__pnumpy', 0)]
    for name, fn, flags in ms:
        for sc in D.get(name) or [('no argument', (), None, {}), ('a number', (3,), None, {}), ('an array', (('arr', 5, (2,)),), None, {})]:
            for mode in ('plain', 'faults', 'alloc'): J.append((name, fn, flags, sc, mode))
    return J

MEM = {'bounds': 'memory', 'null': 'memory', 'call': 'memory', 'arith': 'memory', 'readonly': 'memory', 'overlap': 'memory', 'end': 'memory', 'rc': 'outcome', 'ref': 'references', 'free': 'references'}
MODES = {'plain': 'nothing fails', 'faults': 'each Python or NumPy call fails once', 'alloc': 'each allocation fails once'}

def main(pid, tier):
    global _P
    ck = report.Check(pid, tier, 'abstract interpretation of every native function on modelled Python objects, places of failure enumerated')
    _P = P = prog.Program()
    for u in UNITS: P.raw(u)
    mine = ('references',) if pid == 'C23' else ('outcome', 'memory')
    if pid == 'C23':
        ck.rule('C23.refs', 'when the function returns, every object has exactly as many references as things that refer to it, and every block of memory is freed: nothing leaks and nothing in use was freed')
        ck.rule('C23.use', 'no object is used, and no reference of it dropped, after it was freed')
    else:
        ck.rule('C24.outcome', 'NULL is returned exactly when an exception is pending')
        ck.rule('C24.null', 'nothing that could not be made is used, and no memory outside the arguments and what was made')
    J = jobs(P, tier); fns = set(); sites = set(); paths = 0; seen = set(); kinds = {'references': 'C23.refs', 'outcome': 'C24.outcome', 'memory': 'C24.null'}
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool: R = pool.map(one, J, chunksize=1)
    per = {}
    for j, r, n, used, st, t in R:
        name, fn, flags, sc, mode = j; fns.update(used); sites.update(st); paths += n; per[name] = per.get(name, 0) + n
        what = '%s (%s), %s' % (name, sc[0], MODES[mode])
        if r is None or MEM.get(r[0], 'other') not in mine + ('other',):
            if r is not None: ck.note('%s: %s (judged by another property)' % (what, r[1])) if len(seen) < 50 else None; continue
            for k in (('C23.refs', 'C23.use') if pid == 'C23' else ('C24.outcome', 'C24.null')): ck.ok(k, max(1, n), '%s: %d cases' % (what, n))
            continue
        kind, msg, where, wit = r
        rid = kinds.get(MEM.get(kind), list(kinds.values())[0 if pid == 'C23' else 2])
        if MEM.get(kind) is None: ck.undecided(rid, what, '%s: %s' % (kind, msg)); continue
        if kind == 'ref' and 'freed' in msg: rid = 'C23.use'
        key = '%s|%s|%s' % (fn, kind, re.sub(r'[0-9]+', '#', msg)[:120])
        if key in seen: continue
        seen.add(key)
        ck.violation(rid, key, where or fn, '%s: %s' % (what, msg), {'function': name, 'arguments': sc[0], 'call': repr(sc[1:])[:500], 'failing': MODES[mode]})
    ck.analysed['native functions'] = len(per); ck.analysed['calls'] = len(R); ck.analysed['cases'] = paths; ck.analysed['routines'] = len(fns); ck.analysed['places that may fail'] = len(sites)
    ck.note('functions and cases: ' + ', '.join('%s %d' % x for x in sorted(per.items())))
    ck.note('routines analysed: ' + ', '.join(sorted(fns))[:6000])
    ck.assume('the Python and NumPy API behave as documented; one failure per call, each place failing on its first and second use')
    ck.assume('loops that only move or compare items are judged by C01-C06, C17-C21 and C27')
    return report.finish(ck, explanation='The method table of the module is read from the source; every function in it, the index hook and the import are followed from their Python arguments to their result for every kind of argument, with reference counts kept as the interpreter keeps them and compared at the end with the references that exist; every call of Python, NumPy or the allocator that can fail is made to fail.')

if __name__ == '__main__':
    _P = P = prog.Program()
    for u in UNITS: P.raw(u)
    J = jobs(P, 'quick')
    if len(sys.argv) > 1: J = [j for j in J if sys.argv[1] in j[0] + ' ' + j[3][0] + ' ' + j[4]]
    with mp.get_context('fork').Pool(8) as pool: R = pool.map(one, J, chunksize=1)
    from collections import Counter
    cnt = Counter(); seen = set()
    for j, r, paths, used, sites, t in R:
        cnt[r[0] if r else 'ok'] += 1
        if t > 10: print('SLOW', j[0], j[3][0], j[4], round(t), paths)
        if r and (r[0], r[1]) not in seen: seen.add((r[0], r[1])); print(j[0], '|', j[3][0], '|', j[4], '|', r[0], r[1][-300:].replace('\n', ' '), r[2])
    print(cnt, sum(x[2] for x in R))
