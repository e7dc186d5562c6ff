"""Integer fancy indexing (C17) and boolean mask selection (C18)."""
import re, itertools, collections, os
from multiprocessing import Pool
import prog, report, layout, npapi
from stepx import *
from dispatch import base
V, I, O, D = (Ptr(('buf', c)) for c in 'VIOD')
L, N, SI, SV, ITEM = (Unk((c,)) for c in ('L', 'n', 'si', 'sv', 'item'))
# NumPy's type numbers: (index bytes, signed)
INTS = {1: (1, True), 2: (1, False), 3: (2, True), 4: (2, False), 5: (4, True), 6: (4, False), 7: (8, True), 8: (8, False), 9: (8, True), 10: (8, False)}
SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24, 32, 40]

# ------------------------------------------------------------------------------------------------ simulation of the extracted steps
class Bad(Exception): pass
def valbytes(v, n, env):
    """source of each byte of a stored value"""
    if isinstance(v, Unk) and isinstance(v.why, tuple) and v.why[0] == 'ld' and len(v.why) == 4:
        b = env.ptr.get(v.why[1]); r, o = (v.why[1], 0) if b is None else b
        o += evoff(v.why[2], env)
        return [(r, o + j) for j in range(n)]
    if isinstance(v, Unk) and isinstance(v.why, tuple) and v.why[0] == 'uninit': return [(v.why[1], v.why[2] + j) for j in range(n)]
    if isinstance(v, Ptr) and v.obj[0] == 'ld' and v.off == 0: return valbytes(Unk(('ld', v.obj[1], v.obj[2], 8)), n, env)
    x = num(v, env)
    return [('c', (x >> (8 * j)) & 255) for j in range(n)]
def trie(paths):
    if isinstance(paths, list) and len(paths) and isinstance(paths[0], TrieOf): return paths[0].t
    t = [None, None, None, (), None]
    for p in paths:
        ms = {}
        for key, ini, nc, ne in p.user.get('marks', []): ms.setdefault(nc, []).append((key, ini))
        n = t; n[3] = n[3] or tuple(ms.get(0, ()))
        for k, (c, r, i) in enumerate(p.conds):
            n[0] = c; j = 1 if r else 2
            if n[j] is None: n[j] = [None, None, None, tuple(ms.get(k + 1, ())), None]
            n = n[j]
        n[4] = p
    return t
class TrieOf:
    def __init__(self, t): self.t = t
def prepared(paths): return [TrieOf(trie(paths))]
class Sim:
    """composes the extracted steps for one assignment of the arguments and of the data read"""
    def __init__(self, paths, env, tree=None, maxiter=64):
        self.trie = trie(paths); self.env = env; self.reads = []; self.writes = {}; self.maxiter = maxiter; self.order = []
    def pick(self):
        """the path whose decisions hold; loop variables get their initial values when their loop is first reached"""
        n = self.trie; env = self.env; env.memo.clear()
        while True:
            for key, ini in n[3]:
                for s, v in ini.items():
                    o = s.obj if isinstance(s, Ptr) else s.why
                    if o in env.ptr or o in env.val: continue
                    if isinstance(s, Ptr): env.ptr[o] = addr(v, env)
                    else: env.val[o] = num(v, env)
            if n[0] is None: return n[4]
            n = n[1] if holds(n[0], env) else n[2]
            if n is None: return None
    def run(self):
        done = 0; it = 0
        while True:
            p = self.pick()
            if p is None: raise NoVal('no extracted path applies')
            ms = p.user.get('marks', [])
            start = ms[done - 1][3] if done else 0
            if len(ms) < done: raise NoVal('loop order')
            self.env.memo.clear()
            for e in p.events[start:]: self.event(e)
            if p.end == 'ret': return
            if p.end != 'back': raise NoVal(p.end)
            done = len(ms)
            key, nx = p.user['back']; upd = []
            for s in ms[-1][1]:
                o = s.obj if isinstance(s, Ptr) else s.why; v = nx[o[2]]
                upd.append((s, o, addr(v, self.env) if isinstance(s, Ptr) else num(v, self.env)))
            for s, o, v in upd:
                if isinstance(s, Ptr): self.env.ptr[o] = v
                else: self.env.val[o] = v
            it += 1
            if it > self.maxiter: raise Bad('does not stop after %d iterations' % it)
    def event(self, e):
        if e[0] == 'load':
            r, o = addr(e[2], self.env)
            if r[0] == 'buf': self.reads.append((r, o, e[3], e[1]))
        elif e[0] == 'store':
            n = e[1]['sz']; r, o = addr(e[2], self.env)
            self.put(r, o, valbytes(e[3], n, self.env), e[1])
        elif e[0] == 'memcpy':
            d, s, n = e[2][:3]; n = num(n, self.env); (rd, od), (rs, os_) = addr(d, self.env), addr(s, self.env)
            self.reads.append((rs, os_, n, e[1])); self.put(rd, od, [(rs, os_ + j) for j in range(n)], e[1])
        elif e[0] in ('memset', 'wild', 'icall', 'ext', 'recurse'): raise NoVal(e[0])
    def put(self, r, o, bs, ins):
        bs = [self.writes[b][0] if b[0] != 'c' and b[0][0] == 'alloca' and b in self.writes else b for b in bs]
        for j, b in enumerate(bs): self.writes[(r, o + j)] = (b, ins)

# ------------------------------------------------------------------------------------------------ the index kernels
def lengths(w):
    r = [0, 1, 3]
    for k in (8 * w - 1, 8 * w):
        if k < 60: r += [(1 << k) - 1, 1 << k, (1 << k) + 1]
    return r + [1 << 40] * (w == 8)
def indexes(w, signed, n):
    m = 1 << (8 * w); lo, hi = (-(m >> 1), (m >> 1) - 1) if signed else (0, m - 1)
    c = {0, 1, -1, n, n - 1, n + 1, -n, -n - 1, -n + 1, lo, lo + 1, hi, hi - 1, (m >> 1) - 1, m >> 1, (m >> 1) + 1, m - n, m - 1 - n, m - n + 1}
    return sorted(x for x in c if lo <= x <= hi)
def norm(x, n): return x if 0 <= x < n else (x + n if -n <= x < 0 else None)
def kjob(job):
    unit, fname, s, isz, signed, tier = job
    P = prog.Program(); cp = CProp(P); f = P.raw(unit).functions[fname]
    return kernel(cp, unit, f, s, isz, signed, tier)
def kernel(cp, unit, f, s, isz, signed, tier='quick'):
    """verdict of one index kernel for item size s: ('ok', obligations) | ('bad', message, where, witness) | ('und', message)"""
    fk = SX(cp)
    ps = list(fk.paths(f.name, [V, I, O, L, s, N, SI, SV, D], unit=unit, maxpaths=3000))
    bad = [p.end for p in ps if p.end not in ('ret', 'back')]
    if bad: return ('und', 'path ends with %s' % bad[0])
    init, nx = steps(ps)
    und = None
    for key, d in nx.items():
        for ph, ds in d.items():
            if any(x is None for x in ds) or len(ds) != 1: und = 'loop variable of line %s has no single step' % f.where() if hasattr(f, 'where') else 'no single step'
    cnt = 0; pt = prepared(ps)
    where = '%s' % f.dem.split('(')[0].replace('void ', '')
    def sim(idx, n, si, sv):
        nonlocal cnt
        enc = {k * si: x & ((1 << (8 * isz)) - 1) for k, x in enumerate(idx)}
        def mem(r, o, nb):
            if r == I.obj and nb == isz and o in enc: return enc[o]
            if r == I.obj: raise Bad('reads %d bytes of the index array at offset %d: not an index' % (nb, o))
            return None
        env = Env(val={('L',): n, ('n',): len(idx), ('si',): si & M64, ('sv',): sv & M64}, mem=mem)
        sm = Sim(pt, env, maxiter=len(idx) + 2)
        wit = dict(indexes=idx, values=n, index_stride=si, value_stride=sv, item_size=s, index_bytes=isz, signed=signed)
        try: sm.run()
        except Bad as e: return ('bad', str(e), where, wit)
        want = {}
        for k, x in enumerate(idx):
            m = norm(x, n)
            for j in range(s): want[(O.obj, k * s + j)] = (V.obj, m * sv + j) if m is not None else (D.obj, j)
        got = {k: v[0] for k, v in sm.writes.items() if k[0][0] != 'alloca'}
        for k, v in want.items():
            if got.get(k) != v: return ('bad', 'output byte %d is %s, expected %s' % (k[1], got.get(k), v), where, wit)
        for k in got:
            if k not in want: return ('bad', 'writes offset %d of %s, outside the output' % (k[1], k[0]), where, wit)
        for r, o, nb, ins in sm.reads:
            if r == V.obj and not any(0 <= m < n and 0 <= o - m * sv and o - m * sv + nb <= s for m in ([o // sv + d for d in (-1, 0, 1)] if sv else [0])): return ('bad', 'reads the values at byte offset %d, outside the array' % o, ins.where(), wit)
            if r == D.obj and not 0 <= o <= o + nb <= s: return ('bad', 'reads the default at byte offset %d' % o, ins.where(), wit)
        cnt += 1
        return None
    try:
        for si, sv in ((isz, s), (isz, s + 13), (isz + 7, s), (-isz, -s), (isz * 3, -(s + 5))):
            for n in lengths(isz):
                for x in indexes(isz, signed, n):
                    r = sim([x], n, si, sv)
                    if r: return r
            for n in (3, 100):
                for idx in ([], [0, 2], [2, 1, 0], [0, min(127, n), 1, 2], [2, n if n < 128 else 5, 2] + ([-1, -n, -n - 1] if signed else [])):
                    r = sim(list(idx), n, si, sv)
                    if r: return r
    except NoVal as e: return ('und', 'cannot be evaluated: %s' % str(e)[:140])
    if und: return ('und', und)
    return ('ok', cnt, len(ps))

# ------------------------------------------------------------------------------------------------ the driver
class Arr:
    def __init__(self, name, nd, typ, data, length, item, stride, flags=1, swapped=False, dims=None): self.__dict__.update(locals())
def arrof(p, arrs):
    return arrs.get(p.obj[1]) if isinstance(p, Ptr) and p.obj[0] == 'arr' and p.off == 0 else None
class DX(SX):
    """driver functions: arrays are modelled by their NumPy accessors"""
    havoc = False
    arrs = {}; kernels = (); parse = ()
    def __init__(self, cp, **k):
        SX.__init__(self, cp, opaque=self.hook, **k)
    def hook(self, f): return self.model
    def follow(self, f): return True
    def load_init_base(self, obj):
        # variables may have been assigned since the program started; only constants keep their initial value
        if obj[0] == 'g' and obj[1] in self.mods and not self.mods[obj[1]].globals[obj[2]].get('const'): self.init.add(obj); return
        SX.load_init_base(self, obj)
    def model(self, fk, i, f, args):
        b = base(f); a = arrof(args[0], self.arrs) if args else None
        if a is not None:
            if b == 'PyArray_TYPE': return a.typ
            if b == 'PyArray_NDIM': return a.nd
            if b in ('PyArray_ITEMSIZE',): return a.item
            if b in ('PyArray_BYTES', 'PyArray_DATA'): return a.data
            if b in ('PyArray_STRIDE',): return (a.stride if args[1] == 0 else Unk(('stride', a.name, args[1]))) if a.nd else Unk(('nostride', a.name))
            if b == 'ArrayLength': return a.length
            if b == 'PyArray_CHKFLAGS': return Unk(('flag', a.name, args[1])) if a.nd > 1 and not a.flags else 1
            if b == 'PyArray_DESCR': return Ptr(('descr', a.name))
            if b in ('PyArray_DIMS',): return Ptr(('dims', a.name))
            if b in ('PyArray_DIM',): return Unk(('dim', a.name, args[1])) if a.dims is None else a.dims[args[1]]
            if b in ('PyArray_SIZE', 'PyArray_Size'): return a.length
        if b in self.kernels or ('fn', f.mod.unit, f.name) in self.kernels:
            self.ev('kernel', i, f, args, {k: dict(self.objd(k)) for k in list(self.mem) if k[0] in ('alloca', 'g')}); return None if f.ret == 'void' else (Ptr(('ret', self.ncall, b), 0) if f.ret == 'ptr' else Unk(('ret', self.ncall, b)))
        return self.other(i, f, args, b)
    def other(self, i, f, args, b): return NotImplemented
# names modelled as "like NumPy's"
NPD = {'PyArray_NewFromDescr'}

class GX(DX):
    """getitem: argument parsing, thread pool and helpers are events"""
    def __init__(self, cp, arrs, kernels, parsed):
        self.arrs = arrs; self.kernels = kernels; self.parsed = parsed
        DX.__init__(self, cp, handlers={'PyArg_ParseTuple': self.parse_, 'PyTuple_Size': lambda s, i, a: self.parsed['n']}, loopmax=6)
    def parse_(self, fk, i, args):
        outs = [a for a in args[2:] if isinstance(a, Ptr) and a.obj[0] == 'alloca']
        vals = self.parsed['vals']
        for o, v in zip(outs, vals): self.write(o, 8, v)
        return 1
    def other(self, i, f, args, b):
        if b in ('GetWorkItem',):
            self.ev('getwork', i, args)
            if self.truth(Unk(('threaded',)), i): return Ptr(('item',))
            return 0
        if b in ('WorkMain', 'DoMultiThreadedChunkWork'):
            self.ev('work', i, f, args, {k: dict(self.objd(k)) for k in list(self.mem) if k[0] in ('alloca', 'g', 'item')})
            return None if f.ret == 'void' else Unk(('didwork',))
        if b in ('AllocateLikeResize',):
            self.ev('alloc', i, b, args)
            n = sum(1 for e in self.events if e[0] == 'alloc')
            if not self.truth(Unk(('allocok', n)), i): return 0
            src = arrof(args[0], self.arrs); nm = 'out%d' % n
            self.arrs[nm] = Arr(nm, 1, src.typ if src else None, Ptr(('buf', nm)), args[1], src.item if src else None, src.item if src else None)
            self.ev('made', i, nm, src.name if src else None, args[1])
            return Ptr(('arr', nm))
        if b in ('ConvertScalarObject', 'GetDefaultForType', 'Py_DECREF', 'Py_XDECREF', 'Py_INCREF', 'PyBytes_Check', 'PyUnicode_Check', 'PyType_FastSubclass', 'BooleanIndexInternal') or (b == 'getitem' and len(self.stack) > 1):
            self.ncall += 1; self.ev('help', i, b, args)
            return None if f.ret == 'void' else (Ptr(('ret', self.ncall, b), 0) if f.ret == 'ptr' else Unk(('ret', self.ncall, b)))
        return NotImplemented

def sel(P, unit, name):
    for n, f in P.raw(unit).functions.items():
        if base(f) == name: return f
    return None
def driver(ck, P, cp, table):
    """getitem: what the kernel is called with, unthreaded and threaded"""
    g = sel(P, 'getitem', 'getitem')
    cb = sel(P, 'getitem', 'GetItemCallback')
    lay = layout.layouts(P)
    it = {k: v[0] for k, v in lay['stMATH_WORKER_ITEM'].items()}
    kn = {('fn', 'getitem', t.name) for t in set(table.values())}
    res = []
    for s in (1, 8, 12, 2000):
        for typ in (1, 4, 7, 10):
            isz, signed = INTS[typ]
            arrs = {'v': Arr('v', 1, 4 if s == 1 else 18, V, L, s, SV), 'i': Arr('i', 1, typ, I, N, isz, SI)}
            fk = GX(cp, arrs, kn, {'n': 2, 'vals': [Ptr(('arr', 'v')), Ptr(('arr', 'i'))]})
            okp = 0
            for p in fk.paths(g.name, [Ptr(('self',)), Ptr(('args',))], unit='getitem', maxpaths=600):
                if p.end != 'ret': 
                    if not p.end.startswith('stop: unreach'): ck.undecided('call', 'getitem', 'path ends with ' + p.end)
                    continue
                ker = [e for e in p.events if e[0] == 'kernel']; work = [e for e in p.events if e[0] == 'work']
                if not ker and not work: continue
                okp += 1
                if len(ker) + len(work) != 1: ck.violation('call', 'getitem:%d:%d' % (s, typ), 'getitem', 'the items are produced %d times on one path' % (len(ker) + len(work))); continue
                made = [e for e in p.events if e[0] == 'made']
                out = [e for e in made if isinstance(p.ret, Ptr) and p.ret.obj == ('arr', e[2])]
                if len(out) != 1: ck.violation('call', 'getitem:ret', 'getitem', 'does not return the array that it allocated', repr(p.ret)); continue
                e = out[0]
                if e[3] != 'v' or not same(e[4], N): ck.violation('call', 'getitem:alloc', e[1].where(), 'the result is allocated with length %s like %s, not with the length of the index like the values' % (show(e[4]), e[3])); continue
                obuf = ('buf', e[2])
                def args(a, lo, ln, where, what):
                    exp = [(V, 'values'), (padp(I, lo, SI), 'index position'), (padp(Ptr(obuf), lo, s), 'output position'), (L, 'number of values'), (s, 'item size'), (ln, 'number of indexes'), (SI, 'index stride'), (SV, 'value stride')]
                    for k, (x, nm) in enumerate(exp):
                        if x is None: continue
                        if k == 4 and not usesarg(cur, 4): continue
                        if not peq(a[k], x): ck.violation('call', 'getitem:%s:%s' % (what, nm.replace(' ', '-')), where, '%s: the %s passed is %s, expected %s' % (what, nm, show(a[k]), showp(x)), dict(item_size=s, index_type=typ)); return
                    d = a[8]; ok = None
                    if isinstance(d, Ptr) and d.off == 0:
                        m = [x for x in made if d.obj == ('buf', x[2])]
                        if m: ok = m[0][3] == 'v' and isinstance(m[0][4], int) and m[0][4] >= 1 and m[0] is not e
                        elif d.obj[0] in ('alloca', 'g'):
                            z = objsize(P, d.obj, lay)
                            if z is not None: ok = z >= s
                    if ok is False: ck.violation('default', 'getitem:default', where, 'items of %d bytes take their default from %s, which does not hold an item' % (s, d)); return
                    if ok is None: ck.undecided('default', where, 'default comes from %s' % (d,))
                    else: ck.ok('default', 1, 'item size %d: default item from an array of the type of the values' % s)
                    ck.ok('call', 1, '%s: item size %d, index type %d' % (what, s, typ))
                if ker:
                    cur = ker[0][2]
                    if cur is not table[(s, typ)]: ck.violation('call', 'getitem:kernel', ker[0][1].where(), 'calls %s for item size %d and index type %d' % (cur.dem.split('(')[0], s, typ)); continue
                    args(ker[0][3], (), N, ker[0][1].where(), 'unthreaded')
                else:
                    w = work[0]; wf, wa, snap = w[2], w[3], w[4]
                    if base(wf) == 'WorkMain':
                        if not peq(wa[2], N): ck.violation('call', 'getitem:worklen', w[1].where(), 'work is published for %s items' % show(wa[2])); continue
                        item = snap.get(('item',), {})
                        cbv = item.get(it['DoWorkCallback'], (8, None))[1]
                        r = callback(ck, P, cp, cbv, snap, kn, it)
                        if r is None: ck.undecided('call', 'GetItemCallback', 'not analysable'); continue
                        for cur, a, lo, ln, wh in r:
                            if cur is not table[(s, typ)]: ck.violation('call', 'getitem:tkernel', wh, 'calls %s for item size %d and index type %d' % (cur.dem.split('(')[0], s, typ)); continue
                            args(a, lo, ln, wh, 'threaded')
                    else: ck.undecided('call', 'getitem', 'threads through ' + base(wf))
            if not okp: ck.undecided('call', 'getitem', 'no path reaches a kernel for item size %d, index type %d' % (s, typ))
    # object items are owned
    arrs = {'v': Arr('v', 1, 17, V, L, 8, SV), 'i': Arr('i', 1, 7, I, N, 8, SI)}
    fk = GX(cp, arrs, kn, {'n': 2, 'vals': [Ptr(('arr', 'v')), Ptr(('arr', 'i'))]})
    owned(ck, fk, g, 'getitem', [Ptr(('self',)), Ptr(('args',))])
def owned(ck, fk, g, name, args):
    n = 0
    for p in fk.paths(g.name, args, unit='getitem', maxpaths=600):
        prod = [k for k, e in enumerate(p.events) if e[0] in ('kernel', 'work')]
        if p.end != 'ret' or not prod or not isinstance(p.ret, Ptr) or p.ret.obj[0] != 'arr': continue
        inc = [k for k, e in enumerate(p.events) if e[0] == 'icall' and npapi.apiname(e[2]) in ('PyArray_INCREF',) and e[3] and e[3][0] == p.ret and k > prod[-1]]
        if len(inc) == 1: n += 1
        else: ck.violation('own', name + ':own', name, 'returns an array of objects whose references were %s' % ('not taken' if not inc else 'taken %d times' % len(inc)))
    if n: ck.ok('own', n, '%s: references of the copied objects are taken before the array is returned' % name)
def padp(p, idx, scale):
    """expected pointer p + idx*scale; idx () is zero"""
    if idx == (): return poly(p)
    return padd(poly(p), pmul(idx, poly(scale)))
def peq(a, x): return poly(a) == (x if isinstance(x, dict) else poly(x))
def showp(x): return show(x) if not isinstance(x, dict) else ' + '.join('%s*%s' % (v, '*'.join(satom(a) for a in k)) for k, v in x.items())
def usesarg(f, k):
    return any(k in [x for x in (i.ops or []) if isinstance(x, int)] or any(v == k for v, sc in (i.get('var') or [])) or any(v == k for v, b in (i.get('in') or [])) for i in f.ins())
def objsize(P, obj, lay):
    if obj[0] == 'g':
        g = P.raw(obj[1]).globals.get(obj[2])
        try: return tsize(g['t'], P.raw(obj[1]).structs)[0]
        except Exception: return None
    return None
class CBX(DX):
    """a work callback: one claimed block"""
    def __init__(self, cp, kernels, snap, it):
        self.kernels = kernels; self.it = it; self.snap = snap
        def init(fk):
            for o, d in snap.items(): fk.mem[o] = dict(d)
        DX.__init__(self, cp, init=init, loopmax=2)
    def other(self, i, f, args, b):
        if b == 'GetNextWorkBlock':
            if self.user.get('claimed'): return 0
            self.user['claimed'] = 1
            self.write(args[1], 8, Unk(('wb',))); return Unk(('ln',))
        if b == 'CompleteWorkBlock': return None
        return NotImplemented
def callback(ck, P, cp, cbv, snap, kn, it):
    if not isinstance(cbv, Ptr) or cbv.obj[0] != 'fn': return None
    f = P.raw(cbv.obj[1]).functions[cbv.obj[2]]
    fk = CBX(cp, kn, snap, it); out = []
    fk.known_ = None
    for p in fk.paths(f.name, [Ptr(('item',)), Unk(('core',)), Unk(('wi',))], unit=cbv.obj[1], maxpaths=50):
        ks = [e for e in p.events if e[0] == 'kernel']
        for e in ks:
            bs = poly(Unk(('ld', ('item',), it['BlockSize'], 8)))
            out.append((e[2], e[3], pmul(poly(Unk(('wb',))), BS(p, it)), Unk(('ln',)), e[1].where()))
        if p.end == 'ret' and not ks and p.user.get('claimed') and any(c.why[0] == 'cmp' and r is False or True for c, r, i in p.conds if 'ln' in repr(c)): pass
    return out or None
def BS(p, it):
    return {(('u', ('ld', ('item',), it['BlockSize'], 8)),): 1}

def table_of(ck, P, cp):
    """GetItemFunction: (item size, type number) -> kernel"""
    f = sel(P, 'getitem', 'GetItemFunction')
    t = {}
    if f is None: return None
    for typ in range(0, 24):
        for s in SIZES + [2000]:
            fk = SX(cp); ps = list(fk.paths(f.name, [s, typ], unit='getitem', maxpaths=4))
            if len(ps) != 1 or ps[0].end != 'ret': ck.undecided('table', 'GetItemFunction', 'item size %d, type %d: %s' % (s, typ, ps[0].end)); continue
            r = ps[0].ret
            if isinstance(r, Ptr) and r.obj[0] == 'fn':
                if typ not in INTS:
                    if typ != 0: ck.violation('table', 'table:%d' % typ, 'GetItemFunction', 'type number %d, which is not an integer type, gets an index kernel' % typ)
                    continue
                t[(s, typ)] = P.raw(r.obj[1]).functions[r.obj[2]]
            elif typ in INTS: ck.note('no kernel for item size %d, index type %d' % (s, typ))
            else: ck.ok('table', 1, 'type number %d has no index kernel' % typ)
    return t

def c17(pid, tier):
    ck = report.Check(pid, tier, 'loop-step extraction from the IR; affine induction of the loop variables and boundary evaluation of the range guards; path enumeration of the driver and of the work callback')
    ck.rule('kernel', 'each kernel, for the index type and item size it is selected for: item k of the output is the value at the k-th index (negative signed indexes count from the end) or the default, nothing outside the arrays is read or written')
    ck.rule('table', 'only integer index types have a kernel')
    ck.rule('call', 'the kernel gets the arrays, lengths and strides of the call; a block of threaded work gets the index and output positions of its first item')
    ck.rule('default', 'the default of items of any size comes from memory that holds an item: the given one or the invalid value of the type, in its byte order')
    ck.rule('scalar', 'a Python or NumPy scalar given as the default is converted to the type of the values without passing through a type that cannot hold it')
    ck.rule('flat', 'a layout taken as one run of items is one; other layouts and indexes in the other byte order do not reach the kernels')
    ck.rule('alloc', 'the result has the type descriptor of the values, not only its type number')
    ck.rule('own', 'copied object references are taken before the result is returned')
    P = prog.Program(); cp = CProp(P)
    t = table_of(ck, P, cp)
    if t:
        jobs = collections.OrderedDict()
        for (s, typ), f in t.items():
            if s > 1000: continue
            isz, sg_ = INTS[typ]; jobs.setdefault(('getitem', f.name, s, isz, sg_, tier), []).append(typ)
        with Pool(min(8, os.cpu_count() or 1)) as pool: rs = pool.map(kjob, list(jobs), chunksize=4)
        for j, r in zip(jobs, rs):
            f = P.raw('getitem').functions[j[1]]; nm = f.dem.split('(')[0].replace('void ', '')
            what = '%s selected for item size %d, %d-byte %s index' % (nm, j[2], j[3], 'signed' if j[4] else 'unsigned')
            ck.seen('kernel instances')
            if r[0] == 'ok': ck.ok('kernel', 1, '%s: %d paths, %d boundary cases' % (what, r[2], r[1]))
            elif r[0] == 'bad': ck.violation('kernel', '%s:%d:%s' % (nm.replace(' ', '_'), j[3], 's' if j[4] else 'u'), r[2], '%s: %s' % (what, r[1]), r[3])
            else: ck.undecided('kernel', nm, '%s: %s' % (what, r[1]))
        driver(ck, P, cp, t)
    alloc(ck, P, cp)
    import c_items
    c_items.defaults(ck, P, cp); c_items.scalars(ck, P, cp); c_items.flat(ck, P, cp, tier)
    if t: c_items.refuse(ck, P, cp, t)
    ck.assume('the index array is not written while it is read, and the buffers do not overlap')
    ck.assume('item sizes are checked for %s; the copy loops treat larger sizes the same way' % SIZES)
    return report.finish(ck, explanation='Every kernel reachable from the selection table is reduced to its loop steps and compared with the indexing rule at all boundary positions of index and length; the driver and the threaded callback are followed path by path.')
def alloc(ck, P, cp):
    u, f = None, None
    for u in P.units:
        f = sel(P, u, 'AllocateLikeResize')
        if f is not None: break
    if f is None: ck.undecided('alloc', 'AllocateLikeResize', 'not found'); return
    arrs = {'v': Arr('v', 1, Unk(('type',)), V, L, ITEM, SV)}
    class AX(DX): pass
    fk = AX(cp); fk.arrs = arrs
    for p in fk.paths(f.name, [Ptr(('arr', 'v')), Unk(('rows',))], unit=u, maxpaths=50):
        if p.end != 'ret': ck.undecided('alloc', 'AllocateLikeResize', p.end); continue
        cs = [(npapi.apiname(e[2]), e[3], e[1]) for e in p.events if e[0] == 'icall']
        made = [c for c in cs if c[0] in ('PyArray_NewFromDescr', 'PyArray_New', 'PyArray_SimpleNewFromDescr', 'PyArray_NewLikeArray', 'PyArray_Empty', 'PyArray_Zeros')]
        if len(made) != 1: ck.undecided('alloc', 'AllocateLikeResize', 'creates %d arrays' % len(made)); continue
        n, a, i = made[0]
        if n == 'PyArray_New': ck.violation('alloc', 'AllocateLikeResize', i.where(), 'creates the array from a type number: unit, byte order and fields of the values are lost'); continue
        k = {'PyArray_NewFromDescr': 1, 'PyArray_Empty': 2, 'PyArray_Zeros': 2}.get(n)
        if k is None: ck.undecided('alloc', 'AllocateLikeResize', n); continue
        if a[k] == Ptr(('descr', 'v')): ck.ok('alloc', 1, 'AllocateLikeResize -> %s with the descriptor of the values' % n)
        elif isinstance(a[k], Ptr) and a[k].obj[0] == 'ret': ck.undecided('alloc', 'AllocateLikeResize', 'descriptor from %s' % (a[k],))
        else: ck.violation('alloc', 'AllocateLikeResize', i.where(), 'creates the array with descriptor %s' % (a[k],))
