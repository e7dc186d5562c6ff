"""Record arrays to columns (C27): byte provenance of the copy loops, the split into blocks, the argument checks and the Python side."""
import os, itertools
from multiprocessing import Pool
import prog, report, layout, npapi, pyabs
from vecx import *
from c_getitem import DX, Arr, arrof, sel
from dispatch import base
UNIT = 'recarray'
REC = ('buf', 'rec'); OFFS = ('buf', 'offs')
def lays(P): return layout.layouts(P, 'atop/common_inc.h', 'stRecarrayOffsets a; int f(){return sizeof(a);}').get('stRecarrayOffsets')

class RX(VX):
    """everything that steers the copy is concrete here; the items are symbolic bytes"""
    def __init__(self, cp, **k): VX.__init__(self, cp, None, **k)
    def wanthavoc(self, f, l): return False
    def load_init_base(self, obj): return DX.load_init_base(self, obj)
    def step(self, fr, i):
        if i.o == 'store':
            v = self.val(fr, i.ops[0])
            if isinstance(v, Vec):
                p = self.val(fr, i.ops[1]); fw = getattr(v, 'fw', v.w)
                self.ev('vstore', i, p, [(fw // 8, x) for x in v.l]); return None
        return VX.step(self, fr, i)
    def vstep(self, fr, i, o, vt):
        if o == 'load':
            p = self.val(fr, i.ops[0]); n, w = vt
            if isinstance(p, Ptr) and p.obj[0] == 'g' and isinstance(p.off, int):
                return Vec(w, [self.read(Ptr(p.obj, p.off + k * w // 8), w // 8) if False else self.cbytes(p, k * w // 8, w // 8) for k in range(n)])
            if isinstance(p, Ptr) and isinstance(p.off, int) and p.obj[0] == 'buf':
                self.ev('vload', i, p, n * w // 8)
                return Vec(w, [Unk(('ld', p.obj, p.off + k * w // 8, w // 8)) for k in range(n)])
        return VX.vstep(self, fr, i, o, vt)
    def cbytes(self, p, o, n):
        """constant bytes of a global"""
        d = self.objd(p.obj); t = p.off + o; r = 0
        for j in range(n):
            for k, v in d.items():
                if isinstance(k, int) and k <= t + j < k + v[0] and isinstance(v[1], int): r |= ((v[1] >> (8 * (t + j - k))) & 255) << (8 * j); break
                if isinstance(k, tuple) and k[0] == 'zero' and k[1] <= t + j < k[1] + v: break
            else: raise NoVal('constant of %s' % (p,))
        return r
    def vintr(self, n, a, i):
        if 'gather' in n:
            pas, b, idx, mask, sc = a
            if not isinstance(b, Ptr) or not all(isinstance(x, int) for x in idx.l) or not all(isinstance(x, int) for x in mask.l): raise NoVal('gather')
            t = vw(i.t) or (len(pas.l), pas.w); k, w = t; r = []
            for j in range(k):
                if not (mask.l[j] >> (mask.w - 1)) & 1: r.append(pas.l[j]); continue
                off = b.off + sg(idx.l[j], idx.w) * sc
                self.ev('vload', i, Ptr(b.obj, off), w // 8); r.append(Unk(('ld', b.obj, off, w // 8)))
            return Vec(w, r)
        return VX.vintr(self, n, a, i)
    def docall(self, fr, i):
        n = i.callee
        if n and n.startswith('llvm.') and 'gather' in n:
            args = [self.val(fr, a) for a in i.ops]; args = [self.force(x) if isinstance(x, Vec) else x for x in args]
            try: return self.vintr(n, args, i)
            except NoVal as e: raise PathEnd('vector: %s' % e)
        return VX.docall(self, fr, i)

def effects(p):
    """writes {(object, offset): source byte}, reads [(object, offset, bytes)]"""
    w = {}; rd = []
    def src(v, n):
        if isinstance(v, Unk) and isinstance(v.why, tuple) and v.why[0] == 'ld' and isinstance(v.why[2], int): return [(v.why[1], v.why[2] + j) for j in range(n)]
        if isinstance(v, Ptr) and v.obj[0] == 'ld' and v.off == 0 and isinstance(v.obj[2], int): return [(v.obj[1], v.obj[2] + j) for j in range(n)]
        if isinstance(v, int): return [('c', (v >> (8 * j)) & 255) for j in range(n)]
        raise NoVal('stores %r' % (v,))
    def put(pt, bs, i):
        if not isinstance(pt, Ptr) or not isinstance(pt.off, int): raise NoVal('address %r' % (pt,))
        if pt.obj[0] in ('alloca',): return
        for j, b in enumerate(bs): w[(pt.obj, sg(pt.off, 64) + j)] = (b, i)
    for e in p.events:
        if e[0] == 'store': put(e[2], src(e[3], e[1]['sz']) if e[2].obj[0] != 'alloca' else [], e[1])
        elif e[0] == 'vstore':
            o = 0
            for n, x in e[3]: put(Ptr(e[2].obj, e[2].off + o), src(x, n), e[1]); o += n
        elif e[0] == 'load':
            if e[2].obj[0] == 'buf': rd.append((e[2].obj, sg(e[2].off, 64), e[3], e[1]))
        elif e[0] == 'vload': rd.append((e[2].obj, sg(e[2].off, 64), e[3], e[1]))
        elif e[0] == 'memcpy':
            d, s, n = e[2][:3]
            if not isinstance(n, int) or not isinstance(s.off, int): raise NoVal('memcpy')
            rd.append((s.obj, sg(s.off, 64), n, e[1])); put(d, [(s.obj, sg(s.off, 64) + j) for j in range(n)], e[1])
        elif e[0] in ('wild', 'icall', 'recurse', 'memset'): raise NoVal(e[0])
    return w, rd
def columns(lay, cols):
    """memory of the column descriptions: [(offset in the record, item size)]"""
    f = {k: v[0] for k, v in lay.items() if k != '#size'}; z = lay['#size'][0]; d = {}
    for k, (ro, s) in enumerate(cols):
        d[k * z + f['pData']] = (8, Ptr(('buf', 'col', k))); d[k * z + f['readoffset']] = (8, ro); d[k * z + f['itemsize']] = (8, s)
    return d
def run(cp, f, lay, cols, rec, start, total):
    def init(fk): fk.mem[OFFS] = columns(lay, cols)
    fk = RX(cp, init=init, loopmax=1 << 30); fk.max = 1000000
    ps = list(fk.paths(f.name, [Ptr(REC), start, total, Ptr(OFFS), len(cols), rec], unit=UNIT, maxpaths=3))
    if ps and ps[0].end == 'stop: steps': return ('bad', 'does not end: %d rows take more than 1,000,000 instructions' % (total - start), None)
    if len(ps) != 1 or ps[0].end != 'ret': return ('und', ps[0].end if ps[0].end != 'ret' else 'a decision depends on the data')
    try: w, rd = effects(ps[0])
    except NoVal as e: return ('und', str(e))
    for o, a, n, i in rd:
        if o == REC and not (start * rec <= a and a + n <= total * rec): return ('bad', 'reads %d bytes at offset %d of records %d..%d of %d bytes' % (n, a, start, total, rec), i)
        if o == REC and not any(ro <= a % rec and a % rec + n <= ro + s for ro, s in cols) and a % rec + n > rec: return ('bad', 'reads across the end of a record', i)
    for k, (ro, s) in enumerate(cols):
        o = ('buf', 'col', k)
        for r in range(start, total):
            for j in range(s):
                b = w.pop((o, r * s + j), None)
                if b is None: return ('bad', 'byte %d of row %d of column %d is not written' % (j, r, k), None)
                if b[0] != (REC, r * rec + ro + j): return ('bad', 'byte %d of row %d of column %d comes from %s, expected offset %d of the records' % (j, r, k, '%s+%s' % b[0] if b[0][0] == 'c' else 'offset %d of the records' % b[0][1], r * rec + ro + j), b[1])
    if w:
        (o, a), (b, i) = next(iter(w.items())); return ('bad', 'writes at offset %d of %s, outside rows %d..%d' % (a, o[1:], start, total), i)
    return None
SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 40]
LENS = [0, 1, 3, 4, 5, 7, 8, 9, 12, 13, 16, 17, 24, 25, 31, 33]
def job(j):
    fname, s, tier = j
    import prog
    P = prog.Program(); cp = CProp(P); f = P.raw(UNIT).functions[fname]; lay = lays(P)
    n = 0; und = None
    for other in ((4, 3) if s not in (3, 4) else (8, 1)):
        for rec in (s + other, s + other + 3, 700, 1000, 2048, 5000, 40000):
            for start in (0, 5):
                for ln in LENS:
                    if rec in (5000, 40000) and ln > 9 or s > 9 and ln > 17 or start and ln in (3, 7, 24, 31): continue
                    for cols in ([(0, s), (s, other)], [(rec - s, s)], [(other, s), (0, other)]):
                        if len(cols) == 1 and ln > 17: continue
                        r = run(cp, f, lay, cols, rec, start, start + ln)
                        if r is None: n += 1
                        elif r[0] == 'und': und = r[1]
                        else: return ('bad', r[1], r[2].where() if r[2] is not None else fname, dict(record_bytes=rec, columns=[dict(offset=a, bytes=b) for a, b in cols], first_row=start, end_row=start + ln))
    # the blocks of rows that the loop itself makes
    if s in (1, 4, 8):
        for ln in (32768 // (2 * (s + 8)) + 3, 2 * (32768 // (2 * (s + 8))) + 1):
            r = run(cp, f, lay, [(8, s)], s + 8, 0, ln)
            if r is None: n += 1
            elif r[0] == 'und': und = r[1]
            else: return ('bad', r[1], r[2].where() if r[2] is not None else fname, dict(record_bytes=s + 8, columns=[dict(offset=8, bytes=s)], rows=ln))
    return ('ok', n, und)

# ------------------------------------------------------------------------------------------------ split into blocks
class SXD(DX):
    def __init__(self, cp, inner, **k): self.inner = inner; DX.__init__(self, cp, loopmax=64, **k)
    def model(self, fk, i, f, args):
        b = base(f)
        if f.name == self.inner: self.ev('rows', i, args); return None
        if b in ('DoMultiThreadedWork',): self.ev('work', i, args[1:4], {k: dict(self.objd(k)) for k in list(self.mem)}); return None
        if b in ('DoMultiThreadedChunkWork', 'WorkMain', 'GetWorkItem'): raise PathEnd('threads through ' + b)
        return NotImplemented
def split(ck, P, cp, f, inner):
    args0 = [Ptr(OFFS), Ptr(REC), None, 3, 24]
    done = 0
    for total in (0, 1, 100, 16383, 16384, 16385, 2 * 16384 - 1, 2 * 16384, 2 * 16384 + 1, 100000, 1000003):
        a = list(args0); a[2] = total
        for p in SXD(cp, inner.name).paths(f.name, a, unit=UNIT, maxpaths=20):
            if p.end != 'ret':
                if 'unreach' not in p.end: ck.undecided('split', f.short, '%d rows: %s' % (total, p.end))
                continue
            got = [(e[2], e[1].where()) for e in p.events if e[0] == 'rows']; und = False
            for e in p.events:
                if e[0] != 'work': continue
                n, fn, arg = e[2]
                if not isinstance(n, int) or not isinstance(fn, Ptr) or fn.obj[0] != 'fn': ck.undecided('split', f.short, 'work of %r' % (n,)); und = True; continue
                cb = P.raw(fn.obj[1]).functions[fn.obj[2]]; n = sg(n & 0xffffffff, 32)
                if n < 0: ck.violation('split', 'negative', e[1].where(), '%d blocks of work' % n); continue
                for w in range(n):
                    def init(fk):
                        for o, d in e[3].items(): fk.mem[o] = dict(d)
                    qs = list(SXD(cp, inner.name, init=init).paths(cb.name, [arg, Unk(('core',)), w], unit=fn.obj[1], maxpaths=6))
                    if len(qs) != 1 or qs[0].end != 'ret': ck.undecided('split', f.short, 'block %d: %s' % (w, qs[0].end)); und = True; break
                    got += [(x[2], x[1].where()) for x in qs[0].events if x[0] == 'rows']
            if und: continue
            rows = []; wh = ''
            for g, wh in got:
                st, en = g[1], g[2]
                if not isinstance(st, int) or not isinstance(en, int): ck.undecided('split', f.short, 'rows %r..%r' % (st, en)); rows = None; break
                if g[0] != Ptr(REC) or g[3] != Ptr(OFFS) or g[4] != 3 or g[5] != 24: ck.violation('split', 'args', wh, 'converts with other arguments than it was given (records %s, columns %s, %s columns, record size %s)' % (g[0], g[3], g[4], g[5])); rows = None; break
                if en > st: rows.append((sg(st, 64), sg(en, 64)))
            if rows is None: continue
            rows.sort(); pos = 0; bad = None
            for st, en in rows:
                if st != pos: bad = 'rows from %d on are %s' % (min(st, pos), 'converted twice' if st < pos else 'left out'); break
                pos = en
            if bad is None and pos != total: bad = 'converts %d rows of %d' % (pos, total)
            if bad: ck.violation('split', 'split', wh or f.short, bad, dict(rows=total, blocks=len(rows)))
            else: done += 1
    if done: ck.ok('split', done, 'lengths around the threading threshold and block boundaries')

# ------------------------------------------------------------------------------------------------ arguments
class EX(DX):
    """the entry point for one arrangement of its arguments"""
    def __init__(self, cp, arrs, cfg):
        self.arrs = arrs; self.cfg = cfg
        def init(fk):
            fk.mem[('buf', 'off')] = {8 * k: (8, o & M64) for k, o in enumerate(cfg['offsets'])}
            fk.mem[('buf', 'arr')] = {8 * k: (8, Ptr(('arr', 'c%d' % k)) if c is not None else 0) for k, c in enumerate(cfg['cols'])}
        def item(s, i, a): return Ptr(('arr', ('rec', 'off', 'arr')[a[1]]))
        def parse(s, i, a):
            outs = [x for x in a[2:] if isinstance(x, Ptr) and x.obj[0] == 'alloca']
            for o, nm in zip(outs, ('rec', 'off', 'arr')): self.write(o, 8, Ptr(('arr', nm)))
            return 1
        DX.__init__(self, cp, init=init, loopmax=16, handlers={'PyTuple_Size': lambda s, i, a: 3, 'PyTuple_GetItem': item, 'PyArg_ParseTuple': parse})
    def model(self, fk, i, f, args):
        b = base(f); a = arrof(args[0], self.arrs) if args else None
        if b == 'RecArrayToColMajor': self.ev('convert', i, args, {k: dict(self.objd(k)) for k in list(self.mem) if k[0] == 'heap'}); return None
        if b == 'FmAlloc':
            n = sum(1 for e in self.events if e[0] == 'heap'); self.ev('heap', i, n, args[0])
            return Ptr(('heap', n)) if self.truth(Unk(('allocok', n)), i) else 0
        if b == 'FmFree': self.ev('free', i, args[0]); return None
        if a is not None:
            if b == 'PyArray_CHKFLAGS':
                fl = args[1]; have = {1: a.flags, 2: 0, 0x100: 1, 0x400: getattr(a, 'wr', 1)}
                r = 1
                for bit in (1, 2, 0x100, 0x400):
                    if fl & bit and not have[bit]: r = 0
                return r
            if b in ('PyObject_TypeCheck', 'PyArray_Check'): return int(getattr(a, 'isarr', True))
            if b == 'PyArray_STRIDE': return a.stride & M64
            if b == 'PyArray_DESCR': return Ptr(('descr', a.name))
            if b == 'PyArray_Size' or b == 'PyArray_SIZE': return a.length
            if b == 'PyArray_IS_C_CONTIGUOUS': return a.flags
        if b.startswith('PyTypeNum_IS') and isinstance(args[0], int):
            t = args[0]; return int({'BOOL': t == 0, 'INTEGER': 1 <= t <= 10, 'SIGNED': t in (1, 3, 5, 7, 9), 'UNSIGNED': t in (2, 4, 6, 8, 10)}.get(b[12:], False))
        return DX.model(self, fk, i, f, args)
    def read(self, p, n):
        if isinstance(p, Ptr) and p.obj[0] == 'descr':
            a = self.arrs[p.obj[1]]
            if p.off == 26 and n == 1: return 62 if a.swapped else 60
            if p.off == 27 and n == 1: return 0x3f if a.typ == 17 else 0x10 if a.typ == 20 else 0
            if p.off == 28 and n == 4: return a.typ
        return DX.read(self, p, n)
def arrangement(**k):
    c = dict(n=7, item=24, stride=24, typ=20, nd=1, offsets=[5, 12], cols=[dict(item=4), dict(item=8)], offtyp=7, offitem=8, offc=1, arrtyp=17, arrc=1, noff=None, narr=None); c.update(k); return c
def mkarrs(c):
    nc = len(c['cols'])
    A = {'rec': Arr('rec', c['nd'], c['typ'], Ptr(REC), c['n'], c['item'], c['stride'], 1),
         'off': Arr('off', 1, c['offtyp'], Ptr(('buf', 'off')), len(c['offsets']) if c['noff'] is None else c['noff'], c['offitem'], c['offitem'], c['offc']),
         'arr': Arr('arr', 1, c['arrtyp'], Ptr(('buf', 'arr')), nc if c['narr'] is None else c['narr'], 8, 8 if c['arrc'] else 16, c['arrc'])}
    for k, x in enumerate(c['cols']):
        if x is None: continue
        A['c%d' % k] = Arr('c%d' % k, 1, x.get('typ', 5), Ptr(('buf', 'c', k)), x.get('n', c['n']), x['item'], x['item'], x.get('flags', 1), x.get('swapped', False)); A['c%d' % k].isarr = x.get('isarr', True); A['c%d' % k].wr = x.get('wr', 1)
    return A
C2 = dict(item=8)
ARGS = [('plain records', {}, True), ('no records', dict(n=0), True), ('no records and no step', dict(n=0, stride=0), True), ('one record of several', dict(n=1, stride=48), True), ('one column', dict(offsets=[5], cols=[dict(item=4)]), True), ('a field in the other byte order', dict(cols=[dict(item=4, swapped=True), C2]), True),
        ('a column that ends with the record', dict(offsets=[0, 16]), True), ('a string column', dict(cols=[dict(item=7, typ=18), C2]), True),
        ('records with a step', dict(stride=48), False), ('reversed records', dict(stride=-24), False), ('an array that is not of records', dict(typ=7), False), ('columns in an array that is not of objects', dict(arrtyp=7), False),
        ('fewer offsets than columns', dict(noff=1), False), ('a column that is not contiguous', dict(cols=[dict(item=4), dict(item=8, flags=0)]), False), ('a column that is too short', dict(cols=[dict(item=4, n=6), C2]), False), ('a second column that is too short', dict(cols=[dict(item=4), dict(item=8, n=6)]), False),
        ('a column that is not an array', dict(cols=[dict(item=4, isarr=False), C2]), False), ('a missing column', dict(cols=[None, C2]), False), ('a column that cannot be written', dict(cols=[dict(item=4, wr=0), C2]), False),
        ('an offset beyond the record', dict(offsets=[5, 17]), False), ('a negative offset', dict(offsets=[-1, 12]), False), ('offsets of four bytes', dict(offtyp=5, offitem=4), False), ('offsets with a step', dict(offc=0), False), ('a column of objects', dict(cols=[dict(item=4), dict(item=8, typ=17)]), False)]
def entry(ck, P, cp, lay):
    f = sel(P, 'conversions', 'recarray_to_colmajor')
    if f is None: ck.undecided('args', 'recarray_to_colmajor', 'not found'); return
    z = lay['#size'][0]; fo = {k: v[0] for k, v in lay.items() if k != '#size'}
    for what, cfg, good in ARGS:
        c = arrangement(**cfg); reached = 0; bad = None; seterr = None; n = 0
        for p in EX(cp, mkarrs(c), c).paths(f.name, [Ptr(('self',)), Ptr(('args',))], unit='conversions', maxpaths=200):
            if p.end != 'ret':
                if 'unreach' not in p.end: bad = p.end
                continue
            cv = [e for e in p.events if e[0] == 'convert']
            if not cv: continue
            reached += 1; e = cv[0]; a = e[2]
            if not good: continue
            if len(cv) != 1: ck.violation('args', 'twice', e[1].where(), '%s: converted %d times' % (what, len(cv))); continue
            nc = len(c['cols']); d = e[3].get(a[0].obj, {}) if isinstance(a[0], Ptr) else {}
            hp = [x for x in p.events if x[0] == 'heap' and a[0] == Ptr(('heap', x[2]))]
            if hp and isinstance(hp[0][3], int) and hp[0][3] < z * nc: ck.violation('args', 'room', hp[0][1].where(), '%d columns are described in %d bytes' % (nc, hp[0][3])); continue
            if a[1] != Ptr(REC) or a[2] != c['n'] or a[3] != nc or a[4] != c['item']: ck.violation('args', 'call', e[1].where(), '%s: converts from %s, %s rows, %s columns, records of %s bytes; expected %d rows, %d columns, %d bytes' % (what, a[1], a[2], a[3], a[4], c['n'], nc, c['item'])); continue
            for k in range(nc):
                g = tuple(d.get(k * z + fo[q], (0, None))[1] for q in ('pData', 'readoffset', 'itemsize')); x = (Ptr(('buf', 'c', k)), c['offsets'][k], c['cols'][k]['item'])
                if g != x:
                    if None in g: ck.undecided('args', 'recarray_to_colmajor', 'description of column %d is %r' % (k, g))
                    else: ck.violation('args', 'column', e[1].where(), '%s: column %d is described as %r, expected %r' % (what, k, g, x))
                    break
            else: n += 1
        if bad: ck.undecided('args', 'recarray_to_colmajor', '%s: %s' % (what, bad))
        elif reached and not good: ck.violation('args', 'reach:%s' % what.replace(' ', '-'), 'recarray_to_colmajor', '%s is converted' % what, c)
        elif good and not reached: ck.violation('args', 'refuse:%s' % what.replace(' ', '-'), 'recarray_to_colmajor', '%s is refused' % what, c)
        else: ck.ok('args', max(n, 1), '%s: %s' % (what, 'converted as described' if good else 'refused'))

# ------------------------------------------------------------------------------------------------ the Python side
class Dt(pyabs.M):
    """a data type: the attributes that tell types apart"""
    def __init__(self, char, size, fields=None, order=None): self.char = char; self.size = size; self.flds = fields; self.order = order
    def __repr__(self): return 'dtype(%s%s)' % (self.char, self.size)
    def __eq__(self, o): return self is o
    def __hash__(self): return id(self)
    def kind(self): return {'b': 'i', 'h': 'i', 'i': 'i', 'l': 'i', 'q': 'i', 'f': 'f', 'd': 'f', 'g': 'f', 'e': 'f', '?': 'b', 'B': 'u', 'H': 'u', 'I': 'u', 'L': 'u', 'Q': 'u', 'F': 'c', 'D': 'c'}.get(self.char, self.char)
    def p_attr(self, I, n):
        if n == 'char': return self.char
        if n == 'kind': return self.kind()
        if n == 'itemsize': return self.size
        if n == 'num': return {'V': 20, 'O': 17, 'S': 18, 'U': 19}.get(self.char, pyabs.T('num', self))
        if n == 'hasobject': return self.char == 'O' or any(v[0].p_attr(I, n) for v in (self.flds or {}).values())
        if n == 'names': return None if self.flds is None else tuple(k for k in self.flds if len(self.flds[k]) == 2 or self.flds[k][2] != k)
        if n == 'fields': return None if self.flds is None else dict(self.flds)
        if n == 'subdtype': return None
        if n == 'descr' or n == 'str': return pyabs.T(n, self)
        if n == 'type': return pyabs.G('numpy.object_') if self.char == 'O' else pyabs.G('numpy.void') if self.char == 'V' else pyabs.T('type', self)
        return pyabs.T('attr', self, n)
    def p_eq(self, I, o):
        if isinstance(o, pyabs.G) and o.path in ('builtins.object', 'numpy.object_'): return self.char == 'O'
        if isinstance(o, pyabs.G) and o.path == 'numpy.void': return False
        if isinstance(o, str) and o in ('O', 'object'): return self.char == 'O'
        return NotImplemented
    def p_item(self, I, k):
        if isinstance(k, str) and self.flds and k in self.flds: return self.flds[k][0]
        return pyabs.T('item', self, k)
class PArr(pyabs.M):
    """an array: where its data comes from"""
    def __init__(self, what, dt, ndim, n, items=None): self.what = what; self.dt = dt; self.nd = ndim; self.n = n; self.items = items
    def __repr__(self): return str(self.what)
    def __eq__(self, o): return self is o
    def __hash__(self): return id(self)
    def p_attr(self, I, n):
        if n == 'dtype': return self.dt
        if n == 'ndim': return self.nd
        if n == 'size': return self.n if self.nd == 1 else pyabs.T('size')
        if n == 'shape': return (self.n,) if self.nd == 1 else tuple(pyabs.T('dim', k) for k in range(self.nd))
        if n == 'copy': return Meth(lambda I, a, k, x: PArr(('copy', self.what), self.dt, self.nd, self.n))
        return pyabs.T('attr', self, n)
    def p_len(self, I):
        if self.nd == 0: raise pyabs.Exc('TypeError')
        return self.n if self.items is None else len(self.items)
    def p_truth(self, I): raise pyabs.NoVal('truth of an array')
    def p_item(self, I, k):
        if k is Ellipsis or isinstance(k, slice) and (k.start, k.stop, k.step) == (None, None, None):
            if self.nd == 0 and k is not Ellipsis: raise pyabs.Exc('IndexError')
            return self
        if isinstance(k, str):
            if not self.dt.flds or k not in self.dt.flds: raise pyabs.Exc('ValueError')
            return PArr(('field', self.what, k), self.dt.flds[k][0], self.nd, self.n)
        if isinstance(k, int) and self.items is not None:
            if k >= len(self.items): raise pyabs.Exc('IndexError')
            return self.items[k]
        return pyabs.T('item', self, k)
    def p_store(self, I, k, v, node):
        if isinstance(k, int) and self.items is not None:
            if not -len(self.items) <= k < len(self.items): raise pyabs.Exc('IndexError')
            self.items[k] = v; return
        if (k is Ellipsis or isinstance(k, slice) and (k.start, k.stop, k.step) == (None, None, None)):
            if self.items is not None and isinstance(v, list) and len(v) == len(self.items): self.items[:] = v; return
            if isinstance(v, PArr) and self.what[0] == 'new': self.what = ('copy', v.what); return
        raise pyabs.NoVal('store into an array')
class Meth(pyabs.M):
    def __init__(self, f): self.f = f
    def p_call(self, I, a, k, node): return self.f(I, a, k, node)
    def p_truth(self, I): return True
def npmodel(count):
    def num(x): return x[0] if isinstance(x, tuple) and len(x) == 1 else x
    def dtof(d): return 'O' if d in ('O', 'object') or isinstance(d, pyabs.G) and d.path in ('builtins.object', 'numpy.object_') else d
    def empty(I, a, k, node):
        n = num(a[0] if a else k['shape']); d = dtof(a[1] if len(a) > 1 else k.get('dtype'))
        count[0] += 1
        if d == 'O':
            if not isinstance(n, int): raise pyabs.NoVal('object array of %s' % (n,))
            return PArr(('new', count[0]), Dt('O', 8), 1, n, [None] * n)
        if isinstance(n, int) and not isinstance(d, Dt): return PArr(('ints', count[0]), d, 1, n, [0] * n)
        return PArr(('new', count[0]), d, 1 if not isinstance(n, tuple) else len(n), n)
    def like(I, a, k, node): count[0] += 1; return PArr(('new', count[0]), k.get('dtype', a[0].dt), a[0].nd, a[0].n)
    def array(I, a, k, node):
        x = a[0]; d = a[1] if len(a) > 1 else k.get('dtype')
        if isinstance(x, (list, tuple)) and all(isinstance(y, int) for y in x): return PArr(('ints',), d, 1, len(x), list(x))
        if isinstance(x, PArr) and x.items is not None: return x
        if isinstance(x, PArr) and k.get('copy', True) is True and (d is None or d is x.dt): return PArr(('copy', x.what), x.dt, x.nd, x.n)
        raise pyabs.NoVal('array of %r' % (x,))
    def asarray(I, a, k, node):
        if isinstance(a[0], PArr): return a[0] if len(a) == 1 and not k or a[0].items is not None else pyabs.T('asarray')
        return array(I, a, k, node)
    def copy(I, a, k, node): return PArr(('copy', a[0].what), a[0].dt, a[0].nd, a[0].n) if isinstance(a[0], PArr) else pyabs.T('copy', a[0])
    def fromiter(I, a, k, node): return array(I, [list(I.iter(a[0]))] + list(a[1:]), k, node)
    return {'numpy.empty': empty, 'numpy.zeros': empty, 'numpy.ndarray': empty, 'numpy.empty_like': like, 'numpy.zeros_like': like, 'numpy.array': array, 'numpy.asarray': asarray, 'numpy.ascontiguousarray': asarray, 'numpy.copy': copy, 'numpy.fromiter': fromiter,
            'numpy.ndim': lambda I, a, k, x: a[0].nd, 'numpy.dtype': lambda I, a, k, x: a[0]}
F = lambda c, s: Dt(c, s)
def fieldsets():
    for cls in itertools.chain([('f',)], itertools.product('fO', repeat=2), itertools.product('fVS', repeat=2), [('S', 'z'), ('z',), ('f', 'z', 'd'), ('d', 'S', 'f'), ('V', 'f', 'f'), ('f', 'f', 'O'), ('f', '?', 'U', 'M', 'e', 'F'), ('>', 'f')]):
        d = {}; off = 3; nms = ['b', 'a', 'zz', 'c', 'x0', 'y']
        # the offsets do not follow the order of the names
        sz = {'f': 4, 'd': 8, 'O': 8, 'V': 12, 'S': 7, 'z': 0, '?': 1, 'U': 12, 'M': 8, 'e': 2, 'F': 8, '>': 4}
        offs = []; p = 3
        for c in reversed(cls): offs.append(p); p += sz[c]
        for nm, c, o in zip(nms, cls, reversed(offs)): d[nm] = (Dt('S' if c == 'z' else 'i' if c == '>' else c, sz[c], None, '>' if c == '>' else None), o)
        yield cls, d, p
    d = {'b': (Dt('f', 4), 0, 'title b'), 'a': (Dt('d', 8), 4)}; d['title b'] = d['b']
    yield 'titled', d, 12
class TDt(Dt):
    def p_attr(self, I, n):
        if n == 'names': return ('b', 'a')
        if n == 'fields': return {'b': self.flds['b'], 'title b': self.flds['b'], 'a': self.flds['a']}
        return Dt.p_attr(self, I, n)
def python(ck):
    path = os.path.join(prog.REPO, 'src/pnumpy/recarray.py')
    rel = 'src/pnumpy/recarray.py'; n = 0
    count = [0]; H = npmodel(count)
    def native(I, a, k, node):
        if k or len(a) != 3: raise pyabs.NoVal('native call')
        ok = I.choose('native'); I.ev('native', node, a, [list(x.items) if isinstance(x, PArr) and x.items is not None else x for x in a], ok)
        if not ok: raise pyabs.Exc('ValueError')
        return None
    for p in ('pnumpy._pnumpy.recarray_to_colmajor',): H[p] = native
    H['warnings.warn'] = lambda I, a, k, node: I.ev('warn', node)
    def go(item, a, k):
        I = pyabs.Interp(H)
        def thunk():
            s = I.module(path, 'pnumpy.recarray'); s.d['__package__'] = 'pnumpy'
            f = s.d.get('recarray_to_colmajor')
            if f is None: raise pyabs.NoVal('recarray_to_colmajor not defined')
            return I.call(f, [item] + a, k, None)
        return I.runs(thunk, 60)
    for cls, flds, size in fieldsets():
        dt = (TDt if cls == 'titled' else Dt)('V', size, flds)
        names = ('b', 'a') if cls == 'titled' else tuple(flds)
        fast = not any(flds[x][0].char in 'OV' or flds[x][0].size == 0 for x in names)
        for nd in (1, 2, 0):
            for par in ({}, {'parallel': True}, {'parallel': False}):
                item = PArr(('rec',), dt, nd, pyabs.T('n')); what = '%s fields, %d dimensions, %s' % ('/'.join(cls) if cls != 'titled' else cls, nd, par or 'default')
                und = None
                for out, v, evs, dec in go(item, [], dict(par)):
                    if out == 'und': und = v; break
                    calls = [e for e in evs if e[0] == 'native']; wit = dict(fields=[dict(name=x, type=flds[x][0].char, bytes=flds[x][0].size, offset=flds[x][1]) for x in names], dimensions=nd, parallel=par.get('parallel', 'default'))
                    at = lambda node: pyabs.where(rel, node)
                    if nd == 0 and out == 'raise': continue
                    if out == 'raise':
                        if v.kind == 'ValueError' and calls and not calls[-1][4] and nd == 1 and fast: continue
                        if calls and not calls[-1][4]: ck.violation('python', 'wrongpath', at(calls[-1][1]), '%s: the fast copy is used for records it refuses or cannot copy' % what, wit); return
                        ck.violation('python', 'raises', at(v.node), '%s: raises %s' % (what, v.kind), wit); return
                    if not isinstance(v, dict): ck.violation('python', 'result', rel, '%s: the result is not a dictionary' % what, wit); return
                    if list(v) != list(names): ck.violation('python', 'names', rel, '%s: the columns are %s, expected %s' % (what, list(v), list(names)), wit); return
                    for e in calls:
                        (rec, offs, arrs), snap, ok = e[2], e[3], e[4]
                        if not (fast and nd == 1): ck.violation('python', 'unsupported', at(e[1]), '%s: the fast copy is used for records it refuses or cannot copy' % what, wit); return
                        if rec is not item: ck.violation('python', 'record', at(e[1]), '%s: another array is converted' % what, wit); return
                    for x in names:
                        c = v[x]; fd, fo = flds[x][0], flds[x][1]
                        if not isinstance(c, PArr): und = 'column %s is %s' % (x, c); continue
                        if c.what == ('copy', ('field', ('rec',), x)): continue
                        if c.what[0] == 'field' and c.what[1] == ('rec',): ck.violation('python', 'view', rel, '%s: column %s shares memory with the records' % (what, x), wit); return
                        if c.what[0] == 'copy' and c.what[1][0] == 'field': ck.violation('python', 'field', rel, '%s: column %s has the data of field %s' % (what, x, c.what[1][2]), wit); return
                        if c.what[0] != 'new': und = 'column %s is %s' % (x, c); continue
                        if c.dt is not fd: ck.violation('python', 'dtype', rel, '%s: column %s has type %s, its field has %s' % (what, x, c.dt, fd), wit); return
                        if c.nd != 1 or c.n != pyabs.T('n'): ck.violation('python', 'length', rel, '%s: column %s has length %s' % (what, x, c.n), wit); return
                        hit = [(e, j) for e in calls if e[4] and isinstance(e[3][2], list) for j, y in enumerate(e[3][2]) if y is c]
                        if not hit:
                            if any(e[4] and not isinstance(e[3][2], list) for e in calls): und = 'columns of the call'; continue
                            ck.violation('python', 'unfilled', rel, '%s: column %s is never filled' % (what, x), wit); return
                        for e, j in hit:
                            o = e[3][1]
                            if not isinstance(o, list): und = 'offsets %r' % (o,); continue
                            if j >= len(o) or o[j] != fo: ck.violation('python', 'offset', at(e[1]), '%s: column %s is read at offset %s, its field is at %d' % (what, x, o[j] if j < len(o) else None, fo), wit); return
                            if len(o) != len(e[3][2]): ck.violation('python', 'offset', at(e[1]), '%s: %d offsets for %d columns' % (what, len(o), len(e[3][2])), wit); return
                            d = e[2][1].dt
                            if not (isinstance(d, pyabs.G) and d.path in ('numpy.int64', 'numpy.intp', 'numpy.int_', 'numpy.longlong') or d in ('int64', 'i8', '<i8', 'l', 'q') or isinstance(d, pyabs.G) and d.path == 'builtins.int'):
                                if d is None: und = 'type of the offsets'
                                else: ck.violation('python', 'offsets', at(e[1]), '%s: the offsets are passed as %s' % (what, d), wit); return
                if und: ck.undecided('python', rel, '%s: %s' % (what, und))
                else: n += 1
    for c in 'lfSO?':
        item = PArr(('rec',), Dt(c, 8), 1, pyabs.T('n'))
        for out, v, evs, dec in go(item, [], {}):
            if out == 'und': ck.undecided('python', rel, v)
            elif out == 'raise': ck.violation('python', 'plain', pyabs.where(rel, v.node), 'an array of type %s: raises %s' % (c, v.kind))
            elif v is not item: ck.violation('python', 'plain', rel, 'an array of type %s that is no record array is not returned as it is' % c)
            elif not any(e[0] == 'warn' for e in evs): ck.violation('python', 'plain', rel, 'an array of type %s is returned without a warning' % c)
            else: n += 1
    if n: ck.ok('python', n, 'field arrangements')

def c27(pid, tier):
    ck = report.Check(pid, tier, 'concrete-control abstract interpretation with symbolic bytes (byte provenance) of the copy loops; path enumeration of the entry point; abstract interpretation of the Python syntax tree')
    ck.rule('copy', 'row r of a column holds exactly the bytes of its field in record r; no other byte is read or written')
    ck.rule('split', 'the blocks of rows handed to the workers are disjoint and together all rows')
    ck.rule('args', 'the copy gets the buffer, offset and item size of every column, and only for plain records, columns of their length, and fields inside the records')
    ck.rule('python', 'the dictionary has the fields of the record type in their order, each an array of the type and length of the field; types that the fast copy cannot handle are copied one field at a time')
    P = prog.Program(); cp = CProp(P)
    lay = lays(P)
    f = sel(P, UNIT, 'RecArrayToColMajor'); g = sel(P, UNIT, 'ConvertRecArray')
    if lay is None or f is None or g is None: ck.undecided('copy', 'recarray.cpp', 'conversion routines not found')
    else:
        with Pool(min(8, os.cpu_count() or 1)) as pool: rs = pool.map(job, [(g.name, s, tier) for s in SIZES[::-1]], chunksize=1)
        for s, r in zip(SIZES[::-1], rs):
            if r[0] == 'bad': ck.violation('copy', 'copy:%d' % s, r[2], 'column of %d-byte items: %s' % (s, r[1]), r[3])
            else:
                if r[2]: ck.undecided('copy', 'ConvertRecArray', '%d-byte items: %s' % (s, r[2]))
                if r[1]: ck.ok('copy', r[1], '%d-byte items: every row and byte from its place' % s)
        split(ck, P, cp, f, g)
        entry(ck, P, cp, lay)
    python(ck)
    ck.assume('the records are not written while they are converted, and the columns do not overlap them')
    return report.finish(ck, explanation='The copy is followed with concrete sizes and symbolic bytes over all item-size classes, record sizes from packed to larger than the cache block, and row counts around the vector and block boundaries.')
