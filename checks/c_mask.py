"""Boolean mask selection (C18): counting pass, prefix sums, copying pass and what connects them."""
import itertools
from c_getitem import *
from vecx import *
UNIT = 'getitem'

class BX(GX):
    """BooleanIndexInternal: both passes are events, the loop over the chunk counts is summarised"""
    havoc = True
    def other(self, i, f, args, b):
        if b == 'FmAlloc':
            n = sum(1 for e in self.events if e[0] == 'heap'); self.ev('heap', i, n, args[0])
            return Ptr(('heap', n)) if self.truth(Unk(('allocok', 'heap', n)), i) else 0
        if b == 'FmFree': self.ev('free', i, args[0]); return None
        if b == 'DoMultiThreadedChunkWork':
            n = sum(1 for e in self.events if e[0] == 'work')
            self.ev('work', i, f, args, {k: dict(self.objd(k)) for k in list(self.mem) if k[0] in ('alloca', 'g', 'item')})
            return Unk(('didwork', n))
        if b == 'BooleanIndexInternal': return NotImplemented
        return GX.other(self, i, f, args, b)
def masks():
    T = lambda v: v
    yield from ([], [1], [0], [0x80], [2, 0, 255])
    for k in range(9):
        yield [int(j == k) for j in range(9)]
    for pat in ([1] * 8, [0] * 8, [1, 0] * 4, [0, 1, 1, 0, 0, 0, 0, 1], [0x80, 0, 0, 0x10, 0, 2, 0, 0x7f], [0, 0, 0, 0, 0, 0, 0, 0x80], [0x01, 0, 0, 0, 0, 0, 0, 0]):
        for tail in ([], [1], [0, 0, 1], [1, 1, 1, 1, 1, 1, 1], [0, 1, 0, 1, 0, 1, 0]):
            yield pat + tail
            yield [0] * 8 + pat + tail
            yield pat + pat + tail
    for a in range(0, 256, 3): yield [(a >> j) & 1 for j in range(8)]
class DSim(Sim):
    """one call of the driver: counts are filled in by the counting pass, everything else is computed from the extracted steps"""
    def __init__(self, paths, env, counts, maxiter=16):
        Sim.__init__(self, paths, env, maxiter=maxiter); self.counts = counts; self.log = []; self.nwork = 0
        env.mem = self.memory
    def memory(self, r, o, n):
        if r[0] != 'heap': return None
        bs = [self.writes.get((r, o + j)) for j in range(n)]
        if any(b is None or b[0][0] != 'c' for b in bs): raise Bad('reads %d bytes of the chunk counts at offset %d, which were never written' % (n, o))
        return sum(b[0][1] << (8 * j) for j, b in enumerate(bs))
    def event(self, e):
        if e[0] == 'load':
            # the value is the one at the time of the load
            v = e[4]
            if isinstance(v, Unk) and isinstance(v.why, tuple) and v.why[0] == 'ld' and addr(e[2], self.env)[0][0] == 'heap': self.env.memo.pop(v.why, None); num(v, self.env)
            return
        if e[0] == 'store':
            r, o = addr(e[2], self.env)
            if r[0] == 'heap':
                x = num(e[3], self.env); self.put(r, o, [('c', (x >> (8 * j)) & 255) for j in range(e[1]['sz'])], e[1])
            return
        if e[0] == 'heap': self.log.append(('heap', e[2], num(e[3], self.env))); return
        if e[0] == 'made': self.log.append(('made', e[2], e[3], num(e[4], self.env))); return
        if e[0] in ('work', 'kernel'):
            if e[0] == 'work': n = num(e[3][1], self.env); st = 0; self.nwork += 1
            else: st, n = num(e[3][-2], self.env), num(e[3][-1], self.env)
            heap = {k: v[0] for k, v in self.writes.items() if k[0][0] == 'heap'}
            self.log.append((e[0], st, n, heap, e))
            if sum(1 for l in self.log if l[0] in ('work', 'kernel')) == 1:
                for (r, o), v in self.counts(st, n, e).items(): self.put(r, o, [('c', (v >> (8 * j)) & 255) for j in range(8)], e[1])
            return
        if e[0] in ('free', 'help', 'alloc', 'icall', 'ext'): return
        Sim.event(self, e)
def structof(e):
    """(object of the callback argument, snapshot)"""
    a = e[3][3] if e[0] == 'work' else e[3][-4]
    return (a.obj if isinstance(a, Ptr) and a.off == 0 else None), e[4]
def subst(v, m):
    if isinstance(v, Unk): return m.get(v.why, v)
    return v
def substd(d, m): return {k: ((x[0], subst(x[1], m)) if isinstance(x, tuple) and len(x) == 2 and not isinstance(k, tuple) else x) for k, x in d.items()}
def worker(P, v):
    return P.raw(v.obj[1]).functions.get(v.obj[2]) if isinstance(v, Ptr) and v.obj[0] == 'fn' and v.off == 0 else None
def inner(P, f):
    """the functions that a work function consists of"""
    r = {('fn', f.mod.unit, f.name)}
    for i in f.ins():
        c = i.get('callee')
        if i.o == 'call' and isinstance(c, list) and c[0] == 'g' and c[1] in f.mod.functions and 'operator()' in f.mod.functions[c[1]].dem: r.add(('fn', f.mod.unit, c[1]))
    return r
def blocksize(P):
    """the block size that the pool hands to DoMultiThreadedChunkWork callbacks, from its call of WorkMain"""
    r = set()
    for f in P.raw(UNIT).functions.values():
        if base(f) == 'DoMultiThreadedChunkWork':
            for i in f.ins():
                if i.o in ('call', 'invoke') and i.get('callee') and isinstance(i.get('callee'), list):
                    g = f.mod.functions.get(i.get('callee')[1])
                    if g is not None and base(g) == 'WorkMain':
                        r |= {o[1] for o in i.ops[3:] if isinstance(o, list) and o[0] == 'i' and o[2] == 64}
    return r
def countpass(ck, P, cp, f, sobj, snap, si, B):
    """the work function of the first pass leaves at index start / blocksize the number of nonzero mask bytes of its block"""
    bad = 0; n = 0
    nm = 'counting pass'
    for stride in (1, 2, 0, -1, 24):
        lens = [0, 1, 7, 8, 9, 31, 32, 33, 63, 64, 65, 100, 255 * 32 - 1, 255 * 32, 255 * 32 + 1, 256 * 32, 256 * 32 + 33, B - 1, B] if stride == 1 else [0, 1, 2, 5]
        if stride == 1: lens += [510 * 32, 511 * 32 + 5, B * 4 - 1]
        for start in (0, B, 3 * B):
            for ln in lens:
                if ln > B and start: continue
                if start == 3 * B and ln > 100: continue
                m = {si: stride & M64} if si else {('si',): 40}      # a flat mask of more dimensions: its first axis steps elsewhere
                if not si and stride != 1: continue
                def init(fk):
                    for o, d in snap.items(): fk.mem[o] = substd(d, m)
                fk = VX(cp, I.obj, init=init, loopmax=1 << 30); fk.max = 1 << 26
                fk.load_init_base = lambda obj, fk=fk: DX.load_init_base(fk, obj)
                args = ([Unk(('this',))] if len(f.args) == 5 else []) + [Ptr(sobj), Unk(('core',)), start, ln]
                try: ps = list(fk.paths(f.name, args, unit=UNIT, maxpaths=40))
                except Overflow as e:
                    ck.violation('count', 'count:overflow', f.where() if hasattr(f, 'where') else nm, '%s: %s' % (nm, e), dict(length=ln, mask='all true')); return
                e = [p.end for p in ps if p.end not in ('ret', 'back')]
                if e: ck.undecided('count', nm, 'length %d stride %d: %s' % (ln, stride, e[0])); return
                small = ln <= 100
                pats = ([[1] * ln, [0] * ln, [0x80] * ln, [2 - 2 * (j & 1) for j in range(ln)]] + [[int(j == k) for j in range(ln)] for k in {0, 1, ln // 2, ln - 2, ln - 1} if 0 <= k < ln]) if small else [[1] * ln, [int(j >= ln - 33) for j in range(ln)]]
                if stride == 0: pats = [[1] * ln, [0] * ln]
                for pat in pats:
                    ok = runcount(P, ps, pat, stride, start, B)
                    if ok is None: n += 1
                    elif ok[0] == 'und': ck.undecided('count', nm, 'length %d stride %d: %s' % (ln, stride, ok[1])); return
                    else:
                        ck.violation('count', 'count:stride%d' % (1 if stride == 1 else 0), f.dem.split('(')[0], '%s: %s' % (nm, ok[1]), dict(block_start=start, length=ln, mask_stride=stride, true_at=[j for j, x in enumerate(pat) if x][:20])); return
                # the vector part is exact for every mask: each byte of its range is counted exactly once
                for p in ps:
                    for key, ini, nc, ne in p.user.get('marks', []):
                        for s, v in ini.items():
                            if isinstance(v, Unk) and isinstance(v.why, tuple) and v.why[0] == 'cntv':
                                d = dict(v.why[1]); lo = start * stride
                                if v.why[2] or set(d.values()) != {1} or set(d) != set(range(lo, lo + len(d))):
                                    ck.violation('count', 'count:vector', f.dem.split('(')[0], 'the vector loop does not count each byte once', dict(length=ln, bytes=len(d))); return
    ck.ok('count', n, 'counts of blocks of every vector remainder, with the lane bound at 255 blocks, strided masks, block starts 0, %d, %d' % (B, 3 * B))
def runcount(P, ps, pat, stride, start, B):
    lo = start * stride; enc = {}
    for j, x in enumerate(pat): enc[lo + j * stride] = x
    def mem(r, o, n):
        if r == I.obj:
            bs = [enc.get(o + j) for j in range(n)]
            if None in bs: raise Bad('reads %d bytes of the mask at offset %d, outside its block' % (n, o))
            return sum(b << (8 * j) for j, b in enumerate(bs))
        return None
    class E(Env): pass
    env = Env(mem=mem); sm = Sim(ps, env, maxiter=len(pat) + 3)
    env.cnt = lambda o: (o[2][enc[o[1]]] if o[1] in enc else None) if isinstance(o, tuple) else int(enc[o] != 0) if o in enc else None
    for p in ps:
        for k, e in enumerate(p.events):
            if e[0] == 'vload':
                for j in range(e[3]):
                    if e[2] + j not in enc: return ('bad', 'reads the mask at offset %d, outside its block' % (e[2] + j))
    try: sm.run()
    except Bad as e: return ('bad', str(e))
    except NoVal as e: return ('und', str(e)[:140])
    want = sum(1 for x in pat if x)
    got = {}
    for (r, o), (b, ins) in sm.writes.items():
        if r[0] == 'heap':
            if b[0] != 'c': return ('und', 'count is not a number')
            got[o] = b[1]
    exp = start // B * 8
    if not got: return ('bad', 'no count is stored')
    if set(got) != set(range(exp, exp + 8)): return ('bad', 'the count of the block at %d is stored at offset %d of the counts, expected %d' % (start, min(got), exp))
    v = sum(got[exp + j] << (8 * j) for j in range(8))
    if v != want: return ('bad', 'counts %d true values of %d' % (v, want))
    return None
def copypass(cp, fname, nargs, sobj, snap, si, sv, esi, esv, item, B, tier):
    """the work function of the second pass: ('ok', n) | ('bad', msg, wit) | ('und', msg)"""
    m = {('item',): item}
    def init(fk):
        for o, d in snap.items(): fk.mem[o] = substd(d, m)
    fk = SX(cp, init=init); fk.load_init_base = lambda obj, fk=fk: DX.load_init_base(fk, obj)
    args = ([Unk(('this',))] if nargs == 5 else []) + [Ptr(sobj), Unk(('core',)), Unk(('start',)), Unk(('ln',))]
    ps = list(fk.paths(fname, args, unit=UNIT, maxpaths=6000))
    e = [p.end for p in ps if p.end not in ('ret', 'back')]
    if e: return ('und', 'path ends with ' + e[0])
    init_, nx = steps(ps); n = 0; npaths = len(ps)
    for key, d in nx.items():
        for ph, ds in d.items():
            if any(x is None for x in ds): return ('und', 'loop variable without a step')
            for x in ds:
                if any(isinstance(a, tuple) and a[0] == 'u' and isinstance(a[1], tuple) and a[1][0] == 'ph' for k in x for a in k): return ('und', 'a step depends on the iteration')
    ps = prepared(ps)
    heap = next((x[1].obj for d in snap.values() for x in d.values() if isinstance(x, tuple) and isinstance(x[1], Ptr) and x[1].obj[0] == 'heap'), None)
    if heap is None: return ('und', 'no chunk counts')
    for mi, vi in ((1, 0), (1, 5), (3, 0), (-1, -2 * item - 1)) if si and sv else ((1, 0), (2, 0), (-1, 0)) if si else ((1, 0), (1, 7)) if sv else ((1, 0),):
        svv = item + vi
        for bi, (start, c) in enumerate(((0, 0), (B, 5), (3 * B, 0), (0, 0))):
            for k, mask in enumerate(masks()):
                if bi and k % 7 != bi: continue
                v = {('start',): start, ('ln',): len(mask), ('si',): 40, ('sv',): 40 * item}
                if si: v[si] = mi & M64
                if sv: v[sv] = svv & M64
                s_i = mi if si else esi; s_v = svv if sv else item
                enc = {start * s_i + j * s_i: x for j, x in enumerate(mask)}
                def mem(r, o, nb):
                    if r == I.obj:
                        bs = [enc.get(o + j) for j in range(nb)]
                        if None in bs: raise Bad('reads %d bytes of the mask at offset %d, outside the block' % (nb, o))
                        return sum(b << (8 * j) for j, b in enumerate(bs))
                    if r == heap: return c if o == start // B * 8 else 0x5a5a5a
                    return None
                sm = Sim(ps, Env(val=v, mem=mem), maxiter=len(mask) + 4)
                wit = dict(block_start=start, length=len(mask), true_at=[j for j, x in enumerate(mask) if x], mask_stride=s_i, value_stride=s_v, item_size=item, items_before=c)
                try: sm.run()
                except Bad as e: return ('bad', str(e), wit)
                except NoVal as e: return ('und', str(e)[:160])
                want = {}; q = c
                for j, x in enumerate(mask):
                    if x:
                        for b in range(item): want[(('buf', 'out1'), q * item + b)] = (V.obj, (start + j) * s_v + b)
                        q += 1
                got = {k: x[0] for k, x in sm.writes.items() if k[0][0] != 'alloca'}
                for k2, x in want.items():
                    if got.get(k2) != x: return ('bad', 'output byte %d is %s, expected byte %d of the values' % (k2[1], 'not written' if k2 not in got else 'byte %s of %s' % (got[k2][1], got[k2][0]), x[1]), wit)
                for k2 in got:
                    if k2 not in want: return ('bad', 'writes offset %d of %s, outside the selected items' % (k2[1], k2[0]), wit)
                for r, o, nb, ins in sm.reads:
                    if r == V.obj and s_v and not any(0 <= o - (start + j) * s_v and o - (start + j) * s_v + nb <= item for j in range(len(mask))): return ('bad', 'reads the values at byte offset %d, outside the block' % o, wit)
                n += 1
    return ('ok', n, npaths)
def cjob(j):
    P = prog.Program(); return copypass(CProp(P), *j)
def c18(pid, tier):
    ck = report.Check(pid, tier, 'path enumeration of the driver; loop-step extraction and a lane-counting abstract domain for the counting pass; induction over the extracted steps for the copying pass, evaluated on mask patterns')
    ck.rule('count', 'the counting pass stores, at the index of its block, the number of nonzero bytes of its block: every byte counted exactly once, no lane can overflow, no byte outside the block read')
    ck.rule('prefix', 'the counts become offsets: before the copying pass entry b is the number of true values before block b, and the result has as many items as the mask has true values')
    ck.rule('passes', 'both passes split the mask the same way; the count array has an entry for every block; lengths must agree and only contiguous arrays of other than one dimension are taken as flat')
    ck.rule('copy', 'the copying pass writes exactly the selected items, in order, from the offset of its block on, and reads nothing outside')
    ck.rule('own', 'copied object references are taken before the result is returned')
    ck.rule('hook', 'the hooked index operation takes this path only for plain arrays whose shape the mask has')
    P = prog.Program(); cp = CProp(P)
    g = sel(P, UNIT, 'BooleanIndexInternal')
    Bs = blocksize(P)
    if g is None or len(Bs) != 1: ck.undecided('passes', 'BooleanIndexInternal', 'driver or block size not found'); return report.finish(ck)
    B = Bs.pop()
    seen = {}; jobs = []
    for ndi, ndv in ((1, 1), (2, 1), (1, 2), (2, 2), (0, 0), (3, 3)):
        arrs = {'v': Arr('v', ndv, 18, V, L, ITEM, SV, 0), 'i': Arr('i', ndi, 0, I, N, 1, SI, 0)}
        tag = 'mask of %d dimension%s, values of %d' % (ndi, 's' * (ndi != 1), ndv)
        kern = set(); ps = None
        for rnd in (0, 1):
            fk = BX(cp, dict(arrs), kern, None)
            def run():
                for p in fk.paths(g.name, [Ptr(('arr', 'v')), Ptr(('arr', 'i'))], unit=UNIT, maxpaths=1500): yield p
            ps = []
            for p in run():
                ps.append(p); fk.arrs = dict(arrs)
            for p in ps:
                for e in p.events:
                    if e[0] == 'work':
                        f = worker(P, e[3][2])
                        if f is not None: kern |= inner(P, f)
        ends = {p.end for p in ps} - {'ret', 'back', 'stop: unreach', 'stop: unreachable'}
        if ends: ck.undecided('passes', 'BooleanIndexInternal', '%s: path ends with %s' % (tag, sorted(ends)[0])); continue
        # guards
        copies = [p for p in ps if any(e[0] in ('work', 'kernel') for k, e in enumerate(p.events) if any(x[0] == 'made' for x in p.events[:k]))]
        if not copies: ck.undecided('passes', 'BooleanIndexInternal', '%s: no path copies items' % tag); continue
        for p in copies:
            for nd, a in ((ndi, 'i'), (ndv, 'v')):
                fl = [r if c.why[2] == 'ne' or not (isinstance(c.why, tuple) and c.why[0] == 'cmp') else not r for c, r, i in p.conds if isinstance(c, Unk) and "('flag', '%s', 1)" % a in repr(c)]
                val = flagtruth(p, a)
                if nd != 1 and nd != 0 and val is not True: ck.violation('passes', 'contig:%s' % a, 'BooleanIndexInternal', '%s: takes %s as flat although it may not be contiguous' % (tag, 'the mask' if a == 'i' else 'the values')); break
            else:
                if not eqlen(p): ck.violation('passes', 'length', 'BooleanIndexInternal', '%s: copies items although the lengths may differ' % tag)
                else: ck.ok('passes', 1, '%s: lengths equal and flat' % tag)
        # own
        for p in copies:
            if p.end != 'ret' or not isinstance(p.ret, Ptr) or p.ret.obj[0] != 'arr': continue
            prod = [k for k, e in enumerate(p.events) if e[0] in ('work', 'kernel')]
            inc = [k for k, e in enumerate(p.events) if e[0] == 'icall' and npapi.apiname(e[2]) == 'PyArray_INCREF' and e[3] and e[3][0] == p.ret and k > prod[-1]]
            if len(inc) == 1: ck.ok('own', 1, tag)
            else: ck.violation('own', 'own', 'BooleanIndexInternal', 'returns an array whose copied object references were %s' % ('not taken' if not inc else 'taken %d times' % len(inc)))
        # the driver for concrete lengths
        pt = prepared(ps)
        flags = {('flag', a, 1): 1 for a in 'iv'}
        for n in (0, 1, 100, B - 1, B, B + 1, 2 * B, 4 * B - 1, 4 * B, 4 * B + 1, 5 * B + 77):
            for did in (0, 1):
                if did and n < B: continue
                nb = max(1, -(-n // B)); den = [(7 * b * b + 3) % 11 for b in range(nb)]
                if n == 0: den = [0]
                if n == 1: den = [1]
                for zero in (0, 1):
                    cnts = den if not zero else [0] * nb
                    def counts(st, ln, e, did=did, cnts=cnts):
                        so, snap = structof(e)
                        hp = next((x[1].obj for x in snap.get(so, {}).values() if isinstance(x, tuple) and isinstance(x[1], Ptr) and x[1].obj[0] == 'heap'), ('heap', 0))
                        return {(hp, 8 * b): c for b, c in enumerate(cnts)} if did else {(hp, 0): sum(cnts)}
                    env = Env(val={('L',): n, ('n',): n, ('si',): 1, ('sv',): 8, ('item',): 8, ('didwork', 0): did, ('didwork', 1): did, ('allocok', 'heap', 0): 1, ('allocok', 1): 1, **flags})
                    sm = DSim(pt, env, counts, maxiter=nb + 4)
                    wit = dict(length=n, counts=cnts if did else [sum(cnts)], first_pass_threaded=bool(did))
                    try: sm.run()
                    except Bad as e: ck.violation('prefix', 'prefix:walk', 'BooleanIndexInternal', str(e), wit); break
                    except NoVal as e: ck.undecided('prefix', 'BooleanIndexInternal', '%s, length %d: %s' % (tag, n, str(e)[:120])); break
                    r = judge(sm, n, cnts, did, B, nb)
                    if r is None: ck.ok('prefix', 1, 'length %d, %d blocks' % (n, nb))
                    elif r[0] == 'und': ck.undecided('prefix', 'BooleanIndexInternal', r[1])
                    else: ck.violation('prefix', 'prefix:%s' % r[1], 'BooleanIndexInternal', r[2], wit)
        # the passes themselves
        for p in ps:
            ws = [e for e in p.events if e[0] in ('work', 'kernel')]
            made = next((k for k, e in enumerate(p.events) if e[0] == 'made'), None)
            for e in ws:
                k = next(k for k, x in enumerate(p.events) if x is e)
                f = worker(P, e[3][2]) if e[0] == 'work' else e[2]
                so, snap = structof(e)
                if f is None or so is None: ck.undecided('copy', 'BooleanIndexInternal', 'work function not found'); continue
                si = ('si',) if ndi == 1 else None; sv = ('sv',) if ndv == 1 else None
                snap = {so: snap.get(so, {})}
                key = (f.name, repr(sorted(snap[so].items(), key=repr)), made is not None and k > made, ndi == 1, ndv == 1)
                if key in seen: continue
                seen[key] = 1
                if made is None or k < made:
                    if not any(s_ == ('count', f.name, ndi == 1) for s_ in seen): 
                        seen[('count', f.name, ndi == 1)] = 1
                        countpass(ck, P, cp, f, so, snap, si, B)
                else:
                    for item in SIZES: jobs.append((f.name, len(f.args), so, snap, si, sv, 1, None, item, B, tier))
    with Pool(min(8, os.cpu_count() or 1)) as pool: rs = pool.map(cjob, jobs, chunksize=2)
    for j, r in zip(jobs, rs):
        what = 'item size %d, mask %s, values %s' % (j[8], 'strided' if j[4] else 'flat', 'strided' if j[5] else 'flat')
        if r[0] == 'ok': ck.ok('copy', 1, '%s: %d steps, %d mask patterns' % (what, r[2], r[1]))
        elif r[0] == 'bad': ck.violation('copy', 'copy:%d' % j[8], P.raw(UNIT).functions[j[0]].dem.split('(')[0], '%s: %s' % (what, r[1]), r[2])
        else: ck.undecided('copy', 'BooleanIndexInternal', '%s: %s' % (what, r[1]))
    hook(ck, P, cp)
    if os.environ.get('T18'): return report.finish(ck)
    ck.assume('mask and values are not written while they are read; the pool runs every block of a job exactly once (C14)')
    ck.assume('item sizes %s stand for all: other sizes take the generic copy' % SIZES)
    return report.finish(ck, explanation='The counting and copying work functions are reduced to loop steps whose increments do not depend on the iteration; the driver between them is followed path by path and its prefix loop composed for block counts around the threading threshold.')
def flagtruth(p, a):
    for c, r, i in p.conds:
        if not isinstance(c, Unk): continue
        w = c.why; pol = r
        if c.why == ('flag', a, 1): return pol
        if isinstance(w, tuple) and w[0] == 'cmp' and w[4] == 0 and isinstance(w[3], Unk) and w[3].why == ('flag', a, 1):
            return pol if w[1] == 'ne' else (not pol)
    return None
def eqlen(p):
    for c, r, i in p.conds:
        w = c.why if isinstance(c, Unk) else None
        if isinstance(w, tuple) and w[0] == 'cmp' and w[1] == 'eq' and {show(w[3]), show(w[4])} == {show(L), show(N)} and r: return True
    return False
def judge(sm, n, cnts, did, B, nb):
    lg = sm.log; total = sum(cnts)
    heap = [l for l in lg if l[0] == 'heap']; made = [l for l in lg if l[0] == 'made']; ws = [l for l in lg if l[0] in ('work', 'kernel')]
    if not ws: return ('bad', 'nocount', 'the true values are not counted')
    if ws[0][1] != 0 or ws[0][2] != n: return ('bad', 'countlen', 'the counting pass covers %d items from %d' % (ws[0][2], ws[0][1]))
    if not heap: return ('und', 'no count array')
    if heap[0][2] < 8 * (nb if did else 1): return ('bad', 'size', 'the count array of %d bytes has no room for %d counts' % (heap[0][2], nb if did else 1))
    if len(made) != 1: return ('bad', 'made', 'allocates %d results' % len(made))
    if made[0][3] != total or made[0][2] != 'v': return ('bad', 'total', 'the result gets %d items, the mask has %d true values' % (sg(made[0][3], 64), total))
    if total == 0 and len(ws) == 1: return None
    if len(ws) != 2: return ('bad', 'nocopy', 'the items are copied %d times' % (len(ws) - 1))
    w = ws[1]
    if w[1] != 0 or w[2] != n: return ('bad', 'copylen', 'the copying pass covers %d items from %d' % (w[2], w[1]))
    if w[0] == 'work' and not did and nb > 1: return ('bad', 'split', 'the copying pass may be split into blocks although only the whole mask was counted')
    pre = 0
    for b in range(nb if did else 1):
        bs = [w[3].get((('heap', 0), 8 * b + j)) for j in range(8)]
        if any(x is None for x in bs): return ('und', 'count array is not the first allocation')
        v = sum(x[1] << (8 * j) for j, x in enumerate(bs))
        if v != pre: return ('bad', 'offset', 'block %d starts at item %d of the result, expected %d' % (b, v, pre))
        pre += cnts[b] if did else total
    if w[0] == 'kernel' and did and nb > 1: return None if True else None
    return None
def hook(ck, P, cp):
    """hooked a[mask]"""
    u = '_pnumpy'; f = sel(P, u, 'GetItemHook')
    if f is None: ck.undecided('hook', 'GetItemHook', 'not found'); return
    class HX(GX):
        def model(self, fk, i, ff, args):
            b = base(ff)
            if b == 'GetItemHook' and len(self.stack) <= 1: return NotImplemented
            if b == 'BooleanIndexInternal' and i is not None:
                self.ev('mask', i, args); self.ncall += 1; return Ptr(('ret', self.ncall, b)) if self.truth(Unk(('maskok',)), i) else 0
            if b == 'getitem': self.ncall += 1; return Ptr(('ret', self.ncall, b))
            if b in ('Py_TYPE',): return Ptr(('typeof', args[0].obj)) if isinstance(args[0], Ptr) else NotImplemented
            return GX.model(self, fk, i, ff, args)
    arrs = {'v': Arr('v', Unk(('ndv',)), Unk(('typv',)), V, L, ITEM, SV, 0), 'i': Arr('i', Unk(('ndi',)), Unk(('typi',)), I, N, 1, SI, 0)}
    fk = HX(cp, arrs, (), None); n = 0
    for p in fk.paths(f.name, [Ptr(('arr', 'v')), Ptr(('arr', 'i'))], unit=u, maxpaths=400):
        ms = [k for k, e in enumerate(p.events) if e[0] == 'mask']
        if not ms: continue
        e = p.events[ms[0]]
        if e[2][0] != Ptr(('arr', 'v')) or e[2][1] != Ptr(('arr', 'i')): ck.violation('hook', 'hook:args', e[1].where(), 'passes other arrays'); continue
        txt = [(c, r) for c, r, i in p.conds]
        shape = typ = isb = False
        for c, r in txt:
            s = repr(c)
            if 'ndv' in s and 'ndi' in s and r and c.why[1] == 'eq': shape = True
            if ('CompareLists' in s or 'PyArray_CompareLists' in s) and truthof(c, r): shape = shape or True
            if 'typi' in s and c.why[0] == 'cmp' and c.why[1] == 'eq' and r: isb = True
            if ("typeof" in s or "'PyArray_Type'" in s or 'sharedata_ARRAY_API' in s) and 'v' in s and c.why[0] == 'cmp' and c.why[1] == 'eq' and r: typ = True
        nd = any('ndv' in repr(c) and 'ndi' in repr(c) for c, r in txt)
        cmpl = [ev for ev in p.events[:ms[0]] if ev[0] == 'icall' and npapi.apiname(ev[2]) == 'PyArray_CompareLists'] + [ev for ev in p.events[:ms[0]] if ev[0] == 'ext' and 'CompareLists' in str(ev[2])]
        if not nd or not cmpl: ck.violation('hook', 'hook:shape', e[1].where(), 'a mask of another shape than the values is taken as a flat mask'); continue
        if not isb: ck.undecided('hook', e[1].where(), 'the type of the mask is not seen to be tested'); continue
        if not typ: ck.violation('hook', 'hook:subclass', e[1].where(), 'subclasses of arrays take the path that returns a plain array'); continue
        n += 1
    if n: ck.ok('hook', n, 'GetItemHook: exact array type, same number of dimensions and same shape')
    else: ck.undecided('hook', 'GetItemHook', 'no path to the mask selection')
def truthof(c, r): return r
