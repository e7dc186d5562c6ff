"""C19, C20: what the sort and argsort loops installed into numpy, and the package's own sort and lexsort, leave behind.

Every routine is analysed over a domain of partial orders (engine/ordx.py): the elements are opaque, a comparison that the
facts established so far do not settle splits the analysis, and all splits are enumerated, so that one analysis at a length
covers every array of that length with every pattern of ties and NaNs.  Size thresholds are analysed twice: as they are, and
relaxed, so that the partitioning and merging code is entered at lengths where the enumeration is complete."""
import os, sys, re, time
import multiprocessing as mp
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import prog, ordx, wiring, report
from ordx import Machine, Compiler, Alarm, Stuck, Budget, mkarray, Tok

# numpy type number -> (size, signed, may be NaN, half)
NT = {0: ('bool', 1, False, False), 1: ('int8', 1, True, False), 2: ('uint8', 1, False, False), 3: ('int16', 2, True, False), 4: ('uint16', 2, False, False),
      5: ('int32', 4, True, False), 6: ('uint32', 4, False, False), 7: ('int64', 8, True, False), 8: ('uint64', 8, False, False), 9: ('longlong', 8, True, False), 10: ('ulonglong', 8, False, False),
      11: ('float32', 4, None, True), 12: ('float64', 8, None, True), 13: ('longdouble', 16, None, True), 23: ('float16', 2, None, True)}
SAME = {9: 7, 10: 8}   # one integer type under two numbers: numpy's loops for them do the same
KIND = {0: 'quick', 1: 'heap', 2: 'stable'}
STABLE = (2,)

class Run:
    """one analysis: a fresh machine per splitting, `go` sets up memory, calls the code and judges the outcome"""
    def __init__(self, prg, signed, nan, small, half=False, limit=120000):
        self.mods = [prg.raw('sort'), prg.raw('_pnumpy')]
        self.S = S = Machine(signed, nan, small, limit); S.half = half
        self.C = Compiler(self.mods, S)
        models(S, self.C)
        self.paths = 0
    def all(self, go, maxpaths, t0, tmax):
        """-> None or (kind, message, where, witness)"""
        S = self.S
        while True:
            S.reset()
            try: r = go(S, self.C)
            except Alarm as e: return (e.kind, e.msg, e.loc or '', S.witness())
            except Budget: return ('end', 'the routine does not come to an end', '', S.witness())
            except (TypeError, AttributeError, KeyError, ValueError, IndexError) as e: raise Stuck('%s: %s' % (type(e).__name__, e))
            except RecursionError: return ('end', 'the recursion does not come to an end', '', S.witness())
            if r is not None: return r
            self.paths += 1
            if not S.advance(): return None
            if self.paths >= maxpaths or time.time() - t0 > tmax: raise Stuck('more than %d cases' % self.paths)

def models(S, C):
    mod = S.models
    def dmw(this, n, cb, arg, *r):
        for k in (range(n) if S.order == 0 else range(n - 1, -1, -1)): C.indirect(cb, arg, 0, k)
        return 0
    def dmcw(this, n, cb, arg, *r):
        cut = n // 2 if n >= 2 else n
        parts = [(0, cut), (cut, n - cut)]
        for s, l in parts if S.order == 0 else parts[::-1]:
            if l: C.indirect(cb, arg, 0, s, l)
        return 0
    for m in C.mods:
        for f in m.functions.values():
            d = f.dem
            if 'CMathWorker::GetWorkItem(' in d: mod[f.name] = lambda this, n: 0
            elif 'CMathWorker::DoMultiThreadedWork(' in d: mod[f.name] = dmw
            elif 'CMathWorker::DoMultiThreadedChunkWork(' in d: mod[f.name] = dmcw
            elif 'LedgerRecord' in f.name: mod[f.name] = lambda *a: 0
            elif 'npy_get_msb' in d and S.depth0: mod[f.name] = lambda n: 0
    mod['_Z13LedgerRecord2illil'] = mod['_Z12LedgerRecordillillii'] = lambda *a: 0
    S.ginit['g_cMathWorker'] = lambda b, r: S.M.__setitem__(b, S.region(1 << 12, None, True, 'the thread pool'))
    S.ginit['PyArray_RUNTIME_VERSION'] = lambda b, r: S.M.__setitem__(b, 0x12)
Machine.order = 0; Machine.depth0 = False

def perm(got, n, S=None):
    """None, or what is wrong with a list that must hold every element once.  S: elements the facts make equal are the same value"""
    def cls(x):
        if S is not None and not S.nan:
            for y in range(x):
                if S.LE[x] >> y & 1 and S.LE[y] >> x & 1: return y
        return x
    left = {}
    for x in range(n): c = cls(x); left[c] = left.get(c, 0) + 1
    for k, x in enumerate(got):
        if type(x) is not Tok: return 'position %d holds no element of the input' % k
        c = cls(x.i)
        if not left.get(c): return 'an element appears twice (position %d)' % k
        left[c] -= 1
    return 'an element is lost' if any(left.values()) else None

def ordered(S, ids, stable, start=None):
    """ids in result order; judge adjacent pairs.  -> None or (message, witness)"""
    pos = {x: k for k, x in enumerate(start)} if start else None
    for a, b in zip(ids, ids[1:]):
        if not S.settled_le(a, b):
            return ('element %d is placed before element %d, which may be smaller' % (a, b), S.witness((b, a, True)))
        before = (pos[a] < pos[b]) if pos else a < b
        if stable and not before and not S.settled_lt(a, b):
            return ('element %d is placed before element %d, which may be equal and came first' % (a, b), S.witness((b, a, False)))
    return None

def tokens(S, base, n, w, L=1):
    out = []
    for k in range(n):
        row = [S.tok() for _ in range(L)]
        for j, x in enumerate(row): S.M[base + (k * L + j) * w] = x
        out.append(row)
    return out
def cells(S, base, n, w): return [S.M.get(base + k * w, ordx.UNINIT) for k in range(n)]

# ---------------------------------------------------------------- the loops installed into numpy
def env(S, C, atop, ledger):
    b = C.glob('g_Settings'); S.M[b] = atop; S.M[b + 4] = ledger
    for lut in ('g_SortFuncLUT', 'g_ArgSortFuncLUT'):
        g = C.glob(lut); S.R[g >> 40].gen = (lambda lut: lambda off, w, loc: 'old:%s:%d' % (lut, off))(lut)

def hook_sort(run, h, n, ndim=1, atop=1, ledger=0, swapped=False, strided=False):
    w = NT[h['type']][1]
    def go(S, C):
        env(S, C, atop, ledger)
        a = S.region(n * w, w, False, 'the array'); tokens(S, a, n, w)
        st = w * (3 if strided else 1)
        arr = mkarray(S, h['type'], w, [n] * ndim, [st] * ndim, a, byteorder='>' if swapped else '=')
        punt = []
        def old(p, args):
            punt.append(p)
            if list(args) != [a, n, arr]: raise Alarm('punt', "numpy's own loop is handed other arguments than the loop was called with")
            if [getattr(x, 'i', None) for x in cells(S, a, n, w)] != list(range(n)) and not S.failed: raise Alarm('punt', "numpy's own loop is handed an array that was already rearranged")
            bad = perm(cells(S, a, n, w), n, S)
            if bad: raise Alarm('punt', "numpy's own loop is handed an array in which " + bad)
            return 0
        S.onold = old
        rc = C.fn(h['fn'], 1)(a, n, arr)
        if punt:
            if len(punt) > 1: return ('punt', "numpy's own loop is run twice", '', None)
            if punt[0] != h['old']: return ('punt', "the call is passed to another loop of numpy (%s) than the one that was replaced (%s)" % (punt[0], h['old']), '', None)
            if rc != 0: return ('rc', "the status of numpy's own loop is not passed on", '', None)
            return None
        if not atop: return ('off', "the loop sorts although the package is switched off", '', None)
        if type(rc) is not int or rc < 0: return ('rc', 'status %r is returned for an array that was sorted' % (rc,), '', S.witness())
        got = cells(S, a, n, w); bad = perm(got, n, S)
        if bad: return ('perm', bad, '', S.witness())
        r = ordered(S, [x.i for x in got], h['kind'] in STABLE and S.nan)   # equal integers are the same
        if r: return ('sorted', r[0], '', r[1])
    return go

def hook_argsort(run, h, n, ndim=1, atop=1, ledger=0):
    w = NT[h['type']][1]
    def go(S, C):
        env(S, C, atop, ledger)
        a = S.region(n * w, w, True, 'the values'); tokens(S, a, n, w)
        ix = S.region(n * 8, 8, False, 'the index')
        for k in range(n): S.M[ix + 8 * k] = k
        arr = mkarray(S, h['type'], w, [n] * ndim, [w] * ndim, a)
        punt = []
        def old(p, args):
            punt.append(p)
            if list(args) != [a, ix, n, arr]: raise Alarm('punt', "numpy's own loop is handed other arguments than the loop was called with")
            if sorted(x if type(x) is int else -1 for x in cells(S, ix, n, 8)) != list(range(n)): raise Alarm('punt', "numpy's own loop is handed a broken index")
            if h['kind'] in STABLE and cells(S, ix, n, 8) != list(range(n)): raise Alarm('punt', "numpy's own stable loop is handed an index that was already rearranged")
            return 0
        S.onold = old
        rc = C.fn(h['fn'], 1)(a, ix, n, arr)
        if punt:
            if len(punt) > 1: return ('punt', "numpy's own loop is run twice", '', None)
            if punt[0] != h['old']: return ('punt', "the call is passed to another loop of numpy (%s) than the one that was replaced (%s)" % (punt[0], h['old']), '', None)
            if rc != 0: return ('rc', "the status of numpy's own loop is not passed on", '', None)
            return None
        if not atop: return ('off', "the loop sorts although the package is switched off", '', None)
        if type(rc) is not int or rc < 0: return ('rc', 'status %r is returned for an array that was sorted' % (rc,), '', S.witness())
        return judge_index(S, cells(S, ix, n, 8), n, h['kind'] in STABLE)
    return go

def judge_index(S, ids, n, stable, start=None, key=None):
    want = sorted(start) if start else list(range(n))
    if sorted(x if type(x) is int else -1 for x in ids) != want:
        return ('perm', 'the index %s is no rearrangement of the one it started as' % (ids,), '', S.witness())
    r = ordered(S, ids, stable, start)
    if r: return ('sorted', r[0], '', r[1])

# ---------------------------------------------------------------- the package's own sort and argsort
def own_sort(atop, kind, n, w, strided, samebuf):
    def go(S, C):
        st = w * 3 if strided == 3 else -w if strided == -1 else w
        if samebuf: src = dst = S.region(n * w, w, False, 'the array'); tokens(S, src, n, w)
        else:
            base = S.region(max(1, n) * abs(st), w, True, 'the input')
            src = base if st > 0 else base + (n - 1) * w
            for k in range(n): S.M[src + k * st] = S.tok()
            dst = S.region(n * w, w, False, 'the output')
        rc = C.fn('Sort')(kind, atop, src, n, st, w, dst, w)
        if type(rc) is not int or rc < 0:
            if S.failed: return None
            return ('rc', 'status %r is returned for an array that can be sorted' % (rc,), '', S.witness())
        got = cells(S, dst, n, w); bad = perm(got, n, S)
        if bad: return ('perm', bad, '', S.witness())
        r = ordered(S, [x.i for x in got], kind in STABLE and S.nan)
        if r: return ('sorted', r[0], '', r[1])
    return go

def lex_judge(S, rows, order, stable, start=None):
    """rows[k]: the units of string k; order: string numbers in the result"""
    pos = {x: k for k, x in enumerate(start)} if start else None
    for a, b in zip(order, order[1:]):
        for u, v in zip(rows[a], rows[b]):
            u, v = u.i, v.i
            if u == v: continue
            if S.LT[u] >> v & 1: break
            if S.LE[u] >> v & 1: continue   # smaller, or equal and the rest decides
            return ('string %d is placed before string %d, which may be smaller' % (a, b), S.witness((v, u, True)))
        else:
            before = pos[a] < pos[b] if pos else a < b
            if stable and not before: return ('string %d is placed before string %d, which is equal and came first' % (a, b), S.witness())
    return None

def own_sort_str(atop, kind, n, u, L, samebuf):
    w = u * L
    def go(S, C):
        src = S.region(n * w, u, not samebuf, 'the input'); rows = tokens(S, src, n, u, L)
        dst = src if samebuf else S.region(n * w, u, False, 'the output')
        rc = C.fn('Sort')(kind, atop, src, n, w, w, dst, w)
        if type(rc) is not int or rc < 0:
            if S.failed: return None
            return ('rc', 'status %r is returned for an array that can be sorted' % (rc,), '', S.witness())
        got = cells(S, dst, n * L, u)
        # which string is at each position; equal strings are the same
        left = list(range(n)); order = []
        def same(x, y): return x == y or S.LE[x] >> y & 1 and S.LE[y] >> x & 1
        for k in range(n):
            g = got[k * L:(k + 1) * L]
            if not all(type(x) is Tok for x in g): return ('perm', 'position %d holds no string of the input' % k, '', S.witness())
            c = [q for q in left if all(same(x.i, y.i) for x, y in zip(g, rows[q]))]
            c = [q for q in c if [x.i for x in g] == [y.i for y in rows[q]]] or c
            if not c: return ('perm', 'position %d holds a string that is not one of those left' % k, '', S.witness())
            left.remove(c[0]); order.append(c[0])
        r = lex_judge(S, rows, order, False)
        if r: return ('sorted', r[0], '', r[1])
    return go

def own_argsort(bits, atop, kind, n, u, L, start, cuts, string, stable=None):
    iw = bits // 8; w = u * L
    def go(S, C):
        total = n
        a = S.region(total * w, u, True, 'the values'); rows = tokens(S, a, total, u, L)
        ix = S.region(len(start) * iw, iw, False, 'the index')
        for k, x in enumerate(start): S.M[ix + iw * k] = x
        cp = 0; nc = 0
        if cuts:
            cp = S.region(8 * len(cuts), 8, True, 'the cutoffs'); nc = len(cuts)
            for k, c in enumerate(cuts): S.M[cp + 8 * k] = c
        rc = C.fn('SortIndex%d' % bits)(cp, nc, a, len(start), ix, kind, atop, w)
        if type(rc) is not int or rc < 0:
            if S.failed: return None
            return ('rc', 'status %r is returned for an array that can be sorted' % (rc,), '', S.witness())
        ids = cells(S, ix, len(start), iw)
        lo = 0
        for c in cuts or [len(start)]:
            part = ids[lo:c]; st = start[lo:c]
            if sorted(x if type(x) is int else -1 for x in part) != sorted(st): return ('perm', 'the index %s is no rearrangement of the one it started as' % (part,), '', S.witness())
            off = lo if cuts else 0
            stb = (kind in STABLE or string or bool(cuts)) if stable is None else stable
            if string: r = lex_judge(S, [rows[off + k] if off + k < total else None for k in range(total)], part, stb, st)
            else:
                pos = {x: k for k, x in enumerate(st)}; r = ordered(S, [off + x for x in part], stb, [off + x for x in st])
            if r: return ('sorted', r[0], '', r[1])
            lo = c
    return go

# ---------------------------------------------------------------- jobs
_P = None
def hooks(prg):
    r = wiring.recover(prg); cp = r['cp']
    def tn(o):
        m = re.search(r"\('call', \d+, .*?\(0, 1, &\('alloca', \d+, 'newinit'\)\+0, (\d+),", str(o)); return int(m.group(1)) if m else None
    olds = {}
    for o, d in cp.mem.items():
        if o[0] == 'g' and o[2] in ('g_SortFuncLUT', 'g_ArgSortFuncLUT'):
            for off, v in d.items():
                if isinstance(off, int) and hasattr(v[1], 'obj') and v[1].obj[0] == 'ld':
                    m = re.search(r", (\d+)\)$", str(v[1].obj))
                    if m: olds.setdefault((SAME.get(tn(v[1].obj), tn(v[1].obj)), int(m.group(1))), []).append('old:%s:%d' % (o[2], off))
    out = []
    for h in r['dtypefns']:
        off = h.slot.off; t = tn(h.slot.obj)
        what, kind = ('sort', (off - 264) // 8) if 264 <= off < 288 else ('argsort', (off - 288) // 8) if 288 <= off < 312 else (None, None)
        if what: out.append({'what': what, 'kind': kind, 'type': t, 'fn': h.fn[2], 'olds': olds.get((SAME.get(t, t), off), []), 'where': h.where})
    return out

def jobs(prg, pid, tier):
    J = []
    deep = tier == 'thorough'
    N = 7 if deep else 6
    hs = hooks(prg)
    if pid == 'C19':
        for h in hs:
            if h['what'] != 'sort' or h['type'] not in NT: continue
            for small in (None, 2):
                for n in range(N + 1): J.append(('hsort', h, dict(n=n), dict(small=small)))
            J.append(('hsort', h, dict(n=5), dict(small=2, depth0=True)))
            J.append(('hsort', h, dict(n=4), dict(small=2, fail=True)))
            for kw in (dict(ndim=2), dict(atop=0), dict(ledger=1), dict(atop=0, ledger=1), dict(swapped=True), dict(strided=True)): J.append(('hsort', h, dict(n=3, **kw), dict(small=None)))
        for at, t in ((11, 23), (14, 13), (5, 5), (13, 12)):
            for k in KIND:
                for small in (None, 2):
                    for n in range(N + 1): J.append(('osort', (at, t, k), dict(n=n, strided=1, samebuf=True), dict(small=small)))
        for at, t in ((0, 0), (1, 1), (3, 3), (4, 4), (6, 6), (7, 7), (12, 11), (11, 23), (14, 13)):
            for st in (1, 3, -1):
                for n in (0, 1, 4): J.append(('osort', (at, t, 2 if n == 4 else 0), dict(n=n, strided=st, samebuf=False), dict(small=2)))
            J.append(('osort', (at, t, 2), dict(n=4, strided=3, samebuf=False), dict(small=2, fail=True)))
        for at, u in ((19, 1), (20, 4)):
            for k in KIND:
                for L in (1, 2, 3):
                    for small in (None, 2):
                        for n in range(0, {1: 5, 2: 4 if not deep else 5, 3: 4}[L] + 1): J.append(('ssort', (at, u, k), dict(n=n, L=L, samebuf=n % 2 == 0), dict(small=small)))
            J.append(('ssort', (at, u, 2), dict(n=4, L=2, samebuf=True), dict(small=2, fail=True)))
    else:
        for h in hs:
            if h['what'] != 'argsort' or h['type'] not in NT: continue
            for small in (None, 2):
                for n in range(N + 1): J.append(('harg', h, dict(n=n), dict(small=small)))
            J.append(('harg', h, dict(n=5), dict(small=2, depth0=True)))
            J.append(('harg', h, dict(n=4), dict(small=2, fail=True)))
            for kw in (dict(ndim=2), dict(atop=0), dict(ledger=1), dict(atop=0, ledger=1)): J.append(('harg', h, dict(n=3, **kw), dict(small=None)))
        for bits in (32, 64):
            for at, t in ((0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (6, 6), (7, 7), (8, 8), (12, 11), (13, 12), (14, 13)):
                for k in KIND:
                    for small in (None, 2):
                        for n in range(0, (7 if deep else 6) if k == 2 else 6 if deep else 5): J.append(('oarg', (bits, at, t, k), dict(n=n), dict(small=small)))
                    J.append(('oarg', (bits, at, t, k), dict(n=4), dict(small=2, fail=True)))
                for cuts in ([5], [2, 5], [0, 3, 3, 5]):
                    for order in (0, 1): J.append(('oarg', (bits, at, t, 2), dict(n=5, cuts=cuts), dict(small=2, order=order)))
                J.append(('oarg', (bits, at, t, 2), dict(n=4, cuts=[2, 4]), dict(small=2, fail=True)))
            for at, u in ((19, 1), (20, 4)):
                for k in KIND:
                    for L in (1, 2, 3):
                        for small in (None, 2):
                            for n in range(0, {1: 5, 2: 4, 3: 3}[L] + (1 if deep else 0) + 1): J.append(('sarg', (bits, at, u, k), dict(n=n, L=L), dict(small=small)))
                for cuts in ([2, 4], [0, 1, 4]): J.append(('sarg', (bits, at, u, 2), dict(n=4, L=2, cuts=cuts), dict(small=2)))
                J.append(('sarg', (bits, at, u, 2), dict(n=4, L=2), dict(small=2, fail=True)))
    return J

def shuffled(n):
    """an index that is not the identity"""
    return [(k * 2 + 1) % n if n % 2 else n - 1 - k for k in range(n)]

def one(job):
    what, x, kw, cfg = job
    t0 = time.time()
    n = kw['n']
    try:
        if what in ('hsort', 'harg'): t = x['type']; name, w, signed, nan = NT[t]; half = t == 23
        elif what == 'osort': name, w, signed, nan = NT[x[1]]; half = x[1] == 23
        elif what == 'oarg': name, w, signed, nan = NT[x[2]]; half = False
        else: name, w, signed, nan, half = 'string', 0, False, False, False
        Machine.depth0 = bool(cfg.get('depth0')); Machine.order = cfg.get('order', 0)
        run = Run(_P, signed, nan, cfg['small'], half); S = run.S; S.fail = bool(cfg.get('fail'))
        if what == 'hsort':
            h = dict(x); 
            if not h['olds']: return job, ('punt', "the loop that was replaced is not recorded", h['where'], None), 0, []
            h['old'] = h['olds'][0]; go = hook_sort(run, h, **kw)
        elif what == 'harg':
            h = dict(x)
            if not h['olds']: return job, ('punt', "the loop that was replaced is not recorded", h['where'], None), 0, []
            h['old'] = h['olds'][0]; go = hook_argsort(run, h, **kw)
        elif what == 'osort': go = own_sort(x[0], x[2], n, w, kw['strided'], kw['samebuf'])
        elif what == 'ssort': go = own_sort_str(x[0], x[2], n, x[1], kw['L'], kw['samebuf'])
        elif what == 'oarg': go = own_argsort(x[0], x[1], x[3], n, w, 1, cutstart(n, kw.get('cuts')), kw.get('cuts'), False)
        else: go = own_argsort(x[0], x[1], x[3], n, x[2], kw['L'], cutstart(n, kw.get('cuts')), kw.get('cuts'), True)
        r = run.all(go, 400000, t0, 60 if os.environ.get('VERIF_TIER') != 'thorough' else 240)
        return job, r, run.paths, sorted(f.dem or f.name for f in run.C.used)
    except Stuck as e: return job, ('stuck', str(e), '', None), 0, []
    except Exception as e:
        import traceback
        return job, ('stuck', '%s: %s' % (type(e).__name__, traceback.format_exc()[-300:]), '', None), 0, []

def cutstart(n, cuts):
    if not cuts: return shuffled(n) if n else []
    out = []; lo = 0
    for c in cuts: out += list(range(c - lo)); lo = c
    return out

def describe(job):
    what, x, kw, cfg = job
    if what in ('hsort', 'harg'): s = "numpy's %s %s of %s" % (KIND.get(x['kind'], x['kind']), 'sort' if what == 'hsort' else 'argsort', NT[x['type']][0])
    elif what == 'osort': s = "the package's %s sort of %s" % (KIND[x[2]], NT[x[1]][0])
    elif what == 'ssort': s = "the package's %s sort of %s" % (KIND[x[2]], 'bytes' if x[0] == 19 else 'str')
    elif what == 'oarg': s = "the package's %d-bit %s argsort of %s" % (x[0], KIND[x[3]], NT[x[2]][0])
    else: s = "the package's %d-bit %s argsort of %s" % (x[0], KIND[x[3]], 'bytes' if x[1] == 19 else 'str')
    ext = ['%s %s' % (k, v) for k, v in kw.items() if k != 'n'] + ['%s' % k for k, v in cfg.items() if k not in ('small', 'order') and v] + (['thresholds relaxed'] if cfg['small'] is not None else [])
    return s, 'length %d%s' % (kw['n'], ', ' + ', '.join(ext) if ext else '')

RULES = {'bounds': 'stays inside its memory', 'uninit': 'reads only what was stored', 'readonly': 'leaves its inputs alone', 'overlap': 'copies disjoint memory', 'torn': 'moves whole elements', 'width': 'moves whole elements',
         'free': 'frees once', 'order': "compares by the type's order", 'perm': 'rearranges', 'sorted': 'sorts', 'rc': 'reports its outcome', 'punt': 'defers correctly', 'off': 'defers correctly', 'end': 'ends', 'call': 'calls', 'arith': 'arithmetic', 'range': 'stays inside its memory'}

def main(pid, tier):
    global _P
    ck = report.Check(pid, tier, 'abstract interpretation over partial orders of opaque elements')
    _P = prog.Program(); _P.raw('sort'); _P.raw('_pnumpy')
    J = jobs(_P, pid, tier)
    RID = {'rearranges': '%s.1' % pid, 'sorts': '%s.2' % pid, 'memory': '%s.3' % pid, 'defers': '%s.4' % pid}
    ck.rule(pid + '.1', 'the result is a rearrangement of the input, whatever the answers of the comparisons')
    ck.rule(pid + '.2', 'the comparisons made settle that the result is in order (NaNs last; equal elements in their original order for a stable kind)')
    ck.rule(pid + '.3', 'every access is inside the array, the index or the workspace; inputs are not written; workspaces are freed once')
    ck.rule(pid + '.4', 'a call the package does not handle reaches the loop of numpy it replaced, with the arguments it was given')
    J.sort(key=lambda j: -j[2]['n'])
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool: R = pool.map(one, J, chunksize=1)
    seen = {}; fns = set(); ck.analysed['cases'] = 0
    for job, r, paths, used in R:
        s, ext = describe(job); fns.update(used); ck.analysed['cases'] += paths
        if r is None:
            for k in '1234': ck.ok(pid + '.' + k, 1, '%s, %s: %d orders' % (s, ext, paths))
            continue
        kind, msg, where, wit = r
        rid = pid + ('.1' if kind == 'perm' else '.2' if kind in ('sorted', 'order', 'end') else '.4' if kind in ('punt', 'off', 'rc') else '.3')
        if kind == 'stuck': ck.undecided(rid, s, ext + ': ' + msg); continue
        k = (s, kind)
        if k in seen: continue
        seen[k] = 1
        ck.violation(rid, '%s|%s' % (s, kind), where or s, '%s (%s): %s' % (s, ext, msg), {'length': job[2]['n'], 'values': wit} if wit is not None else {'length': job[2]['n']})
    ck.analysed['routines'] = len(fns); ck.analysed['runs'] = len(R)
    ck.note('routines analysed: ' + ', '.join(sorted(fns))[:6000])
    ck.assume("lengths up to %d (shorter for strings) with every pattern of order, ties and NaNs; longer arrays enter the same code with the thresholds as they are" % (7 if tier == 'thorough' else 6))
    ck.assume('numpy hands its sort loops contiguous native-order buffers and an index filled with 0..n-1')
    return report.finish(ck, explanation='Each routine is analysed as a whole, through every call it makes, over opaque elements; a case is one consistent set of answers to all comparisons.')

# ---------------------------------------------------------------- C21: the sort shared out to the worker threads
class Big:
    """a large array of which only the order of whole ranges is followed"""
    def __init__(self, S, n, w, name, ro=False):
        self.S = S; self.n = n; self.w = w; self.base = S.region(n * w, None, ro, name); self.sorted = set(); self.copied = []

def threaded(run, what, atop, kind, n, w, iw, samebuf, orders, strlen=0, failblock=None):
    """run Sort / SortIndex through the threaded path; orders: 'all' or a list of block orders.  Raises Alarm; -> facts about the jobs handed out"""
    S, C = run.S, run.C
    S.reset(); S.strict = False; S.shared = (); S.bulk = {}; S.oncall = None; S.onrmw = None
    item = S.region(4096, None, False, 'the work item'); S.R[item >> 40].zero = True
    S.item = item
    if what == 'sort':
        src = Big(S, n, w, 'the array' if samebuf else 'the input', not samebuf); dst = src if samebuf else Big(S, n, w, 'the output')
        unit = w
    else:
        src = Big(S, n, w, 'the values', True); dst = Big(S, n, iw, 'the index'); unit = iw
    facts = {'sorters': set(), 'mergers': set(), 'jobs': [], 'ws': None, 'blocks': None, 'taken': 0}
    st = {'i': None, 'queue': None, 'events': None, 'in': False}
    def dr(p, cnt):
        if type(p) is not int or p >> 40 != dst.base >> 40: raise Alarm('range', 'a worker sorts something else than the array it was given')
        o = p - dst.base
        if o % unit: raise Alarm('range', 'a worker sorts from the middle of an element')
        lo = o // unit
        if cnt < 0 or lo + cnt > n: raise Alarm('range', 'a worker sorts elements [%d,%d) of %d' % (lo, lo + cnt, n))
        return lo, lo + cnt
    def drop(lo, hi): dst.sorted = set((a, b) for a, b in dst.sorted if b <= lo or a >= hi)
    def isorted(lo, hi): return hi - lo <= 0 or (lo, hi) in dst.sorted
    def wsr(ws, need):
        if need == 0: return None
        if type(ws) is not int: raise Alarm('range', 'no workspace is given')
        r = S.find(ws, need * unit, 'the workspace of a worker', 'use')
        if not r.heap: raise Alarm('range', 'the workspace of a worker is not the one that was allocated')
        return (ws, ws + need * unit)
    def job(kindj, lo, hi, ws):
        if ws or True: facts['jobs'].append((kindj, lo, hi, ws))
    def call(p, a):
        if not st['in']: return NotImplemented
        if not st['i']: raise Alarm('protocol', 'a worker works without having taken a block')
        if st['done']: raise Alarm('protocol', 'a worker goes on working on a block after reporting it complete')
        f = C.lookup(p.split('|', 1)[1], int(p.split('|')[0]))
        na = len(f.args)
        if what == 'sort':
            # (data, count) / (data, count, length): sort; (data, count, size, workspace): merge
            if na in (2, 3):
                lo, hi = dr(a[0], a[1]); facts['sorters'].add((p, na))
                if not samebuf and not any(x <= lo and hi <= y for x, y in dst.copied) and hi > lo: raise Alarm('sorted', 'a worker sorts elements [%d,%d) before they were copied to the output' % (lo, hi))
                drop(lo, hi); job('sort', lo, hi, None)
                if facts['taken'] - 1 == failblock: return -1
                dst.sorted.add((lo, hi)); return 0
            lo, hi = dr(a[0], a[1]); mid = lo + ((hi - lo) >> 1); facts['mergers'].add((p, na))
            if a[2] != w: raise Alarm('width', 'a merge is told elements have %r bytes, they have %d' % (a[2], w))
            merge(lo, mid, hi, wsr(a[3], mid - lo)); return 0
        if a[0] != src.base: raise Alarm('range', 'a worker is given other values than those to sort by')
        if na == 3:
            lo, hi = dr(a[1], a[2]); facts['sorters'].add((p, na)); drop(lo, hi); job('sort', lo, hi, None)
            if facts['taken'] - 1 == failblock: return -1
            dst.sorted.add((lo, hi)); return 0
        lo, hi = dr(a[1], a[2])
        if strlen and a[3] != strlen: raise Alarm('width', 'a worker is told strings have %r bytes, they have %d' % (a[3], strlen))
        ws = wsr(a[4], (hi - lo) >> 1)
        if st['merging']:
            facts['mergers'].add((p, na)); merge(lo, lo + ((hi - lo) >> 1), hi, ws)
        else: facts['sorters'].add((p, na)); drop(lo, hi); dst.sorted.add((lo, hi)); job('sort', lo, hi, ws)
        return 0
    def merge(lo, mid, hi, ws):
        if failblock is None and not (isorted(lo, mid) and isorted(mid, hi)): raise Alarm('sorted', 'elements [%d,%d) are merged while not both halves are in order' % (lo, hi))
        drop(lo, hi); dst.sorted.add((lo, hi)); job('merge', lo, hi, ws)
    def rmw(a, old, new, loc):
        # a block announces itself at a level: what it answers for must be in order by now, in this worker
        if not st['in']: return
        r = S.R[a >> 40]
        if r.base not in S.shared: return
        if facts['failaddr'] is None and failblock is not None and not st['merging'] and facts['taken'] - 1 == failblock: facts['failaddr'] = a; return
        if a == facts['failaddr']: return
        st['merging'] = True
        bit = new & ~old
        if bit and bit & (bit - 1) == 0:
            k = bit.bit_length() - 1; lv = facts['level'].setdefault(a, len(facts['level']))
            st['ann'].append((a, k))
    def nextidx(this, wb):
        if this != item: raise Alarm('protocol', 'a block is taken from another work item')
        if st['i'] and not st['done']: raise Alarm('protocol', 'a worker takes another block before reporting the one it took complete')
        if not st['queue']: st['i'] = None; return 0
        k = st['queue'].pop(0); st['i'] = k + 1; st['done'] = False; st['merging'] = False; facts['taken'] = k + 1; st['ann'] = []
        return k + 1
    def complete(this, *core):
        if not st['i'] or st['done']: raise Alarm('protocol', 'a block is reported complete twice, or without being taken')
        st['done'] = True; return 0
    def copied(d, s, nb, loc):
        if s - src.base != d - dst.base: raise Alarm('range', 'elements are copied to another place than they came from', loc)
        dst.copied.append(((d - dst.base) // unit, (d - dst.base + nb) // unit)); lo, hi = dst.copied[-1]; drop(lo, hi)
    facts['level'] = {}; facts['failaddr'] = None
    def workmain(this, it, cnt, wake, bs, *r):
        if it != item: raise Alarm('protocol', 'another work item is published')
        if bs != 1: raise Stuck('blocks of %r' % bs)
        if cnt > 16 or cnt < 1: raise Alarm('protocol', '%d blocks are published' % cnt)
        cbs = [v for a, v in S.M.items() if type(v) is str and a >> 40 == item >> 40]
        if len(cbs) != 1: raise Alarm('protocol', 'no callback is published')
        facts['blocks'] = cnt
        cb = cbs[0]
        S.shared = tuple(r.base for r in S.R.values() if r.name == 'local' or r.base == item); S.strict = True; S.oncall = call; S.onrmw = rmw; st['in'] = True
        k, nm = cb.split('|', 1); f = C.fn(nm, int(k))
        def step(blocks):
            st['queue'] = list(blocks); st['i'] = None; st['done'] = True
            S.shared = S.shared
            f(item, 0, 0)
            if st['queue']: raise Alarm('protocol', 'a worker stops while there are blocks left')
            if st['i'] and not st['done']: raise Alarm('protocol', 'a block is never reported complete')
        def snap(): return (dict(S.M), frozenset(dst.sorted), list(dst.copied), set(S.R))
        def back(sn):
            S.M = dict(sn[0]); dst.sorted = set(sn[1]); dst.copied = list(sn[2])
        def lev(): return tuple(sorted((a, v) for a, v in S.M.items() if a >> 40 == 0 or (a >> 40) << 40 in S.shared and type(v) is int))
        if orders == 'all':
            states = {0: snap()}; final = None
            for mask in range(1 << cnt):
                if mask not in states: continue
                sn = states[mask]
                for b in range(cnt):
                    if mask >> b & 1: continue
                    back(sn); step([b]); m2 = mask | 1 << b; s2 = snap()
                    facts['steps'] = facts.get('steps', 0) + 1
                    if m2 in states:
                        if states[m2][1] != s2[1]: raise Alarm('sorted', 'what is in order after the blocks %s depends on who finished first: %s' % ([x for x in range(cnt) if m2 >> x & 1], sorted(states[m2][1] ^ s2[1])))
                    else: states[m2] = s2
                if mask != (1 << cnt) - 1: states[mask] = None
            back(states[(1 << cnt) - 1])
        else:
            for o in orders[cnt] if isinstance(orders, dict) else orders: pass
            start = snap()
            for o in orders:
                back(start); blk = [b for b in o if b < cnt]
                if len(blk) != cnt: raise Stuck('%d blocks' % cnt)
                for b in blk: step([b])
                facts['steps'] = facts.get('steps', 0) + cnt
                if not isorted(0, n) and failblock is None: raise Alarm('sorted', 'when the blocks are done in the order %s, the array as a whole is never put in order' % (blk,))
            back(start); step(list(range(cnt)))   # one worker does it all
        st['in'] = False; S.shared = (); S.oncall = None
        return 1
    getitem = lambda this, cnt: item
    S.bulk = {dst.base: copied}
    for m in C.mods:
        for f in m.functions.values():
            d = f.dem
            if 'CMathWorker::GetWorkItem(' in d: S.models[f.name] = getitem
            elif 'stMATH_WORKER_ITEM::GetNextWorkIndex(' in d: S.models[f.name] = nextidx
            elif 'stMATH_WORKER_ITEM::CompleteWorkBlock(' in d: S.models[f.name] = complete
            elif 'CMathWorker::WorkMain(' in d: S.models[f.name] = workmain
    C.F.clear()
    if what == 'sort': rc = C.fn('Sort')(kind, atop, src.base, n, w, w, dst.base, w)
    else: rc = C.fn('SortIndex%d' % (8 * iw))(0, 0, src.base, n, dst.base, kind, atop, strlen)
    if facts['blocks'] is None: raise Alarm('protocol', 'the work item is taken, but no blocks are published')
    for r in S.R.values():
        if r.heap and not r.freed: raise Alarm('free', 'the workspace is not released')
    if failblock is not None:
        if type(rc) is not int or rc >= 0: raise Alarm('rc', 'status %r is returned although a block could not be sorted (out of memory)' % (rc,))
        return facts
    if type(rc) is not int or rc < 0: raise Alarm('rc', 'status %r is returned for an array that was sorted' % (rc,))
    if not isorted(0, n): raise Alarm('sorted', 'the array as a whole is never put in order; in order are %s' % sorted(dst.sorted)[:9])
    # workspaces of jobs that can run at the same time
    js = sorted(set(facts['jobs']), key=str)
    for x in range(len(js)):
        for y in range(x):
            a, b = js[x], js[y]
            if a[3] and b[3] and (a[2] <= b[1] or b[2] <= a[1]) and a[3][0] < b[3][1] and b[3][0] < a[3][1]:
                raise Alarm('workspace', 'the %s of elements [%d,%d) and the %s of elements [%d,%d) can run at the same time and use the same workspace' % (a[:3] + b[:3]))
    blocks = sorted((a[1], a[2]) for a in js if a[0] == 'sort')
    if not blocks or blocks[0][0] != 0 or blocks[-1][1] != n or any(p[1] != q[0] for p, q in zip(blocks, blocks[1:])):
        raise Alarm('cover', 'the blocks %s do not divide the array' % blocks)
    return facts

def merge_job(run, p, na, what, n, u, L, iw, t):
    """the code of a merge or block sort handed to the workers: two halves in order, split in the middle -> the whole in order"""
    S, C = run.S, run.C
    k, name = p.split('|', 1); k = int(k)
    w = u * L
    def go(S, C):
        merging = run.merging; half = n >> 1
        ws = S.region(half * (iw or w), None, False, 'the workspace')
        def ascending(ids):
            for x, y in zip(ids, ids[1:]):
                if L == 1:
                    if S.nan:
                        nx, ny = S.isnan(x[0].i), S.isnan(y[0].i)
                        if nx and not ny: return False
                        if not nx and not ny: S.assume(x[0].i, y[0].i, False)
                    else: S.assume(x[0].i, y[0].i, False)
                else:
                    # x <= y as strings: the first unit that differs is smaller
                    for q in range(L):
                        c = S.choose(2)
                        if c == 0 and q < L - 1: S.assume(x[q].i, y[q].i, False); S.assume(y[q].i, x[q].i, False); continue
                        S.assume(x[q].i, y[q].i, c == 1); break
            # contradictory choices are not a case
            return not any(S.LT[z] >> z & 1 for z in range(len(S.LT)))
        if what == 'sort':
            a = S.region(n * w, u, False, 'the range'); rows = tokens(S, a, n, u, L)
            if merging and not (ascending(rows[:half]) and ascending(rows[half:])): return None
            if na == 2: rc = C.fn(name, k)(a, n)
            elif na == 3: rc = C.fn(name, k)(a, n, w)
            else: rc = C.fn(name, k)(a, n, w, ws)
            got = cells(S, a, n, u); bad = perm(got, n, S)
            if bad: return ('perm', bad, '', S.witness())
            r = ordered(S, [x.i for x in got], False)
        else:
            a = S.region(n * w, u, True, 'the values'); rows = tokens(S, a, n, u, L)
            start = list(range(n)) if not merging else [(q * 2 + 1) % n if n % 2 else n - 1 - q for q in range(n)] if n else []
            pos = {x: q for q, x in enumerate(start)}
            ix = S.region(n * iw, iw, False, 'the index')
            for q, x in enumerate(start): S.M[ix + q * iw] = x
            if merging and not (ascending([rows[x] for x in start[:half]]) and ascending([rows[x] for x in start[half:]])): return None
            rc = C.fn(name, k)(a, ix, n) if na == 3 else C.fn(name, k)(a, ix, n, w if L > 1 or t == 'str' else 0, ws)
            ids = cells(S, ix, n, iw)
            if sorted(x if type(x) is int else -1 for x in ids) != sorted(start): return ('perm', 'the index %s is no rearrangement of the one it started as' % (ids,), '', S.witness())
            if t == 'str': r = lex_judge(S, rows, ids, run.stable, start)
            else: r = ordered(S, ids, run.stable, start)
        if r: return ('sorted', r[0], '', r[1])
    return go

ASC = [list(range(16)), list(range(15, -1, -1)), [x ^ 1 for x in range(16)], [7, 0, 6, 1, 5, 2, 4, 3, 8, 9, 10, 11, 12, 13, 14, 15], [4, 5, 6, 7, 0, 1, 2, 3, 8, 9, 10, 11, 12, 13, 14, 15], [0, 2, 4, 6, 1, 3, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15]]
SIZES21 = list(range(65536, 65553)) + [70000, 100003, 131071, 131073, 1000000, (1 << 20) + 7, 16777213]

def one21(job):
    what, x, kw = job
    t0 = time.time()
    try:
        if what == 'thr':
            run = Run(_P, None, False, None, False, limit=10 ** 7)
            try: f = threaded(run, *x, **kw)
            except Alarm as e: return job, (e.kind, e.msg, e.loc or '', None), 0, []
            except Budget: return job, ('end', 'the work does not come to an end', '', None), 0, []
            return job, None, f.get('steps', 1), (sorted(f['sorters']), sorted(f['mergers']))
        p, na, wh, n, u, L, iw, t, merging, stable, small = x
        name, w, signed, nan = NT[t] if t != 'str' else ('string', 0, False, False)
        run = Run(_P, signed, nan, small, t == 23); run.merging = merging; run.stable = stable
        r = run.all(merge_job(run, p, na, wh, n, u, L, iw, t), 400000, t0, 120)
        return job, r, run.paths, sorted(f.dem or f.name for f in run.C.used)
    except Stuck as e: return job, ('stuck', str(e), '', None), 0, []
    except Exception as e:
        import traceback
        return job, ('stuck', '%s: %s' % (type(e).__name__, traceback.format_exc()[-300:]), '', None), 0, []

ATOPS = ((0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (6, 6), (7, 7), (8, 8), (12, 11), (13, 12), (14, 13))
def c21(pid, tier):
    global _P
    ck = report.Check(pid, tier, 'abstract interpretation over partial orders, and over the order of whole ranges for the work shared between threads')
    ck.rule('blocks', 'the blocks handed to the workers divide the array; nothing is merged before both halves are in order, whatever the order in which blocks finish')
    ck.rule('final', 'once every block is reported complete, the whole array is in order')
    ck.rule('memory', 'jobs that can run at the same time use separate workspace; workers change shared words by atomic operations only; the workspace is released')
    ck.rule('jobs', 'each block sort and merge routine handed to the workers does what the plan needs of it')
    ck.rule('status', 'a block that cannot be sorted makes the whole sort report failure')
    _P = prog.Program(); _P.raw('sort'); _P.raw('_pnumpy')
    J = []
    for at, t in ATOPS + ((11, 23),):
        w = NT[t][1]
        for k in KIND: J.append(('thr', ('sort', at, k, 65543, w, 0, True, 'all' if t in (5, 12) and k == 0 or tier == 'thorough' else ASC), {}))
    for w_at, w in ((1, 1), (3, 2), (5, 4), (12, 4), (13, 8), (14, 16)):
        for n in SIZES21:
            J.append(('thr', ('sort', w_at, 0, n, w, 0, True, ASC[:4]), {}))
        J.append(('thr', ('sort', w_at, 2, 65549, w, 0, False, ASC), {}))
        for fb in (0, 5): J.append(('thr', ('sort', w_at, 2, 65549, w, 0, True, ASC[:1]), dict(failblock=fb)))
    for iw in (4, 8):
        for at, t in ATOPS:
            for k in KIND: J.append(('thr', ('argsort', at, k, 65543, NT[t][1], iw, True, 'all' if t in (5, 12) and k != 1 or tier == 'thorough' else ASC), {}))
        for at, sl in ((19, 1), (19, 7), (20, 4), (20, 12)): J.append(('thr', ('argsort', at, 2, 65543, sl, iw, True, ASC), dict(strlen=sl)))
        for n in SIZES21:
            for k in (0, 2): J.append(('thr', ('argsort', 5, k, n, 4, iw, True, ASC[:4]), {}))
        J.append(('thr', ('argsort', 5, 0, 65549, 4, iw, True, ASC[:1]), dict(failblock=3)))
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool: R = pool.map(one21, J, chunksize=1)
    M = {}; seen = set(); ck.analysed['block steps'] = 0; ck.analysed['plans'] = len(R)
    for job, r, steps, use in R:
        what, x, kw = job
        nm = next((NT[t][0] for a, t in ATOPS + ((11, 23),) if a == x[1]), 'bytes' if x[1] == 19 else 'str')
        s = "the threaded %s %s of %s%s" % (KIND[x[2]], x[0], nm, ' with a %d-bit index' % (8 * x[5]) if x[5] else '')
        ext = 'length %d%s' % (x[3], ', a block fails' if 'failblock' in kw else '')
        ck.analysed['block steps'] += steps
        if r is None:
            if 'failblock' in kw: ck.ok('status', 1, s + ', ' + ext)
            else:
                for q in ('blocks', 'final', 'memory'): ck.ok(q, steps if q == 'blocks' else 1, '%s, %s: %d steps' % (s, ext, steps))
            for lst, merging in ((use[0], False), (use[1], True)):
                for p, na in lst:
                    t = 'str' if x[1] in (19, 20) else next(t for a, t in ATOPS + ((11, 23),) if a == x[1])
                    u = 1 if x[1] == 19 else 4 if x[1] == 20 else NT[t][1]
                    M.setdefault((p, na, x[0], u, x[5], t, merging), set()).add(x[2])
            continue
        kind, msg, where, _ = r
        if kind == 'stuck': ck.undecided('blocks', s, ext + ': ' + msg); continue
        rid = {'rc': 'status', 'workspace': 'memory', 'race': 'memory', 'free': 'memory', 'bounds': 'memory', 'uninit': 'memory', 'readonly': 'memory'}.get(kind, 'blocks')
        key = '%s|%s' % (s, kind)
        if key in seen: continue
        seen.add(key); ck.violation(rid, key, where or s, '%s (%s): %s' % (s, ext, msg), {'length': x[3]})
    JM = []
    top = 8 if tier == 'thorough' else 7
    for (p, na, wh, u, iw, t, merging), kinds in sorted(M.items(), key=str):
        stable = t == 'str' or kinds == {2} or merging and wh == 'argsort'
        Ls = (1, 2) if t == 'str' else (1,)
        for L in Ls:
            for n in range(2, (top if L == 1 else 5) + 1 if merging else 6 if L == 1 else 5):
                for small in ((None,) if merging else (None, 2)): JM.append(('job', (p, na, wh, n, u, L, iw, t, merging, stable, small), {}))
    JM.sort(key=lambda j: -j[1][3])
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool: R = pool.map(one21, JM, chunksize=1)
    fns = set(); ck.analysed['cases'] = 0
    for job, r, paths, use in R:
        p, na, wh, n, u, L, iw, t, merging, stable, small = job[1]
        f = _P.raw('sort').functions.get(p.split('|', 1)[1]); s = (f.dem if f is not None else p).split('(')[0].split(' ', 1)[-1]
        ck.analysed['cases'] += paths
        if r is None: fns.update(use); ck.ok('jobs', 1, '%s, %d elements: %d orders' % (s, n, paths)); continue
        kind, msg, where, wit = r
        if kind == 'stuck': ck.undecided('jobs', s, 'length %d: %s' % (n, msg)); continue
        key = '%s|%s' % (s, kind)
        if key in seen: continue
        seen.add(key); ck.violation('jobs', key, where or s, '%s (length %d): %s' % (s, n, msg), {'length': n, 'values': wit})
    ck.analysed['routines'] = len(fns); ck.note('routines analysed: ' + ', '.join(sorted(fns))[:6000])
    ck.assume('the pool hands out each block index once and returns to the caller when all are reported complete (decided by C14 and C15)')
    ck.assume('a block done as one step stands for all interleavings: blocks share nothing but the announced words, changed atomically after the work they announce')
    return report.finish(ck, explanation='The plan of the threaded sort is followed with exact sizes and addresses and with the order of whole ranges as the only fact about the data, over every order in which the eight blocks can finish; the routines it runs on the ranges are analysed over opaque elements.')
