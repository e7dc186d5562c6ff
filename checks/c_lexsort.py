"""C26: the sort entry points lexsort32, lexsort64 and sort, as Python calls them.

The functions run in the abstract machine of ordx over opaque ordered elements and modelled Python objects (pyrt): every kind of
argument they can be given is enumerated, every answer of every comparison is enumerated, and the result, the pending exception,
the arguments and the reference counts are judged against what the call means."""
import os, sys, time, itertools
import multiprocessing as mp
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import prog, ordx, report, pyrt
import c_sort
from ordx import Machine, Compiler, Alarm, Stuck, Budget
from c_sort import NT, cells, perm, ordered

UNITS = ('sorting', 'common', 'sort', '_pnumpy', 'recycler')
STR = {18: ('bytes', 1), 19: ('str', 4)}

class Run(c_sort.Run):
    def __init__(self, prg, signed, nan, small, half=False, limit=200000):
        self.mods = [prg.raw(u) for u in UNITS]
        self.S = S = Machine(signed, nan, small, limit); S.half = half; S.mixed = True
        self.C = Compiler(self.mods, S)
        c_sort.models(S, self.C); self.C.relax = set(prg.raw('sort').functions.values())
        self.rt = pyrt.RT(S, self.C); self.paths = 0

# ---------------------------------------------------------------- one call
class Key:
    """one key or array: n items of numpy type t (L units each for strings)"""
    def __init__(self, n, t, L=1, **k): self.n = n; self.t = t; self.L = L; self.opt = k
    def make(self, rt):
        S = rt.S; o = self.opt; str_ = self.t in STR
        u = STR[self.t][1] if str_ else NT[self.t][1] if self.t in NT else pyrt.ITEM[self.t]
        w = u * (self.L if str_ else 1); self.u = u; self.w = w
        dims = o.get('dims', [self.n]); step = o.get('step', 1)
        st = None
        if len(dims) == 1 and step != 1: st = [step * w]
        elif 'strides' in o: st = [x * w for x in o['strides']]
        size = max(1, self.n * abs(step) * w)
        if 'cells' in o: size = o['cells'] * w
        reg = S.region(size, u if self.n else None, True, 'the data of a key')
        base = reg if step > 0 else reg + (self.n - 1) * -step * w
        self.rows = []
        idx = [base]
        for d, s in zip(dims, st or self.cstrides(dims, w)): idx = [a + k * s for a in idx for k in range(d)]
        self.addr = idx
        for a in idx:
            row = [S.tok() for _ in range(w // u)]
            for j, x in enumerate(row): S.M[a + j * u] = x
            self.rows.append(row)
        self.data = base; self.reg = reg
        self.obj = rt.array(self.t, dims, st, w, byteorder=o.get('byteorder', '='), data=base)
        return self.obj
    @staticmethod
    def cstrides(dims, w):
        out = []; s = w
        for d in reversed(dims): out.insert(0, s); s *= d
        return out

def index_array(rt, vals, t, step=1, flags=None, ndim=1, ro=False):
    S = rt.S; w = pyrt.ITEM[t]
    reg = S.region(max(1, len(vals) * w * step), None, ro, 'an index or cutoffs the caller gave')
    for k, v in enumerate(vals): S.M[reg + k * w * step] = v
    dims = [len(vals)] if ndim == 1 else [1, len(vals)]
    return rt.array(t, dims, [step * w] if step != 1 else None, w, data=reg, ro=ro), reg

def rows_order(S, rows, a, b):
    """whether record a is settled not to be after record b; rows: most significant first -> 'lt', 'eq', or None"""
    for x, y in zip(rows[a], rows[b]):
        u, v = x.i, y.i
        if S.nan:
            if S.NAN[v] and S.NAN[u]: continue
            if S.NAN[v] and S.NAN[u] is False: return 'lt', None
            if S.NAN[u] and S.NAN[v] is False: return None, (v, u, True)
            if S.NAN[v]: continue                       # u unknown: not after v, may be tied
            if S.NAN[u] is not False or S.NAN[v] is None: return None, (v, u, True)
        if u == v: continue
        if S.LT[u] >> v & 1: return 'lt', None
        if S.LE[u] >> v & 1: continue
        return None, (v, u, True)
    return 'eq', None

def lex_call(run, sc):
    rt = run.rt
    def go(S, C):
        rt.reset(); S.fail = bool(sc.get('fail')); rt.faults = bool(sc.get('faults'))
        keys = [Key(*k[:3], **(k[3] if len(k) > 3 else {})) for k in sc['keys']]
        objs = [k.make(rt) for k in keys]
        extra = []
        def thing(x):
            if x == 'none': b = rt.none()
            elif x == 'int': b = rt.int(7); extra.append(b)
            elif x == 'emptylist': b = rt.list([]); extra.append(b)
            return b
        c = sc.get('how', 'list')
        if c == 'list':
            l = rt.list(objs); extra.append(l); items = [l]
        elif c == 'args': items = objs
        elif c == 'list+': l = rt.list(objs); extra.append(l); items = [l, thing('int')]
        elif c == 'nolist+': items = objs + [thing('int')]
        elif c == 'tuple':
            l = rt.tuple(objs); extra.append(l); items = [l]
        elif c == 'listnone': l = rt.list(objs + [rt.none()]); extra.append(l); items = [l]
        elif c == 'listint': l = rt.list(objs + [thing('int')]); items = [l]; extra.append(l)
        else: items = [thing(x) for x in c.split(',') if x]
        for b in objs: rt.obj[b].held = 1
        # references: the containers own one of each of their items, the caller another one of every key
        args = rt.tuple(items)
        kw = {}; cut = idx = 0
        if 'cut' in sc:
            v = sc['cut']
            if v == 'none': b = rt.none()
            elif v == 'int': b = rt.int(3)
            else: b, cut = index_array(rt, v, sc.get('cutt', 7), sc.get('cutstep', 1), ndim=sc.get('cutdim', 1), ro=True)
            kw['cutoffs'] = b
        if 'index' in sc:
            v = sc['index']
            if v == 'none': b = rt.none()
            elif v == 'int': b = rt.int(3)
            else: b, idx = index_array(rt, v, sc['indext'], sc.get('indexstep', 1), ndim=sc.get('indexdim', 1), ro=sc.get('indexro', False))
            kw['index'] = b
        if 'kind' in sc: kw['kind'] = rt.none() if sc['kind'] is None else rt.str(sc['kind'])
        if 'axis' in sc: kw['axis'] = rt.int(sc['axis'])
        kwargs = rt.dict(kw) if kw or sc.get('emptykw') else 0
        settle(rt, [args] + ([kwargs] if kwargs else []), objs)
        res = C.fn(sc['fn'])(0, args, kwargs)
        return judge(S, rt, sc, keys, res, idx)
    return go

def settle(rt, roots, held):
    """every object made so far has the references it is really given"""
    S = rt.S; want = {}
    for b in roots: rt.obj[b].held = getattr(rt.obj[b], 'held', 0) + 1
    for b, o in rt.obj.items():
        if o.immortal: continue
        want[b] = want.get(b, 0) + getattr(o, 'held', 0)
        for x in rt.children(b): want[x] = want.get(x, 0) + 1
    for b, n in want.items():
        o = rt.obj[b]
        if not o.immortal: S.M[b] = n

def outcome(S, rt, sc, res):
    """the part of the judgement that every entry point shares: -> ('done', verdict) or None to look at the result"""
    failed = S.failed or rt.fault
    if type(res) is not int: return 'done', ('rc', 'the result is %r' % (res,), '', None)
    if res == 0:
        if rt.err is None: return 'done', ('rc', 'NULL is returned without an exception' + (' after %s failed' % (rt.fault or 'an allocation') if failed else ''), '', None)
        w = rt.audit(0)
        if w: return 'done', ('ref', w + (' when %s fails' % (rt.fault or 'an allocation') if failed else ' when the call is refused'), '', None)
        if sc['want'] == 'ok' and not failed: return 'done', ('rc', 'the call is refused: %s %s' % rt.err, '', None)
        if sc['want'] == 'ok' and failed and rt.err[0] not in ('MemoryError', 'ValueError', 'RuntimeError', 'TypeError', 'AttributeError', 'ImportError'): return 'done', ('rc', 'a failure is reported as %s' % rt.err[0], '', None)
        return 'done', None
    if rt.err is not None: return 'done', ('rc', 'a result is returned with the exception %s %s pending' % rt.err, '', None)
    if sc['want'] == 'error': return 'done', ('rc', 'the call succeeds although it cannot mean anything', '', None)
    w = rt.audit(res)
    if w: return 'done', ('ref', w, '', None)
    if rt.obj_of(res).kind != 'ndarray': return 'done', ('rc', 'the result is a %s' % rt.obj_of(res).kind, '', None)
    return None

def judge(S, rt, sc, keys, res, idx):
    r = outcome(S, rt, sc, res)
    if r: return r[1]
    o = rt.obj_of(res); n = keys[0].n; iw = 4 if sc['fn'] == 'lexsort32' else 8
    for k in keys:
        for a, row in zip(k.addr, k.rows):
            for j, x in enumerate(row):
                if S.M.get(a + j * k.u) is not x: return ('readonly', 'a key is changed', '', S.witness())
    start = sc.get('index') if type(sc.get('index')) is list else None
    if start is not None:
        if o.data != idx: return ('rc', 'the result is not the index that was given', '', None)
    if o.w != iw or o.t not in ((5,) if iw == 4 else (7, 9)): return ('rc', 'the index has the type %d with items of %d bytes' % (o.t, o.w), '', None)
    cuts = sc.get('cut') if type(sc.get('cut')) is list else None
    m = len(start) if start is not None else n
    if o.dims != [m]: return ('rc', 'the index has the shape %s instead of (%d,)' % (o.dims, m), '', None)
    ids = cells(S, o.data, m, iw)
    rows = [[x for k in reversed(keys) for x in k.rows[p]] for p in range(n)]
    stable = sc.get('kind') not in ('quicksort', 'heapsort') or all(k.t in STR for k in keys) or bool(cuts)
    last = len(keys[-1].rows[0]) if n else 0
    lo = 0
    for c in cuts or [m]:
        part = ids[lo:c]; off = lo if cuts else 0
        st = start if start is not None else list(range(c - lo))
        if sorted(x if type(x) is int else -1 for x in part) != sorted(st): return ('perm', 'the index %s is no rearrangement of the one it starts from' % (part,), '', S.witness())
        if not stable: rws = [x[:last] for x in rows]
        else: rws = rows
        pos = {x: j for j, x in enumerate(st)}
        for a, b in zip(part, part[1:]):
            how, wit = rows_order(S, rws, off + a, off + b)
            if how is None: return ('sorted', 'record %d is placed before record %d, which may be smaller' % (off + a, off + b), '', S.witness(wit))
            if how == 'eq' and stable and pos[a] > pos[b]: return ('sorted', 'record %d is placed before record %d, which may be equal and came first' % (off + a, off + b), '', S.witness())
        lo = c
    return None

def sort_call(run, sc):
    rt = run.rt
    def go(S, C):
        rt.reset(); S.fail = bool(sc.get('fail')); rt.faults = bool(sc.get('faults'))
        keys = [Key(*k[:3], **(k[3] if len(k) > 3 else {})) for k in sc['keys']]
        objs = [k.make(rt) for k in keys]
        for b in objs: rt.obj[b].held = 1
        items = objs if sc.get('how') != 'int' else [rt.int(3)]
        args = rt.tuple(items)
        kwargs = rt.dict({'kind': rt.none() if sc['kind'] is None else rt.str(sc['kind'])}) if 'kind' in sc else 0
        settle(rt, [args] + ([kwargs] if kwargs else []), objs)
        res = C.fn('sort')(0, args, kwargs)
        r = outcome(S, rt, sc, res)
        if r: return r[1]
        k = keys[0]; o = rt.obj_of(res)
        for a, row in zip(k.addr, k.rows):
            for j, x in enumerate(row):
                if S.M.get(a + j * k.u) is not x: return ('readonly', 'the array is changed', '', S.witness())
        if o.t != k.t or o.w != k.w: return ('rc', 'the result has another type', '', None)
        if o.dims != sc.get('shape', [k.n]): return ('rc', 'the result has the shape %s' % (o.dims,), '', None)
        n = k.n; L = len(k.rows[0]) if n else 1
        got = cells(S, o.data, n * L, k.u)
        if L == 1:
            bad = perm(got, n, S)
            if bad: return ('perm', bad, '', S.witness())
            r = ordered(S, [x.i for x in got], False)
            return ('sorted', r[0], '', r[1]) if r else None
        left = list(range(n)); order = []
        rows = k.rows
        def same(a, b): return a == b or (S.LE[a] >> b & 1 and S.LE[b] >> a & 1)
        for q in range(n):
            g = got[q * L:(q + 1) * L]
            if any(type(x) is not ordx.Tok for x in g): return ('perm', 'item %d of the result is no item of the array' % q, '', S.witness())
            c = [p for p in left if all(same(x.i, y.i) for x, y in zip(g, rows[p]))]
            c = [p for p in c if [x.i for x in g] == [y.i for y in rows[p]]] or c
            if not c: return ('perm', 'item %d of the result is not one of those left' % q, '', S.witness())
            left.remove(c[0]); order.append(c[0])
        for a, b in zip(order, order[1:]):
            how, wit = rows_order(S, rows, a, b)
            if how is None: return ('sorted', 'item %d is placed before item %d, which may be smaller' % (a, b), '', S.witness(wit))
        return None
    return go

# ---------------------------------------------------------------- the calls that are enumerated
def scenarios(tier):
    out = []
    def add(name, fn, keys, want='ok', **k):
        for f in ([fn] if fn != 'lex' else ['lexsort32', 'lexsort64']): out.append(dict(k, name=name, fn=f, keys=keys, want=want))
    I, D, U1, L8 = 5, 12, 2, 7
    N = 4 if tier != 'thorough' else 5
    # what is sorted by
    for n in range(0, N + 1): add('one key of %d items' % n, 'lex', [(n, I, 1)])
    for n in (1, 2, 3): add('two keys of %d items' % n, 'lex', [(n, I, 1), (n, I, 1)])
    add('three keys', 'lex', [(2, I, 1)] * 3)
    add('keys as arguments', 'lex', [(3, I, 1), (3, I, 1)], how='args')
    add('a key as the argument', 'lex', [(3, I, 1)], how='args')
    for t in (0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12): add('one key of %s' % NT[t][0], 'lex', [(3, t, 1)])
    add('two keys of float64', 'lex', [(2, D, 1), (2, D, 1)])
    add('keys of different widths', 'lex', [(2, I, 1), (2, L8, 1)])
    for t in STR:
        add('one key of %s' % STR[t][0], 'lex', [(3, t, 2)])
        add('two keys of %s' % STR[t][0], 'lex', [(2, t, 2), (2, t, 1)])
    for s in (2, -1): add('a key with step %d' % s, 'lex', [(3, I, 1, dict(step=s)), (3, I, 1)])
    # kinds, cutoffs, index
    for kd in ('quicksort', 'heapsort', 'mergesort', 'stable', None): add('kind %s' % kd, 'lex', [(3, I, 1)], kind=kd)
    add('kind heapsort, two keys', 'lex', [(3, I, 1), (3, I, 1)], kind='heapsort')
    for c in ([2, 4], [0, 1, 4], [4], [1, 1, 4, 4]): add('cutoffs %s' % c, 'lex', [(4, I, 1)], cut=c)
    add('cutoffs and two keys', 'lex', [(4, I, 1), (4, I, 1)], cut=[2, 4])
    add('no cutoffs', 'lex', [(3, I, 1)], cut='none')
    for fn, t in (('lexsort32', 5), ('lexsort64', 7)):
        for ix in ([2, 0, 1], [3, 1], [0], []): add('index %s' % ix, fn, [(4, I, 1)], index=ix, indext=t)
        add('index of numpy type longlong', 'lexsort64', [(3, I, 1)], index=[2, 0, 1], indext=9)
        add('index and kind heapsort', fn, [(3, I, 1)], index=[2, 0, 1], indext=t, kind='heapsort')
        add('index and two keys', fn, [(3, I, 1), (3, I, 1)], index=[2, 1], indext=t)
        add('no index', fn, [(3, I, 1)], index='none')
        # refused
        for ix in ([0, 4], [-1, 0], [0, 1, 2, 3, 3], [5]): add('index %s' % ix, fn, [(4, I, 1)], 'error', index=ix, indext=t)
        add('index of the other width', fn, [(3, I, 1)], 'error', index=[0, 1, 2], indext=12 - t)
        add('index of uint8', fn, [(3, I, 1)], 'error', index=[0, 1, 2], indext=2)
        add('index that is a number', fn, [(3, I, 1)], 'error', index='int', indext=t)
        add('index with a step', fn, [(3, I, 1)], 'error', index=[2, 0, 1], indext=t, indexstep=2)
        add('index that is readonly', fn, [(3, I, 1)], 'error', index=[2, 0, 1], indext=t, indexro=True)
        add('index and cutoffs', fn, [(4, I, 1)], 'error', index=[2, 0, 1, 3], indext=t, cut=[2, 4])
    for c in ([2, 3], [4, 2], [5], [], [-1, 4], [2, 1, 4], [1, 5, 4]): add('cutoffs %s' % c, 'lex', [(4, I, 1)], 'error', cut=c)
    add('cutoffs of int32', 'lex', [(4, I, 1)], 'error', cut=[2, 4], cutt=5)
    add('cutoffs with a step', 'lex', [(4, I, 1)], 'error', cut=[2, 4], cutstep=2)
    add('cutoffs of two dimensions', 'lex', [(4, I, 1)], 'error', cut=[2, 4], cutdim=2)
    add('cutoffs that are a number', 'lex', [(4, I, 1)], 'error', cut='int')
    add('an axis', 'lex', [(3, I, 1)], 'error', axis=0)
    add('something after the list', 'lex', [(3, I, 1)], 'error', how='list+')
    add('a number after the keys', 'lex', [(3, I, 1)], 'error', how='nolist+')
    add('keys in a tuple', 'lex', [(3, I, 1)], 'error', how='tuple')
    for h in ('', 'none', 'int', 'emptylist'): add('arguments (%s)' % h, 'lex', [], 'error', how=h)
    add('None among the keys', 'lex', [(3, I, 1)], 'error', how='listnone')
    add('a number among the keys', 'lex', [(3, I, 1)], 'error', how='listint')
    add('keys of different lengths', 'lex', [(2, I, 1), (3, I, 1)], 'error')
    add('keys of different lengths', 'lex', [(3, I, 1), (2, I, 1)], 'error')
    add('a key of two dimensions', 'lex', [(4, I, 1, dict(dims=[2, 2]))], 'error')
    add('a key without dimensions', 'lex', [(1, I, 1, dict(dims=[]))], 'error')
    add('a byte-swapped key', 'lex', [(2, I, 1), (2, I, 1, dict(byteorder='>'))], 'error')
    add('a byte-swapped string', 'lex', [(2, 19, 1, dict(byteorder='>'))], 'error')
    for t in (14, 15, 16, 17, 20, 21, 22, 23): add('a key of numpy type %d' % t, 'lex', [(2, I, 1), (2, t, 1)], 'error')
    # every combination of small arguments
    H = 3 if tier != 'thorough' else 4
    for fn, t in (('lexsort32', 5), ('lexsort64', 7)):
        for m in range(0, H + 2):
            for u in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12):
                if u in ((5,) if t == 5 else (7, 9)): continue
                add('index of %d, numpy type %d' % (m, u), fn, [(H, I, 1)], 'error', index=list(range(m)), indext=u)
            for k in ({'indexstep': 2}, {'indexstep': -1}, {'indexro': True}):
                if m >= 2: add('index of %d, %s' % (m, k), fn, [(H, I, 1)], 'error', index=list(range(m)), indext=t, **k)
        for m in (1, 2):
            for ix in itertools.product(range(-1, H + 1), repeat=m):
                add('index %s' % (ix,), fn, [(H, I, 1)], 'ok' if all(0 <= x < H for x in ix) else 'error', index=list(ix), indext=t)
        for kd in ('quicksort', 'heapsort', 'mergesort', 'stable'): add('index, two keys and kind %s' % kd, fn, [(3, I, 1), (3, L8, 1)], index=[2, 0], indext=t, kind=kd)
    for m in (1, 2, 3):
        for c in itertools.product(range(-1, H + 2), repeat=m):
            add('cutoffs %s' % (c,), 'lex', [(H, I, 1)], 'ok' if c[0] >= 0 and list(c) == sorted(c) and c[-1] == H else 'error', cut=list(c))
    for u in (1, 2, 3, 4, 5, 6, 8, 10, 11, 12):
        for c in ([H], [1, H]): add('cutoffs %s of numpy type %d' % (c, u), 'lex', [(H, I, 1)], 'error', cut=c, cutt=u)
    for kd in ('quicksort', 'heapsort', 'mergesort', 'stable'): add('cutoffs and kind %s' % kd, 'lex', [(3, I, 1), (3, I, 1)], cut=[1, 3], kind=kd)
    for ls in list(itertools.product(range(0, 4), repeat=2)) + list(itertools.product((1, 2), repeat=3)):
        if len(set(ls)) > 1: add('keys of lengths %s' % (ls,), 'lex', [(n, I, 1) for n in ls], 'error')
    for a, b in (x for g in ((0, 2, 4, 6, 8, 10), (1, 3, 5, 7, 9), (11, 12), sorted(STR)) for x in itertools.product(g, repeat=2)):
        add('keys of numpy types %d and %d' % (a, b), 'lex', [(2, a, 2 if a in STR else 1), (2, b, 2 if b in STR else 1)])
    # failures
    add('memory runs out', 'lex', [(3, I, 1)], fail=1)
    add('memory runs out', 'lex', [(3, I, 1, dict(step=2)), (3, I, 1)], fail=1)
    add('memory runs out, cutoffs', 'lex', [(4, I, 1)], fail=1, cut=[2, 4])
    add('memory runs out, strings', 'lex', [(3, 18, 2)], fail=1)
    add('Python fails', 'lex', [(3, I, 1)], faults=1, kind='stable')
    add('Python fails, steps', 'lex', [(2, I, 1, dict(step=2)), (2, I, 1, dict(step=2))], faults=1)
    # sort
    for n in range(0, N + 1): add('%d items' % n, 'sort', [(n, I, 1)])
    for t in (0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 23): add('items of %s' % NT[t][0], 'sort', [(3, t, 1)])
    for kd in ('quicksort', 'heapsort', 'mergesort', 'stable', None): add('kind %s' % kd, 'sort', [(3, I, 1)], kind=kd)
    for t in STR: add('items of %s' % STR[t][0], 'sort', [(3, t, 2)])
    for s in (2, -1, -2): add('step %d' % s, 'sort', [(3, I, 1, dict(step=s))])
    add('byte-swapped items', 'sort', [(3, I, 1, dict(byteorder='>'))], 'error')
    for t in (14, 15, 16, 17, 20, 21, 22): add('items of numpy type %d' % t, 'sort', [(2, t, 1)], 'error')
    add('a number', 'sort', [], 'error', how='int')
    add('no argument', 'sort', [], 'error')
    add('two arrays', 'sort', [(2, I, 1)] * 2, 'error')
    for kd in ('quicksort', 'heapsort', 'stable'):
        for t in (I, D, 18, 19): add('memory runs out, kind %s, numpy type %d' % (kd, t), 'sort', [(3, t, 2)], fail=1, kind=kd)
        add('memory runs out, steps, kind %s' % kd, 'sort', [(3, I, 1, dict(step=2))], fail=1, kind=kd)
    add('Python fails', 'sort', [(3, I, 1)], faults=1, kind='stable')
    out += [dict(s, small=2, name=s['name'] + ', thresholds relaxed') for s in out if s['want'] == 'ok']
    return out

_P = None
def one(sc):
    t0 = time.time()
    try:
        k = next((x for x in sc['keys'] if x[1] in NT), None); k = next((x for x in sc['keys'] if x[1] in STR), k)
        name, w, signed, nan = NT[k[1]] if k and k[1] in NT else ('', 0, False, False)
        Machine.depth0 = False; Machine.order = 0
        run = Run(_P, signed, nan, sc.get('small'), bool(k) and k[1] == 23)
        r = run.all(sort_call(run, sc) if sc['fn'] == 'sort' else lex_call(run, sc), 100000, t0, 120)
        return sc, r, run.paths, sorted(f.dem or f.name for f in run.C.used)
    except Stuck as e: return sc, ('stuck', str(e), '', None), 0, []
    except Exception as e:
        import traceback
        return sc, ('stuck', '%s: %s' % (type(e).__name__, traceback.format_exc()[-400:]), '', None), 0, []

KINDS = {'rc': 'outcome', 'ref': 'references', 'free': 'references', 'perm': 'result', 'sorted': 'result', 'readonly': 'arguments', 'null': 'outcome'}

def main(pid, tier):
    global _P
    ck = report.Check(pid, tier, 'abstract interpretation of the entry points over partial orders of opaque elements and modelled Python objects')
    _P = prog.Program()
    for u in UNITS: _P.raw(u)
    ck.rule(pid + '.1', 'a call that can be carried out returns a new array (or the given index) holding the stable permutation of the keys, the last key deciding first; sort returns the sorted items')
    ck.rule(pid + '.2', 'a call that means nothing, or a failure, is reported by NULL with an exception, and only then')
    ck.rule(pid + '.3', 'keys and values are unchanged; no access outside them, the result and the workspace')
    ck.rule(pid + '.4', 'every reference taken is dropped or returned and every block of memory is freed')
    J = scenarios(tier); fns = set(); ck.analysed['cases'] = 0; seen = set()
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool: R = pool.map(one, J, chunksize=1)
    for sc, r, paths, used in R:
        fns.update(used); ck.analysed['cases'] += paths
        what = '%s, %s' % (sc['fn'], sc['name'])
        if r is None:
            for k in '1234': ck.ok(pid + '.' + k, 1, '%s (%s): %d cases' % (what, sc['want'], paths))
            continue
        kind, msg, where, wit = r
        rid = pid + {'result': '.1', 'outcome': '.2', 'arguments': '.3', 'references': '.4'}.get(KINDS.get(kind, ''), '.3')
        if kind == 'stuck': ck.undecided(rid, what, msg); continue
        key = '%s|%s|%s' % (sc['fn'], sc['name'], kind)
        if key in seen: continue
        seen.add(key)
        ck.violation(rid, key, where or sc['fn'], '%s: %s' % (what, msg), {'call': {k: v for k, v in sc.items() if k not in ('want',)}, 'values': wit})
    ck.analysed['routines'] = len(fns); ck.analysed['calls'] = len(R)
    ck.note('routines analysed: ' + ', '.join(sorted(fns))[:6000])
    ck.assume('keys of at most %d items with every pattern of order, ties and NaNs; longer keys enter the same code' % (5 if tier == 'thorough' else 4))
    ck.assume('the Python and NumPy API behave as documented; one failure per call')
    return report.finish(ck, explanation='Each entry point is analysed as a whole, from its Python arguments to its result, for every kind of argument; a case is one consistent set of answers to all comparisons and one place of failure at most.')
