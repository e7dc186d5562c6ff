"""The worker pool: claims, publication, completion (C14, C15) and what workers may do (C16)."""
import os, sys, re, collections, itertools
import prog, report, layout, conc
from fork import *
from dispatch import base
ITEM = ('item',)
def isitem(p): return isinstance(p, Ptr) and p.obj == ITEM
class TP(Forker):
    """path enumeration with atomic read-modify-writes returning fresh values (other threads interleave)"""
    def __init__(self, cp, opq=None, **k):
        Forker.__init__(self, cp, opaque=opq or (lambda f: None), **k)
    def step(self, fr, i):
        if i.o == 'atomicrmw':
            p, v = self.val(fr, i.ops[0]), self.val(fr, i.ops[1])
            old = Unk(('rmw', p.obj if isinstance(p, Ptr) else repr(p), offkey(p), self.nrmw(p)))
            self.ev('rmw', i, p, i.get('rmw'), v, old)
            return old
        if i.o == 'cmpxchg':
            p = self.val(fr, i.ops[0]); self.ev('rmw', i, p, 'cmpxchg', None, None)
            return Unk(('cas', i.id, len(self.events)))
        return Forker.step(self, fr, i)
    def nrmw(self, p):
        n = self.user.setdefault('rmw', collections.Counter()); k = (repr(p)); n[k] += 1; return n[k] - 1
def offkey(p):
    if not isinstance(p, Ptr): return None
    return p.off if isinstance(p.off, int) else ('p', frozenset(offpoly(p.off).items()))

class T:
    def __init__(self, ck):
        self.ck = ck; self.P = prog.Program(); self.L = layout.layouts(self.P)
        self.it = {k: v[0] for k, v in self.L['stMATH_WORKER_ITEM'].items()}; self.isz = self.it.pop('#size')
        self.ch = {k: v[0] for k, v in self.L['stWorkerChannel'].items()}; self.chsz = self.ch.pop('#size')
        self.ring = {k: v[0] for k, v in self.L['stWorkerRing'].items()}; self.pool = {k: v[0] for k, v in self.L['stWorkerPool'].items()}
        self.mw = {k: v[0] for k, v in self.L['CMathWorker'].items()}
        self.nch = int(re.search(r'\[(\d+)\]', self.L['stMATH_WORKER_ITEM']['WorkerChannel'][1]).group(1))
        self.npool = int(re.search(r'\[(\d+)\]', self.L['stWorkerRing']['Pool'][1]).group(1))
        self.qlen = int(re.search(r'\[(\d+)\]', self.L['stWorkerRing']['WorkerQueue'][1]).group(1))
        c = self.it['WorkerChannel']
        SHAREDOFF.update([self.it['BlocksCompleted'], self.it['BlockNext']] + [c + k * self.chsz + o for k in range(self.nch) for o in self.ch.values()])
        self.cp = CProp(self.P)
        self.fns = collections.defaultdict(dict)
        for u in self.P.units:
            for n, f in self.P.raw(u).functions.items():
                d = re.sub(r'\(.*$', '', f.dem)
                if d.startswith(('stMATH_WORKER_ITEM::', 'CMathWorker::', 'stWorkerRing::')) and not f.internal: self.fns[d.split('::')[0] + '::' + base(f)].setdefault(u, f)
    def fn(self, name):
        d = self.fns.get(name) or {}
        for u in d: return u, d[u]
        return None, None
    def field(self, off, what='it'):
        """name of an item field at byte offset"""
        if not isinstance(off, int): return None
        c = self.it['WorkerChannel']
        if off >= c and what == 'it':
            k, o = divmod(off - c, self.chsz); return ('ch', k, {v: n for n, v in self.ch.items()}.get(o))
        return {v: n for n, v in self.it.items() if n != 'WorkerChannel'}.get(off)
    def run(self, name, args, opq=None, **k):
        u, f = self.fn(name)
        if f is None: return None
        t = TP(self.cp, opq, loopmax=k.pop('loopmax', 3)); t.__dict__.update(k)
        return list(t.paths(f.name, args, unit=u))

# ------------------------------------------------------------------------------------------------ claims
def wm_opq(f):
    b = base(f)
    if f.dem.startswith('stWorkerRing::') or (f.dem.startswith('stMATH_WORKER_ITEM::') and b == 'DoWork'): return h_ev
    return None
SHAREDOFF = set()
def h_ev(fk, i, f, args):
    fk.ncall += 1; fk.ev('lib', i, f, args, dict(fk.objd(ITEM)))
    for o in SHAREDOFF: fk.objd(ITEM, True).pop(o, None)   # workers change the counters from here on
    return None if f.ret == 'void' else (Ptr(('ret', fk.ncall, base(f)), 0) if f.ret == 'ptr' else Unk(('ret', fk.ncall, base(f))))

def workmain_states(t, w, bs, generic, req=0, n=None):
    """the work item as published, for a pool limit of w worker threads: {field offset: value in terms of len}"""
    u, f = t.fn('CMathWorker::WorkMain')
    def init(fk):
        fk.objd(('pool',), True)[t.mw['FutexWakeCount']] = (4, w)
        fk.objd(('pool',), True)[t.mw['pWorkerRings']] = (8, Ptr(('ring',), 0))
    fk = TP(t.cp, wm_opq, init=init, loopmax=40); fk.lazysel = True
    L = n if n is not None else Unk(('len',))
    return list(fk.paths(f.name, [Ptr(('pool',)), Ptr(ITEM), L, req, bs, int(generic)], unit=u, maxpaths=400))

def callsites(t):
    """every call of WorkMain: (unit, caller, block size, generic, thread request, callbacks stored into an item by the caller)"""
    out = []
    for u in t.P.units:
        m = t.P.raw(u)
        for n, f in m.functions.items():
            wm = [i for i in f.calls() if i.callee and i.callee in m.functions | dict.fromkeys(m.decls) and (i.callee in m.functions) and base(m.functions[i.callee]) == 'WorkMain' and 'CMathWorker' in m.functions[i.callee].dem]
            if not wm: continue
            cbs = []
            for i in f.ins():
                if i.o == 'store' and isinstance(i.ops[0], list) and i.ops[0][0] == 'g' and i.ops[0][1] in m.functions:
                    g = m.functions[i.ops[0][1]]
                    if len(g.args) == 3 and g.args[0][0] == 'ptr' and g.ret == 'i64' and claimset(t, u, g): cbs.append(g)
            for i in wm:
                k = [x[1] if isinstance(x, list) and x[0] == 'i' else None for x in i.ops]
                out.append((u, f, i, k[4], k[5], cbs))
    return out
def claimset(t, u, g, seen=None):
    """claim functions reachable from g"""
    seen = seen if seen is not None else set()
    if g.name in seen: return set()
    seen.add(g.name); r = set(); m = t.P.raw(u)
    for i in g.calls():
        h = m.functions.get(i.callee) if i.callee else None
        if h is None: continue
        b = base(h)
        if h.dem.startswith('stMATH_WORKER_ITEM::') and b in ('GetNextWorkBlock', 'GetNextWorkBlockCore', 'GetNextWorkIndex'): r.add(b)
        else: r |= claimset(t, u, h, seen)
    return r

def claim_paths(t, name, core=None):
    """paths of a claim function: (conditions, result, block written)"""
    ps = t.run('stMATH_WORKER_ITEM::' + name, (lambda fk: [Ptr(ITEM)] + ([core] if core is not None else []) + [Ptr(('out',))]))
    if ps is None: return None
    r = []
    for p in ps:
        if p.end != 'ret': return None
        o = p.mem.get(('out',), {}).get(0)
        p.block = o[1] if o else None
        r.append(p)
    return r

def c14(pid, tier):
    ck = report.Check(pid, tier, 'symbolic path extraction over LLVM IR, algebra of the claimed blocks, typestate of worker callbacks')
    t = T(ck)
    R = ck.rule
    R('atomic', 'claims and completions change the shared counters only by atomic read-modify-write; no other write to the work item happens on a worker')
    R('cover', 'for every thread count and length the successful claims are exactly the blocks 0..n-1, each once, with lengths that tile the work')
    R('exhaust', 'a worker gives up only when every block has been claimed')
    R('typestate', 'each successful claim is followed by the work on it and then exactly one completion; a failed claim by neither')
    R('args', 'the work callback receives exactly the claimed range')
    R('serial', 'without the pool the whole range is processed once by the caller')
    for u, f in [t.fn('CMathWorker::WorkMain')]:
        if f is None: ck.undecided('cover', 'threads.h', 'WorkMain not found'); return report.finish(ck)
    # ---- atomic
    names_ = ['GetNextWorkBlock', 'GetNextWorkBlockCore', 'GetNextWorkIndex', 'CompleteWorkBlock']
    for nme in names_:
        u, f = t.fn('stMATH_WORKER_ITEM::' + nme)
        if f is None: ck.undecided('atomic', nme, 'function not found'); continue
        ck.seen('claim functions')
        seen = []
        class A(TP):
            def onstore(self, i, p, v):
                if isitem(p): seen.append((i, p, v))
        fk = A(t.cp, loopmax=3)
        args = {'GetNextWorkBlockCore': [Ptr(ITEM), 1, Ptr(('out',))], 'CompleteWorkBlock': [Ptr(ITEM), 1]}.get(nme, [Ptr(ITEM), Ptr(('out',))])
        ps = list(fk.paths(f.name, args, unit=u, maxpaths=300))
        if seen:
            i, p, v = seen[0]
            ck.violation('atomic', 'atomic/%s' % nme, i.where(), '%s changes field %s of the shared work item with a plain store: two workers can obtain or count the same block' % (nme, t.field(p.off) if isinstance(p.off, int) else p.off), 'two workers between the load and this store')
        else: ck.ok('atomic', sample='%s: %d paths, no plain store to the work item' % (nme, len(ps)))
    # ---- completion counter
    ps = t.run('stMATH_WORKER_ITEM::CompleteWorkBlock', [Ptr(ITEM), Unk(('core',))]) or []
    for p in ps:
        r = [e for e in p.events if e[0] == 'rmw']
        good = len(r) == 1 and isinstance(r[0][2], Ptr) and r[0][2].off == t.it['BlocksCompleted'] and r[0][3] == 'add' and r[0][4] == 1
        if good: ck.ok('atomic', sample='CompleteWorkBlock adds 1 to BlocksCompleted atomically')
        elif not any(v['key'] == 'atomic/CompleteWorkBlock' for v in ck.viol): ck.violation('atomic', 'atomic/complete', t.fn('stMATH_WORKER_ITEM::CompleteWorkBlock')[1].file, 'completing a block does not add exactly one to the completion counter', [str(e[2:5]) for e in r])
    # ---- cover
    sites = callsites(t)
    combos = collections.OrderedDict()
    for u, f, i, bs, gen, cbs in sites:
        ck.seen('WorkMain call sites')
        if bs is None or gen is None: ck.undecided('cover', i.where(), 'block size or mode is not a constant'); continue
        cl = set().union(*[claimset(t, u, g) for g in cbs]) if cbs else set()
        if not cl: ck.undecided('cover', i.where(), 'the work callback is not visible in %s' % f.short); continue
        for c in cl: combos.setdefault((bs, bool(gen & 1), c), i)
    wmax = maxwake(t, ck)
    for (bs, gen, c), i in combos.items():
        cover(t, ck, bs, gen, c, i, wmax)
    exhaust(t, ck)
    typestate(t, ck, sites)
    serial(t, ck)
    ck.assume('len > 0 when a work item is issued (callers take the pool only from 65536 elements / at least one item)')
    ck.note('Thread counts 1..%d are enumerated completely (the pool limit is a compile-time constant); the block count is covered by its quotient 0..2 and every remainder, which determines the piecewise linear formulas; lengths of the last block by every remainder class sampled at its ends and powers of two.' % (wmax + 1))
    return report.finish(ck, explanation='Claim functions and WorkMain are executed symbolically from their IR; the formulas for the claimed block and its length are checked against an exact partition of the work.')

def maxwake(t, ck):
    return t.nch - 2

def channel_env(st, extra):
    pass
def cover(t, ck, bs, gen, c, site, wmax):
    key = '%s/bs%d' % (c, bs)
    if gen != (c != 'GetNextWorkIndex'):
        ck.violation('cover', 'cover/mode', site.where(), 'a callback that claims with %s is run on a work item set up for %s' % (c, 'blocks' if gen else 'indices')); return
    ws = range(0, wmax + 1) if c == 'GetNextWorkBlockCore' else (0, 1, 5)
    cps = {}
    n = 0
    for w in ws:
        th = w + 1
        st = workmain_states(t, w, bs, gen)
        pub = None
        for p in st:
            for e in p.events:
                if e[0] == 'lib' and base(e[2]) in ('SetWorkItem', 'DoWork'): pub = (p, e[4]); break
            if pub: break
        if pub is None: ck.undecided('cover', site.where(), 'the published state of the work item is not visible (%s)' % [p.end for p in st][:3]); return
        p0, item = pub
        # other paths may fork on conditions over len: collect all published states
        states = []
        for p in st:
            for e in p.events:
                if e[0] == 'lib' and base(e[2]) in ('SetWorkItem', 'DoWork'):
                    cs = [x for x in p.conds]; states.append((p, e[4], e)); break
        def val(off, L, sz=8):
            for p, it, e in states:
                env0 = lambda a: L if a == ('len',) else None
                # conditions decided before publication
                try:
                    ok = all(conc.holds(k, env0) == r for k, r, i in p.conds)
                except conc.NoVal:
                    ok = True
                    for k, r, i in p.conds:
                        try:
                            if conc.holds(k, env0) != r: ok = False; break
                        except conc.NoVal: pass
                if ok:
                    x = it.get(off)
                    if x is None: return None
                    return conc.ev(x[1], env0)
            return None
        # ---- grid of lengths
        if c == 'GetNextWorkIndex': lens = sorted(set(list(range(1, 3 * th + 3)) + [64, 1000]))
        else:
            blocks = list(range(1, 3 * th + 1)) if w > 0 else [1, 2, 3, 7]
            rems = [1, bs, bs - 1, 2] if w else [1, 2, 3, 4, 7, 8, 100, bs // 2, bs - 1, bs, bs // 2 + 1]
            lens = [(b - 1) * bs + r for b in blocks for r in rems if r >= 1]
        try:
            for L in lens:
                nblocks = -(-L // bs) if gen else L
                fields = {}
                for nm in ('TotalElements', 'BlockSize', 'BlockLast', 'BlockNext', 'BlocksCompleted', 'ThreadWakeup'):
                    v = val(t.it[nm], L)
                    if v is None: ck.violation('cover', 'cover/unset-%s' % nm, site.where(), 'the work item is published without setting %s' % nm); return
                    fields[t.it[nm]] = v
                if fields[t.it['BlocksCompleted']] != 0:
                    ck.violation('cover', 'cover/completed', site.where(), 'the completion counter of a new work item starts at %d' % fields[t.it['BlocksCompleted']]); return
                for zz in ((0, 1) if c == 'GetNextWorkBlockCore' else (0,)):
                    got = {}; tot = 0
                    def claim(paths, k, extra):
                        def env(a):
                            if isinstance(a, tuple) and a[0] == 'rmw': return k if a[2] in extra.get('ctr', ()) else 0
                            if isinstance(a, tuple) and a[0] == 'ld' and a[1] == ITEM:
                                if a[2] in extra: return extra[a[2]]
                                if a[2] in fields: return fields[a[2]]
                                if a[2] == t.it['ZigZag']: return zz
                            return None
                        p = conc.pathof(paths, env)
                        if p is None: return None
                        r = conc.ev(p.ret, env) if p.ret is not None else 0
                        return r, (conc.ev(p.block, env) if p.block is not None else None)
                    chans = range(th) if c == 'GetNextWorkBlockCore' else (None,)
                    for chn in chans:
                        if chn is None:
                            if c not in cps: cps[c] = claim_paths(t, c)
                            paths = cps[c]; k0 = fields[t.it['BlockNext']]; ex = {'ctr': (t.it['BlockNext'],)}
                        else:
                            if (c, chn) not in cps: cps[(c, chn)] = claim_paths(t, 'GetNextWorkBlockCoreInternal', chn)
                            paths = cps[(c, chn)]
                            o = t.it['WorkerChannel'] + chn * t.chsz
                            k0 = val(o + t.ch['CurrentBlock'], L); lb = val(o + t.ch['LastBlock'], L)
                            if k0 is None or lb is None: ck.violation('cover', 'cover/channel', site.where(), 'channel %d of %d is not set up when the work item is published' % (chn, th)); return
                            ex = {'ctr': (o + t.ch['CurrentBlock'],), o + t.ch['LastBlock']: lb}
                        if paths is None: ck.undecided('cover', site.where(), 'claim function %s not analysable' % c); return
                        fails = 0; k = k0; first0 = False
                        while fails < 2 and k - k0 < nblocks + 5:
                            r, b = claim(paths, k, ex); n += 1
                            if r is None or r <= 0: fails += 1
                            else:
                                if fails:
                                    ck.violation('cover', 'cover/%s/gap' % c, t.fn('stMATH_WORKER_ITEM::' + c)[1].file, 'a claim fails although a later claim of the same item succeeds: the worker that got it stops early and, if it is the only one, the call never completes', 'claim number %d of a work item of %d, %d threads' % (k - k0, L, th)); return
                                if c == 'GetNextWorkIndex': b = r - 1; r = 1
                                if b is None: ck.violation('cover', 'cover/%s/noblock' % c, site.where(), 'a successful claim does not report its block'); return
                                if b in got:
                                    ck.violation('cover', 'cover/%s/twice' % c, site.where(), 'block %d is handed out twice' % b, 'length %d, %d threads, zigzag %d' % (L, th, zz)); return
                                got[b] = r
                            k += 1
                    want = {b: (min(bs, L - b * bs) if gen else 1) for b in range(nblocks)}
                    if got != want:
                        miss = sorted(set(want) - set(got)); extra = sorted(set(got) - set(want)); wrong = [(b, got[b], want[b]) for b in want if b in got and got[b] != want[b]]
                        why = ('block %d is never handed out' % miss[0]) if miss else ('block %d does not exist but is handed out' % extra[0]) if extra else 'block %d has length %d instead of %d' % wrong[0]
                        ck.violation('cover', 'cover/%s/%s' % (c, 'missing' if miss else 'extra' if extra else 'length'), site.where(), 'claims do not tile the work: %s' % why, 'length %d, %d threads, zigzag %d' % (L, th, zz)); return
                    need = val(t.it['BlockLast'], L) if gen else L
                    if need != nblocks:
                        ck.violation('cover', 'cover/count', site.where(), 'the caller waits for %d blocks of %d' % (need, nblocks), 'length %d' % L); return
        except conc.NoVal as e:
            ck.undecided('cover', site.where(), 'formula not evaluable: %s' % str(e)[:200]); return
        ck.ok('cover', sample='%s with block size %d, %d thread(s): claims tile every length on the grid' % (c, bs, th))
    ck.seen('claim evaluations', n)

def exhaust(t, ck):
    """GetNextWorkBlockCore gives up only if all blocks are claimed or every channel refused"""
    nme = 'GetNextWorkBlockCore'
    u, f = t.fn('stMATH_WORKER_ITEM::' + nme)
    if f is None: return
    def opq(g):
        if base(g) == 'GetNextWorkBlockCoreInternal': return h
        return None
    def h(fk, i, g, args):
        n = len([e for e in fk.events if e[0] == 'try'])
        r = Unk(('got', n)); fk.ev('try', i, args[1], args[2], r); return r
    for w in range(0, t.nch - 1):
        for core in sorted({0, min(1, w), w}):
            def init(fk): fk.objd(ITEM, True)[t.it['ThreadWakeup']] = (8, w)
            fk = TP(t.cp, opq, init=init, loopmax=40)
            ps = list(fk.paths(f.name, [Ptr(ITEM), core, Ptr(('out',))], unit=u, maxpaths=200))
            for p in ps:
                if p.end != 'ret': ck.undecided('exhaust', f.file, p.end); continue
                tries = [e for e in p.events if e[0] == 'try']
                if not tries:
                    ck.undecided('exhaust', f.file, 'no channel claim visible'); return
                badp = [e for e in tries if not (isinstance(e[3], Ptr) and e[3].obj == ('out',))]
                if badp: ck.violation('exhaust', 'exhaust/out', badp[0][1].where(), 'the claimed block is not reported to the caller'); return
                last = tries[-1]
                # value returned
                if isinstance(p.ret, Unk) and p.ret == last[4] and pos(p, last[4]): ck.ok('exhaust'); continue
                if isinstance(p.ret, Unk) and any(p.ret == e[4] for e in tries):
                    e = [e for e in tries if p.ret == e[4]][0]
                    if e is not last: ck.violation('exhaust', 'exhaust/drop', last[1].where(), 'a block claimed from another channel is dropped'); return
                    # returned last try, not known positive: same as giving up or success
                # dropped successful claim?
                for e in tries:
                    if pos(p, e[4]) and not (isinstance(p.ret, Unk) and p.ret == e[4]):
                        ck.violation('exhaust', 'exhaust/drop', e[1].where(), 'a successfully claimed block is dropped', 'core %d of %d' % (core, w)); return
                tried = {e[2] for e in tries if isinstance(e[2], int)}
                full = tried >= set(range(w + 1))
                out = any(claimed_all(t, k, r) for k, r, i in p.conds)
                if full or out: ck.ok('exhaust')
                else:
                    ck.violation('exhaust', 'exhaust/early', f.file, 'a thread stops although channel(s) %s may still hold blocks nobody else is bound to take' % sorted(set(range(w + 1)) - tried), 'core %d, %d worker threads' % (core, w)); return
    # BlockNext counts successful claims only, by one
    for p in claim_paths(t, 'GetNextWorkBlockCoreInternal', 1) or []:
        r = [e for e in p.events if e[0] == 'rmw' and isitem(e[2]) and e[2].off == t.it['BlockNext']]
        succ = not (isinstance(p.ret, int) and p.ret == 0)
        tot = sum(e[4] if e[3] == 'add' and isinstance(e[4], int) else 99 for e in r)
        if tot > (1 if succ else 0): ck.violation('exhaust', 'exhaust/count', r[0][1].where(), 'the number of claimed blocks is overstated (%s on a %s claim): other threads give up before all blocks are taken' % (tot, 'successful' if succ else 'failed')); return
        ck.ok('exhaust')
def pos(p, v):
    """path knows v > 0"""
    k, pol = ckey(Unk(('icmp', 'sgt', v, 0)))
    if p.facts.get(k) == pol: return True
    k, pol = ckey(Unk(('icmp', 'ne', v, 0)))
    return p.facts.get(k) == pol
def claimed_all(t, k, r):
    """condition 'BlockNext >= BlockLast' """
    bn = {((('obj', ('ld', ITEM, t.it['BlockNext'])),)): 1}
    for kk, pol in (ckey(Unk(('icmp', 'sge', Ptr(('ld', ITEM, t.it['BlockNext'])), Ptr(('ld', ITEM, t.it['BlockLast']))))), ckey(Unk(('icmp', 'sgt', Ptr(('ld', ITEM, t.it['BlockNext'])), Ptr(('ld', ITEM, t.it['BlockLast'])))))):
        if k == kk and r == pol: return True
    return False

# ------------------------------------------------------------------------------------------------ callbacks
def typestate(t, ck, sites):
    done = set()
    for u, f, i, bs, gen, cbs in sites:
        for g in cbs:
            if (u, g.name) in done: continue
            done.add((u, g.name)); callback(t, ck, u, g)
def callback(t, ck, u, g):
    ck.seen('worker callbacks')
    lab = g.short
    def opq(f):
        b = base(f)
        if f.dem.startswith('stMATH_WORKER_ITEM::'):
            if b in ('GetNextWorkBlock', 'GetNextWorkBlockCore', 'GetNextWorkIndex'): return hc
            if b == 'CompleteWorkBlock': return hd
            return None
        if f.mod.unit == u and not small(f): return hw
        if f.mod.unit != u: return hw
        return None
    def small(f): return sum(len(b.ins) for b in f.blocks) < 60
    def hc(fk, i, f, args):
        n = fk.user.get('claims', 0); fk.user['claims'] = n + 1
        fk.ev('claim', i, base(f), args)
        if n >= 2: return 0
        r = Unk(('cl', n)); fk.write(args[-1], 8, Unk(('block', n))); return r
    def hd(fk, i, f, args): fk.ev('done', i, args); return None
    def hw(fk, i, f, args):
        fk.ncall += 1; fk.ev('work', i, f, args); return None if f.ret == 'void' else (Ptr(('ret', fk.ncall, base(f)), 0) if f.ret == 'ptr' else Unk(('ret', fk.ncall, base(f))))
    fk = TP(t.cp, opq, loopmax=3)
    try: ps = list(fk.paths(g.name, [Ptr(ITEM), Unk(('core',)), Unk(('workindex',))], unit=u, maxpaths=3000))
    except RecursionError: ck.undecided('typestate', lab, 'recursion'); return
    bad = None; n = 0
    for p in ps:
        state = None; works = 0; k = -1
        if p.end not in ('ret', 'loop', 'maxpaths'): continue
        n += 1
        for e in p.events:
            if e[0] == 'claim':
                if state == 'held': bad = (e[1], 'a new block is claimed before the completion of the previous one is recorded'); break
                if not isitem(e[3][0]): bad = (e[1], 'claims from another work item'); break
                k += 1; v = Unk(('cl', k)); works = 0
                state = 'held' if k < 2 and pos(p, v) else 'failed'
            elif e[0] == 'done':
                if not isitem(e[2][0]): bad = (e[1], 'completes another work item'); break
                if state != 'held': bad = (e[1], 'a block is recorded as completed %s' % ('twice' if state == 'released' else 'without having been claimed')); break
                if not works: bad = (e[1], 'a block is recorded as completed before its work is done') ; break
                state = 'released'
            elif e[0] in ('work', 'icall', 'memcpy', 'ext'):
                if state == 'released' : bad = (e[1], 'work on a block continues after its completion was recorded: the caller may already have returned'); break
                if state == 'failed' and e[0] in ('work', 'icall'): bad = (e[1], 'work is done without a claimed block'); break
                works += 1
            elif e[0] == 'rmw' and isitem(e[2]): bad = (e[1], 'changes the shared counters outside claim and completion'); break
        if bad: break
        if p.end == 'ret' and state == 'held': bad = (ps and g.blocks[0].ins[0], 'returns without recording completion of a claimed block: the caller waits forever'); break
        if p.end == 'ret' and state == 'released': bad = (g.blocks[0].ins[0], 'returns after one block instead of claiming until none is left'); break
    if bad: ck.violation('typestate', 'typestate/%s' % re.sub(r'[^\w]+', '_', lab)[:60], bad[0].where(), '%s: %s' % (lab, bad[1])); return
    if not n: ck.undecided('typestate', lab, 'no complete path (%s)' % [p.end for p in ps][:3]); return
    ck.ok('typestate', sample='%s: %d paths' % (lab, n))
    # arguments of the two generic callbacks
    for nm in ('MultiThreadedChunkCallback', 'MultiThreadedCounterCallback'):
        if base(g) != nm: continue
        for p in ps:
            for e in p.events:
                if e[0] != 'icall': continue
                a = e[3]; k = e[2]
                fld = t.it['MTChunkCallback' if nm.endswith('ChunkCallback') else 'MTWorkCallback']
                want = Ptr(('ld', ITEM, fld))
                j = len([x for x in p.events[:p.events.index(e)] if x[0] == 'claim']) - 1
                blk, ln = Unk(('block', j)), Unk(('cl', j))
                if not (isinstance(k, Ptr) and k == want): bad = 'calls %s instead of the recorded callback' % (k,)
                elif not same(a[0], Ptr(('ld', ITEM, t.it['WorkCallbackArg']))): bad = 'passes the wrong argument block'
                elif nm.endswith('ChunkCallback'):
                    if not same(a[2], Unk(('mul', Ptr(('ld', ITEM, t.it['BlockSize'])), blk))): bad = 'start is %s instead of block * block size' % show(a[2])
                    elif not same(a[3], ln): bad = 'length is %s instead of the claimed length' % show(a[3])
                elif not same(a[2], Unk(('sub', ln, 1))): bad = 'index is %s instead of the claimed index' % show(a[2])
                if bad: ck.violation('args', 'args/%s' % nm, e[1].where(), '%s %s' % (nm, bad)); return
                ck.ok('args')

def serial(t, ck):
    for nm, na in (('DoMultiThreadedChunkWork', 5), ('DoMultiThreadedWork', 5)):
        u, f = t.fn('CMathWorker::' + nm)
        if f is None: ck.undecided('serial', nm, 'not found'); continue
        def opq(g):
            b = base(g)
            if b in ('GetWorkItem', 'GetWorkItemCount'): return hi
            if b == 'WorkMain': return h_ev
            return None
        def hi(fk, i, g, a):
            fk.ev('getitem', i, a); r = Unk(('haveitem',))
            if not fk.truth(Unk(('icmp', 'ne', r, 0)), i): return 0
            k, pol = ckey(Unk(('icmp', 'eq', Ptr(ITEM), 0))); fk.facts[k] = not pol
            return Ptr(ITEM)
        fk = TP(t.cp, opq, loopmax=4)
        A = [Ptr(('pool',)), Unk(('len',)), Ptr(('cb',)), Ptr(('arg',)), Unk(('req',))] if nm.endswith('ChunkWork') else [Ptr(('pool',)), Unk(('len',)), Ptr(('cb',)), Ptr(('arg',)), Unk(('req',))]
        for p in fk.paths(f.name, A, unit=u, maxpaths=60):
            if p.end not in ('ret', 'loop'): ck.undecided('serial', nm, p.end); continue
            wm = [e for e in p.events if e[0] == 'lib' and base(e[2]) == 'WorkMain']; calls = [e for e in p.events if e[0] == 'icall']
            key = 'serial/' + nm
            have = p.facts.get(ckey(Unk(('icmp', 'eq', Unk(('haveitem',)), 0)))[0])
            have = None if have is None else not have
            if wm:
                it = wm[0][4]; cbf = 'MTChunkCallback' if nm.endswith('ChunkWork') else 'MTWorkCallback'
                g = lambda k: (it.get(t.it[k]) or (0, None))[1]
                a = wm[0][3]
                runner = g('DoWorkCallback')
                if len(wm) != 1 or calls: ck.violation('serial', key, wm[0][1].where(), '%s processes the range with the pool and again itself' % nm); break
                if not same(g(cbf), A[2]) or not same(g('WorkCallbackArg'), A[3]): ck.violation('serial', key, wm[0][1].where(), '%s publishes another callback or argument' % nm); break
                if not (isinstance(runner, Ptr) and runner.obj[0] == 'fn'): ck.violation('serial', key, wm[0][1].where(), '%s publishes no runner' % nm); break
                if not same(a[2], A[1]): ck.violation('serial', key, wm[0][1].where(), '%s issues %s elements instead of the requested number' % (nm, show(a[2]))); break
                ck.ok('serial'); continue
            if have: ck.violation('serial', key, f.file, '%s takes a work item and never runs it' % nm); break
            if nm.endswith('ChunkWork'):
                good = len(calls) == 1 and same(calls[0][2], A[2]) and same(calls[0][3][0], A[3]) and calls[0][3][2] == 0 and same(calls[0][3][3], A[1])
                if not good: ck.violation('serial', key, (calls[0][1].where() if calls else f.file), '%s without the pool runs %s' % (nm, ['(%s, %s)' % (show(e[3][2]), show(e[3][3])) for e in calls] or 'nothing')); break
                ck.ok('serial')
            else:
                idx = [e[3][2] for e in calls]
                n = len(idx)
                # exit known: n < len decided false
                if idx != list(range(n)): ck.violation('serial', key, calls[0][1].where(), '%s without the pool runs indices %s' % (nm, idx)); break
                if p.end == 'ret':
                    conds = [conc_pick(k, r, n) for k, r, i in p.conds]
                    if not all(conds): ck.violation('serial', key, f.file, '%s without the pool stops after %d indices' % (nm, n), 'requested number of indices differs'); break
                ck.ok('serial')
def conc_pick(k, r, n):
    """condition consistent with len == n, inconsistent with len == n+1 overall"""
    try: return conc.holds(k, lambda a: n if a == ('len',) else (0 if a == ('haveitem',) else None)) == r
    except conc.NoVal: return True

# ================================================================================================ C15
SHARED = ('BlocksCompleted', 'BlockNext')
def c15(pid, tier):
    ck = report.Check(pid, tier, 'path enumeration and must-store dataflow over LLVM IR (publication order, completion wait)')
    t = T(ck); R = ck.rule
    R('order', 'every field of a work item a worker uses is written before the item is published, and none afterwards')
    R('args', 'the argument block a worker callback reads is filled by the caller before the work item is issued and not changed afterwards')
    R('wait', 'a threaded call returns only when the number of completed blocks has reached the number of blocks')
    R('takepart', 'the calling thread itself works on the item, so completion never depends on a worker being awake')
    R('ring', 'allocation, publication and pick-up agree on one queue slot; workers pick up only published items they have a channel for')
    R('bounds', 'worker numbers, pools and channels stay inside their fixed tables for every number of processors and every requested worker count')
    R('off', 'with threading switched off no work item is issued')
    u, f = t.fn('CMathWorker::WorkMain')
    if f is None: ck.undecided('order', 'threads.h', 'WorkMain not found'); return report.finish(ck)
    sites = callsites(t)
    combos = sorted({(bs, bool(g & 1)) for uu, ff, i, bs, g, c in sites if bs is not None and g is not None})
    for bs, gen in combos: publish(t, ck, u, f, bs, gen)
    ring(t, ck); worker(t, ck); bounds(t, ck); off(t, ck)
    for s in sites: argblock(t, ck, *s)
    ck.assume('x86 total store order: plain stores become visible in program order')
    ck.assume('a worker is not suspended inside one claim for 1024 further work items (the queue length)')
    return report.finish(ck, explanation='Every path of the issuing functions, the worker loop and the callbacks is enumerated from the IR.')

def publish(t, ck, u, f, bs, gen):
    lab = 'block size %d%s' % (bs, '' if gen else ', custom indices')
    # which fields do workers read?
    def opq(g):
        b = base(g)
        if g.dem.startswith('stWorkerRing::'):
            return hpub if b == 'SetWorkItem' else h_ev
        if g.dem.startswith('stMATH_WORKER_ITEM::') and b == 'DoWork': return h_ev
        return None
    def hpub(fk, i, g, args):
        fk.ev('publish', i, g, args, dict(fk.objd(ITEM)))
        d = fk.objd(ITEM, True)
        for o in list(d):
            n = t.field(o)
            if n in SHARED or isinstance(n, tuple): del d[o]
        return Unk(('published',))
    stores = []
    class W(TP):
        def onstore(self, i, p, v): self.ev('fstore', i, p, v)
    def init(fk):
        fk.objd(('pool',), True)[t.mw['FutexWakeCount']] = (4, 3)
        fk.objd(('pool',), True)[t.mw['pWorkerRings']] = (8, Ptr(('ring',), 0))
    fk = W(t.cp, opq, init=init, loopmax=12); fk.lazysel = True
    for p in fk.paths(f.name, [Ptr(('pool',)), Ptr(ITEM), Unk(('len',)), 0, bs, int(gen)], unit=u, maxpaths=300):
        if p.end not in ('ret', 'loop'): ck.undecided('order', f.file, p.end); continue
        pub = [k for k, e in enumerate(p.events) if e[0] == 'publish']
        if p.end == 'ret' and not pub:
            ck.violation('order', 'order/nopublish', f.file, 'WorkMain returns without publishing the work item'); return
        if not pub: continue
        if len(pub) > 1: ck.violation('order', 'order/twice', p.events[pub[1]][1].where(), 'the work item is published twice'); return
        e = p.events[pub[0]]
        if not any(isitem(a) for a in e[3]): ck.violation('order', 'order/which', e[1].where(), 'another work item is published'); return
        late = [x for x in p.events[pub[0]:] if x[0] == 'fstore' and isitem(x[2])]
        if late: ck.violation('order', 'order/late/%s' % (t.field(late[0][2].off),), late[0][1].where(), 'field %s of the work item is written after the item has been published to the workers (%s)' % (t.field(late[0][2].off), lab), 'a worker woken by the publication uses the old value'); return
        need = ['TotalElements', 'BlockSize', 'BlockLast', 'BlockNext', 'BlocksCompleted', 'ThreadWakeup']
        for nm in need:
            if t.it[nm] not in e[4]: ck.violation('order', 'order/unset/%s' % nm, e[1].where(), 'the work item is published without %s' % nm); return
        for c in range(4):
            o = t.it['WorkerChannel'] + c * t.chsz
            for k, v in t.ch.items():
                if gen and o + v not in e[4]: ck.violation('order', 'order/unset/channel', e[1].where(), 'channel %d is published without %s' % (c, k)); return
        ck.ok('order', sample='WorkMain (%s): all fields stored before publication' % lab)
        if p.end != 'ret': continue
        dw = [x for x in p.events if x[0] == 'lib' and base(x[2]) == 'DoWork']
        comp = [k for k, x in enumerate(p.events) if x[0] == 'lib' and base(x[2]) == 'CompleteWorkItem']
        if not dw: ck.violation('takepart', 'takepart', f.file, 'the calling thread does not work on its own item: with no worker awake the call never completes (%s)' % lab); return
        a = dw[0][3]
        if not isitem(a[0]) or not (isinstance(a[1], int) and 0 <= a[1] <= 0): ck.violation('takepart', 'takepart/core', dw[0][1].where(), 'the calling thread works as core %s' % (a[1],)); return
        ck.ok('takepart')
        # wait: conditions on the path must exclude BlocksCompleted < number of blocks
        cex = None
        bc = ('ld', ITEM, t.it['BlocksCompleted'])
        after = [(k, r, i) for k, r, i in p.conds]
        try:
            for L in (1, 5, bs, 3 * bs + 1, 7 * bs):
                nb = -(-L // bs) if gen else L
                for c in sorted({0, 1, nb // 2, nb - 1}):
                    if c < 0 or c >= nb: continue
                    env = lambda a: L if a == ('len',) else c if a == bc else None
                    okp = True
                    for k, r, i in after:
                        try:
                            if conc.holds(k, env) != r: okp = False; break
                        except conc.NoVal: pass
                    if okp: cex = (L, c, nb); break
                if cex: break
        except conc.NoVal as ex: ck.undecided('wait', f.file, str(ex)); continue
        if cex: ck.violation('wait', 'wait', f.file, 'WorkMain can return before all blocks are done (%s)' % lab, 'length %d: %d of %d blocks completed' % cex); return
        ck.ok('wait', sample='WorkMain (%s): return only with BlocksCompleted >= blocks' % lab)
        if comp:
            # marked complete only after the wait: no read of the counter afterwards is needed; the completion mark must follow DoWork
            if comp[0] < p.events.index(dw[0]): ck.violation('wait', 'wait/mark', p.events[comp[0]][1].where(), 'the item is marked completed before the caller worked on it'); return

def ring(t, ck):
    RG = ('ring',)
    # allocation
    u, f = t.fn('stWorkerRing::GetWorkItem')
    if f is None: ck.undecided('ring', 'stWorkerRing', 'GetWorkItem not found'); return
    fk = TP(t.cp); mask = None
    for p in fk.paths(f.name, [Ptr(RG)], unit=u):
        if p.end != 'ret': ck.undecided('ring', f.file, p.end); continue
        rm = [e for e in p.events if e[0] == 'rmw']
        if not rm: ck.violation('ring', 'ring/alloc-atomic', f.file, 'work items are allocated without an atomic increment: two calling threads (NumPy releases the interpreter lock in loops) get the same item'); return
        ok = all(isinstance(e[2], Ptr) and e[2].obj == RG and e[2].off == t.ring['MainWorkIndex'] and e[3] == 'add' and e[4] == 1 for e in rm) and len(rm) == 1
        if not ok: ck.violation('ring', 'ring/alloc', rm[0][1].where(), 'allocation does not advance the allocation index by one'); return
        wi = [v[1] for o, v in (p.mem.get(RG) or {}).items() if isslot(t, o, t.it['WorkIndex'], p.ret)]
        bad = None
        for idx in (1, 2, t.qlen - 1, t.qlen, t.qlen + 1, 10 * t.qlen + 3):
            env = lambda a: (idx - 1) if isinstance(a, tuple) and a[0] == 'rmw' else 0 if a == ('ptr', RG) else None
            try:
                off = evoff(p.ret, env)
                k, r = divmod(off - t.ring['WorkerQueue'], t.isz)
                if r or not 0 <= k < t.qlen: bad = 'index %d gives an address outside the queue' % idx; break
                if k != idx % t.qlen: bad = 'index %d uses slot %d' % (idx, k)
            except conc.NoVal as e: ck.undecided('ring', f.file, str(e)); return
            if wi:
                if conc.ev(wi[-1], env) != idx: bad = 'index %d is recorded as %d in the item' % (idx, conc.ev(wi[-1], env))
            if bad: break
        if bad: ck.violation('ring', 'ring/slot', f.file, 'allocation: %s' % bad); return
        if not wi: ck.violation('ring', 'ring/index', f.file, 'the allocated item does not record its index'); return
        ck.ok('ring', sample='GetWorkItem: slot = index mod %d' % t.qlen)
    # publication
    u, f = t.fn('stWorkerRing::SetWorkItem')
    if f is None: ck.undecided('ring', 'stWorkerRing', 'SetWorkItem not found')
    else:
        for w in range(0, t.nch):
            sts = []
            class A(TP):
                def onstore(self, i, p, v): sts.append((i, p, v))
            fk = A(t.cp, lambda g: (lambda fk, i, g, a: fk.ev('lib', i, g, a)) if 'Wakeup' in base(g) or 'futex' in g.dem else None)
            for p in fk.paths(f.name, [Ptr(RG), w, Ptr(ITEM)], unit=u, maxpaths=50):
                pubs = {}
                for i, q, v in sts:
                    if isinstance(q, Ptr) and q.obj == RG and isinstance(q.off, int):
                        k, o = divmod(q.off - t.ring['Pool'], t.L['stWorkerPool']['#size'][0])
                        if 0 <= k < t.npool and o == t.pool['WorkIndex']: pubs[k] = (i, v)
                        elif 0 <= k < t.npool: ck.violation('ring', 'ring/pubfield', i.where(), 'publication changes another pool field'); return
                        elif q.off >= t.ring['Pool'] and q.off not in t.ring.values(): ck.violation('ring', 'ring/pubbounds', i.where(), 'publication writes pool %d of %d' % (k, t.npool)); return
                    elif isitem(q): ck.violation('order', 'order/set/%s' % (t.field(q.off),), i.where(), 'publication itself changes the item after earlier pools may already run it'); return
                for k, (i, v) in pubs.items():
                    if not same(v, Ptr(('ld', ITEM, t.it['WorkIndex']))): ck.violation('ring', 'ring/pubvalue', i.where(), 'pool %d is given index %s instead of the index of the work item' % (k, show(v))); return
                if not pubs: ck.undecided('ring', f.file, 'nothing published for %d workers' % w)
                else: ck.ok('ring')
                sts.clear()
    # pick-up
def worker(t, ck):
    RG = ('ring',)
    m = t.P.raw('threads'); f = None
    for n, g in m.functions.items():
        if any(i.o == 'atomicrmw' for i in g.ins()) and any((c.callee in m.functions and base(m.functions[c.callee]) == 'DoWork') for c in g.calls() if c.callee): f = g
    if f is None: ck.undecided('ring', 'threads.cpp', 'worker loop not found'); return
    ck.seen('worker loops')
    def opq(g):
        b = base(g)
        if g.dem.startswith('stMATH_WORKER_ITEM::') and b == 'DoWork': return hdw
        if g.dem.startswith('stWorkerRing::'): return None
        return hx
    def hdw(fk, i, g, a): fk.ev('dowork', i, a, dict(fk.facts)); return Unk(('did', len(fk.events)))
    def hx(fk, i, g, a): fk.ncall += 1; fk.ev('lib', i, g, a); return None if g.ret == 'void' else Unk(('x', fk.ncall))
    fk = TP(t.cp, opq, loopmax=2)
    nb = 0
    for p in fk.paths(f.name, [Ptr(RG)], unit='threads', maxpaths=300):
        if p.end.startswith('stop'): ck.undecided('ring', f.file, p.end); continue
        for e in p.events:
            if e[0] != 'dowork': continue
            nb += 1; item, core = e[2][0], e[2][1]
            def atoms(x, acc):
                for k in poly(x):
                    for a in k:
                        if a[0] == 'obj': acc.add(a[1])
                        elif a[0] == 'u': dig(a[1], acc)
            def dig(w, acc):
                if isinstance(w, tuple):
                    for y in w:
                        if isinstance(y, (Ptr, Unk)): atoms(y, acc)
                        elif isinstance(y, tuple): dig(y, acc)
            acc = set(); atoms(item, acc)
            lds = [a for a in acc if a[0] == 'ld' and a[1] == RG]
            main = [a for a in lds if a[2] == t.ring['MainWorkIndex']]
            pub = [a for a in lds if a[2] != t.ring['MainWorkIndex']]
            if main: ck.violation('ring', 'ring/pickup', e[1].where(), 'a worker runs the newest allocated work item instead of the published one: it may still be under construction by another calling thread'); return
            if not pub: ck.undecided('ring', e[1].where(), 'item picked up from %s' % acc); return
            # slot formula
            for idx in (1, t.qlen - 1, t.qlen, 5 * t.qlen + 7):
                env = lambda a: idx if a == pub[0] else 0 if a == ('ptr', RG) else None
                try:
                    k, r = divmod(evoff(item, env) - t.ring['WorkerQueue'], t.isz)
                    if r or k != idx % t.qlen: ck.violation('ring', 'ring/pickslot', e[1].where(), 'index %d is picked up from slot %s' % (idx, k)); return
                except conc.NoVal as ex: ck.undecided('ring', e[1].where(), str(ex)); return
            # guards
            cok = any(coreguard(t, k, r, RG, pub[0]) for k, r in e[3].items())
            pok = any(pubguard(t, k, r, RG, pub[0]) for k, r in e[3].items())
            if not cok: ck.violation('ring', 'ring/coreguard', e[1].where(), 'a worker runs items that have no channel for its number'); return
            if not pok: ck.undecided('ring', e[1].where(), 'whether finished items are skipped before the pick-up')
            ck.ok('ring', sample='worker loop: runs the published item, guarded by its thread count')
    if not nb: ck.undecided('ring', f.file, 'no pick-up visible')
def coreguard(t, k, r, RG, pub):
    """core number (from the atomic worker counter) <= ThreadWakeup of the item, on a grid"""
    seen = [False, False]
    try:
        good = True
        for core in (1, 3, 14):
            for tw in (0, 1, 2, 3, 13, 14):
                def env(a):
                    if isinstance(a, tuple) and a[0] == 'rmw': seen[0] = True; return core - 1
                    if isinstance(a, tuple) and a[0] == 'ld' and a != pub and a[1] == RG and not isinstance(a[2], int) and offhas(a[2], t.it['ThreadWakeup'] + t.ring['WorkerQueue']): seen[1] = True; return tw
                    return None
                v = conc.holds(k, env) == r
                if v and core > tw: good = False
        return good and all(seen)
    except conc.NoVal: return False
def offhas(o, c): return o[0] == 'p' and dict(o[1]).get((), None) == c
def pubguard(t, k, r, RG, pub):
    seen = [0, 0]
    try:
        good = True
        for a_ in (0, 5):
            for b_ in (0, 4, 5, 6):
                def env(a):
                    if a == pub: seen[0] = 1; return a_
                    if isinstance(a, tuple) and a[0] == 'ld' and a[1] == RG and a != pub: seen[1] = 1; return b_
                    return None
                if conc.holds(k, env) == r and a_ <= b_: good = False
        return good and all(seen)
    except conc.NoVal: return False
def evoff(p, env):
    if not isinstance(p, Ptr): raise conc.NoVal(repr(p))
    return conc.evpoly(offpoly(p.off).items(), env)
def isslot(t, o, fld, ret):
    """memory key o denotes field fld of the object ret points to"""
    if not isinstance(ret, Ptr): return False
    want = padd(offpoly(ret.off), {(): fld} if fld else {})
    if isinstance(o, int): return want == ({(): o} if o else {})
    return isinstance(o, tuple) and o[0] == 'p' and dict(o[1]) == want

def bounds(t, ck):
    wmax = t.nch - 2
    # number of processors
    m = t.P.raw('threads')
    g = next((f for f in m.functions.values() if base(f) == 'GetProcCount'), None)
    top = None
    if g is None: ck.undecided('bounds', 'threads.cpp', 'GetProcCount not found')
    else:
        fk = TP(t.cp, lambda f: (lambda fk, i, f, a: (fk.ev('lib', i, f, a), Unk(('x', i.id)))[1]), loopmax=2); fk.havoc = True
        worst = 0
        for p in fk.paths(g.name, [], unit='threads', maxpaths=200):
            if p.end != 'ret': continue
            for v in (0, 1, 2, 7, 14, 15, 16, 17, 31, 64, 100):
                env = lambda a: v if isinstance(a, tuple) and a[0] == 'phi' and len(a) == 4 else None
                okp = True
                for k, r, i in p.conds:
                    try:
                        if conc.holds(k, env) != r: okp = False; break
                    except conc.NoVal: pass
                if not okp: continue
                try: worst = max(worst, conc.ev(p.ret, env))
                except conc.NoVal: worst = max(worst, 64 if not isinstance(p.ret, int) else p.ret)
        top = worst
        if worst > t.nch - 1 or worst > t.npool * 4 - 1: ck.violation('bounds', 'bounds/procs', '%s:%s' % (g.file, g.line), 'up to %d worker threads are started although the tables hold %d channels and %d pools' % (worst, t.nch, t.npool), 'a machine with %d processors' % worst)
        else: ck.ok('bounds', sample='at most %d worker threads' % worst)
    # requested worker count
    u, f = t.fn('CMathWorker::SetFutexWakeup')
    if f is None: ck.undecided('bounds', 'threads.h', 'SetFutexWakeup not found'); return
    for wtc in (1, 2, 7, 15):
        def init(fk): fk.objd(('pool',), True)[t.mw['WorkerThreadCount']] = (4, wtc)
        fk = TP(t.cp, init=init); ps = [p for p in fk.paths(f.name, [Ptr(('pool',)), Unk(('want',))], unit=u)]
        for want in (-2147483648, -5, 0, 1, 2, 3, 6, 7, 8, 13, 14, 15, 16, 1000, 2147483647):
            env = lambda a: want if a == ('want',) else None
            try:
                p = conc.pathof(ps, env)
                v = p.mem.get(('pool',), {}).get(t.mw['FutexWakeCount'])
                v = conc.ev(v[1], env) if v else None
            except conc.NoVal as e: ck.undecided('bounds', f.file, str(e)); return
            if v is None: continue
            if v >= 1 << 31: v -= 1 << 32
            if not 0 <= v <= min(wmax, max(wtc - 1, 0)): ck.violation('bounds', 'bounds/want', '%s:%s' % (f.file, f.line), 'requesting %d workers on a machine with %d sets the limit to %d' % (want, wtc, v)); return
            ck.ok('bounds')
    # the limit caps every issue
    u, f = t.fn('CMathWorker::WorkMain')
    for w in (0, 1, 3, 11, 14):
        for req in (-1, 0, 1, 2, 3, 7, 14, 15, 100):
            for p in workmain_states(t, w, 16384, 1, req & 0xffffffff, 5 * 16384)[:1]:
                pub = next((e for e in p.events if e[0] == 'lib' and base(e[2]) in ('SetWorkItem', 'DoWork')), None)
                if pub is None: continue
                v = pub[4].get(t.it['ThreadWakeup'])
                try: v = conc.ev(v[1], lambda a: None)
                except conc.NoVal: ck.undecided('bounds', f.file, 'thread count'); continue
                if v >= 1 << 31: v -= 1 << 32
                over = [o for o in pub[4] if isinstance(o, int) and o >= t.it['WorkerChannel'] + t.nch * t.chsz]
                if v > w or v < 0: ck.violation('bounds', 'bounds/issue', pub[1].where(), 'a call that asks for %d workers is issued to %d although the limit is %d' % (req, v, w)); return
                if over: ck.violation('bounds', 'bounds/channel', pub[1].where(), 'the channel table is overrun with %d threads' % (v + 1)); return
                ck.ok('bounds')

def off(t, ck):
    for nm in ('GetWorkItem', 'GetWorkItemCount'):
        u, f = t.fn('CMathWorker::' + nm)
        if f is None: continue
        def init(fk): fk.objd(('pool',), True)[t.mw['NoThreading']] = (4, 1)
        fk = TP(t.cp, lambda g: h_ev if g.dem.startswith('stWorkerRing') else None, init=init)
        for p in fk.paths(f.name, [Ptr(('pool',)), Unk(('len',))], unit=u):
            if p.end != 'ret': continue
            if isinstance(p.ret, int) and p.ret == 0 and not [e for e in p.events if e[0] in ('rmw', 'lib')]: ck.ok('off')
            else: ck.violation('off', 'off/%s' % nm, f.file, '%s hands out a work item (or takes its lock) although threading is switched off' % nm); return
        # switched on: lock released on every path that took it
        def init2(fk):
            fk.objd(('pool',), True)[t.mw['NoThreading']] = (4, 0); fk.objd(('pool',), True)[t.mw['pWorkerRings']] = (8, Ptr(('ring',), 0))
        fk = TP(t.cp, lambda g: h_ev if g.dem.startswith('stWorkerRing') else None, init=init2)
        for p in fk.paths(f.name, [Ptr(('pool',)), Unk(('len',))], unit=u):
            lk = [e for e in p.events if e[0] == 'rmw' and isinstance(e[2], Ptr) and e[2].off == t.ring['ExclusiveLock'] and e[2].obj == ('ring',)]
            if not lk: ck.ok('off'); continue
            k, pol = ckey(Unk(('icmp', 'eq', lk[0][5], 0))); got = p.facts.get(k)
            rel = [e for e in p.events if e[0] == 'store' and isinstance(e[2], Ptr) and e[2].obj == ('ring',) and e[2].off == t.ring['ExclusiveLock'] and e[3] == 0]
            if got == pol and not rel: ck.violation('off', 'off/lock', f.file, 'the allocation lock is not released: no later call can use the pool'); return
            if got != pol and rel: ck.violation('off', 'off/unlock', f.file, 'the allocation lock held by another thread is released'); return
            ck.ok('off')

# ---- argument block filled before issue
def argblock(t, ck, u, f, site, bs, gen, cbs):
    """forward may/must-store analysis of the caller for the callback argument object"""
    m = t.P.raw(u)
    ck.seen('issuing calls')
    item = site.ops[1]
    st = {}
    basis = bases(f)
    def root(v): return basis.get(v, (v, 0)) if isinstance(v, int) else (None, None)
    ir_ = root(item)
    cbfield = t.it['DoWorkCallback']; argfield = t.it['WorkCallbackArg']
    # must-store to the item before the call
    need = {cbfield, argfield}
    set_ = {t.it[x] for x in ('TotalElements', 'BlockSize', 'BlockLast', 'BlockNext', 'BlocksCompleted', 'ThreadWakeup', 'WorkIndex', 'ZigZag')}
    for g in cbs:
        gb = bases(g)
        need |= {gb[i.ops[0]][1] for i in g.ins() if i.o == 'load' and isinstance(i.ops[0], int) and gb.get(i.ops[0], (None,))[0] == 0 and isinstance(gb[i.ops[0]][1], int) and gb[i.ops[0]][1] < t.it['WorkerChannel'] and gb[i.ops[0]][1] not in set_}
    state = muststores(f, basis, lambda r: same_root(f, basis, r, item), site)
    lab = '%s -> WorkMain' % f.short
    if state is None: ck.undecided('args', site.where(), 'control flow'); return
    must, may, late = state
    for k in sorted(need):
        nm = t.field(k)
        nm = nm or 'the field at byte %d' % k
        if not covered(k, 4, may): ck.violation('args', 'args/%s/%s' % (base(f), nm), site.where(), 'the work item is issued without %s' % nm); return
        if not covered(k, 4, must): ck.violation('args', 'args/%s/%s-some' % (base(f), nm), site.where(), 'on some path the work item is issued without %s: workers run the callback of an earlier call' % nm); return
    if late: ck.violation('args', 'args/%s/late' % base(f), late[0].where(), 'the work item is changed after it was issued and may be in use by another call'); return
    ck.ok('args', sample=lab)
    # fields of the argument block read by the callbacks: along every path through the assignment of that callback
    argv = [i for i in f.ins() if i.o == 'store' and isinstance(i.ops[1], int) and root(i.ops[1])[1] == argfield and same_root(f, basis, root(i.ops[1])[0], item)]
    for sti in argv:
        r, o = root(sti.ops[0])
        al = f.byid.get(r) if isinstance(r, int) else None
        if al is None or al.o != 'alloca' or not cfgreach(f, sti, site): continue
        allreads = set()
        for cs in f.ins():
            if not (cs.o == 'store' and isinstance(cs.ops[1], int) and root(cs.ops[1])[1] == cbfield and same_root(f, basis, root(cs.ops[1])[0], item)): continue
            gs = fptrs(f, cs.ops[0]); exact = len(gs) == 1
            if not gs or not cfgreach(f, cs, site): continue
            mm = muststores(f, basis, lambda q: q == r, site, via=cs)
            if mm in (None, 'unreached'): continue
            must, may, late = mm
            if 'call' in may: may = None
            for gn in gs:
                g = m.functions.get(gn)
                if g is None: continue
                reads = argreads(t, u, g, argfield); allreads |= reads
                for off_, n in sorted(reads):
                    if may is not None and not covered(off_ + o, n, may):
                        ck.violation('args', 'args/%s/%s/field%d' % (base(f), base(g), off_), site.where(), 'worker callback %s reads byte %d of the argument block, which %s never fills before issuing the work' % (g.short, off_, f.short)); return
                    if exact and not covered(off_ + o, n, must) and 'call' not in must: ck.violation('args', 'args/%s/%s/field%d-some' % (base(f), base(g), off_), site.where(), 'worker callback %s reads byte %d of the argument block, which %s fills only on some paths before issuing the work' % (g.short, off_, f.short)); return
                    ck.ok('args')
        mm = muststores(f, basis, lambda q: q == r, site)
        if mm is None: continue
        lt = [i for i in mm[2] if reads_hit(allreads, basis[i.ops[1]][1] - o, i['sz'])]
        if lt: ck.violation('args', 'args/%s/latearg' % base(f), lt[0].where(), 'the argument block of running workers is changed after the work was issued'); return
def fptrs(f, v, d=0):
    """functions a value may denote (through phi and select)"""
    if isinstance(v, list) and v[0] == 'g': return [v[1]]
    i = f.byid.get(v) if isinstance(v, int) else None
    if i is None or d > 5: return []
    if i.o == 'phi': return sum([fptrs(f, x, d + 1) for x, b in i['in']], [])
    if i.o == 'select': return fptrs(f, i.ops[1], d + 1) + fptrs(f, i.ops[2], d + 1)
    return []
def cfgreach(f, a, b):
    if a.bb is b.bb and a.bb.ins.index(a) < a.bb.ins.index(b): return True
    seen = set(); todo = list(a.bb.succs)
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        if x == b.bb.id: return True
        todo += f.blocks[x].succs
    return False
def reads_hit(reads, o, n): return any(o < a + b and a < o + n for a, b in reads)
def covered(o, n, s):
    return all(any(isinstance(x, tuple) and x[0] <= b < x[0] + x[1] for x in s) for b in (o, o + n - 1))
def bases(f):
    """SSA pointer -> (root value, constant offset or None)"""
    out = {}
    def r(v, d=0):
        if v in out: return out[v]
        i = f.byid.get(v)
        if i is None or d > 50: return (v, 0)
        if i.o == 'getelementptr' and isinstance(i.ops[0], int):
            b, o = r(i.ops[0], d + 1)
            res = (b, o + i.get('off') if o is not None and not i.get('var') and i.get('off') is not None else None)
        elif i.o in ('bitcast', 'freeze') and isinstance(i.ops[0], int): res = r(i.ops[0], d + 1)
        else: res = (v, 0)
        out[v] = res; return res
    for i in f.ins():
        r(i.id)
        for a in i.ops:
            if isinstance(a, int): r(a)
    return out
def same_root(f, basis, r, item):
    ri = basis.get(item, (item, 0))[0] if isinstance(item, int) else item
    if r == ri: return True
    # the same item reloaded through a local slot or a phi of it
    def defs(v, seen):
        if v in seen: return set()
        seen.add(v); i = f.byid.get(v) if isinstance(v, int) else None
        if i is not None and i.o == 'phi': return set().union(*[defs(x, seen) for x, b in i['in'] if isinstance(x, int)]) if any(isinstance(x, int) for x, b in i['in']) else {v}
        return {v}
    a, b = defs(r, set()), defs(ri, set())
    return bool(a & b)
def muststores(f, basis, isroot, site, via=None):
    """(must, may, late): sets of (offset, size) [and plain offsets] stored through roots accepted by isroot before / after the site"""
    gen = {}
    def effects(b, upto=None):
        s = set(); call = False
        for i in b.ins:
            if i is upto: break
            if i.o == 'store' and isinstance(i.ops[1], int):
                q, o = basis.get(i.ops[1], (i.ops[1], 0))
                if o is not None and isroot(q): s.add((o, i['sz']))
                elif o is None and isroot(q): s.add('call')
            elif i.o in ('call', 'invoke') and i is not site:
                nm = i.callee or ''
                for a in i.ops:
                    if isinstance(a, int):
                        q, o = basis.get(a, (a, 0))
                        if isroot(q) and not nm.startswith('llvm.lifetime') and not nm.startswith('llvm.dbg'): s.add('call')
        return s
    n = len(f.blocks); sb = site.bb
    def flow(start, must0, may0, first=None):
        IN = [None] * n; MAY = [set() for _ in range(n)]
        work = []; cnt = 0
        def push(b, out, mo):
            new = out if IN[b] is None else IN[b] & out
            nm = MAY[b] | mo
            if IN[b] is None or new != IN[b] or nm != MAY[b]: IN[b] = set(new); MAY[b] = nm; work.append(b)
        if first is None: push(start, must0, may0)
        else:
            e = effects(f.blocks[start])
            for s in f.blocks[start].succs: push(s, must0 | e, may0 | e)
        while work:
            b = work.pop(); cnt += 1
            if cnt > 40 * n + 200: return None
            e = effects(f.blocks[b]); out = IN[b] | e; mo = MAY[b] | e
            for s in f.blocks[b].succs: push(s, out, mo)
        return IN, MAY
    r = flow(0, set(), set())
    if r is None: return None
    IN, MAY = r
    if via is not None:
        vb = via.bb.id
        if IN[vb] is None: return 'unreached'
        if not (via.bb is sb and sb.ins.index(via) < sb.ins.index(site)):
            r = flow(vb, IN[vb], MAY[vb], first=True)
            if r is None: return None
            IN, MAY = r
            if IN[sb.id] is None: return 'unreached'
    pre = effects(sb, site)
    must = IN[sb.id] | pre if IN[sb.id] is not None else set(); may = MAY[sb.id] | pre
    # stores after the site
    late = []
    seen = set(); todo = list(sb.succs)
    after = [i for i in sb.ins[sb.ins.index(site) + 1:]]
    while todo:
        b = todo.pop()
        if b in seen: continue
        seen.add(b); after += f.blocks[b].ins; todo += f.blocks[b].succs
    for i in after:
        if i.o == 'store' and isinstance(i.ops[1], int):
            q, o = basis.get(i.ops[1], (i.ops[1], 0))
            if isroot(q) and o is not None: late.append(i)
    flat = set
    return flat(must), flat(may), late
def argreads(t, u, g, argfield):
    """(offset, size) read by callback g through item->WorkCallbackArg (direct loads only)"""
    b = bases(g); out = set()
    roots = {i.id for i in g.ins() if i.o == 'load' and isinstance(i.ops[0], int) and b.get(i.ops[0], (None, None)) == (0, argfield)}
    for i in g.ins():
        if i.o == 'load' and isinstance(i.ops[0], int):
            q, o = b.get(i.ops[0], (None, None))
            if q in roots and o is not None: out.add((o, i['sz']))
    return out
