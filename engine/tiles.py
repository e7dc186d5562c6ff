"""Deciding address coverage of a walked path: index intervals, chaining, concrete refutation valuations."""
import itertools
from terms import *
from walk import *

def splitcases(f, polys, depth=0):
    """fork facts on smax0/smin/smax atoms occurring in polys until none are left"""
    if depth > 6: return [f]
    for p in polys:
        for a in deepatoms(f.norm(p)):
            if a in f.sub: continue
            if a.op == 'smax0' or (a.op in ('smin', 'smax') and isinstance(a.a[0], Poly)):
                if a.op == 'smax0': alts = [(a.a[0], a.a[0]), (-a.a[0], ZERO)]
                elif a.op == 'smin': alts = [(a.a[1] - a.a[0], a.a[0]), (a.a[0] - a.a[1], a.a[1])]
                else: alts = [(a.a[0] - a.a[1], a.a[0]), (a.a[1] - a.a[0], a.a[1])]
                out = []
                for cond, val in alts:
                    g = f.copy(); g.addge(cond)
                    if g.bad: continue
                    g._sub(a, g.norm(val))
                    if g.bad: continue
                    out += splitcases(g, polys, depth + 1)
                return out
    return [f]

def iszero(f, p):
    d = f.norm(p); c = d.const
    if c is not None: return c == 0
    lo, hi = f.lo(d), f.hi(d)
    if lo == 0 and hi == 0: return True
    if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
    return None

def leq(f, p):
    """p >= 0 ?"""
    l = f.lo(p)
    return l is not None and l >= 0

class Seg:
    """elements [start, start+m*T) , one index per (iteration, lane)"""
    __slots__ = ('start', 'm', 'T', 'it', 'src')
    def __init__(self, start, m, T, it, src): self.start = start; self.m = m; self.T = T; self.it = it; self.src = src
    @property
    def end(self): return self.start + (self.T * self.m if self.T is not None else self.m)
    def __repr__(self): return '[%r,%r)' % (self.start, self.end)

def make_segs(items):
    """items: list of (idx poly (may contain it), lanes, it or None, T or None, src). -> (segs, problem)"""
    groups = {}
    segs = []
    for idx, lanes, it, T, src in items:
        if it is None or it not in deepatoms(idx):
            if it is not None:
                if T is not None and T.const == 1: pass
                else: return None, ('same element written on every iteration', src)
            segs.append(Seg(idx, lanes, None, None, src)); continue
        st = ZERO; step = ZERO
        for k, v in idx.m.items():
            if it in k:
                kk = list(k); kk.remove(it)
                if kk: return None, ('non-linear index', src)
                step = step + v
            else:
                if any(it in a.its for a in k): return None, ('non-linear index', src)
                st = st + Poly({k: v})
        c = step.const
        if c is None or c <= 0: return None, ('index step %r' % step, src)
        groups.setdefault((it, c, T), []).append((st, lanes, src))
    for (it, c, T), lst in groups.items():
        base = lst[0][0]; rel = []
        for st, lanes, src in lst:
            d = (st - base).const
            if d is None: return None, ('incomparable lane offsets', src)
            rel.append((d, lanes, src))
        rel.sort(key=lambda r: r[0]); pos = rel[0][0]
        for d, lanes, src in rel:
            if d != pos: return None, ('lanes leave a gap or overlap inside one iteration', src)
            pos += lanes
        if pos - rel[0][0] != c: return None, ('lanes per iteration (%d) differ from the advance (%d)' % (pos - rel[0][0], c), rel[0][2])
        segs.append(Seg(base + rel[0][0], c, T, it, rel[0][2]))
    return segs, None

def chain(f, segs, n):
    """segments tile [0,n) exactly?  True / None(not shown) under facts f"""
    cur = ZERO; left = list(segs)
    while True:
        for s in list(left):
            ln = f.norm(s.end - s.start)
            if iszero(f, ln): left.remove(s)
        if not left: break
        for s in left:
            if iszero(f, s.start - cur): cur = s.end; left.remove(s); break
        else: return None
        # negative trip counts would break the argument
        if s.T is not None and not leq(f, f.norm(s.T)): return None
    return True if iszero(f, n - cur) else None

# ------------------------------------------------------------------------------------------------ concrete valuations
def free_atoms(f, polys):
    s = set()
    for p in list(polys) + f.ge + f.ne + list(f.sub.values()):
        for a in deepatoms(p):
            if a.op in ('arg', 'sym', 'ld', 'call', 'alloca', 'glob', 'phi', 'trip'): s.add(a)
    for a in f.iv:
        for b in deepatoms(pvar(a)):
            if b.op in ('arg', 'sym', 'ld', 'call'): s.add(b)
    return s

def facts_hold(f, env):
    try:
        for a, q in f.sub.items():
            if ev(a, env, {}) != (pev(q, env) & ((1 << a.w) - 1)): return False
        for p in f.ge:
            if pev(p, env) < 0: return False
        for p in f.ne:
            if pev(p, env) == 0: return False
        for a, (lo, hi) in f.iv.items():
            if any(b.op == 'it' for b in deepatoms(pvar(a))): continue
            v = sgn(ev(a, env, {}), a.w)
            if lo is not None and v < lo: return False
            if hi is not None and v > hi: return False
        for c, val in f.ops:
            if c.data or any(b.op in ('it', 'acc', 'ld', 'call', 'fold') for b in deepatoms(pvar(c))): continue
            if bool(ev(c, env, {})) != val: return False
    except Undef: return None
    return True

def valuations(f, ptrs, strides, n, ns, esz, limit=4000):
    """assignments of (pointer atoms, stride atoms, n) satisfying the path facts.
    ptrs: list of pointer atoms; strides: dict stride atom -> candidate values"""
    free_p = [p for p in ptrs if p not in f.sub or any(a in SYMDEF for a in f.sub[p].atoms()) and not any(a in ptrs for a in f.sub[p].atoms())]
    sa = [s for s in strides if s not in f.sub]
    cnt = 0
    relevant = set()
    for p in f.ge + f.ne + list(f.iv):
        for b in deepatoms(p if isinstance(p, Poly) else pvar(p)): relevant.add(b)
    pch = []
    for k, p in enumerate(free_p):
        base = (k + 1) << 20
        pch.append([base + r for r in (1, 3, 0, 8, 31)])
    for sv in itertools.product(*[strides[s] for s in sa]):
        for pv in itertools.product(*pch):
            for nv in ns:
                env = dict(zip(sa, sv)); env.update(zip(free_p, pv)); env[n] = nv
                for a, q in f.sub.items():
                    if a.op in ('arg',) and a not in env:
                        try: env[a] = pev(q, env) & ((1 << a.w) - 1)
                        except Undef: pass
                cnt += 1
                if cnt > limit * 20: return
                r = facts_hold(f, env)
                if r: yield env
