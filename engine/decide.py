"""Equivalence of two element formulas (terms over variable atoms).

Methods, in order: identical normal form; bit-parallel table; complete partition of the operand space into the
regions distinguished by the formulas' own comparisons (leaf normal forms compared region by region).
A difference is only ever reported together with operand values on which the two formulas differ."""
import math, itertools, struct
from terms import *

CMPLEAF = ('v',)

def subterms(t, seen=None):
    if seen is None: seen = {}
    if t in seen: return seen
    seen[t] = 1
    for x in t.a:
        if isinstance(x, Term): subterms(x, seen)
        elif isinstance(x, Poly):
            for y in x.atoms(): subterms(y, seen)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Term): subterms(y, seen)
    return seen

def nanb(w): return {16: 0x7e00, 32: 0x7fc00000, 64: 0x7ff8000000000000, 80: f2b(64, math.nan)}[w]

def isnanb(w, b):
    v = getf(w, b); return v != v

def samef(w, a, b, rel):
    """relation between two results given as bit patterns"""
    if a == b: return True
    if rel == 'bits': return False
    if rel == 'float':      # same value, NaN ~ NaN (payload/sign of NaN free), sign of zero significant
        x, y = getf(w, a), getf(w, b)
        if x != x and y != y: return True
        return x == y and not (x == 0 and math.copysign(1, x) != math.copysign(1, y))
    if rel == 'num':        # sign of zero free as well
        x, y = getf(w, a), getf(w, b)
        return (x != x and y != y) or x == y
    if rel == 'bool': return a == b
    raise ValueError(rel)

def base_samples(w, kind):
    m = (1 << w) - 1
    if kind == 'f':
        if w == 80:
            vs = [math.nan, math.inf, -math.inf, 0.0, -0.0, 1.0, -1.0, 2.5, -2.5, 3.0, 5e-324, -5e-324, 1e300, -1e300, 0.5, -0.5, 1.5, -7.25]
            return [f2b(64, v) for v in vs]
        vs = [0.0, -0.0, 1.0, -1.0, 2.0, 2.5, -2.5, 3.0, 0.5, -0.5, 1.5, -1.5, 7.25, -7.25, 1e30, -1e30, 1e-30, -3.0]
        b = [f2b(w, v) for v in vs]
        mx = 0x7f7fffff if w == 32 else 0x7fefffffffffffff
        inf = mx + 1; sb = 1 << (w - 1); qn = nanb(w)
        b += [inf, inf | sb, qn, qn | sb, inf + 1, (inf + 1) | sb, mx, mx | sb, 1, 1 | sb, 2, m >> 1, m]
        mn = 0x00800000 if w == 32 else 0x0010000000000000
        b += [mn, mn | sb, mn - 1, (mn - 1) | sb]
        return b
    if kind == 'b': return [0, 1]
    h = 1 << (w - 1)
    return sorted({0, 1, 2, 3, 5, 7, 10, 100 & m, h - 1, h, h + 1, h - 2, m, m - 1, m - 2, m - 6, (h | 5) & m, 0x55 & m, (0x5555555555555555) & m, 0xaaaaaaaaaaaaaaaa & m, h >> 1, (h >> 1) - 1, h + 100 & m})

def const_samples(ts, w, kind):
    out = set()
    m = (1 << w) - 1; sb = 1 << (w - 1)
    for t in ts:
        for x in subterms(t):
            vals = []
            if x.op == 'c': vals = [x.a[0]]
            elif x.op == 'P': vals = [v & m for v in x.a[0].m.values()] + [-v & m for v in x.a[0].m.values()]
            for v in vals:
                v &= m
                for d in (-2, -1, 0, 1, 2):
                    out.add((v + d) & m); out.add(((v + d) ^ sb) & m)
                out.add(v >> 1); out.add(((v >> 1) + 1) & m)
    if kind == 'b': out &= {0, 1}
    return out

def isvar(t, vs): return t in vs

def cond_complete(t, vs):
    """comparison whose truth only depends on the order/equality class of plain operands and constants"""
    def leaf(x):
        if isc(x) or x in vs: return True
        if x.op in ('zext', 'sext') and leaf(x.a[0]): return True
        if x.op == 'and' and x.a[0] in vs and isc(x.a[1]):
            v = x.a[1].a[0]
            if v == (1 << (x.w - 1)) - 1 or v == 1 << (x.w - 1): return True
            inv = ((1 << x.w) - 1) ^ v
            # contiguous field test against a constant (exponent masks)
            return False
        if x.op == 'slice' and x.a[0] in vs and x.a[1] == x.a[0].w - 1 and x.w == 1: return True
        if x.op == 'P' and len(x.a[0].m) == 1:
            (k, v), = x.a[0].m.items()
            if len(k) == 1 and k[0] in vs and v == 2: return True
        return False
    if t.op in ('icmp', 'fcmp'): return leaf(t.a[1]) and leaf(t.a[2])
    if t.op == 'fpclass': return t.a[0] in vs
    if t.op == 'slice': return leaf(t)
    return False

def boolconds(t, acc):
    """atomic conditions of the ite structure; returns False when some condition is not atomic-boolean"""
    for x in subterms(t):
        if x.op in ('icmp', 'fcmp', 'fpclass'): acc[x] = 1
        elif x.op == 'slice' and x.w == 1: acc[x] = 1
    return acc

def resolve(t, tv, memo):
    """replace decided atomic conditions by constants"""
    r = memo.get(t)
    if r is not None: return r
    if t in tv: r = C(1, tv[t])
    else:
        na = []; ch = False
        for x in t.a:
            if isinstance(x, Term): y = resolve(x, tv, memo)
            elif isinstance(x, tuple): y = tuple(resolve(z, tv, memo) if isinstance(z, Term) else z for z in x)
            elif isinstance(x, Poly):
                mp = {}
                for a in x.atoms():
                    b = resolve(a, tv, memo)
                    if b is not a: mp[a] = b.poly()
                y = x.subst(mp) if mp else x
            else: y = x
            ch = ch or y is not x; na.append(y)
        if not ch: r = t
        elif t.op == 'P': r = P(t.w, na[0])
        else: r = rebuild(t, na)
    memo[t] = r
    return r

def bitparallel(t, vs):
    for x in subterms(t):
        if x in vs or isc(x): continue
        if x.op in ('and', 'or', 'xor'): continue
        return False
    return True

ARITH_NF = {'fadd', 'fmul', 'fsub', 'fdiv', 'sqrt', 'floor', 'ceil', 'ftrunc', 'rint', 'round', 'call', 'fpext', 'fptrunc', 'sitofp', 'uitofp'}

def decide(t, s, vs, rel='bits', hook=None, maxpts=60000):
    """vs: dict var Term -> kind ('i' signed, 'u', 'f', 'b').  -> (verdict, detail)"""
    if t is s: return 'eq', 'normal form'
    if t.w != s.w: return 'unk', 'widths %d/%d' % (t.w, s.w)
    vl = [v for v in vs if True]
    used = subterms(t); subterms(s, used)
    vl = [v for v in vs if v in used]
    m = {v: (1 << v.w) - 1 for v in vl}
    def show(env): return {str(v): (repr(getf(v.w, env[v])) if vs[v] == 'f' else str(sgn(env[v], v.w) if vs[v] == 'i' else env[v])) for v in vl}
    def evl(x, env):
        e = dict(env)
        if hook: e['?'] = hook
        return ev(x, e, {})
    def bad(env, a, b):
        f = rel in ('float', 'num')
        return {'operands': show(env), 'computed': repr(getf(t.w, a)) if f else hex(a), 'expected': repr(getf(t.w, b)) if f else hex(b)}
    # ---- sample-based refutation
    pts = []
    for v in vl:
        p = set(base_samples(v.w, vs[v])) | const_samples([t, s], v.w, vs[v])
        pts.append(sorted(p))
    tot = 1
    for p in pts: tot *= len(p)
    if tot > maxpts:
        k = max(2, int(maxpts ** (1.0 / len(pts))))
        pts = [p if len(p) <= k else list(base_samples(v.w, vs[v]))[:k] + p[::max(1, len(p) // max(1, k - len(base_samples(v.w, vs[v]))))] for p, v in zip(pts, vl)]
    small = all(v.w <= 8 for v in vl) and sum(v.w for v in vl) <= 8
    if small: pts = [list(range(1 << v.w)) if vs[v] != 'b' else [0, 1] for v in vl]
    evaluable = True
    envs = []
    for c in itertools.product(*pts):
        env = dict(zip(vl, c))
        try: a, b = evl(t, env), evl(s, env)
        except Undef: evaluable = False; continue
        except (OverflowError, ValueError): continue
        if not samef(t.w, a, b, rel): return 'ne', bad(env, a, b)
        envs.append(env)
    if evaluable and (small or all(vs[v] == 'b' for v in vl)): return 'eq', 'exhaustive table (%d points)' % len(envs)
    if rel == 'bits' and bitparallel(t, vs) and bitparallel(s, vs): return 'eq', 'bit-parallel table'
    if not envs or not evaluable: return 'unk', 'not evaluable: %s' % str(t)[:120]
    if any(v.w == 64 and vs[v] in 'iu' for v in vl) and any(x.op == 'P' for x in used):
        if halves(t, vl) is halves(s, vl): return 'eq', 'normal form over 32-bit halves'
    # ---- region-wise comparison of leaves
    t, s = openminmax(t, {}), openminmax(s, {})
    if t is s: return 'eq', 'normal form'
    conds = boolconds(t, {}); boolconds(s, conds)
    if not all(cond_complete(c, vs) for c in conds):
        n = casesplit(t, s, 0, [4000])
        if n: return 'eq', 'case split'
        bc = [c for c in conds if not cond_complete(c, vs)]
        return 'unk', 'condition %s' % bc[0]
    seen = {}
    for env in envs:
        tv = {}
        try:
            for c in conds: tv[c] = evl(c, env)
        except Undef: return 'unk', 'condition not evaluable'
        key = tuple(tv[c] for c in conds)
        if key in seen: seen[key].append(env); continue
        seen[key] = [env]
    for key, es in seen.items():
        tv = dict(zip(conds, key))
        memo = {}
        a, b = resolve(t, tv, memo), resolve(s, tv, memo)
        if a is b: continue
        # a region that fixes the operands to finitely many points is decided by its points
        if all(isc(x) or x in vs or (x.op in ('xor', 'and', 'or') and x.a[0] in vs and isc(x.a[1])) for x in (a, b)):
            # leaves are operands/constants: relation decided by the order class itself
            ok = True
            for env in es:
                x, y = evl(a, env), evl(b, env)
                if not samef(t.w, x, y, rel): ok = False
            if ok and (rel != 'bits'): continue
            if ok and rel == 'bits' and eqregion(a, b, tv, vs): continue
        if eqregion(a, b, tv, vs): continue
        return 'unk', 'leaf %s vs %s' % (a, b)
    return 'eq', 'complete partition (%d regions)' % len(seen)

FNEG = {'une': 'oeq', 'uge': 'olt', 'ugt': 'ole', 'ult': 'oge', 'ule': 'ogt', 'uno': 'ord', 'ueq': 'one'}
INEG = {'ne': 'eq', 'sge': 'slt', 'sle': 'sgt', 'uge': 'ult', 'ule': 'ugt'}
FSWAP = {'ogt': 'olt', 'oge': 'ole', 'sgt': 'slt', 'ugt': 'ult'}
def canoncond(c):
    """-> (base condition, negated?)"""
    p, x, y = c.a[0], c.a[1], c.a[2]; neg = False
    N = FNEG if c.op == 'fcmp' else INEG
    if p in N: p = N[p]; neg = True
    if p in FSWAP and (c.op == 'fcmp') == (p[0] == 'o'): p = FSWAP[p]; x, y = y, x
    if p in ('oeq', 'one', 'ord', 'eq') and x.id > y.id: x, y = y, x
    return (c.op, p, x, y), neg

def casesplit(t, s, depth, budget, known=None):
    """t and s denote the same value in every truth assignment of their atomic comparisons"""
    known = known or {}
    while True:
        if t is s: return True
        conds = boolconds(t, {}); boolconds(s, conds)
        group = [(c, canoncond(c)) for c in conds if c.op in ('icmp', 'fcmp')]
        tv = {c: known[k[0]] ^ k[1] for c, k in group if k[0] in known}
        if not tv: break
        t, s = resolve(t, tv, {}), resolve(s, tv, {})
    budget[0] -= 1
    if budget[0] < 0 or depth > 14: return False
    inner = next((k[0] for c, k in group if not any(x is not c and x.op in ('icmp', 'fcmp') for x in subterms(c))), None)
    if inner is None: return False
    return all(casesplit(t, s, depth + 1, budget, {**known, inner: val}) for val in (0, 1))

def openminmax(t, memo):
    """x86 min/max as the comparison they are defined by (a < b ? a : b)"""
    if t in memo: return memo[t]
    na = [openminmax(x, memo) if isinstance(x, Term) else tuple(openminmax(z, memo) if isinstance(z, Term) else z for z in x) if isinstance(x, tuple) else x for x in t.a]
    if t.op in ('vmin', 'vmax'): r = ite(t.w, fcmp(1, 'olt' if t.op == 'vmin' else 'ogt', na[0], na[1]), na[0], na[1])
    elif any(a is not b for a, b in zip(na, t.a)): r = rebuild(t, na)
    else: r = t
    memo[t] = r
    return r

def halves(t, vl):
    """normal form after writing every 64-bit operand as low + 2^32*high"""
    mp = {}
    for v in vl:
        if v.w == 64:
            nm = str(v.a[0]) if v.op == 'xarg' else 'v%d' % v.id
            mp[v] = mk('cat', 64, (mk('xarg', 32, nm + 'l'), mk('xarg', 32, nm + 'h')))
    memo = {}
    def rec(x):
        if x in memo: return memo[x]
        r = x
        if x in mp: r = mp[x]
        elif x.op == 'P':
            p = ZERO
            for k, c in x.a[0].m.items():
                q = topoly(c)
                for a in k:
                    b = rec(a)
                    if b.op == 'cat':
                        pos = 0; e = ZERO
                        for part in b.a[0]:
                            e = e + zext(64, part).poly() * (1 << pos); pos += part.w
                    else: e = b.poly()
                    q = q * e
                p = p + q
            p = Poly({k: sgn(v, x.w) for k, v in p.m.items() if sgn(v, x.w)})
            r = P(x.w, p)
        else:
            na = [rec(y) if isinstance(y, Term) else tuple(rec(z) if isinstance(z, Term) else z for z in y) if isinstance(y, tuple) else y for y in x.a]
            if any(a is not b for a, b in zip(na, x.a)): r = rebuild(x, na)
        memo[x] = r
        return r
    return rec(t)

def eqregion(a, b, tv, vs):
    """a and b are equal because the region pins an operand to a constant or to another operand (integers only)"""
    mp = {}
    for c, v in tv.items():
        if c.op == 'icmp' and ((c.a[0] == 'eq' and v) or (c.a[0] == 'ne' and not v)):
            x, y = c.a[1], c.a[2]
            if x in vs: mp[x] = y.poly()
            elif y in vs: mp[y] = x.poly()
    if mp:
        if tsubst(a, mp) is tsubst(b, mp): return True
    # signed range pinning: !(x>c) & !(x<c) etc.
    for v in vs:
        lo, hi = -(1 << (v.w - 1)), (1 << (v.w - 1)) - 1
        for c, val in tv.items():
            if c.op == 'icmp' and c.a[1] is v and isc(c.a[2]):
                k = sgn(c.a[2].a[0], v.w); p = c.a[0] if val else NOT_I[c.a[0]]
                if p == 'slt': hi = min(hi, k - 1)
                elif p == 'sle': hi = min(hi, k)
                elif p == 'sgt': lo = max(lo, k + 1)
                elif p == 'sge': lo = max(lo, k)
                elif p == 'eq': lo = max(lo, k); hi = min(hi, k)
        if lo == hi:
            mp = {v: topoly(lo)}
            if tsubst(a, mp) is tsubst(b, mp): return True
    return False
