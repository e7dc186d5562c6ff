"""Interned bit-vector terms and integer polynomials: the abstract domain shared by the checks.

A Term denotes a fixed-width bit pattern as a function of the analysed function's inputs
(arguments, the initial memory, loop iteration numbers).  Address arithmetic and other integers that
do not come out of user data are Poly (affine/polynomial expressions over atoms, exact floor division)."""
import struct, math
from fractions import Fraction

# ------------------------------------------------------------------------------------------------ Poly
class Poly:
    __slots__ = ('m', '_h')
    def __init__(self, m):
        self.m = m; self._h = None
    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.m.items()))
        return self._h
    def __eq__(self, o): return isinstance(o, Poly) and self.m == o.m
    def __add__(self, o):
        o = topoly(o); m = dict(self.m)
        for k, v in o.m.items():
            nv = m.get(k, 0) + v
            if nv: m[k] = nv
            else: m.pop(k, None)
        return Poly(m)
    def __neg__(self): return Poly({k: -v for k, v in self.m.items()})
    def __sub__(self, o): return self + (-topoly(o))
    def __mul__(self, o):
        if isinstance(o, int):
            return Poly({k: v * o for k, v in self.m.items()}) if o else Poly({})
        m = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = tuple(sorted(k1 + k2, key=_tkey)); nv = m.get(k, 0) + v1 * v2
                if nv: m[k] = nv
                else: m.pop(k, None)
        return Poly(m)
    __radd__ = __add__
    __rmul__ = __mul__
    @property
    def const(self):
        if not self.m: return 0
        if len(self.m) == 1 and () in self.m: return self.m[()]
        return None
    def atoms(self):
        s = {}
        for k in self.m:
            for a in k: s[a] = 1
        return s
    def content(self):
        g = 0
        for k, v in self.m.items():
            g = math.gcd(g, v)
        return g
    def divisible(self, m): return all(v % m == 0 for v in self.m.values())
    def divc(self, m): return Poly({k: v // m for k, v in self.m.items()})
    def divexact(self, o):
        """exact polynomial division by a monomial-ish poly; None if not exact"""
        if not self.m: return ZERO
        c = o.const
        if c is not None:
            if c == 0: return None
            return self.divc(c) if self.divisible(c) else None
        if len(o.m) == 1:
            (ok, ov), = o.m.items(); r = {}
            for k, v in self.m.items():
                kk = list(k)
                for a in ok:
                    if a in kk: kk.remove(a)
                    else: return None
                if v % ov: return None
                r[tuple(kk)] = v // ov
            return Poly(r)
        # general: try leading-term division
        rem = self; q = ZERO
        lk = max(o.m, key=lambda k: (len(k), [_tkey(a) for a in k]))
        for _ in range(12):
            if not rem.m: return q
            for k, v in sorted(rem.m.items(), key=lambda kv: (-len(kv[0]), str(kv[0]))):
                kk = list(k); ok = True
                for a in lk:
                    if a in kk: kk.remove(a)
                    else: ok = False; break
                if ok and v % o.m[lk] == 0:
                    t = Poly({tuple(kk): v // o.m[lk]}); q = q + t; rem = rem - t * o; break
            else: return None
        return None
    def subst(self, mp):
        """substitute atoms (dict atom->Poly), recursively inside fd atoms"""
        if not any(a in mp or a.op in ('fd', 'smax0', 'smin', 'smax') for a in self.atoms()): return self
        r = ZERO
        for k, v in self.m.items():
            t = Poly({(): v})
            for a in k: t = t * subst_atom(a, mp)
            r = r + t
        return r
    def __repr__(self):
        if not self.m: return '0'
        out = []
        for k, v in sorted(self.m.items(), key=lambda kv: (-len(kv[0]), str(kv[0]))):
            s = '*'.join(str(a) for a in k)
            if not k: out.append(str(v))
            elif v == 1: out.append(s)
            elif v == -1: out.append('-' + s)
            else: out.append('%d*%s' % (v, s))
        return ' + '.join(out).replace('+ -', '- ')

def _tkey(a): return a.id
ZERO = Poly({})
def topoly(x):
    if isinstance(x, Poly): return x
    if isinstance(x, int): return Poly({(): x}) if x else ZERO
    if isinstance(x, Term): return x.poly()
    raise TypeError(x)
def pvar(t): return Poly({(t,): 1})

# ------------------------------------------------------------------------------------------------ Term
_tab = {}
class Term:
    __slots__ = ('op', 'w', 'a', 'id', 'data', 'its', '__weakref__')
    def __repr__(self): return tstr(self)
    def poly(self):
        if self.op == 'P': return self.a[0]
        if self.op == 'c': return topoly(sgn(self.a[0], self.w))
        return pvar(self)

DATAACC = set()      # (iteration, phi) of accumulators that hold array data
def mk(op, w, *a):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = Term(); t.op = op; t.w = w; t.a = a; t.id = len(_tab)
        d = False; its = frozenset()
        if op == 'it': its = frozenset([t])
        for x in a:
            if isinstance(x, Term): d = d or x.data; its = its | x.its
            elif isinstance(x, Poly):
                for y in x.atoms(): d = d or y.data; its = its | y.its
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Term): d = d or y.data; its = its | y.its
        if op in ('ldd', 'xarg') or op in ('acc', 'fold') and (a[0], a[1]) in DATAACC: d = True
        t.data = d; t.its = its
        _tab[k] = t
    return t

def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v
def C(w, v): return mk('c', w, v & ((1 << w) - 1))
def isc(t): return t.op == 'c'
def P(w, p):
    c = p.const
    if c is not None: return C(w, c)
    if len(p.m) == 1:
        (k, v), = p.m.items()
        if v == 1 and len(k) == 1 and k[0].w == w: return k[0]
    # canonical coefficients modulo 2^w for data-carrying polynomials
    if any(a.data for a in p.atoms()):
        p = Poly({k: sgn(v, w) for k, v in p.m.items() if sgn(v, w)})
        c = p.const
        if c is not None: return C(w, c)
        if len(p.m) == 1:
            (k, v), = p.m.items()
            if v == 1 and len(k) == 1 and k[0].w == w: return k[0]
    return mk('P', w, p)

def fd(p, m):
    """floor(p / m) for constant m > 0 as a Poly"""
    if m == 1: return p
    q = {}; r = {}
    for k, v in p.m.items():
        qq, rr = divmod(v, m)
        if k != () and rr > m - rr and False: pass
        if qq: q[k] = qq
        if rr: r[k] = rr
    rp = Poly(r); qp = Poly(q)
    if not r: return qp
    c = rp.const
    if c is not None: return qp + (c // m)
    # pull the gcd out of the non-constant part
    g = m
    for k, v in r.items():
        if k != (): g = math.gcd(g, v)
    if g > 1:
        rp = Poly({k: (v // g) for k, v in r.items()}); m2 = m // g
        if m2 == 1: return qp + rp
        return qp + fd(rp, m2)
    # nested floor: fd(fd(x,a)+c, b) kept as is; fd(fd(x,a),b)=fd(x,ab)
    if len(rp.m) == 1:
        (k, v), = rp.m.items()
        if v == 1 and len(k) == 1 and k[0].op == 'fd':
            return qp + fd(k[0].a[0], k[0].a[1] * m)
    return qp + pvar(mk('fd', 64, rp, m))

def pmod(p, m): return p - fd(p, m) * m

def smax0(p):
    c = p.const
    if c is not None: return topoly(max(0, c))
    return pvar(mk('smax0', 64, p))

def subst_atom(a, mp):
    if a in mp: return mp[a]
    if a.op == 'fd': return fd(a.a[0].subst(mp), a.a[1])
    if a.op == 'smax0':
        return smax0(a.a[0].subst(mp))
    if a.op in ('smin', 'smax') and isinstance(a.a[0], Poly):
        return pminmax(a.op, a.a[0].subst(mp), a.a[1].subst(mp))
    t = tsubst(a, mp)
    return t.poly() if isinstance(t, Term) else t

def pminmax(op, a, b):
    d = (a - b).const
    if d is not None:
        if op == 'smin': return a if d <= 0 else b
        return a if d >= 0 else b
    if b.const == 0 and op == 'smax': return smax0(a)
    if a.const == 0 and op == 'smax': return smax0(b)
    if repr(a) > repr(b): a, b = b, a
    return pvar(mk(op, 64, a, b))

_ts_cache = {}
def tsubst(t, mp, memo=None):
    """substitute atoms in a term (atom Term -> Poly)."""
    if memo is None: memo = {}
    if t in mp:
        v = mp[t]
        return P(t.w, v) if isinstance(v, Poly) else v
    r = memo.get(t)
    if r is not None: return r
    ch = False; na = []
    for x in t.a:
        if isinstance(x, Term): y = tsubst(x, mp, memo)
        elif isinstance(x, Poly): y = x.subst(mp)
        elif isinstance(x, tuple): y = tuple(tsubst(z, mp, memo) if isinstance(z, Term) else z for z in x)
        else: y = x
        ch = ch or (y is not x and y != x); na.append(y)
    if not ch: r = t
    elif t.op == 'P': r = P(t.w, na[0])
    elif t.op == 'fd': r = P(t.w, fd(na[0], na[1]))
    elif t.op == 'smax0': r = P(t.w, smax0(na[0]))
    elif t.op in ('smin', 'smax') and isinstance(na[0], Poly): r = P(t.w, pminmax(t.op, na[0], na[1]))
    else: r = rebuild(t, na)
    memo[t] = r
    return r

def rebuild(t, na):
    f = _builders.get(t.op)
    if f is not None: return f(t.w, *na)
    return mk(t.op, t.w, *na)

def tstr(t, depth=0):
    if depth > 12: return '...'
    o = t.op
    if o == 'c':
        v = sgn(t.a[0], t.w); return str(v) if abs(v) < 1 << 20 else hex(t.a[0])
    if o == 'xarg': return t.a[0]
    if o == 'arg': return t.a[0] if isinstance(t.a[0], str) else 'arg%d' % t.a[0]
    if o == 'it': return 'it%s' % t.a[0]
    if o == 'sym': return 'sym' + '_'.join(str(x) for x in t.a)
    if o == 'P': return '(%r)' % t.a[0]
    if o == 'fd': return 'floor((%r)/%d)' % t.a
    if o in ('ld', 'ldd'): return 'mem%d[%r]' % (t.w, t.a[0])
    if o == 'glob': return '&' + t.a[0]
    return '%s%d(%s)' % (o, t.w, ', '.join(tstr(x, depth + 1) if isinstance(x, Term) else str(x) for x in t.a))

# ------------------------------------------------------------------------------------------------ constructors
NOT_I = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP_I = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}
FBITS = {'false': 0, 'oeq': 1, 'ogt': 2, 'oge': 3, 'olt': 4, 'ole': 5, 'one': 6, 'ord': 7, 'uno': 8, 'ueq': 9, 'ugt': 10, 'uge': 11, 'ult': 12, 'ule': 13, 'une': 14, 'true': 15}
FNAME = {v: k for k, v in FBITS.items()}

def icmp_const(pred, a, b, w):
    sa, sb = sgn(a, w), sgn(b, w); a &= (1 << w) - 1; b &= (1 << w) - 1
    return {'eq': a == b, 'ne': a != b, 'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pred]

def icmp(w_, pred, a, b):
    if isc(a) and isc(b): return C(1, int(icmp_const(pred, a.a[0], b.a[0], a.w)))
    if isc(a) and not isc(b): a, b, pred = b, a, SWAP_I[pred]
    if a is b: return C(1, int(pred in ('eq', 'sle', 'sge', 'ule', 'uge')))
    if a.op == 'ite' and isc(b):
        x, y = a.a[1], a.a[2]
        if isc(x) and isc(y):
            r1 = icmp(1, pred, x, b); r2 = icmp(1, pred, y, b)
            return ite(1, a.a[0], r1, r2)
    if a.w == 1 and isc(b):
        if pred in ('eq', 'ne'):
            return a if (b.a[0] == 1) == (pred == 'eq') else bnot(a)
    if pred in ('eq', 'ne') and isc(b) and b.a[0] == EXPM.get(a.w) and a.op == 'and' and isc(a.a[1]) and a.a[1].a[0] == b.a[0]:
        # all exponent bits set  <=>  magnitude >= infinity
        return mk('icmp', 1, 'uge' if pred == 'eq' else 'ult', bitop('and', a.a[0], C(a.w, (1 << (a.w - 1)) - 1)), b)
    return mk('icmp', 1, pred, a, b)
EXPM = {32: 0x7f800000, 64: 0x7ff0000000000000}

def fcmp(w_, pred, a, b):
    if pred == 'true': return C(1, 1)
    if pred == 'false': return C(1, 0)
    if isc(b) and a.op == 'and' and isc(a.a[1]) and a.w in EXPM and a.a[1].a[0] == EXPM[a.w] and b.a[0] == EXPM[a.w]:
        # exponent field of a float compared with infinity: never NaN, never above
        p = {'oeq': 'eq', 'ueq': 'eq', 'oge': 'eq', 'uge': 'eq', 'one': 'ne', 'une': 'ne', 'olt': 'ne', 'ult': 'ne'}.get(pred)
        if p: return icmp(1, p, a, b)
        return C(1, int(pred in ('ole', 'ule', 'ord')))
    return mk('fcmp', 1, pred, a, b)

def bnot(t):
    if isc(t): return C(t.w, ~t.a[0])
    if t.w == 1:
        if t.op == 'icmp': return mk('icmp', 1, NOT_I[t.a[0]], t.a[1], t.a[2])
        if t.op == 'fcmp': return mk('fcmp', 1, FNAME[15 - FBITS[t.a[0]]], t.a[1], t.a[2])
        if t.op == 'ite' : return ite(1, t.a[0], bnot(t.a[1]), bnot(t.a[2]))
    return bitop('xor', t, C(t.w, -1))

def ite(w, c, a, b):
    if isc(c): return a if c.a[0] else b
    if a is b: return a
    if w == 1 and isc(a) and isc(b):
        return c if a.a[0] else bnot(c)
    if c.op == 'xor' and isc(c.a[1]): return ite(w, c.a[0], b, a)
    if a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if isc(a) and isc(b) and sgn(a.a[0], w) == 0 and w > 1 and c.op in ('icmp', 'fcmp'):
        return mk('ite', w, bnot(c), b, a)
    return mk('ite', w, c, a, b)

def lift(f, *ts):
    """apply f to constant-valued ite trees sharing one condition"""
    c = None
    for t in ts:
        if isc(t): continue
        if t.op == 'ite' and isc(t.a[1]) and isc(t.a[2]):
            if c is None: c = t.a[0]
            elif c is not t.a[0]: return None
        else: return None
    if c is None: return f(*ts)
    l = f(*[t if isc(t) else t.a[1] for t in ts]); r = f(*[t if isc(t) else t.a[2] for t in ts])
    return ite(l.w, c, l, r)

def bitop(op, a, b):
    w = a.w
    if isc(a) and isc(b):
        x, y = a.a[0], b.a[0]
        return C(w, x & y if op == 'and' else x | y if op == 'or' else x ^ y)
    if isc(a) or (not isc(b) and a.id > b.id): a, b = b, a
    if isc(b):
        v = b.a[0]; full = (1 << w) - 1
        if op == 'and':
            if v == 0: return b
            if v == full: return a
            if a.op == 'and' and isc(a.a[1]): return bitop('and', a.a[0], C(w, v & a.a[1].a[0]))
            if v in (0xff, 0xffff, 0xffffffff) and a.data: return zext(w, tslice(a, 0, v.bit_length()))
        elif op == 'or':
            if v == 0: return a
            if v == full: return b
        else:
            if v == 0: return a
            if v == full and w == 1 and a.op in ('icmp', 'fcmp', 'ite'): return bnot(a)
            if a.op == 'xor' and isc(a.a[1]): return bitop('xor', a.a[0], C(w, a.a[1].a[0] ^ v))
    if a is b: return a if op != 'xor' else C(w, 0)
    if w > 1:
        r = lift(lambda x, y: bitop(op, x, y), a, b)
        if r is not None: return r
    return mk(op, w, a, b)

def cat(parts):
    """parts low-to-high"""
    out = []
    for p in parts:
        if p.op == 'cat': seq = p.a[0]
        else: seq = (p,)
        for q in seq:
            if out:
                l = out[-1]
                if isc(l) and isc(q): out[-1] = C(l.w + q.w, l.a[0] | q.a[0] << l.w); continue
                if l.op == q.op and l.op in ('ld', 'ldd') and l.w % 8 == 0 and (q.a[0] - l.a[0]).const == l.w // 8 and l.a[1:] == q.a[1:] and q.w % 8 == 0:
                    out[-1] = mk(l.op, l.w + q.w, *l.a); continue
                if l.op == 'slice' and q.op == 'slice' and l.a[0] is q.a[0] and l.a[1] + l.w == q.a[1]:
                    out[-1] = tslice(l.a[0], l.a[1], l.w + q.w); continue
                if (l.op == 'ite' or q.op == 'ite'):
                    r = lift(lambda x, y: C(x.w + y.w, x.a[0] | y.a[0] << x.w), l, q)
                    if r is not None: out[-1] = r; continue
            out.append(q)
    if len(out) == 1: return out[0]
    return mk('cat', sum(p.w for p in out), tuple(out))

def tslice(t, off, n):
    if off == 0 and n == t.w: return t
    o = t.op
    if o == 'c': return C(n, t.a[0] >> off)
    if o in ('ld', 'ldd') and off % 8 == 0 and n % 8 == 0: return mk(o, n, t.a[0] + off // 8, *t.a[1:])
    if o == 'cat':
        parts = []; pos = 0
        for p in t.a[0]:
            lo = max(off, pos); hi = min(off + n, pos + p.w)
            if lo < hi: parts.append(tslice(p, lo - pos, hi - lo))
            pos += p.w
        return cat(parts)
    if o == 'slice': return tslice(t.a[0], t.a[1] + off, n)
    if o in ('and', 'or', 'xor'): return bitop(o, tslice(t.a[0], off, n), tslice(t.a[1], off, n))
    if o == 'ite': return ite(n, t.a[0], tslice(t.a[1], off, n), tslice(t.a[2], off, n))
    if o == 'zext':
        x = t.a[0]
        if off >= x.w: return C(n, 0)
        if off + n <= x.w: return tslice(x, off, n)
        return cat([tslice(x, off, x.w - off), C(n - (x.w - off), 0)])
    if o == 'sext':
        x = t.a[0]
        if off + n <= x.w: return tslice(x, off, n)
        if x.w == 1: return ite(n, x, C(n, -1), C(n, 0))
    if o == 'P' and off == 0 and any(a.data for a in t.a[0].atoms()):
        return trunc(n, t)
    return mk('slice', n, t, off)

def trunc(n, t):
    """low n bits"""
    if n == t.w: return t
    if t.op == 'P' and t.data:
        return mk('slice', n, t, 0)
    return tslice(t, 0, n)

def zext(w, t):
    if w == t.w: return t
    if isc(t): return C(w, t.a[0])
    if t.w == 1: return ite(w, t, C(w, 1), C(w, 0))
    if t.op == 'ite':
        return ite(w, t.a[0], zext(w, t.a[1]), zext(w, t.a[2]))
    if t.op == 'zext': return mk('zext', w, t.a[0])
    return mk('zext', w, t)

def sext(w, t):
    if w == t.w: return t
    if isc(t): return C(w, sgn(t.a[0], t.w))
    if t.w == 1: return ite(w, t, C(w, -1), C(w, 0))
    if t.op == 'ite':
        return ite(w, t.a[0], sext(w, t.a[1]), sext(w, t.a[2]))
    if t.op == 'sext': return mk('sext', w, t.a[0])
    return mk('sext', w, t)

def _isnonneg_data(t): return False

def iadd(w, a, b): return P(w, a.poly() + b.poly())
def isub(w, a, b): return P(w, a.poly() - b.poly())
def imul(w, a, b):
    return P(w, a.poly() * b.poly())

def binc(op, w, a, b):
    """shifts and divisions on data terms"""
    if isc(a) and isc(b):
        x, y = a.a[0], b.a[0]
        if op == 'shl': return C(w, x << y) if y < w else C(w, 0)
        if op == 'lshr': return C(w, x >> y) if y < w else C(w, 0)
        if op == 'ashr': return C(w, sgn(x, w) >> min(y, w - 1))
        if y:
            if op == 'udiv': return C(w, x // y)
            if op == 'urem': return C(w, x % y)
            sx, sy = sgn(x, w), sgn(y, w)
            q = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
            if op == 'sdiv': return C(w, q)
            if op == 'srem': return C(w, sx - q * sy)
    if isc(b):
        y = b.a[0]
        if op in ('shl', 'lshr', 'ashr') and y == 0: return a
        if op == 'ashr' and y == w - 1: return ite(w, icmp(1, 'slt', a, C(w, 0)), C(w, -1), C(w, 0))
        if op == 'lshr' and y < w: return cat([tslice(a, y, w - y), C(y, 0)])
        if op == 'shl' and y < w:
            return P(w, a.poly() * (1 << y))
        r = lift(lambda x, z: binc(op, w, x, z), a, b)
        if r is not None: return r
    return mk(op, w, a, b)

def minmax(op, w, a, b):
    if isc(a) and isc(b):
        x, y = a.a[0], b.a[0]; k = (lambda v: sgn(v, w)) if op[0] == 's' else (lambda v: v)
        return C(w, (min if op.endswith('min') else max)(x, y, key=k))
    if a is b: return a
    if a.id > b.id: a, b = b, a
    return mk(op, w, a, b)

COMM_F = {'fadd', 'fmul'}
def fop(op, w, a, b):
    if op in COMM_F and a.id > b.id: a, b = b, a
    return mk(op, w, a, b)

def fneg(w, a): return bitop('xor', a, C(w, 1 << (w - 1)))
def fabs_(w, a): return bitop('and', a, C(w, (1 << (w - 1)) - 1)) if w != 80 else bitop('and', a, C(80, (1 << 79) - 1))

def sat(wfrom, wto, signed, t):
    """saturating narrow of signed wfrom value"""
    def f(x):
        v = sgn(x.a[0], wfrom)
        lo, hi = (-(1 << (wto - 1)), (1 << (wto - 1)) - 1) if signed else (0, (1 << wto) - 1)
        return C(wto, max(lo, min(hi, v)))
    if isc(t): return f(t)
    r = lift(f, t)
    if r is not None: return r
    return mk('sat' if signed else 'usat', wto, t)

_builders = {
    'icmp': lambda w, p, a, b: icmp(w, p, a, b), 'fcmp': lambda w, p, a, b: fcmp(w, p, a, b), 'ite': ite,
    'and': lambda w, a, b: bitop('and', a, b), 'or': lambda w, a, b: bitop('or', a, b), 'xor': lambda w, a, b: bitop('xor', a, b),
    'cat': lambda w, parts: cat(list(parts)), 'slice': lambda w, t, off: tslice(t, off, w),
    'zext': zext, 'sext': sext, 'fadd': lambda w, a, b: fop('fadd', w, a, b), 'fmul': lambda w, a, b: fop('fmul', w, a, b),
    'umin': lambda w, a, b: minmax('umin', w, a, b), 'umax': lambda w, a, b: minmax('umax', w, a, b),
    'smin': lambda w, a, b: minmax('smin', w, a, b), 'smax': lambda w, a, b: minmax('smax', w, a, b),
    'shl': lambda w, a, b: binc('shl', w, a, b), 'lshr': lambda w, a, b: binc('lshr', w, a, b), 'ashr': lambda w, a, b: binc('ashr', w, a, b),
}

# ------------------------------------------------------------------------------------------------ evaluation of a term at a point
class Undef(Exception): pass
def f2b(w, v):
    if w == 32:
        try: return struct.unpack('<I', struct.pack('<f', v))[0]
        except OverflowError: return 0x7f800000 | (0x80000000 if v < 0 else 0)
    return struct.unpack('<Q', struct.pack('<d', v))[0]
def b2f(w, b):
    if w == 32: return struct.unpack('<f', struct.pack('<I', b & 0xffffffff))[0]
    return struct.unpack('<d', struct.pack('<Q', b & (2**64 - 1)))[0]
# f80 values are modelled as doubles placed in an 80-bit slot (tag bit pattern); only used for refutation witnesses
def getf(w, b):
    if w == 80: return b2f(64, b & (2**64 - 1))
    return b2f(w, b)
def putf(w, v):
    if w == 80: return f2b(64, v)
    return f2b(w, v)
def fdivv(a, b):
    if b == 0:
        if a == 0 or a != a: return math.nan
        return math.copysign(math.inf, math.copysign(1, a) * math.copysign(1, b))
    try: return a / b
    except OverflowError: return math.inf
def fcmp_eval(pred, x, y):
    u = x != x or y != y
    v = 8 if u else (1 if x == y else 2 if x > y else 4)
    return 1 if FBITS[pred] & v else 0

def tshift(v, off): return v >> off
SYMDEF = {}     # named quotients -> defining floor term
def ev(t, env, memo):
    """env: dict Term -> int bits for leaves; callable env['?'](t) for others"""
    r = memo.get(t)
    if r is not None: return r
    o = t.op; w = t.w; m = (1 << w) - 1
    if t in env: r = env[t] & m
    elif o == 'c': r = t.a[0]
    elif o == 'P':
        s = 0
        for k, c in t.a[0].m.items():
            x = c
            for a in k: x *= sgn(ev(a, env, memo), a.w)
            s += x
        r = s & m
    elif o == 'icmp': r = int(icmp_const(t.a[0], ev(t.a[1], env, memo), ev(t.a[2], env, memo), t.a[1].w))
    elif o == 'fcmp': r = fcmp_eval(t.a[0], getf(t.a[1].w, ev(t.a[1], env, memo)), getf(t.a[2].w, ev(t.a[2], env, memo)))
    elif o == 'ite': r = ev(t.a[1] if ev(t.a[0], env, memo) else t.a[2], env, memo)
    elif w == 80 and o in ('and', 'or', 'xor', 'cat', 'slice') or o in ('slice', 'zext', 'sext') and t.a[0].w == 80: raise Undef('bits of an 80-bit float')
    elif o in ('fnegx', 'fabsx'):
        x = getf(w, ev(t.a[0], env, memo)); r = putf(w, -x if o == 'fnegx' else abs(x))
    elif o == 'and': r = ev(t.a[0], env, memo) & ev(t.a[1], env, memo)
    elif o == 'or': r = ev(t.a[0], env, memo) | ev(t.a[1], env, memo)
    elif o == 'xor': r = ev(t.a[0], env, memo) ^ ev(t.a[1], env, memo)
    elif o == 'cat':
        r = 0; pos = 0
        for p in t.a[0]: r |= ev(p, env, memo) << pos; pos += p.w
    elif o == 'slice': r = (ev(t.a[0], env, memo) >> t.a[1]) & m
    elif o == 'zext': r = ev(t.a[0], env, memo)
    elif o == 'sext': r = sgn(ev(t.a[0], env, memo), t.a[0].w) & m
    elif o in ('umin', 'umax', 'smin', 'smax') and isinstance(t.a[0], Term):
        x, y = ev(t.a[0], env, memo), ev(t.a[1], env, memo)
        k = (lambda v: sgn(v, w)) if o[0] == 's' else (lambda v: v)
        r = (min if o.endswith('min') else max)(x, y, key=k)
    elif o in ('shl', 'lshr', 'ashr'):
        x, y = ev(t.a[0], env, memo), ev(t.a[1], env, memo)
        if y >= w: raise Undef
        r = (x << y if o == 'shl' else x >> y if o == 'lshr' else sgn(x, w) >> y) & m
    elif o in ('sdiv', 'srem', 'udiv', 'urem'):
        x, y = ev(t.a[0], env, memo), ev(t.a[1], env, memo)
        if y == 0: raise Undef
        if o[0] == 'u': r = x // y if o == 'udiv' else x % y
        else:
            sx, sy = sgn(x, w), sgn(y, w); q = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
            r = (q if o == 'sdiv' else sx - q * sy) & m
    elif o == 'iabs':
        x = sgn(ev(t.a[0], env, memo), w); r = abs(x) & m
    elif o in ('fadd', 'fsub', 'fmul', 'fdiv'):
        x, y = getf(w, ev(t.a[0], env, memo)), getf(w, ev(t.a[1], env, memo))
        try: v = x + y if o == 'fadd' else x - y if o == 'fsub' else x * y if o == 'fmul' else fdivv(x, y)
        except OverflowError: v = math.inf
        r = putf(w, v)
    elif o == 'frem':
        x, y = getf(w, ev(t.a[0], env, memo)), getf(w, ev(t.a[1], env, memo))
        r = putf(w, math.nan if x != x or y != y or math.isinf(x) or y == 0 else math.fmod(x, y))
    elif o in ('floor', 'ceil', 'ftrunc', 'rint', 'sqrt', 'round'):
        x = getf(w, ev(t.a[0], env, memo))
        if x != x or math.isinf(x): v = x if not (o == 'sqrt' and x < 0) else math.nan
        elif o == 'sqrt': v = math.sqrt(x) if x > 0 else (x if x == 0 else math.nan)
        else:
            v = {'floor': math.floor, 'ceil': math.ceil, 'ftrunc': math.trunc, 'rint': round, 'round': lambda z: math.floor(abs(z) + .5) * (1 if z > 0 else -1)}[o](x)
            v = math.copysign(float(v), x) if v == 0 else float(v)
        r = putf(w, v)
    elif o in ('vmin', 'vmax'):   # x86 min/max: a<b ? a : b
        ba, bb = ev(t.a[0], env, memo), ev(t.a[1], env, memo)
        x, y = getf(w, ba), getf(w, bb)
        r = ba if (x < y if o == 'vmin' else x > y) else bb
    elif o == 'fpclass':
        x = getf(t.a[0].w, ev(t.a[0], env, memo)); mask = t.a[1]; wb = t.a[0].w
        neg = math.copysign(1, x) < 0 if x == x else False
        if x != x: bit = 2  # assume quiet
        elif math.isinf(x): bit = 4 if neg else 512
        elif x == 0: bit = 32 if neg else 64
        else:
            tiny = abs(x) < (2.0**-126 if wb == 32 else 2.0**-1022)
            bit = (16 if neg else 128) if tiny else (8 if neg else 256)
        r = int(bool(mask & bit))
    elif o == 'fpext': r = putf(w, getf(t.a[0].w, ev(t.a[0], env, memo)))
    elif o == 'fptrunc': r = putf(w, getf(t.a[0].w, ev(t.a[0], env, memo)))
    elif o == 'sitofp': r = putf(w, float(sgn(ev(t.a[0], env, memo), t.a[0].w)))
    elif o == 'uitofp': r = putf(w, float(ev(t.a[0], env, memo)))
    elif o in ('fptosi', 'fptoui'):
        x = getf(t.a[0].w, ev(t.a[0], env, memo))
        if x != x or math.isinf(x): raise Undef
        r = int(x) & m
    elif o in ('sat', 'usat'):
        v = sgn(ev(t.a[0], env, memo), t.a[0].w)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if o == 'sat' else (0, m)
        r = max(lo, min(hi, v)) & m
    elif o == 'fd': 
        r = (pev(t.a[0], env, memo) // t.a[1]) & m
    elif o == 'smax0': r = max(0, pev(t.a[0], env, memo)) & m
    elif o in ('smin', 'smax'): r = (min if o == 'smin' else max)(pev(t.a[0], env, memo), pev(t.a[1], env, memo)) & m
    elif t in SYMDEF: r = ev(SYMDEF[t], env, memo)
    elif o == 'call' and '?' in env: r = env['?'](t, [ev(x, env, memo) for x in t.a[1:]]) & m
    else: raise Undef(o)
    memo[t] = r
    return r

def pev(p, env, memo=None):
    if memo is None: memo = {}
    s = 0
    for k, c in p.m.items():
        x = c
        for a in k: x *= sgn(ev(a, env, memo), a.w)
        s += x
    return s
