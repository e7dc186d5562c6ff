"""Path-sensitive abstract interpretation of canonicalised LLVM IR.

Paths through the loop-collapsed CFG are enumerated; every loop is summarised by affine recurrences
(header phi = start + step*iteration) and a symbolic trip count.  No solver is used: branch conditions are
decided by interval/affine reasoning over the path's own facts, otherwise both successors are followed."""
import re, itertools
from fractions import Fraction
from terms import *
import terms
import terms

class TooComplex(Exception): pass
class Unsupported(Exception): pass

_uid = itertools.count(1)
FW = {'float': 32, 'double': 64, 'x86_fp80': 80, 'half': 16}
_tw = {}
def width(t):
    """(nlanes or None, elemwidth)"""
    r = _tw.get(t)
    if r is not None: return r
    if t == 'ptr': r = (None, 64)
    elif t in FW: r = (None, FW[t])
    elif re.match(r'i\d+$', t): r = (None, int(t[1:]))
    elif t.startswith('<'):
        m = re.match(r'<(\d+) x (\w+)>$', t); r = (int(m.group(1)), width(m.group(2))[1])
    else: r = (None, 0)
    _tw[t] = r
    return r
def isfloat(t): return t in FW or (t.startswith('<') and t.split(' x ')[1][:-1] in FW)

class Vec:
    __slots__ = ('l', 'w')
    def __init__(self, l, w): self.l = l; self.w = w
    def cat(self): return cat(self.l)

def relane(v, n, w):
    """reinterpret value v as n lanes of width w (n None = scalar)"""
    if isinstance(v, Vec):
        if n is not None and v.w == w: return v
        if n is None: return cat(v.l) if len(v.l) > 1 else v.l[0]
        if w < v.w:
            k = v.w // w; return Vec([tslice(x, i * w, w) for x in v.l for i in range(k)], w)
        k = w // v.w
        return Vec([cat(v.l[i * k:(i + 1) * k]) for i in range(n)], w)
    if n is None: return v
    return Vec([tslice(v, i * w, w) for i in range(n)], w)

# ------------------------------------------------------------------------------------------------ facts
class Facts:
    __slots__ = ('sub', 'ge', 'ne', 'ops', 'iv', 'bad')
    def __init__(self):
        self.sub = {}; self.ge = []; self.ne = []; self.ops = []; self.iv = {}; self.bad = False
    def copy(self):
        f = Facts.__new__(Facts); f.sub = dict(self.sub); f.ge = list(self.ge); f.ne = list(self.ne); f.ops = list(self.ops); f.iv = dict(self.iv); f.bad = self.bad
        return f
    def norm(self, p): return p.subst(self.sub) if self.sub else p
    def addge(self, p):
        p = self.norm(p)
        c = p.const
        if c is not None:
            if c < 0: self.bad = True
            return
        if len(p.m) == 1 or (len(p.m) == 2 and () in p.m):
            k = next(k for k in p.m if k != ())
            if len(k) == 1:
                a = k[0]; v = p.m[k]; c = p.m.get((), 0)
                lo, hi = self.iv.get(a, (None, None))
                if v > 0:
                    b = -(c // v); lo = b if lo is None else max(lo, b)
                else:
                    b = c // (-v); hi = b if hi is None else min(hi, b)
                if lo is not None and hi is not None and lo > hi: self.bad = True
                self.iv[a] = (lo, hi)
                if lo is not None and lo == hi and a.op in ('arg', 'ld'): self.addeq(pvar(a) - lo)
                return
        if p not in self.ge: self.ge.append(p)
        if self.hi(p) is not None and self.hi(p) < 0: self.bad = True
    def addeq(self, p):
        p = self.norm(p); c = p.const
        if c is not None:
            if c != 0: self.bad = True
            return
        # a == m*floor(a/m): name the quotient
        if len(p.m) == 2:
            for (k1, v1), (k2, v2) in (tuple(p.m.items()), tuple(p.m.items())[::-1]):
                if len(k1) == 1 and len(k2) == 1 and k2[0].op == 'fd' and v2 == -v1 * k2[0].a[1] and k2[0].a[0] == pvar(k1[0]):
                    q = mk('sym', 64, 'quot', k2[0].id); SYMDEF[q] = k2[0]
                    self._sub(k1[0], pvar(q) * k2[0].a[1]); return
        # an atom with coefficient +-1 that does not occur elsewhere in p
        cands = []
        for k, v in p.m.items():
            if len(k) == 1 and abs(v) == 1 and k[0].op in ('arg', 'ld', 'it', 'sym'):
                a = k[0]
                rest = Poly({kk: vv for kk, vv in p.m.items() if kk != k})
                if not occurs(a, rest): cands.append((a, rest, v))
        if not cands:
            # common factor
            g = p.content()
            if g > 1 and not getattr(self, '_r', False):
                return self.addeq(p.divc(g))
            lin = [(k, v) for k, v in p.m.items() if len(k) == 1 and k[0].op in ('arg', 'ld', 'it', 'sym')]
            for k, v in lin:
                rest = Poly({kk: vv for kk, vv in p.m.items() if kk != k})
                if rest.divisible(abs(v)) and not occurs(k[0], rest):
                    self._sub(k[0], -rest.divc(v) if v > 0 else rest.divc(-v)); return
            self.ge.append(p); self.ge.append(-p); return
        cands.sort(key=lambda t: (t[0].op != 'arg', -t[0].id))
        a, rest, v = cands[0]
        self._sub(a, rest * (-v))
    def _sub(self, a, q):
        mp = {a: q}
        self.sub = {k: v.subst(mp) for k, v in self.sub.items()}
        self.sub[a] = q
        iv = self.iv.pop(a, None)
        oldge, self.ge = self.ge, []
        for f in oldge: self.addge(f)
        oldne, self.ne = self.ne, []
        for f in oldne: self.addne(f)
        oldiv, self.iv = self.iv, {}
        for b, (lo, hi) in oldiv.items():
            if lo is not None: self.addge(pvar(b) - lo)
            if hi is not None: self.addge(topoly(hi) - pvar(b))
        if iv:
            if iv[0] is not None: self.addge(q - iv[0])
            if iv[1] is not None: self.addge(topoly(iv[1]) - q)
    def addne(self, p):
        p = self.norm(p); c = p.const
        if c is not None:
            if c == 0: self.bad = True
            return
        if p not in self.ne: self.ne.append(p)
        lo, hi = self.lo(p), self.hi(p)
        if lo == 0: self.addge(p - 1)
        elif hi == 0: self.addge(-p - 1)
    def atomlo(self, a, d=0):
        lo = self.iv.get(a, (None, None))[0]
        if a.op in ('smax0',): lo = 0 if lo is None else max(lo, 0)
        if a.op == 'fd':
            l = self._lo(a.a[0], 1) if d else self._iv(a.a[0], True, 0)
            if l is not None:
                l = l // a.a[1]; lo = l if lo is None else max(lo, l)
        if a.op in ('zext',) : lo = 0 if lo is None else max(lo, 0)
        if a.op == 'it': lo = 0 if lo is None else max(lo, 0)
        return lo
    def atomhi(self, a, d=0):
        hi = self.iv.get(a, (None, None))[1]
        if a.op == 'fd':
            l = self._hi(a.a[0], 1) if d else self._iv(a.a[0], False, 0)
            if l is not None:
                l = l // a.a[1]; hi = l if hi is None else min(hi, l)
        if a.op == 'zext':
            b = (1 << a.a[0].w) - 1; hi = b if hi is None else min(hi, b)
        return hi
    def _iv(self, p, want_lo, d=0):
        s = 0
        for k, v in p.m.items():
            if k == (): s += v; continue
            if len(k) == 1:
                b = self.atomlo(k[0], d) if (v > 0) == want_lo else self.atomhi(k[0], d)
                if b is None: return None
                s += v * b
            else:
                if (v > 0) == want_lo:
                    pr = 1
                    for a in k:
                        l = self.atomlo(a, d)
                        if l is None or l < 0: return None
                        pr *= l
                    s += v * pr
                else:
                    pr = 1
                    for a in k:
                        l = self.atomlo(a, d); h = self.atomhi(a, d)
                        if l is None or l < 0 or h is None: return None
                        pr *= h
                    s += v * pr
        return s
    def _lo(self, p, depth):
        c = p.const
        if c is not None: return c
        best = self._iv(p, True, 1 if depth >= 2 else 0)
        if depth <= 0: return best
        fs = list(self.ge)
        for a in p.atoms():
            if a.op == 'fd':
                q, m = a.a; va = pvar(a)
                fs.append(q - va * m); fs.append(va * m - q + (m - 1))
            elif a.op == 'smax0':
                fs.append(pvar(a) - a.a[0])
            elif a.op == 'smin' and isinstance(a.a[0], Poly):
                fs.append(a.a[0] - pvar(a)); fs.append(a.a[1] - pvar(a))
            elif a.op == 'smax' and isinstance(a.a[0], Poly):
                fs.append(pvar(a) - a.a[0]); fs.append(pvar(a) - a.a[1])
        for f in fs:
            for k, v in f.m.items():
                if k == (): continue
                pv_ = p.m.get(k)
                if pv_ is None or (pv_ > 0) != (v > 0): continue
                # p - c*f with c = pv/v > 0 ; scale to stay integral: (v*p - pv*f)/|v|
                q = p * abs(v) - f * abs(pv_)
                l = self._lo(q, depth - 1)
                if l is not None:
                    l = -((-l) // abs(v))
                    if best is None or l > best: best = l
        return best
    def _hi(self, p, depth):
        l = self._lo(-p, depth)
        return None if l is None else -l
    def lo(self, p): return self._lo(self.norm(p), 3)
    def hi(self, p): return self._hi(self.norm(p), 3)

    # ---- conditions: ('icmp',pred,a,b) terms of width 1
    def decide(self, c):
        if isc(c): return bool(c.a[0])
        if c.op == 'and':
            x, y = self.decide(c.a[0]), self.decide(c.a[1])
            if x is False or y is False: return False
            if x and y: return True
            return None
        if c.op == 'or':
            x, y = self.decide(c.a[0]), self.decide(c.a[1])
            if x or y: return True
            if x is False and y is False: return False
            return None
        if c.op == 'xor' and isc(c.a[1]):
            x = self.decide(c.a[0]); return None if x is None else not x
        if c.op == 'ite':
            x = self.decide(c.a[0])
            if x is not None: return self.decide(c.a[1] if x else c.a[2])
            y, z = self.decide(c.a[1]), self.decide(c.a[2])
            return y if y is not None and y == z else None
        for k, v in self.ops:
            if k is c: return v
            if c.op == 'icmp' and k.op == 'icmp' and k.a[1:] == c.a[1:] and k.a[0] == NOT_I[c.a[0]]: return not v
        if c.op == 'icmp':
            pred, a, b = c.a
            pa, pb = a.poly(), b.poly()
            d = self.norm(pa - pb)
            if pred in ('eq', 'ne'):
                cc = d.const
                if cc is not None: return (cc == 0) == (pred == 'eq')
                if a.data or b.data: return None
                if d in self.ne or -d in self.ne: return pred == 'ne'
                lo, hi = self.lo(d), self.hi(d)
                if (lo is not None and lo > 0) or (hi is not None and hi < 0): return pred == 'ne'
                if lo == 0 and hi == 0: return pred == 'eq'
                return None
            if a.data or b.data: return None
            if pred[0] == 'u':
                # unsigned compare: treat as integers when both sides are provably/assumed non-negative
                ca, cb = pa.const, pb.const
                la = self.lo(pa)
                if cb is not None and not (la is not None and la >= 0) and not isptr(a):
                    # x <u c  <=>  0<=x<c
                    ha = self.hi(pa)
                    if ha is not None and ha < 0: return pred in ('ugt', 'uge')
                    return None if not (ha is not None and la is not None) else None
            if pred[1:] == 'lt': q, strict = pb - pa - 1, None
            elif pred[1:] == 'le': q = pb - pa
            elif pred[1:] == 'gt': q = pa - pb - 1
            else: q = pa - pb
            lo, hi = self.lo(q), self.hi(q)
            if lo is not None and lo >= 0: return True
            if hi is not None and hi < 0: return False
        return None
    def assume(self, c, val):
        """list of Facts (a disjunction) obtained by adding cond==val to a copy"""
        if isc(c): return [self] if bool(c.a[0]) == val else []
        if c.op == 'xor' and isc(c.a[1]) and c.w == 1: return self.assume(c.a[0], not val)
        if c.op in ('and', 'or'):
            conj = (c.op == 'and') == val
            if conj:
                r = []
                for f in self.assume(c.a[0], val): r += f.assume(c.a[1], val)
                return r
            r = list(self.assume(c.a[0], val))
            for f in self.assume(c.a[0], not val): r += f.assume(c.a[1], val)
            return r
        if c.op == 'ite':
            r = []
            for f in self.assume(c.a[0], True): r += f.assume(c.a[1], val)
            for f in self.assume(c.a[0], False): r += f.assume(c.a[2], val)
            return r
        d = self.decide(c)
        if d is not None: return [self] if d == val else []
        f = self.copy(); f.ops.append((c, val))
        if c.op == 'icmp' and not (c.a[1].data or c.a[2].data):
            pred, a, b = c.a
            if not val: pred = NOT_I[pred]
            pa, pb = a.poly(), b.poly()
            if pred == 'eq': f.addeq(pa - pb)
            elif pred == 'ne': f.addne(pa - pb)
            else:
                if pred[0] == 'u' and pb.const is not None and not isptr(a):
                    la = f.lo(pa)
                    if la is None or la < 0:
                        if pred in ('ult', 'ule'):
                            f.addge(pa)
                        else:
                            g = f.copy(); g.addge(-pa - 1)     # negative seen as huge
                            f.addge(pa)
                            f.addge(pa - pb - 1 if pred == 'ugt' else pa - pb)
                            return [x for x in (f, g) if not x.bad]
                if pred[1:] == 'lt': f.addge(pb - pa - 1)
                elif pred[1:] == 'le': f.addge(pb - pa)
                elif pred[1:] == 'gt': f.addge(pa - pb - 1)
                else: f.addge(pa - pb)
        return [] if f.bad else [f]

def occurs(a, p):
    for b in p.atoms():
        if b is a: return True
        for x in b.a:
            if isinstance(x, Poly) and occurs(a, x): return True
            if isinstance(x, Term) and (x is a or occurs(a, x.poly()) if x.op != 'c' and x is not b else False): return True
    return False

def isptr(t):
    for a in t.poly().atoms():
        if a.op in ('arg',) and len(a.a) > 1 and a.a[1] == 'p': return True
        if a.op in ('alloca', 'glob'): return True
    return False

# ------------------------------------------------------------------------------------------------ events / state
class Event:
    """k: 'load'|'store'|'call'|'rmw'; addr Poly; w bytes; v value (Term or Vec); ctx: ((it,count),...)"""
    __slots__ = ('k', 'i', 'addr', 'n', 'v', 'ctx', 'al', 'name', 'args', 'conds', 'pos', 'res')
    def __init__(self, k, i, addr=None, n=0, v=None, al=0, name=None, args=None, res=None):
        self.k = k; self.i = i; self.addr = addr; self.n = n; self.v = v; self.al = al; self.name = name; self.args = args; self.ctx = (); self.conds = (); self.res = res
    def clone(self):
        e = Event(self.k, self.i, self.addr, self.n, self.v, self.al, self.name, self.args, self.res); e.ctx = self.ctx; e.conds = self.conds
        return e
    def subst(self, mp):
        e = self.clone()
        if e.addr is not None: e.addr = e.addr.subst(mp)
        if isinstance(e.v, Vec): e.v = Vec([tsubst(x, mp) for x in e.v.l], e.v.w)
        elif isinstance(e.v, Term): e.v = tsubst(e.v, mp)
        if e.args: e.args = [vsubst(x, mp) for x in e.args]
        e.ctx = tuple((it, None if c is None else c.subst(mp)) for it, c in e.ctx)
        return e

def vsubst(v, mp):
    if isinstance(v, Vec): return Vec([tsubst(x, mp) for x in v.l], v.w)
    if isinstance(v, Term): return tsubst(v, mp)
    return v

class State:
    __slots__ = ('env', 'f', 'ev', 'mem', 'conds')
    def __init__(self): self.env = {}; self.f = Facts(); self.ev = []; self.mem = {}; self.conds = []
    def copy(self):
        s = State.__new__(State); s.env = dict(self.env); s.f = self.f; s.ev = list(self.ev); s.mem = {k: list(v) for k, v in self.mem.items()}; s.conds = list(self.conds)
        return s

class LoopInfo:
    def __init__(self): self.it = None; self.T = None; self.acc = {}; self.fn = None; self.L = None; self.multi = False; self.latches = 1

PURE_MATH = {'sinf', 'sin', 'cosf', 'cos', 'tan', 'tanf', 'exp', 'expf', 'expl', 'exp2', 'exp2f', 'exp2l', 'log', 'logf', 'logl', 'log2', 'log2f', 'log10', 'log10f', 'log10l', 'log1p', 'log1pf', 'expm1', 'expm1f',
             'cbrt', 'cbrtf', 'pow', 'powf', 'powl', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'fmod', 'fmodf', 'hypot', 'ldexp', 'sinl', 'cosl', 'atan2', 'atan2f'}

class Walker:
    def __init__(self, mod, data_args=(), elem=None, max_paths=4000, inline=lambda name: True, globconst=None, noinline=(), maxunroll=64, opaque_loops=False, nonneg=()):
        self.mod = mod; self.data_atoms = set(); self.elem = elem or {}
        self.npaths = 0; self.max_paths = max_paths; self.loops = {}
        self.inline = inline; self.globconst = globconst or {}; self.callseq = 0; self.depth = 0
        self.maxunroll = maxunroll; self.opaque_loops = opaque_loops
        self.steps = 0

    # ---------------------------------------------------------------- values
    def val(self, st, v, t=None):
        if isinstance(v, int):
            return st.env[v]
        k = v[0]
        if k == 'i': return C(v[2], int(v[1]))
        if k == 'f':
            w = FW[v[2]]; h = v[1]
            return self.fconst(h, v[2])
        if k == 'g': return mk('glob', 64, v[1])
        if k == 'null': return C(64, 0)
        if k == 'undef' or k == 'poison':
            n, w = width(v[1])
            if n is None: return mk('undef', w or 1)
            return Vec([mk('undef', w)] * n, w)
        if k == 'zero':
            n, w = width(v[1])
            if n is None: return C(w, 0)
            return Vec([C(w, 0)] * n, w)
        if k == 'v':
            ls = [self.val(st, x) for x in v[1]]
            return Vec(ls, ls[0].w)
        if k == 'gep':
            b = self.val(st, v[1]); return P(64, b.poly() + v[2])
        raise Unsupported('value %s' % (v,))

    def fconst(self, h, t):
        w = FW[t]
        x = int(h, 16) if isinstance(h, str) else h
        if t == 'x86_fp80':
            # model as a double for evaluation
            s = x >> 79; e = (x >> 64) & 0x7fff; m = x & (2**64 - 1)
            if e == 0x7fff: val = float('inf') if (m << 1) & (2**64 - 1) == 0 else float('nan')
            elif m == 0: val = 0.0
            else: val = m * 2.0 ** (e - 16383 - 63) if abs(e - 16383) < 1000 else float('inf')
            return C(80, f2b(64, -val if s else val))
        return C(w, x)

    # ---------------------------------------------------------------- memory
    def baseof(self, p):
        b = None
        for k, v in p.m.items():
            for a in k:
                if a.op in ('alloca', 'glob') or (a.op == 'arg' and len(a.a) > 1 and a.a[1] == 'p'):
                    if len(k) == 1: return a
        for k, v in p.m.items():
            if len(k) == 1 and v == 1 and k[0].op in ('ld', 'call', 'sym'): b = k[0]
        return b

    def load1(self, st, addr, w, fl=False):
        """w bits at address poly"""
        p = st.f.norm(addr)
        b = self.baseof(p)
        key = b if b is not None and b.op == 'alloca' else ('heap', b)
        log = st.mem.get(key)
        if log:
            for (a, wb, t) in reversed(log):
                if a is None: break
                d = (p - a).const
                if d is None:
                    if key is b: return mk('ld', w, p, next(_uid))
                    if b in self.data_atoms: continue
                    continue
                if d * 8 >= wb or d * 8 + w <= 0: continue
                if d >= 0 and d * 8 + w <= wb: return tslice(t, d * 8, w)
                # assemble from several writes byte by byte
                parts = []
                for j in range(w // 8):
                    parts.append(self.load1(st, p + j, 8))
                return cat(parts)
        if b is not None and b.op == 'alloca':
            return mk('undefmem', w, p)
        if b is not None and b.op == 'glob':
            off = (p - pvar(b)).const
            if off is not None:
                c = self.globbytes(b.a[0], off, (w + 7) // 8)
                if c is not None: return C(w, int.from_bytes(c, 'little'))
        if b in self.data_atoms or (b is None or b.op not in ('alloca', 'glob', 'arg')) and self.data_atoms and any(a in self.data_atoms for a in deepatoms(addr)): return mk('ldd', w, addr)
        return mk('ld', w, p)

    def globbytes(self, name, off, n):
        g = self.globconst.get(name)
        if g is None:
            gi = self.mod.globals.get(name)
            if gi is None or gi.get('init') is None or not gi.get('const'): return None
            if gi['sz'] > 1 << 16: return None
            g = initbytes(gi['init'], gi['t'], gi['sz'])
            self.globconst[name] = g if g is not None else False
        if not g or off < 0 or off + n > len(g): return None
        return bytes(g[off:off + n])

    def store1(self, st, addr, v):
        p = st.f.norm(addr); b = self.baseof(p)
        key = b if b is not None and b.op == 'alloca' else ('heap', b)
        t = v.cat() if isinstance(v, Vec) else v
        st.mem.setdefault(key, []).append((p, t.w, t))

    # ---------------------------------------------------------------- instructions
    def exec(self, st, i, fr):
        """execute a non-terminator; returns list of states (forks) - usually [st]"""
        o = i.o; env = st.env; V = lambda v: self.val(st, v)
        self.steps += 1
        if self.steps > 400000: raise TooComplex('step limit')
        if o == 'load':
            n, w = width(i.t)
            addr = V(i.ops[0]).poly()
            nb = i['sz']
            if n is None: r = self.load1(st, addr, w if w != 80 else 80)
            else: r = Vec([self.load1(st, addr + (j * w // 8), w) for j in range(n)], w)
            env[i.id] = r
            st.ev.append(Event('load', i, addr, nb, r, i['al']))
        elif o == 'store':
            v = V(i.ops[0]); addr = V(i.ops[1]).poly()
            self.store1(st, addr, v)
            st.ev.append(Event('store', i, addr, i['sz'], v, i['al']))
        elif o == 'alloca':
            env[i.id] = mk('alloca', 64, fr.uid, i.id)
        elif o == 'getelementptr':
            p = V(i.ops[0])
            if isinstance(p, Vec): raise Unsupported('vector gep')
            p = p.poly() + i.get('off', 0)
            for a, s in i.get('var', []):
                p = p + V(a).poly() * s
            env[i.id] = P(64, p)
        elif o in ('call', 'invoke'):
            return self.call(st, i, fr)
        elif o in ('select',):
            c = V(i.ops[0]); a = V(i.ops[1]); b = V(i.ops[2])
            if isinstance(a, Vec):
                cl = c.l if isinstance(c, Vec) else [c] * len(a.l)
                env[i.id] = Vec([ite(a.w, cc, x, y) for cc, x, y in zip(cl, a.l, b.l)], a.w)
            else:
                d = st.f.decide(c) if not c.data else None
                if d is not None: env[i.id] = a if d else b
                elif not c.data and i.t in ('ptr', 'i64', 'i32') and not (a.data or b.data):
                    r = self.as_minmax(c, a, b)
                    if r is not None: env[i.id] = r
                    else:
                        out = []
                        for val, x in ((True, a), (False, b)):
                            for f in st.f.assume(c, val):
                                s2 = st.copy(); s2.f = f; s2.env[i.id] = x; s2.conds.append((c, val)); out.append(s2)
                        return out
                else: env[i.id] = ite(a.w, c, a, b)
        elif o == 'freeze': env[i.id] = V(i.ops[0])
        elif o in ('atomicrmw', 'cmpxchg', 'fence'):
            r = mk('call', width(i.t)[1] or 64, 'atomic', next(_uid)) if i.t != 'void' else None
            if r is not None: env[i.id] = r
            st.ev.append(Event('rmw', i, V(i.ops[0]).poly() if i.ops else None, 0, None, 0, i.get('rmw', o), [V(x) for x in i.ops[1:]], r))
        elif o in ('extractvalue',):
            env[i.id] = mk('xv', width(i.t)[1] or 64, V(i.ops[0]), str(i.get('ix')))
        elif o == 'insertvalue':
            env[i.id] = mk('iv', 64, next(_uid))
        else:
            env[i.id] = self.pure(st, i, [V(x) for x in i.ops])
        return [st]

    def as_minmax(self, c, a, b):
        if c.op != 'icmp': return None
        if hasacc(a) or hasacc(b):
            pred, x, y = c.a
            if x is b and y is a: x, y = y, x; pred = SWAP_I[pred]
            if x is a and y is b and pred[1:] in ('lt', 'le', 'gt', 'ge'): return minmax(pred[0] + ('min' if pred[1] == 'l' else 'max'), a.w, a, b)
            return None
        pred, x, y = c.a
        if x is a and y is b:
            if pred in ('slt', 'sle', 'ult', 'ule'): return P(a.w, pminmax('smin', a.poly(), b.poly()))
            if pred in ('sgt', 'sge', 'ugt', 'uge'): return P(a.w, pminmax('smax', a.poly(), b.poly()))
        if x is b and y is a:
            if pred in ('slt', 'sle', 'ult', 'ule'): return P(a.w, pminmax('smax', a.poly(), b.poly()))
            if pred in ('sgt', 'sge', 'ugt', 'uge'): return P(a.w, pminmax('smin', a.poly(), b.poly()))
        return None

    def pure(self, st, i, ops):
        n, w = width(i.t)
        o = i.o
        if o == 'bitcast': return relane(ops[0], n, w)
        if o in ('ptrtoint', 'inttoptr'):
            return ops[0] if ops[0].w == w else trunc(w, ops[0])
        if o == 'shufflevector':
            a, b = ops; src = a.l + b.l
            return Vec([mk('undef', w) if m < 0 else src[m] for m in i['mask']], w)
        if o == 'insertelement':
            k = ops[2]
            if not isc(k): raise Unsupported('insertelement var')
            l = list(ops[0].l); l[k.a[0]] = ops[1]; return Vec(l, w)
        if o == 'extractelement':
            k = ops[1]
            if not isc(k): raise Unsupported('extractelement var')
            return ops[0].l[k.a[0]]
        if n is not None:
            sts = i.get('st')
            return Vec([self.scalar(st, o, w, [x.l[j] for x in ops], i) for j in range(n)], w)
        return self.scalar(st, o, w, ops, i)

    def addrlike(self, *ts): return not any(t.data for t in ts)

    def scalar(self, st, o, w, a, i):
        f = st.f
        if o == 'add': return P(w, a[0].poly() + a[1].poly())
        if o == 'sub': return P(w, a[0].poly() - a[1].poly())
        if o == 'mul': return P(w, a[0].poly() * a[1].poly())
        if o == 'shl' and isc(a[1]): return binc('shl', w, a[0], a[1]) if a[0].data or isc(a[0]) else P(w, a[0].poly() * (1 << a[1].a[0]))
        if o in ('and', 'or', 'xor'):
            x, y = a
            if w > 8 and isc(y) and not x.data and not isc(x) and not (x.op in ('ite',) and False):
                r = self.addrbits(st, o, w, x, y)
                if r is not None: return r
            if o == 'or' and w > 1 and not x.data and not y.data and not (isc(x) and isc(y)):
                # disjoint or
                if isc(y): 
                    k = y.a[0].bit_length(); 
                    if x.poly().divisible(1 << k): return P(w, x.poly() + y.poly())
            return bitop(o, x, y)
        if o in ('lshr', 'ashr') and isc(a[1]) and not a[0].data and not isc(a[0]):
            p = a[0].poly()
            if o == 'ashr' or (f.lo(p) is not None and f.lo(p) >= 0) or isptr(a[0]): return P(w, fd(p, 1 << a[1].a[0]))
            return mk(o, w, a[0], a[1])
        if o in ('sdiv', 'udiv') and isc(a[1]) and not a[0].data and not isc(a[0]):
            p = a[0].poly(); c = sgn(a[1].a[0], w)
            if c > 0 and ((f.lo(p) is not None and f.lo(p) >= 0)): return P(w, fd(p, c))
            ex = p.divexact(topoly(c))
            if ex is not None: return P(w, ex)
            return mk(o, w, a[0], a[1])
        if o in ('srem', 'urem') and isc(a[1]) and not a[0].data and not isc(a[0]):
            p = a[0].poly(); c = sgn(a[1].a[0], w)
            if c > 0 and f.lo(p) is not None and f.lo(p) >= 0: return P(w, pmod(p, c))
            return mk(o, w, a[0], a[1])
        if o in ('shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            if o == 'lshr' and isc(a[1]): return binc(o, w, a[0], a[1])
            return binc(o, w, a[0], a[1])
        if o == 'icmp':
            x, y = a
            return icmp(1, i['p'], x, y)
        if o == 'fcmp': return fcmp(1, i['p'], a[0], a[1])
        if o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'): return fop(o, w, a[0], a[1])
        if o == 'fneg': return fneg(w, a[0]) if w != 80 else mk('fnegx', 80, a[0])
        if o == 'zext':
            if not a[0].data and a[0].w >= 16 and not isc(a[0]):
                l = f.lo(a[0].poly())
                if l is not None and l >= 0: return P(w, a[0].poly())
                return mk('zext', w, a[0])
            return zext(w, a[0])
        if o == 'sext':
            if not a[0].data and a[0].w >= 16 and not isc(a[0]): return P(w, a[0].poly())
            return sext(w, a[0])
        if o == 'trunc':
            if not a[0].data and not isc(a[0]):
                p = a[0].poly(); lo, hi = f.lo(p), f.hi(p)
                if lo is not None and hi is not None and lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)): return P(w, p)
                if w <= 16 and not a[0].op in ('ite', 'icmp', 'cat', 'slice', 'zext', 'call', 'ld'): return P(w, pmod(p, 1 << w)) if w > 1 else icmp(1, 'eq', P(64, pmod(p, 2)), C(64, 1))
            return trunc(w, a[0])
        if o in ('sitofp', 'uitofp', 'fpext', 'fptrunc', 'fptosi', 'fptoui'): return mk(o, w, a[0]) if not (isc(a[0]) and o in ('sitofp', 'uitofp', 'fpext')) else C(w, ev(mk(o, w, a[0]), {}, {}))
        if o == 'addrspacecast': return a[0]
        raise Unsupported('op ' + o)

    def addrbits(self, st, o, w, x, y):
        """and/or/xor of an address-like integer with a constant"""
        c = y.a[0]; p = x.poly()
        if x.op in ('icmp', 'cat', 'slice', 'zext', 'ite', 'call') and not isptr(x): return None
        if x.op in ('ld',) and w < 64: return None
        lo = st.f.lo(p)
        if o == 'and':
            k = 0; cc = c
            # low mask
            if c & (c + 1) == 0: return P(w, pmod(p, c + 1))
            # clear low bits, keep up to high bits
            t = (c & -c)
            top = c // t
            if top & (top + 1) == 0 and c.bit_length() >= min(w, 57) - 0 and (c.bit_length() >= w - 7):
                return P(w, p - pmod(p, t))
            # sequence x - (x mod t) limited to `bit_length`
        if o == 'or' and p.divisible(1 << c.bit_length()): return P(w, p + c)
        return None

    # ---------------------------------------------------------------- calls
    def call(self, st, i, fr):
        c = i.callee; V = lambda v: self.val(st, v)
        if c is None:
            cv = i['callee']
            if isinstance(cv, int):
                t = st.env.get(cv)
                if isinstance(t, Term) and t.op == 'glob': c = t.a[0]
        n, w = width(i.t) if i.t != 'void' else (None, 0)
        if c and c.startswith('llvm.'):
            if c.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.invariant', 'llvm.experimental.noalias', 'llvm.stacksave', 'llvm.stackrestore')):
                if i.t != 'void': st.env[i.id] = mk('sym', 64, 'ss%d' % next(_uid))
                return [st]
            r = self.intrinsic(st, c, i, [V(x) for x in i.ops], n, w)
            if r is not None:
                if r != 'void': st.env[i.id] = r
                return [st]
        fn = self.mod.functions.get(c) if c else None
        args = [V(x) for x in i.ops]
        if fn is not None and self.inline(c) and self.depth < 12 and c not in fr.stack:
            return self.inline_call(st, i, fn, args, fr)
        if c in ('sqrt', 'sqrtf', 'sqrtl'): st.env[i.id] = mk('sqrt', w, args[0]); return [st]
        if c in ('floor', 'floorf', 'floorl'): st.env[i.id] = mk('floor', w, args[0]); return [st]
        if c in ('ceil', 'ceilf', 'ceill'): st.env[i.id] = mk('ceil', w, args[0]); return [st]
        if c in ('trunc', 'truncf', 'truncl'): st.env[i.id] = mk('ftrunc', w, args[0]); return [st]
        if c in ('fmod', 'fmodf', 'fmodl'): st.env[i.id] = mk('frem', w, args[0], args[1]); return [st]
        if c in ('copysign', 'copysignf'): st.env[i.id] = bitop('or', bitop('and', args[0], C(w, (1 << (w - 1)) - 1)), bitop('and', args[1], C(w, 1 << (w - 1)))); return [st]
        if c in ('fabs', 'fabsf'): st.env[i.id] = fabs_(w, args[0]); return [st]
        if c in ('rint', 'rintf', 'rintl', 'nearbyint', 'nearbyintf', 'nearbyintl'): st.env[i.id] = mk('rint', w, args[0]); return [st]
        if c in PURE_MATH:
            st.env[i.id] = mk('call', w, c, *args); return [st]
        r = None
        if i.t != 'void':
            if n is None: r = mk('call', w or 64, c or 'indirect', next(_uid))
            else: r = Vec([mk('call', w, c or 'indirect', next(_uid)) for _ in range(n)], w)
            st.env[i.id] = r
        tgt = c
        if c is None:
            tgt = st.env.get(i['callee']) if isinstance(i['callee'], int) else None
        st.ev.append(Event('call', i, None, 0, None, 0, tgt, args, r))
        self.clobber(st, args)
        return [st]

    def clobber(self, st, args):
        for a in args:
            if isinstance(a, Term) and a.w == 64:
                b = self.baseof(a.poly())
                if b is not None and b.op == 'alloca': st.mem.setdefault(b, []).append((a.poly() * 0 + pvar(mk('sym', 64, 'clob%d' % next(_uid))), 8, mk('sym', 8, 'u')))

    def inline_call(self, st, i, fn, args, fr):
        self.depth += 1
        try:
            saved = st.env
            res = self.run_fn(st, fn, args, fr.stack + (fn.name,))
        finally: self.depth -= 1
        out = []
        for s2, rv in res:
            e = dict(saved)
            if i.t != 'void': e[i.id] = rv
            s2.env = e; out.append(s2)
        return out

    def intrinsic(self, st, c, i, a, n, w):
        base = c.split('.')[1]
        def mapl(f):
            if n is None: return f(*a)
            return Vec([f(*[x.l[j] for x in a]) for j in range(n)], w)
        if c.startswith('llvm.x86.'):
            nm = c[9:]
            if nm.startswith(('avx.min.p', 'avx.max.p', 'sse.min.p', 'sse.max.p', 'sse2.min.p', 'sse2.max.p')):
                op = 'vmin' if '.min.' in nm else 'vmax'
                return mapl(lambda x, y: mk(op, w, x, y))
            if nm in ('avx2.packssdw', 'avx2.packsswb', 'sse2.packssdw.128', 'sse2.packsswb.128', 'avx2.packusdw', 'avx2.packuswb', 'sse41.packusdw', 'sse2.packuswb.128'):
                x, y = a; sg = 'packss' in nm
                per = 128 // x.w; out = []
                for k in range(len(x.l) // per):
                    for src in (x, y): out += [sat(x.w, w, sg, t) for t in src.l[k * per:(k + 1) * per]]
                return Vec(out, w)
            if nm in ('avx2.pshuf.b', 'ssse3.pshuf.b.128'):
                x, m = a; m = relane(m, len(x.l), 8); out = []
                for j in range(len(x.l)):
                    mm = m.l[j]
                    if not isc(mm): raise Unsupported('pshufb mask')
                    v = mm.a[0]
                    out.append(C(8, 0) if v & 0x80 else x.l[(j & ~15) + (v & 15)])
                return Vec(out, 8)
            if nm in ('avx2.permd', 'avx2.permps'):
                x, m = a; out = []
                for j in range(8):
                    if not isc(m.l[j]): raise Unsupported('permd mask')
                    out.append(x.l[m.l[j].a[0] & 7])
                return Vec(out, w)
            if nm.startswith(('avx.movmsk.p', 'sse.movmsk', 'sse2.movmsk', 'avx2.pmovmskb', 'sse2.pmovmskb')):
                bits = [tslice(t, t.w - 1, 1) for t in a[0].l]
                bits = [self.signbit(t) for t in a[0].l]
                return cat(bits + [C(32 - len(bits), 0)])
            if nm.startswith(('avx2.psrl.q', 'avx2.psll.q', 'avx2.psrl.d', 'avx2.psll.d', 'avx2.psrli', 'avx2.pslli', 'avx2.psra', 'sse2.psrl', 'sse2.psll')):
                x, k = a
                if isinstance(k, Vec):
                    k = relane(k, None, 0); k = tslice(k, 0, 64)
                if not isc(k): raise Unsupported('shift count')
                op = 'shl' if 'psll' in nm else 'lshr' if 'psrl' in nm else 'ashr'
                kv = k.a[0]
                return Vec([C(w, 0) if kv >= w and op != 'ashr' else binc(op, w, t, C(w, min(kv, w - 1) if op == 'ashr' else kv)) for t in x.l], w)
            if nm.startswith('avx.round.p') or nm.startswith(('sse41.round.p',)):
                m = a[1].a[0] & 0xf if isc(a[1]) else None
                mode = {9: 'floor', 10: 'ceil', 11: 'ftrunc', 8: 'rint', 1: 'floor', 2: 'ceil', 3: 'ftrunc', 0: 'rint'}.get(m)
                if mode is None: raise Unsupported('round mode')
                return Vec([mk(mode, w, t) for t in a[0].l], w)
            if nm in ('avx.blendv.ps.256', 'avx.blendv.pd.256', 'avx2.pblendvb'):
                return Vec([ite(w, self.signbit(m), y, x) for x, y, m in zip(*[t.l for t in a])], w)
            if nm.startswith('avx.cmp.p'): pass
            if n is not None: return Vec([mk('call', w, c, next(_uid)) for _ in range(n)], w)
            return mk('call', w, c, next(_uid))
        if base in ('smin', 'smax', 'umin', 'umax'):
            def mm(x, y):
                if x.w >= 32 and not x.data and not y.data and not (isc(x) and isc(y)) and not hasacc(x) and not hasacc(y):
                    op = base
                    d = (x.poly() - y.poly()); lo, hi = st.f.lo(d), st.f.hi(d)
                    if lo is not None and lo >= 0: return y if op.endswith('min') else x
                    if hi is not None and hi <= 0: return x if op.endswith('min') else y
                    return P(x.w, pminmax('s' + op[1:], x.poly(), y.poly()))
                return minmax(base, x.w, x, y)
            return mapl(mm)
        if base == 'abs':
            a = a[:1]
            return mapl(lambda x: mk('iabs', w, x) if not isc(x) else C(w, abs(sgn(x.a[0], w))))
        if base == 'fabs': return mapl(lambda x: fabs_(w, x) if w != 80 else mk('fabsx', 80, x))
        if base in ('floor', 'ceil', 'rint', 'sqrt', 'round', 'nearbyint'): return mapl(lambda x: mk('rint' if base == 'nearbyint' else base, w, x))
        if base == 'trunc': return mapl(lambda x: mk('ftrunc', w, x))
        if base == 'is': # is.fpclass
            m = a[1].a[0]; a = a[:1]
            return mapl(lambda x: mk('fpclass', 1, x, m))
        if base == 'copysign': return mapl(lambda x, y: bitop('or', bitop('and', x, C(w, (1 << (w - 1)) - 1)), bitop('and', y, C(w, 1 << (w - 1)))))
        if base in ('memset', 'memcpy', 'memmove'):
            ev_ = Event('call', i, None, 0, None, 0, c, a)
            st.ev.append(ev_)
            if base == 'memcpy' or base == 'memmove':
                if isc(a[2]) and a[2].a[0] <= 64:
                    k = a[2].a[0]
                    for j in range(0, k, 8 if k % 8 == 0 else 4 if k % 4 == 0 else 1):
                        ww = 64 if k % 8 == 0 else 32 if k % 4 == 0 else 8
                        self.store1(st, a[0].poly() + j, self.load1(st, a[1].poly() + j, ww))
                else: self.clobber(st, [a[0]])
            elif isc(a[2]) and a[2].a[0] <= 512 and isc(a[1]):
                self.store1(st, a[0].poly(), C(a[2].a[0] * 8, int.from_bytes(bytes([a[1].a[0]]) * a[2].a[0], 'little')))
            else: self.clobber(st, [a[0]])
            return 'void'
        if base in ('fma', 'fmuladd'): return mapl(lambda x, y, z: fop('fadd', w, fop('fmul', w, x, y), z))
        if base in ('prefetch', 'donothing', 'trap', 'va_start', 'va_end', 'va_copy'): return 'void'
        if base == 'expect': return a[0]
        if base in ('fshl', 'fshr', 'ctpop', 'ctlz', 'cttz', 'bswap', 'uadd', 'usub', 'sadd', 'ssub', 'umul', 'smul', 'objectsize', 'exp', 'log', 'pow', 'sin', 'cos', 'exp2', 'log2', 'log10', 'maxnum', 'minnum', 'ldexp'):
            if n is None: return mk('call', w or 64, c, *[x for x in a if isinstance(x, Term)])
            return mapl(lambda *xs: mk('call', w, c, *xs))
        if base == 'vector':
            return mk('call', w, c, next(_uid))
        return None

    def signbit(self, t):
        if t.op == 'ite': return ite(1, t.a[0], self.signbit(t.a[1]), self.signbit(t.a[2]))
        return tslice(t, t.w - 1, 1)

    # ---------------------------------------------------------------- control flow
    def run_fn(self, st, fn, args, stack=()):
        """returns list of (state, retval)"""
        fr = Frame(fn, stack or (fn.name,))
        st.env = {k: v for k, v in enumerate(args)}
        res = self.walk(st, fr, 0, None, None)
        out = []
        for kind, s, info in res:
            if kind == 'ret': out.append((s, info))
        return out

    def walk(self, st, fr, bid, prev, region):
        """Walk from the start of block bid (entered from prev) to region boundary.
        Result kinds: ret/unreach, latch (info=from block), exit (info=(from,to))"""
        work = [(st, bid, prev)]
        out = []
        fn = fr.fn
        while work:
            st, bid, prev = work.pop()
            b = fn.blocks[bid]
            # inner loop header?
            L = fn.loops.get(b.loop) if b.loop is not None else None
            if L is not None and L.header == bid and (region is None or L.id != region.id):
                for s2, frm, to in self.do_loop(st, fr, L, prev):
                    if frm == 'ret': out.append(('ret', s2, to)); continue
                    self.edge(s2, fr, frm, to, region, work, out)
                continue
            states = [st]
            self.phis(st, b, prev)
            for i in b.ins:
                if i.o == 'phi': continue
                if i.o in ('br', 'switch', 'ret', 'unreachable', 'resume', 'indirectbr'): break
                ns = []
                for s in states: ns += self.exec(s, i, fr)
                states = ns
                if not states: break
                if len(states) > self.max_paths: raise TooComplex('paths')
            t = b.term
            for s in states:
                if t.o == 'ret':
                    self.npaths += 1
                    if self.npaths > self.max_paths: raise TooComplex('paths')
                    out.append(('ret', s, self.val(s, t.ops[0]) if t.ops else None))
                elif t.o == 'br':
                    if len(t['s']) == 1: self.edge(s, fr, bid, t['s'][0], region, work, out)
                    else:
                        c = self.val(s, t.ops[0])
                        for val, to in ((True, t['s'][0]), (False, t['s'][1])):
                            fs = s.f.assume(c, val)
                            for f in fs:
                                s2 = s.copy(); s2.f = f
                                if f is not s.f or not isc(c): s2.conds.append((c, val, t))
                                self.edge(s2, fr, bid, to, region, work, out)
                elif t.o == 'switch':
                    v = self.val(s, t.ops[0])
                    rest = [s.f]
                    for cv, to in t['cases']:
                        c = icmp(1, 'eq', v, C(v.w, cv))
                        nr = []
                        for f0 in rest:
                            for f in f0.assume(c, True):
                                s2 = s.copy(); s2.f = f; s2.conds.append((c, True, t)); self.edge(s2, fr, bid, to, region, work, out)
                            nr += f0.assume(c, False)
                        rest = nr
                    for f in rest:
                        s2 = s.copy(); s2.f = f; self.edge(s2, fr, bid, t['def'], region, work, out)
                elif t.o == 'invoke':
                    for s2 in self.call(s, t, fr): self.edge(s2, fr, bid, t['s'][0], region, work, out)
                else: out.append(('unreach', s, None))
            if len(work) + len(out) > self.max_paths: raise TooComplex('paths')
        return out

    def edge(self, s, fr, frm, to, region, work, out):
        if region is not None:
            if to == region.header: out.append(('latch', s, frm)); return
            if to not in region.blocks: out.append(('exit', s, (frm, to))); return
        work.append((s, to, frm))

    def phis(self, st, b, prev):
        new = {}
        for i in b.ins:
            if i.o != 'phi': break
            for v, p in i['in']:
                if p == prev: new[i.id] = self.val(st, v); break
            else:
                if prev is not None: raise Unsupported('phi edge')
        st.env.update(new)

    def phi_in(self, st, i, prev):
        for v, p in i['in']:
            if p == prev: return self.val(st, v)
        raise Unsupported('phi in')

    def do_loop(self, st0, fr, L, prev):
        """returns list of (state, exit_from, exit_to)"""
        fn = fr.fn; H = fn.blocks[L.header]
        phis = [i for i in H.ins if i.o == 'phi']
        entry = {i.id: self.phi_in(st0, i, prev) for i in phis}
        # ---- pass 1: find affine phis
        st = st0.copy(); st.f = st0.f.copy(); st.conds = []
        atoms = {}
        for i in phis:
            n, w = width(i.t); u = next(_uid)
            if n is None:
                dat = entry[i.id].data
                # data-typed scalars keep a data-marked atom
                atoms[i.id] = mk('phi', w, u)
                st.env[i.id] = atoms[i.id]
            else: st.env[i.id] = Vec([mk('phi', w, u, j) for j in range(n)], w)
        self.havoc_mem(st, fr, L)
        ev0 = len(st.ev)
        np0 = self.npaths
        res = self.walk_header(st, fr, L)
        self.npaths = np0
        step = {}; datap = set()
        isd = lambda v: any(x.data for x in v.l) if isinstance(v, Vec) else v.data
        for i in phis:
            if isd(entry[i.id]) or any(kind == 'latch' and isd(self.phi_in(s2, i, inf2)) for kind, s2, inf2 in res): datap.add(i.id)
        phiset = set(atoms.values())
        for i in phis:
            if i.id not in atoms: continue
            a = atoms[i.id]; s = None; ok = not isfloat(i.t)
            for kind, s2, info in res:
                if kind != 'latch': continue
                lv = self.phi_in(s2, i, info)
                if lv.data: ok = False; break
                d = s2.f.norm(lv.poly()) - s2.f.norm(pvar(a))
                if any(x.op == 'phi' and x in phiset for x in deepatoms(d)) or any(x.op in ('call',) and False for x in d.atoms()): ok = False; break
                if s is None: s = d
                elif s != d: ok = False; break
            if ok and s is not None: step[i.id] = s
        # ---- pass 2
        it = mk('it', 64, next(_uid))
        info = LoopInfo(); info.it = it; info.fn = fn; info.L = L; info.entry = entry; info.phis = phis
        self.loops[it] = info
        st = st0.copy(); st.f = st0.f.copy(); st.conds = []
        st.f.addge(pvar(it))
        acc = {}
        for i in phis:
            n, w = width(i.t)
            if i.id in step: st.env[i.id] = P(w, entry[i.id].poly() + step[i.id] * pvar(it))
            elif i.id in datap and n is None:
                terms.DATAACC.add((it, i.id)); acc[i.id] = st.env[i.id] = mk('acc', w, it, i.id)
            elif n is None:
                acc[i.id] = st.env[i.id] = mk('acc', w, it, i.id)
            else:
                if i.id in datap: terms.DATAACC.add((it, i.id))
                acc[i.id] = st.env[i.id] = Vec([mk('acc', w, it, i.id, j) for j in range(n)], w)
        info.acc = acc; info.step = step
        self.havoc_mem(st, fr, L)
        ev0 = len(st.ev)
        np0 = self.npaths
        res = self.walk_header(st, fr, L)
        lat = [(s, x) for k, s, x in res if k == 'latch']; ex = [(s, x) for k, s, x in res if k == 'exit']; rets = [(s, x) for k, s, x in res if k == 'ret']
        self.npaths = np0
        out = []
        # ---- group exits
        def itdep(c): return it in c.its
        exits = {}
        for s, (frm, to) in ex:
            # the exit condition: last non-invariant condition on the path
            dep = [(c, v) for c, v, *r in s.conds if itdep(c) or isaccdep(c, it)]
            exits.setdefault((frm, to, tuple(dep[-1:])), []).append((s, dep))
        T = None; multi = len({k for k in exits}) != 1 or bool(rets)
        accexit = False
        if not multi:
            (key, lst), = exits.items()
            dep = key[2]
            if len(dep) == 1 and not isaccdep(dep[0][0], it):
                T = self.trip(st0.f, dep[0][0], dep[0][1], it, lst[0][0].f)
        if T is None and len({k[2] for k in exits}) >= 1 and not rets and not self.opaque_loops:
            # several exit edges sharing a bound: unknown
            pass
        info.T = T; info.multi = multi
        # constant trip: unroll precisely
        if T is not None and T.const is not None and T.const <= self.maxunroll and not self.opaque_loops:
            return self.unroll(st0, fr, L, prev, T.const)
        # latch values of accumulators
        info.latch = [{i.id: self.phi_in(s, i, frm) for i in phis} for s, frm in lat]
        info.latch_conds = [[(c, v) for c, v, *r in s.conds] for s, frm in lat]
        unkT = T is None
        if unkT:
            T = pvar(mk('trip', 64, it)); info.Tatom = T
        full = [s.ev[ev0:] for s, _ in lat]
        for key, lst in exits.items():
            for s, dep in lst:
                part = s.ev[ev0:]
                # merged event list
                evs = self.merge_events(full, part, [[(c, v) for c, v, *r in s2.conds] for s2, _ in lat], it, None if unkT else T)
                s2 = st0.copy()
                f = s.f.copy()
                mp = {it: T}
                f2 = st0.f.copy()
                if not unkT:
                    f2.addge(T)
                # loop-invariant conditions hold
                for c, v, *r in s.conds:
                    if not itdep(c) and not isaccdep(c, it):
                        fs = f2.assume(c, v)
                        f2 = fs[0] if fs else f2
                    elif not unkT and not isaccdep(c, it):
                        fs = f2.assume(tsubst(c, mp), v)
                        if len(fs) == 1: f2 = fs[0]
                s2.f = f2
                if f2.bad: continue
                s2.conds = st0.conds + [(c, v, *r) for c, v, *r in s.conds if not itdep(c)]
                if unkT: s2.f.addge(T)
                s2.ev = st0.ev + evs
                # environment at exit
                smap = dict(mp)
                memo = {}
                foldmp = {}
                for pid, a in acc.items():
                    if isinstance(a, Vec):
                        for j, x in enumerate(a.l): foldmp[x] = mk('fold', x.w, it, pid, j, T)
                    else: foldmp[a] = mk('fold', a.w, it, pid, -1, T)
                mp2 = dict(mp); mp2.update(foldmp)
                for vid, v in s.env.items():
                    if vid in st0.env and st0.env[vid] is v: continue
                    s2.env[vid] = vsubst2(v, mp2)
                s2.mem = {k: list(v) for k, v in s.mem.items()}
                out.append((s2, key[0], key[1]))
        for s, rv in rets:
            s2 = s; out.append((s2, 'ret', rv))
        if not exits and not rets: pass
        return out

    def walk_header(self, st, fr, L):
        """walk one iteration of L starting after header phis"""
        fn = fr.fn
        # emulate walk() but without treating header as a new loop
        return self._walk_region(st, fr, L)

    def _walk_region(self, st, fr, L):
        fn = fr.fn; b = fn.blocks[L.header]
        save = b.ins
        work = []; out = []
        states = [st]
        for i in b.ins:
            if i.o == 'phi': continue
            if i.o in ('br', 'switch', 'ret', 'unreachable'): break
            ns = []
            for s in states: ns += self.exec(s, i, fr)
            states = ns
        t = b.term
        for s in states:
            if t.o == 'br' and len(t['s']) == 1: self.edge(s, fr, b.id, t['s'][0], L, work, out)
            elif t.o == 'br':
                c = self.val(s, t.ops[0])
                for val, to in ((True, t['s'][0]), (False, t['s'][1])):
                    for f in s.f.assume(c, val):
                        s2 = s.copy(); s2.f = f
                        s2.conds.append((c, val, t)); self.edge(s2, fr, b.id, to, L, work, out)
            elif t.o == 'switch':
                v = self.val(s, t.ops[0]); rest = [s.f]
                for cv, to in t['cases']:
                    c = icmp(1, 'eq', v, C(v.w, cv)); nr = []
                    for f0 in rest:
                        for f in f0.assume(c, True):
                            s2 = s.copy(); s2.f = f; s2.conds.append((c, True, t)); self.edge(s2, fr, b.id, to, L, work, out)
                        nr += f0.assume(c, False)
                    rest = nr
                for f in rest:
                    s2 = s.copy(); s2.f = f; self.edge(s2, fr, b.id, t['def'], L, work, out)
            elif t.o == 'ret': out.append(('ret', s, self.val(s, t.ops[0]) if t.ops else None))
            else: out.append(('unreach', s, None))
        while work:
            s, bid, prev = work.pop()
            out += self.walk(s, fr, bid, prev, L)
        return out

    def unroll(self, st0, fr, L, prev, T):
        fn = fr.fn; H = fn.blocks[L.header]
        cur = [(st0.copy(), prev)]; out = []
        for k in range(T + 2):
            nxt = []
            for s, pv_ in cur:
                self.phis(s, H, pv_)
                for kind, s2, info in self._walk_region(s, fr, L):
                    if kind == 'latch': nxt.append((s2, info))
                    elif kind == 'exit': out.append((s2, info[0], info[1]))
                    elif kind == 'ret': out.append((s2, 'ret', info))
            cur = nxt
            if not cur: break
            if len(cur) > 64: raise TooComplex('unroll forks')
        return out

    def havoc_mem(self, st, fr, L):
        """allocas written inside the loop lose their contents at loop entry"""
        fn = fr.fn
        anymem = False
        wr = set()
        for b in L.blocks:
            for i in fn.blocks[b].ins:
                if i.o == 'store': wr.add(('s', i.ops[1] if isinstance(i.ops[1], int) else str(i.ops[1])))
                elif i.o in ('call', 'invoke', 'atomicrmw', 'cmpxchg'):
                    if i.callee and i.callee.startswith('llvm.') and 'mem' not in i.callee: continue
                    anymem = True
        if not wr and not anymem: return
        # find root allocas of stores
        roots = set(); unk = anymem
        for _, v in wr:
            r = rootof(fn, v)
            if r is None: unk = True
            else: roots.add(r)
        for k in list(st.mem):
            if isinstance(k, Term) and k.op == 'alloca':
                if k.a[1] in roots or (unk and k.a[1] not in noescape(fn)): st.mem[k].append((None, 0, None)); 
            elif isinstance(k, tuple):
                st.mem[k].append((None, 0, None))

    def merge_events(self, full, part, conds, it, T):
        out = []
        Tp = T
        if not full: full_m = []
        elif len(full) == 1: full_m = list(full[0])
        else:
            # same shape on every path -> merge values; otherwise mark conditional
            sig = [[(e.k, e.i.id, e.addr) for e in x if e.k == 'store'] for x in full]
            shape = [[(e.k, e.addr) for e in x if e.k == 'store'] for x in full]
            full_m = []
            if all(s == shape[0] for s in shape):
                stores = [[e for e in x if e.k == 'store'] for x in full]
                seen = set()
                for x, cd in zip(full, conds):
                    for e in x:
                        if e.k != 'store' and (e.i.id, e.addr) not in seen:
                            seen.add((e.i.id, e.addr)); full_m.append(e)
                for k in range(len(stores[0])):
                    v = stores[-1][k].v
                    for x, cd in list(zip(stores, conds))[-2::-1]:
                        v = itev(conj(cd), x[k].v, v)
                    e = stores[0][k].clone(); e.v = v; full_m.append(e)
            else:
                for x, cd in zip(full, conds):
                    for e in x:
                        e2 = e.clone(); e2.conds = tuple(cd); full_m.append(e2)
        # events executed on the final partial iteration
        pk = {}
        for e in part: pk[(e.k, e.i.id, e.addr if e.k != 'call' else None, e.ctx)] = pk.get((e.k, e.i.id, e.addr if e.k != 'call' else None, e.ctx), 0) + 1
        for e in full_m:
            key = (e.k, e.i.id, e.addr if e.k != 'call' else None, e.ctx)
            e2 = e.clone(); extra = 0
            if pk.get(key, 0) > 0: pk[key] -= 1; extra = 1
            e2.ctx = ((it, None if Tp is None else Tp + extra),) + e.ctx
            out.append(e2)
        left = [e for e in part if pk.get((e.k, e.i.id, e.addr if e.k != 'call' else None, e.ctx), 0) > 0]
        for e in left:
            if not full_m or True:
                key = (e.k, e.i.id, e.addr if e.k != 'call' else None, e.ctx)
                pk[key] -= 1
                e2 = e.clone()
                if not full:     # do-while executed via exit path only
                    e2.ctx = ((it, None if Tp is None else Tp + 1),) + e.ctx
                    out.append(e2)
                elif Tp is not None:
                    e2 = e.subst({it: Tp}); out.append(e2)
                else:
                    e2.ctx = ((it, None),) + e.ctx; out.append(e2)
        return out

    def trip(self, f0, c, val, it, fx):
        """number of completed iterations (back edges) before the exit edge with condition c==val is taken"""
        if c.op != 'icmp': 
            return None
        pred, a, b = c.a
        if not val: pred = NOT_I[pred]
        # exit when a pred b ; d = a-b = A + B*it
        d = f0.norm(a.poly() - b.poly())
        A = ZERO; B = ZERO
        for k, v in d.m.items():
            if it in k:
                kk = list(k); kk.remove(it)
                if it in kk: return None
                B = B + Poly({tuple(kk): v})
            else:
                if any(it in x.its for x in k): return None
                A = A + Poly({k: v})
        for k in B.m:
            for x in k:
                if it in x.its: return None
        if not B.m: return None
        if pred == 'eq':
            q = (-A).divexact(B)
            return q
        if pred == 'ne': return None
        bc = B.const
        if bc is None:
            return None
        if pred[0] == 'u' and b.poly().const is not None and not isptr(a): 
            pass
        # normalise to: exit when  g(it) = X + Y*it >= 0 (integer)
        if pred[1:] == 'ge': X, Y = A, bc
        elif pred[1:] == 'gt': X, Y = A - 1, bc
        elif pred[1:] == 'le': X, Y = -A, -bc
        else: X, Y = -A - 1, -bc
        if Y <= 0: return None
        # first it>=0 with X + Y*it >= 0 : ceil(-X/Y) if X<0 else 0
        need = -X
        lo = f0.lo(need)
        t = fd(need + (Y - 1), Y)
        if lo is not None and lo >= -(Y - 1): return t       # ceil >= 0 automatically
        return smax0(t)

class Frame:
    def __init__(self, fn, stack): self.fn = fn; self.stack = stack; self.uid = (fn.name, next(_uid))

def itev(c, a, b):
    if isinstance(a, Vec): return Vec([ite(a.w, c, x, y) for x, y in zip(a.l, b.l)], a.w)
    return ite(a.w, c, a, b)
def conj(cd):
    r = C(1, 1)
    for c, v in cd: r = bitop('and', r, c if v else bnot(c))
    return r
def vsubst2(v, mp):
    if isinstance(v, Vec): return Vec([tsubst(x, mp) for x in v.l], v.w)
    if isinstance(v, Term): return tsubst(v, mp)
    return v
def deepatoms(p):
    s = set()
    def rec(p):
        for a in p.atoms():
            if a in s: continue
            s.add(a)
            for x in a.a:
                if isinstance(x, Poly): rec(x)
                elif isinstance(x, Term): rec(x.poly()) if x is not a else None
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, Term): rec(y.poly())
    rec(p)
    return s
_ad = {}
def hasacc(t): return any(a.op in ('acc', 'fold') for a in deepatoms(t.poly()))
def isaccdep(c, it):
    k = (c, it); r = _ad.get(k)
    if r is None:
        r = False
        for x in deepatoms(pvar(c)):
            if x.op == 'acc' and x.a[0] is it: r = True; break
        _ad[k] = r
    return r
def rootof(fn, v, d=0):
    if not isinstance(v, int) or d > 30: return None
    if v < len(fn.args): return ('arg', v)
    i = fn.byid.get(v)
    if i is None: return None
    if i.o == 'alloca': return i.id
    if i.o in ('getelementptr', 'bitcast'): return rootof(fn, i.ops[0], d + 1)
    if i.o == 'phi':
        rs = {rootof(fn, x, d + 8) for x, _ in i['in']}
        return rs.pop() if len(rs) == 1 else None
    return None
_ne = {}
def noescape(fn):
    r = _ne.get(fn)
    if r is None:
        esc = set()
        al = {i.id for i in fn.ins() if i.o == 'alloca'}
        for i in fn.ins():
            if i.o in ('call', 'invoke'):
                for x in i.ops: 
                    q = rootof(fn, x)
                    if q in al: esc.add(q)
            elif i.o == 'store':
                q = rootof(fn, i.ops[0])
                if q in al: esc.add(q)
            elif i.o in ('phi', 'select', 'ptrtoint'):
                for x in (i.ops or [y for y, _ in i.get('in', [])]):
                    q = rootof(fn, x)
                    if q in al: esc.add(q)
        r = al - esc; _ne[fn] = r
    return r

def initbytes(v, t, sz):
    """bytes of a constant initialiser (list value from irdump)"""
    out = bytearray()
    def rec(v):
        k = v[0]
        if k == 'i': out.extend((v[1] & ((1 << v[2]) - 1)).to_bytes((v[2] + 7) // 8, 'little')); return True
        if k == 'f':
            n = {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2}[v[2]]
            x = int(v[1], 16) if isinstance(v[1], str) else v[1]; out.extend(x.to_bytes(n, 'little')); return True
        if k == 'v': return all(rec(x) for x in v[1])
        return False
    if v[0] == 'zero': return bytes(sz)
    if rec(v) and len(out) == sz: return bytes(out)
    return None

def global_consts(mod):
    """Values of globals initialised by the unit's static constructors and written nowhere else."""
    ctor = [f for f in mod.functions.values() if f.name.startswith('_GLOBAL__sub_I') or '__cxx_global_var_init' in f.name]
    written = {}
    for f in mod.functions.values():
        for i in f.ins():
            if i.o == 'store' and isinstance(i.ops[1], list) and i.ops[1][0] in ('g', 'gep'):
                g = i.ops[1]
                while g[0] == 'gep': g = g[1]
                if g[0] == 'g': written.setdefault(g[1], set()).add(f.name)
    gc = {}
    for f in ctor:
        w = Walker(mod, globconst=gc)
        try: res = w.run_fn(State(), f, [])
        except (Unsupported, TooComplex): continue
        if len(res) != 1: continue
        st = res[0][0]
        for e in st.ev:
            if e.k != 'store': continue
            b = w.baseof(e.addr)
            if b is None or b.op != 'glob': continue
            v = e.v.cat() if isinstance(e.v, Vec) else e.v
            if not isc(v) or (e.addr - pvar(b)).const != 0: continue
            if written.get(b.a[0], set()) - {x.name for x in ctor}: continue
            gi = mod.globals.get(b.a[0])
            if gi is not None and gi['sz'] * 8 == v.w: gc[b.a[0]] = v.a[0].to_bytes(v.w // 8, 'little')
    return gc
