"""Lane domain for byte-counting vector code: every lane is a number, a raw byte of the input, a truth value of a byte
(or its negation) or a count - a sum of truth values with an upper bound, so that a lane that can overflow is noticed."""
from stepx import *
class Overflow(Exception): pass
class Vec:
    __slots__ = ('w', 'l')
    def __init__(self, w, l): self.w = w; self.l = l
    def __eq__(self, o): return isinstance(o, Vec) and (self.w, self.l) == (o.w, o.l)
    __hash__ = None
class Cnt:
    """sum of k * [byte != 0] + c"""
    __slots__ = ('d', 'c')
    def __init__(self, d, c=0): self.d = d; self.c = c
    def top(self): return self.c + sum(v * kmax(k) for k, v in self.d.items() if v > 0)
    def low(self): return self.c + sum(v * kmax(k) for k, v in self.d.items() if v < 0)
    def __eq__(self, o): return isinstance(o, Cnt) and self.d == o.d and self.c == o.c
    __hash__ = None
class Byte:
    __slots__ = ('o',)
    def __init__(self, o): self.o = o
    def __eq__(self, o): return isinstance(o, Byte) and self.o == o.o
    __hash__ = None
class Bool:
    """all-ones (s) or one (not s) where the byte is nonzero (p) / zero (not p)"""
    __slots__ = ('o', 'p', 's')
    def __init__(self, o, p, s): self.o = o; self.p = p; self.s = s
    def __eq__(self, o): return isinstance(o, Bool) and (self.o, self.p, self.s) == (o.o, o.p, o.s)
    __hash__ = None
class Fn:
    """any function of one byte: table of its 256 values"""
    __slots__ = ('o', 't')
    def __init__(self, o, t): self.o = o; self.t = t
    def __eq__(self, o): return isinstance(o, Fn) and (self.o, self.t) == (o.o, o.t)
    __hash__ = None
IDENT = tuple(range(256)); NZ = (0,) + (1,) * 255; ZE = (1,) + (0,) * 255
def kmax(k): return max(k[2]) if isinstance(k, tuple) and k[0] == 'fn' else 1
def tofn(x, w):
    if isinstance(x, Fn): return x
    if isinstance(x, Byte): return Fn(x.o, IDENT)
    if isinstance(x, Bool):
        v = (1 << w) - 1 if x.s else 1; return Fn(x.o, tuple(v * q for q in (NZ if x.p else ZE)))
    return None
def unfn(o, t, w):
    """the simplest form of a function of byte o"""
    M = (1 << w) - 1; t = tuple(v & M for v in t)
    if len(set(t)) == 1: return t[0]
    if t == IDENT: return Byte(o)
    if t == NZ: return Bool(o, True, False)
    if t == ZE: return Bool(o, False, False)
    if w > 1 and t == tuple(M * q for q in NZ): return Bool(o, True, True)
    if w > 1 and t == tuple(M * q for q in ZE): return Bool(o, False, True)
    return Fn(o, t)
def fn2(f, w, *xs):
    """f of lanes that depend on at most one byte; None when they do not"""
    fs = [tofn(x, w) for x in xs]; os_ = {q.o for q in fs if q is not None}
    if len(os_) != 1 or any(q is None and not isinstance(x, int) for q, x in zip(fs, xs)): return None
    o = os_.pop()
    return unfn(o, tuple(f(*[q.t[v] if q is not None else x for q, x in zip(fs, xs)]) for v in range(256)), w)
def tocnt(x):
    if isinstance(x, Fn): return Cnt({('fn', x.o, x.t): 1})
    if isinstance(x, Byte): return Cnt({('fn', x.o, IDENT): 1})
    if isinstance(x, Cnt): return x
    if isinstance(x, int): return Cnt({}, x)
    if isinstance(x, Bool) and not x.s: return Cnt({x.o: 1}) if x.p else Cnt({x.o: -1}, 1)
    if isinstance(x, Unk) and isinstance(x.why, tuple) and x.why[0] == 'cntv': return Cnt(dict(x.why[1]), x.why[2])
    raise NoVal('lane %r' % (x,))
def cadd(a, b, s=1):
    d = dict(a.d)
    for k, v in b.d.items():
        d[k] = d.get(k, 0) + s * v
        if not d[k]: del d[k]
    return Cnt(d, a.c + s * b.c)
def vw(t):
    m = re.match(r'<(\d+) x i(\d+)>', t); return (int(m.group(1)), int(m.group(2))) if m else None
def scal(c): return c.c if not c.d else Unk(('cntv', tuple(sorted(c.d.items(), key=repr)), c.c))
class VX(SX):
    """SX with vector values; root is the object whose bytes are counted"""
    def __init__(self, cp, root, **k): SX.__init__(self, cp, **k); self.root = root; self._vl = {}
    def hasvec(self, f, seen=None):
        if f.name in self._vl: return self._vl[f.name]
        self._vl[f.name] = False
        self._vl[f.name] = any(self.vecins(i) for i in f.ins())
        return self._vl[f.name]
    def vecins(self, i):
        if isinstance(i.t, str) and i.t.startswith('<'): return True
        if i.o in ('call', 'invoke') and isinstance(i.get('callee'), list) and i.get('callee')[0] == 'g':
            g = i.fn.mod.functions.get(i.get('callee')[1])
            return g is not None and self.hasvec(g)
        return False
    def wanthavoc(self, f, l):
        """only the loops that look at single bytes are summarised, the others have constant trip counts here"""
        while l.parent is not None: l = f.loops[l.parent]
        ins = [i for b in l.blocks for i in f.blocks[b].ins]
        return any(self.byteins(i) for i in ins) and not any(self.vecins(i) for i in ins)
    def byteins(self, i, d=0):
        if i.o == 'load': return i['sz'] == 1
        if i.o in ('call', 'invoke') and d < 3 and isinstance(i.get('callee'), list) and i.get('callee')[0] == 'g':
            g = i.fn.mod.functions.get(i.get('callee')[1])
            return g is not None and any(self.byteins(x, d + 1) for x in g.ins())
        return False
    def val(self, fr, v):
        if isinstance(v, list):
            t = v[-1] if isinstance(v[-1], str) else None
            if v[0] == 'zero' and t and vw(t): n, w = vw(t); return Vec(w, [0] * n)
            if v[0] in ('undef', 'poison') and t and vw(t): n, w = vw(t); return Vec(w, [0] * n)
            if v[0] == 'v' and v[1] and isinstance(v[1][0], list) and v[1][0][0] == 'i': return Vec(v[1][0][2], [x[1] & ((1 << x[2]) - 1) for x in v[1]])
        return SX.val(self, fr, v)
    def relane(self, v, n, w):
        if v.w == w: return v
        if v.w > w:
            k = v.w // w; r = []
            for x in v.l:
                if isinstance(x, int): r += [(x >> (w * j)) & ((1 << w) - 1) for j in range(k)]
                elif isinstance(x, Cnt) and x.low() >= 0 and x.top() < (1 << w): r += [x] + [0] * (k - 1)
                else: raise NoVal('splits a lane')
            return Vec(w, r)
        k = w // v.w; r = []
        for j in range(0, len(v.l), k):
            g = v.l[j:j + k]
            if all(isinstance(x, int) for x in g): r.append(sum(x << (v.w * m) for m, x in enumerate(g))); continue
            c = Cnt({})
            for m, x in enumerate(g):
                x = tocnt(x) if not isinstance(x, Byte) else None
                if x is None: break
                c = cadd(c, Cnt({a: b << (v.w * m) for a, b in x.d.items()}, x.c << (v.w * m)))
            else: r.append(c); continue
            if all(isinstance(x, Byte) for x in g): r.append(('bytes', tuple(x.o for x in g), v.w)); continue
            raise NoVal('joins lanes')
        return Vec(w, r)
    def lane(self, o, w, a, b, i):
        try: return self.lane1(o, w, a, b, i)
        except NoVal:
            s = lambda x: sg(x, w)
            f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y, 'umin': min, 'umax': max,
                 'smin': lambda x, y: min(s(x), s(y)), 'smax': lambda x, y: max(s(x), s(y)), 'shl': lambda x, y: x << (y % 64), 'lshr': lambda x, y: x >> (y % 64), 'ashr': lambda x, y: s(x) >> (y % 64)}.get(o)
            r = fn2(f, w, a, b) if f else None
            if r is None: raise
            return r
    def lane1(self, o, w, a, b, i):
        M = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            s = lambda x: sg(x, w)
            return {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b, 'umin': min(a & M, b & M), 'umax': max(a & M, b & M), 'smin': min(s(a), s(b)), 'smax': max(s(a), s(b)),
                    'shl': a << (b % 64), 'lshr': (a & M) >> (b % 64), 'ashr': s(a) >> (b % 64)}[o] & M
        if isinstance(a, int) and o in ('add', 'and', 'or', 'umin', 'umax', 'xor', 'mul'): a, b = b, a
        if o in ('add', 'sub'):
            if b == 0: return a
            s = 1 if o == 'add' else -1
            if isinstance(b, Bool) and b.s: b = Bool(b.o, b.p, False); s = -s       # all ones is minus one
            if isinstance(b, int) and b == M: b = 1; s = -s
            if isinstance(a, Bool) and a.s: raise NoVal('mask as number')
            c = cadd(tocnt(a), tocnt(b), s)
            if c.low() < 0 or c.top() > M: raise Overflow('%s-bit lane can reach %d (%s)' % (w, c.top(), i.where()))
            return c
        if o == 'umin' and b == 1 and isinstance(a, Byte): return Bool(a.o, True, False)
        if o == 'and':
            if b == 0: return 0
            if b == M: return a
            if isinstance(a, Bool) and b == 1: return Bool(a.o, a.p, False)
            if isinstance(b, Bool) and b.s and isinstance(a, Bool) and b.o == a.o and a.p == b.p: return a
        if o == 'or' and b == 0: return a
        if o == 'xor':
            if b == 0: return a
            if b == M and isinstance(a, Bool) and a.s: return Bool(a.o, not a.p, True)
            if b == 1 and isinstance(a, Bool) and not a.s: return Bool(a.o, not a.p, False)
        if o == 'mul' and b == 1: return a
        if o in ('lshr', 'shl', 'ashr') and b == 0: return a
        raise NoVal('lane %s' % o)
    def vcmp(self, p, w, a, b):
        try: return self.vcmp1(p, w, a, b)
        except NoVal:
            s = (lambda x: sg(x, w)) if p[0] == 's' else (lambda x: x)
            f = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'lt': lambda x, y: x < y, 'gt': lambda x, y: x > y, 'le': lambda x, y: x <= y, 'ge': lambda x, y: x >= y}[p if p in ('eq', 'ne') else p[1:]]
            r = fn2(lambda x, y: int(f(s(x), s(y))), w, a, b)
            if r is None: raise
            return r
    def vcmp1(self, p, w, a, b):
        if isinstance(a, int) and isinstance(b, int):
            s = lambda x: sg(x, w)
            if p[0] == 's': a, b = s(a), s(b)
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]])
        if isinstance(a, int): a, b = b, a; p = {'ugt': 'ult', 'sgt': 'slt', 'ult': 'ugt', 'slt': 'sgt', 'uge': 'ule', 'ule': 'uge'}.get(p, p)
        if b == 0 and p in ('eq', 'ne', 'ugt', 'ule'):
            pos = p in ('ne', 'ugt')
            if isinstance(a, Byte): return Bool(a.o, pos, False)
            if isinstance(a, Bool): return Bool(a.o, a.p == pos, False)
        raise NoVal('lane compare %s' % p)
    def step(self, fr, i):
        o = i.o; vt = vw(i.t) if isinstance(i.t, str) else None
        if vt is None and not (i.o in ('extractelement', 'store', 'bitcast') and i.ops): 
            if o in ('load',):
                p = self.val(fr, i.ops[0])
                if isinstance(p, Ptr) and p.obj in self.user.get('lanes', {}):
                    v = self.user['lanes'][p.obj].get((p.off, i['sz']))
                    if v is not None: return v
            if o in ('add', 'sub'):
                a, b = self.val(fr, i.ops[0]), self.val(fr, i.ops[1])
                try:
                    if any(isinstance(x, Unk) and isinstance(x.why, tuple) and x.why[0] == 'cntv' for x in (a, b)): return scal(cadd(tocnt(a), tocnt(b), 1 if o == 'add' else -1))
                except NoVal: pass
            return SX.step(self, fr, i)
        vals = None
        if o == 'store':
            v = self.force(self.val(fr, i.ops[0]))
            if isinstance(v, Vec):
                p = self.val(fr, i.ops[1]); d = self.user.setdefault('lanes', {}).setdefault(p.obj, {})
                if not isinstance(p.off, int): raise PathEnd('vector store')
                for k, x in enumerate(v.l): d[(p.off + k * v.w // 8, v.w // 8)] = x if isinstance(x, int) else scal(tocnt(x))
                return None
            return SX.step(self, fr, i)
        try: return self.vstep(fr, i, o, vt)
        except NoVal as e: raise PathEnd('vector: %s' % e)
    def vstep(self, fr, i, o, vt):
        W = lambda k: self.val(fr, i.ops[k])
        V = lambda k: self.force(W(k))
        if o == 'load':
            p = V(0); n, w = vt
            if isinstance(p, Ptr) and p.obj == self.root and isinstance(p.off, int) and (n * w) % 8 == 0:
                self.ev('vload', i, p.off, n * w // 8)
                return self.relane8(Vec(8, [Byte(p.off + k) for k in range(n * w // 8)]), n, w)
            if isinstance(p, Ptr) and p.obj in self.user.get('lanes', {}):
                d = self.user['lanes'][p.obj]; return Vec(w, [d[(p.off + k * w // 8, w // 8)] for k in range(n)])
            raise NoVal('vector load')
        if o == 'bitcast':
            v = W(0)
            if not isinstance(v, Vec):
                if vt is None: return SX.step(self, fr, i)
                raise NoVal('bitcast')
            if vt is None:
                if v.w == 1:                       # movemask
                    return Unk(('bits', tuple((x.o, x.p) if isinstance(x, Bool) else x for x in v.l)))
                r = self.relane(self.force(v), 1, self.width(i.t)); x = r.l[0]
                return x if isinstance(x, int) else scal(tocnt(x))
            return self.relane8(v, *vt)
        if o == 'shufflevector':
            a, b = V(0), V(1); src = a.l + b.l
            return Vec(a.w, [0 if m < 0 else src[m] for m in i['mask']])
        if o == 'extractelement':
            v = V(0); k = V(1); x = v.l[k]
            return x if isinstance(x, int) else scal(tocnt(x))
        if o == 'insertelement':
            v, x, k = V(0), V(1), V(2); l = list(v.l); l[k] = x if isinstance(x, int) else tocnt(x); return Vec(v.w, l)
        if o == 'icmp': a, b = V(0), V(1); return Vec(1, [self.vcmp(i['p'], a.w, x, y) for x, y in zip(a.l, b.l)])
        if o in ('sext', 'zext', 'trunc'):
            v = V(0); n, w = vt; r = []
            for x in v.l:
                if isinstance(x, int): r.append((sg(x, v.w) if o == 'sext' else x) & ((1 << w) - 1))
                elif isinstance(x, Bool) and v.w == 1: r.append(Bool(x.o, x.p, o == 'sext'))
                elif isinstance(x, Bool) and not x.s and o == 'zext': r.append(x)
                elif isinstance(x, Cnt) and o == 'zext' : r.append(x)
                elif tofn(x, v.w) is not None: q = tofn(x, v.w); r.append(unfn(q.o, tuple(sg(z, v.w) if o == 'sext' else z for z in q.t), w))
                else: raise NoVal('lane extension')
            return Vec(w, r)
        if o == 'select':
            c, a, b = V(0), V(1), V(2)
            if isinstance(c, Vec):
                r = []
                for q, x, y in zip(c.l, a.l, b.l):
                    if isinstance(q, int): r.append(x if q & 1 else y)
                    elif isinstance(q, Bool) and isinstance(x, int) and isinstance(y, int) and {x, y} == {0, 1}: r.append(Bool(q.o, q.p == (x == 1), False))
                    elif isinstance(q, Bool) and q.p and y == 0 and isinstance(x, Bool): r.append(x)
                    else:
                        z = fn2(lambda c_, x_, y_: x_ if c_ & 1 else y_, a.w, q, x, y)
                        if z is None: raise NoVal('lane select')
                        r.append(z)
                return Vec(a.w, r)
            return SX.step(self, fr, i)
        if o in ('add', 'sub', 'and', 'or', 'xor', 'mul', 'shl', 'lshr', 'ashr'):
            a, b = W(0), W(1)
            if o in ('and', 'or', 'xor') and (isinstance(a, RawVec) or isinstance(b, RawVec)):
                # bit operations do not care about the element type
                fw = min(getattr(x, 'fw', x.w) for x in (a, b)); r = [self.relane(Vec(getattr(x, 'fw', x.w), x.l), None, fw) for x in (a, b)]
                return self.relane8(Vec(fw, [self.lane(o, fw, x, y, i) for x, y in zip(r[0].l, r[1].l)]), *vt)
            a, b = self.force(a), self.force(b); return Vec(a.w, [self.lane(o, a.w, x, y, i) for x, y in zip(a.l, b.l)])
        if o in ('call', 'invoke'): return self.docall(fr, i)
        return SX.step(self, fr, i)
    def relane8(self, v, n, w):
        """another element type: symbolic lanes keep their own width until a wider operation needs them"""
        fw, l = (v.fw, v.l) if isinstance(v, RawVec) else (v.w, v.l)
        if w == fw: return Vec(w, l)
        if w > fw and any(not isinstance(x, int) for x in l): return RawVec(w, l, fw)
        return self.relane(Vec(fw, l), n, w)
    def force(self, v):
        return self.relane(Vec(v.fw, v.l), None, v.w) if isinstance(v, RawVec) else v
    def docall(self, fr, i):
        n = i.callee
        if n and n.startswith('llvm.') and (isinstance(i.t, str) and i.t.startswith('<') or 'psad' in n or 'ctpop' in n or 'vector.reduce' in n):
            try:
                args = [self.force(self.val(fr, a)) for a in i.ops]
                return self.vintr(n, args, i)
            except NoVal as e: raise PathEnd('vector: %s' % e)
        return SX.docall(self, fr, i)
    def vintr(self, n, a, i):
        m = re.match(r'llvm\.(umin|umax|smin|smax)\.v', n)
        if m: return Vec(a[0].w, [self.lane(m.group(1), a[0].w, x, y, i) for x, y in zip(a[0].l, a[1].l)])
        if n.startswith('llvm.abs.v'):
            r = []
            for x in a[0].l:
                if isinstance(x, int): r.append(abs(sg(x, a[0].w)))
                elif isinstance(x, Bool): r.append(Bool(x.o, x.p, False))
                elif tofn(x, a[0].w) is not None: r.append(fn2(lambda z: abs(sg(z, a[0].w)), a[0].w, x))
                else: raise NoVal('abs')
            return Vec(a[0].w, r)
        if n.startswith('llvm.x86.avx2.psad.bw'):
            x, y = a
            if any(v != 0 for v in y.l): raise NoVal('psad')
            return Vec(64, [self.fold(x.l[k:k + 8]) for k in range(0, len(x.l), 8)])
        if n.startswith('llvm.ctpop') and isinstance(a[0], Unk) and isinstance(a[0].why, tuple) and a[0].why[0] == 'bits':
            c = Cnt({})
            for x in a[0].why[1]: c = cadd(c, Cnt({}, x) if isinstance(x, int) else tocnt(Bool(x[0], x[1], False)))
            return scal(c)
        if n.startswith('llvm.vector.reduce.add'):
            c = self.fold(a[0].l)
            if isinstance(c, Cnt) and c.top() >= 1 << a[0].w: raise Overflow('sum of lanes can reach %d' % c.top())
            return c if isinstance(c, int) else scal(c)
        raise NoVal(n)
    def fold(self, l):
        c = Cnt({})
        for x in l: c = cadd(c, tocnt(x))
        return c if c.d else c.c
    def call(self, f, args):
        return SX.call(self, f, args)
class RawVec(Vec):
    """bytes seen through a wider element type"""
    __slots__ = ('fw',)
    def __init__(self, w, l, fw): self.w = w; self.l = l; self.fw = fw
