"""Abstract interpretation of array-rearranging code over a domain of partial orders.

The elements of an array are opaque tokens: nothing is known about them except the order facts that the comparisons on the
current path have established (kept transitively closed), and for floating types whether a token is a NaN.  Addresses, indices
and sizes are concrete.  A comparison of two tokens whose answer the established facts do not settle splits the analysis; the
splits are enumerated exhaustively, so one analysis of a routine at a length covers every array of that length and every type
of tie.  Functions are taken from the IR of the current tree and turned into Python closures, one per function."""
import re

class Alarm(Exception):
    def __init__(self, kind, msg, loc=None): Exception.__init__(self, msg); self.kind = kind; self.msg = msg; self.loc = loc
class Stuck(Exception):
    """the code does something the domain does not model"""
class Budget(Exception): pass

class Tok:
    """an element (or a unit of one).  wide: None, or 'z' / 's' once extended to a wider integer"""
    __slots__ = ('i', 'wide', 'sb')
    def __init__(self, i, wide=None, sb=0): self.i = i; self.wide = wide; self.sb = sb
    def __repr__(self): return 'T%d%s' % (self.i, self.wide or '')
class Cat:
    __slots__ = ('parts',)
    def __init__(self, parts): self.parts = parts
    def __eq__(self, o): return isinstance(o, Cat) and o.parts == self.parts
    def __hash__(self): return hash(tuple(self.parts))
class Bytes:
    """some bytes of elements: ((element, byte), ...)"""
    __slots__ = ('parts', 'u')
    def __init__(self, parts, u): self.parts = parts; self.u = u
class Diff:
    """difference of two elements.  faithful: its sign tells their order (it was taken after widening them); else it wrapped"""
    __slots__ = ('a', 'b', 'faithful', 'sb')
    def __init__(self, a, b, faithful, sb): self.a = a; self.b = b; self.faithful = faithful; self.sb = sb
    def __repr__(self): return 'T%d-T%d' % (self.a, self.b)
NARROW = (int, Diff)
class Uninit:
    def __repr__(self): return 'uninitialised'
UNINIT = Uninit()

class Region:
    __slots__ = ('base', 'size', 'unit', 'ro', 'name', 'freed', 'heap', 'lo', 'hi', 'gen', 'zero')
    def __init__(self, base, size, unit, ro, name): self.base = base; self.size = size; self.unit = unit; self.ro = ro; self.name = name; self.freed = False; self.heap = False; self.lo = None; self.hi = None; self.gen = None; self.zero = False

NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}

class Machine:
    at = ''
    mixed = False        # memory holding numbers only may be a structure
    """state of one path plus the enumeration of splits.  signed: order of integer tokens; nan: tokens may be NaN"""
    def __init__(self, signed=None, nan=False, small=None, limit=60000):
        self.signed = signed; self.nan = nan; self.small = small; self.limit = limit
        self.trail = []; self.paths = 0; self.models = {}; self.onrmw = None; self.strict = False; self.oncall = None; self.shared = (); self.inrmw = False; self.bulk = {}; self.onold = None; self.ginit = {}; self.half = False; self.fail = False; self.reset()
    def reset(self):
        self.pos = 0; self.M = {}; self.R = {}; self.nr = 1; self.LT = []; self.LE = []; self.NAN = []; self.steps = 0; self.globals = {}; self.failed = False; self.wrap = []
    # ---- enumeration
    def choose(self, k):
        p = self.pos; self.pos = p + 1
        if p < len(self.trail): return self.trail[p][0]
        self.trail.append([0, k]); return 0
    def advance(self):
        t = self.trail; del t[self.pos:]
        while t and t[-1][0] + 1 >= t[-1][1]: t.pop()
        if not t: return False
        t[-1][0] += 1; return True
    # ---- order facts
    def tok(self):
        n = len(self.LT); self.LT.append(0); self.LE.append(1 << n); self.NAN.append(None if self.nan else False); return Tok(n)
    def assume(self, a, b, strict):
        """a <= b, or a < b"""
        LE = self.LE; LT = self.LT; n = len(LE); B = LE[b]; SB = LT[b]
        for x in range(n):
            if LE[x] >> a & 1:
                LE[x] |= B
                LT[x] |= B if (strict or LT[x] >> a & 1) else SB
    def lt(self, a, b):
        if self.LT[a] >> b & 1: return True
        if self.LE[b] >> a & 1: return False
        if self.choose(2) == 0: self.assume(a, b, True); return True
        self.assume(b, a, False); return False
    def eq(self, a, b):
        if a == b: return True
        if self.LT[a] >> b & 1 or self.LT[b] >> a & 1: return False
        if self.LE[a] >> b & 1 and self.LE[b] >> a & 1: return True
        if self.LE[a] >> b & 1:
            if self.choose(2) == 0: self.assume(b, a, False); return True
            self.assume(a, b, True); return False
        if self.LE[b] >> a & 1:
            if self.choose(2) == 0: self.assume(a, b, False); return True
            self.assume(b, a, True); return False
        c = self.choose(3)
        if c == 0: self.assume(a, b, False); self.assume(b, a, False); return True
        if c == 1: self.assume(a, b, True)
        else: self.assume(b, a, True)
        return False
    def isnan(self, a):
        v = self.NAN[a]
        if v is None: v = self.NAN[a] = self.choose(2) == 1
        return v
    def less(self, a, b):
        """the type's order, NaNs last"""
        if self.nan:
            if self.isnan(b): return not self.isnan(a)
            if self.isnan(a): return False
        return self.lt(a, b)
    # what the facts settle about the type's order: a is not after b
    def settled_le(self, a, b):
        if self.NAN[b]: return True
        if a == b: return True
        if self.NAN[a] or self.NAN[a] is None or self.NAN[b] is None: return False
        return bool(self.LE[a] >> b & 1)
    def settled_lt(self, a, b):
        if self.NAN[b]: return self.NAN[a] is False
        if self.NAN[a] or self.NAN[a] is None or self.NAN[b] is None: return False
        return bool(self.LT[a] >> b & 1)
    def witness(self, below=None):
        """numbers for the tokens that agree with the facts; below=(y,x): y < x as well, or y == x when 'tie'"""
        n = len(self.LT); lt = list(self.LT); le = list(self.LE)
        if self.wrap: return self.wrapped(below)
        m = Machine(); m.LT = lt; m.LE = le
        if below:
            y, x, strict = below
            if not (self.NAN[y] or self.NAN[x]):
                m.assume(y, x, strict)
                if not strict: m.assume(x, y, False)
        val = [0] * n
        for _ in range(n + 1):
            for a in range(n):
                for b in range(n):
                    if a != b and m.LE[a] >> b & 1: val[b] = max(val[b], val[a] + (1 if m.LT[a] >> b & 1 else 0))
        return ['nan' if self.NAN[i] else val[i] for i in range(n)]
    def wrapped(self, below):
        """numbers of the elements' own width that also explain the differences that wrapped"""
        n = len(self.LT); k = self.wrap[0][3]; h = 1 << (k - 1); lo, hi = (-h, h - 1) if self.signed else (0, 2 * h - 1)
        used = sorted({x for a, b, neg, sb in self.wrap for x in (a, b)} | ({below[0], below[1]} if below else set()))
        cand = sorted({lo + d for d in range(4)} | {hi - d for d in range(4)} | {lo + h + d for d in range(-4, 4)})
        val = {}
        def ok(x):
            for y in val:
                for p, q in ((x, y), (y, x)):
                    if self.LT[p] >> q & 1 and not val[p] < val[q] or self.LE[p] >> q & 1 and not val[p] <= val[q]: return False
            if below and below[0] in val and below[1] in val:
                u, v = val[below[0]], val[below[1]]
                if not (u < v if below[2] else u == v): return False
            for a, b, neg, sb in self.wrap:
                if a in val and b in val and bool((val[a] - val[b]) >> (sb - 1) & 1) != neg: return False
            return True
        def rec(i):
            if i == len(used): return True
            for c in cand:
                val[used[i]] = c
                if ok(used[i]) and rec(i + 1): return True
                del val[used[i]]
            return False
        if not rec(0): raise Stuck('a difference that wraps decides the order')
        return [val.get(i) for i in range(n)]
    # ---- memory
    def region(self, size, unit=None, ro=False, name='memory'):
        b = self.nr << 40; self.nr += 1; self.R[self.nr - 1] = Region(b, size, unit, ro, name); return b
    def find(self, a, w, loc, what):
        if type(a) is not int: raise Stuck('address %r' % (a,))
        r = self.R.get((a + (1 << 20)) >> 40)
        if r is None: raise Alarm('bounds', '%s through an address that belongs to no array' % what, loc) if not -4096 < a < 1 << 16 else Alarm('null', '%s through a null pointer' % what, loc)
        if r.freed: raise Alarm('bounds', '%s of %s after it was freed' % (what, r.name), loc)
        if a < r.base or a + w > r.base + r.size:
            raise Alarm('bounds', '%s of bytes [%d,%d) of %s, which has %d' % (what, a - r.base, a - r.base + w, r.name, r.size), loc)
        if r.lo is not None and not (r.lo <= a and a + w <= r.hi): raise Alarm('range', '%s of bytes [%d,%d) of %s, outside the part it was given' % (what, a - r.base, a - r.base + w, r.name), loc)
        return r
    def ld(self, a, w, loc):
        r = self.find(a, w, loc, 'read')
        u = r.unit
        if r.gen is not None: return r.gen(a - r.base, w, loc)
        if u is not None and w < u and (a - r.base) % u + w <= u and True and u <= 8:
            o = (a - r.base) % u; v = self.M.get(a - o, UNINIT)
            if type(v) is Tok and v.wide is None: return Bytes(tuple((v.i, o + k) for k in range(w)), u)
            if type(v) is Bytes: return Bytes(v.parts[o:o + w], u)
        if u is not None and (w < u and True or (a - r.base) % u):
            raise Alarm('width', 'read of %d bytes at offset %d of %s, whose elements have %d' % (w, a - r.base, r.name, u), loc)
        if u is not None and w > u and w % u == 0 and True:
            return Cat([self.M.get(a + k, UNINIT) for k in range(0, w, u)])
        v = self.M.get(a, UNINIT)
        if v is UNINIT:
            if r.zero or r.name == 'local' and not self.strict: return 0
            raise Alarm('uninit', 'read of bytes %d.. of %s before anything was stored there' % (a - r.base, r.name), loc)
        if isinstance(v, Cat): raise Stuck('part of a composite')
        if type(v) is Bytes: raise Alarm('torn', 'read of an element of %s that is put together from parts of several' % r.name, loc)
        return v
    def st(self, a, v, w, loc):
        r = self.find(a, w, loc, 'write')
        if r.ro: raise Alarm('readonly', 'write to %s, which is only to be read' % r.name, loc)
        if r.base in self.shared and not self.inrmw: raise Alarm('race', 'plain store to memory the workers share', loc)
        if isinstance(v, Cat):
            u = w // len(v.parts)
            if r.unit is None: r.unit = u
            for k, p in enumerate(v.parts): self.M[a + k * u] = p
            return
        if r.unit is None and r.name != 'local' and not (self.mixed and type(v) in (int, str)): r.unit = v.u if type(v) is Bytes else w
        if type(v) is Bytes and r.name != 'local':
            if r.unit is None: r.unit = v.u
            u = r.unit
            if u != v.u or (a - r.base) % u + w > u: raise Alarm('torn', 'bytes of an element are stored across elements of %s' % r.name, loc)
            o = (a - r.base) % u; c = self.M.get(a - o, UNINIT)
            ps = list(c.parts) if type(c) is Bytes else [(c.i, k) for k in range(u)] if type(c) is Tok else [None] * u
            ps[o:o + w] = v.parts
            if ps[0] and all(x == (ps[0][0], k) for k, x in enumerate(ps)): self.M[a - o] = Tok(ps[0][0])
            else: self.M[a - o] = Bytes(tuple(ps), u)
            return
        if r.unit is not None and r.name != 'local':
            if w != r.unit or (a - r.base) % r.unit: raise Alarm('width', 'store of %d bytes at offset %d of %s, whose elements have %d' % (w, a - r.base, r.name, r.unit), loc)
        self.M[a] = v
    def memcpy(self, d, s, n, loc, move=False):
        if type(n) is not int: raise Stuck('memcpy length')
        if n < 0 or n >= 1 << 40: raise Alarm('bounds', 'copy of %d bytes' % n, loc)
        if n == 0 or d == s: return
        rs = self.find(s, n, loc, 'read'); rd = self.find(d, n, loc, 'write')
        if rd.ro: raise Alarm('readonly', 'write to %s, which is only to be read' % rd.name, loc)
        if not move and d < s + n and s < d + n: raise Alarm('overlap', 'memcpy between overlapping parts of %s' % rs.name, loc)
        if rd.base in self.bulk: return self.bulk[rd.base](d, s, n, loc)
        if rd.unit is None: rd.unit = rs.unit
        u = rs.unit or 1
        got = [(o, self.M.get(s + o, UNINIT)) for o in range(0, n, u)] if rs.unit else [(o, self.M[s + o]) for o in range(n) if s + o in self.M]
        if rs.unit and ((s - rs.base) % u or n % u): raise Alarm('torn', 'copy of part of an element of %s' % rs.name, loc)
        for o, v in got:
            if v is UNINIT: self.M.pop(d + o, None)
            else: self.M[d + o] = v
    def memcmp(self, p, q, n, name):
        off = 0
        while off < n:
            r = self.R.get((p + off) >> 40); u = r.unit if r is not None and r.unit else 1
            if u > n - off: raise Stuck('%s of parts of elements' % name)
            x = self.ld(p + off, u, name); y = self.ld(q + off, u, name)
            if type(x) is Tok and type(y) is Tok:
                if not self.eq(x.i, y.i):
                    if name == 'bcmp': return 1
                    if u > 1: raise Stuck('byte order of elements')
                    r = self.LT[x.i] >> y.i & 1
                    if self.signed is None: raise Stuck('byte order of elements')
                    if self.signed: raise Alarm('order', 'signed elements are ordered as unsigned bytes', name)
                    return -1 if r else 1
            elif type(x) is int and type(y) is int:
                if x != y: return -1 if (x & 255) < (y & 255) else 1
            else: raise Stuck('%s of %r and %r' % (name, x, y))
            off += u
        return 0
    def alloc(self, n):
        if type(n) is not int: raise Stuck('allocation size')
        if n < 0: raise Alarm('bounds', 'allocation of %d bytes' % n)
        if self.fail and self.choose(2): self.failed = True; return 0
        a = self.region(n, None, False, 'the workspace of %d bytes' % n); self.R[a >> 40].heap = True; return a
    def free(self, a, loc):
        if a == 0: return
        r = self.R.get(a >> 40)
        if r is None or r.base != a or not r.heap: raise Alarm('free', 'free of something that was not allocated', loc)
        if r.freed: raise Alarm('free', 'memory freed twice', loc)
        r.freed = True
    # ---- token arithmetic
    def icmp(self, p, a, b, w, loc):
        if type(a) is Tok and type(b) is Tok:
            if a.wide != b.wide: raise Alarm('order', 'comparison of elements extended in different ways', loc)
            if p in ('eq', 'ne'):
                e = self.eq(a.i, b.i); return e if p == 'eq' else not e
            if self.signed is None: raise Stuck('integer order of elements')
            good = not self.signed if a.wide == 'z' else (p[0] == 's') == self.signed
            if not good: raise Alarm('order', 'elements of %s type are compared as %s' % ('a signed' if self.signed else 'an unsigned', 'unsigned' if self.signed else 'signed'), loc)
            q = p[1:]
            if q == 'lt': return self.lt(a.i, b.i)
            if q == 'gt': return self.lt(b.i, a.i)
            if q == 'ge': return not self.lt(a.i, b.i)
            return not self.lt(b.i, a.i)
        if type(a) is Diff and type(b) is int: return self.diffcmp(p, a, b, loc)
        if type(b) is Diff and type(a) is int: return self.diffcmp({'s': 's', 'u': 'u'}.get(p[0], '') + {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[p[1:]] if p not in ('eq', 'ne') else p, b, a, loc)
        if type(a) is int and type(b) is int or isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            a = int(a); b = int(b)
            if p == 'eq': return a == b
            if p == 'ne': return a != b
            if p[0] == 'u':
                m = (1 << w) - 1; a &= m; b &= m
            q = p[1:]
            return a < b if q == 'lt' else a > b if q == 'gt' else a <= b if q == 'le' else a >= b
        if isinstance(a, str) or isinstance(b, str):
            if p == 'eq': return a == b
            if p == 'ne': return a != b
        if isinstance(a, Cat) and isinstance(b, Cat) and p in ('eq', 'ne'):
            r = True
            for x, y in zip(a.parts, b.parts):
                if not self.eq(x.i, y.i): r = False; break
            return r if p == 'eq' else not r
        if isinstance(a, Cat) and isinstance(b, Cat): raise Alarm('order', 'several elements are ordered as if they were one', loc)
        raise Stuck('comparison of %r and %r at %s' % (a, b, loc))
    def diffcmp(self, p, d, c, loc):
        if p in ('eq', 'ne'):
            if c != 0: raise Stuck('a difference is compared with %d at %s' % (c, loc))
            e = self.eq(d.a, d.b); return e if p == 'eq' else not e
        if p[0] == 'u' and (p, c) not in (('ugt', 0), ('ule', 0), ('ult', 1), ('uge', 1)): raise Stuck('unsigned order of a difference at %s' % loc)
        if p[0] == 'u':
            e = self.eq(d.a, d.b); return e if p in ('ule', 'ult') else not e
        if (p, c) in (('sgt', -1), ('sge', 0)): return not self.neg(d)
        if (p, c) in (('slt', 0), ('sle', -1)): return self.neg(d)
        if (p, c) in (('sgt', 0), ('sge', 1)): return not self.neg(d) and not self.eq(d.a, d.b)
        if (p, c) in (('sle', 0), ('slt', 1)): return self.neg(d) or self.eq(d.a, d.b)
        raise Stuck('a difference is compared with %d at %s' % (c, loc))
    def neg(self, d):
        if self.signed is None: raise Stuck('difference of elements')
        if d.faithful: return self.lt(d.a, d.b)
        if self.eq(d.a, d.b): return False
        for a, b, n, sb in self.wrap:
            if (a, b) == (d.a, d.b): return n
        n = self.choose(2) == 1
        self.wrap.append((d.a, d.b, n, d.sb)); return n
    def rmw(self, op, a, v, w, loc):
        old = self.ld(a, w, loc)
        if op == 'xchg': new = v
        elif op in ('add', 'sub', 'and', 'or', 'xor'): new = self.arith(op, old, v, 8 * w, loc)
        else: raise Stuck('atomic %s' % op)
        self.inrmw = True; self.st(a, new, w, loc); self.inrmw = False
        if self.onrmw: self.onrmw(a, old, new, loc)
        return old
    def thrcmp(self, p, a, b, w, loc, k):
        """comparison of a length with a size threshold: decided as if the threshold were small"""
        if type(a) is int and type(b) is int and self.small is not None:
            sc = self.small
            if k == 1: b = sc if b <= 64 else 0
            else: a = sc if a <= 64 else 0
        return self.icmp(p, a, b, w, loc)
    def fcmp(self, p, a, b, loc):
        if type(a) is Tok and type(b) is Tok and self.nan:
            na = self.isnan(a.i); nb = self.isnan(b.i)
            if na or nb: return p[0] == 'u' and p != 'ord' or p == 'true'
            q = p[1:] if p not in ('ord', 'uno') else p
            if q == 'ord': return True
            if q == 'uno': return False
            x, y = a.i, b.i
            if q == 'lt': return self.lt(x, y)
            if q == 'gt': return self.lt(y, x)
            if q == 'ge': return not self.lt(x, y)
            if q == 'le': return not self.lt(y, x)
            if q == 'eq': return self.eq(x, y)
            if q == 'ne': return not self.eq(x, y)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not self.nan:
            import math
            if a != a or b != b: return p[0] == 'u' or p == 'true'
            q = p[1:] if p not in ('ord', 'uno') else p
            return {'lt': a < b, 'gt': a > b, 'ge': a >= b, 'le': a <= b, 'eq': a == b, 'ne': a != b, 'ord': True, 'uno': False}[q]
        raise Stuck('floating comparison')
    def tofloat(self, v, o, w):
        if not isinstance(v, (bool, int)): raise Stuck('conversion of %r' % (v,))
        return float(v & ((1 << w) - 1) if o == 'uitofp' else v)
    def toint(self, v, w):
        if not isinstance(v, (int, float)) or v != v or abs(v) >= 1 << 63: raise Stuck('conversion of %r' % (v,))
        return sgn(int(v), w)
    def ext(self, v, how, sb):
        if type(v) is Tok:
            if v.wide not in (None, how) and not (v.wide == 'z' and how == 's' and sb > v.sb): raise Stuck('extension')
            if self.signed is None and self.nan: raise Stuck('extension of a floating element')
            return Tok(v.i, v.wide or how, v.sb or sb)
        if type(v) is Diff:
            if how == 'z' and v.faithful: raise Stuck('zero extension of a difference')
            return v
        if isinstance(v, (bool, int)):
            v = int(v)
            if how == 'z': return v & ((1 << sb) - 1)
            v &= (1 << sb) - 1
            return v - (1 << sb) if v >> (sb - 1) and sb > 0 else v
        if isinstance(v, str): return v
        raise Stuck('extension of %r' % (v,))
    def arith(self, op, a, b, w, loc):
        if op == 'sub' and type(a) is Tok and type(b) is Tok and a.wide == b.wide and self.signed is not None and not self.nan:
            if a.wide is None: return Diff(a.i, b.i, False, w)
            return Diff(a.i, b.i, (a.wide == 's') == bool(self.signed) and w > a.sb, a.sb if w > a.sb else w)
        if op == 'and' and b == -1 and type(a) is Tok and a.wide:
            if w > a.sb: return a
            if w == a.sb: return Tok(a.i)
        if op == 'and' and b == -1 and type(a) is Diff and w >= a.sb: return a if w > a.sb else Diff(a.a, a.b, False, a.sb)
        if not isinstance(a, (bool, int)) or not isinstance(b, (bool, int)): raise Stuck('%s of %r and %r at %s' % (op, a, b, loc))
        a = int(a); b = int(b); m = (1 << w) - 1
        if op in ('udiv', 'urem', 'lshr'): a &= m; b &= m
        if op in ('sdiv', 'srem', 'udiv', 'urem') and b == 0: raise Alarm('arith', 'division by zero', loc)
        if op == 'add': r = a + b
        elif op == 'sub': r = a - b
        elif op == 'mul': r = a * b
        elif op in ('sdiv', 'udiv'): r = abs(a) // abs(b); r = -r if (a < 0) != (b < 0) else r
        elif op == 'srem': r = abs(a) % abs(b); r = -r if a < 0 else r
        elif op == 'urem': r = a % b
        elif op == 'and': r = a & b
        elif op == 'or': r = a | b
        elif op == 'xor': r = a ^ b
        elif op == 'shl': r = a << (b & m) if 0 <= b < w else 0
        elif op in ('lshr', 'ashr'): r = a >> b if 0 <= b < w else 0
        else: raise Stuck(op)
        r &= m
        if w == 1: return r
        return r - (1 << w) if r >> (w - 1) else r

def mkarray(S, typenum, itemsize, dims, strides, data, flags=0x501 | 0x400, byteorder='='):
    """an array object, as numpy lays it out, and its type descriptor"""
    d = S.region(256, None, True, 'the type descriptor'); a = S.region(256, None, True, 'the array object'); sh = S.region(8 * max(1, len(dims)), None, True, 'the shape'); stv = S.region(8 * max(1, len(dims)), None, True, 'the strides')
    M = S.M
    for r in (d, a): S.R[r >> 40].zero = True
    M[d + 24] = ord('?'); M[d + 25] = ord('?'); M[d + 26] = ord(byteorder); M[d + 28] = typenum; M[d + 32] = itemsize; M[d + 40] = itemsize
    M[a + 16] = data; M[a + 24] = len(dims); M[a + 32] = sh; M[a + 40] = stv; M[a + 56] = d; M[a + 64] = flags
    for k, (x, y) in enumerate(zip(dims, strides)): M[sh + 8 * k] = x; M[stv + 8 * k] = y
    return a

VEC = re.compile(r'<(\d+) x (\w+)>$')
def shape(t):
    """(lanes, bits of a lane) of a vector type"""
    m = VEC.match(t or '')
    if not m: return None
    return int(m.group(1)), {'float': 32, 'double': 64, 'ptr': 64}.get(m.group(2)) or int(m.group(2)[1:])
def align(x):
    if x[0] == 'v': return max([align(y) for y in x[1]] or [1])
    return min(16, max(1, x[2] // 8)) if x[0] == 'i' else 8 if x[0] in ('null', 'g', 'gep') else {'float': 4, 'double': 8}.get(x[2], 1) if x[0] == 'f' else 1
def fpconst(v):
    import struct
    b = int(v[1], 16)
    if v[2] == 'double': x = struct.unpack('<d', struct.pack('<Q', b))[0]
    elif v[2] == 'float': x = struct.unpack('<f', struct.pack('<I', b))[0]
    else: return 'C.bad(%r)' % (v,)
    return repr(x) if x == x and abs(x) != float('inf') else 'float(%r)' % repr(x)
class Lanes:
    """a vector of plain numbers"""
    __slots__ = ('w', 'l')
    def __init__(self, w, l): self.w = w; self.l = tuple(l)
    def __repr__(self): return 'vector of %d' % len(self.l)
def lanes(v, n, w):
    if type(v) is Lanes: return v
    if v == 0 and type(v) is int: return Lanes(w, [0] * n)
    raise Stuck('vector of %r' % (v,))
def sgn(x, w):
    x &= (1 << w) - 1
    return x - (1 << w) if w > 1 and x >> (w - 1) else x
def vector(S, i, *a):
    """one vector instruction, on plain numbers"""
    o = i.o; sh = shape(i.t); loc = i.where() if i.get('l') else ''
    if o == 'load':
        n, w = sh; return Lanes(w, [S.ld(a[0] + k * w // 8, w // 8, loc) for k in range(n)])
    if o == 'store':
        n, w = shape(i['vt']); v = lanes(a[0], n, w)
        if v.w == w and len(v.l) == n:
            for k, x in enumerate(v.l): S.st(a[1] + k * w // 8, x, w // 8, loc)
            return 0
        raise Stuck('store of a vector')
    if o == 'bitcast':
        v = a[0]; src = [v] if type(v) is not Lanes else v.l; sw = v.w if type(v) is Lanes else None
        if sh and type(v) is not Lanes:
            if v == 0: return Lanes(sh[1], [0] * sh[0])
            raise Stuck('bitcast of %r' % (v,))
        tw = sh[1] if sh else width(i.t)
        if sw == tw: return v
        if all(x == 0 for x in src if not isinstance(x, float)) and not any(isinstance(x, float) for x in src): bits = 0
        elif all(type(x) is int for x in src): bits = sum((x & ((1 << sw) - 1)) << (sw * k) for k, x in enumerate(src))
        else: raise Stuck('bitcast of a vector')
        if not sh: return sgn(bits, tw)
        return Lanes(tw, [sgn(bits >> (tw * k), tw) for k in range(sh[0])])
    if o == 'insertelement':
        v = lanes(a[0], *sh); l = list(v.l); l[a[2]] = a[1]; return Lanes(v.w, l)
    if o == 'extractelement':
        if type(a[0]) is not Lanes:
            if a[0] == 0: return 0
            raise Stuck('extractelement')
        return a[0].l[a[1]]
    if o == 'shufflevector':
        w = sh[1]; n = next((len(x.l) for x in a if type(x) is Lanes), max(i['mask']) + 1)
        src = lanes(a[0], n, w).l + lanes(a[1], n, w).l
        return Lanes(w, [0 if m < 0 else src[m] for m in i['mask']])
    vs = [x for x in a if type(x) is Lanes]
    n = len(vs[0].l) if vs else sh[0]; w = vs[0].w if vs else sh[1]
    if o in ('zext', 'sext', 'trunc'):
        v = lanes(a[0], n, w); t = sh[1]
        return Lanes(t, [sgn((x if o != 'zext' else x & ((1 << w) - 1)) if not (o == 'sext' and w == 1) else -(x & 1), t) for x in v.l])
    if o in ('icmp', 'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
        x, y = lanes(a[0], n, w), lanes(a[1], n, w)
        if o == 'icmp': return Lanes(1, [int(S.icmp(i['p'], p, q, w, loc)) for p, q in zip(x.l, y.l)])
        return Lanes(w, [S.arith(o, p, q, w, loc) for p, q in zip(x.l, y.l)])
    if o == 'select':
        if type(a[0]) is not Lanes: return a[1] if a[0] else a[2]
        n = len(a[0].l); x, y = lanes(a[1], n, sh[1]), lanes(a[2], n, sh[1])
        return Lanes(sh[1], [p if c else q for c, p, q in zip(a[0].l, x.l, y.l)])
    if o == 'call':
        c = i.callee or ''
        if c.startswith('llvm.abs.v'): return Lanes(w, [sgn(abs(x), w) for x in lanes(a[0], n, w).l])
        if c.startswith(('llvm.umin.v', 'llvm.umax.v', 'llvm.smin.v', 'llvm.smax.v')):
            f = min if 'min' in c else max; k = (lambda x: x & ((1 << w) - 1)) if '.u' in c else (lambda x: x)
            return Lanes(w, [f(p, q, key=k) for p, q in zip(lanes(a[0], n, w).l, lanes(a[1], n, w).l)])
    raise Stuck('vector instruction %s %s' % (o, i.callee if o == 'call' else ''))

def width(t):
    m = re.match(r'i(\d+)$', t or '')
    return int(m.group(1)) if m else 64

class Compiler:
    strings = False      # initialisers may point at other data
    relax = None         # functions whose length thresholds may be lowered (None: all)
    """closures for the functions of a module"""
    def __init__(self, mods, S, thresholds=(10, 1 << 16)):
        self.mods = mods; self.S = S; self.F = {}; self.V = {}; self.thr = thresholds; self.sites = {}; self.used = set()
    def fn(self, name, k=0):
        f = self.F.get((name, k))
        if f is None: f = self.F[name, k] = self.make(name, k)
        return f
    def lookup(self, name, k=0):
        """the function a name means in module k"""
        for m in self.mods[k:k + 1] + self.mods:
            f = m.functions.get(name)
            if f is not None and f.blocks: return f
        return None
    def modof(self, f):
        for k, m in enumerate(self.mods):
            if m.functions.get(f.name) is f: return k
        return 0
    def make(self, name, k=0):
        S = self.S
        if name in S.models: return S.models[name]
        base = name
        if name == 'llvm.x86.rdtsc': return lambda *a: 0
        if name.startswith('llvm.memcpy'): return lambda d, s, n, *r: S.memcpy(d, s, n, 'memcpy')
        if name.startswith('llvm.memmove'): return lambda d, s, n, *r: S.memcpy(d, s, n, 'memmove', True)
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental', 'llvm.prefetch', 'llvm.x86.sse2.pause')): return lambda *a: 0
        if name in ('memcpy', 'memmove'): return lambda d, s, n, *r: (S.memcpy(d, s, n, name, name == 'memmove'), d)[1]
        if name in ('memcmp', 'bcmp'): return lambda p, q, n: S.memcmp(p, q, n, name)
        if name in ('printf', 'puts', 'putchar'): return lambda *a: 0
        if name in ('malloc', '_Z7FmAllocm', '_Znwm', '_Znam'): return lambda n: S.alloc(n)
        if name in ('free', '_Z6FmFreePv', '_ZdlPv', '_ZdaPv'): return lambda p, *r: S.free(p, name)
        if name in ('llvm.abs.i64', 'llvm.abs.i32'): return lambda a, *r: abs(a)
        if name.startswith(('llvm.smin', 'llvm.umin')): return lambda a, b: min(a, b)
        if name.startswith(('llvm.smax', 'llvm.umax')): return lambda a, b: max(a, b)
        f = self.lookup(name, k)
        if f is None: raise Stuck('call of %s, whose code is not known' % name)
        self.used.add(f)
        if S.half and f.args and len(f.args) <= 2 and all(t == 'i16' for t, _ in f.args) and self.returns_bit(f):
            return self.halfcmp(f)
        return self.closure(f)
    def returns_bit(self, f):
        for b in f.blocks:
            for i in b.ins:
                if i.o == 'ret':
                    if not i.ops: return False
                    v = i.ops[0]
                    if isinstance(v, list): return v[0] == 'i' and v[2] in (1, 32)
                    d = f.byid.get(v); return d is not None and d.t in ('i1', 'i32')
        return False
    def halfcmp(self, f):
        """a comparison of two half-precision bit patterns: its truth table over the classes of the format, turned into one over elements"""
        S = self.S
        sub = Compiler(self.mods, Machine()); g = sub.closure(f)
        reps = [0x0000, 0x8000, 0x0001, 0x8001, 0x03ff, 0x83ff, 0x0400, 0x8400, 0x3bff, 0x3c00, 0xbc00, 0x3c01, 0xbc01, 0x4000, 0xc000, 0x7bff, 0xfbff, 0x7c00, 0xfc00]
        nans = [0x7c01, 0xfc01, 0x7e00, 0xfe00, 0x7fff, 0xffff]
        def val(h):
            e = h >> 10 & 31; m = h & 1023; v = m if e == 0 else (m + 1024) << (e - 1)
            return -v if h >> 15 else v
        def sg(h): return h - 65536 if h >> 15 else h
        def run(*a): return bool(g(*[sg(x) for x in a]))
        self.used |= sub.used
        if len(f.args) == 1:
            r = {x: run(x) for x in reps + nans}
            if all(not r[x] for x in reps) and all(r[x] for x in nans): return lambda a: S.isnan(a.i) if type(a) is Tok else g(a)
            if all(r[x] for x in reps) and all(not r[x] for x in nans): return lambda a: not S.isnan(a.i) if type(a) is Tok else g(a)
            bad = [x for x in nans if not r[x]] + [x for x in reps if r[x]]
            raise Alarm('order', 'the test for NaN %s answers %s for half-precision bits 0x%04x' % (f.short, r[bad[0]], bad[0]), f.short)
        R = {(x, y): run(x, y) for x in reps for y in reps}
        ref = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b, 'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'T': lambda a, b: True, 'F': lambda a, b: False}
        miss = {k: [(x, y) for x in reps for y in reps if R[x, y] != fn(val(x), val(y))] for k, fn in ref.items()}
        kind = [k for k in ref if not miss[k]]
        if not kind:
            k = min(ref, key=lambda q: len(miss[q])); x, y = miss[k][0]
            raise Alarm('order', 'the comparison %s, otherwise "%s", answers %s for half-precision bits 0x%04x and 0x%04x' % (f.short, k, R[x, y], x, y), f.short)
        kind = kind[0]
        def cls(xs, ys):
            v = set(run(x, y) for x in xs for y in ys); return v.pop() if len(v) == 1 else None
        nn, nx, xn = cls(nans, nans), cls(nans, reps), cls(reps, nans)
        def h(a, b):
            if type(a) is not Tok or type(b) is not Tok: return g(a, b)
            na, nb = S.isnan(a.i), S.isnan(b.i)
            if na or nb:
                r = nn if na and nb else nx if na else xn
                if r is None: raise Alarm('order', 'the comparison %s answers differently for different NaN patterns or sides' % f.short, f.short)
                return r
            x, y = a.i, b.i
            if kind == 'lt': return S.lt(x, y)
            if kind == 'gt': return S.lt(y, x)
            if kind == 'ge': return not S.lt(x, y)
            if kind == 'le': return not S.lt(y, x)
            if kind == 'eq': return S.eq(x, y)
            if kind == 'ne': return not S.eq(x, y)
            return kind == 'T'
        return h
    def closure(self, f):
        name = f.name; S = self.S
        src = self.source(f)
        env = {'S': S, 'C': self, 'vector': vector, 'Lanes': Lanes, 'Alarm': Alarm, 'Stuck': Stuck, 'Budget': Budget, 'UNINIT': UNINIT, 'Tok': Tok, 'NARROW': NARROW}
        exec(compile(src, '<' + name + '>', 'exec'), env)
        return env['f']
    def op(self, v, f):
        if isinstance(v, int): return 'v%d' % v
        k = v[0]
        if k == 'i':
            n = v[1]; w = v[2]
            if w == 1: return str(n & 1)
            n &= (1 << w) - 1
            return str(n - (1 << w) if n >> (w - 1) else n)
        if k == 'null': return '0'
        if k in ('undef', 'poison'): return '0'
        if k == 'f': return fpconst(v)
        if k == 'zero': return '0'
        if k == 'g':
            g = self.lookup(v[1], self.modof(f))
            if g: return repr('%d|%s' % (self.modof(g), v[1]))
            if not any(v[1] in getattr(m, 'globals', {}) for m in self.mods): return repr('0|' + v[1])
            return 'C.glob(%r,%d)' % (v[1], self.modof(f))
        if k == 'v' and v[1] and all(x[0] in ('i', 'undef', 'poison', 'zero', 'null', 'fp') for x in v[1]):
            w = next((x[2] for x in v[1] if x[0] == 'i'), 64); return 'Lanes(%d,(%s,))' % (w, ','.join(self.op(x, f) for x in v[1]))
        if k == 'gep': return '(%s+%d)' % (self.op(v[1], f), v[2])
        return 'C.bad(%r)' % (v,)
    def part(self, v, k):
        if type(v) is not tuple: raise Stuck('extractvalue')
        return v[k]
    def bad(self, v): raise Stuck('constant %r' % (v,))
    def glob(self, name, k=0):
        S = self.S; own = self.mods[k].globals.get(name) if k < len(self.mods) else None; key = (k, name) if own is not None and own.get('internal') else name
        if key in S.globals: return S.globals[key]
        if name not in S.globals or key != name:
            g = own if key != name else None
            for m in self.mods if key == name else ():
                x = m.globals.get(name)
                if x is not None and not x.get('internal') and (g is None or x.get('init') is not None): g = x
            if g is None:
                for j, m in enumerate(self.mods):
                    if name in m.globals and m.globals[name].get('internal'): return self.glob(name, j)
            b = S.globals[key] = S.region(max(8, (g or {}).get('sz') or 8), None, False, name)
            r = S.R[b >> 40]; r.zero = True
            if g and g.get('init') is not None: self.fill(b, g['init'], k)
            if name in S.ginit: S.ginit[name](b, r)
        return S.globals[key]
    def fill(self, a, v, mk=0):
        """store an initializer at address a; -> bytes used"""
        k = v[0]
        if k == 'i':
            w = max(1, v[2] // 8); n = v[1] & ((1 << v[2]) - 1)
            self.S.M[a] = n - (1 << v[2]) if v[2] > 1 and n >> (v[2] - 1) else n
            return w
        if k == 'v':
            o = 0; mx = 1
            for x in v[1]:
                al = align(x); mx = max(mx, al)
                o = (o + al - 1) // al * al
                o += self.fill(a + o, x, mk)
            return (o + mx - 1) // mx * mx
        if k == 'null': self.S.M[a] = 0; return 8
        if k == 'g' and self.lookup(v[1]): self.S.M[a] = '%d|%s' % (self.modof(self.lookup(v[1])), v[1]); return 8
        if k == 'g' and self.strings: self.S.M[a] = self.glob(v[1], mk); return 8
        if k == 'gep' and self.strings and v[1][0] == 'g': self.S.M[a] = self.glob(v[1][1], mk) + v[2]; return 8
        return 8 if k in ('g', 'gep') else 0
    def indirect(self, p, *a):
        if not isinstance(p, str): raise Alarm('call', 'call through a null or unknown function pointer') if p == 0 else Stuck('indirect call of %r' % (p,))
        if '|' not in p:
            if p in self.S.models: return self.S.models[p](*a)
            if self.S.onold: return self.S.onold(p, a)
            raise Stuck('call through %s' % p)
        if self.S.oncall:
            r = self.S.oncall(p, a)
            if r is not NotImplemented: return r
        k, n = p.split('|', 1)
        return self.fn(n, int(k))(*a)
    def isvec(self, i, f):
        if i.o in ('insertelement', 'extractelement', 'shufflevector'): return True
        if i.o in ('phi', 'ret', 'br', 'freeze', 'getelementptr'): return False
        if i.o in ('call', 'invoke'): return bool(i.callee) and i.callee.startswith('llvm.') and '<' in (i.t or '')
        if '<' in (i.t or '') or '<' in (i.get('vt') or '') and i.o == 'store': return True
        return i.o == 'bitcast' and isinstance(i.ops[0], int) and '<' in (getattr(f.byid.get(i.ops[0]), 't', '') or '')
    def source(self, f):
        out = ['def f(%s):' % ', '.join('v%d' % i for i in range(len(f.args))), ' b=0', ' while True:', '  S.steps+=1', '  if S.steps>S.limit: raise Budget()']
        O = lambda v: self.op(v, f)
        derived = self.lengths(f); mk = self.modof(f)
        def block(b, ind):
            L = []
            for i in b.ins:
                o = i.o; r = 'v%d' % i.id; loc = repr(i.where()) if i.get('l') else repr(f.short)
                a = i.ops
                if o == 'phi': continue
                elif self.isvec(i, f): self.V[f.name, i.id] = i; L.append('%s=vector(S,C.V[%r,%d],%s)' % (r, f.name, i.id, ', '.join(O(x) for x in a)))
                elif o == 'load': L.append('%s=S.ld(%s,%d,%s)' % (r, O(a[0]), 16 if i.t == 'x86_fp80' else i['sz'], loc))
                elif o == 'store': L.append('S.st(%s,%s,%d,%s)' % (O(a[1]), O(a[0]), 16 if i.get('vt') == 'x86_fp80' else i['sz'], loc))
                elif o == 'getelementptr':
                    e = O(a[0]) + ('+%d' % i['off'] if i['off'] else '')
                    for x, sc in i['var']: e += '+%s*%d' % (O(x), sc)
                    L.append('%s=%s' % (r, e))
                elif o in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'): L.append('%s=%s' % (r, O(a[0])))
                elif o in ('zext', 'sext'):
                    L.append('%s=S.ext(%s,%r,%d)' % (r, O(a[0]), o[0], width(i['st'])))
                elif o == 'trunc':
                    w = width(i.t)
                    L.append('%s=%s; %s=S.arith("and",%s,%d,%d,%s) if type(%s) in NARROW else %s' % (r, O(a[0]), r, r, -1, w, loc, r, r))
                elif o in ('sitofp', 'uitofp'): L.append('%s=S.tofloat(%s,%r,%d)' % (r, O(a[0]), o, width(i['st'])))
                elif o in ('fptosi', 'fptoui'): L.append('%s=S.toint(%s,%d)' % (r, O(a[0]), width(i.t)))
                elif o in ('fpext', 'fptrunc'): L.append('%s=%s' % (r, O(a[0])))
                elif o in ('add', 'sub') and i.t == 'i64':
                    x, y = O(a[0]), O(a[1]); s = '+' if o == 'add' else '-'
                    L.append('%s=%s%s%s if type(%s) is int and type(%s) is int else S.arith(%r,%s,%s,64,%s)' % (r, x, s, '(%s)' % y, x, y, o, x, y, loc))
                elif o in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                    L.append('%s=S.arith(%r,%s,%s,%d,%s)' % (r, o, O(a[0]), O(a[1]), width(i.t), loc))
                elif o == 'icmp':
                    x, y = O(a[0]), O(a[1]); w = self.cmpw(i, f)
                    k = self.threshold(i, derived) if self.relax is None or f in self.relax else None
                    if k is not None: L.append('%s=S.thrcmp(%r,%s,%s,%d,%s,%d)' % (r, i['p'], x, y, w, loc, k))
                    else:
                        p = i['p']; py = {'eq': '==', 'ne': '!=', 'slt': '<', 'sgt': '>', 'sle': '<=', 'sge': '>='}.get(p) or ({'ult': '<', 'ugt': '>', 'ule': '<=', 'uge': '>='}[p] if self.isptr(a[0], f) or self.isptr(a[1], f) else None)
                        if py: L.append('%s=(%s%s%s) if type(%s) is int and type(%s) is int else S.icmp(%r,%s,%s,%d,%s)' % (r, x, py, y, x, y, p, x, y, w, loc))
                        else: L.append('%s=S.icmp(%r,%s,%s,%d,%s)' % (r, p, x, y, w, loc))
                elif o == 'fcmp': L.append('%s=S.fcmp(%r,%s,%s,%s)' % (r, i['p'], O(a[0]), O(a[1]), loc))
                elif o == 'select': L.append('%s=%s if %s else %s' % (r, O(a[1]), O(a[0]), O(a[2])))
                elif o == 'alloca':
                    if a and isinstance(a[0], int): L.append('%s=S.region(%s*%d,None,False,"the workspace on the stack")' % (r, O(a[0]), i['asz']))
                    else: L.append('%s=S.region(%d,None,False,"local")' % (r, i['asz'] * (a[0][1] if a else 1)))
                elif o == 'atomicrmw': L.append('%s=S.rmw(%r,%s,%s,%d,%s)' % (r, i['rmw'], O(a[0]), O(a[1]), i['sz'], loc))
                elif o == 'extractvalue' and len(i['ix']) == 1: L.append('%s=C.part(%s,%d)' % (r, O(a[0]), i['ix'][0]))
                elif o in ('extractvalue', 'insertvalue'): L.append('raise Stuck("%s")' % o)
                elif o == 'call' or o == 'invoke':
                    c = i.callee
                    if self.strings and not (c and c.startswith('llvm.')): L.append('S.at=%s' % loc)
                    if c: L.append('%s=C.fn(%r,%d)(%s)' % (r, c, mk, ', '.join(O(x) for x in a)))
                    elif isinstance(i['callee'], list) and i['callee'][0] == 'asm' and 'rdtsc' in i['callee'][1]: L.append('%s=(1,1)' % r)
                    else: L.append('%s=C.indirect(%s)' % (r, ', '.join([O(i['callee'])] + [O(x) for x in a])))
                    if o == 'invoke': L += self.jump(f, b, i['s'][0], O)
                elif o == 'ret': L.append('return %s' % (O(a[0]) if a else '0'))
                elif o == 'unreachable': L.append('raise Alarm("end","the end of a function that must return is reached",%s)' % loc)
                elif o == 'br':
                    if not a: L += self.jump(f, b, i['s'][0], O)
                    else:
                        L.append('if %s:' % O(a[0])); L += [' ' + x for x in self.jump(f, b, i['s'][0], O)]
                        L.append('else:'); L += [' ' + x for x in self.jump(f, b, i['s'][1], O)]
                elif o == 'switch':
                    L.append('_s=%s' % O(a[0]))
                    for v, t in i['cases']:
                        L.append('if _s==%d:' % v); L += [' ' + x for x in self.jump(f, b, t, O)]
                    L += self.jump(f, b, i['def'], O)
                else: L.append('raise Stuck(%r)' % ('instruction %s' % o))
            return [ind + x for x in L]
        def tree(lo, hi, ind):
            if hi - lo == 1: return block(f.blocks[lo], ind)
            m = (lo + hi) // 2
            return [ind + 'if b<%d:' % m] + tree(lo, m, ind + ' ') + [ind + 'else:'] + tree(m, hi, ind + ' ')
        return '\n'.join(out + tree(0, len(f.blocks), '  ')) + '\n'
    def jump(self, f, b, t, O):
        ph = []
        for i in f.blocks[t].ins:
            if i.o != 'phi': continue
            for v, p in i['in']:
                if p == b.id: ph.append(('v%d' % i.id, O(v))); break
        L = []
        ph = [(x, y) for x, y in ph if x != y]
        if ph: L.append('%s=%s' % (','.join(x for x, _ in ph), ','.join(y for _, y in ph)))
        return L + ['b=%d; continue' % t]
    def isptr(self, v, f):
        if isinstance(v, list): return v[0] in ('null', 'gep', 'g')
        i = f.byid.get(v)
        return i is not None and i.t == 'ptr'
    def cmpw(self, i, f):
        for v in i.ops:
            if isinstance(v, list) and v[0] == 'i': return v[2]
            d = f.byid.get(v) if isinstance(v, int) else None
            if d is not None: return width(d.t)
        return 64
    def lengths(self, f):
        """values that are a number of elements or bytes left: differences of addresses, integer arguments, what is computed from them"""
        der = set(k for k in range(len(f.args)))
        for _ in range(3):
            for i in f.ins():
                if i.o == 'sub': der.add(i.id)
                elif i.o in ('sdiv', 'ashr', 'add', 'sext', 'trunc', 'phi', 'mul', 'shl', 'udiv', 'lshr', 'zext'):
                    ops = [v for v, _ in i['in']] if i.o == 'phi' else i.ops
                    if any(isinstance(v, int) and v in der for v in ops): der.add(i.id)
        return der
    def threshold(self, i, der):
        for k in (0, 1):
            c = i.ops[k]; o = i.ops[1 - k]
            if isinstance(c, list) and c[0] == 'i' and self.thr[0] <= c[1] <= self.thr[1] and isinstance(o, int) and o in der and i['p'] not in ('eq', 'ne'): return k
        return None
