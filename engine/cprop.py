"""Interprocedural constant propagation over the raw IR of all units (values: integer constants, pointers into
abstract objects, named unknowns).  Loops with constant trip counts are unrolled completely by following the constant
branch conditions; a branch on an unknown is decided by a policy callback that records the assumption."""
import re
MASK = lambda v, w: v & ((1 << w) - 1)
class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off=0): self.obj = obj; self.off = off
    def __eq__(self, o): return isinstance(o, Ptr) and o.obj == self.obj and o.off == self.off
    def __hash__(self): return hash((self.obj, self.off))
    def __repr__(self): return '&%s+%s' % (sobj(self.obj), self.off)
class Unk:
    __slots__ = ('why',)
    def __init__(self, why): self.why = why
    def __eq__(self, o): return isinstance(o, Unk) and o.why == self.why
    def __hash__(self): return hash(('unk', self.why))
    def __repr__(self): return '?' + sobj(self.why)
def sobj(o):
    s = str(o); return s if len(s) < 200 else s[:200] + '..'
class Stop(Exception): pass

def tsize(t, structs):
    """(size, align) of an IR type string"""
    m = re.match(r'^i(\d+)$', t)
    if m: n = max(1, (int(m.group(1)) + 7) // 8); n = 1 << (n - 1).bit_length(); return n, n
    if t in ('ptr', 'double'): return 8, 8
    if t == 'float': return 4, 4
    if t == 'half': return 2, 2
    if t == 'x86_fp80': return 16, 16
    m = re.match(r'^\[(\d+) x (.*)\]$', t)
    if m: s, a = tsize(m.group(2), structs); return s * int(m.group(1)), a
    m = re.match(r'^<(\d+) x (.*)>$', t)
    if m: s, a = tsize(m.group(2), structs); return s * int(m.group(1)), s * int(m.group(1))
    if t.startswith('{') or t.startswith('<{'):
        off = 0; al = 1
        for x in splitstruct(t):
            s, a = tsize(x, structs); a = 1 if t[0] == '<' else a; off = (off + a - 1) // a * a + s; al = max(al, a)
        return (off + al - 1) // al * al, al
    n = t.lstrip('%').strip('"')
    if n in structs:
        off = 0; al = 1
        for o, x in structs[n]:
            s, a = tsize(x, structs); off = o + s; al = max(al, a)
        return (off + al - 1) // al * al, al
    raise Stop('type ' + t)
def splitstruct(t):
    b = t[t.index('{') + 1:t.rindex('}')]; out = []; d = 0; cur = ''
    for ch in b:
        if ch in '[{<(': d += 1
        if ch in ']}>)': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
def fields(t, structs):
    """[(offset, type)] for one level of an aggregate, None for a scalar"""
    m = re.match(r'^[\[<](\d+) x (.*)[\]>]$', t)
    if m:
        s, a = tsize(m.group(2), structs); return [(i * s, m.group(2)) for i in range(int(m.group(1)))]
    if t.startswith('{') or t.startswith('<{'):
        out = []; off = 0
        for x in splitstruct(t):
            s, a = tsize(x, structs); a = 1 if t[0] == '<' else a; off = (off + a - 1) // a * a; out.append((off, x)); off += s
        return out
    n = t.lstrip('%').strip('"')
    if n in structs: return [(o, x) for o, x in structs[n]]
    return None

class CProp:
    def __init__(self, prog, units=None, policy=None, ext=None, maxsteps=3000000, stopat=()):
        self.prog = prog
        self.units = units or prog.units
        self.mods = {u: prog.raw(u) for u in self.units}
        self.mem = {}          # obj -> {off: (size, value)}
        self.init = set()
        self.nalloc = 0; self.steps = 0; self.max = maxsteps
        self.policy = policy or (lambda cp, ins, v: None)
        self.ext = ext or {}
        self.trace = []        # external calls (name, args, ins)
        self.assumed = []
        self.stack = []
        self.fdef = {}
        self.gdef = {}
        for u, m in self.mods.items():
            for n, f in m.functions.items():
                self.fdef.setdefault(n, (u, f)) if not f.internal else None
            for n, g in m.globals.items():
                if g['init'] is not None and not g['internal']: self.gdef.setdefault(n, u)
    havoc = False
    def havocphis(self, f, b, phis):
        self.nhavoc = getattr(self, 'nhavoc', 0) + 1
        return {k: Unk(('phi', f.short, k, self.nhavoc)) for k in phis}
    # ---- naming
    def gobj(self, name, unit):
        m = self.mods[unit]
        f = m.functions.get(name)
        if f is not None: return ('fn', unit if f.internal else self.fdef.get(name, (unit,))[0], name)
        if name in self.fdef: return ('fn', self.fdef[name][0], name)
        g = m.globals.get(name)
        if g is not None:
            if g['internal']: return ('g', unit, name)
            return ('g', self.gdef.get(name, '?'), name)
        return ('xfn', name)
    def fn(self, obj):
        if obj[0] == 'fn': return self.mods[obj[1]].functions.get(obj[2])
        return None
    # ---- memory
    def load_init(self, obj):
        if obj in self.init: return
        self.init.add(obj)
        d = self.mem.setdefault(obj, {})
        if obj[0] == 'g' and obj[1] in self.mods:
            g = self.mods[obj[1]].globals[obj[2]]
            if g['init'] is not None: self.flat(d, 0, g['init'], g['t'], obj[1])
    def flat(self, d, off, v, t, unit):
        st = self.mods[unit].structs
        if v[0] == 'zero':
            d[('zero', off)] = tsize(t, st)[0]; return
        if v[0] == 'v' and not (len(v) > 2):
            fs = fields(t, st)
            if fs is None: return
            for (o, ft), x in zip(fs, v[1]): self.flat(d, off + o, x, ft, unit)
            return
        s = tsize(t, st)[0]
        d[off] = (s, self.const(v, unit))
    def read(self, p, n):
        if not isinstance(p, Ptr) or not isinstance(p.off, int): return Unk(('ld', p))
        self.load_init(p.obj)
        d = self.mem.setdefault(p.obj, {})
        x = d.get(p.off)
        if x is not None and x[0] == n: return x[1]
        if x is not None and x[0] > n and isinstance(x[1], int): return MASK(x[1], 8 * n)
        # compose or slice
        for o, v in list(d.items()):
            if isinstance(o, int) and o < p.off and o + v[0] >= p.off + n and isinstance(v[1], int): return MASK(v[1] >> (8 * (p.off - o)), 8 * n)
        parts = [d.get(p.off + k) for k in range(n)]
        if x is not None and x[0] < n:
            r = 0; k = 0
            while k < n:
                y = d.get(p.off + k)
                if y is None or not isinstance(y[1], int) or k + y[0] > n: break
                r |= MASK(y[1], 8 * y[0]) << (8 * k); k += y[0]
            if k == n: return r
            return Unk(('mix', p))
        for o, sz in d.items():
            if isinstance(o, tuple) and o[0] == 'zero' and o[1] <= p.off and p.off + n <= o[1] + sz: return 0
        u = Ptr(('ld', p.obj, p.off), 0) if n == 8 and p.obj[0] not in ('fn',) else Unk(('ld', p.obj, p.off, n))
        if p.obj[0] == 'alloca': return Unk(('uninit', p.obj, p.off))
        return u
    def write(self, p, n, v):
        if not isinstance(p, Ptr) or not isinstance(p.off, int):
            self.trace.append(('wildstore', p, v)); return
        self.load_init(p.obj)
        d = self.mem.setdefault(p.obj, {})
        for o in [o for o in d if isinstance(o, int) and o != p.off and o < p.off + n and o + d[o][0] > p.off]: del d[o]
        d[p.off] = (n, v)
    # ---- values
    def const(self, v, unit):
        k = v[0]
        if k == 'i': return MASK(v[1], v[2])
        if k == 'null': return 0
        if k == 'zero': return 0
        if k == 'g': return Ptr(self.gobj(v[1], unit))
        if k == 'gep':
            b = self.const(v[1], unit)
            return Ptr(b.obj, b.off + v[2]) if isinstance(b, Ptr) and isinstance(b.off, int) else Unk(('gep', b, v[2]))
        if k == 'f': return Unk(('f', v[1]))
        if k == 'undef': return Unk('undef')
        return Unk(('c', str(v)[:60]))
    def val(self, fr, v):
        if isinstance(v, int): return fr[v] if v in fr else Unk(('?', v))
        return self.const(v, self.stack[-1][0].mod.unit if self.stack else None)
    def run(self, name, args, unit=None):
        if unit is None: unit, f = self.fdef[name]
        else: f = self.mods[unit].functions[name]
        return self.call(f, args)
    def call(self, f, args):
        if len(self.stack) > 60: raise Stop('depth')
        fr = {}
        for k, a in enumerate(f.args): fr[k] = args[k] if k < len(args) else Unk(('arg', k))
        self.stack.append((f, fr))
        try:
            b = f.blocks[0]; prev = None
            while True:
                phis = {}
                for i in b.ins:
                    if i.o != 'phi': break
                    for v, pb in i['in']:
                        if pb == prev: phis[i.id] = self.val(fr, v); break
                if phis and self.havoc and any(l.header == b.id for l in f.loops.values()): phis = self.havocphis(f, b, phis)
                fr.update(phis)
                nxt = None
                for i in b.ins:
                    self.steps += 1
                    if self.steps > self.max: raise Stop('steps')
                    o = i.o
                    if o == 'phi': continue
                    if o == 'br':
                        if len(i['s']) == 1: nxt = i['s'][0]
                        else:
                            c = self.val(fr, i.ops[0])
                            if not isinstance(c, int):
                                d = self.policy(self, i, c)
                                if d is None: raise Stop('branch on %s at %s' % (c, i.where()))
                                self.assumed.append((i.where(), repr(c)[:120], d)); c = d
                            nxt = i['s'][0] if c else i['s'][1]
                        break
                    if o == 'switch':
                        c = self.val(fr, i.ops[0])
                        if not isinstance(c, int):
                            d = self.policy(self, i, c)
                            if d is None: raise Stop('switch on %s at %s' % (c, i.where()))
                            c = d
                        nxt = i['def']
                        for k, t in i['cases']:
                            kv = k[1] if isinstance(k, list) else k
                            w = int(i['w']) if 'w' in i.d else 64
                            if MASK(kv, 32) == MASK(c, 32): nxt = t; break
                        break
                    if o == 'ret': return self.val(fr, i.ops[0]) if i.ops else None
                    if o == 'unreachable': raise Stop('unreachable')
                    if o == 'invoke':
                        fr[i.id] = self.docall(fr, i); nxt = i['s'][0]; break
                    fr[i.id] = self.step(fr, i)
                prev = b.id; b = f.blocks[nxt]
        finally: self.stack.pop()
    def width(self, t):
        m = re.match(r'^i(\d+)$', t); return int(m.group(1)) if m else 64
    def step(self, fr, i):
        o = i.o; V = lambda k: self.val(fr, i.ops[k])
        if o == 'alloca': self.nalloc += 1; return Ptr(('alloca', self.nalloc, i.fn.short))
        if o == 'load': return self.read(V(0), i['sz'])
        if o == 'store': self.write(V(1), i['sz'], V(0)); self.onstore(i, V(1), V(0)); return None
        if o == 'getelementptr':
            b = V(0); off = i.get('off') or 0
            if not isinstance(b, Ptr): return Unk(('gep', b, off))
            for v, sc in i.get('var', []):
                x = self.val(fr, v)
                if isinstance(x, int) and isinstance(off, int):
                    off += (x - (1 << 64) if x >> 63 else x) * sc
                else: off = ('sym', off, x, sc)
            if isinstance(off, int) and isinstance(b.off, int): return Ptr(b.obj, b.off + off)
            return Ptr(b.obj, ('sym', b.off, off))
        if o in ('call',): return self.docall(fr, i)
        if o == 'icmp':
            a, b = V(0), V(1); p = i['p']
            if isinstance(a, int) and isinstance(b, int):
                w = self.opw(i)
                a, b = MASK(a, w), MASK(b, w)
                s = lambda x: x - (1 << w) if x >> (w - 1) else x
                if p[0] == 's': a, b = s(a), s(b)
                return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]])
            if p in ('eq', 'ne'):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(a.off, int) and isinstance(b.off, int):
                    if a == b: return int(p == 'eq')
                    if a.obj[0] in ('fn', 'g', 'alloca') and b.obj[0] in ('fn', 'g', 'alloca'): return int(p == 'ne')
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, Ptr) and x.obj[0] in ('fn', 'g', 'alloca') and y == 0: return int(p == 'ne')
            return Unk(('icmp', p, a, b))
        if o == 'select':
            c, a, b = V(0), V(1), V(2)
            if isinstance(c, int): return a if c else b
            if a == b: return a
            return Unk(('select', c, a, b))
        if o in ('zext', 'trunc', 'sext'):
            a = V(0); w = self.width(i.t)
            if isinstance(a, int):
                if o == 'sext':
                    w0 = self.opw(i); a = MASK(a, w0); a = a - (1 << w0) if a >> (w0 - 1) else a
                return MASK(a, w)
            return a if isinstance(a, Ptr) else Unk((o, a))
        if o in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'): return V(0)
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            a, b = V(0), V(1); w = self.width(i.t)
            if isinstance(a, int) and isinstance(b, int):
                s = lambda x: MASK(x, w) - (1 << w) if MASK(x, w) >> (w - 1) else MASK(x, w)
                try:
                    r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
                         'shl': lambda: a << b, 'lshr': lambda: MASK(a, w) >> b, 'ashr': lambda: s(a) >> b,
                         'sdiv': lambda: int(abs(s(a)) // abs(s(b)) * (1 if (s(a) < 0) == (s(b) < 0) else -1)), 'udiv': lambda: MASK(a, w) // MASK(b, w),
                         'srem': lambda: abs(s(a)) % abs(s(b)) * (-1 if s(a) < 0 else 1), 'urem': lambda: MASK(a, w) % MASK(b, w)}[o]()
                except ZeroDivisionError: return Unk('div0')
                return MASK(r, w)
            if o == 'and' and (a == 0 or b == 0): return 0
            if o == 'mul' and (a == 0 or b == 0): return 0
            if o in ('add', 'or', 'xor', 'sub', 'shl', 'lshr', 'ashr') and b == 0: return a
            if o in ('add', 'or', 'xor') and a == 0: return b
            return Unk((o, a, b))
        return Unk((o, i.id, i.fn.short) + tuple(self.val(fr, x) for x in i.ops[:3]))
    def onstore(self, i, p, v): pass
    def opw(self, i):
        ot = i.get('ot')
        if ot: return self.width(ot)
        a = i.ops[0]
        for a in i.ops:
            if isinstance(a, list) and a[0] == 'i': return a[2]
            if isinstance(a, int):
                f = i.fn
                if a < len(f.args):
                    t = f.args[a][0]
                    if isinstance(t, str) and re.match(r'^i\d+$', t): return self.width(t)
                else:
                    x = f.byid.get(a)
                    if x is not None: return self.width(x.t)
        return 64
    def docall(self, fr, i):
        args = [self.val(fr, a) for a in i.ops]
        c = i.get('callee')
        tgt = self.val(fr, c)
        name = c[1] if isinstance(c, list) and c[0] == 'g' else None
        if isinstance(tgt, Ptr) and tgt.off == 0 and tgt.obj[0] in ('fn', 'xfn'): name = tgt.obj[-1]
        if name:
            if name.startswith('llvm.'):
                if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'): self.memcpy(*args[:3]); return None
                if name.startswith('llvm.memset'): self.memset(*args[:3]); return None
                if name.startswith('llvm.'): return Unk((name,) + tuple(args))
            if name in self.ext: 
                r = self.ext[name](self, i, args)
                if r is not NotImplemented: return r
        f = self.fn(tgt.obj) if isinstance(tgt, Ptr) and tgt.off == 0 else None
        if f is not None: return self.call(f, args)
        n = len(self.trace)
        self.trace.append(('call', name or tgt, args, i))
        if '*' in self.ext:
            r = self.ext['*'](self, i, name or tgt, args, n)
            if r is not NotImplemented: return r
        if i.t == 'ptr': return Ptr(('call', n, name or tgt, tuple(args)))
        return Unk(('call', n, name or tgt))
    def memcpy(self, d, s, n):
        if not isinstance(d, Ptr) or not isinstance(s, Ptr) or not isinstance(n, int) or not isinstance(s.off, int): self.trace.append(('wildcopy', d, s, n)); return
        self.load_init(s.obj); self.load_init(d.obj)
        src = self.mem[s.obj] if s.obj in self.mem else {}
        new = {}
        for o, v in src.items():
            if isinstance(o, int) and s.off <= o and o + v[0] <= s.off + n: new[d.off + o - s.off] = v
            elif isinstance(o, tuple) and o[1] <= s.off and o[1] + v >= s.off + n: new[('zero', d.off)] = n
        dst = self.mem.setdefault(d.obj, {})
        for o in [o for o in dst if isinstance(o, int) and d.off <= o < d.off + n]: del dst[o]
        dst.update(new)
    def memset(self, d, v, n):
        if not isinstance(d, Ptr) or not isinstance(n, int) or not isinstance(d.off, int): self.trace.append(('wildset', d, v, n)); return
        self.load_init(d.obj)
        dst = self.mem.setdefault(d.obj, {})
        for o in [o for o in dst if isinstance(o, int) and d.off <= o < d.off + n]: del dst[o]
        if v == 0: dst[('zero', d.off)] = n
