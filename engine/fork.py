"""Path enumeration on top of the constant propagator: every branch on an unknown is taken both ways (consistently
along a path), so each path is the sequence of effects of one abstract execution."""
from cprop import *
class PathEnd(Exception): pass
INV = {'sgt': 'sle', 'sge': 'slt', 'ugt': 'ule', 'uge': 'ult'}

# ---------------------------------------------------------------- polynomial normal form of symbolic integers / pointers
def padd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if r[k] == 0: del r[k]
    return r
def pmul(a, b):
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(sorted(k + l, key=repr)); r[m] = r.get(m, 0) + v * w
            if r[m] == 0: del r[m]
    return r
S64 = lambda v: v - (1 << 64) if v >> 63 else v
def poly(x):
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int): x = S64(x & ((1 << 64) - 1)); return {(): x} if x else {}
    if isinstance(x, Ptr):
        b = {(('obj', x.obj),): 1}
        if x.obj == ('abs',): b = {}
        return padd(b, offpoly(x.off))
    if isinstance(x, Unk):
        w = x.why
        if isinstance(w, tuple):
            if w[0] == 'add': return padd(poly(w[1]), poly(w[2]))
            if w[0] == 'sub': return padd(poly(w[1]), poly(w[2]), -1)
            if w[0] == 'mul': return pmul(poly(w[1]), poly(w[2]))
            if w[0] == 'shl' and isinstance(w[2], int): return pmul(poly(w[1]), {(): 1 << w[2]})
            if w[0] in ('sext', 'zext') : return poly(w[1])
            if w[0] == 'gep' and len(w) == 3: return padd(poly(w[1]), offpoly(w[2]))
        return {(('u', w),): 1}
    return {(('?', repr(x)),): 1}
def offpoly(o):
    if isinstance(o, int): return poly(o)
    if isinstance(o, tuple) and o[0] == 'sym':
        if len(o) == 4: return padd(offpoly(o[1]), pmul(poly(o[2]), {(): o[3]}))
        return padd(offpoly(o[1]), offpoly(o[2]))
    return {(('off', repr(o)),): 1}
def same(a, b):
    return poly(a) == poly(b)
def psub(a, b): return padd(poly(a), poly(b), -1)
def show(x):
    p = poly(x)
    return ' + '.join('%s%s' % ('' if v == 1 and k else str(v) + ('*' if k else ''), '*'.join(satom(a) for a in k)) for k, v in p.items()) or '0'
def satom(a):
    if a[0] == 'obj':
        o = a[1]
        if o[0] == 'ld': return '%s[%s]' % (satom(('obj', o[1])), o[2])
        return '.'.join(str(z) for z in o if not isinstance(z, tuple))[-60:]
    return str(a[1])[:60]

def ckey(c):
    """canonical (key, polarity) of a condition"""
    if isinstance(c, Unk) and isinstance(c.why, tuple):
        w = c.why
        if w[0] in ('zext', 'trunc', 'sext') : return ckey(w[1])
        if w[0] == 'xor' and w[2] in (1, 255, -1): k, p = ckey(w[1]); return k, not p
        if w[0] == 'and' and w[2] in (1,): return ckey(w[1])
        if w[0] == 'icmp':
            p, a, b = w[1:]
            # comparison of a boolean with 0 / 1
            if p in ('eq', 'ne') and isinstance(b, int) and b in (0,) and isinstance(a, Unk) and isinstance(a.why, tuple) and (a.why[0] == 'icmp' or (a.why[0] in ('zext', 'trunc') and isboolean(a.why[1]))):
                k, pol = ckey(a); return k, (pol if p == 'ne' else not pol)
            if p == 'ne': k, pol = ckey(Unk(('icmp', 'eq', a, b))); return k, not pol
            if p == 'eq':
                d = psub(a, b); n = {k: -v for k, v in d.items()}
                return ('eq', frozenset(max((d, n), key=lambda q: sorted(map(repr, q.items()))).items())), True
            if p in INV: k, pol = ckey(Unk(('icmp', INV[p], a, b))); return k, not pol
            # a < b  /  a <= b ; a <= b  is not (b < a)
            d = psub(a, b)
            if p[1:] == 'le': d = psub(b, a); return (p[0] + 'lt', frozenset(d.items())), False
            return (p[0] + 'lt', frozenset(d.items())), True
    return ('val', repr(c)), True
def isboolean(x):
    return isinstance(x, Unk) and isinstance(x.why, tuple) and (x.why[0] == 'icmp' or (x.why[0] in ('zext', 'trunc', 'xor') and isboolean(x.why[1])))

class Path: pass
class Forker(CProp):
    """runs one function from an initial abstract memory along one path per call of .once"""
    def __init__(self, base, handlers=None, loopmax=3, maxdec=400, init=None, opaque=None, assume=None):
        # share the propagated memory of `base` copy-on-write
        for k in ('prog', 'units', 'mods', 'fdef', 'gdef', 'init'): setattr(self, k, getattr(base, k))
        self.basemem = base.mem; self.handlers = handlers or {}; self.loopmax = loopmax; self.maxdec = maxdec; self.initf = init; self.opaque = opaque or (lambda f: None)
        self.max = 400000; self.assume_ = assume or (lambda fk, key, c: None)
        self.policy = None; self.ext = {}
    # -- copy on write memory
    def objd(self, obj, w=False):
        d = self.mem.get(obj)
        if d is not None: return d
        d = self.basemem.get(obj)
        if d is None:
            if obj not in self.init: self.load_init_base(obj)
            d = self.basemem.get(obj)
        if w or d is None:
            d = dict(d) if d is not None else {}
            self.mem[obj] = d
        return d
    def load_init_base(self, obj):
        if obj in self.init: return
        self.init.add(obj)
        if obj[0] == 'g' and obj[1] in self.mods:
            d = self.basemem.setdefault(obj, {})
            g = self.mods[obj[1]].globals[obj[2]]
            if g['init'] is not None: self.flat(d, 0, g['init'], g['t'], obj[1])
    def load_init(self, obj): pass
    def read(self, p, n):
        if not isinstance(p, Ptr): return Ptr(('ldu', repr(p), n, self.gen), 0) if n == 8 else Unk(('ldu', repr(p), n, self.gen))
        d = self.objd(p.obj)
        if not isinstance(p.off, int):
            off = ('p', frozenset(offpoly(p.off).items())); x = d.get(off)
            if x is not None and x[0] == n: return x[1]
            c = offpoly(p.off)
            if set(c) <= {()}: return self.read(Ptr(p.obj, c.get((), 0)), n)
            if any(isinstance(k, tuple) and k and k[0] == 'p' for k in d) or p.obj[0] == 'alloca': return Unk(('lds', p.obj, off, n, len(d)))
            return Ptr(('ld', p.obj, off), 0) if n == 8 else Unk(('ld', p.obj, off, n))
        m = self.mem; self.mem = {p.obj: d}
        try: return CProp.read(self, p, n)
        finally: self.mem = m
    def write(self, p, n, v):
        if not isinstance(p, Ptr):
            self.ev('wild', p, v); return
        d = self.objd(p.obj, True)
        if not isinstance(p.off, int):
            c = offpoly(p.off)
            if set(c) <= {()}: return self.write(Ptr(p.obj, c.get((), 0)), n, v)
            d[('p', frozenset(c.items()))] = (n, v); return
        for o in [o for o in d if isinstance(o, int) and o != p.off and o < p.off + n and o + d[o][0] > p.off]: del d[o]
        d[p.off] = (n, v)
    def ev(self, kind, *a): self.events.append((kind,) + a)
    def onstore(self, i, p, v): self.ev('store', i, p, v)
    # -- decisions
    def truth(self, c, i):
        if isinstance(c, int): return bool(c)
        if isinstance(c, Unk) and isinstance(c.why, tuple) and c.why[0] in ('and', 'or', 'select') and (c.why[0] != 'select'):
            a = self.truth(c.why[1], i)
            if c.why[0] == 'and' and not a: return False
            if c.why[0] == 'or' and a: return True
            return self.truth(c.why[2], i)
        if isinstance(c, Unk) and isinstance(c.why, tuple) and c.why[0] == 'select':
            return self.truth(c.why[2] if self.truth(c.why[1], i) else c.why[3], i)
        k, pol = ckey(c)
        if k[0] in ('eq', 'slt', 'ult') and all(a == () for a, v in k[1]):
            v = dict(k[1]).get((), 0); r = (v == 0) if k[0] == 'eq' else (v < 0)
            return r if pol else not r
        if k in self.facts: r = self.facts[k]
        else:
            r = self.assume_(self, k, c)
            if r is None:
                if len(self.dec) < len(self.prefix): r = self.prefix[len(self.dec)]
                else: r = True
                self.dec.append(r)
                if len(self.dec) > self.maxdec: raise PathEnd('too many decisions')
            self.facts[k] = r; self.conds.append((k, r, i))
        return r if pol else not r
    def policy_(self, cp, i, c):
        fr = self.stack[-1][1]; n = fr.get(('n', i.id), 0) + 1; fr[('n', i.id)] = n
        l = i.fn.blocks[i.bb.id].loop if hasattr(i.bb, 'loop') else None
        if n > self.loopmax and l is not None:
            raise PathEnd('loop')
        return int(self.truth(c, i))
    def docall(self, fr, i):
        args = [self.val(fr, a) for a in i.ops]
        tgt = self.val(fr, i.get('callee'))
        f = self.fn(tgt.obj) if isinstance(tgt, Ptr) and tgt.off == 0 else None
        if f is not None and not isinstance(i.get('callee'), list) and not self.follow(f): f = None
        if f is not None:
            h = self.opaque(f)
            if h is not None:
                r = h(self, i, f, args)
                if r is not NotImplemented: return r
            if any(x[0] is f for x in self.stack):
                self.ev('recurse', i, f, args)
                r = self.onrecurse(i, f, args)
                return r
            return self.call(f, args)
        name = i.callee
        if name is None and isinstance(tgt, Ptr) and tgt.obj[0] == 'xfn': name = tgt.obj[1]
        if name:
            if name.startswith('llvm.'):
                if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
                    self.ev('memcpy', i, args); self.mcopy(*args[:3]); return None
                if name.startswith('llvm.memset'): self.ev('memset', i, args); self.mset(*args[:3]); return None
                if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.stack')): return None
                if name.startswith('llvm.umul') or name.startswith('llvm.'): return Unk((name, len(self.events)) + tuple(args))
            if name in self.handlers:
                r = self.handlers[name](self, i, args)
                if r is not NotImplemented: return r
            self.ncall += 1
            self.ev('ext', i, name, args)
            return Ptr(('ret', self.ncall, name), 0) if i.t == 'ptr' else Unk(('ret', self.ncall, name))
        self.ncall += 1
        self.ev('icall', i, tgt, args)
        r = self.onicall(i, tgt, args)
        if r is not NotImplemented: return r
        return Ptr(('ret', self.ncall, 'icall'), 0) if i.t == 'ptr' else Unk(('ret', self.ncall, 'icall'))
    lazysel = False                            # keep integer selects as terms instead of forking
    def follow(self, f): return False          # explore functions reached through a pointer?
    def step(self, fr, i):
        if i.o == 'select':
            c = self.val(fr, i.ops[0])
            a, b = self.val(fr, i.ops[1]), self.val(fr, i.ops[2])
            if isinstance(c, int): return a if c else b
            if a == b: return a
            if self.lazysel and not isinstance(a, Ptr) and not isinstance(b, Ptr) and i.t != 'i1': return Unk(('select', c, a, b))
            return a if self.truth(c, i) else b
        if i.o == 'icmp' and i['p'] not in ('eq', 'ne'):
            a, b = self.val(fr, i.ops[0]), self.val(fr, i.ops[1])
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and isinstance(a.off, int) and isinstance(b.off, int):
                p = i['p'][1:]; x, y = a.off, b.off
                return int({'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y}[p])
        if i.o == 'sub':
            a, b = self.val(fr, i.ops[0]), self.val(fr, i.ops[1])
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and isinstance(a.off, int) and isinstance(b.off, int): return (a.off - b.off) & ((1 << 64) - 1)
        return CProp.step(self, fr, i)
    def onicall(self, i, tgt, args): return NotImplemented
    def onrecurse(self, i, f, args): return Unk(('recurse', len(self.events)))
    def mcopy(self, d, s, n):
        if isinstance(d, Ptr) and isinstance(s, Ptr) and isinstance(n, int) and isinstance(s.off, int) and isinstance(d.off, int):
            src = dict(self.objd(s.obj)); dst = self.objd(d.obj, True)
            for o in [o for o in dst if isinstance(o, int) and d.off <= o < d.off + n]: del dst[o]
            for o, v in src.items():
                if isinstance(o, int) and s.off <= o and o + v[0] <= s.off + n: dst[d.off + o - s.off] = v
                elif isinstance(o, tuple) and o[0] == 'zero' and o[1] <= s.off and o[1] + v >= s.off + n: dst[('zero', d.off)] = n
    def mset(self, d, v, n):
        if isinstance(d, Ptr) and isinstance(n, int) and isinstance(d.off, int):
            dst = self.objd(d.obj, True)
            for o in [o for o in dst if isinstance(o, int) and d.off <= o < d.off + n]: del dst[o]
            if v == 0: dst[('zero', d.off)] = n
    # -- driver
    def paths(self, name, args, unit=None, maxpaths=4000):
        self.policy = self.policy_
        todo = [[]]; npaths = 0
        if unit is None: unit, f = self.fdef[name]
        else: f = self.mods[unit].functions[name]
        while todo:
            self.prefix = todo.pop(); self.dec = []; self.facts = {}; self.conds = []; self.events = []; self.mem = {}; self.stack = []; self.trace = []; self.assumed = []
            self.steps = 0; self.nalloc = 0; self.ncall = 0; self.gen = 0; self.user = {}
            if self.initf: self.initf(self)
            p = Path(); p.end = 'ret'; p.ret = None
            try: p.ret = self.call(f, args(self) if callable(args) else args)
            except PathEnd as e: p.end = str(e)
            except Stop as e: p.end = 'stop: ' + str(e)
            p.events = self.events; p.conds = self.conds; p.mem = self.mem; p.facts = self.facts; p.user = self.user
            for k in range(len(self.prefix), len(self.dec)):
                if self.dec[k]: todo.append(self.dec[:k] + [False])
            npaths += 1
            yield p
            if npaths >= maxpaths:
                if todo:
                    p = Path(); p.end = 'maxpaths'; p.events = []; p.conds = []; p.mem = {}; p.facts = {}; p.ret = None; p.user = {}; yield p
                return
