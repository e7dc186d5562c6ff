"""Loop-step extraction: the outermost loops of a function are summarised by one havocked iteration (header phis become
symbols), everything nested inside is followed with constant trip counts.  Every path is a piece of the transition
relation entry -> header -> ... -> header/return, with width-exact terms, so that sign and zero extension stay apart."""
from fork import *
class NoVal(Exception): pass
M64 = (1 << 64) - 1
def sg(v, w): v &= (1 << w) - 1; return v - (1 << w) if v >> (w - 1) else v
NEG = {'ne': 'eq', 'sge': 'slt', 'uge': 'ult', 'sgt': 'sle', 'ugt': 'ule'}
class SX(Forker):
    havoc = True
    def __init__(self, base, **k):
        k.setdefault('loopmax', 120); k.setdefault('maxdec', 3000)
        Forker.__init__(self, base, **k)
    def havocphis(self, f, b, phis):
        l = next(l for l in f.loops.values() if l.header == b.id)
        act = self.user.get('active'); depth = len(self.stack)
        if act and act[0] == depth and act[1] is l and act[2] is self.stack[-1][1]:
            self.user['back'] = (act[3], {k: v for k, v in phis.items()})
            raise PathEnd('back')
        if act and len(self.stack) >= act[0] and self.stack[act[0] - 1][1] is act[2]:
            if depth == act[0] and b.id in act[1].blocks: return phis
            if depth > act[0] and self.user['cbb'].get(act[0]) in act[1].blocks: return phis
        if not self.wanthavoc(f, l): return phis
        n = len(self.user.setdefault('marks', []))
        r = {}; key = (f.name, b.id, n)
        for i in b.ins:
            if i.o != 'phi': break
            s = ('ph', f.short, i.id, n)
            r[i.id] = Ptr(s, 0) if i.t == 'ptr' else Unk(s)
        self.user['marks'].append((key, {r[k]: v for k, v in phis.items()}, len(self.conds), len(self.events)))
        self.user['active'] = (depth, l, self.stack[-1][1], key); self.user['phis'] = r
        return r
    def wanthavoc(self, f, l): return True
    def docall(self, fr, i):
        self.user.setdefault('cbb', {})[len(self.stack)] = i.bb.id if not isinstance(i.bb, int) else i.bb
        return Forker.docall(self, fr, i)
    def step(self, fr, i):
        o = i.o
        if o == 'load':
            p = self.val(fr, i.ops[0]); v = Forker.step(self, fr, i)
            if isinstance(v, Ptr) and v.obj[0] == 'ld' and v.off == 0 and i.t != 'ptr': v = Unk(('ld', v.obj[1], v.obj[2], 8))
            self.ev('load', i, p, i['sz'], v)
            return v
        if o in ('sext', 'zext', 'trunc'):
            a = self.val(fr, i.ops[0])
            if isinstance(a, int) or isinstance(a, Ptr): return Forker.step(self, fr, i)
            fw = self.opw(i); tw = self.width(i.t)
            return Unk((o + 'w', fw, tw, a))
        if o == 'icmp':
            a, b = self.val(fr, i.ops[0]), self.val(fr, i.ops[1])
            if isinstance(a, int) and isinstance(b, int): return Forker.step(self, fr, i)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                d = psub(a, b)
                if set(d) <= {()}:
                    d = d.get((), 0); p = i['p']
                    return int({'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'gt': d > 0, 'le': d <= 0, 'ge': d >= 0}[p if p in ('eq', 'ne') else p[1:]])
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ptr) and x.obj[0] in ('ph', 'buf', 'fn', 'g', 'alloca', 'arr', 'heap') and y == 0: return int(i['p'] in ('ne', 'ugt'))
            return Unk(('cmp', i['p'], self.opw(i), a, b))
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            a, b = self.val(fr, i.ops[0]), self.val(fr, i.ops[1]); w = self.width(i.t)
            if (isinstance(a, Unk) or isinstance(b, Unk)):
                r = Forker.step(self, fr, i)
                if isinstance(r, Unk) and isinstance(r.why, tuple) and r.why[0] == o and (w < 64 or o not in ('add', 'sub', 'mul')): return Unk(('bin', o, w, a, b))
                return r
        return Forker.step(self, fr, i)
    def truth(self, c, i):
        if isinstance(c, int): return bool(c)
        if isinstance(c, Ptr): return True
        w = c.why
        if isinstance(w, tuple):
            if w[0] == 'bin' and w[2] == 1:
                if w[1] == 'and': return self.truth(w[3], i) and self.truth(w[4], i)
                if w[1] == 'or': return self.truth(w[3], i) or self.truth(w[4], i)
                if w[1] == 'xor' and isinstance(w[4], int): return self.truth(w[3], i) != bool(w[4] & 1)
            if w[0] in ('zextw', 'sextw') and w[1] == 1: return self.truth(w[3], i)
            if w[0] == 'truncw' and isinstance(w[3], Unk) and isinstance(w[3].why, tuple) and w[3].why[0] == 'zextw' and w[3].why[1] == 1: return self.truth(w[3].why[3], i)
            if w[0] == 'cmp':
                p, wd, a, b = w[1:]
                if p in NEG: return not self.truth(Unk(('cmp', NEG[p], wd, a, b)), i)
                if p == 'eq' and b == 0 and isinstance(a, Unk) and isinstance(a.why, tuple) and (a.why[0] in ('zextw', 'sextw') and a.why[1] == 1 or a.why[0] == 'cmp'): return not self.truth(a if a.why[0] == 'cmp' else a.why[3], i)
        k = ('c', c)
        if k in self.facts: return self.facts[k]
        r = self.known(c)
        if r is None:
            if len(self.dec) < len(self.prefix): r = self.prefix[len(self.dec)]
            else: r = True
            self.dec.append(r)
            if len(self.dec) > self.maxdec: raise PathEnd('too many decisions')
            self.conds.append((c, r, i))
        self.facts[k] = r
        return r
    def known(self, c): return None
    def paths(self, name, args, unit=None, maxpaths=4000):
        for p in Forker.paths(self, name, args, unit=unit, maxpaths=maxpaths): yield p

# ------------------------------------------------------------------------------------------------ evaluation
class Env:
    """ptr: object -> (root, offset); val: unknown's why -> int; mem(root, offset, n) -> int or None"""
    def __init__(self, ptr=None, val=None, mem=None): self.ptr = ptr or {}; self.val = val or {}; self.mem = mem or (lambda r, o, n: None); self.memo = {}
def evoff(o, env):
    if isinstance(o, int): return o
    if o[0] == 'sym':
        if len(o) == 4: return evoff(o[1], env) + sg(num(o[2], env), 64) * o[3]
        return evoff(o[1], env) + evoff(o[2], env)
    if o[0] == 'p': return evpoly(o[1], env)
    raise NoVal(repr(o))
def evpoly(items, env):
    t = 0
    for k, c in items:
        for a in k:
            if a[0] == 'u': c *= sg(num(Unk(a[1]), env), 64)
            elif a[0] == 'obj': raise NoVal(repr(a))
            else: raise NoVal(repr(a))
        t += c
    return t
def addr(p, env):
    """(root, offset) of a pointer value"""
    if isinstance(p, Ptr):
        b = env.ptr.get(p.obj)
        if b is None: b = (p.obj, 0)
        return b[0], b[1] + evoff(p.off, env)
    if isinstance(p, int): return ('abs',), p
    w = p.why
    if w in env.val: return ('abs',), env.val[w]
    if isinstance(w, tuple) and w[0] in ('add', 'sub') and len(w) == 3:
        a = w[1]; b = w[2]
        if isinstance(a, Ptr): r, o = addr(a, env); n = sg(num(b, env), 64); return r, o + (n if w[0] == 'add' else -n)
        if isinstance(b, Ptr) and w[0] == 'add': r, o = addr(b, env); return r, o + sg(num(a, env), 64)
    if isinstance(w, tuple) and w[0] == 'gep':
        r, o = addr(w[1], env); return r, o + evoff(w[2], env)
    raise NoVal(repr(p))
def num(x, env):
    """bits of an integer term"""
    if isinstance(x, bool): return int(x)
    if isinstance(x, int): return x
    if isinstance(x, Ptr):
        v = env.val.get(x.obj)
        if v is not None and isinstance(x.off, int): return v + x.off
        raise NoVal(repr(x))
    w = x.why
    if w in env.val: return env.val[w]
    m = env.memo.get(w)
    if m is not None: return m
    r = num_(w, env); env.memo[w] = r
    return r
def num_(w, env):
    if isinstance(w, tuple):
        o = w[0]
        if o == 'ld' and len(w) == 4:
            b = env.ptr.get(w[1]); b = (w[1], 0) if b is None else b
            v = env.mem(b[0], b[1] + evoff(w[2], env), w[3])
            if v is not None: return v
            raise NoVal(repr(w)[:120])
        if o == 'cntv':
            t = w[2]
            for k, c in w[1]:
                v = env.cnt(k)
                if v is None: raise NoVal('byte %d' % k)
                t += c * v
            return t
        if o == 'sextw': return sg(num(w[3], env), w[1]) & ((1 << w[2]) - 1)
        if o == 'zextw': return num(w[3], env) & ((1 << w[1]) - 1)
        if o == 'truncw': return num(w[3], env) & ((1 << w[2]) - 1)
        if o == 'cmp':
            p, wd, a, b = w[1:]
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                (ra, a), (rb, b) = addr(a, env), addr(b, env)
                if ra != rb and {ra, rb} & {('abs',)} and p in ('eq', 'ne') and (a == 0 if ra == ('abs',) else b == 0): return int(p == 'ne')
                if ra != rb: raise NoVal('pointers into different objects')
                if p[0] == 's' or p[0] == 'u': p = 's' + p[1:]
            else:
                a, b = num(a, env), num(b, env)
                a, b = (sg(a, wd), sg(b, wd)) if p[0] == 's' else (a & ((1 << wd) - 1), b & ((1 << wd) - 1))
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]])
        if o == 'select': return num(w[2] if num(w[1], env) & 1 else w[3], env)
        wd = 64
        if o == 'bin': o, wd, a, b = w[1:]
        elif len(w) == 3 and o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'): a, b = w[1], w[2]
        else: a = None
        if a is not None:
            if o == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                (ra, x), (rb, y) = addr(a, env), addr(b, env)
                if ra == rb: return (x - y) & M64
                raise NoVal('difference of unrelated pointers')
            x, y = num(a, env), num(b, env); m = (1 << wd) - 1
            if o in ('sdiv', 'udiv', 'srem', 'urem') and y & m == 0: raise NoVal('division by zero')
            sx, sy = sg(x, wd), sg(y, wd); ux, uy = x & m, y & m
            q = lambda: (abs(sx) // abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1)
            return {'add': lambda: ux + uy, 'sub': lambda: ux - uy, 'mul': lambda: ux * uy, 'and': lambda: ux & uy, 'or': lambda: ux | uy, 'xor': lambda: ux ^ uy,
                    'shl': lambda: ux << (uy % wd), 'lshr': lambda: ux >> (uy % wd), 'ashr': lambda: sx >> (uy % wd), 'sdiv': q, 'udiv': lambda: ux // uy,
                    'srem': lambda: sx - q() * sy, 'urem': lambda: ux % uy}[o]() & m
        import re
        mm = re.match(r'llvm\.(s|u)(min|max)\.i(\d+)', str(w[0]))
        if mm:
            a, b = num(w[-2], env), num(w[-1], env); n = int(mm.group(3))
            f = (lambda v: sg(v, n)) if mm.group(1) == 's' else (lambda v: v & ((1 << n) - 1))
            return (min if mm.group(2) == 'min' else max)(f(a), f(b)) & ((1 << n) - 1)
        mm = re.match(r'llvm\.abs\.i(\d+)', str(w[0]))
        if mm: n = int(mm.group(1)); return abs(sg(num(w[2], env), n)) & ((1 << n) - 1)
    raise NoVal(repr(w)[:160])
def holds(c, env):
    """truth of a recorded decision"""
    return bool(num(c, env) & 1)

class Tree:
    """the paths of one enumeration as a decision tree"""
    def __init__(self, paths):
        self.root = [None, None, None, None]; self.paths = paths
        for p in paths:
            n = self.root
            for c, r, i in p.conds:
                n[0] = c; k = 1 if r else 2
                if n[k] is None: n[k] = [None, None, None, None]
                n = n[k]
            n[3] = p
    def pick(self, env, start=None):
        n = start or self.root
        while n[0] is not None:
            n = n[1] if holds(n[0], env) else n[2]
            if n is None: return None
        return n[3]
def steps(paths):
    """per header: {phi: [next - phi polynomials]}, {phi: [initial values]}"""
    init = {}; nxt = {}
    for p in paths:
        for key, ini, nc, ne in p.user.get('marks', []):
            for s, v in ini.items(): init.setdefault(key, {}).setdefault(s, [])
            for s, v in ini.items():
                if v not in init[key][s]: init[key][s].append(v)
        if p.end == 'back':
            key, nx = p.user['back']
            for s in init.get(key, {}):
                idd = s.obj[2] if isinstance(s, Ptr) else s.why[2]
                d = psub(nx[idd], s) if idd in nx else None
                if d not in nxt.setdefault(key, {}).setdefault(s, []): nxt[key][s].append(d)
    return init, nxt
