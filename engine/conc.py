"""Evaluation of extracted closed-form terms under a valuation of their atoms (64-bit two's complement)."""
from cprop import Ptr, Unk
from fork import S64
import re
class NoVal(Exception): pass
M64 = (1 << 64) - 1
def ev(x, env):
    """env(atom) -> int or None; atoms: ('ld', obj, off), ('rmw', ...), any other unknown's why"""
    if isinstance(x, bool): return int(x)
    if isinstance(x, int): return S64(x & M64)
    if isinstance(x, Ptr):
        if isinstance(x.off, int) and x.obj[0] == 'ld':
            v = env(x.obj)
            if v is not None: return v + x.off
        v = env(('ptr', x.obj))
        if v is not None and isinstance(x.off, int): return v + x.off
        raise NoVal(repr(x))
    if isinstance(x, Unk):
        w = x.why; v = env(w)
        if v is not None: return v
        if isinstance(w, tuple):
            o = w[0]
            if o in ('sext', 'zext', 'trunc') and len(w) == 2: return ev(w[1], env)
            if o == 'icmp':
                a, b = ev(w[2], env), ev(w[3], env); p = w[1]
                if p[0] == 'u' : a &= M64; b &= M64
                return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]])
            if o == 'select': return ev(w[2] if ev(w[1], env) else w[3], env)
            if len(w) == 3 and o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
                a, b = ev(w[1], env), ev(w[2], env)
                if o in ('sdiv', 'srem', 'udiv', 'urem') and b == 0: raise NoVal('division by zero')
                if o == 'sdiv': r = abs(a) // abs(b); return S64((r if (a < 0) == (b < 0) else -r) & M64)
                if o == 'srem': r = abs(a) % abs(b); return -r if a < 0 else r
                r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << (b & 63),
                     'lshr': lambda: (a & M64) >> (b & 63), 'ashr': lambda: a >> (b & 63), 'udiv': lambda: (a & M64) // (b & M64), 'urem': lambda: (a & M64) % (b & M64)}[o]()
                return S64(r & M64)
            m = re.match(r'llvm\.(s|u)(min|max)\.', str(o))
            if m:
                a, b = ev(w[-2], env), ev(w[-1], env)
                if m.group(1) == 'u': return (min if m.group(2) == 'min' else max)(a & M64, b & M64)
                return (min if m.group(2) == 'min' else max)(a, b)
    raise NoVal(repr(x))
def evatom(a, env):
    if a[0] == 'obj':
        v = env(a[1])
        if v is None: v = env(('ptr', a[1]))
        if v is None: raise NoVal(repr(a))
        return v
    if a[0] == 'u': return ev(Unk(a[1]), env)
    raise NoVal(repr(a))
def evpoly(p, env):
    t = 0
    for k, c in p:
        for a in k: c *= evatom(a, env)
        t += c
    return t
def holds(key, env):
    """truth of a canonical condition key"""
    k = key[0]
    if k in ('eq', 'slt', 'ult'):
        v = evpoly(key[1], env); return v == 0 if k == 'eq' else v < 0
    raise NoVal(repr(key))
def pathof(paths, env):
    """the path whose conditions all hold; the first condition that cannot be valued raises"""
    for p in paths:
        if all(holds(k, env) == r for k, r, i in p.conds): return p
    return None
