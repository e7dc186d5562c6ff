"""The kernels that serve NumPy, found by following the registration tables (nothing is keyed on a kernel's own name)."""
import collections
import names, wiring
from cprop import Ptr
class KEntry: pass
def entry_of(cp, obj, off):
    """function pointers recorded in the same table entry as the old function at obj+off -> (size, {field offset: fn obj})"""
    offs = sorted(o for o, v in cp.mem[obj].items() if isinstance(o, int) and isinstance(v[1], Ptr) and v[1].obj[0] == 'old')
    return offs
def collect(prog, R=None):
    R = R or wiring.recover(prog); cp = R['cp']
    strides = {}
    out = []
    for h in R['ufuncs']:
        L = wiring.luts(cp, h)
        h.luts = L
        for obj, o in L: strides.setdefault(obj, []).append(o)
    size = {}
    for obj, offs in strides.items():
        offs = sorted(set(offs)); g = 0
        import math
        for a, b in zip(offs, offs[1:]): g = math.gcd(g, b - a)
        size[obj] = g or 32
    for h in R['ufuncs']:
        for obj, o in h.luts:
            sz = size[obj]; base = o // sz * sz
            fns = []
            for k in range(0, sz, 8):
                v = cp.mem[obj].get(base + k)
                if v and isinstance(v[1], Ptr) and v[1].obj[0] == 'fn': fns.append((k, v[1].obj))
            e = KEntry(); e.hook = h; e.name = h.name; e.dtype = h.sig[0]; e.sig = h.sig; e.lut = obj; e.base = base; e.fns = fns
            out.append(e)
    return R, out, size
def role(prog, fn):
    m = prog.raw(fn[1]); f = m.functions[fn[2]]
    t = [a[0] for a in f.args]
    p = sum(1 for x in t if x == 'ptr'); n = len(t) - p
    return {(3, 4): 'bin', (2, 3): 'un', (3, 2): 'red'}.get((p, n))
