"""What the enabling routine registers with NumPy: recovered by constant propagation through the registration code."""
import re
from cprop import *
NPT = ['bool', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'longlong', 'ulonglong', 'float32', 'float64', 'longdouble']
# numpy type number -> (bits, kind) on this platform (LP64)
NPW = {0: (8, 'b'), 1: (8, 'i'), 2: (8, 'u'), 3: (16, 'i'), 4: (16, 'u'), 5: (32, 'i'), 6: (32, 'u'), 7: (64, 'i'), 8: (64, 'u'), 9: (64, 'i'), 10: (64, 'u'), 11: (32, 'f'), 12: (64, 'f'), 13: (80, 'f'),
       14: (64, 'c'), 15: (128, 'c'), 16: (160, 'c'), 17: (64, 'o'), 18: (0, 's'), 19: (0, 'U'), 20: (0, 'V'), 21: (64, 'M'), 22: (64, 'm'), 23: (16, 'e')}
NAMES = {0: 'bool', 1: 'byte', 2: 'ubyte', 3: 'short', 4: 'ushort', 5: 'int', 6: 'uint', 7: 'long', 8: 'ulong', 9: 'longlong', 10: 'ulonglong', 11: 'float', 12: 'double', 13: 'longdouble', 23: 'half'}

def policy(cp, i, c):
    def go(x):
        if not isinstance(x, Unk): return None
        w = x.why
        if isinstance(w, tuple) and w[0] == 'icmp':
            p, a, b = w[1:]
            if p in ('eq', 'ne'): return int(p == 'ne')          # API results are valid objects, old functions differ from ours
            if b == 0 and p in ('slt', 'sle'): return 0
            if b == 0 and p in ('sgt', 'sge'): return 1
            if a == 0 and p in ('sgt', 'sge'): return 0
        if isinstance(w, tuple) and w[0] == 'select':
            g = go(w[1]) if isinstance(w[1], Unk) else None
            if g is not None:
                y = w[2] if g else w[3]
                return int(y != 0) if isinstance(y, int) else go(y)
        if isinstance(w, tuple) and w[0] in ('xor',) and w[2] in (1, -1):
            g = go(w[1]); return None if g is None else 1 - g
        if isinstance(w, tuple) and w[0] in ('and', 'or'):
            a = go(w[1]) if isinstance(w[1], Unk) else w[1]; b = go(w[2]) if isinstance(w[2], Unk) else w[2]
            if a is None or b is None: return None
            return (a & b) if w[0] == 'and' else (a | b)
        if isinstance(w, tuple) and w[0] in ('zext', 'trunc'): return go(w[1])
        return None
    g = further(i)
    return go(c) if g is None else g

def further(i):
    """what is registered is registered on the way on which nothing fails: the successor that leads to more of the function, when the other leads out of loops it could still go around"""
    f = i.fn
    if not hasattr(f, '_reach'): f._reach = {}
    def reach(b):
        if b not in f._reach:
            seen = set(); work = [b]
            while work:
                x = work.pop()
                if x in seen: continue
                seen.add(x); t = f.blocks[x].ins[-1]
                work += list(t.d.get('s') or []) + ([t['def']] + [y for _, y in t['cases']] if t.o == 'switch' else [])
            f._reach[b] = seen
        return f._reach[b]
    if len(i['s']) != 2: return None
    a, b = reach(i['s'][0]), reach(i['s'][1])
    heads = {l.header for l in f.loops.values()}
    if a < b and (b - a) & heads: return 0
    if b < a and (a - b) & heads: return 1
    return None

YES = re.compile(r'Check|IsTrue|HasAttr|Ready')
class ApiProp(CProp):
    """calls of the interpreter succeed: objects exist, status results say success"""
    def docall(self, fr, i):
        r = CProp.docall(self, fr, i)
        if isinstance(r, Unk) and isinstance(r.why, tuple) and r.why[0] == 'call' and isinstance(r.why[2], str) and re.match(r'_?Py', r.why[2]) and re.match(r'i\d+$', i.t):
            return 1 if YES.search(r.why[2]) else 0
        return r
    def step(self, fr, i):
        r = CProp.step(self, fr, i)
        if i.o == 'icmp' and isinstance(r, Unk) and i['p'] in ('eq', 'ne'):
            a, b = self.val(fr, i.ops[0]), self.val(fr, i.ops[1])
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ptr) and y == 0 and x.obj[0] in ('call', 'attr', 'array', 'old', 'capi'): return int(i['p'] == 'ne')
        return r

def cstr(cp, p):
    if not isinstance(p, Ptr) or not isinstance(p.off, int): return None
    s = ''
    for k in range(200):
        c = cp.read(Ptr(p.obj, p.off + k), 1)
        if not isinstance(c, int): return None
        if c == 0: return s
        s += chr(c)
    return None

class Hook: pass

def seed_api(cp):
    """the import tables filled in by numpy's import routine are external objects"""
    for u, m in cp.mods.items():
        for n in m.globals:
            k = 'ufunc' if 'PyUFunc_API' in n else 'array' if 'PyArray_API' in n else None
            if k:
                o = cp.gobj(n, u); cp.load_init(o); cp.mem.setdefault(o, {}).clear(); cp.mem[o][0] = (8, Ptr(('capi', k)))


def recover(prog):
    """-> dict(ufuncs=[Hook], dtypefns=[Hook], mem=CProp)"""
    hooks = []; dt = []
    def getattr_(cp, i, a):
        s = cstr(cp, a[1]); return Ptr(('attr', s))
    def anycall(cp, i, name, a, n):
        # a call through an imported function table that is handed: a ufunc object, a loop function of ours, a signature, an out pointer
        fns = [k for k, x in enumerate(a) if isinstance(x, Ptr) and x.obj[0] == 'fn']
        uf = [k for k, x in enumerate(a) if isinstance(x, Ptr) and x.obj[0] == 'attr']
        if isinstance(name, Ptr) and len(a) == 4 and len(fns) == 1 and uf == [0]:
            h = Hook(); h.name = a[0].obj[1]; h.stub = a[fns[0]].obj
            h.sig = [cp.read(Ptr(a[2].obj, a[2].off + 4 * k), 4) if isinstance(a[2], Ptr) else None for k in range(3)]
            h.old = Ptr(('old', len(hooks))); h.where = i.where(); h.idx = len(hooks)
            if isinstance(a[3], Ptr): cp.write(a[3], 8, h.old)
            hooks.append(h); return 0
        if isinstance(name, Ptr) and len(a) == 4 and uf == [0]:
            h = Hook(); h.name = a[0].obj[1]; h.stub = a[1].obj if isinstance(a[1], Ptr) else ('bad', str(a[1])); h.sig = [cp.read(Ptr(a[2].obj, a[2].off + 4 * k), 4) if isinstance(a[2], Ptr) else None for k in range(3)]
            h.old = Ptr(('old', len(hooks))); h.where = i.where(); h.idx = len(hooks); hooks.append(h); return 0
        return NotImplemented
    class CP(ApiProp):
        def onstore(self, i, p, v):
            if isinstance(p, Ptr) and isinstance(v, Ptr) and v.obj[0] == 'fn' and p.obj[0] not in ('alloca', 'g') and isinstance(p.off, int):
                h = Hook(); h.slot = p; h.fn = v.obj; h.where = i.where(); dt.append(h)
    cp = CP(prog, policy=policy, ext={'PyObject_GetAttrString': getattr_, '*': anycall, '_ZL13_import_umathv': lambda c, i, a: 0,
                                      'AllocateNumpyArray': lambda c, i, a: Ptr(('array', a[2] if len(a) > 2 else None))})
    g = cp.gobj('g_avx2', '_pnumpy')
    cp.load_init(g); cp.mem.setdefault(g, {})[0] = (4, 1)
    seed_api(cp)
    r = cp.run('newinit', [Ptr(('self',)), Ptr(('args',)), 0])
    if not (isinstance(r, Ptr) and r.obj[-1] == '_Py_NoneStruct'): raise RuntimeError('the registration was not followed to its successful end (%s)' % (r,))
    return {'ufuncs': hooks, 'dtypefns': dt, 'cp': cp}

def luts(cp, h):
    """every slot of a table of ours in which the hook's old function was recorded: (object, offset of the old-function field, all fields of that entry)"""
    out = []
    for obj, d in cp.mem.items():
        if obj[0] != 'g': continue
        for o, v in d.items():
            if isinstance(o, int) and v[1] == h.old: out.append((obj, o))
    return out
