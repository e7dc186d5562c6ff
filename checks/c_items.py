"""Default items, scalar conversion and flat layouts of indexed arrays (part of C17)."""
from c_getitem import *
NATIVE, SWAPPED = 60, 62                      # values of PyArray_Descr.byteorder ('<', '>')
BYTEORDER = 26                                # its offset in the NumPy headers the build uses
SIZE = {0: 1, 1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 8, 8: 8, 9: 8, 10: 8, 11: 4, 12: 8, 13: 16, 14: 8, 15: 16, 16: 32, 17: 8, 18: 11, 19: 12, 20: 2000, 21: 8, 22: 8, 23: 2}
SIGN = {1, 3, 5, 7, 9}
NAN = {11: 4, 12: 8}
def bytesof(P, obj, n):
    """initial bytes of a global, as an int"""
    u, name = obj[1], obj[2]
    g = P.raw(u).globals.get(name) if u in P.units else None
    if g is None or g.get('init') is None: return None
    v = g['init']
    if isinstance(v, list) and v[0] == 'i': return v[1] & ((1 << (8 * n)) - 1), g
    if isinstance(v, list) and v[0] == 'zero': return 0, g
    if isinstance(v, list) and v[0] in ('f', 'fp'): return int(v[1], 16), g
    return ('?', repr(v)), g
class IX(DX):
    """GetDefaultItem for one type"""
    def __init__(self, cp, typ, swapped, none, extra=None):
        self.arrs = {'v': Arr('v', 1, typ, V, L, SIZE[typ], SV)}; self.cfg = (typ, swapped, none); self.extra = extra
        DX.__init__(self, cp, handlers={'PyErr_Occurred': lambda s, i, a: Ptr(('err',)) if s.truth(Unk(('err', sum(1 for e in s.events if e[0] in ('set', 'conv', 'icall')))), i) else 0})
    def read(self, p, n):
        if isinstance(p, Ptr) and p.obj[0] == 'descr' and p.off == BYTEORDER and n == 1: return SWAPPED if self.cfg[1] else NATIVE
        return DX.read(self, p, n)
    def step(self, fr, i):
        if i.o == 'icmp' and i['p'] in ('eq', 'ne'):
            a, b = self.val(fr, i.ops[0]), self.val(fr, i.ops[1])
            if isinstance(a, Ptr) and isinstance(b, Ptr) and ('given',) in (a.obj, b.obj): return int((a == b) == (i['p'] == 'eq'))
            if isinstance(a, Ptr) and a.obj == ('err',) and b == 0: return int(i['p'] == 'ne')
        return DX.step(self, fr, i)
    def other(self, i, f, args, b):
        typ = self.cfg[0]
        if b in ('AllocateLikeResize',):
            if not self.truth(Unk(('allocok', 1)), i): return 0
            nm = 'out%d' % (1 + sum(1 for e in self.events if e[0] == 'made'))
            self.arrs[nm] = Arr(nm, 1, typ, Ptr(('buf', nm)), args[1], SIZE[typ], SIZE[typ]); self.ev('made', i, nm, 'v', args[1])
            return Ptr(('arr', nm))
        if b == 'PyArray_SETITEM': self.ev('set', i, args); return 0 if self.truth(Unk(('setok', len(self.events))), i) else (1 << 32) - 1
        if b == 'ConvertScalarObject': self.ev('conv', i, args); return Unk(('convok',))
        if b in ('Py_DECREF', 'Py_XDECREF', 'Py_INCREF'): return None
        if b in ('PyBytes_Check', 'PyUnicode_Check', 'PyType_FastSubclass', 'PyType_HasFeature', 'Py_TYPE'):
            return Ptr(('ret', b), 0) if f.ret == 'ptr' else Unk(('isa', b, args[-1] if isinstance(args[-1], int) else 0))
        return NotImplemented
def defaults(ck, P, cp):
    g = sel(P, 'getitem', 'GetDefaultItem')
    if g is None: ck.undecided('default', 'GetDefaultItem', 'not found'); return
    for typ in range(24):
        for swapped in (0, 1):
            for isnone in (1, 0):
                if swapped and typ in (0, 1, 2, 17, 18, 20): continue
                fk = IX(cp, typ, swapped, isnone)
                none = [o for b in g.blocks for i in b.ins if i.o == 'icmp' for o in i.ops if isinstance(o, list) and o[0] == 'g' and 'NoneStruct' in str(o[1])]
                if not none: ck.undecided('default', 'GetDefaultItem', 'no comparison with None'); return
                nv = fk.const(none[0], 'getitem')
                who = 'type number %d%s, default %s' % (typ, ' (other byte order)' if swapped else '', 'None' if isnone else 'given')
                good = 0
                for p in fk.paths(g.name, [Ptr(('arr', 'v')), nv if isnone else Ptr(('given',))], unit='getitem', maxpaths=200):
                    if p.end != 'ret':
                        if 'unreach' not in p.end: ck.undecided('default', 'GetDefaultItem', '%s: %s' % (who, p.end))
                        continue
                    if not isinstance(p.ret, Ptr) or p.ret.obj[0] != 'arr': continue
                    r = last(P, fk, p, typ, swapped, isnone, nv)
                    if r is None: good += 1
                    elif r[0] == 'und': ck.undecided('default', 'GetDefaultItem', '%s: %s' % (who, r[1]))
                    else: ck.violation('default', 'item:%d' % typ, 'GetDefaultItem', '%s: %s' % (who, r[1]), dict(type=typ, swapped=swapped, default='None' if isnone else 'given'))
                if good: ck.ok('default', good, '%s: whole item holds it' % who)
def last(P, fk, p, typ, swapped, isnone, nv):
    dst = [e for e in p.events if e[0] == 'made']
    if len(dst) != 1: return ('und', 'arrays made')
    item = Ptr(('buf', dst[0][2])); s = SIZE[typ]; ws = []
    for e in p.events:
        if e[0] == 'memset' and e[2][0] == item: ws.append(('zero', e[2][1] == 0 and e[2][2] == s, e))
        elif e[0] == 'memcpy' and e[2][0] == item: ws.append(('copy', e[2], e))
        elif e[0] == 'store' and isinstance(e[2], Ptr) and e[2].obj == item.obj: ws.append(('store', e, e))
        elif e[0] == 'set' and e[2][1] == item: ws.append(('set', e[2], e))
        elif e[0] == 'icall' and e[3] and e[3][0] == item: ws.append(('icall', e, e))
    if p.ret.obj != ('arr', dst[0][2]): return ('bad', 'returns another array')
    if not ws: return ('bad', 'the item is returned without having been written')
    if ws[0][0] == 'zero' and len(ws) == 1:
        if not ws[0][1]: return ('bad', 'only part of the item is cleared')
        if not isnone: return ('bad', 'the given default is ignored')
        return None if typ in (18, 19, 20) else ('bad', 'the item is left zero, which is not the invalid value of the type') if typ not in (0,) else None
    # objects: a setitem on uncleared memory releases whatever it finds there; the allocation of objects is cleared by NumPy
    k, d, e = ws[-1]
    if k == 'set':
        v = d[2]
        if not isnone: return None if v == Ptr(('given',)) else ('bad', 'sets %s instead of the given default' % (v,))
        if typ == 17: return None if v == nv else ('bad', 'sets %s instead of None' % (v,))
        if typ in (11, 12, 13, 14, 15, 16, 23):
            mk = [x for x in p.events if x[0] == 'ext' and x[2] == 'PyFloat_FromDouble']
            if not mk or not isinstance(v, Ptr) or v.obj[0] != 'ret': return ('und', 'sets ' + repr(v))
            q = nanarg(mk[-1][3][0])
            return None if q else ('und', 'sets a float of ' + repr(mk[-1][3])[:80]) if q is None else ('bad', 'the invalid value of a float type is not NaN')
        return ('und', 'sets ' + repr(v))
    if k == 'copy':
        if isnone: return ('und', 'copied')
        cv = [x for x in p.events if x[0] == 'conv']
        if not cv: return ('und', 'copied without conversion')
        a = cv[-1][2]
        if a[0] != Ptr(('given',)): return ('bad', 'converts something else than the given default')
        if a[1] != d[1]: return ('bad', 'copies from another place than the converted default')
        if a[2] != typ: return ('bad', 'the default is converted to type number %s' % (a[2],))
        if d[2] != s: return ('bad', 'copies %s of %d bytes' % (d[2], s))
        if swapped: return ('bad', 'copies a native value into an item of the other byte order')
        if not any(isinstance(c, Unk) and 'convok' in repr(c) for c, r, i in p.conds): return ('bad', 'the outcome of the conversion is not looked at')
        return None
    if k == 'icall':
        tgt = e[2]; off = tgt.obj[2] if isinstance(tgt, Ptr) and tgt.obj[0] == 'ld' else None
        if off != 192: return ('und', 'call through slot %s' % (off,))
        src, sw = e[3][1], e[3][2]
        if not isnone: return ('und', 'copyswap of %s' % (src,))
        if not isinstance(src, Ptr) or src.obj[0] != 'g': return ('und', 'copyswap from %s' % (src,))
        if not isinstance(sw, int): return ('und', 'swap is ' + repr(sw))
        if bool(sw) != bool(swapped): return ('bad', 'the invalid value is %s' % ('not swapped to the byte order of the array' if swapped else 'swapped although the array has native byte order'))
        v = bytesof(P, src.obj, s)
        if v is None: return ('und', 'unknown constant')
        z = objsize(P, src.obj, None)
        if z is not None and z < s: return ('bad', 'takes %d bytes from a constant of %d' % (s, z))
        return invalid(typ, s, v[0])
    return ('und', k)
def invalid(typ, s, v):
    t = 7 if typ in (21, 22) else typ
    if isinstance(v, tuple): return ('und', 'constant ' + repr(v))
    if t in NAN:
        m, e = (23, 8) if s == 4 else (52, 11)
        if z_isnan(v, m, e): return None
        return ('bad', 'the invalid value of a float type is not NaN')
    exp = 0 if t == 0 else (1 << (8 * s - 1)) if t in SIGN else (1 << (8 * s)) - 1
    return None if v == exp else ('bad', 'the invalid value is %#x, expected %#x' % (v, exp))
def z_isnan(v, m, e): return (v >> m) & ((1 << e) - 1) == (1 << e) - 1 and v & ((1 << m) - 1) != 0
def nanarg(x):
    """is this argument of PyFloat_FromDouble NaN?  None: unknown"""
    if isinstance(x, Unk) and isinstance(x.why, tuple) and x.why[0] == 'fpext' and isinstance(x.why[-1], int): return z_isnan(x.why[-1], 23, 8)
    if isinstance(x, int): return z_isnan(x, 52, 11)

# ------------------------------------------------------------------------------------------------ conversion of the given default
INT = {0: 8, 1: 8, 2: 8, 3: 16, 4: 16, 5: 32, 6: 32, 7: 64, 8: 64, 9: 64, 10: 64}
class CX(DX):
    """ConvertScalarObject: where the stored bytes come from"""
    def __init__(self, cp): self.arrs = {}; DX.__init__(self, cp, handlers={'PyLong_AsLongLongAndOverflow': self.aslong, 'PyFloat_AsDouble': lambda s, i, a: Unk(('dbl',)), 'PyLong_AsUnsignedLongLongMask': lambda s, i, a: Unk(('mask',))})
    def aslong(self, fk, i, a): self.write(a[1], 4, Unk(('overflow',))); return Unk(('long',))
    def onicall(self, i, tgt, args):
        n = npapi.apiname(tgt)
        if n == 'PyArray_CastScalarToCtype':
            d = args[2]; u = None
            if isinstance(d, Ptr): u = 'U' if 'ULong' in repr(d) else 'S' if 'Long' in repr(d) else None
            self.write(args[1], 8, Unk(('cast', u))); return 0
        return NotImplemented
    def other(self, i, f, args, b):
        if b in ('PyObject_TypeCheck', 'Py_IS_TYPE', 'PyType_HasFeature', 'Py_TYPE', 'PyType_FastSubclass', 'PyBytes_Check', 'PyUnicode_Check', 'PyBool_Check'):
            return Ptr(('ret', b), 0) if f.ret == 'ptr' else Unk(('isa', b, repr(args[1:])))
        if '_set1_' in b: return Unk(('set1', b, args[0]))
        return NotImplemented
    def step(self, fr, i):
        if i.o in ('fptosi', 'fptoui', 'sitofp', 'uitofp', 'fptrunc', 'fpext'):
            v = self.val(fr, i.ops[0])
            return Unk((i.o, self.width(i.t) if i.t.startswith('i') else i.t, v))
        if i.o == 'fcmp': return Unk(('fcmp', i['p'], self.val(fr, i.ops[0]), self.val(fr, i.ops[1])))
        return DX.step(self, fr, i)
def strip(v, ops):
    while isinstance(v, Unk) and isinstance(v.why, tuple) and v.why[0] in ops: v = v.why[-1]
    return v
def scalars(ck, P, cp):
    u, f = next(((u, sel(P, u, 'ConvertScalarObject')) for u in P.units if sel(P, u, 'ConvertScalarObject') is not None), (None, None))
    if f is None: ck.undecided('scalar', 'ConvertScalarObject', 'not found'); return
    D0 = Ptr(('dest',))
    for typ in list(INT) + [11, 12]:
        ok = 0
        for p in CX(cp).paths(f.name, [Ptr(('given',)), D0, typ, Ptr(('pp',)), Ptr(('ps',))], unit=u, maxpaths=400):
            if p.end != 'ret': ck.undecided('scalar', 'ConvertScalarObject', 'type %d: %s' % (typ, p.end)) if 'unreach' not in p.end else None; continue
            if p.ret == 0: continue
            st = [e for e in p.events if e[0] == 'store' and e[2] == D0]
            redirected = any(e[0] == 'store' and e[2] == Ptr(('pp',)) and e[3] != D0 for e in p.events)
            if redirected and not st: continue                # bytes and strings, which the caller does not convert here
            r = chain(p, st, typ)
            if r is None: ok += 1
            elif r[0] == 'und': ck.undecided('scalar', 'ConvertScalarObject', 'type number %d: %s' % (typ, r[1]))
            else: ck.violation('scalar', 'scalar:%d:%s' % (typ, r[2]), st[-1][1].where() if st else 'ConvertScalarObject', 'default converted to type number %d: %s' % (typ, r[1]), dict(type=typ))
        if ok: ck.ok('scalar', ok, 'type number %d: kept in the form of its type' % typ)
def chain(p, st, typ):
    if not st: return ('bad', 'reports success without a value', 'none')
    v = st[-1][3]
    if not (isinstance(v, Unk) and isinstance(v.why, tuple) and v.why[0] == 'set1'): return ('und', 'stores ' + repr(v)[:80])
    op = v.why[1]; x = v.why[2]
    w = {'epi8': 8, 'epi16': 16, 'epi32': 32, 'epi64x': 64, 'ps': 'f', 'pd': 'd'}.get(op.split('_set1_')[1])
    want = INT.get(typ, {11: 'f', 12: 'd'}.get(typ))
    if w != want: return ('bad', 'the bytes are laid out for another item size (%s)' % op, 'width')
    t = strip(x, ('truncw', 'sextw', 'zextw', 'trunc', 'sext', 'zext'))
    if isinstance(t, int): return None if t in (0, 1) or w in ('f', 'd') else ('und', 'constant %d' % t)
    y = t.why if isinstance(t, Unk) else None
    r = repr(t)
    ints = ('long',), ('mask',)
    leaf = lambda q: isinstance(q, Unk) and (q.why in ints or isinstance(q.why, tuple) and q.why and q.why[0] == 'cast')
    def overflow(q):
        """the path has made sure that the leaf is the number"""
        if q.why == ('long',) and not any("('overflow',)" in repr(c) for c, r, i in p.conds): return ('bad', 'an integer outside int64 becomes another number', 'overflow')
        return None
    def boolleaf(q): return 'given' in repr(q) and not leaf(q) and 'dbl' not in repr(q)
    if typ == 0:
        if isinstance(y, tuple) and (y[0] == 'cmp' and y[1] == 'ne' and y[4] == 0 and leaf(y[3]) or y[0] == 'fcmp' and y[1] in ('une', 'one')): return None
        if leaf(t) or 'dbl' in r: return ('bad', 'a bool item gets a byte other than 0 and 1', 'bool')
        return None if boolleaf(t) else ('und', 'bool from ' + r[:60])
    if w not in ('f', 'd'):
        if leaf(t):
            if t.why == ('cast', 'U') and typ in SIGN or t.why == ('cast', 'S') and typ not in SIGN: return None     # same low bits
            return overflow(t) if w == 64 else None
        if isinstance(y, tuple) and y[0] in ('fptosi', 'fptoui') and 'dbl' in r:
            src = strip(y[2], ('fpext',)) 
            if src != Unk(('dbl',)): return ('bad', 'the float is rounded to a smaller type on the way', 'round')
            need = (y[0] == 'fptosi' and y[1] >= w and typ in SIGN) or (typ not in SIGN and (y[0] == 'fptoui' and y[1] >= w or y[0] == 'fptosi' and y[1] > w))
            return None if need else ('bad', 'converted by way of a %s %d-bit integer, which does not hold all values of the type' % ('signed' if y[0] == 'fptosi' else 'unsigned', y[1]), 'range')
        return None if boolleaf(t) else ('und', 'from ' + r[:60])
    z = strip(x, ('fptrunc', 'fpext')) if w == 'f' else x
    while isinstance(z, Unk) and isinstance(z.why, tuple) and z.why[0] == 'fpext': z = z.why[-1]
    if z == Unk(('dbl',)): return None
    if isinstance(z, Unk) and isinstance(z.why, tuple) and z.why[0] == 'fptrunc': return ('bad', 'a double loses precision on the way', 'round')
    if isinstance(z, Unk) and isinstance(z.why, tuple) and z.why[0] in ('sitofp', 'uitofp'):
        if w == 'd' and z.why[1] == 'float': return ('bad', 'an integer loses precision in a float on the way to double', 'round')
        q = strip(z.why[2], ('sextw', 'zextw'))
        if isinstance(strip(z.why[2], ('sextw', 'zextw', 'truncw')), Unk) and q != strip(z.why[2], ('sextw', 'zextw', 'truncw')): return ('bad', 'the integer is cut off on the way', 'cut')
        if isinstance(q, int): return None
        if leaf(q):
            if z.why[0] == 'uitofp' and q.why == ('long',): return ('bad', 'a negative integer is taken as unsigned', 'sign')
            if q.why[0] == 'cast':
                u = q.why[1]
                if z.why[0] == 'sitofp' and not any('cast' in repr(c) or 'Unsigned' in repr(c) for c, r, i in p.conds): return ('bad', 'an unsigned integer beyond int64 becomes negative', 'unsigned')
                return None
            return overflow(q)
        return None if boolleaf(q) else ('und', 'from ' + repr(z)[:60])
    return ('und', 'from ' + repr(z)[:60])

# ------------------------------------------------------------------------------------------------ flat layouts
class FX(DX):
    def __init__(self, cp, dims, strides, item): self.arrs = {'v': Arr('v', len(dims), 7, V, L, item, None)}; self.g = (dims, strides); DX.__init__(self, cp, loopmax=8)
    def other(self, i, f, args, b):
        return NotImplemented
    def model(self, fk, i, f, args):
        b = base(f)
        if args and args[0] == Ptr(('arr', 'v')):
            d, s = self.g
            if b == 'PyArray_STRIDE': return s[args[1]] & M64 if isinstance(args[1], int) and args[1] < len(d) else Unk(('outside', b))
            if b == 'PyArray_DIM': return d[args[1]] if isinstance(args[1], int) and args[1] < len(d) else Unk(('outside', b))
        return DX.model(self, fk, i, f, args)
def shapes(tier):
    S = (0, 8, -8, 16, 24, 40)
    for n in (0, 1, 2, 3):
        for s in S: yield (n,), (s,)
    for d in itertools.product((1, 2, 3), repeat=2):
        for s in itertools.product(S, repeat=2): yield d, s
    k = 0
    for d in itertools.product((1, 2, 3), repeat=3):
        for s in itertools.product((8, 16, 24, 48, -8), repeat=3):
            k += 1
            if tier == 'thorough' or s[2] == 8 or s[0] == 8 or 1 in d and k % 3 == 0: yield d, s
def flat(ck, P, cp, tier):
    """a layout reported as one run really is one: item k of the array, in row or column order, lies k strides from the first"""
    u, f = next(((u, sel(P, u, 'GetStridesAndContig')) for u in P.units if sel(P, u, 'GetStridesAndContig') is not None), (None, None))
    if f is None: ck.undecided('flat', 'GetStridesAndContig', 'not found'); return
    n = 0; run = 0
    for dims, strides in shapes(tier):
        fk = FX(cp, dims, strides, 8); A, B_ = Ptr(('out', 1)), Ptr(('out', 2))
        for p in fk.paths(f.name, [Ptr(('arr', 'v')), A, B_], unit=u, maxpaths=6):
            if p.end != 'ret' or not isinstance(p.ret, int): ck.undecided('flat', 'GetStridesAndContig', '%s %s: %s %r' % (dims, strides, p.end, p.ret)); return
            n += 1
            if p.ret: continue
            st = p.mem.get(('out', 2), {}).get(0, (0, None))[1]
            if not isinstance(st, int): ck.undecided('flat', 'GetStridesAndContig', 'stride is %r' % (st,)); return
            st = sg(st, 64); run += 1
            pos = [sum(i * s for i, s in zip(ix, strides)) for ix in itertools.product(*map(range, dims))]
            posF = [sum(i * s for i, s in zip(ix, strides[::-1])) for ix in itertools.product(*map(range, dims[::-1]))]
            exp = [k * st for k in range(len(pos))]
            if pos != exp and posF != exp:
                ck.violation('flat', 'flat', f.name if 0 else 'GetStridesAndContig', 'an array of shape %s with strides %s is taken as one run of step %d; its items lie at %s' % (dims, strides, st, pos[:8]), dict(shape=dims, strides=strides)); return
    ck.ok('flat', n, '%d layouts, %d of them taken as one run' % (n, run))
class NX(GX):
    """getitem with arrays of several dimensions or the other byte order"""
    sw = {}
    def read(self, p, n):
        if isinstance(p, Ptr) and p.obj[0] == 'descr' and p.off == BYTEORDER and n == 1: return SWAPPED if self.sw.get(p.obj[1]) else NATIVE
        return GX.read(self, p, n)
    def model(self, fk, i, f, args):
        a = arrof(args[0], self.arrs) if args else None; b = base(f)
        if a is not None and b == 'PyArray_CHKFLAGS':
            if isinstance(args[1], int) and args[1] & 1: return int(bool(a.flags))
            return 1
        if a is not None and b == 'PyArray_ISNOTSWAPPED': return int(not self.sw.get(a.name))
        if b == 'GetStridesAndContig' and a is not None:
            self.write(args[1], 4, a.nd); self.write(args[2], 8, a.stride); return 0 if a.nd <= 1 or a.flags == 2 else 1
        return GX.model(self, fk, i, f, args)
def refuse(ck, P, cp, table):
    g = sel(P, 'getitem', 'getitem'); kn = {('fn', 'getitem', t.name) for t in set(table.values())}
    # (dimensions, contiguity flag) of values and index, swapped index; may the kernels see it?
    CASES = [('plain', (1, 1), (1, 1), 0, True), ('values of two dimensions that are not contiguous', (2, 0), (1, 1), 0, False), ('an index of two dimensions that is not contiguous', (1, 1), (2, 0), 0, False),
             ('contiguous values and index of two dimensions', (2, 1), (2, 1), 0, True), ('an index in the other byte order', (1, 1), (1, 1), 1, False)]
    for what, (vn, vf), (xn, xf), sw, may in CASES:
        for typ in (3, 7, 10):
            arrs = {'v': Arr('v', vn, 18, V, L, 12, SV if vn == 1 else 12, vf), 'i': Arr('i', xn, typ, I, N, INTS[typ][0], SI if xn == 1 else INTS[typ][0], xf)}
            fk = NX(cp, arrs, kn, {'n': 2, 'vals': [Ptr(('arr', 'v')), Ptr(('arr', 'i'))]}); fk.sw = {'i': sw, 'v': 0}
            hit = False; bad = None
            for p in fk.paths(g.name, [Ptr(('self',)), Ptr(('args',))], unit='getitem', maxpaths=400):
                if p.end not in ('ret',) and 'unreach' not in p.end: bad = p.end
                if any(e[0] in ('kernel', 'work') for e in p.events): hit = True
            if bad: ck.undecided('flat', 'getitem', '%s: %s' % (what, bad))
            elif hit and not may: ck.violation('flat', 'reach:%s' % what.replace(' ', '-'), 'getitem', '%s (index type %d) reaches the index kernels, which read it as one native run of items' % (what, typ))
            else: ck.ok('flat', 1, '%s: %s' % (what, 'handled' if hit else 'not passed to the kernels'))
