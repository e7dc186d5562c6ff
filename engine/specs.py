"""Required element formula per ufunc opcode and dtype code (NumPy's documented meaning)."""
from terms import *
from kern import TY

BIN = {'ADD': 1, 'SUB': 2, 'MUL': 3, 'MIN': 5, 'MAX': 6, 'FLOORDIV': 9, 'DIV': 13, 'LOGICAL_AND': 16, 'LOGICAL_OR': 18, 'BITWISE_AND': 21, 'BITWISE_XOR': 22, 'BITWISE_OR': 23}
def isnan(x): return fcmp(1, 'uno', x, C(x.w, 0))

def floordiv(w, x, y):
    z = C(w, 0); sb = 1 << (w - 1)
    F = lambda v: C(w, f2b(w, v))
    mod = mk('frem', w, x, y)
    d0 = fop('fdiv', w, fop('fsub', w, x, mod), y)
    d = ite(w, fcmp(1, 'une', mod, z), ite(w, mk('xor', 1, fcmp(1, 'olt', y, z), fcmp(1, 'olt', mod, z)), fop('fadd', w, d0, F(-1.0)), d0), d0)
    q = mk('floor', w, d)
    q = ite(w, fcmp(1, 'ogt', fop('fsub', w, d, q), F(0.5)), fop('fadd', w, q, F(1.0)), q)
    zero = bitop('and', fop('fdiv', w, x, y), C(w, sb))
    return ite(w, fcmp(1, 'oeq', y, z), fop('fdiv', w, x, y), ite(w, fcmp(1, 'oeq', d, z), zero, q))

def binary(op, ty):
    """-> (specfn, rel, kinds) or None"""
    w, k = TY[ty]
    I = lambda f: ((lambda x, y: f(x, y)), 'float' if k == 'f' else 'bits', (k, k))
    if op == 1:
        if k == 'b': return I(lambda x, y: bitop('or', x, y))
        if k == 'f': return I(lambda x, y: fop('fadd', w, x, y))
        return I(lambda x, y: P(w, x.poly() + y.poly()))
    if op == 2:
        if k == 'f': return I(lambda x, y: fop('fsub', w, x, y))
        if k == 'b': return None
        return I(lambda x, y: P(w, x.poly() - y.poly()))
    if op == 3:
        if k == 'b': return I(lambda x, y: bitop('and', x, y))
        if k == 'f': return I(lambda x, y: fop('fmul', w, x, y))
        return I(lambda x, y: P(w, x.poly() * y.poly()))
    if op in (5, 6):
        mn = op == 5
        if k == 'f':
            f = lambda x, y: ite(w, isnan(x), x, ite(w, isnan(y), y, ite(w, fcmp(1, 'olt' if mn else 'ogt', x, y), x, y)))
            return f, 'num', (k, k)
        nm = ('s' if k == 'i' else 'u') + ('min' if mn else 'max')
        return I(lambda x, y: minmax(nm, w, x, y))
    if op == 9 and k == 'f' and w != 80: return (lambda x, y: floordiv(w, x, y)), 'float', (k, k)
    if op == 13 and k == 'f': return I(lambda x, y: fop('fdiv', w, x, y))
    if op in (16, 18) and k == 'b': return I(lambda x, y: bitop('and' if op == 16 else 'or', x, y))
    if op in (21, 22, 23) and k != 'f':
        return I(lambda x, y: bitop({21: 'and', 22: 'xor', 23: 'or'}[op], x, y))
    return None

CMP = {0: ('oeq', 'eq'), 1: ('une', 'ne'), 2: ('olt', 'lt'), 3: ('ogt', 'gt'), 4: ('ole', 'le'), 5: ('oge', 'ge')}
def compare(op, ty):
    w, k = TY[ty]
    fp, ip = CMP[op]
    if k == 'f': return (lambda x, y: zext(8, fcmp(1, fp, x, y))), 'bits', (k, k)
    pred = ip if op < 2 else ('s' if k == 'i' else 'u') + ip
    return (lambda x, y: zext(8, icmp(1, pred, x, y))), 'bits', (k, k)

def bool8(c): return zext(8, c)
def unary(op, ty, wout):
    """wout: atop code of the declared output type"""
    w, k = TY[ty]
    z = C(w, 0)
    rel = 'float' if k == 'f' and TY.get(wout, (0, ''))[1] == 'f' else 'bits'
    R = lambda f: (f, rel, (k,))
    sb = (1 << (w - 1)); am = sb - 1
    inf = {32: 0x7f800000, 64: 0x7ff0000000000000}.get(w)
    if op in (1, 3):
        if k == 'f': return R(lambda x: mk('fabsx', 80, x) if w == 80 else bitop('and', x, C(w, am)))
        if k == 'i': return R(lambda x: mk('iabs', w, x))
        return None
    if op == 2 and k == 'f' and w != 80: return R(lambda x: bool8(tslice(x, w - 1, 1)))
    if op in (4, 28):
        if k == 'b': return R(lambda x: bool8(icmp(1, 'eq', x, z)))
        if k in 'iu': return R(lambda x: bitop('xor', x, C(w, -1)))
    if op in (5, 6, 7, 12) and k == 'f': return R(lambda x: mk({5: 'floor', 6: 'ceil', 7: 'ftrunc', 12: 'rint'}[op], w, x))
    if op == 9:
        if k == 'f': return R(lambda x: mk('fnegx', 80, x) if w == 80 else bitop('xor', x, C(w, sb)))
        if k in 'iu': return R(lambda x: P(w, -x.poly()))
    if op == 11:
        if k == 'i': return R(lambda x: ite(w, icmp(1, 'sgt', x, z), C(w, 1), ite(w, icmp(1, 'slt', x, z), C(w, -1), z)))
        if k == 'f' and w != 80:
            one = C(w, f2b(w, 1.0)); mone = C(w, f2b(w, -1.0))
            return (lambda x: ite(w, fcmp(1, 'ogt', x, z), one, ite(w, fcmp(1, 'olt', x, z), mone, ite(w, isnan(x), x, z)))), 'num', (k,)
    if op == 15 and k == 'f': return R(lambda x: mk('sqrt', w, x))
    if op == 16 and k == 'f': return R(lambda x: fop('fmul', w, x, x))
    if op == 18:
        if k == 'f': return R(lambda x: bool8(fcmp(1, 'oeq', x, z)))
        return R(lambda x: bool8(icmp(1, 'eq', x, z)))
    isn = lambda x: bool8(isnan(x))
    if op in (19, 20, 23):
        if k != 'f': return R(lambda x: C(8, 1 if op in (23,) else 0))
    if op in (21, 24) and k != 'f': return R(lambda x: C(8, 1))
    if k == 'f' and w != 80:
        ax = lambda x: bitop('and', x, C(w, am))
        if op == 19: return R(lambda x: bool8(icmp(1, 'eq', ax(x), C(w, inf))))
        if op == 20: return R(isn)
        if op == 21: return R(lambda x: bool8(icmp(1, 'ult', ax(x), C(w, inf))))
        if op == 24: return R(lambda x: bool8(fcmp(1, 'ord', x, C(w, 0))))
        if op == 25: return R(lambda x: bool8(icmp(1, 'uge', ax(x), C(w, inf))))
    if k == 'f' and w == 80:
        if op == 20: return R(isn)
        if op == 24: return R(lambda x: bool8(fcmp(1, 'ord', x, C(w, 0))))
    return None
