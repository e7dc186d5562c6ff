"""NumPy ufunc name -> required formula; the meaning comes from NumPy's documentation, never from pnumpy's own opcode tables."""
import specs
# numpy type number -> atop-style (bits, kind) code used by the formula tables
NP2T = {0: 0, 1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 7, 8: 8, 9: 7, 10: 8, 11: 12, 12: 13, 13: 14, 23: 11}
BIN = {'add': 1, 'subtract': 2, 'multiply': 3, 'minimum': 5, 'maximum': 6, 'floor_divide': 9, 'true_divide': 13, 'divide': 13,
       'logical_and': 16, 'logical_or': 18, 'bitwise_and': 21, 'bitwise_xor': 22, 'bitwise_or': 23}
CMP = {'equal': 0, 'not_equal': 1, 'less': 2, 'greater': 3, 'less_equal': 4, 'greater_equal': 5}
UN = {'abs': 1, 'absolute': 1, 'fabs': 3, 'signbit': 2, 'invert': 4, 'bitwise_not': 4, 'floor': 5, 'ceil': 6, 'trunc': 7, 'rint': 12, 'negative': 9, 'sign': 11, 'sqrt': 15, 'square': 16,
      'logical_not': 18, 'isinf': 19, 'isnan': 20, 'isfinite': 21}
TRIG = {'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh', 'exp', 'exp2', 'expm1', 'log', 'log2', 'log10', 'log1p', 'cbrt'}
ARITY = {}
for n in BIN: ARITY[n] = 2
for n in ('power', 'float_power', 'remainder', 'mod', 'fmod', 'left_shift', 'right_shift', 'logical_xor', 'fmin', 'fmax', 'logaddexp', 'logaddexp2', 'arctan2', 'hypot', 'copysign', 'heaviside', 'gcd', 'lcm'): ARITY[n] = 2
for n in CMP: ARITY[n] = 2
for n in list(UN) + list(TRIG) + ['positive', 'conjugate', 'reciprocal', 'spacing']: ARITY[n] = 1
BOOLOUT = set(CMP) | {'logical_and', 'logical_or', 'logical_xor', 'logical_not', 'isinf', 'isnan', 'isfinite', 'signbit'}
def out_type(name, t):
    if name in BOOLOUT: return 0
    return t
def reduce_op(name, kind):
    if kind == 'b': return {'add': 'or', 'multiply': 'and', 'minimum': 'smin', 'maximum': 'smax', 'logical_or': 'or', 'logical_and': 'and'}.get(name)
    if name in ('minimum', 'maximum'): return ('s' if kind in 'i' else 'u' if kind == 'u' else 's') + name[:3]
    return {'add': 'add', 'multiply': 'mul', 'bitwise_or': 'or', 'bitwise_and': 'and', 'bitwise_xor': 'xor'}.get(name)
