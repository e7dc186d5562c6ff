"""Names of the NumPy C-API table slots, from the installed NumPy headers."""
import re, glob, functools
@functools.lru_cache(None)
def slots():
    out = {}
    for d in ('/opt/vp/venv/lib/python3*/site-packages/numpy/*/include/numpy/__multiarray_api.h', '/opt/veriftools/pyvenv/lib/python3*/site-packages/numpy/*/include/numpy/__multiarray_api.h'):
        for f in glob.glob(d):
            s = open(f).read()
            for n, k in re.findall(r'#define (\w+)[ \\\n]*\(\*?\([^#]*?PyArray_API\[(\d+)\]', s): out.setdefault(8 * int(k), n)
            if out: return out
    return out
def apiname(tgt):
    """name of the API function behind an indirect call target, or None"""
    o = getattr(tgt, 'obj', None)
    if isinstance(o, tuple) and o[0] == 'ld' and isinstance(o[2], int) and 'ARRAY_API' in repr(o[1]): return slots().get(o[2])
    return None
