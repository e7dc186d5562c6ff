"""The Python and NumPy C API as the analysed code sees it: objects with reference counts, the pending exception, and failures.

Objects are regions of the abstract memory of ordx.Machine laid out as the interpreter lays them out, so that the macros of the
headers (compiled into the code under analysis) work on them.  Every API function that can fail may fail: one failure per path,
all places enumerated.  After a call, audit() compares every reference count with the references that really exist."""
import ordx, npapi
from ordx import Alarm, Stuck

FLAG = {'int': 24, 'list': 25, 'tuple': 26, 'bytes': 27, 'str': 28, 'dict': 29}
TYPES = {'PyList_Type': 'list', 'PyTuple_Type': 'tuple', 'PyDict_Type': 'dict', 'PyCapsule_Type': 'capsule', 'PyUnicode_Type': 'str', 'PyBytes_Type': 'bytes', 'PyLong_Type': 'int', 'PyBool_Type': 'bool', 'PyFloat_Type': 'float', '_PyNone_Type': 'none'}
ITEM = {0: 1, 1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 8, 8: 8, 9: 8, 10: 8, 11: 4, 12: 8, 13: 16, 14: 8, 15: 16, 16: 32, 17: 8, 18: 1, 19: 4, 20: 8, 21: 8, 22: 8, 23: 2}
CARR = 0x1; FARR = 0x2; OWN = 0x4; ALIGNED = 0x100; NOTSWAP = 0x200; WRITE = 0x400

class Obj:
    """kind, plus: val (python value), items (owned objects), for arrays dims/strides/data/descr/base"""
    def __init__(self, kind, **k): self.kind = kind; self.__dict__.update(k)

class RT:
    def __init__(self, S, C):
        self.S = S; self.C = C; self.faults = False; self.handlers = {}; self.allsites = set(); self.isa = set()
        C.strings = True; self.zerodata = False
        m = S.models; me = self
        for n in dir(self):
            if n.startswith('c_'): m[n[2:]] = getattr(self, n)
        for n in ('PyExc_ValueError', 'PyExc_TypeError', 'PyExc_MemoryError', 'PyExc_IndexError', 'PyExc_RuntimeError', 'PyExc_ImportError', 'PyExc_OverflowError', 'PyExc_KeyError', 'PyExc_AttributeError', 'PyExc_Exception', 'PyExc_NotImplementedError', 'PyExc_DeprecationWarning'):
            S.ginit[n] = (lambda n: lambda b, r: S.M.__setitem__(b, 'exc:' + n[6:]))(n)
        for n, k in TYPES.items(): S.ginit[n] = (lambda k: lambda b, r: me.settype(b, k))(k)
        for n, k in (('_Py_NoneStruct', 'none'), ('_Py_TrueStruct', 'bool'), ('_Py_FalseStruct', 'bool')):
            S.ginit[n] = (lambda n, k: lambda b, r: me.immortal(b, k, {'_Py_TrueStruct': True, '_Py_FalseStruct': False}.get(n)))(n, k)
        S.ginit['pPyArray_Type'] = lambda b, r: S.M.__setitem__(b, me.type('ndarray'))
        def api(b, r):
            t = S.region(1 << 14, None, True, 'the NumPy API'); S.R[t >> 40].gen = me.slot; S.M[b] = t
        S.ginit['sharedata_ARRAY_API'] = S.ginit['PyArray_API'] = api
        def uapi(b, r):
            t = S.region(1 << 12, None, True, 'the ufunc API'); S.R[t >> 40].gen = lambda off, w, loc: 'uapi:%d' % off; S.M[b] = t
        S.ginit['PyUFunc_API'] = uapi
        S.onold = self.api
    def reset(self):
        self.obj = {}; self.sites = {}; self.faultat = ''; self.err = None; self.types = {}; self.fault = None; self.leases = {}; self.descrs = {}; self.lastapi = ''; self.log = []
    # ---------------------------------------------------------------- types and objects
    def type(self, kind):
        if kind not in self.types:
            g = next((n for n, k in TYPES.items() if k == kind), None)
            if g: self.C.glob(g)
            else: self.settype(self.S.region(416, None, False, 'type ' + kind), kind)
        return self.types[kind]
    def settype(self, b, kind):
        self.types[kind] = b; r = self.S.R[b >> 40]; r.zero = True; r.size = 416; r.hi = getattr(r, 'hi', 0) and 416; self.S.M[b] = -1
        self.S.M[b + 168] = (1 << FLAG[kind]) if kind in FLAG else (1 << 24) if kind == 'bool' else 0
        self.S.M[b + 24] = 0
        self.S.models_type = self.types
    def immortal(self, b, kind, val):
        self.S.R[b >> 40].zero = True; self.S.M[b] = -1; self.S.M[b + 8] = self.type(kind); self.obj[b] = Obj(kind, val=val, items=[], immortal=True)
    def none(self): return self.C.glob('_Py_NoneStruct')
    def bool(self, v): return self.C.glob('_Py_TrueStruct' if v else '_Py_FalseStruct')
    def new(self, kind, size=64, tp=None, **k):
        S = self.S; b = S.region(size, None, False, 'a %s' % kind); S.R[b >> 40].zero = True
        S.M[b] = 1; S.M[b + 8] = self.type(tp or kind)
        o = self.obj[b] = Obj(kind, items=[], immortal=False, **k); o.new = True; o.at = S.at
        return b
    def int(self, v): return self.new('int', val=v)
    def float(self, v): return self.new('float', val=v)
    def str(self, v): b = self.new('str', val=v); self.S.M[b + 16] = len(v); return b
    def tuple(self, items, own=True):
        b = self.new('tuple', 24 + 8 * max(1, len(items))); self.S.M[b + 16] = len(items)
        for k, x in enumerate(items): self.S.M[b + 24 + 8 * k] = x
        return b
    def list(self, items):
        b = self.new('list', 64); v = self.S.region(8 * max(1, len(items)), None, False, 'the items of a list'); self.S.R[v >> 40].zero = True
        self.S.M[b + 16] = len(items); self.S.M[b + 24] = v
        for k, x in enumerate(items): self.S.M[v + 8 * k] = x
        return b
    def dict(self, d): return self.new('dict', val=dict(d))
    def descr(self, t, itemsize=None, byteorder='=', hasobj=None, fields=None):
        S = self.S; b = self.new('descr', 256, val=t)
        S.M[b + 24] = ord('?'); S.M[b + 25] = ord('?'); S.M[b + 26] = ord(byteorder); S.M[b + 28] = t
        S.M[b + 32] = itemsize if itemsize is not None else ITEM.get(t, 0); S.M[b + 27] = 1 if t == 17 else 0; S.M[b + 64] = self.funcs(t)
        S.M[b + 36] = 0
        return b
    def funcs(self, t):
        """the functions of an element type"""
        if t not in self.leases:
            S = self.S; b = self.leases[t] = S.region(512, None, False, 'the functions of an element type')
            S.R[b >> 40].gen = lambda off, w, loc: S.M.get(b + off, 'f:%d:%d' % (t, off))
        return self.leases[t]
    def array(self, t, dims, strides=None, itemsize=None, byteorder='=', data=None, flags=None, fill=None, unit=None, ro=False, descr=None):
        """a new array; its data region is filled by `fill(address, size)`"""
        S = self.S; w = itemsize if itemsize is not None else ITEM[t]
        b = self.new('ndarray', 256)
        n = 1
        for x in dims: n *= x
        if strides is None:
            strides = []; s = w
            for x in reversed(dims): strides.insert(0, s); s *= x
            cont = CARR | (FARR if len(dims) <= 1 or n <= 1 else 0)
        else:
            s = w; c = True
            for x, y in reversed(list(zip(dims, strides))):
                if x != 1 and y != s: c = False
                s *= x
            s = w; f = True
            for x, y in zip(dims, strides):
                if x != 1 and y != s: f = False
                s *= x
            cont = (CARR if c or n == 0 else 0) | (FARR if f or n == 0 else 0)
        if data is None:
            data = S.region(max(1, n * w), unit or None, False, 'the data of an array'); self.obj[b].owns = data; S.R[data >> 40].zero = t == 17 or self.zerodata
        sh = S.region(8 * max(1, len(dims)), None, True, 'the shape'); st = S.region(8 * max(1, len(dims)), None, True, 'the strides')
        for k, (x, y) in enumerate(zip(dims, strides)): S.M[sh + 8 * k] = x; S.M[st + 8 * k] = y
        M = S.M
        M[b + 16] = data; M[b + 24] = len(dims); M[b + 32] = sh; M[b + 40] = st; M[b + 48] = 0
        M[b + 56] = descr if descr is not None else self.descr(t, w, byteorder)
        M[b + 64] = flags if flags is not None else cont | OWN | ALIGNED | (0 if ro else WRITE)
        o = self.obj[b]; o.t = t; o.dims = list(dims); o.strides = list(strides); o.w = w; o.data = data
        return b
    # ---------------------------------------------------------------- references
    def rc(self, b, d):
        o = self.obj.get(b)
        if o is None:
            if b in self.types.values(): return
            raise Alarm('ref', 'a reference count is changed of something that is no object' if b else 'a reference count is changed of NULL')
        if self.S.R[b >> 40].freed: raise Alarm('ref', 'a reference of %s is taken or dropped after it was freed' % o.kind)
        if o.immortal: return
        n = self.S.M[b] + d; self.S.M[b] = n
        if n < 0: raise Alarm('ref', 'more references of a %s are dropped than exist' % o.kind)
        if n == 0: self.dealloc(b)
    def dealloc(self, b):
        o = self.obj[b]
        if o.immortal: return
        if getattr(o, 'held', 0): raise Alarm('ref', 'a %s the caller still holds is freed' % o.kind)
        ch = self.children(b)
        self.S.R[b >> 40].freed = True
        if getattr(o, 'owns', None): self.S.R[o.owns >> 40].freed = True
        for x in ch: self.rc(x, -1)
    def children(self, b):
        o = self.obj[b]; M = self.S.M
        if o.kind == 'tuple': return [x for x in (M.get(b + 24 + 8 * k, 0) for k in range(M[b + 16])) if x]
        if o.kind == 'list': return [x for x in (M.get(M[b + 24] + 8 * k, 0) for k in range(M[b + 16])) if x]
        if o.kind == 'dict': return list(o.val.values()) + list(getattr(o, 'keys', {}).values())
        if o.kind == 'ndarray':
            own = [x for x in (M.get(p, 0) for p in self.elements(o)) if type(x) is int and x in self.obj] if o.t == 17 and getattr(o, 'owns', None) else []
            return [x for x in (M[b + 56], M.get(b + 48, 0)) if x] + own
        return list(o.items)
    def hold(self, *bs):
        """references the caller of the analysed code keeps"""
        for b in bs:
            o = self.obj[b]; o.held = getattr(o, 'held', 0) + 1
    def audit(self, result):
        """-> None or what is wrong with the reference counts, exception and memory after a call that returned `result`"""
        S = self.S
        want = {}
        live = [b for b, o in self.obj.items() if not S.R[b >> 40].freed]
        for b in live:
            for x in self.children(b): want[x] = want.get(x, 0) + 1
            want[b] = want.get(b, 0) + getattr(self.obj[b], 'held', 0)
        if result and result in self.obj: want[result] = want.get(result, 0) + 1
        gl = {base >> 40 for base in S.globals.values()}
        for a, x in S.M.items():
            if type(x) is int and x in self.obj and not self.obj[x].immortal and a >> 40 in gl and not S.R[a >> 40].ro: want[x] = want.get(x, 0) + 1
        for b, n in list(want.items()):
            if b in self.obj and S.R[b >> 40].freed: return 'a %s that is still in use was freed' % self.obj[b].kind
        for b in live:
            o = self.obj[b]
            if o.immortal: continue
            n = S.M[b]; w = want.get(b, 0)
            if n > w: return '%d reference(s) of %s are never dropped' % (n - w, ('a new %s' % o.kind + (' (made at %s)' % o.at if o.at else '')) if not getattr(o, 'held', 0) else 'a %s the caller passed' % o.kind)
            if n < w: return '%d reference(s) too many of a %s are dropped' % (w - n, o.kind)
        for r in S.R.values():
            if r.heap and not r.freed: return 'memory of %d bytes (%s) is never freed' % (r.size, r.name)
        return None
    # ---------------------------------------------------------------- failures and the pending exception
    def may_fail(self, name):
        self.lastapi = name
        if self.faults and self.fault is None and not self.S.failed:
            k = (self.S.at, name); self.allsites.add(k); self.sites[k] = self.sites.get(k, 0) + 1
            if self.sites[k] <= 2 and self.S.choose(2) == 1:
                self.fault = name; self.faultat = self.S.at; return True
        return False
    def raise_(self, exc, msg=''): self.err = (exc, msg); return 0
    def memerr(self, name):
        if self.may_fail(name): self.raise_('MemoryError', name + ' failed'); return True
        return False
    def text(self, a):
        if type(a) is not int: raise Stuck('text %r' % (a,))
        out = ''
        while True:
            c = self.S.ld(a, 1, 'text')
            if type(c) is not int: raise Stuck('text')
            if c == 0: return out
            out += chr(c & 255); a += 1
            if len(out) > 500: raise Stuck('text')
    def obj_of(self, a, api=''):
        if a == 0: raise Alarm('null', '%s is called with NULL' % (api or 'an API function'))
        o = self.obj.get(a)
        if o is None: raise Stuck('%s of something that is not an object (%r)' % (api, a))
        if self.S.R[a >> 40].freed: raise Alarm('ref', '%s is called with a %s that was freed' % (api or 'an API function', o.kind))
        return o
    # ---------------------------------------------------------------- Python API
    def c_PyErr_Format(self, exc, fmt, *a):
        self.err = (exc[4:] if isinstance(exc, str) else exc, self.text(fmt)); return 0
    def c_PyErr_SetString(self, exc, msg): self.c_PyErr_Format(exc, msg); return 0
    def c_PyErr_SetNone(self, exc): self.err = (exc[4:], ''); return 0
    def c_PyErr_NoMemory(self): return self.raise_('MemoryError')
    def c_PyErr_Occurred(self): return self.type('exception') if self.err else 0
    def c_PyErr_ExceptionMatches(self, exc): return int(bool(self.err) and self.err[0] == exc[4:])
    def c_PyErr_Clear(self): self.err = None; return 0
    def c_PyErr_Print(self): self.err = None; return 0
    def c_Py_IncRef(self, o):
        if o: self.rc(o, 1)
        return 0
    def c_Py_DecRef(self, o):
        if o: self.rc(o, -1)
        return 0
    def c__Py_Dealloc(self, o):
        if o not in self.obj: raise Alarm('ref', 'something that is no object is freed')
        if self.S.R[o >> 40].freed: raise Alarm('ref', 'a %s is freed twice' % self.obj[o].kind)
        self.dealloc(o); return 0
    def c_PyTuple_GetItem(self, t, k):
        o = self.obj_of(t, 'PyTuple_GetItem')
        if o.kind != 'tuple' or not 0 <= k < self.S.M[t + 16]: return self.raise_('IndexError', 'tuple index out of range')
        return self.S.M.get(t + 24 + 8 * k, 0)
    def c_PyTuple_Size(self, t):
        if self.obj_of(t, 'PyTuple_Size').kind != 'tuple': self.raise_('SystemError', 'bad argument'); return -1
        return self.S.M[t + 16]
    def c_PyTuple_Pack(self, n, *xs):
        for x in xs: self.obj_of(x, 'PyTuple_Pack')
        if self.memerr('PyTuple_Pack'): return 0
        for x in xs: self.rc(x, 1)
        return self.tuple(list(xs))
    def c_PyTuple_New(self, n): return 0 if self.memerr('PyTuple_New') else self.tuple([0] * n)
    def c_PyTuple_SetItem(self, t, k, x):
        self.obj_of(t, 'PyTuple_SetItem')
        old = self.S.M.get(t + 24 + 8 * k, 0); self.S.M[t + 24 + 8 * k] = x
        if old: self.rc(old, -1)
        return 0
    def c_PyList_New(self, n): return 0 if self.memerr('PyList_New') else self.list([0] * n)
    def c_PyList_Size(self, t): self.obj_of(t, 'PyList_Size'); return self.S.M[t + 16]
    def c_PyList_GetItem(self, t, k):
        self.obj_of(t, 'PyList_GetItem')
        if not 0 <= k < self.S.M[t + 16]: return self.raise_('IndexError', 'list index out of range')
        return self.S.M.get(self.S.M[t + 24] + 8 * k, 0)
    def c_PyList_Append(self, t, x):
        o = self.obj_of(t, 'PyList_Append')
        if self.memerr('PyList_Append'): return -1
        old = [self.S.M.get(self.S.M[t + 24] + 8 * k, 0) for k in range(self.S.M[t + 16])] + [x]
        v = self.S.region(8 * len(old), None, False, 'the items of a list')
        for k, y in enumerate(old): self.S.M[v + 8 * k] = y
        self.S.M[t + 24] = v; self.S.M[t + 16] = len(old); self.rc(x, 1); return 0
    def c_PyDict_New(self): return 0 if self.memerr('PyDict_New') else self.dict({})
    def key(self, k):
        o = self.obj_of(k, 'a dict key')
        if o.kind == 'tuple':
            ks = [self.S.M.get(k + 24 + 8 * j, 0) for j in range(self.S.M[k + 16])]
            return tuple(self.key(x) if x else self.nullkey() for x in ks)
        return o.val
    def nullkey(self): raise Alarm('null', 'a tuple with an empty place is used as a key')
    def c_PyDict_GetItemString(self, d, s):
        o = self.obj_of(d, 'PyDict_GetItemString'); return o.val.get(self.text(s), 0)
    def c_PyDict_GetItem(self, d, k): o = self.obj_of(d, 'PyDict_GetItem'); return o.val.get(self.key(k), 0)
    def c_PyDict_SetItemString(self, d, s, x):
        o = self.obj_of(d, 'PyDict_SetItemString'); self.obj_of(x, 'PyDict_SetItemString')
        if self.memerr('PyDict_SetItemString'): return -1
        k = self.text(s); old = o.val.get(k); o.val[k] = x; self.rc(x, 1)
        if old: self.rc(old, -1)
        return 0
    def c_PyDict_SetItem(self, d, k, x):
        o = self.obj_of(d, 'PyDict_SetItem'); self.obj_of(x, 'PyDict_SetItem')
        if self.memerr('PyDict_SetItem'): return -1
        kk = self.key(k); old = o.val.get(kk); o.val[kk] = x; self.rc(x, 1)
        if old: self.rc(old, -1)
        else:
            if not hasattr(o, 'keys'): o.keys = {}
            o.keys[kk] = k; self.rc(k, 1)
        return 0
    def c_PyUnicode_FromString(self, s):
        t = self.text(s)
        if len(t) > 1 and self.memerr('PyUnicode_FromString'): return 0     # texts of one character are shared and always there
        return self.str(t)
    def c_PyUnicode_Find(self, s, sub, a, b, d):
        x = self.obj_of(s, 'PyUnicode_Find').val; y = self.obj_of(sub, 'PyUnicode_Find').val
        return x.find(y, a, b)
    def c_PyUnicode_AsUCS4Copy(self, s):
        o = self.obj_of(s)
        if self.memerr('PyUnicode_AsUCS4Copy'): return 0
        b = self.S.region(4 * (len(o.val) + 1), 4, False, 'a copy of the text'); self.S.R[b >> 40].heap = True
        for k, ch in enumerate(o.val + '\0'): self.S.M[b + 4 * k] = ord(ch)
        return b
    def c_PyMem_Free(self, p):
        if p: self.S.free(p, 'PyMem_Free')
        return 0
    def number(self, v): return 0 if self.memerr('a new number') else self.int(v)
    def c_PyLong_FromLong(self, v): return self.number(v)
    def c_PyLong_FromLongLong(self, v): return self.number(v)
    def c_PyLong_FromUnsignedLongLong(self, v): return self.number(v)
    def c_PyLong_FromSsize_t(self, v): return self.number(v)
    def c_PyFloat_FromDouble(self, v): return 0 if self.memerr('a new number') else self.float(v)
    def c_PyLong_AsLongLong(self, o):
        v = self.obj_of(o, 'PyLong_AsLongLong')
        if v.kind not in ('int', 'bool'): self.raise_('TypeError'); return -1
        if not -1 << 63 <= v.val < 1 << 63: self.raise_('OverflowError'); return -1
        return int(v.val)
    c_PyLong_AsLong = c_PyLong_AsLongLong
    def c_PyLong_AsLongLongAndOverflow(self, o, ov):
        v = self.obj_of(o, 'PyLong_AsLongLongAndOverflow')
        r = 0 if -1 << 63 <= v.val < 1 << 63 else 1 if v.val > 0 else -1
        self.S.st(ov, r, 4, 'PyLong_AsLongLongAndOverflow'); return v.val if r == 0 else -1
    def c_PyType_IsSubtype(self, a, b): return int(a == b or (a, b) in self.subs())
    def subs(self):
        t = self.types; return {(t.get(x), t.get(y)) for x, y in [('bool', 'int'), ('subarray', 'ndarray')] + sorted(self.isa)}
    def c_PyArg_ParseTuple(self, args, fmt, *out):
        f = self.text(fmt).split(':')[0].split(';')[0]
        items = self.children(args); k = 0; j = 0; opt = False; n = sum(1 for ch in f if ch.isalpha())
        need = sum(1 for ch in f.split('|')[0] if ch.isalpha())
        if not need <= len(items) <= n: self.raise_('TypeError', 'argument count'); return 0
        i = 0
        while i < len(f):
            ch = f[i]; i += 1
            if ch == '|': continue
            if ch == 'O' and f[i:i + 1] == '!':
                i += 1; tp, dst = out[j], out[j + 1]; j += 2
                if k < len(items):
                    ty = self.S.M[items[k] + 8]
                    if ty != tp and (ty, tp) not in self.subs(): self.raise_('TypeError', 'argument type'); return 0
                    self.S.st(dst, items[k], 8, 'PyArg_ParseTuple')
            else:
                dst = out[j]; j += 1
                if k < len(items):
                    o = self.obj[items[k]]
                    if ch == 'O': v, w = items[k], 8
                    elif ch in 'iLlnI':
                        if o.kind not in ('int', 'bool') : self.raise_('TypeError', 'argument type'); return 0
                        w = 4 if ch in 'iI' else 8; v = int(o.val)
                        if not -1 << (8 * w - 1) <= v < 1 << (8 * w - 1): self.raise_('OverflowError'); return 0
                    elif ch == 's':
                        if o.kind != 'str': self.raise_('TypeError', 'argument type'); return 0
                        if not getattr(o, 'text', None):
                            o.text = self.S.region(len(o.val) + 1, None, True, 'the text of a str')
                            for q, c_ in enumerate(o.val + chr(0)): self.S.M[o.text + q] = ord(c_)
                        v, w = o.text, 8
                    elif ch == 'p': v, w = int(bool(o.val)), 4
                    else: raise Stuck('PyArg_ParseTuple %r' % f)
                    self.S.st(dst, v, w, 'PyArg_ParseTuple')
            k += 1
        return 1
    def c_PyObject_GetAttrString(self, o, s):
        v = self.obj_of(o, 'PyObject_GetAttrString'); n = self.text(s)
        if self.memerr('PyObject_GetAttrString'): return 0
        a = getattr(v, 'attrs', {})
        if n in a: self.rc(a[n], 1); return a[n]
        return self.raise_('AttributeError', n)
    # ---------------------------------------------------------------- NumPy API
    TYPESLOT = {2: 'ndarray'}
    def slot(self, off, w, loc):
        n = npapi.slots().get(off)
        if off == 16: return self.type('ndarray')
        if n is None: return 'slot:%d' % off
        if n.endswith('_Type'): return self.type(n)
        return 'np:' + n
    def api(self, p, a):
        if p.startswith('f:'):
            t, off = p[2:].split(':'); g = {176: self.f_setitem, 192: self.f_copyswap}.get(int(off))
            if g is None: raise Stuck('function %s of an element type' % off)
            return g(*a)
        if not p.startswith('np:'): raise Stuck('call through %s' % p)
        n = p[3:]
        if n in self.handlers: return self.handlers[n](*a)
        f = getattr(self, 'n_' + n, None)
        if f is None: raise Stuck('NumPy API %s is not modelled' % n)
        return f(*a)
    def f_setitem(self, v, p, arr):
        self.obj_of(v, 'the setitem of a type'); o = self.obj_of(arr, 'the setitem of a type')
        if self.may_fail('PyArray_SETITEM'): self.raise_('TypeError', 'cannot convert'); return -1
        if o.t == 17:
            old = self.S.M.get(p, 0); self.S.M[p] = v; self.rc(v, 1)
            if old: self.rc(old, -1)
        else: self.S.M[p] = 1
        return 0
    def f_copyswap(self, dst, src, swap, arr):
        o = self.obj_of(arr, 'the copyswap of a type')
        if src: self.S.M[dst] = self.S.M.get(src, 0)
        return 0
    def c_PyFloat_AsDouble(self, o):
        v = self.obj_of(o, 'PyFloat_AsDouble')
        if v.kind not in ('float', 'int', 'bool') and not (v.kind == 'scalar'): self.raise_('TypeError'); return -1.0
        return float(v.val)
    def c_Py_BuildValue(self, fmt, *a):
        f = self.text(fmt)
        if not (f[:1] == '(' and f[-1:] == ')' and set(f[1:-1]) <= set('ON')) : raise Stuck('Py_BuildValue %r' % f)
        bad = None
        for ch, x in zip(f[1:-1], a):
            if not x: bad = True
            elif ch == 'O': self.obj_of(x, 'Py_BuildValue')
        fail = self.memerr('Py_BuildValue')
        if bad or fail:
            # what is passed with N is dropped, NULL keeps the exception that is pending
            for ch, x in zip(f[1:-1], a):
                if ch == 'N' and x: self.rc(x, -1)
            if self.err is None: self.raise_('SystemError', 'NULL object passed to Py_BuildValue')
            return 0
        for ch, x in zip(f[1:-1], a):
            if ch == 'O': self.rc(x, 1)
        return self.tuple(list(a))
    def n_PyArray_DescrFromScalar(self, o):
        v = self.obj_of(o, 'PyArray_DescrFromScalar')
        if self.memerr('PyArray_DescrFromScalar'): return 0
        return self.descr(getattr(v, 'sct', 17))
    def n_PyArray_CastScalarToCtype(self, o, p, descr):
        v = self.obj_of(o, 'PyArray_CastScalarToCtype'); self.obj_of(descr, 'PyArray_CastScalarToCtype')
        if self.may_fail('PyArray_CastScalarToCtype'): self.raise_('ValueError', 'cannot cast'); return -1
        self.S.st(p, int(v.val), 8, 'PyArray_CastScalarToCtype'); return 0
    def n_PyArray_ScalarAsCtype(self, o, p):
        v = self.obj_of(o, 'PyArray_ScalarAsCtype'); self.S.st(p, int(v.val), 8, 'PyArray_ScalarAsCtype'); return 0
    def n_PyArray_CompareLists(self, a, b, n):
        for k in range(n):
            if self.S.ld(a + 8 * k, 8, 'PyArray_CompareLists') != self.S.ld(b + 8 * k, 8, 'PyArray_CompareLists'): return 0
        return 1
    def n_PyArray_FromArray(self, o, descr, flags):
        v = self.obj_of(o, 'PyArray_FromArray')
        if descr == 0: raise Stuck('PyArray_FromArray without a type')
        if self.memerr('PyArray_FromArray'): self.rc(descr, -1); return 0
        if self.obj[descr].val != v.t: raise Stuck('PyArray_FromArray with a conversion')
        if self.S.M[descr + 26] == self.S.M[self.S.M[o + 56] + 26] and not flags: self.rc(descr, -1); self.rc(o, 1); return o
        b = self.array(v.t, v.dims, None, v.w, descr=descr); self.copy(v, self.obj[b])
        return b
    def n_PyArray_INCREF(self, a):
        o = self.obj_of(a, 'PyArray_INCREF')
        if o.t == 17:
            for p in self.elements(o):
                x = self.S.M.get(p, 0)
                if x: self.rc(x, 1)
        return 0
    def n_PyArray_DescrFromType(self, t):
        return self.descr(t) if 0 <= t < 24 else self.raise_('ValueError', 'no such type')     # the built-in types are always there
    n_PyArray_DescrNewFromType = n_PyArray_DescrFromType
    def n_PyArray_DescrFromObject(self, o, m):
        v = self.obj_of(o, 'PyArray_DescrFromObject')
        if self.memerr('PyArray_DescrFromObject'): return 0
        d = self.S.M[o + 56]; return self.descr(v.t, v.w, chr(self.S.M[d + 26]))
    def n_PyArray_New(self, subtype, nd, dims, t, strides, data, itemsize, flags, obj):
        if self.memerr('PyArray_New'): return 0
        ds = [self.S.ld(dims + 8 * k, 8, 'PyArray_New') for k in range(nd)]
        if any(x < 0 for x in ds): return self.raise_('ValueError', 'negative dimensions')
        st = [self.S.ld(strides + 8 * k, 8, 'PyArray_New') for k in range(nd)] if strides else None
        if st is None and flags & 2: st = []; s = itemsize or ITEM[t]; st = [s * self.prod(ds[:k]) for k in range(nd)]
        return self.array(t, ds, st, itemsize if t in (18, 19, 20) else None, data=data or None)
    def prod(self, l):
        n = 1
        for x in l: n *= x
        return n
    def n_PyArray_NewFromDescr(self, subtype, descr, nd, dims, strides, data, flags, obj):
        self.obj_of(descr, 'PyArray_NewFromDescr')
        if self.memerr('PyArray_NewFromDescr'): self.rc(descr, -1); return 0
        ds = [self.S.ld(dims + 8 * k, 8, 'PyArray_NewFromDescr') for k in range(nd)]
        st = [self.S.ld(strides + 8 * k, 8, 'PyArray_NewFromDescr') for k in range(nd)] if strides else None
        return self.array(self.obj[descr].val, ds, st, self.S.M[descr + 32], data=data or None, descr=descr)
    def n_PyArray_NewLikeArray(self, proto, order, descr, subok):
        o = self.obj_of(proto, 'PyArray_NewLikeArray')
        if self.memerr('PyArray_NewLikeArray'):
            if descr: self.rc(descr, -1)
            return 0
        if not descr: descr = self.S.M[proto + 56]; self.rc(descr, 1)
        w = self.S.M[descr + 32] or o.w
        idx = sorted(range(len(o.dims)), key=lambda k: (-abs(o.strides[k]), k)) if order == 2 else range(len(o.dims))
        st = [0] * len(o.dims); s = w
        for k in reversed(list(idx)): st[k] = s; s *= o.dims[k]
        return self.array(self.obj[descr].val, o.dims, st, w, descr=descr)
    def n_PyArray_FromAny(self, o, descr, mn, mx, flags, ctx):
        v = self.obj_of(o, 'PyArray_FromAny')
        if self.memerr('PyArray_FromAny'):
            if descr: self.rc(descr, -1)
            return 0
        if v.kind != 'ndarray': raise Stuck('PyArray_FromAny of a %s' % v.kind)
        if descr: raise Stuck('PyArray_FromAny with a type')
        d = self.S.M[o + 56]; self.rc(d, 1)
        idx = sorted(range(len(v.dims)), key=lambda k: (-abs(v.strides[k]), k))
        st = [0] * len(v.dims); s = v.w
        for k in reversed(idx): st[k] = s; s *= v.dims[k]
        b = self.array(v.t, v.dims, st, v.w, descr=d)
        n = self.obj[b]; self.copy(v, n)
        return b
    def elements(self, v):
        """addresses of the items of an array in C order of its indexes"""
        out = [v.data]
        for d, s in zip(v.dims, v.strides): out = [a + k * s for a in out for k in range(d)]
        return out
    def copy(self, v, n):
        S = self.S
        u = S.R[v.data >> 40].unit or v.w
        S.R[n.data >> 40].unit = S.R[v.data >> 40].unit
        for a, b in zip(self.elements(v), self.elements(n)):
            for o in range(0, v.w, u):
                x = S.M.get(a + o)
                if x is not None: S.M[b + o] = x
