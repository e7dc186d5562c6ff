"""Abstract interpreter for Python syntax trees. Values are native constants and containers, model objects of a check (class M) and opaque terms.
Unknown truths and unknown outcomes of calls are decided by enumeration: runs() follows every combination of decisions."""
import ast, builtins
class NoVal(Exception): pass
class Exc(Exception):
    """an exception of the interpreted program"""
    def __init__(self, kind, val=None, node=None): Exception.__init__(self, kind); self.kind = kind; self.val = val; self.node = node
class _Ret(Exception):
    def __init__(self, v): self.v = v
class _Brk(Exception): pass
class _Cont(Exception): pass
class M:
    """an object of the model: overrides what it knows"""
    def p_attr(self, I, n): return T('attr', self, n)
    def p_call(self, I, a, k, node): return I.opaque(self, a, k, node)
    def p_item(self, I, x): return T('item', self, x)
    def p_store(self, I, x, v, node): I.ev('setitem', node, self, x, v)
    def p_setattr(self, I, n, v, node): I.ev('setattr', node, self, n, v)
    def p_iter(self, I): raise NoVal('iteration over %s' % (self,))
    def p_len(self, I): return T('len', self)
    def p_truth(self, I): return I.choose(('true', self))
    def p_bin(self, I, op, o, swapped): return T(op, o, self) if swapped else T(op, self, o)
class T(M):
    def __init__(self, *a): self.a = a
    def __repr__(self): return '%s(%s)' % (self.a[0], ', '.join(map(str, self.a[1:])))
    def key(self): return tuple(x.key() if isinstance(x, T) else repr(x) for x in self.a)
    def __eq__(self, o): return isinstance(o, T) and self.key() == o.key()
    def __hash__(self): return hash(self.key())
class G(M):
    """something outside the interpreted program, by dotted name"""
    def __init__(self, path): self.path = path
    def __repr__(self): return self.path
    def __eq__(self, o): return isinstance(o, G) and o.path == self.path
    def __hash__(self): return hash(self.path)
    def p_attr(self, I, n):
        v = I.resolve(self.path + '.' + n)
        return G(self.path + '.' + n) if v is None else v
    def p_call(self, I, a, k, node):
        h = I.handlers.get(self.path)
        if h is not None: return h(I, a, k, node)
        return I.opaque(self, a, k, node)
class Fun(M):
    def __init__(self, node, scope, mod): self.node = node; self.scope = scope; self.mod = mod; self.name = getattr(node, 'name', '<lambda>'); self.defaults = None; self.kwdef = None
    def __repr__(self): return 'function ' + self.name
    def p_call(self, I, a, k, node): return I.callfun(self, a, k)
    def p_attr(self, I, n):
        if n == '__name__': return self.name
        return T('attr', self, n)
class Scope:
    def __init__(self, up=None): self.d = {}; self.up = up; self.glob = set(); self.nonl = set()
PURE = {n: getattr(builtins, n) for n in 'len range enumerate zip list tuple dict set str int float bool abs min max sum sorted reversed any all isinstance hasattr getattr map filter repr iter next type frozenset divmod ord chr round callable'.split()}
EXCS = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
def excsub(k, c):
    a, b = getattr(builtins, k, None), getattr(builtins, c, None)
    if a is None or b is None: return k == c
    return issubclass(a, b)
BIN = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b, 'FloorDiv': lambda a, b: a // b, 'Div': lambda a, b: a / b, 'Mod': lambda a, b: a % b, 'Pow': lambda a, b: a ** b, 'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b, 'LShift': lambda a, b: a << b, 'RShift': lambda a, b: a >> b}
CMP = {'Lt': lambda a, b: a < b, 'LtE': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'GtE': lambda a, b: a >= b}
class Interp:
    def __init__(self, handlers=None, names=None, opaque=None, maxsteps=200000, resolver=None):
        self.handlers = handlers or {}; self.names = names or {}; self.oq = opaque; self.max = maxsteps; self.resolver = resolver
        self.reset()
    def reset(self, dec=()): self.events = []; self.steps = 0; self.dec = list(dec); self.nd = 0; self.depth = 0; self.made = 0
    def resolve(self, path): return self.names.get(path) if self.resolver is None else (self.names.get(path) if path in self.names else self.resolver(self, path))
    def ev(self, kind, node, *a): self.events.append((kind, node) + a)
    def fresh(self, *a): self.made += 1; return T(*(a + (self.made,)))
    def choose(self, key, opts=(True, False)):
        """a decision the source does not settle; the same question gets the same answer"""
        for d in self.dec[:self.nd]:
            if d[0] == key: return d[1]
        if self.nd == len(self.dec): self.dec.append([key, opts[0], list(opts[1:])])
        d = self.dec[self.nd]
        if d[0] != key: raise NoVal('nondeterministic interpretation: %s then %s' % (d[0], key))
        self.nd += 1; return d[1]
    def runs(self, thunk, limit=500):
        """every run of thunk(): yields (outcome, value, events, decisions); outcome 'ret', 'raise' or 'und'"""
        dec = []
        for _ in range(limit):
            self.reset(dec)
            try: r = ('ret', thunk())
            except Exc as e: r = ('raise', e)
            except (NoVal, RecursionError) as e: r = ('und', str(e) or type(e).__name__)
            yield r + (self.events, [(d[0], d[1]) for d in self.dec[:self.nd]])
            dec = self.dec[:self.nd]
            while dec and not dec[-1][2]: dec.pop()
            if not dec: return
            d = dec[-1]; dec[-1] = [d[0], d[2][0], d[2][1:]]
        yield ('und', 'too many runs', [], [])
    def opaque(self, f, a, k, node):
        if self.oq is not None:
            r = self.oq(self, f, a, k, node)
            if r is not NotImplemented: return r
        self.ev('call', node, f, a, k); return self.fresh('result', f)
    # ---------------------------------------------------------------- modules
    def module(self, path, name):
        t = ast.parse(open(path).read(), path); s = Scope(); s.d['__name__'] = name; s.d['__file__'] = path; s.path = path
        self.block(t.body, s); return s
    def imp(self, name): 
        v = self.resolve(name); return G(name) if v is None else v
    # ---------------------------------------------------------------- statements
    def block(self, body, s):
        for x in body: self.stmt(x, s)
    def stmt(self, x, s):
        self.steps += 1
        if self.steps > self.max: raise NoVal('too many steps')
        n = type(x).__name__
        m = getattr(self, 's_' + n, None)
        if m is None: raise NoVal('statement ' + n)
        return m(x, s)
    def s_Expr(self, x, s): self.ex(x.value, s)
    def s_Pass(self, x, s): pass
    def s_Global(self, x, s): s.glob |= set(x.names)
    def s_Nonlocal(self, x, s): s.nonl |= set(x.names)
    def s_Assign(self, x, s):
        v = self.ex(x.value, s)
        for t in x.targets: self.assign(t, v, s)
    def s_AnnAssign(self, x, s):
        if x.value is not None: self.assign(x.target, self.ex(x.value, s), s)
    def s_AugAssign(self, x, s):
        import copy
        t = copy.copy(x.target); t.ctx = ast.Load()
        a = self.ex(t, s); b = self.ex(x.value, s)
        if isinstance(a, list) and isinstance(x.op, ast.Add): a.extend(self.iter(b)); v = a
        else: v = self.binop(type(x.op).__name__, a, b)
        self.assign(x.target, v, s)
    def s_Delete(self, x, s):
        for t in x.targets:
            if isinstance(t, ast.Name): s.d.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ex(t.value, s); k = self.ex(t.slice, s)
                if isinstance(o, (list, dict)): 
                    try: del o[k]
                    except Exception as e: raise Exc(type(e).__name__)
                else: self.ev('delitem', x, o, k)
            else: raise NoVal('delete')
    def s_Return(self, x, s): raise _Ret(None if x.value is None else self.ex(x.value, s))
    def s_Break(self, x, s): raise _Brk()
    def s_Continue(self, x, s): raise _Cont()
    def s_If(self, x, s): self.block(x.body if self.truth(self.ex(x.test, s)) else x.orelse, s)
    def s_Assert(self, x, s):
        if not self.truth(self.ex(x.test, s)): raise Exc('AssertionError', None, x)
    def s_While(self, x, s):
        while self.truth(self.ex(x.test, s)):
            self.steps += 1
            if self.steps > self.max: raise NoVal('too many steps')
            try: self.block(x.body, s)
            except _Brk: return
            except _Cont: pass
        self.block(x.orelse, s)
    def s_For(self, x, s):
        for v in self.iter(self.ex(x.iter, s)):
            self.assign(x.target, v, s)
            try: self.block(x.body, s)
            except _Brk: return
            except _Cont: pass
        self.block(x.orelse, s)
    def s_With(self, x, s):
        for i in x.items:
            v = self.ex(i.context_expr, s)
            r = self.call(self.attr(v, '__enter__'), [], {}, x) if not isinstance(v, T) else v
            if i.optional_vars is not None: self.assign(i.optional_vars, r, s)
        self.block(x.body, s)
    def s_FunctionDef(self, x, s):
        f = Fun(x, s, self.modof(s)); self.defs(f, x, s)
        v = f
        for d in reversed(x.decorator_list): v = self.call(self.ex(d, s), [v], {}, x)
        self.assign(ast.Name(x.name, ast.Store()), v, s)
    def defs(self, f, x, s):
        f.defaults = [self.ex(d, s) for d in x.args.defaults]; f.kwdef = [None if d is None else (self.ex(d, s),) for d in x.args.kw_defaults]
    def s_ClassDef(self, x, s): s.d[x.name] = T('class', x.name)
    def modof(self, s):
        while s.up is not None: s = s.up
        return s
    def s_Import(self, x, s):
        for a in x.names:
            if a.asname: self.assign(ast.Name(a.asname, ast.Store()), self.imp(a.name), s)
            else: self.imp(a.name); self.assign(ast.Name(a.name.split('.')[0], ast.Store()), self.imp(a.name.split('.')[0]), s)
    def s_ImportFrom(self, x, s):
        pk = self.modof(s).d.get('__package__', '')
        if x.level:
            b = pk.split('.'); b = b[:len(b) - (x.level - 1)] if x.level > 1 else b; m = '.'.join(b + ([x.module] if x.module else []))
        else: m = x.module
        for a in x.names:
            if a.name == '*':
                mod = self.imp(m)
                if not isinstance(mod, Mod): raise NoVal('from %s import *' % m)
                al = mod.scope.d.get('__all__'); 
                for k in (al if isinstance(al, (list, tuple)) else [k for k in mod.scope.d if not k.startswith('_')]): s.d[k] = mod.scope.d[k]
                continue
            self.assign(ast.Name(a.asname or a.name, ast.Store()), self.attr(self.imp(m), a.name), s)
    def s_Raise(self, x, s):
        if x.exc is None: raise getattr(self, 'cur', None) or Exc('RuntimeError')
        v = self.ex(x.exc, s)
        if isinstance(v, T) and v.a[0] == 'exc': raise Exc(v.a[1], v, x)
        if isinstance(v, G): raise Exc(v.path.split('.')[-1], v, x)
        raise Exc('Exception', v, x)
    def s_Try(self, x, s):
        try:
            try: self.block(x.body, s)
            except Exc as e:
                for h in x.handlers:
                    if h.type is None: ok = True
                    else:
                        t = self.ex(h.type, s); ts = list(t) if isinstance(t, (tuple, list)) else [t]
                        nm = [getattr(y, 'path', str(y)).split('.')[-1] for y in ts]
                        ok = any(self.excmatch(e.kind, n) for n in nm)
                    if ok:
                        if h.name: s.d[h.name] = T('exc', e.kind)
                        old = getattr(self, 'cur', None); self.cur = e
                        try: self.block(h.body, s)
                        finally: self.cur = old
                        break
                else: raise
            else: self.block(x.orelse, s)
        finally:
            self.block(x.finalbody, s)
    def excmatch(self, k, n):
        if k == '*': return True if n in ('Exception', 'BaseException') else self.choose(('exc', n))
        return excsub(k, n)
    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            if t.id in s.glob: self.modof(s).d[t.id] = v
            elif t.id in s.nonl:
                u = s.up
                while u is not None and t.id not in u.d: u = u.up
                (u or s).d[t.id] = v
            else: s.d[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iter(v)); st = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                k = st[0]; r = len(t.elts) - k - 1; vs = vs[:k] + [vs[k:len(vs) - r]] + vs[len(vs) - r:]
            if len(vs) != len(t.elts): raise Exc('ValueError')
            for a, b in zip(t.elts, vs): self.assign(a.value if isinstance(a, ast.Starred) else a, b, s)
        elif isinstance(t, ast.Subscript):
            o = self.ex(t.value, s); k = self.ex(t.slice, s)
            if isinstance(o, (list, dict)):
                try: o[k] = v
                except (IndexError, KeyError, TypeError) as e: raise Exc(type(e).__name__)
            elif isinstance(o, M): o.p_store(self, k, v, t)
            else: raise NoVal('store into %r' % (o,))
        elif isinstance(t, ast.Attribute):
            o = self.ex(t.value, s)
            if isinstance(o, M): o.p_setattr(self, t.attr, v, t)
            else: raise NoVal('attribute store')
        elif isinstance(t, ast.Starred): self.assign(t.value, v, s)
        else: raise NoVal('assignment')
    # ---------------------------------------------------------------- expressions
    def ex(self, x, s):
        self.steps += 1
        if self.steps > self.max: raise NoVal('too many steps')
        n = type(x).__name__; m = getattr(self, 'e_' + n, None)
        if m is None: raise NoVal('expression ' + n)
        return m(x, s)
    def e_Constant(self, x, s): return x.value
    def e_Name(self, x, s):
        u = s
        while u is not None:
            if x.id in u.d: return u.d[x.id]
            u = u.up
        if x.id in PURE or x.id in EXCS or x.id in dir(builtins): 
            v = self.resolve('builtins.' + x.id); return G('builtins.' + x.id) if v is None else v
        raise Exc('NameError', x.id, x)
    def e_NamedExpr(self, x, s): v = self.ex(x.value, s); self.assign(x.target, v, s); return v
    def e_Tuple(self, x, s): return tuple(self.elts(x.elts, s))
    def e_List(self, x, s): return self.elts(x.elts, s)
    def e_Set(self, x, s): return set(self.elts(x.elts, s))
    def elts(self, l, s):
        r = []
        for e in l:
            if isinstance(e, ast.Starred): r += list(self.iter(self.ex(e.value, s)))
            else: r.append(self.ex(e, s))
        return r
    def e_Dict(self, x, s):
        d = {}
        for k, v in zip(x.keys, x.values):
            if k is None: 
                o = self.ex(v, s)
                if not isinstance(o, dict): raise NoVal('dict unpacking')
                d.update(o)
            else: a = self.ex(k, s); d[a] = self.ex(v, s)
        return d
    def e_BoolOp(self, x, s):
        for v in x.values:
            r = self.ex(v, s); t = None
            if v is x.values[-1]: return r
            t = self.truth(r)
            if t != isinstance(x.op, ast.And): return r
    def e_UnaryOp(self, x, s):
        v = self.ex(x.operand, s)
        if isinstance(x.op, ast.Not): return not self.truth(v)
        if isinstance(v, M): return T(type(x.op).__name__, v)
        return -v if isinstance(x.op, ast.USub) else +v if isinstance(x.op, ast.UAdd) else ~v
    def binop(self, o, a, b):
        if isinstance(a, M): return a.p_bin(self, o, b, False)
        if isinstance(b, M): 
            if isinstance(a, str) and o == 'Mod': return T('str')
            return b.p_bin(self, o, a, True)
        if o not in BIN: raise NoVal(o)
        try: return BIN[o](a, b)
        except Exception as e: raise Exc(type(e).__name__)
    def e_BinOp(self, x, s): return self.binop(type(x.op).__name__, self.ex(x.left, s), self.ex(x.right, s))
    def e_IfExp(self, x, s): return self.ex(x.body if self.truth(self.ex(x.test, s)) else x.orelse, s)
    def e_Lambda(self, x, s): f = Fun(x, s, self.modof(s)); self.defs(f, x, s); return f
    def e_JoinedStr(self, x, s):
        r = ''
        for v in x.values:
            if isinstance(v, ast.Constant): r += v.value
            else:
                w = self.ex(v.value, s); r += str(w)
        return r
    def e_FormattedValue(self, x, s): return str(self.ex(x.value, s))
    def comp(self, gens, s, body):
        u = Scope(s)
        def rec(k):
            if k == len(gens): yield body(u); return
            g = gens[k]
            for v in self.iter(self.ex(g.iter, u)):
                self.assign(g.target, v, u)
                if all(self.truth(self.ex(c, u)) for c in g.ifs): yield from rec(k + 1)
        return rec(0)
    def e_ListComp(self, x, s): return list(self.comp(x.generators, s, lambda u: self.ex(x.elt, u)))
    def e_SetComp(self, x, s): return set(self.comp(x.generators, s, lambda u: self.ex(x.elt, u)))
    def e_GeneratorExp(self, x, s): return self.comp(x.generators, s, lambda u: self.ex(x.elt, u))
    def e_DictComp(self, x, s): return dict(self.comp(x.generators, s, lambda u: (self.ex(x.key, u), self.ex(x.value, u))))
    def e_Slice(self, x, s):
        g = lambda y: None if y is None else self.ex(y, s)
        a, b, c = g(x.lower), g(x.upper), g(x.step)
        return slice(a, b, c)
    def e_Starred(self, x, s): raise NoVal('starred')
    def e_Attribute(self, x, s): return self.attr(self.ex(x.value, s), x.attr)
    def attr(self, o, n):
        if isinstance(o, M): return o.p_attr(self, n)
        if isinstance(o, (list, dict, str, tuple, set, bytes, int, float)): return Bound(o, n)
        if o is None: raise Exc('AttributeError')
        raise NoVal('attribute %s of %r' % (n, o))
    def e_Subscript(self, x, s):
        o = self.ex(x.value, s); k = self.ex(x.slice, s); return self.item(o, k)
    def item(self, o, k):
        if isinstance(o, M): return o.p_item(self, k)
        if isinstance(k, M): raise NoVal('index %s' % k)
        try: return o[k]
        except (IndexError, KeyError, TypeError) as e: raise Exc(type(e).__name__)
    def e_Call(self, x, s):
        f = self.ex(x.func, s); a = self.elts(x.args, s); k = {}
        for w in x.keywords:
            v = self.ex(w.value, s)
            if w.arg is None:
                if not isinstance(v, dict): raise NoVal('keywords %r' % (v,))
                k.update(v)
            else: k[w.arg] = v
        return self.call(f, a, k, x)
    def call(self, f, a, k, node):
        if isinstance(f, Bound): return f.call(self, a, k)
        if isinstance(f, G) and f.path.startswith('builtins.') and f.path not in self.handlers: return self.builtin(f.path[9:], a, k, node)
        if isinstance(f, M): return f.p_call(self, a, k, node)
        raise Exc('TypeError', f, node)
    def e_Compare(self, x, s):
        l = self.ex(x.left, s)
        for op, c in zip(x.ops, x.comparators):
            r = self.ex(c, s); v = self.cmp(type(op).__name__, l, r)
            if op is x.ops[-1]: return v
            if not self.truth(v): return False
            l = r
        return True
    def cmp(self, o, a, b):
        if o in ('Is', 'IsNot'):
            r = self.same(a, b)
            return r if o == 'Is' else (not r if isinstance(r, bool) else T('not', r))
        if o in ('Eq', 'NotEq'):
            r = self.eq(a, b); return r if o == 'Eq' else (not r if isinstance(r, bool) else T('not', r))
        if o in ('In', 'NotIn'):
            if isinstance(b, M): r = T('in', a, b)
            elif isinstance(b, str) and isinstance(a, str): r = a in b
            else: r = any(self.truth(self.eq(a, y)) for y in b)
            return r if o == 'In' else (not r if isinstance(r, bool) else T('not', r))
        if isinstance(a, M): return a.p_bin(self, o, b, False)
        if isinstance(b, M): return b.p_bin(self, o, a, True)
        try: return CMP[o](a, b)
        except Exception as e: raise Exc(type(e).__name__)
    def same(self, a, b):
        if a is b: return True
        if a is None and getattr(b, 'notnone', False) or b is None and getattr(a, 'notnone', False): return False
        if isinstance(a, M) and isinstance(b, M):
            if type(a) is type(b) and a == b: return True
            if isinstance(a, T) or isinstance(b, T): return T('is', a, b)
            return False
        if isinstance(a, T) or isinstance(b, T): return T('is', a, b)
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool): return a is b
        return a == b if type(a) is type(b) and isinstance(a, (int, str)) else False
    def eq(self, a, b):
        if isinstance(a, M) or isinstance(b, M):
            if a is b or (type(a) is type(b) and a == b): return True
            for p, q in ((a, b), (b, a)):
                h = getattr(p, 'p_eq', None)
                if h is not None:
                    r = h(self, q)
                    if r is not NotImplemented: return r
            if isinstance(a, T) or isinstance(b, T): return T('eq', a, b)
            return False
        return a == b
    def truth(self, v):
        if isinstance(v, T):
            if v.a[0] == 'not': return not self.truth(v.a[1])
            return v.p_truth(self)
        if isinstance(v, M): return True if isinstance(v, (G, Fun)) else v.p_truth(self)
        return bool(v)
    def iter(self, v):
        if isinstance(v, M): return v.p_iter(self)
        if v is None or isinstance(v, (int, float)): raise Exc('TypeError')
        return iter(v)
    def builtin(self, n, a, k, node):
        if n == 'len':
            if isinstance(a[0], M): return a[0].p_len(self)
            try: return len(a[0])
            except TypeError: raise Exc('TypeError')
        if n == 'any': return any(self.truth(v) for v in self.iter(a[0]))
        if n == 'all': return all(self.truth(v) for v in self.iter(a[0]))
        if n == 'getattr':
            if not isinstance(a[1], str): raise NoVal('getattr')
            try: return self.attr(a[0], a[1])
            except Exc as e:
                if e.kind == 'AttributeError' and len(a) > 2: return a[2]
                raise
        if n == 'hasattr':
            try: self.attr(a[0], a[1]); return True
            except Exc: return False
        if n == 'isinstance':
            h = getattr(a[0], 'p_isinstance', None)
            if h is not None: return h(self, a[1])
            if isinstance(a[0], M): return T('isinstance', a[0], a[1])
            ts = a[1] if isinstance(a[1], tuple) else (a[1],); r = False
            for t in ts:
                if not isinstance(t, G) or not t.path.startswith('builtins.'): continue
                r = r or isinstance(a[0], getattr(builtins, t.path[9:]))
            return r
        if n in EXCS: return T('exc', n)
        if n == 'print': return None
        if n == 'callable': return isinstance(a[0], (G, Fun, Bound))
        if n == 'map': 
            ls = [list(self.iter(y)) for y in a[1:]]; return [self.call(a[0], list(t), {}, node) for t in zip(*ls)]
        if n == 'filter': return [y for y in self.iter(a[1]) if self.truth(y if a[0] is None else self.call(a[0], [y], {}, node))]
        if n == 'next' and not isinstance(a[0], M):
            try: return next(a[0])
            except StopIteration:
                if len(a) > 1: return a[1]
                raise Exc('StopIteration')
        if n in ('list', 'tuple', 'set', 'frozenset', 'enumerate', 'zip', 'sorted', 'reversed', 'dict', 'iter'):
            a = [list(self.iter(y)) if isinstance(y, M) else y for y in a]
            if n == 'sorted' and 'key' in k: raise NoVal('sorted with a key')
            if n in ('zip',): return iter(list(zip(*a)))
            return getattr(builtins, n)(*a, **k)
        if n == 'type' and isinstance(a[0], M): return T('type', a[0])
        if n in ('str', 'repr'): return str(a[0]) if a else ''
        if any(isinstance(y, M) for y in a): return T(n, *a)
        if n in PURE:
            try: return PURE[n](*a, **k)
            except Exception as e: raise Exc(type(e).__name__)
        h = self.handlers.get('builtins.' + n)
        if h: return h(self, a, k, node)
        return self.opaque(G('builtins.' + n), a, k, node)
    def callfun(self, f, a, k):
        self.depth += 1
        if self.depth > 40: self.depth = 0; raise NoVal('recursion')
        try:
            s = Scope(f.scope); ar = f.node.args; ps = [p.arg for p in ar.posonlyargs + ar.args]; k = dict(k)
            for i, p in enumerate(ps):
                if i < len(a): 
                    if p in k: raise Exc('TypeError')
                    s.d[p] = a[i]
                elif p in k: s.d[p] = k.pop(p)
                else:
                    j = i - (len(ps) - len(f.defaults))
                    if j < 0: raise Exc('TypeError')
                    s.d[p] = f.defaults[j]
            if ar.vararg: s.d[ar.vararg.arg] = tuple(a[len(ps):])
            elif len(a) > len(ps): raise Exc('TypeError')
            for p, d in zip(ar.kwonlyargs, f.kwdef):
                if p.arg in k: s.d[p.arg] = k.pop(p.arg)
                elif d is None: raise Exc('TypeError')
                else: s.d[p.arg] = d[0]
            if ar.kwarg: s.d[ar.kwarg.arg] = k
            elif k: raise Exc('TypeError')
            if isinstance(f.node, ast.Lambda): return self.ex(f.node.body, s)
            if any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(f.node)): raise NoVal('generator function')
            try: self.block(f.node.body, s)
            except _Ret as r: return r.v
            return None
        finally: self.depth -= 1
class Bound(M):
    """method of a native constant or container"""
    def __init__(self, o, n): self.o = o; self.n = n
    def call(self, I, a, k):
        if not hasattr(self.o, self.n): raise Exc('AttributeError')
        if self.n in ('append', 'extend', 'insert', 'pop', 'update', 'setdefault', 'get', 'items', 'keys', 'values', 'copy', 'add', 'clear', 'remove', 'index', 'count', 'reverse') or not any(isinstance(y, M) for y in a):
            a = [list(I.iter(y)) if isinstance(y, M) and self.n in ('extend', 'update') else y for y in a]
            if self.n == 'sort': raise NoVal('sort')
            try: return getattr(self.o, self.n)(*a, **k)
            except (TypeError, ValueError, KeyError, IndexError, AttributeError) as e: raise Exc(type(e).__name__)
        return T('call', self.n, *a)
class Mod(M):
    def __init__(self, name, scope): self.name = name; self.scope = scope
    def __repr__(self): return self.name
    def p_attr(self, I, n):
        if n in self.scope.d: return self.scope.d[n]
        v = I.resolve(self.name + '.' + n)
        if v is None: raise Exc('AttributeError', n)
        return v
def where(path, node):
    l = getattr(node, 'lineno', 0); f = getattr(node, 'file', path)
    return '%s:%d' % (f, l) if l else f
