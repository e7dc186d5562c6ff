"""Effects of the code that runs without the interpreter lock (C16)."""
import os, sys, re, collections
import prog, report, wiring, dispatch
from dispatch import base
PYX = re.compile(r'^(Py|_Py)[A-Z_]')
APIT = re.compile(r'Py(UFunc|Array|DateTime)\w*API|sharedata_ARRAY_API|ARRAY_API')
SIGS = (('ptr', 'i32', 'i64'), ('ptr', 'i32', 'i64', 'i64'))

def gwalk(v):
    if isinstance(v, list):
        if v and v[0] == 'g': yield v[1]
        else:
            for x in v[1:]: yield from gwalk(x)
def refs(f):
    r = getattr(f, '_refs', None)
    if r is None:
        r = []
        for i in f.ins():
            c = i.d.get('callee')
            called = list(gwalk(c)) if isinstance(c, list) else []
            for g in called: r.append((i, g, True))
            for a in i.ops:
                for g in gwalk(a): r.append((i, g, False))
            if i.o == 'phi':
                for x, b in i['in']:
                    for g in gwalk(x): r.append((i, g, False))
        f._refs = r
    return r

class G:
    """whole-program call graph with address-taken edges"""
    def __init__(self, P):
        self.P = P; self.defs = collections.defaultdict(dict)
        for u in P.units:
            for n, f in P.raw(u).functions.items(): self.defs[n][u] = f
    def look(self, u, n):
        d = self.defs.get(n)
        if not d: return None
        if u in d: return u, d[u]
        return next(((v, f) for v, f in d.items() if not f.internal), None)
    def fnsof(self, u, n, seen=None):
        """functions denoted by symbol n: itself, or everything a table of ours contains"""
        x = self.look(u, n)
        if x: return [x]
        m = self.P.raw(u); g = m.globals.get(n); seen = seen or set()
        if g is None or n in seen or not g.get('init'): return []
        seen.add(n)
        return [y for k in gwalk(['x', flat(g['init'])]) for y in self.fnsof(u, k, seen)]
    def reach(self, roots):
        via = dict(roots); todo = list(roots)
        while todo:
            k = todo.pop(); u, n = k; f = self.defs[n][u]
            for i, g, called in refs(f):
                for v, h in self.fnsof(u, g):
                    if (v, h.name) not in via: via[(v, h.name)] = k; todo.append((v, h.name))
        return via
def flat(x):
    return ['x'] + [flat(y) if isinstance(y, list) and not (y and y[0] == 'g') else y for y in x if isinstance(y, list)] if isinstance(x, list) and not (x and x[0] == 'g') else x

def rootsof(P, G_, ck):
    w = wiring.recover(P); roots = {}
    def add(u, n, why):
        x = G_.look(u, n)
        if x: roots.setdefault((x[0], x[1].name), why)
    for h in w['ufuncs']:
        if h.stub[0] == 'fn': add(h.stub[1], h.stub[2], 'registered loop')
    for h in w['dtypefns']: add(h.fn[1], h.fn[2], 'registered type function')
    for h in w['ufuncs'] + w['dtypefns']: ck.seen('registrations')
    lib = {os.path.basename(x) for x in prog.UNITS if x.startswith('atop/')}
    for u in P.units:
        for n, f in P.raw(u).functions.items():
            for i, g, called in refs(f):
                if called: continue
                for v, h in G_.fnsof(u, g):
                    sig = tuple(a[0] for a in h.args)
                    if sig in SIGS and h.ret == 'i64': add(v, h.name, 'worker callback')
                    elif v in lib: add(v, h.name, 'loop of the library')
                    elif i.o in ('call', 'invoke') and (i.callee or '').startswith('pthread_create'): add(v, h.name, 'thread entry')
    return w, roots

def c16(pid, tier):
    ck = report.Check(pid, tier, 'call-graph reachability and effect analysis over LLVM IR')
    P = prog.Program(); R = ck.rule
    R('python', 'no function that runs without the interpreter lock calls the Python or NumPy API')
    R('shared', 'no function that runs without the interpreter lock writes static data which concurrent calls share, except by atomic operation')
    R('objects', 'no loop is registered for object arrays')
    g = G(P); w, roots = rootsof(P, g, ck)
    via = g.reach(roots)
    import c_dispatch
    lg = c_dispatch.settings(w['cp'], P)[0].get('ledger'); ledoff = (lg[0][2], lg[1]) if lg and len(lg[0]) > 2 else (None, None)
    led = set(P.raw('ledger').functions) if 'ledger' in P.units else set()
    def chain(k):
        out = []
        while isinstance(k, tuple) and len(out) < 8: out.append(g.defs[k[1]][k[0]].short); k = via.get(k)
        return out[::-1]
    # pointers to statics handed to helpers: (unit, fn, argument) -> global
    params = collections.defaultdict(set)
    for _ in range(4):
        ch = False
        for k in via:
            f = g.defs[k[1]][k[0]]; R_ = sroots(f, params.get(k, ()))
            for i in f.calls():
                x = g.look(k[0], i.callee) if i.callee else None
                if x is None: continue
                for a, v in enumerate(i.ops):
                    for gn in R_(v):
                        if (a, gn) not in params[(x[0], x[1].name)]: params[(x[0], x[1].name)].add((a, gn)); ch = True
        if not ch: break
    for k in sorted(via):
        u, n = k; f = g.defs[n][u]; m = P.raw(u)
        ck.seen('functions that run without the interpreter lock')
        bad = None
        for i, gn, called in refs(f):
            if PYX.match(gn): bad = (i, gn); break
            if APIT.search(gn): bad = (i, 'the NumPy API table'); break
        if bad: ck.violation('python', 'python/%s/%s' % (f.name[:80], bad[1]), bad[0].where(), '%s uses %s although it runs without the interpreter lock' % (f.short, bad[1]), chain(k))
        else: ck.ok('python', sample=f.short)
        R_ = sroots(f, params.get(k, ()))
        wr = None
        for i in f.ins() if not (u == 'ledger' and n in led) else ():   # diagnostic recording: see note
            if i.o == 'store': tgt = i.ops[1]
            elif i.o in ('call', 'invoke') and re.match(r'llvm\.mem(cpy|move|set)|mem(cpy|move|set)$|str(n?cpy|n?cat)$|sn?printf$', i.callee or ''): tgt = i.ops[0]
            else: continue
            for gn in R_(tgt):
                if shared(P, g, u, gn) and not exempt(gn, f, i) and not (gn, coff(tgt)) == ledoff: wr = (i, gn); break
            if wr: break
        if wr: ck.violation('shared', 'shared/%s/%s' % (f.name[:80], wr[1]), wr[0].where(), '%s writes %s, which is shared by all threads, without synchronisation' % (f.short, nice(wr[1])), ['two calls in different threads overwrite each other\'s value'] + chain(k))
        else: ck.ok('shared', sample=f.short)
    for h in w['ufuncs']:
        if any(s == 17 for s in h.sig): ck.violation('objects', 'objects/%s' % h.name, h.where, 'a loop for object arrays is registered for %s: it would run Python code without the interpreter lock' % h.name)
        else: ck.ok('objects')
    for h in w['dtypefns']:
        num = dtnum(h)
        if num == 17: ck.violation('objects', 'objects/dtype', h.where, 'a type function is registered for object arrays: it would handle references without the interpreter lock')
        else: ck.ok('objects')
    ck.note('The ledger (diagnostic, off by default) keeps its records in static storage; it is excluded from the rule on shared data.')
    return report.finish(ck, explanation='Everything reachable from loops registered with NumPy, type functions, worker callbacks and thread entries, through calls and function pointers, is scanned.')
def coff(v):
    """constant byte offset of a constant address"""
    if not isinstance(v, list): return None
    if v[0] == 'g': return 0
    if v[0] == 'gep' and isinstance(v[2], int):
        o = coff(v[1]); return None if o is None else o + v[2]
    return None
def dtnum(h):
    o = h.slot.obj
    for _ in range(12):
        if isinstance(o, tuple) and len(o) >= 4 and o[0] == 'call' and isinstance(o[3], (tuple, list)):
            for a in o[3]:
                if isinstance(a, int): return a
            return None
        if isinstance(o, tuple) and len(o) > 1 and isinstance(o[1], tuple): o = o[1]
        else: return None
def nice(gn): return re.sub(r'^_ZL?\d*', '', gn) if gn.startswith('_Z') else gn
def exempt(gn, f, i):
    if gn.startswith(('*g_cMathWorker', '*_ZL13g_cMathWorker')): return True      # the pool's own structures: C14, C15
    if 'std' in gn and gn.startswith(('stdout', 'stderr')): return True
    if gn.startswith('_ZGV'): return True                                          # guard variables of once-initialised statics
    return False
def shared(P, g, u, gn):
    if gn.startswith('*'): gn = gn[1:]
    for v in [u] + list(P.units):
        x = P.raw(v).globals.get(gn)
        if x is not None and x.get('tls'): return False
    return True
def sroots(f, params):
    """value -> statics it may point into ('name') or that hold the pointer ('*name')"""
    memo = {}; pm = collections.defaultdict(set)
    for a, gn in params: pm[a].add(gn)
    slots = {}
    def r(v, d=0):
        if isinstance(v, list): return set(gwalk(v)) if v and v[0] != 'i' else set()
        if not isinstance(v, int): return set()
        if v in memo: return memo[v]
        memo[v] = set()
        if v < len(f.args): memo[v] = set(pm.get(v, ())); return memo[v]
        i = f.byid.get(v); s = set()
        if i is None or d > 60: return s
        if i.o in ('getelementptr', 'bitcast', 'freeze', 'addrspacecast'): s = r(i.ops[0], d + 1)
        elif i.o == 'select': s = r(i.ops[1], d + 1) | r(i.ops[2], d + 1)
        elif i.o == 'phi':
            for x, b in i['in']: s |= r(x, d + 1)
        elif i.o == 'load' and i.t == 'ptr':
            s = {'*' + x.lstrip('*') for x in r(i.ops[0], d + 1)}
        memo[v] = s; return s
    return r
