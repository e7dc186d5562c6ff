"""What a hooked call does: every path from the function registered with NumPy to the loop(s) that finally consume the operands."""
import re, collections
import wiring, names
from fork import *
PSIZE = {0: 1, 1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 8, 8: 8, 9: 8, 10: 8, 11: 4, 12: 8, 13: 16, 23: 2}
CLAIM = ('GetNextWorkBlockCore', 'GetNextWorkBlock'); CLAIMI = ('GetNextWorkIndex',)

def base(f): return re.sub(r'\(.*$', '', f.short).split('::')[-1]
def methods(prog):
    """python-visible method name -> C function, from the module's method table"""
    m = prog.raw('module_init'); out = {}
    for n, g in m.globals.items():
        v = g['init']
        if not v or v[0] != 'v': continue
        for row in v[1]:
            if isinstance(row, list) and row[0] == 'v' and len(row[1]) >= 2 and row[1][0] and row[1][1] and row[1][0][0] == 'g' and row[1][1][0] == 'g':
                s = m.globals.get(row[1][0][1]); fn = row[1][1][1]
                if s and s['init'] and s['init'][0] == 'v':
                    st = bytes(x[1] & 255 for x in s['init'][1] if x[0] == 'i').rstrip(b'\0').decode('latin1')
                    if st and fn in m.functions or fn in m.decls: out[st] = fn
                elif s and s['init'] and s['init'][0] == 's': out[s['init'][1].rstrip('\0')] = fn
    return out

class Consumer:
    """one loop run: fn = kernel object | ('old', idx); args resolved at the moment of the call"""
    def __init__(self, **k): self.__dict__.update(k)
    def __repr__(self): return 'C(%s %s %s)' % (self.kind, self.tgt, {k: show(v) for k, v in self.eff.items()})

class Disp(Forker):
    """eff: p0,p1,p2,n,s0.. of the consumed range"""
    def __init__(self, base_, prog, **k):
        Forker.__init__(self, base_, opaque=self.opq, **k)
        self.prog_ = prog; self.maxrec = 1
    def opq(self, f):
        if f.dem.startswith('CMathWorker::') or '::CMathWorker::' in f.dem:
            b = base(f)
            if b == 'GetWorkItem' or b == 'GetWorkItemCount': return Disp.h_getitem
            if b == 'WorkMain': return Disp.h_workmain
            return None
        if f.dem.startswith('stMATH_WORKER_ITEM::'):
            b = base(f)
            if b in CLAIM: return Disp.h_claim
            if b == 'CompleteWorkBlock': return Disp.h_complete
            return None
        if f.mod.unit == 'ledger': return Disp.h_ledger
        if f.mod.unit not in ('_pnumpy',): return Disp.h_opaque
        if self.purepred(f): return Disp.h_pred
        return None
    def purepred(self, f):
        c = getattr(f, '_pure', None)
        if c is None:
            c = f.ret == 'i1' and not any(i.o in ('store', 'call', 'invoke') and not (i.callee or '').startswith('llvm.dbg') for i in f.ins())
            f._pure = c
        return c
    def h_pred(self, i, f, args):
        if self.exactpred: return NotImplemented
        if all(isinstance(a, int) for a in args): return NotImplemented
        return Unk(('pred', f.name, tuple(repr(a) for a in args)))
    exactpred = False
    def h_opaque(self, i, f, args):
        self.ncall += 1; self.ev('lib', i, f, args)
        return Ptr(('ret', self.ncall, base(f)), 0) if f.ret == 'ptr' else (None if f.ret == 'void' else Unk(('ret', self.ncall, base(f))))
    def h_ledger(self, i, f, args): self.ev('ledger', i, f, args); return None
    def h_getitem(self, i, f, args):
        self.ncall += 1; self.ev('getitem', i, f, args); return Ptr(('item', self.ncall), 0)
    def h_workmain(self, i, f, args):
        item = args[1]
        self.ev('workmain', i, item, args)
        # what the pool runs: the callback recorded in the work item
        cbs = [v[1] for o, v in (self.objd(item.obj).items() if isinstance(item, Ptr) else []) if isinstance(v[1], Ptr) and v[1].obj[0] == 'fn']
        if len(cbs) != 1: self.ev('nocallback', i, len(cbs)); return None
        g = self.fn(cbs[0].obj)
        if g is None: self.ev('nocallback', i, str(cbs[0])); return None
        self.pool = {'claims': 0, 'complete': 0, 'item': item, 'args': args}
        self.ev('cb_enter', i, g)
        self.call(g, [item, Unk(('core',)), Unk(('workindex',))])
        self.ev('cb_leave', i, g, dict(self.pool)); self.pool = None
        return None
    pool = None
    def h_claim(self, i, f, args):
        if self.pool is None: self.ev('claim-outside', i); return Unk(('claim',))
        self.pool['claims'] += 1
        if self.pool['claims'] > 1: return 0
        out = args[-1]
        self.write(out, 8, Unk(('block',)))
        L = Unk(('blen',))
        k, pol = ckey(Unk(('icmp', 'sgt', L, 0))); self.facts[k] = pol
        k, pol = ckey(Unk(('icmp', 'eq', L, 0))); self.facts[k] = not pol
        self.ev('claim', i, f, args); return L
    def h_complete(self, i, f, args):
        if self.pool is not None: self.pool['complete'] += 1
        self.ev('complete', i); return None
    def onrecurse(self, i, f, args):
        n = sum(1 for x in self.stack if x[0] is f)
        if n <= self.maxrec: return self.call(f, args)
        raise PathEnd('recursion')
    def onicall(self, i, tgt, args):
        c = None
        if isinstance(tgt, Ptr) and tgt.obj[0] == 'old': c = self.oldcall(i, tgt, args)
        elif isinstance(tgt, Ptr) and tgt.obj[0] == 'fn': c = self.kcall(i, tgt, args)
        elif tgt == 0: c = Consumer(kind='null', tgt=0, eff={}, ins=i)
        if c is not None:
            c.pooled = self.pool is not None; c.pos = len(self.events); self.ev('consume', i, c)
        return NotImplemented
    def oldcall(self, i, tgt, args):
        ar = self.arity
        a, d, s, inner = (list(args) + [None] * 4)[:4]
        eff = {}
        for k in range(ar + 1):
            eff['p%d' % k] = self.read(self.padd(a, 8 * k), 8); eff['s%d' % k] = self.read(self.padd(s, 8 * k), 8)
        eff['n'] = self.read(d, 8) if d is not None else None
        eff['inner'] = inner
        return Consumer(kind='old', tgt=tgt.obj, eff=eff, ins=i)
    def padd(self, p, k):
        if isinstance(p, Ptr) and isinstance(p.off, int): return Ptr(p.obj, p.off + k)
        if isinstance(p, Ptr): return Ptr(p.obj, ('sym', p.off, k))
        return Unk(('gep', p, k))
    def kcall(self, i, tgt, args):
        f = self.fn(tgt.obj)
        t = [x[0] for x in f.args]; p = sum(1 for x in t if x == 'ptr'); n = len(t) - p
        r = {(3, 4): 'bin', (2, 3): 'un', (3, 2): 'red'}.get((p, n), 'fn')
        eff = {}
        if r == 'bin': eff = dict(zip(('p0', 'p1', 'p2', 'n', 's0', 's1', 's2'), args))
        elif r == 'un': eff = dict(zip(('p0', 'p1', 'n', 's0', 's1'), args))
        elif r == 'red': eff = dict(zip(('in', 'out', 'start', 'n', 'stride'), args))
        else: eff = {'a%d' % k: a for k, a in enumerate(args)}
        return Consumer(kind=r, tgt=tgt.obj, eff=eff, ins=i)
