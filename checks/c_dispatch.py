"""Dispatch of hooked calls: which loop consumes the operands, on which thread(s), with which arguments (C07 order, C08, C10, C11, C12, C13)."""
import os, sys, collections, multiprocessing as mp, time
import prog, wiring, kernels, names, specs, report
from fork import *
import dispatch
from dispatch import Disp, PSIZE
TECH = 'interprocedural constant propagation over LLVM IR with path enumeration from abstract call states'
_G = {}
class F:                # finding
    def __init__(self, prop, rule, key, where, msg, wit=None): self.prop = prop; self.rule = rule; self.key = key; self.where = where; self.msg = msg; self.wit = wit
    def t(self): return (self.prop, self.rule, self.key, self.where, self.msg, self.wit)

ASSOC = {'add', 'multiply', 'minimum', 'maximum', 'logical_and', 'logical_or', 'logical_xor', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'fmin', 'fmax'}
IDEMP = {'minimum', 'maximum', 'logical_and', 'logical_or', 'bitwise_and', 'bitwise_or', 'fmin', 'fmax'}
def identity(name, dt):
    """little-endian bytes of the neutral element"""
    import struct
    n = PSIZE[dt]; one = {11: struct.pack('<f', 1), 12: struct.pack('<d', 1), 23: struct.pack('<e', 1)}.get(dt, (1).to_bytes(n, 'little'))
    if name in ('add', 'logical_or', 'bitwise_or', 'bitwise_xor', 'logical_xor'): return bytes(n)
    if name in ('multiply', 'logical_and'): return one
    if name == 'bitwise_and': return b'\xff' * n
    return None

def field_of(cp0, P, enable, disable, meth):
    """global (object, offset) a toggle writes, with the two values"""
    res = []
    for mname in (enable, disable):
        fn = meth.get(mname)
        if fn is None or fn not in cp0.fdef: return None
        st = []
        class T(Forker):
            def onstore(self, i, p, v):
                if isinstance(p, Ptr) and p.obj[0] == 'g' and p.obj[1] != '?': st.append((p.obj, p.off, v))
        fk = T(cp0)
        ps = list(fk.paths(fn, [Ptr(('self',)), Ptr(('args',))]))
        res.append(list(dict.fromkeys(st)))
    return res

def settings(cp, P):
    meth = dispatch.methods(P); out = {}
    for n in ('atop', 'ledger', 'recycler'):
        r = field_of(cp, P, n + '_enable', n + '_disable', meth)
        if r and len(r[0]) == 1 and len(r[1]) == 1 and r[0][0][:2] == r[1][0][:2] and isinstance(r[0][0][2], int) and r[0][0][2] and r[1][0][2] == 0: out[n] = (r[0][0][0], r[0][0][1], r[0][0][2])
    return out, meth

NP = 'add'
def states(name, dt, odt, ar):
    """abstract call states: (label, {pk: Ptr, sk: int}, n list, tags)"""
    E = PSIZE[dt]; O = PSIZE[odt]
    A = lambda o, off=0: Ptr(('buf', o), off)
    S = []
    BIG, SMALL = 100000, 5
    if ar == 2:
        S.append(('contiguous operands', [A('x'), A('y'), A('z')], [E, E, O], (BIG, SMALL), ()))
        S.append(('scalar first operand', [A('x'), A('y'), A('z')], [0, E, O], (BIG, SMALL), ()))
        S.append(('scalar second operand', [A('x'), A('y'), A('z')], [E, 0, O], (BIG, SMALL), ()))
        S.append(('strided operands', [A('x'), A('y'), A('z')], [3 * E, 2 * E, 5 * O], (BIG, SMALL), ()))
        S.append(('reversed operand', [A('x', 10 ** 7), A('y'), A('z')], [-E, E, O], (BIG, SMALL), ()))
        if E == O:
            S.append(('in place on the first operand', [A('x'), A('y'), A('x')], [E, E, E], (BIG, SMALL), ()))
            S.append(('in place on the second operand', [A('y'), A('x'), A('x')], [E, E, E], (BIG, SMALL), ()))
            S.append(('reduce', [A('x'), A('y'), A('x')], [0, E, 0], (BIG, SMALL), ('reduce',)))
            S.append(('strided reduce', [A('x'), A('y'), A('x')], [0, 7 * E, 0], (BIG, SMALL), ('reduce',)))
            S.append(('accumulate', [A('x'), A('y'), A('x', E)], [E, E, E], (BIG, SMALL), ('seq', 'nokernel')))
            S.append(('accumulate over the same array', [A('x'), A('x', E), A('x', E)], [E, E, E], (BIG, SMALL), ('seq', 'nokernel')))
            S.append(('output one element after the second operand', [A('y'), A('x'), A('x', E)], [E, E, E], (BIG, SMALL), ('seq', 'nokernel')))
            S.append(('output one element before the first operand', [A('x', E), A('y'), A('x')], [E, E, E], (BIG,), ('seq',)))
            S.append(('output one element before the second operand', [A('y'), A('x', E), A('x')], [E, E, E], (BIG,), ('seq',)))
            S.append(('operand reversed over the output', [A('x', (BIG - 1) * E), A('y'), A('x')], [-E, E, E], (BIG,), ('seq', 'nokernel')))
            S.append(('accumulate over strided elements', [A('x'), A('y'), A('x', 3 * E)], [3 * E, E, 3 * E], (BIG, SMALL), ('seq', 'nokernel')))
            S.append(('scalar operand inside the output', [A('x', 8 * E), A('y'), A('x')], [0, E, E], (BIG,), ('seq', 'nokernel')))
        else:
            S.append(('reduce into a different type', [A('x'), A('y'), A('x')], [0, E, 0], (BIG, SMALL), ('seq', 'nokernel', 'reduce2')))
        S.append(('output not advancing', [A('x'), A('y'), A('z')], [E, E, 0], (BIG, SMALL), ('seq', 'nokernel')))
    else:
        S.append(('contiguous operands', [A('x'), A('z')], [E, O], (BIG, SMALL), ()))
        S.append(('strided operands', [A('x'), A('z')], [3 * E, 5 * O], (BIG, SMALL), ()))
        S.append(('scalar operand', [A('x'), A('z')], [0, O], (BIG, SMALL), ()))
        if E == O:
            S.append(('in place', [A('x'), A('x')], [E, E], (BIG, SMALL), ()))
            S.append(('output one element after the operand', [A('x'), A('x', E)], [E, E], (BIG, SMALL), ('seq', 'nokernel')))
            S.append(('output one element before the operand', [A('x', E), A('x')], [E, E], (BIG,), ('seq',)))
            S.append(('operand reversed over the output', [A('x', (BIG - 1) * E), A('x')], [-E, E], (BIG,), ('seq', 'nokernel')))
        S.append(('output not advancing', [A('x'), A('z')], [E, 0], (BIG, SMALL), ('seq', 'nokernel')))
    return S

def setfield(fk, loc, v): fk.objd(loc[0], True)[loc[1]] = (4, v)

class Analysis:
    def __init__(self, P):
        self.P = P
        self.R, self.E, self.size = kernels.collect(P)
        self.cp = self.R['cp']; self.hooks = self.R['ufuncs']
        self.set, self.meth = settings(self.cp, P)
        self.byidx = {h.idx: h for h in self.hooks}
        # entry functions by (name, numeric representation)
        self.entryfns = collections.defaultdict(set)
        for e in self.E:
            for k, f in e.fns: self.entryfns[f].add((e.name, wiring.NPW[e.dtype]))
    def disp(self, h, init, exact=False):
        d = Disp(self.cp, self.P, init=init); d.arity = names.ARITY.get(h.name, 2); d.exactpred = exact; return d
    def callers(self, h): pass
    def outdt(self, h):
        o = h.sig[2] if names.ARITY.get(h.name, 2) == 2 else h.sig[1]
        return o if isinstance(o, int) and o in PSIZE else h.sig[0]

    # ------------------------------------------------------------------ one hook
    def hook(self, h):
        out = []; ok = collections.Counter(); stats = collections.Counter(); und = []
        ar = names.ARITY.get(h.name); dt = h.sig[0]
        lab = '%s[%s]' % (h.name, wiring.NAMES.get(dt, dt))
        if ar is None: return [], ok, stats, [('C08', 'name', lab, 'no formula known for this function name')]
        where = h.where
        def bad(prop, rule, msg, wit=None, w=None): out.append(F(prop, rule, '%s/%s' % (rule, h.name + '.' + wiring.NAMES.get(dt, str(dt))), w or where, '%s: %s' % (lab, msg), wit))
        # registration: declared types
        sig = [x if isinstance(x, int) else None for x in h.sig[:ar + 1]]
        if sig[0] in PSIZE:
            okt = all(s == sig[0] for s in sig[:ar]) and (sig[ar] == 0 if h.name in names.BOOLOUT else (sig[ar] == sig[0] or (wiring.NPW.get(sig[ar]) == wiring.NPW[sig[0]] and h.name not in names.BOOLOUT)))
            if okt: ok['C08.signature'] += 1
            else: bad('C08', 'signature', 'registered with operand types %s' % [wiring.NAMES.get(s, s) for s in sig])
        if h.stub[0] != 'fn' or self.cp.fn(h.stub) is None:
            bad('C08', 'function', 'the registered function is not a function of this package (%s)' % (h.stub,)); return out, ok, stats, und
        odt = self.outdt(h)
        if dt not in PSIZE: return out, ok, stats, [('C08', 'dtype', lab, 'dtype %s' % dt)]
        if 'atop' not in self.set or 'ledger' not in self.set: return out, ok, stats, [('C10', 'toggles', lab, 'cannot locate the switches')]
        called = set()
        def check_target(c, st, atop):
            """C08: is this consumer an implementation of (name, dtype)?"""
            if c.kind == 'null': bad('C10', 'null', '%s: a loop pointer that is NULL is called' % st, w=c.ins.where()); return
            if c.kind == 'old':
                o = self.byidx.get(c.tgt[1])
                if o is None or o.name != h.name or wiring.NPW[o.sig[0]] != wiring.NPW[dt]: bad('C08', 'fallback', '%s: falls back to the original loop of %s[%s]' % (st, o and o.name, o and wiring.NAMES.get(o.sig[0])), w=c.ins.where())
                else: ok['C08.fallback'] += 1
            else:
                called.add(c.tgt)
                own = self.entryfns.get(c.tgt, set())
                if own and (h.name, wiring.NPW[dt]) not in own: bad('C08', 'kernel', '%s: runs a loop that was selected for %s' % (st, sorted('%s%s' % (a, b) for a, b in own)[:3]), w=c.ins.where())
                else: ok['C08.kernel'] += 1
        # ---------------- symbolic call: every argument unknown
        SYM = {}
        for ledger in (0, 1):
            for atop in (0, 1):
                def init(fk):
                    setfield(fk, self.set['atop'], atop * self.set['atop'][2]); setfield(fk, self.set['ledger'], ledger * self.set['ledger'][2])
                if ledger and not atop: continue
                d = self.disp(h, init)
                args = [Ptr(('args',)), Ptr(('dims',)), Ptr(('steps',)), Ptr(('inner',))]
                P0 = [Ptr(('ld', ('args',), 8 * k), 0) for k in range(ar + 1)]; S0 = [Ptr(('ld', ('steps',), 8 * k), 0) for k in range(ar + 1)]; N0 = Ptr(('ld', ('dims',), 0), 0)
                for p in d.paths(h.stub[2], args, unit=h.stub[1]):
                    self.path(h, p, 'any call' + (' with the ledger on' if ledger else ''), P0, S0, N0, ar, dt, odt, atop, ledger, (), bad, ok, stats, und, lab, check_target, Ptr(('inner',)))
        # ---------------- concrete layouts
        for st, ptrs, steps, ns, tags in states(h.name, dt, odt, ar):
            for n in ns:
                def init(fk):
                    setfield(fk, self.set['atop'], self.set['atop'][2]); setfield(fk, self.set['ledger'], 0)
                    for k, x in enumerate(ptrs): fk.write(Ptr(('args',), 8 * k), 8, x)
                    for k, x in enumerate(steps): fk.write(Ptr(('steps',), 8 * k), 8, x & ((1 << 64) - 1))
                    fk.write(Ptr(('dims',)), 8, n)
                d = self.disp(h, init, exact=True)
                for p in d.paths(h.stub[2], [Ptr(('args',)), Ptr(('dims',)), Ptr(('steps',)), Ptr(('inner',))], unit=h.stub[1]):
                    self.path(h, p, '%s, n=%d' % (st, n), ptrs, steps, n, ar, dt, odt, 1, 0, tags, bad, ok, stats, und, lab, check_target, Ptr(('inner',)))
        return out, ok, stats, und

    def path(self, h, p, st, P0, S0, N0, ar, dt, odt, atop, ledger, tags, bad, ok, stats, und, lab, check_target, inner):
        stats['paths'] += 1
        if p.end != 'ret':
            und.append(('C10', 'path', lab, '%s: %s' % (st, p.end))); return
        cons = [e[2] for e in p.events if e[0] == 'consume']
        work = [e for e in p.events if e[0] == 'workmain']; stats['consumers'] += len(cons)
        nocb = [e for e in p.events if e[0] == 'nocallback']
        if nocb: bad('C13', 'callback', '%s: work handed to the pool without exactly one callback' % st, w=nocb[0][1].where()); return
        for c in cons: check_target(c, st, atop)
        if not atop:
            k = [c for c in cons if c.kind not in ('old', 'null')]
            if k: bad('C10', 'disabled', '%s: a replacement loop runs although the package is switched off' % st, w=k[0].ins.where())
            else: ok['C10.disabled'] += 1
        where = cons[0].ins.where() if cons else None
        pooled = [c for c in cons if c.pooled]; direct = [c for c in cons if not c.pooled]
        redk = [c for c in cons if c.kind == 'red']
        # --- ledger neutrality
        rec = [e for e in p.events if e[0] == 'ledger']
        v = self.after(p, self.set['ledger'])
        if ledger:
            if v == 0 or not isinstance(v, int): bad('C12', 'restore', 'with the ledger on the call leaves the ledger switched off')
            elif len(rec) != 1: bad('C12', 'record', 'with the ledger on a call is recorded %d times' % len(rec))
            else: ok['C12.ledger'] += 1
        else:
            if v != 0 or rec: bad('C12', 'quiet', 'with the ledger off the call records or switches it on')
            else: ok['C12.ledger'] += 1
        v = self.after(p, self.set['atop'])
        if v != (self.set['atop'][2] if atop else 0): bad('C12', 'toggle', 'the call changes whether the package is enabled')
        # --- exactly one consumption
        if not work:
            if len(direct) != 1: bad('C10', 'once', '%s: %d loops run over the operands instead of one' % (st, len(direct)), w=where); return
            c = direct[0]
            if not self.full(c, P0, S0, N0, ar, dt, inner, h): bad('C10', 'arguments', '%s: the loop is not given the operands of the call: %r' % (st, c), w=where); return
            ok['C10.once'] += 1
            if 'nokernel' in tags and c.kind != 'old': bad('C07', 'order', '%s: elements depend on earlier results, but a replacement loop runs instead of the element-by-element one' % st, w=where)
            elif tags: ok['C07.order'] += 1
            if c.kind == 'red' and 'reduce' not in tags and isinstance(N0, int): bad('C10', 'reduce-kernel', '%s: a reduction loop runs for an element-wise call' % st, w=where)
            if c.kind in ('bin', 'un') and 'reduce' in tags: bad('C10', 'elementwise-kernel', '%s: an element-wise loop runs for a reduction' % st, w=where)
            return
        # --- pooled
        if len(work) != 1: bad('C10', 'once', '%s: handed to the pool %d times' % (st, len(work)), w=work[0][1].where()); return
        if 'seq' in tags: bad('C07', 'order', '%s: elements depend on earlier results, but the work is split between threads' % st, w=work[0][1].where())
        elif tags: ok['C07.order'] += 1
        wa = work[0][3]
        if not same(wa[2], N0): bad('C13', 'length', '%s: the pool is given %s elements instead of the length of the call' % (st, show(wa[2])), w=work[0][1].where()); return
        BS = wa[4] if len(wa) > 4 else None; gen = wa[5] if len(wa) > 5 else None
        if gen == 0: bad('C13', 'mode', '%s: the pool hands out single items instead of blocks' % st, w=work[0][1].where()); return
        for e in p.events:
            if e[0] == 'cb_leave':
                if e[3]['complete'] != 1: bad('C14', 'complete', '%s: a claimed block is reported complete %d times' % (st, e[3]['complete']), w=e[1].where())
                else: ok['C14.complete'] += 1
                if e[3]['claims'] != 2: bad('C14', 'claim', '%s: the worker callback stops claiming after %d' % (st, e[3]['claims']), w=e[1].where())
        if len(pooled) != 1: bad('C13', 'block', '%s: %d loops run per block' % (st, len(pooled)), w=where); return
        c = pooled[0]
        # completion only after the block was processed
        pos = [k for k, e in enumerate(p.events) if e[0] == 'complete']; cpos = [k for k, e in enumerate(p.events) if e[0] == 'consume' and e[2] is c]
        if pos and cpos and pos[0] < cpos[0]: bad('C15', 'early', '%s: the block is reported complete before it was processed' % st, w=c.ins.where())
        else: ok['C15.after'] += 1
        item = work[0][2]
        # block start in elements: BlockSize field of the item times the block number
        B = self.blocksize(c, p, item)
        isred = c.kind == 'red' or ('reduce' in tags) or len(direct) == 1
        if not isred:
            if direct: bad('C10', 'once', '%s: the operands are processed by the pool and again by the caller' % st, w=direct[0].ins.where()); return
            e = c.eff; good = True
            for k in range(ar + 1):
                d = psub(e['p%d' % k], P0[k]); need = pmul(pmul(B, {(('u', ('block',)),): 1}), poly(S0[k]))
                if d != need: bad('C13', 'address', '%s: operand %d of a block starts at offset %s instead of block*blocksize*step' % (st, k, self.sp(d)), w=c.ins.where()); good = False
                if not same(e['s%d' % k], S0[k]) : bad('C13', 'step', '%s: operand %d of a block advances by %s' % (st, k, show(e['s%d' % k])), w=c.ins.where()); good = False
            if not same(e['n'], Unk(('blen',))): bad('C13', 'blocklen', '%s: a block loop runs over %s elements instead of the claimed length' % (st, show(e['n'])), w=c.ins.where()); good = False
            if c.kind == 'old' and not same(e['inner'], inner): bad('C13', 'inner', '%s: the original loop does not get its own data pointer' % st, w=c.ins.where()); good = False
            if c.kind in ('bin', 'un') and 'reduce' in tags: bad('C10', 'elementwise-kernel', '%s: an element-wise loop runs for a reduction' % st, w=c.ins.where())
            if good: ok['C13.block'] += 1; ok['C10.once'] += 1
            return
        # --- threaded reduction
        E = PSIZE[dt]
        rb = lambda rule, msg, w=None: bad('C11', rule, '%s: %s' % (st, msg), w=w or c.ins.where())
        if h.name not in ASSOC: rb('reorder', 'a reduction that is not associative is split between threads'); return
        if isinstance(N0, int) and 'reduce' not in tags: rb('not-a-reduce', 'an element-wise call is treated as a reduction'); return
        if len(direct) != 1: rb('combine', 'partial results are combined by %d loops instead of one' % len(direct)); return
        f = direct[0]
        good = True
        need = pmul(pmul(B, {(('u', ('block',)),): 1}), poly(S0[1]))
        if c.kind == 'red': src, dst, n, step, start = c.eff['in'], c.eff['out'], c.eff['n'], c.eff['stride'], c.eff['start']
        else:
            src, dst, n, step = c.eff['p1'], c.eff['p0'], c.eff['n'], c.eff['s1']; start = None
            if not same(c.eff['p2'], c.eff['p0']) or poly(c.eff['s0']) or poly(c.eff['s2']): rb('old-args', 'the original loop is not called as a reduction on the block'); good = False
            mc = [e for e in p.events if e[0] == 'memcpy']
            ms = [e for e in mc if same(e[2][0], dst)]
            if not ms: rb('start', 'a block result is not initialised with a start value'); good = False
            else:
                start = ms[-1][2][1]
                if not same(ms[-1][2][2], E): rb('start', 'start value of %s bytes for an element of %d' % (show(ms[-1][2][2]), E)); good = False
        if psub(src, P0[1]) != need: rb('address', 'the block is read from offset %s' % self.sp(psub(src, P0[1]))); good = False
        if not same(n, Unk(('blen',))): rb('blocklen', 'a block is reduced over %s elements' % show(n)); good = False
        if not same(step, S0[1]): rb('step', 'a block advances by %s instead of the step of the call' % show(step)); good = False
        # partial results buffer
        d = padd(poly(dst), {(('u', ('block',)),): E}, -1)
        buf = [k for k in d]
        if len(d) != 1 or len(list(d)[0]) != 1 or list(d.values())[0] != 1 or any(('u', ('block',)) in k for k in d): rb('partial', 'partial result of a block goes to %s' % show(dst)); good = False; bufp = None
        else: bufp = d
        # start value: neutral element, or the old output for an idempotent function
        if start is not None:
            if same(start, P0[0]):
                if h.name not in IDEMP: rb('start', 'every block starts with the initial value of the output, which is then counted once per block'); good = False
            else:
                ident = identity(h.name, dt); got = self.bytes_at(p, start, E)
                if ident is None or got is None: rb('start', 'blocks start with an unknown value %s' % show(start)) if got is not None or not isinstance(start, Ptr) else und.append(('C11', 'start', lab, show(start))); good = False
                elif got != ident: rb('start', 'blocks start with bytes %s instead of the neutral element %s' % (got.hex(), ident.hex())); good = False
        # final combine
        if f.kind == 'red': fsrc, fout, fstart, fn_, fstep = f.eff['in'], f.eff['out'], f.eff['start'], f.eff['n'], f.eff['stride']
        elif f.kind == 'old':
            fsrc, fout, fstart, fn_, fstep = f.eff['p1'], f.eff['p0'], f.eff['p2'], f.eff['n'], f.eff['s1']
            if poly(f.eff['s0']) or poly(f.eff['s2']): rb('combine', 'the final loop is not called as a reduction', f.ins.where()); good = False
            if not same(f.eff['inner'], inner) or (c.kind == 'old' and not same(c.eff['inner'], inner)): rb('inner', 'the original loop does not get its own data pointer', f.ins.where()); good = False
        else: rb('combine', 'partial results are combined by an element-wise loop', f.ins.where()); return
        if not same(fout, P0[0]) or not same(fstart, P0[0]): rb('combine', 'the final result is built in %s from %s' % (show(fout), show(fstart)), f.ins.where()); good = False
        if bufp is not None and poly(fsrc) != bufp: rb('combine', 'the final loop reads %s' % show(fsrc), f.ins.where()); good = False
        if not same(fstep, E): rb('combine', 'the final loop advances by %s instead of the element size' % show(fstep), f.ins.where()); good = False
        # number of partial results = number of blocks
        if isinstance(BS, int) and BS > 0:
            if isinstance(N0, int):
                if not same(fn_, (N0 + BS - 1) // BS): rb('chunks', '%s partial results are combined for %d elements in blocks of %d' % (show(fn_), N0, BS), f.ins.where()); good = False
        wpos = [k for k, e in enumerate(p.events) if e[0] == 'cb_leave']; fpos = [k for k, e in enumerate(p.events) if e[0] == 'consume' and e[2] is f]
        if wpos and fpos and fpos[0] < wpos[0]: rb('combine-early', 'partial results are combined before the pool has finished', f.ins.where()); good = False
        if (c.kind == 'red') != (f.kind == 'red') : pass
        if good: ok['C11.reduce'] += 1; ok['C10.once'] += 1
    def sp(self, d): return ' + '.join('%s*%s' % (v, '*'.join(satom(a) for a in k)) for k, v in d.items()) or '0'
    def after(self, p, loc):
        d = p.mem.get(loc[0])
        return d.get(loc[1], (4, None))[1] if d else None
    def bytes_at(self, p, q, n):
        if not isinstance(q, Ptr) or q.obj[0] not in ('g',) or not isinstance(q.off, int): return None
        fk = Forker(self.cp); fk.mem = {}; fk.events = []; fk.gen = 0
        o = b''
        for k in range(n):
            v = fk.read(Ptr(q.obj, q.off + k), 1)
            if not isinstance(v, int): v = self.fbyte(q, k)
            if not isinstance(v, int): return None
            o += bytes([v & 255])
        return o
    def fbyte(self, q, k):
        """byte of a floating point global initialiser"""
        import struct
        g = self.cp.mods[q.obj[1]].globals.get(q.obj[2]) if q.obj[1] in self.cp.mods else None
        if not g or not g['init']: return None
        t = g['t']; v = g['init']
        import re
        m = re.match(r'^\[(\d+) x (\w+)\]$', t)
        et = m.group(2) if m else t
        es = v[1] if v[0] == 'v' else [v]
        fm = {'float': '<f', 'double': '<d', 'half': '<e'}.get(et)
        if not fm: return None
        raw = b''
        for x in es:
            if x[0] == 'f':
                try: raw += fbytes(x, et)
                except Exception: return None
            elif x[0] in ('zero', 'i'): raw += struct.pack(fm, 0.0)
        o = q.off + k
        return raw[o] if o < len(raw) else None
    def blocksize(self, c, p, item):
        """polynomial of the block size field of the work item as read by the callback"""
        cand = set()
        for k in ('p0', 'p1', 'p2', 'in'):
            if k not in c.eff: continue
            for m in poly(c.eff[k]):
                for a in m:
                    if a[0] == 'obj' and a[1][0] == 'ld' and isinstance(item, Ptr) and a[1][1] == item.obj: cand.add(a)
        if len(cand) == 1: return {(list(cand)[0],): 1}
        return {(('u', ('blocksize?',)),): 1}
    def full(self, c, P0, S0, N0, ar, dt, inner, h):
        e = c.eff
        if c.kind in ('old', 'bin', 'un'):
            if c.kind == 'bin' and ar != 2 or c.kind == 'un' and ar != 1: return False
            if not all(same(e['p%d' % k], P0[k]) and same(e['s%d' % k], S0[k]) for k in range(ar + 1)) or not same(e['n'], N0): return False
            return c.kind != 'old' or same(e['inner'], inner)
        if c.kind == 'red': return ar == 2 and same(e['in'], P0[1]) and same(e['out'], P0[0]) and same(e['start'], P0[0]) and same(e['n'], N0) and same(e['stride'], S0[1])
        return False
def fbytes(x, et):
    import struct
    v = x[1]
    return int(v, 16).to_bytes({'float': 4, 'double': 8, 'half': 2}[et], 'little')

def one(k):
    A = _G['A']
    try:
        out, ok, st, und = A.hook(A.hooks[k])
        return [x.t() for x in out], dict(ok), dict(st), und
    except Exception as ex:
        import traceback
        return [], {}, {}, [('C10', 'internal', A.hooks[k].name, ''.join(traceback.format_exc(limit=-3))[-300:])]
def init(): sys.setrecursionlimit(20000)
def runall(P):
    A = _G['A'] = Analysis(P)
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1), initializer=init) as pool: return A, pool.map(one, range(len(A.hooks)), chunksize=2)
RULES = {
 'C08.signature': 'every loop is registered for operand types (T, T) or (T) and the result type NumPy documents', 'C08.function': 'every registered function is defined in this package',
 'C08.fallback': 'on every path the original loop called is the one NumPy had for the same function and type', 'C08.kernel': 'on every path the replacement loop called is the one selected for the same function and type',
 'C08.twice': 'enabling a second time registers nothing (the recorded original loops stay the original ones)',
 'C10.once': 'on every path exactly one loop (or one pool run) consumes the operands, with the pointers, steps and length of the call',
 'C10.disabled': 'with the package switched off only the original loop runs', 'C10.null': 'no missing loop is called',
 'C11.reduce': 'a reduction split between threads starts each block from the neutral element, reads each block once, and combines exactly as many partial results as there are blocks, in order, with the initial value of the output',
 'C12.ledger': 'the ledger switch has its old value after the call, one record is written iff it was on', 'C12.toggle': 'a call never changes the switches',
 'C13.block': 'a worker processes exactly the elements of the block it claimed: base + block*blocksize*step for every operand, the claimed length, the steps of the call',
 'C14.complete': 'every claimed block is reported complete exactly once, and claiming goes on until nothing is left', 'C15.after': 'a block is reported complete only after it was processed',
 'C07.order': 'a call whose elements depend on earlier results of the same call (overlapping operands, accumulate) runs through the element-by-element loop on one thread'}
def twice(ck, R):
    """run the registration once more in the state the first run left"""
    cp = R['cp']; n = len(R['ufuncs']); m = len(R['dtypefns'])
    try: cp.run('newinit', [Ptr(('self',)), Ptr(('args',)), 0])
    except Exception as ex: ck.undecided('C08.twice', 'newinit', ex); return
    if len(R['ufuncs']) > n: ck.violation('C08.twice', 'twice/ufunc', R['ufuncs'][n].where, 'enabling a second time registers %d loops again, recording the replacement as the original' % (len(R['ufuncs']) - n))
    else: ck.ok('C08.twice', sample='%d loops registered by the first run, 0 by the second' % n)
    del R['ufuncs'][n:]; del R['dtypefns'][m:]

FAMILY = {'C01': lambda n: n in names.BIN, 'C02': lambda n: n in names.CMP, 'C03': lambda n: n in names.UN or n in names.TRIG, 'C04': lambda n: n in names.BIN}
USES = {'C07': ('C07',), 'C08': ('C08',), 'C10': ('C10',), 'C11': ('C11',), 'C12': ('C12',), 'C13': ('C13', 'C14', 'C15'), 'C01': ('C08', 'C10', 'C13'), 'C02': ('C08', 'C10', 'C13'), 'C03': ('C08', 'C10', 'C13'), 'C04': ('C11',)}
def obligations(ck, P, pid):
    A, R = runall(P)
    want = USES[pid]
    if pid == 'C08': twice(ck, A.R)
    ck.seen('hooked loops', len(A.hooks))
    keep = FAMILY.get(pid, lambda n: True)
    for h, (out, ok, st, und) in zip(A.hooks, R):
        if not keep(h.name): continue
        lab = '%s[%s]' % (h.name, wiring.NAMES.get(h.sig[0], h.sig[0]))
        for a, b in st.items(): ck.seen('dispatch ' + a, b)
        for a, b in ok.items():
            if a.split('.')[0] in want: ck.rule(a, RULES.get(a, a)); ck.ok(a, b, sample='%s: %d paths' % (lab, b))
        seen = set()
        for pr, rule, key, where, msg, wit in out:
            if pr not in want: continue
            if (rule, key) in seen: continue
            seen.add((rule, key)); r = pr + '.' + rule
            ck.rule(r, RULES.get(r, msg)); ck.violation(r, key, where, msg, wit)
        for pr, rule, l, msg in und:
            if pr in want or pr == 'C10': ck.undecided(pr + '.' + rule, l, msg)

def main(pid, tier):
    ck = report.Check(pid, tier, TECH); P = prog.Program()
    if pid in ('C07',):
        import c_kernels; c_kernels.kernel_obligations(ck, P, pid)
    obligations(ck, P, pid)
    ck.assume('NumPy calls a registered loop with the pointers, length and steps its ufunc machinery documents; reductions and accumulations with the pointer and step pattern of its iterator')
    ck.assume('the pool hands a claimed block number and its length to the callback as established by the block-claiming property')
    return report.finish(ck, explanation='Every function the enabling routine registers with NumPy is followed, path by path, from abstract call states (any call; contiguous, strided, reversed, scalar, in-place, overlapping, reduce and accumulate layouts, short and long) down to the loops that consume the operands.')
if __name__ == '__main__':
    sys.setrecursionlimit(20000); t = time.time()
    A, R = runall(prog.Program()); print(time.time() - t, A.set)
    ok = collections.Counter(); st = collections.Counter(); fs = collections.Counter(); und = collections.Counter()
    for o, k, s, u in R:
        ok.update(k); st.update(s)
        for x in o: fs[(x[0], x[1], x[4][:230], x[3])] += 1
        for x in u: und[(x[0], x[1], x[2] if 0 else '', x[3][:160])] += 1
    print(ok, st)
    for x, n in fs.most_common(40): print(n, x)
    print(len(fs)); print(und.most_common(10))
