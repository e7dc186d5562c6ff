"""C25: the switches and counters of the module as a transition system.  The native functions are followed from every state that
calls can reach (the whole static data of the module is the state), and every result and every later answer is compared with a
reference: one cell per setting.  The reachable states are enumerated to the end, so every history of calls is covered."""
import os, sys, time
import multiprocessing as mp
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import prog, ordx, report, layout
import c_native, c_lexsort
from c_native import arg
from ordx import Alarm, Stuck, Budget

PAIRS = ('atop', 'ledger', 'recycler', 'thread')
WORKERS = 8
def ops(tier):
    o = []
    for p in PAIRS: o += [(p + '_enable', ()), (p + '_disable', ())]
    o += [('thread_zigzag', ()), ('hook_enable', ()), ('hook_disable', ())]
    o += [('thread_setworkers', (n,)) for n in ((-1, 3, 1000) if tier != 'thorough' else (-1, 0, 1, 2, 3, 6, 7, 8, 1000))] + [('thread_setworkers', ('x',))]
    o += [('atop_setworkers', a) for a in (('add', 12, 0), ('add', 12, 5), ('add', 12, 63), ('add', 12, 64), ('add', 12, -1), ('sin', 12, 5), ('add', 11, 5), ('add', 'x', 5))]
    return o
QUERIES = [(p + '_isenabled', ()) for p in PAIRS] + [('thread_getworkers', ()), ('atop_info', ('add', 12)), ('atop_info', ('sin', 12)), ('atop_info', ('add', 11)), ('values[index]', ())]

class Sys:
    def __init__(self, P):
        self.run = c_native.Run(P); self.rt = self.run.rt; self.S = self.run.S; self.C = self.run.C
        self.fn = {n: f for n, f, _ in c_native.methods(P)}
        L = layout.layouts(P).get('CMathWorker') or {}
        self.wtc = (L.get('WorkerThreadCount') or [None])[0]
    def start(self):
        S, C, rt = self.S, self.C, self.rt
        S.reset(); S.fail = False; S.failed = False; rt.faults = False
        rt.reset(); rt.mods = {}; rt.uapi = 0; rt.isa = set(); rt.pool = 1; rt.avx2 = 1; rt.missing = (); rt.notufunc = (); rt.noloop = lambda u, a: False
        pool = S.M[C.glob('g_cMathWorker')]
        if self.wtc is not None: S.M[pool + self.wtc] = WORKERS
        self.keep = [pool]
        g = C.glob('gpUnaryDict'); d = rt.dict({}); S.M[g] = d; rt.obj[d].keys = {}
        for k in (('add', 12), ('sin', 12)):
            v = S.region(64, None, False, 'the record of ' + k[0]); S.R[v >> 40].zero = True; self.keep.append(v)
            kk = rt.tuple([rt.str(k[0]), rt.int(k[1])]); rt.obj[d].val[k] = rt.int(v); rt.obj[d].keys[k] = kk
        tm = rt.type('ndarray'); m = S.region(64, None, False, 'the mapping methods of numpy'); S.M[m + 8] = 'old:subscript'; S.M[tm + 112] = m; self.slot = m + 8; self.keep.append(m)
    def call(self, op):
        """-> what Python sees"""
        S, C, rt = self.S, self.C, self.rt
        if op[0] == 'values[index]':
            h = S.M[self.slot]; return ('slot', 'numpy' if h == 'old:subscript' else str(h).split('|')[-1])
        f = self.fn[op[0]]
        t = rt.tuple([arg(rt, a) for a in op[1]])
        c_lexsort.settle(rt, [t], [])
        r = C.fn(f)(*[0, t, 0][:len(C.lookup(f).args)])
        if r == 0:
            e = rt.err; rt.err = None; return ('raised', e[0] if e else 'nothing')
        if rt.err is not None: e = rt.err; rt.err = None; return ('result with exception', e[0])
        o = rt.obj.get(r)
        if o is None: raise Stuck('result of %s' % op[0])
        if o.kind == 'dict': return ('dict', {k: rt.obj[v].val for k, v in o.val.items()})
        return (o.kind, o.val)
    def state(self):
        S = self.S; out = []
        regs = {b >> 40 for b in S.globals.values()} | {b >> 40 for b in self.keep}
        names = {b >> 40: str(k) for k, b in S.globals.items()}; names.update({b >> 40: 'kept %d' % j for j, b in enumerate(self.keep)})
        for a, v in S.M.items():
            k = (a + (1 << 20)) >> 40
            if k in regs and not S.R[k].ro and (v != 0 or not S.R[k].zero) and not (type(v) is int and v >> 40) and not names[k].startswith(('Py', '_Py', 'pPy')) and '.str' not in names[k]: out.append((names[k], a - S.R[k].base, v))
        return tuple(sorted(out, key=repr))

# ---------------------------------------------------------------- the reference
def ref0(sys_):
    """the reference state, read off the queries in the first state"""
    st = {}
    for q in QUERIES:
        r = sys_.call(q); st[q] = r
    st['zig'] = None
    return st
def expect(st, op):
    """-> (result or None when any is right, reference state after)"""
    st = dict(st); n, a = op
    for p in PAIRS:
        if n == p + '_enable': st[(p + '_isenabled', ())] = ('bool', True); return ('none', None), st
        if n == p + '_disable': st[(p + '_isenabled', ())] = ('bool', False); return ('none', None), st
    if n == 'thread_zigzag':
        z = st['zig']; st['zig'] = None if z is None else not z
        return (None if z is None else ('bool', not z)), st
    h = ('values[index]', ())
    if n == 'hook_enable':
        was = st[h] == ('slot', 'numpy'); st[h] = ('slot', 'GetItemHook') if was else st[h]; return ('bool', was), st
    if n == 'hook_disable':
        was = st[h] != ('slot', 'numpy'); st[h] = ('slot', 'numpy'); return ('bool', was), st
    if n == 'thread_setworkers':
        g = ('thread_getworkers', ()); old = st[g]
        if type(a[0]) is not int: return ('raised', 'TypeError'), st
        st[g] = ('int', max(1, min(a[0], WORKERS - 1))); return old, st
    if n == 'atop_setworkers':
        if st[('atop_isenabled', ())] == ('bool', False): return ('bool', False), st
        if type(a[1]) is not int: return ('raised', 'TypeError'), st
        i = ('atop_info', a[:2])
        if i not in st or st[i][0] != 'dict' or not 0 <= a[2] < 64: return ('bool', False), st
        old = st[i][1].get('MaxThreads'); st[i] = ('dict', dict(st[i][1], MaxThreads=a[2])); return ('int', old), st
    return None, st

_P = None; _S = None
def explore(job):
    """all operations from one state, reached by a path -> [(op, problem or None, state after)]"""
    global _S
    path, tier = job
    if _S is None: _S = Sys(_P)
    out = []
    for op in ops(tier):
        try:
            y = _S; y.start(); st = ref0(y); zig = False; st['zig'] = False
            k0 = None
            for o in path: y.call(o); _, st = expect(st, o)
            before = y.state(); got = y.call(op); want, st2 = expect(st, op); bad = None
            if want is not None and got != want: bad = ('result', '%s gives %s instead of %s' % (show(op), val(got), val(want)))
            s1 = y.state()
            for q in QUERIES:
                g = y.call(q)
                if bad is None and g != st2[q]:
                    bad = ('frame' if st[q] == st2[q] else 'effect', 'after %s, %s gives %s instead of %s' % (show(op), show(q), val(g), val(st2[q])))
            s2 = y.state()
            if bad is None and s1 != s2: bad = ('query', 'asking changes %s' % ', '.join(sorted({x[0] for x in set(s1) ^ set(s2)})))
            out.append((op, bad, s1))
        except Alarm as e: out.append((op, ('alarm', '%s: %s %s' % (show(op), e.msg, e.loc or '')), None))
        except (Stuck, Budget, KeyError, TypeError, AttributeError, ValueError) as e: out.append((op, ('stuck', '%s: %s: %s' % (show(op), type(e).__name__, e)), None))
    return path, out, sorted(f.dem or f.name for f in _S.C.used)
def show(op): return '%s(%s)' % (op[0], ', '.join(repr(x) for x in op[1])) if op[0] != 'values[index]' else 'values[index]'
def val(r): return '%s' % (r[1] if r[0] in ('bool', 'int', 'none', 'dict') else 'an exception (%s)' % r[1] if r[0] == 'raised' else '%s %s' % r,)

def main(pid, tier):
    global _P
    ck = report.Check(pid, tier, 'transition system of the native switches, reachable states enumerated to the end by abstract interpretation of each function')
    _P = P = prog.Program()
    for u in c_native.UNITS: P.raw(u)
    ck.rule('C25.result', 'each call gives the result its history determines: None, the state before, or whether something changed')
    ck.rule('C25.effect', 'a call sets its own setting, and every query reports the last setting')
    ck.rule('C25.frame', 'a call changes no other setting, and asking changes nothing')
    s0 = None; seen = set(); todo = [()]; done = 0; fns = set(); bad = {}; cap = 20000 if tier == 'thorough' else 4000; t0 = time.time(); depth = 0; capped = False
    RULE = {'result': 'C25.result', 'effect': 'C25.effect', 'frame': 'C25.frame', 'query': 'C25.frame', 'alarm': 'C25.result', 'stuck': 'C25.result'}
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        while todo:
            nxt = []
            for path, out, used in pool.imap_unordered(explore, [(p, tier) for p in todo], chunksize=8):
                fns.update(used)
                for op, b, s in out:
                    done += 1
                    if b is None:
                        for r in ('C25.result', 'C25.effect', 'C25.frame'): ck.ok(r, 1, '%s after %s' % (show(op), ', '.join(show(o) for o in path) or 'the import'))
                    elif b[0] == 'stuck': ck.undecided(RULE[b[0]], op[0], b[1])
                    else: bad.setdefault((RULE[b[0]], op[0], b[0]), (path, op, b))
                    if s is not None and s not in seen:
                        seen.add(s); nxt.append(path + (op,))
            if bad: break
            if len(seen) > cap or time.time() - t0 > 500: capped = bool(nxt); break
            todo = nxt; depth += 1
    for (rid, n, k), (path, op, b) in sorted(bad.items(), key=lambda x: len(x[1][0])):
        ck.violation(rid, '%s|%s' % (n, k), n, b[1], {'history': [show(o) for o in path + (op,)]})
    ck.analysed['states'] = len(seen); ck.analysed['calls'] = done; ck.analysed['longest history needed'] = depth; ck.analysed['routines'] = len(fns)
    if capped: ck.undecided('C25.effect', 'states', 'more than %d states' % len(seen))
    ck.note('routines analysed: ' + ', '.join(sorted(fns))[:3000])
    ck.assume('a pool of %d workers; settings of two functions stand for those of all' % WORKERS)
    return report.finish(ck, explanation='The whole static data of the module, the pool and the records of two functions form the state. From every state that calls can reach, every switch is followed with every kind of argument, its result and the answers of all queries afterwards are compared with a reference that has one cell per setting. The enumeration ends when no new state appears, so histories of any length are covered.')
if __name__ == '__main__': sys.exit(main('C25', 'quick'))
