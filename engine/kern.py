"""Element-wise and reduction kernels: what every stored element is, which elements are touched, with which alignment."""
import itertools
from walk import *
from terms import *
import terms
from tiles import *
from decide import decide, subterms, halves

# atop type code -> (bits, kind)
TY = {0: (8, 'b'), 1: (8, 'i'), 2: (8, 'u'), 3: (16, 'i'), 4: (16, 'u'), 5: (32, 'i'), 6: (32, 'u'), 7: (64, 'i'), 8: (64, 'u'), 12: (32, 'f'), 13: (64, 'f'), 14: (80, 'f')}
ESZ = {0: 1, 1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 8, 8: 8, 11: 2, 12: 4, 13: 8, 14: 16}

class Finding:
    """kind: value | tile | align | hazard | read"""
    def __init__(self, kind, verdict, msg, where, wit=None): self.kind = kind; self.verdict = verdict; self.msg = msg; self.where = where; self.wit = wit
    def __repr__(self): return '%s/%s %s @%s %s' % (self.kind, self.verdict, self.msg, self.where, self.wit or '')

def loc(i):
    """innermost-first debug chain -> 'file:line'"""
    l = i.get('l') if i is not None else None
    if not l: return '?'
    try:
        return ' < '.join('%s:%s' % (x[0].split('/')[-1], x[1]) for x in l[:3])
    except Exception: return str(l)[:80]

class Kernel:
    def __init__(self, mod, gc, fname, fam, esz, luts=None):
        """fam: 'bin' (in1,in2,out,n,s1,s2,so) 'un' (in,out,n,s,so) 'red' (in,out,start,n,stride)
        esz: element sizes of the pointer arguments in order"""
        self.mod = mod; self.fn = mod.functions[fname]; self.fam = fam; self.esz = esz; self.gc = gc; self.luts = luts or {}
    def run(self):
        w = self.w = Walker(self.mod, globconst=self.gc, max_paths=1500)
        st = State()
        np_ = {'bin': 3, 'un': 2, 'red': 3}[self.fam]
        self.ptr = []; args = []
        for k in range(np_):
            x = mk('arg', 64, 'p%d' % k, 'p'); w.data_atoms.add(x); self.ptr.append(x)
            args.append(P(64, pvar(x) * self.esz[k]))
        self.n = mk('arg', 64, 'n')
        args.append(self.n)
        ns = {'bin': 3, 'un': 2, 'red': 1}[self.fam]
        self.stride = [mk('arg', 64, 's%d' % k) for k in range(ns)]
        args += self.stride
        if self.fam == 'bin': self.ins = [0, 1]; self.out = 2; self.st_in = [self.stride[0], self.stride[1]]; self.st_out = self.stride[2]
        elif self.fam == 'un': self.ins = [0]; self.out = 1; self.st_in = [self.stride[0]]; self.st_out = self.stride[1]
        else: self.ins = [0]; self.out = 1; self.startp = 2; self.st_in = [self.stride[0]]; self.st_out = None
        if len(self.fn.args) < len(args): raise Unsupported('signature')
        args = args[:len(self.fn.args)]
        st.f.addge(pvar(self.n) - (1 if self.fam == 'red' else 0))
        self.paths = [s for s, rv in w.run_fn(st, self.fn, args)]
        return self
    def base(self, k): return pvar(self.ptr[k]) * self.esz[k]

    # ------------------------------------------------------------ LUT and load rewriting
    def lutval(self, t):
        """'ld' of an expansion table at glob + entry*idx -> term, when idx is a bit vector"""
        p = t.a[0]; g = None
        for k, v in p.m.items():
            if len(k) == 1 and k[0].op == 'glob' and v == 1: g = k[0]
        if g is None or g.a[0] not in self.luts: return None
        esz, inv, nbits = self.luts[g.a[0]]
        rest = p - pvar(g); off = rest.m.get((), 0); rest = rest - off
        # rest must be esz * idx
        if not rest.divisible(esz): return None
        idx = rest.divc(esz)
        boff = off % esz
        if off - boff: idx = idx + (off - boff) // esz
        c = idx.const
        if c is not None: it_ = C(64, c)
        elif len(idx.m) == 1 and list(idx.m.values())[0] == 1 and len(list(idx.m)[0]) == 1: it_ = list(idx.m)[0][0]
        else: return None
        bits = []
        for k in range(nbits):
            b = tslice(it_, k, 1) if k < it_.w else C(1, 0)
            bits.append(zext(8, bnot(b) if inv else b))
        # the index must be < 2**nbits
        if it_.w > nbits:
            hi = tslice(it_, nbits, it_.w - nbits)
            if not (isc(hi) and hi.a[0] == 0): return None
        r = cat(bits)
        return r if r.w == t.w and not boff else (tslice(r, 8 * boff, t.w) if r.w >= t.w + 8 * boff else None)
    def rewrite(self, t, leaf, memo):
        r = memo.get(t)
        if r is not None: return r
        if t.op == 'ldd' and any(len(k) == 1 and k[0].op == 'glob' for k in t.a[0].m):
            p = t.a[0]; mp = {}
            for a in p.atoms():
                b = self.rewrite(a, leaf, memo)
                if b is not a: mp[a] = b.poly()
            r = mk('ld', t.w, p.subst(mp) if mp else p, *t.a[1:])
            q = self.lutval(r)
            if q is not None: r = q
        elif t.op == 'ldd': r = leaf(t)
        else:
            na = []; ch = False
            for x in t.a:
                if isinstance(x, Term): y = self.rewrite(x, leaf, memo)
                elif isinstance(x, tuple): y = tuple(self.rewrite(z, leaf, memo) if isinstance(z, Term) else z for z in x)
                elif isinstance(x, Poly) and t.op not in ('it',):
                    mp = {}
                    for a in x.atoms():
                        b = self.rewrite(a, leaf, memo)
                        if b is not a: mp[a] = b.poly()
                    y = x.subst(mp) if mp else x
                else: y = x
                ch = ch or y is not x; na.append(y)
            if ch:
                if t.op == 'P': r = P(t.w, na[0])
                elif t.op == 'ld': r = mk('ld', t.w, *na)
                else: r = rebuild(t, na)
            else: r = t
            if r.op == 'ld':
                q = self.lutval(r)
                if q is not None: r = q
        memo[t] = r
        return r

    # ------------------------------------------------------------ per path
    def storesto(self, st):
        """store events whose base is the output"""
        outs = []; other = []
        for e in st.ev:
            if e.k == 'store':
                b = self.kbase(e.addr)
                if b is None:
                    b = self.w.baseof(e.addr)
                    if b is not None and b.op == 'alloca': continue
                    other.append(e); continue
                if b is self.ptr[self.out] or self.same(st.f, self.ptr.index(b), self.out): outs.append(e)
                else: other.append(e)
        return outs, other

    def kbase(self, addr):
        """the pointer argument an address is derived from"""
        for kk, v in addr.m.items():
            if len(kk) == 1 and kk[0] in self.ptr: return kk[0]
        if any(len(kk) == 1 and kk[0].op == 'glob' for kk in addr.m): return None
        c = [a for a in deepatoms(addr) if a in self.ptr]
        if len(c) == 1: return c[0]
        c = [p for p in self.ptr if p in c]
        return c[-1] if c else None
    def same(self, f, i, j):
        return f.norm(self.base(i) - self.base(j)).const == 0

    def analyse(self, specfn, rel, kinds, wits=True):
        """elementwise kernels. specfn(vars)->term of width 8*esz_out.
        kinds: operand kinds per input.  Returns list of Finding, stats"""
        F = []; stats = {'paths': 0, 'stores': 0, 'lanes': 0, 'loads': 0, 'eq': 0, 'how': {}}
        Eo = self.esz[self.out]
        self.forms = []
        for st in self.paths:
            if st.f.bad: continue
            allpolys = []
            outs, other = self.storesto(st)
            f0 = st.f
            for e in other: F.append(Finding('tile', 'unk', 'store to something other than the output', loc(e.i)))
            for e in outs:
                allpolys.append(e.addr)
                for it, T in e.ctx:
                    if T is not None: allpolys.append(T)
            for e in st.ev:
                if e.k == 'load' and self.kbase(e.addr) is not None:
                    allpolys.append(e.addr)
                    for it, T in e.ctx:
                        if T is not None: allpolys.append(T)
            calls = [e for e in st.ev if e.k == 'call' and not str(e.name).startswith('llvm.')]
            for f in splitcases(f0, allpolys):
                if f.bad: continue
                stats['paths'] += 1
                self.one(st, f, outs, calls, specfn, rel, kinds, F, stats)
        return F, stats

    def one(self, st, f, outs, calls, specfn, rel, kinds, F, stats):
        Eo = self.esz[self.out]; ob = self.base(self.out)
        so = f.norm(pvar(self.st_out)); n = pvar(self.n)
        items = []; trouble = None
        for e in calls:
            if e.name == 'memset' or (isinstance(e.name, str) and 'memset' in e.name): pass
        ms = [e for e in st.ev if e.k == 'call' and str(e.name).startswith('llvm.memset')]
        for e in ms:
            a = e.args[0].poly(); d = f.norm(a - ob)
            b = self.w.baseof(f.norm(a))
            if b is not None and b.op == 'alloca': continue
            ln = e.args[2].poly()
            if Eo != 1: trouble = ('memset', e); continue
            v = e.args[1]
            # a block of ln bytes: one segment
            items.append((d, None, None, None, e, ln))
            self.value(st, f, e, None, v, None, specfn, rel, kinds, F, stats)
        segs = []; sitems = []
        for e in outs:
            stats['stores'] += 1
            it = T = None
            if len(e.ctx) > 1: trouble = ('nested', e); continue
            if e.ctx: it, T = e.ctx[0]
            if e.conds: trouble = ('conditional store', e); continue
            a = f.norm(e.addr) - f.norm(ob)
            T = f.norm(T) if T is not None else None
            if it is not None and T is None: trouble = ('unknown trip count', e); continue
            if e.n == Eo or (e.n == 10 and Eo == 16):
                idx = a.divexact(so) if so.const != 0 else None
                if idx is None: trouble = ('store address is not output+i*stride', e); continue
                lanes = 1
            else:
                if e.n % Eo: trouble = ('store width', e); continue
                if so.const != Eo: trouble = ('vector store with a stride', e); continue
                idx = a.divexact(topoly(Eo))
                if idx is None: trouble = ('store address not a multiple of the element', e); continue
                lanes = e.n // Eo
            sitems.append((idx, lanes, it, T, e))
            for j in range(lanes):
                v = e.v
                if isinstance(v, Vec):
                    vv = v.l[j] if v.w == 8 * Eo else tslice(cat(v.l), j * 8 * Eo, 8 * Eo)
                else: vv = v if lanes == 1 else tslice(v, j * 8 * Eo, 8 * Eo)
                stats['lanes'] += 1
                self.value(st, f, e, idx + j, vv, it, specfn, rel, kinds, F, stats)
        where = loc(outs[0].i) if outs else self.fn.dem[:60]
        ok = None; why = None
        if trouble is None:
            segs, why = make_segs(sitems)
            if segs is not None:
                for d, _, _, _, e, ln in items: segs.append(Seg(d, 1, ln, None, e)); 
                ok = chain(f, segs, n)
                why = why or ('tiles do not chain from 0 to n', outs[0] if outs else None)
        else: why = trouble
        if ok: stats['tile_ok'] = stats.get('tile_ok', 0) + 1
        elif so.const == 0 and False: pass
        else:
            wit = self.refute_tile(st, f, sitems, items, trouble)
            if wit: F.append(Finding('tile', 'ne', wit[0], loc(wit[1].i) if wit[1] is not None else where, wit[2]))
            elif wit is None: F.append(Finding('tile', 'unk', str(why[0]), loc(why[1].i) if why[1] is not None else where))
            else: stats['tile_vac'] = stats.get('tile_vac', 0) + 1
        self.access(st, f, F, stats)
        self.hazard(st, f, sitems, F, stats, bool(ok))

    # ------------------------------------------------------------ values
    def leafmap(self, f, idx, unmatched):
        def leaf(t):
            a = f.norm(t.a[0])
            for j, k in enumerate(self.ins):
                want = f.norm(self.base(k)) + idx * f.norm(pvar(self.st_in[j])) if idx is not None else None
                if want is None: continue
                d = (a - want).const
                if d is None:
                    z = iszero(f, a - want)
                    d = 0 if z else None
                if d is not None and 0 <= d and d * 8 + t.w <= max(8 * self.esz[k], 80 if self.esz[k] == 16 else 0):
                    W = 80 if self.esz[k] == 16 else 8 * self.esz[k]
                    v = self.var(j, W)
                    # aliased operands: same storage -> the first operand's variable
                    if j and not self.distinct(f, j): v = self.var(0, W)
                    return tslice(v, int(d) * 8, t.w)
            unmatched.append(t)
            return mk('stray', t.w, a)
        return leaf
    def distinct(self, f, j):
        a = f.norm(self.base(self.ins[0]) - self.base(self.ins[j])); b = f.norm(pvar(self.st_in[0]) - pvar(self.st_in[j]))
        return not (a.const == 0 and b.const == 0)
    def var(self, j, W): return mk('xarg', W, 'xy'[j])     # marked as data by the term constructor
    def loopconds(self, f, it, e, t):
        """decide comparisons between the iteration number and its bound inside the loop"""
        if it is None or e.ctx[0][1] is None: return t
        g = None
        for c in subterms(t):
            if c.op != 'icmp' or c.data or c.a[1].w != 64: continue
            if g is None:
                g = f.copy(); g.addge(pvar(it)); g.addge(g.norm(e.ctx[0][1]) - 1 - pvar(it))
            d = g.norm(c.a[1].poly() - c.a[2].poly())
            if c.a[0] in ('eq', 'ne'):
                r = None
                if leq(g, d - 1) or leq(g, ZERO - d - 1): r = c.a[0] == 'ne'
                elif d.const == 0: r = c.a[0] == 'eq'
                if r is not None: t = tsubst(t, {c: C(1, int(r))})
        return t
    def value(self, st, f, e, idx, v, it, specfn, rel, kinds, F, stats):
        if specfn is None: return
        un = []
        # memory tables indexed by data
        memo = {}
        t = self.rewrite(v, self.leafmap(f, idx, un), memo)
        t = self.loopconds(f, it, e, t)
        if t.op == 'undef' or any(x.op in ('undef', 'undefmem') for x in subterms(t)):
            F.append(Finding('value', 'unk', 'undefined bits reach the output', loc(e.i))); return
        vs = {}; xs = []
        for j, k in enumerate(self.ins):
            W = 80 if self.esz[k] == 16 else 8 * self.esz[k]
            x = self.var(j, W)
            if j and not self.distinct(f, j): x = self.var(0, W)
            xs.append(x); vs[x] = kinds[j]
        s = specfn(*xs)
        key = (t, s)
        self.forms.append((t, loc(e.i), tuple(xs)))
        stray = [x for x in subterms(t) if x.op == 'stray']
        if stray:
            # the stored value uses some other address: refute by showing a valuation where it is not the element
            wit = self.refute_addr(st, f, idx, it, e, stray)
            vs2 = dict(vs)
            for x in stray: vs2[x] = kinds[0]
            v_, d = decide(t, s, vs2, rel)
            if wit and v_ == 'ne': F.append(Finding('value', 'ne', 'element %r is computed from a different address' % (idx,), loc(e.i), {'address': wit, 'formula': str(t)[:160]}))
            elif v_ == 'eq': pass
            else: F.append(Finding('value', 'unk', 'address %s' % stray[0], loc(e.i)))
            return
        r = _cache.get((t, s, rel, tuple(sorted(vs.items(), key=str))))
        if r is None:
            r = decide(t, s, vs, rel)
            _cache[(t, s, rel, tuple(sorted(vs.items(), key=str)))] = r
        verdict, d = r
        if verdict == 'eq':
            stats['eq'] += 1; stats['how'][d.split(' (')[0]] = stats['how'].get(d.split(' (')[0], 0) + 1
        else: F.append(Finding('value', verdict, 'stored element %s, required %s' % (str(t)[:140], str(s)[:100]) if verdict == 'ne' else str(d)[:200], loc(e.i), d if verdict == 'ne' else None))

    # ------------------------------------------------------------ concrete refutation
    def vals(self, f):
        cand = {}
        for j, s in enumerate(self.stride):
            E = (self.esz[self.out] if s is self.st_out else self.esz[self.ins[self.st_in.index(s)]])
            cand[s] = [2 * E, E, 3 * E, -E] if s is self.st_out else [E, 0, 2 * E, -2 * E]
        ns = list(range(0, 72)) + [95, 96, 97, 127, 128, 129, 130, 255, 256, 257, 511, 513, 1025, 2050]
        return valuations(f, self.ptr, cand, self.n, ns, self.esz)
    def refute_tile(self, st, f, sitems, mem, trouble):
        """(message, event, witness) if a concrete valuation shows a missing/extra/double element; None if none found; False if vacuous"""
        if trouble is not None: return None
        seen = 0
        for env in self.vals(f):
            n = env[self.n]
            cnt = {}; bad = None; lastev = None
            try:
                for idx, lanes, it, T, e in sitems:
                    Tn = 1 if it is None else pev(T, env)
                    if Tn > 5000: raise Undef
                    for k in range(max(0, Tn)):
                        en = dict(env)
                        if it is not None: en[it] = k
                        b = pev(idx, en); lastev = e
                        for j in range(lanes):
                            cnt[b + j] = cnt.get(b + j, 0) + 1
                            if not 0 <= b + j < n: bad = ('element %d is written although the array has %d' % (b + j, n), e)
                for d, _, _, _, e, ln in mem:
                    b = pev(d, env)
                    for j in range(pev(ln, env)): cnt[b + j] = cnt.get(b + j, 0) + 1
            except Undef: continue
            seen += 1
            if bad is None:
                for j in range(n):
                    if cnt.get(j, 0) == 0:
                        bad = ('element %d of %d is not written' % (j, n), lastev); break
            if bad: return bad[0], bad[1], {str(k): v for k, v in env.items()}
            if seen > 250: break
        if seen == 0 : return None
        return None
    def refute_addr(self, st, f, idx, it, e, stray):
        T = e.ctx[0][1] if e.ctx else None
        for env in self.vals(f):
            try:
                Tn = 1 if it is None else pev(f.norm(T), env)
                for k in ([0, Tn - 1] if Tn > 1 else [0]):
                    if Tn < 1: continue
                    en = dict(env)
                    if it is not None: en[it] = k
                    i = pev(idx, en)
                    for s in stray:
                        a = pev(s.a[0], en)
                        ok = False
                        for j, kk in enumerate(self.ins):
                            base = pev(f.norm(self.base(kk)) + topoly(i) * f.norm(pvar(self.st_in[j])), en)
                            if base <= a < base + self.esz[kk]: ok = True
                        if not ok: return {'element': i, 'byte_offset_from_operand': a - pev(f.norm(self.base(self.ins[0])), en), 'valuation': {str(x): y for x, y in env.items()}}
            except Undef: continue
        return None

    # ------------------------------------------------------------ every access: range and alignment
    def access(self, st, f, F, stats):
        n = pvar(self.n)
        for e in st.ev:
            if e.k not in ('load', 'store'): continue
            a = f.norm(e.addr); b = self.kbase(e.addr)
            if b is None: continue
            stats['loads' if e.k == 'load' else 'st'] = stats.get('loads' if e.k == 'load' else 'st', 0) + 1
            it = T = None
            if e.ctx: it, T = e.ctx[0]; T = f.norm(T) if T is not None else None
            # alignment
            k = self.ptr.index(b)
            if e.k == 'load' and k == self.out:
                for j in self.ins:
                    if self.same(f, j, k): k = j
            nat = min(self.esz[k], 16)
            if e.al >= 16 and e.al > nat:
                if not a.divisible(e.al):
                    wit = self.refute_align(f, a, it, T, e)
                    if wit: F.append(Finding('align', 'ne', '%s of %d bytes assumes %d-byte alignment' % (e.k, e.n, e.al), loc(e.i), wit))
                    elif not self.aligned_by_facts(f, a, e.al): F.append(Finding('align', 'unk', '%d-byte alignment' % e.al, loc(e.i)))
                    else: stats['al_ok'] = stats.get('al_ok', 0) + 1
                else: stats['al_ok'] = stats.get('al_ok', 0) + 1
            else: stats['al_nat'] = stats.get('al_nat', 0) + 1
            # range of reads (writes are covered by the tile argument)
            if e.k == 'load' and self.fam != 'red':
                j = self.ins.index(k) if k in self.ins else None
                sk = f.norm(pvar(self.st_in[j])) if j is not None else f.norm(pvar(self.st_out))
                E = self.esz[k]
                d = a - f.norm(self.base(k))
                if it is not None and T is None: F.append(Finding('read', 'unk', 'unknown trip count', loc(e.i))); continue
                res = self.inrange(f, d, e.n, sk, E, it, T, n)
                if res is not True:
                    wit = self.refute_read(f, d, e.n, sk, E, it, T, k)
                    if wit: F.append(Finding('read', 'ne', 'reads outside the %d-th operand' % k, loc(e.i), wit))
                    else: F.append(Finding('read', 'unk', 'read range of operand %d' % k, loc(e.i)))
                else: stats['rd_ok'] = stats.get('rd_ok', 0) + 1
    def aligned_by_facts(self, f, a, al): return False
    def inrange(self, f, d, nb, sk, E, it, T, n):
        """bytes [d, d+nb) lie in elements 0..n-1 of stride sk"""
        if E == 16 and nb == 10: nb = 16
        if nb <= E:
            # single element: d = sk*i + c
            q = d.divexact(sk) if sk.const != 0 else None
            if q is None:
                if d.const is not None and 0 <= d.const and d.const + nb <= E:
                    if sk.const == 0: return True
                    # element 0: needs n>=1 or an executed loop
                    if it is not None or leq(f, f.norm(n - 1)): return True
                    return None
                # offset within element
                c = d.m.get((), 0)
                for o in range(0, E, max(1, nb)):
                    q = (d - o).divexact(sk) if sk.const != 0 else None
                    if q is not None: break
                if q is None: return None
            lo, hi = q, q
            span = 1
        else:
            if sk.const != E: return None
            q = d.divexact(topoly(E))
            if q is None or nb % E: return None
            span = nb // E
        # q affine in it with non-negative step
        st = ZERO; step = ZERO
        if it is not None:
            for k, v in q.m.items():
                if it in k:
                    kk = list(k); kk.remove(it)
                    if kk: return None
                    step = step + v
                else: st = st + Poly({k: v})
            c = step.const
            if c is None or c < 0: return None
            first, last = st, st + (T - 1) * c
            g = f.copy(); g.addge(T - 1)
            if g.bad: return True
        else: first = last = q; g = f
        if leq(g, g.norm(first)) and leq(g, g.norm(n - span - last)): return True
        return None
    def refute_read(self, f, d, nb, sk, E, it, T, k):
        cnt = 0
        for env in self.vals(f):
            try:
                n = env[self.n]; s = pev(sk, env)
                Tn = 1 if it is None else pev(T, env)
                if Tn < 1: continue
                for kk in {0, Tn - 1}:
                    en = dict(env)
                    if it is not None: en[it] = kk
                    b = pev(d, en)
                    okb = True
                    if n == 0: okb = s == 0 and 0 <= b and b + nb <= E
                    elif s == E: okb = 0 <= b and b + nb <= n * E
                    elif nb <= E:
                        okb = any(i * s <= b and b + nb <= i * s + E for i in range(n))
                    else: okb = any(i * s <= b and b + nb <= i * s + E for i in range(n))
                    if not okb: return {'byte_offset': b, 'width': nb, 'valuation': {str(x): y for x, y in env.items()}}
            except Undef: continue
            cnt += 1
            if cnt > 250: break
        return None
    def refute_align(self, f, a, it, T, e):
        cnt = 0
        for env in self.vals(f):
            try:
                Tn = 1 if it is None else pev(T, env) if T is not None else 1
                if Tn < 1: continue
                for kk in {0, Tn - 1}:
                    en = dict(env)
                    if it is not None: en[it] = kk
                    if pev(a, en) % e.al: return {'address_mod_%d' % e.al: pev(a, en) % e.al, 'valuation': {str(x): y for x, y in env.items()}}
            except Undef: continue
            cnt += 1
            if cnt > 400: break
        return None

    # ------------------------------------------------------------ in-place hazard
    def hazard(self, st, f, sitems, F, stats, tiled):
        """when the output is exactly one of the operands, each element is read before its result is stored"""
        sidx = {id(e): (idx, lanes) for idx, lanes, it, T, e in sitems}
        for j, k in enumerate(self.ins):
            if self.esz[k] != self.esz[self.out]: continue
            g = f.copy(); g.addeq(self.base(self.out) - self.base(k)); g.addeq(pvar(self.st_out) - pvar(self.st_in[j]))
            if g.bad: continue
            so = g.norm(pvar(self.st_out))
            if so.const == 0: continue
            seq = []; loose = None; hit = None
            for e in st.ev:
                if e.k == 'store' and id(e) in sidx:
                    idx, lanes = sidx[id(e)]; seq.append((e, g.norm(idx), lanes))
                elif e.k == 'load':
                    kb = self.kbase(e.addr)
                    if kb is None or not (kb is self.ptr[k] or kb is self.ptr[self.out] or self.same(g, self.ptr.index(kb), k)): continue
                    kk = self.ptr.index(kb)
                    q = (g.norm(e.addr) - g.norm(self.base(kk))).divexact(so)
                    if q is None: loose = loose or e; continue
                    seq.append((e, q, max(1, e.n // self.esz[k])))
            stats['inplace'] = stats.get('inplace', 0) + 1
            for p, (e, q, span) in enumerate(seq):
                if e.k != 'load': continue
                own = False
                for p2, (se, idx, lanes) in enumerate(seq):
                    if se.k != 'store' or se.ctx != e.ctx: continue
                    x = (q - idx).const
                    if x is None: continue
                    if x < lanes and x + span > 0 and p2 < p: hit = hit or (e, se, {'same iteration': True})
                    if 0 <= x and x + span <= lanes and p2 > p: own = True
                if not (own and tiled) and hit is None and loose is None: loose = e
            if hit is None and loose is not None: hit = self.refute_hazard(g, seq)
            if hit: F.append(Finding('hazard', 'ne', 'operand element is read after the output element of the same index was written (in-place use)', loc(hit[0].i), dict(hit[2], store=loc(hit[1].i)))); return
            if loose is not None: F.append(Finding('hazard', 'unk', 'order of reads and writes for in-place use', loc(loose.i)))
    def refute_hazard(self, g, seq):
        groups = []
        for e, q, n in seq:
            if groups and groups[-1][0] == e.ctx: groups[-1][1].append((e, q, n))
            else: groups.append((e.ctx, [(e, q, n)]))
        cnt = 0
        for env in self.vals(g):
            cnt += 1
            if cnt > 250: break
            try:
                done = {}
                for ctx, evs in groups:
                    if len(ctx) > 1: raise Undef
                    it, T = ctx[0] if ctx else (None, None)
                    Tn = 1 if it is None else pev(g.norm(T), env)
                    if Tn > 5000: raise Undef
                    for r in range(max(0, Tn)):
                        en = dict(env)
                        if it is not None: en[it] = r
                        for e, q, span in evs:
                            b = pev(q, en)
                            for x in range(b, b + span):
                                if e.k == 'store': done[x] = e
                                elif x in done: return e, done[x], {'element': x, 'n': env[self.n]}
            except Undef: continue
        return None
_cache = {}

# ================================================================================ reductions
class RedKernel(Kernel):
    """(in, out, start, n, stride): out = start op in[0] op ... op in[n-1], every element exactly once"""
    OPS = {'add': ('P+', 'fadd'), 'mul': ('P*', 'fmul'), 'or': ('or',), 'and': ('and',), 'smin': ('smin',), 'smax': ('smax',), 'umin': ('umin',), 'umax': ('umax',)}
    def __init__(self, mod, gc, fname, E, op, kind, luts=None):
        Kernel.__init__(self, mod, gc, fname, 'red', [E, E, E], luts); self.op = op; self.kind = kind; self.E = E
        self.idem = op in ('or', 'and', 'smin', 'smax', 'umin', 'umax')
    def bitleaves(self, t, off, n, ctx, out, own):
        """n bits at off of a term built with the bitwise reduction operation"""
        if t.op == self.op: self.bitleaves(t.a[0], off, n, ctx, out, own); self.bitleaves(t.a[1], off, n, ctx, out, own); return
        if t.op == 'slice': self.bitleaves(t.a[0], off + t.a[1], n, ctx, out, own); return
        if t.op == 'cat':
            pos = 0
            for p in t.a[0]:
                if pos <= off and off + n <= pos + p.w: self.bitleaves(p, off - pos, n, ctx, out, own); return
                pos += p.w
        if t.op == 'acc' and own is not None and t in own: own[t] += 1; return
        if t.op == 'fold':
            it, pid, lane, T = t.a; L = self.w.loops[it]
            if L.latches == 1:
                e = L.entry[pid]; la = L.latch[0][pid]; a = L.acc[pid]
                if isinstance(e, Vec): e = e.l[lane]; la = la.l[lane]; a = a.l[lane]
                self.bitleaves(e, off, n, ctx, out, own)
                my = {a: 0}; sub = []
                self.bitleaves(la, off, n, ctx + ((it, T),), sub, my)
                if my[a] == 1: out += sub; return
        if t.op == 'ldd' and off % 8 == 0 and n == 8:
            out.append(('ld', mk('ldd', 8, t.a[0] + off // 8, *t.a[1:]), ctx)); return
        out.append(('other', t, ctx))
    def leaves(self, t, ctx, out, own):
        """decompose t by the reduction operation"""
        op = self.op; o = t.op
        if op in ('or', 'and') and o == 'slice': return self.bitleaves(t, 0, t.w, ctx, out, own)
        if o in ('fptrunc', 'fpext') and self.kind == 'f': return self.leaves(t.a[0], ctx, out, own)
        if op == 'add' and o == 'P':
            for k, c in t.a[0].m.items():
                if c != 1 or len(k) != 1: out.append(('other', t, ctx)); return
            for k in t.a[0].m: self.leaves(k[0], ctx, out, own)
            return
        if op == 'mul' and o == 'P':
            m = list(t.a[0].m.items())
            if len(m) == 1 and m[0][1] == 1:
                for x in m[0][0]: self.leaves(x, ctx, out, own)
                return
            # product spelled out over 32-bit halves
            at = set(); E = self.E
            def whole(x):
                a = x.a[0]; off = (a - self.base(0)).m.get((), 0) % E if self.kbase(a) is self.ptr[0] else 0
                return tslice(mk('elem', 8 * E, a - off), off * 8, x.w) if x.w + 8 * off <= 8 * E else x
            t = self.rewrite(t, whole, {})
            def coll(x):
                if x.op in ('fold', 'acc', 'ldd', 'ld', 'elem'): at.add(x); return
                for y in (x.a[0].atoms() if x.op == 'P' else [z for y in x.a for z in (y if isinstance(y, tuple) else (y,)) if isinstance(z, Term)]): coll(y)
            coll(t); at = sorted(at, key=lambda x: x.id)
            if t.w == 64 and at and all(x.w == 64 for x in at):
                p = topoly(1)
                for x in at: p = p * pvar(x)
                if halves(t, at) is halves(P(64, p), at):
                    for x in at: self.leaves(x, ctx, out, own)
                    return
            out.append(('other', t, ctx)); return
        if op in ('add', 'mul') and self.kind == 'f' and o == 'f' + op:
            self.leaves(t.a[0], ctx, out, own); self.leaves(t.a[1], ctx, out, own); return
        if o == op and isinstance(t.a[0], Term):
            self.leaves(t.a[0], ctx, out, own); self.leaves(t.a[1], ctx, out, own); return
        if o == 'acc':
            if own is not None and t in own: own[t] += 1; out.append(('acc', t, ctx)); return
            out.append(('other', t, ctx)); return
        if o == 'fold':
            it, pid, lane, T = t.a; L = self.w.loops[it]
            if L.latches != 1: out.append(('other', t, ctx)); return
            e = L.entry[pid]; la = L.latch[0][pid]; a = L.acc[pid]
            if isinstance(e, Vec): e = e.l[lane]; la = la.l[lane]; a = a.l[lane]
            self.leaves(e, ctx, out, own)
            my = {a: 0}; sub = []
            self.leaves(la, ctx + ((it, T),), sub, my)
            if my[a] != 1: out.append(('other', t, ctx)); return
            out += [x for x in sub if x[0] != 'acc']
            return
        if o in ('ldd', 'ld', 'elem'): out.append(('ld', t, ctx)); return
        if isc(t) and t.a[0] == self.neutral(t.w): return
        out.append(('other', t, ctx))
    def neutral(self, w):
        op = self.op
        if op == 'add' or op == 'or': return 0
        if op == 'mul': return f2b(w, 1.0) if self.kind == 'f' else 1
        return None
    def analyse(self):
        F = []; stats = {'paths': 0, 'proved': 0, 'elements': 0, 'loads': 0}
        for st in self.paths:
            f0 = st.f
            if f0.bad: continue
            outs = [e for e in st.ev if e.k == 'store' and self.kbase(e.addr) is self.ptr[1]]
            other = [e for e in st.ev if e.k == 'store' and self.kbase(e.addr) in (self.ptr[0], self.ptr[2])]
            for e in other: F.append(Finding('tile', 'unk', 'store into an input', loc(e.i)))
            polys = []
            for e in st.ev:
                if e.k in ('load', 'store') and self.kbase(e.addr) is not None:
                    polys.append(e.addr)
                    polys += [T for it, T in e.ctx if T is not None]
            for f in splitcases(f0, polys):
                if f.bad: continue
                stats['paths'] += 1
                self.red1(st, f, outs, F, stats)
        return F, stats
    def red1(self, st, f, outs, F, stats):
        where = loc(outs[-1].i) if outs else self.fn.dem[:60]
        if len(outs) != 1 or outs[0].ctx or outs[0].conds or f.norm(outs[0].addr - self.base(1)).const != 0 or outs[0].n not in (self.E, 10):
            F.append(Finding('tile', 'unk', 'result is not stored exactly once to the output', where))
        else:
            e = outs[0]; v = e.v
            ls = []; self.leaves(v, (), ls, None)
            sa = f.norm(self.base(2)); ib = f.norm(self.base(0)); s0 = f.norm(pvar(self.stride[0]))
            start = 0; items = []; bad = None; mult = ZERO
            for k, t, ctx in ls:
                if k != 'ld': bad = 'term %s' % str(t)[:100]; continue
                a = f.norm(t.a[0])
                if (a - sa).const == 0 and t.w == 8 * self.E and not ctx: start += 1; continue
                if t.w != 8 * self.E and not (self.E == 16 and t.w == 80): bad = 'load width'; continue
                if len(ctx) > 1: bad = 'nested'; continue
                it, T = ctx[0] if ctx else (None, None)
                T = f.norm(T) if T is not None else None
                d = a - ib
                if s0.const == 0:
                    if d.const != 0: bad = 'address'; continue
                    mult = mult + (T if T is not None else 1); continue
                q = d.divexact(s0)
                if q is None: bad = 'address %s' % d; continue
                items.append((q, 1, it, T, e))
            ok = False
            if bad is None and start == 1:
                if s0.const == 0: ok = iszero(f, f.norm(mult - pvar(self.n)))
                else:
                    segs, why = make_segs(items)
                    ok = segs is not None and chain(f, segs, pvar(self.n))
                    bad = str(why[0]) if why else 'segments do not chain'
            if ok: stats['proved'] += 1; stats['elements'] += len(items)
            else:
                wit = self.refute(f, v)
                F.append(Finding('value', 'ne' if wit else 'unk', 'reduction result differs from start op every element' if wit else 'reduction: %s (start used %d times)' % (bad, start), where, wit))
        self.access(st, f, F, stats)
    # ---- concrete witness: interpret the extracted term over small arrays
    def refute(self, f, v):
        cnt = 0
        for env in self.vals(f):
            n = env[self.n]
            if n > 70: continue
            cnt += 1
            if cnt > 60: break
            r = self.sim(f, v, env)
            if r is not None: return r
        return None
    def sim(self, f, v, env):
        n = env[self.n]; s = env.get(self.stride[0])
        if s is None:
            try: s = pev(f.norm(pvar(self.stride[0])), env)
            except Undef: return None
        E = self.E; w = 80 if E == 16 else 8 * E
        base = pev(f.norm(self.base(0)), env); sb = pev(f.norm(self.base(2)), env)
        if self.kind == 'f': vals = [f2b(w, float(1 + (i * 7 + 3) % 5) if self.op != 'mul' else [1.0, 2.0, 0.5, 1.0, 4.0][(i * 7 + 3) % 5]) for i in range(n)]; sv = f2b(w, 1024.0)
        elif self.kind == 'b': vals = [0 if self.op in ('or', 'umax', 'smax', 'add') else 1] * n; sv = vals[0] if n else 0
        else: vals = [((i * 37 + 11) % 90 + 1) for i in range(n)]; sv = 50
        tests = [(vals, sv)]
        # idempotent operations need one distinguished element at each place
        if self.idem:
            lo = self.op in ('and', 'smin', 'umin')
            for p in range(n + 1):
                x = [50] * n; z = 50
                if self.kind == 'b': x = [1 if lo else 0] * n; z = x[0] if n else (1 if lo else 0)
                y = (1 if lo else 99) if self.kind != 'b' else (0 if lo else 1)
                if self.kind == 'i' and p % 2: y = -7 if lo else 99
                if self.kind == 'u' and not lo and p % 2: y = (1 << w) - 3
                if p < n: x[p] = y & ((1 << w) - 1)
                else: z = y & ((1 << w) - 1)
                tests.append((x, z))
        m = (1 << w) - 1
        for vals, sv in tests:
            if s == 0: vals = [vals[0]] * n if n else vals
            def look(t):
                a = pev(f.norm(t.a[0]), env)
                if t.w != w: raise Undef('width')
                for i in range(n):
                    if a == base + i * s: return vals[i]
                if a == sb: return sv
                raise Undef('other address')
            try: got = self.simev(f, v, dict(env), look)
            except Undef: return None
            if self.kind == 'f':
                acc = getf(w, sv)
                for x in vals: acc = acc + getf(w, x) if self.op == 'add' else acc * getf(w, x)
                if acc != getf(w, got): return {'n': n, 'stride': s, 'computed': getf(w, got), 'expected': acc}
                continue
            acc = sv
            for x in vals:
                if self.op == 'add': acc = (acc + x) & m
                elif self.op == 'mul': acc = (acc * x) & m
                elif self.op == 'or': acc |= x
                elif self.op == 'and': acc &= x
                else: acc = (min if self.op.endswith('min') else max)(acc, x, key=(lambda z: sgn(z, w)) if self.op[0] == 's' else (lambda z: z))
            if acc != got: return {'n': n, 'stride': s, 'values': vals[:8], 'start': sv, 'computed': got, 'expected': acc}
        return None
    def simev(self, f, t, env, look):
        memo = {}
        def need(t, env):
            """evaluate every fold / load below t into env"""
            for x in subterms(t):
                if x in env: continue
                if x.op in ('ldd', 'ld'):
                    if any(y.op == 'it' and y not in env for y in deepatoms(x.a[0])): continue
                    env[x] = look2(x, env)
                elif x.op == 'undefmem': env[x] = 0x41e5a3c7b1d2f96b & ((1 << x.w) - 1)
                elif x.op == 'fold': env[x] = fold(x, env)
        def look2(x, env):
            y = look_env(x, env)
            return y
        def look_env(x, env):
            a = pev(f.norm(x.a[0]), env)
            class Q: pass
            q = Q(); q.a = (topoly(a),); q.w = x.w
            return look(q)
        def fold(x, env):
            it, pid, lane, T = x.a; L = self.w.loops[it]
            key = ('loop', it)
            if key not in env:
                n = pev(f.norm(T), env)
                if n > 400: raise Undef('trip')
                cur = {}
                for p, a in L.acc.items():
                    e = L.entry[p]
                    for a1, e1 in (zip(a.l, e.l) if isinstance(a, Vec) else [(a, e)]):
                        en = env; need(e1, en); cur[a1] = ev(e1, {k: v for k, v in en.items() if isinstance(k, Term)}, {})
                for k in range(max(0, n)):
                    en = {k2: v for k2, v in env.items() if isinstance(k2, Term)}; en[it] = k; en.update(cur)
                    nx = {}
                    for p, a in L.acc.items():
                        la = L.latch[0][p]
                        for a1, l1 in (zip(a.l, la.l) if isinstance(a, Vec) else [(a, la)]):
                            e2 = dict(en)
                            for y in subterms(l1):
                                if y.op in ('ldd', 'ld') : e2[y] = look_env(y, en)
                                elif y.op == 'undefmem': e2[y] = 0x41e5a3c7b1d2f96b & ((1 << y.w) - 1)
                            nx[a1] = ev(l1, e2, {})
                    cur = nx
                env[key] = cur
            a = L.acc[pid]
            return env[key][a.l[lane] if isinstance(a, Vec) else a]
        need(t, env)
        return ev(t, {k: v for k, v in env.items() if isinstance(k, Term)}, {})
