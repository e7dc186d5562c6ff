"""C01-C07: what every registered loop stores, where, with which alignment, and in which order relative to its reads."""
import os, sys, time, collections, multiprocessing as mp
import prog, wiring, kernels, names, specs, report
from kern import *
LUT = {'gBooleanLUT64': (8, False, 8), 'gBooleanLUT32': (4, False, 4), 'gBooleanLUT64Inverse': (8, True, 8), 'gBooleanLUT32Inverse': (4, True, 4)}
TECH = 'abstract interpretation of LLVM IR: path-sensitive symbolic value numbering of the loops with lane-wise normalisation and interval tiling'
_G = {}
def family(name):
    return 'bin' if name in names.BIN else 'cmp' if name in names.CMP else 'un' if name in names.UN else 'trig' if name in names.TRIG else None

def one(job):
    nm, ty, out, fn, role = job
    P = _G['P']; t0 = time.time()
    try:
        m = P.mod(fn[1]); gc = _G.setdefault(('gc', fn[1]), None) or global_consts(m); _G[('gc', fn[1])] = gc
        if fn[2] not in m.functions: raise Unsupported('no body for ' + fn[2])
        where = m.functions[fn[2]].dem.split('(')[0][-70:]
        fam = family(nm)
        if role == 'red':
            if ty not in TY: return job, where, 'unsupported', 'element type', {}, 0
            op = names.reduce_op(nm, TY[ty][1])
            if op is None: return job, where, 'unsupported', 'no reduction formula for ' + nm, {}, 0
            k = RedKernel(m, gc, fn[2], ESZ[ty], op, TY[ty][1]).run(); F, s = k.analyse(); spec = True
        else:
            E = ESZ[ty]; O = ESZ[out]
            sp = None
            if ty in TY:
                sp = specs.binary(names.BIN[nm], ty) if fam == 'bin' else specs.compare(names.CMP[nm], ty) if fam == 'cmp' else specs.unary(names.UN[nm], ty, out) if fam == 'un' else None
            esz = [E, E, O] if role == 'bin' else [E, O]
            k = Kernel(m, gc, fn[2], role, esz, LUT).run(); F, s = k.analyse(*(sp or (None, 'bits', ('i', 'i')))); spec = sp is not None
        fs = [(x.kind, x.verdict, x.msg, x.where, str(x.wit)[:600] if x.wit else None) for x in F]
        return job, where, 'ok', fs, dict((a, b) for a, b in s.items() if isinstance(b, (int, str))), spec
    except (Unsupported, TooComplex) as ex: return job, fn[2], 'unsupported', str(ex), {}, 0
    except RecursionError: return job, fn[2], 'unsupported', 'nesting too deep', {}, 0
    except Exception as ex: return job, fn[2], 'unsupported', '%s: %s' % (type(ex).__name__, ex), {}, 0

FAMS = {'C01': ('bin',), 'C02': ('cmp',), 'C03': ('un',), 'C04': ('red',)}
KINDS = {'C01': ('value', 'tile'), 'C02': ('value', 'tile'), 'C03': ('value', 'tile'), 'C04': ('value', 'tile'), 'C05': ('tile', 'read'), 'C06': ('align',), 'C07': ('hazard',)}
TEXT = {'value': 'the stored element equals the formula NumPy documents for this function and element type, for every input value (vector lanes, remainder loop and strided loop)',
        'tile': 'the stores of every path cover each of the n output elements exactly and nothing outside',
        'read': 'every load stays inside the n input elements', 'align': 'no load or store assumes more alignment than the element type guarantees',
        'hazard': 'an element of an operand is never read after the same or another position of the output overlapping it exactly has been written'}
def jobs_of(P, pid):
    R, E, size = kernels.collect(P)
    seen = set(); jobs = []; skipped = []
    for e in E:
        for k, f in e.fns:
            r = kernels.role(P, f); fam = family(e.name)
            if r is None: skipped.append((e.name, e.dtype, f[2], 'not a loop signature')); continue
            if fam is None: skipped.append((e.name, e.dtype, f[2], 'no formula table for ' + e.name)); continue
            ty = names.NP2T[e.dtype]; out = names.NP2T[names.out_type(e.name, e.dtype)]
            j = (e.name, ty, out, f, r)
            if j in seen: continue
            seen.add(j); jobs.append(j)
    want = FAMS.get(pid)
    if want: jobs = [j for j in jobs if (('red' if j[4] == 'red' else family(j[0])) in want)]
    return jobs, skipped, R

def runall(P, jobs):
    _G['P'] = P
    for u in sorted(set(j[3][1] for j in jobs)):
        m = P.mod(u); _G[('gc', u)] = global_consts(m)
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1), initializer=init) as pool: return pool.map(one, jobs, chunksize=1)
def init():
    sys.setrecursionlimit(20000)

def kernel_obligations(ck, P, pid):
    jobs, skipped, R = jobs_of(P, pid)
    for k in KINDS[pid]: ck.rule(k, TEXT[k])
    for s in skipped: ck.undecided(KINDS[pid][0], '%s[%s]' % (s[0], s[1]), s[3])
    ck.seen('registered loops', len(jobs))
    ck.seen('registrations', len(R['ufuncs']))
    for job, where, st, fs, stats, spec in runall(P, jobs):
        nm, ty, out, fn, role = job
        lab = '%s%s[type %d] -> %s' % (nm, '.reduce' if role == 'red' else '', ty, where)
        if st != 'ok':
            for k in KINDS[pid]: ck.undecided(k, lab, fs)
            continue
        for a, b in stats.items():
            if isinstance(b, int): ck.seen(a, b)
        for k in KINDS[pid]:
            if k == 'value' and not spec: ck.undecided(k, lab, 'no formula'); continue
            ff = [x for x in fs if x[0] == k]
            if not ff: ck.ok(k, sample=lab + ' ' + str({a: stats[a] for a in ('paths', 'lanes') if a in stats})); continue
            ne = [x for x in ff if x[1] == 'ne' and not (k == 'hazard' and nm in ('minimum', 'maximum', 'fmin', 'fmax', 'bitwise_and', 'bitwise_or', 'logical_and', 'logical_or'))]     # f(f(a, b), b) = f(a, b)
            for x in ne[:3]: ck.violation(k, '%s/%s/%d/%s' % (k, nm, ty, role), '%s (%s)' % (where, x[3]), '%s: %s' % (lab.split(' ->')[0], x[2]), x[4])
            if not ne: ck.undecided(k, lab, ff[0][2])
    return R

def main(pid, tier):
    ck = report.Check(pid, tier, TECH)
    P = prog.Program()
    R = kernel_obligations(ck, P, pid)
    if pid in ('C01', 'C02', 'C03', 'C04'):
        import c_dispatch; c_dispatch.obligations(ck, P, pid)
    ck.assume('the IR clang 18 emits at -O1 -disable-llvm-passes (with -mavx2) for the current sources is what the build compiles; float arithmetic rounds to nearest')
    ck.assume('loop arguments satisfy what NumPy guarantees: n >= 0, operands of n elements at the given strides, element-aligned, and either disjoint or exactly overlapping')
    return report.finish(ck, explanation='Every loop pointer found in the tables the enabling routine registers with NumPy is interpreted symbolically on every path; each stored element is normalised and compared with the required formula, each access is placed in the operand it belongs to.')
