"""Common driver of every check: evidence file, verdict lines, known findings."""
import os, json, time, re
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
KNOWN = os.path.join(VERIF, 'known-findings.txt')

class Check:
    def __init__(self, pid, tier, technique):
        self.pid = pid; self.tier = tier; self.technique = technique
        self.t0 = time.time(); self.viol = []; self.und = []; self.counts = {}; self.samples = []; self.notes = []; self.assumptions = []
        self.rules = {}; self.analysed = {}
    def rule(self, rid, text): self.rules[rid] = text
    def cnt(self, rid): return self.counts.setdefault(rid, [0, 0, 0])
    def ok(self, rid, n=1, sample=None):
        self.cnt(rid)[0] += n
        if sample and sum(1 for s in self.samples if s[0] == rid) < 5: self.samples.append((rid, str(sample)[:240]))
    def violation(self, rid, key, where, msg, witness=None):
        """key: line-number free identity of the construct"""
        self.cnt(rid)[1] += 1
        self.viol.append({'rule': rid, 'key': key, 'where': where, 'message': msg, 'witness': witness})
    def undecided(self, rid, where, msg):
        self.cnt(rid)[2] += 1
        self.und.append({'rule': rid, 'where': where, 'message': str(msg)[:300]})
    def seen(self, what, n=1): self.analysed[what] = self.analysed.get(what, 0) + n
    def note(self, s): self.notes.append(s)
    def assume(self, s):
        if s not in self.assumptions: self.assumptions.append(s)

def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'^known:\s+property=(\S+)\s+key=(\S+)\s+(.*)$', l.strip())
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3)
    return out

def finish(ck, level='other', explanation=''):
    kn = known(ck.pid); hit = set(); real = {}
    for v in ck.viol:
        k = re.sub(r'\s+', '_', v['key'])
        v['key'] = k
        if k in kn: hit.add(k)
        else: real.setdefault((v['rule'], k), v)
    real = list(real.values())
    rep = None
    edir = os.path.join(VERIF, 'evidence'); os.makedirs(edir, exist_ok=True)
    rp = os.path.join(edir, 'replay-%s.json' % ck.pid)
    if real:
        rep = rp
        with open(rep, 'w') as f: json.dump({'property': ck.pid, 'rules': ck.rules, 'violations': real, 'how_to_replay': 'python3 %s/check.py %s' % (VERIF, ck.pid)}, f, indent=1, default=str)
    elif os.path.exists(rp): os.unlink(rp)
    dis = sum(c[0] for c in ck.counts.values()); und = sum(c[2] for c in ck.counts.values())
    cov = {'explanation': explanation, 'technique': ck.technique, 'rules': ck.rules, 'analysed': ck.analysed,
           'by_rule': {k: {'discharged': c[0], 'violated': c[1], 'undecided': c[2]} for k, c in ck.counts.items()},
           'obligations': dis + und + len(ck.viol), 'discharged': dis, 'undecided': und,
           'evaluations': dis + und + len(ck.viol), 'distinct_nontrivial': dis,
           'rule': 'one obligation per analysed construct and rule; discharged means derived from the source for all inputs',
           'samples': [{'rule': a, 'what': b} for a, b in ck.samples], 'undecided_list': ck.und[:60], 'notes': ck.notes}
    if hit: cov['known_findings'] = sorted(hit)
    if real: cov['violating'] = [dict(rule=v['rule'], key=v['key'], where=v['where']) for v in real[:50]]
    ev = {'property': ck.pid, 'tier': ck.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': cov,
          'wall_s': round(time.time() - ck.t0, 2), 'violations': len(real), 'assumptions': ck.assumptions}
    with open(os.path.join(edir, ck.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    for k in sorted(hit): print('KNOWN-FINDING: property=%s %s' % (ck.pid, kn[k]))
    print('%s: %d obligations discharged, %d undecided, %d violated, %.1fs' % (ck.pid, dis, und, len(real), time.time() - ck.t0))
    for u in ck.und[:8]: print('  undecided [%s] %s: %s' % (u['rule'], u['where'], u['message'][:140]))
    for v in real[:20]: print('  %s: [%s] %s%s' % (v['where'], v['rule'], v['message'][:300], (' -- witness: ' + str(v['witness'])[:300]) if v['witness'] else ''))
    if real:
        print('VIOLATION property=%s replay=%s' % (ck.pid, rep)); return 1
    if dis == 0:
        print('%s: nothing could be analysed' % ck.pid); return 2
    return 0
