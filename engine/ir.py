"""In-memory model of the canonicalised IR written by irdump (pure data, no execution)."""
import json, re
from collections import defaultdict

class Ins:
    __slots__ = ('o','id','t','d','fn','bb','idx')
    def __init__(self, d, fn, bb, idx):
        self.o = d['o']; self.id = d['id']; self.t = d['t']; self.d = d; self.fn = fn; self.bb = bb; self.idx = idx
    def __getitem__(self, k): return self.d[k]
    def get(self, k, dflt=None): return self.d.get(k, dflt)
    @property
    def ops(self): return self.d.get('a', [])
    @property
    def callee(self):
        c = self.d.get('callee')
        if isinstance(c, list) and c[0] == 'g': return c[1]
        return None
    @property
    def loc(self):
        l = self.d.get('l')
        return l
    def where(self):
        l = self.d.get('l')
        if not l:
            return '%s:%s(%s)' % (self.fn.file, self.fn.line, self.fn.short)
        s = '%s:%d' % (l[0][0], l[0][1])
        if len(l) > 1: s += ' (inlined into %s:%d)' % (l[-1][0], l[-1][1])
        return s + ' in ' + self.fn.short

class Block:
    def __init__(self, d, fn):
        self.id = d['id']; self.loop = d['loop']; self.fn = fn
        self.ins = [Ins(x, fn, self, i) for i, x in enumerate(d['ins'])]
        self.preds = []
        self.succs = []
    @property
    def term(self): return self.ins[-1]

class Loop:
    def __init__(self, d):
        self.id = d['id']; self.header = d['header']; self.parent = d['parent']; self.blocks = set(d['blocks'])
        self.exiting = [(a, b) for a, b in d['exiting']]; self.btc = d['btc']

class Function:
    def __init__(self, d, mod):
        self.mod = mod; self.name = d['name']; self.dem = d['dem']; self.file = d.get('file', '?'); self.line = d.get('line', 0)
        self.internal = d['internal']; self.args = d['args']; self.ret = d['ret']; self.src = d.get('src', d['name'])
        self.blocks = [Block(b, self) for b in d['blocks']]
        self.loops = {l['id']: Loop(l) for l in d['loops']}
        self.byid = {}
        for b in self.blocks:
            for i in b.ins: self.byid[i.id] = i
        for b in self.blocks:
            b.succs = succs_of(b.term)
        for b in self.blocks:
            for s in b.succs: self.blocks[s].preds.append(b.id)
        self._dom = None; self._pdom = None
    @property
    def short(self):
        return re.sub(r'\(.*\)$', '', self.dem) if len(self.dem) < 400 else self.src
    def isarg(self, v): return isinstance(v, int) and v < len(self.args)
    def ins(self):
        for b in self.blocks:
            for i in b.ins: yield i
    def calls(self):
        for i in self.ins():
            if i.o in ('call', 'invoke'): yield i
    def dom(self):
        if self._dom is None: self._dom = dominators(len(self.blocks), 0, {b.id: b.preds for b in self.blocks}, {b.id: b.succs for b in self.blocks})
        return self._dom
    def dominates(self, a, b):
        """block a dominates block b"""
        return a in self.dom().get(b, ())
    def loopchain(self, bid):
        l = self.blocks[bid].loop
        while l is not None:
            yield l
            l = self.loops[l].parent

def succs_of(t):
    if t.o == 'br': return list(t['s'])
    if t.o == 'switch': return list(dict.fromkeys([t['def']] + [c[1] for c in t['cases']]))
    if t.o == 'invoke': return list(t['s'])
    return []

def dominators(n, entry, preds, succs):
    order = []; seen = set()
    stack = [(entry, iter(succs[entry]))]; seen.add(entry)
    while stack:
        node, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s); stack.append((s, iter(succs[s]))); break
        else:
            order.append(node); stack.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None: new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while idx[a] > idx[c]: a = idom[a]
                            while idx[c] > idx[a]: c = idom[c]
                        new = a
            if idom.get(b) != new: idom[b] = new; ch = True
    dom = {}
    for b in order:
        s = {b}; x = b
        while idom[x] != x: x = idom[x]; s.add(x)
        dom[b] = s
    return dom

class Module:
    def __init__(self, path, unit):
        with open(path) as f: d = json.load(f)
        self.unit = unit
        self.globals = {g['name']: g for g in d['globals']}
        self.structs = d['structs']
        self.decls = set(d['decls'])
        self.functions = {}
        for fd in d['functions']:
            f = Function(fd, self); self.functions[f.name] = f

# ---------------------------------------------------------------- printing
def pv(v, fn=None):
    if isinstance(v, int):
        if fn is not None and v < len(fn.args): return '%%%s' % (fn.args[v][1] or v)
        return '%%%d' % v
    if v is None: return '-'
    if v[0] == 'i': return str(v[1])
    if v[0] == 'f': return 'f' + v[1]
    if v[0] == 'g': return '@' + v[1]
    if v[0] == 'v': return '<' + ','.join(pv(x) for x in v[1][:4]) + ('..' if len(v[1]) > 4 else '') + '>'
    return str(v)

def ps(s, fn=None):
    if s is None: return '-'
    k = s[0]
    if k == 'c': return str(s[1])
    if k == 'u': return pv(s[1], fn)
    if k in ('add', 'mul'): return '(' + (' + ' if k == 'add' else ' * ').join(ps(x, fn) for x in s[1:]) + ')'
    if k == 'rec': return '{' + ',+,'.join(ps(x, fn) for x in s[2:]) + '}L%d' % s[1]
    if k in ('zext', 'sext', 'trunc', 'p2i'): return '%s%s(%s)' % (k, s[3], ps(s[1], fn))
    return k + '(' + ', '.join(ps(x, fn) for x in s[1:]) + ')'

def show(fn):
    out = ['define %s  [%s:%s] args=%s' % (fn.dem[:300], fn.file, fn.line, [a[1] or i for i, a in enumerate(fn.args)])]
    for l in fn.loops.values():
        out.append('  loop L%d header b%d parent %s btc=%s exits=%s' % (l.id, l.header, l.parent, ps(l.btc, fn), [(a, ps(b, fn)) for a, b in l.exiting]))
    for b in fn.blocks:
        out.append('b%d: (loop %s) preds %s' % (b.id, b.loop, b.preds))
        for i in b.ins:
            s = '   %%%d = %s %s' % (i.id, i.o, i.t)
            if i.o in ('call', 'invoke'): s += ' ' + pv(i['callee'], fn) + '(' + ', '.join(pv(x, fn) for x in i.ops) + ')'
            elif i.o == 'phi': s += ' ' + ', '.join('[%s,b%d]' % (pv(x, fn), y) for x, y in i['in'])
            else: s += ' ' + ', '.join(pv(x, fn) for x in i.ops)
            if 'p' in i.d: s += ' ' + i['p']
            if i.o == 'getelementptr': s += ' off=%s var=%s' % (i.get('off'), [(pv(a, fn), c) for a, c in i.get('var', [])])
            if i.o in ('load', 'store'): s += ' sz%d al%d @ %s' % (i['sz'], i['al'], ps(i.get('ps'), fn))
            if 'sc' in i.d: s += '  ; ' + ps(i['sc'], fn)
            if i.o == 'br': s += ' ->' + str(i['s'])
            if i.o == 'switch': s += ' def b%d %s' % (i['def'], i['cases'])
            if 'l' in i.d and i['l']: s += '   !' + str(i['l'][0][1])
            out.append(s)
    return '\n'.join(out)
