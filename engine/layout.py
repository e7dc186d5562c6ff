"""Field offsets of the records of the code base, from the compiler's own layout computation (nothing is compiled or run)."""
import re, os, subprocess, json, prog
def layouts(P, header='atop/threads.h', uses='stMATH_WORKER_ITEM a; stWorkerRing* b; CMathWorker* c; int f(){return sizeof(*b)+sizeof(*c)+sizeof(a);}'):
    out = os.path.join(P.dir, 'layout-%s.json' % prog.hashlib.sha256((header + uses).encode()).hexdigest()[:10])
    if os.path.exists(out):
        with open(out) as f: return json.load(f)
    src = out + '.%d.cpp' % os.getpid()
    with open(src, 'w') as f: f.write('#include "%s"\n%s\n' % (os.path.join(P.src, header), uses))
    fl = [x for x in prog.flags() if x not in ('-g', '-O1', '-Xclang', '-disable-llvm-passes')]
    r = subprocess.run(['clang++-18', '-fsyntax-only', '-Xclang', '-fdump-record-layouts'] + fl + ['-I' + P.src + '/pnumpy', '-I' + P.src + '/atop', src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    os.unlink(src)
    d = parse(r.stdout)
    with open(out + '.tmp%d' % os.getpid(), 'w') as f: json.dump(d, f)
    os.replace(out + '.tmp%d' % os.getpid(), out)
    return d
def parse(t):
    """record -> {field: [offset, type]}, '#size'"""
    res = {}
    for blk in t.split('*** Dumping AST Record Layout'):
        name = None; cur = {}
        for l in blk.splitlines():
            m = re.match(r'^\s*(\d+)(?::[\d-]+)? \|( +)(.*)$', l)
            if m:
                off, ind, txt = int(m.group(1)), len(m.group(2)), m.group(3).strip()
                if ind == 1: name = re.sub(r'^(struct|class|union) ', '', txt)
                elif ind == 3 or (ind == 5 and 'anonymous' not in txt):
                    mm = re.match(r'^(.*?)\s*(\w+)$', txt)
                    if mm and mm.group(1) and 'anonymous' not in txt: cur.setdefault(mm.group(2), [off, mm.group(1).strip()])
            m = re.search(r'\[sizeof=(\d+)', l)
            if m and name: cur['#size'] = [int(m.group(1)), '']
        if name: res.setdefault(name, cur)
    return res
