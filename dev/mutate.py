"""mutate.py N OUT [files...]: token-level mutants of every library function; which ones leave the function's summary unchanged? (developer tool, measures blind spots)"""
import sys, os, re, json, random, subprocess, tempfile, shutil, threading, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + '/lib', H + '/rules', H]
sys.setrecursionlimit(40000); threading.stack_size(512 << 20)
N = int(sys.argv[1]); OUT = sys.argv[2]; only = sys.argv[3:]
rnd = random.Random(int(os.environ.get('SEED', '1')))
import build
from ir import Program
from frozen import Spec, compute
import specs
BASE = json.load(open(os.environ.get('BASE', '/tmp/A.json')))
D = tempfile.mkdtemp(prefix='mut_')
srcs = ['MDLIB/' + f for f in build.sources()]
def comp(src, o, cwd): return subprocess.run(['clang'] + build.FLAGS + [src, '-o', o], cwd=cwd, capture_output=True).returncode == 0
bc = {}
for i, f in enumerate(srcs):
    bc[f] = '%s/%02d.bc' % (D, i); assert comp(f, bc[f], build.REPO)
def prog(over, j):
    L = [over.get(f, bc[f]) for f in srcs]
    r = subprocess.run([build.tool(), '-o', j, '-keep', H + '/data/functions.txt'] + L, capture_output=True, text=True)
    if r.returncode: return None
    return Program(j)
P0 = build.load()
SLOWF = {'RunMDOODZ', 'ViscosityConciseAniso', 'ViscosityConcise', 'GenerateDeformationMaps', 'LocalIterationViscoElasticGrainSize', 'P2Mastah', 'CountPartCell'}
# function line ranges
funs = {}
for f in srcs:
    txt = open(build.REPO + '/' + f).read().split('\n')
    for n, F in P0.fn.items():
        loc = F.loc()
        if loc.split(':')[0] != f: continue
        ls = [I.loc() for I in F.insts()]
        ls = [int(x.split(':')[1]) for x in ls if x and x.startswith(f + ':')]
        ls = [x for x in ls if x > 0]
        if ls: funs[n] = (f, min(ls), max(ls))
OPS = [(r'(?<![-+*/<>=!&|eE(,])\s\+\s(?!=)', ' - '), (r'(?<![-+*/<>=!&|eE(,])\s-\s(?!=)', ' + '), (r'(?<=[\w)\]])\s?\*\s?(?=[\w(])', '/'), (r'(?<=[\w)\]])\s?/\s?(?=[\w(])', '*'), (r'<=', '<'), (r'(?<![<\-])<(?![<=])', '<='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
       (r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1)), (r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(max(0, int(m.group(1)) - 1))), (r'(?<![\w])(\d+\.\d+)', lambda m: str(float(m.group(1)) * 2 + (1 if float(m.group(1)) == 0 else 0))),
       (r'\bNx\b', 'Nz'), (r'\bNz\b', 'Nx'), (r'\bNcx\b', 'Ncz'), (r'\bdx\b', 'dz'), (r'\bdz\b', 'dx'), (r'_n\b', '_s'), (r'_s\b', '_n'), (r'\bBCu\b', 'BCv'), (r'\bBCp\b', 'BCt'), (r'\+=', '-='), (r'-=', '+='), (r'\bxx', 'zz'), (r'szz', 'sxx'), (r'\bexx', 'ezz'), (r'->S\b', '->E'), (r'->L\b', '->t'), (r'\[k\]', '[k+1]'), (r'\[c(\d)\]', r'[c\1+1]'), (r'\bi\+\+', 'i+=2'),
       (r'^\s*[\w>\-.\[\]+*() ]+\s[-+*/]?=[^=].*;\s*$', '')]
def mutants(n):
    f, a, b = funs[n]
    L = open(build.REPO + '/' + f).read().split('\n')
    out = []; tries = 0
    while len(out) < N and tries < N * 40:
        tries += 1
        i = rnd.randint(a, b) - 1; l = L[i]
        code = l.split('//')[0]
        if 'printf' in code or 'LOG' in code or not code.strip() or code.strip().startswith(('#', '*', '/*')) or 'noisy' in code: continue
        p, r = rnd.choice(OPS)
        ms = list(re.finditer(p, code))
        if not ms: continue
        m = rnd.choice(ms)
        new = code[:m.start()] + (m.expand(r) if isinstance(r, str) else r(m)) + code[m.end():]
        if new.strip() == code.strip() or (f, i, new) in [x[:3] for x in out]: continue
        out.append((f, i, new, l))
    return out
def work(n, ms, path):
    res = []
    for k, (f, i, new, old) in enumerate(ms):
        d = '%s/%s_%d' % (D, n, k); os.makedirs(d + '/MDLIB', exist_ok=True)
        L = open(build.REPO + '/' + f).read().split('\n'); L[i] = new
        base = os.path.basename(f)
        for x in os.listdir(build.REPO + '/MDLIB'):
            if x != base: os.symlink(build.REPO + '/MDLIB/' + x, d + '/MDLIB/' + x)
        open(d + '/MDLIB/' + base, 'w').write('\n'.join(L))
        o = d + '/m.bc'
        if not comp(f, o, d): res.append(('nocompile',)); shutil.rmtree(d); continue
        P = prog({f: o}, d + '/p.json')
        if P is None: res.append(('tool', f, i + 1, old, new)); shutil.rmtree(d); continue
        from modref import ModRef
        P.mr = ModRef(P)
        try:
            from frozen import summary, pairs
            sp = Spec(n, calls=specs.significant, ret=True)
            S, v, loc, cm, cl, r = summary(P, sp)
            b = BASE[n]
            from summ import opaque
            same = v == b['v'] and {k2: x for k2, x in cm.items()} == {k2: x for k2, x in b['c'].items() if specs.significant(k2.split('(')[0])} and r == b['r']
            op = sum(opaque(k2) or opaque(x) for k2, x in list(v.items()) + list(cm.items()))
            o2 = [[sorted(cm)[a] , sorted(cm)[c]] for a, c in pairs(S, sp, cm)]
            res.append(('same' if same else 'killed', f, i + 1, old, new, op))
        except Exception as e: res.append(('err ' + repr(e)[:80], f, i + 1, old, new))
        shutil.rmtree(d)
    json.dump(res, open(path, 'w'))
names = [n for n in funs if n not in SLOWF and (not only or n in only or os.path.basename(funs[n][0]) in only)]
if only: names += [n for n in only if n in SLOWF]
live = {}
def reap(block):
    while True:
        for pid, (n, t) in list(live.items()):
            r, _ = os.waitpid(pid, os.WNOHANG)
            if r: del live[pid]
            elif time.time() - t > 1500: os.kill(pid, 9); os.waitpid(pid, 0); del live[pid]; print('TIMEOUT', n)
        if (block and live) or len(live) >= 8: time.sleep(.05)
        else: return
for n in names:
    ms = mutants(n)
    reap(False)
    pid = os.fork()
    if pid == 0:
        t = threading.Thread(target=work, args=(n, ms, D + '/' + n + '.json')); t.start(); t.join(); os._exit(0)
    live[pid] = (n, time.time())
reap(True)
R = {n: json.load(open(D + '/' + n + '.json')) for n in names if os.path.exists(D + '/' + n + '.json')}
json.dump(R, open(OUT, 'w'), indent=0)
from collections import Counter
c = Counter(x[0].split()[0] for r in R.values() for x in r)
print(c)
shutil.rmtree(D)
