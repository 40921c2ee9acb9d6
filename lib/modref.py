"""which fields / pointer arguments a function may read and write, transitively (flow-insensitive)"""
from ir import *

QUIET = {'omp_get_wtime', 'omp_get_thread_num', 'omp_get_num_threads', 'omp_get_max_threads'}
EXTW = {'fread': [0], 'memcpy': [0], 'memset': [0], 'strcpy': [0], 'strcat': [0], 'sprintf': [0], 'snprintf': [0], 'asprintf': [0], 'llvm.memcpy.p0.p0.i64': [0], 'llvm.memset.p0.i64': [0], 'llvm.memmove.p0.p0.i64': [0], 'sscanf': [2, 3, 4], 'fscanf': [2, 3]}
EXTR = {'fwrite': [0], 'memcpy': [1], 'llvm.memcpy.p0.p0.i64': [1], 'printf': [1, 2, 3, 4, 5], 'strcmp': [0, 1]}


NOREAD = {'free', 'DoodzFree', 'realloc', 'DoodzRealloc', 'fread', 'memset'}


def pkey(F, p, write=False):
    """place -> ('F', field) (innermost named field, arrays and scalars alike) | ('A', k) | ('G', name) | None (local)"""
    fl = [s[1] for s in p.steps if s[0] == 'f']
    if p.base[0] == 'arg':
        if write and F.args[p.base[1]].get('byval') and ('*',) not in p.steps: return None
        if fl: return ('F', '.'.join(fl[-2:]) if len(fl) > 1 and fl[-1] in ('type', 'val') else fl[-1])
        return ('A', p.base[1])
    if p.base[0] == 'glob': return ('G', p.base[1])
    if p.base[0] == 'alloca':
        I = F.inst[p.base[1]]
        if I.d.get('st') and fl: return ('F', '.'.join(fl[-2:]) if len(fl) > 1 and fl[-1] in ('type', 'val') else fl[-1])
        return None
    if p.base[0] in ('phi', 'sel', 'cyc', 'val'): return ('F', '?') if not fl else ('F', fl[-1])
    return None


def pkeys(F, p, write=False):
    if p.base[0] == 'alloca' and ('*',) not in p.steps: return set()
    al = F.ptr_alts(p) if p.base[0] in ('phi', 'sel') else None
    return {k for k in (pkey(F, q, write) for q in ([q for c, q in al] if al else [p])) if k}


class ModRef:
    def __init__(s, P):
        s.P = P; s.m = {}; s.stack = []

    def get(s, name):
        """(reads, writes)"""
        if name in s.m: return s.m[name]
        F = s.P.fn.get(name)
        if F is None: return (set(), set())
        F._build()
        R, W = set(), set()
        s.m[name] = (R, W)
        while True:
            n = len(R) + len(W)
            for I in F.insts():
                if I.op == 'store':
                    for k in pkeys(F, F.addr(I.ops[1]), True): W.add(k)
                elif I.op == 'load':
                    for k in pkeys(F, F.addr(I.ops[0])): R.add(k)
                elif I.op in ('call', 'invoke'):
                    r, w = s.call(F, I)
                    R |= r; W |= w
            if len(R) + len(W) == n: break
        return s.m[name]

    def mayread(s, n, k, seen=()):
        """may the routine look at what its k-th (pointer) argument points to"""
        F = s.P.fn.get(n)
        if F is None: return n not in NOREAD and not n.startswith('llvm.')
        if (n, k) in seen or k >= len(F.args): return False
        if not hasattr(s, 'mrd'): s.mrd = {}
        if (n, k) in s.mrd: return s.mrd[n, k]
        F._build()
        r = ('A', k) in s.get(n)[0]
        for I in F.calls():
            if r: break
            for j, o in enumerate(I.ops):
                if o[0] in ('v', 'a') and I.callee and (o[0] == 'a' or F.inst[o[1]].ty == 'ptr') and I.callee not in NOREAD:
                    b = F.addr(o)
                    if b.base[0] == 'arg' and b.base[1] == k and ('*',) not in b.steps and s.mayread(I.callee, j, seen + ((n, k),)): r = True; break
        if not seen: s.mrd[n, k] = r
        return r

    def effectfree(s, n, seen=()):
        """only computes a value: calling it or not makes no difference unless the value is used"""
        if n not in s.P.fn: return n in PURE or n in QUIET or n.startswith('llvm.')
        if n in seen: return True
        if not hasattr(s, 'ef'): s.ef = {}
        if n not in s.ef:
            s.ef[n] = not s.get(n)[1] and all(I.callee and I.callee not in ('printf', 'puts') and s.effectfree(I.callee, seen + (n,)) for I in s.P.get(n).calls())
        return s.ef[n]

    def call(s, F, I):
        n = I.callee
        R, W = set(), set()
        bv = set(I.d.get('byval') or [])
        if n in s.P.fn:
            r, w = s.get(n)
            for (src, dst) in ((r, R), (w, W)):
                for k in src:
                    if k[0] == 'A':
                        if dst is W and k[1] in bv: continue
                        if k[1] < len(I.ops):
                            q = pkey(F, F.addr(I.ops[k[1]]))
                            if q: dst.add(q)
                    else: dst.add(k)
        else:
            for tab, dst in ((EXTW, W), (EXTR, R)):
                for k in tab.get(n, ()):
                    if k < len(I.ops):
                        q = pkey(F, F.addr(I.ops[k]))
                        if q: dst.add(q)
        return R, W


def conflict(a, b):
    (r1, w1), (r2, w2) = a, b
    return (w1 & (r2 | w2)) | (w2 & r1)
