"""fresh memory (malloc, local arrays) must be written before it is looked at: the first access on every way from where it is made"""
from ir import *
from modref import EXTW, EXTR
from canon import map_cond

FRESH = {'malloc', 'DoodzMalloc'}
SILENT = {'free', 'DoodzFree', 'realloc', 'DoodzRealloc', 'llvm.lifetime.start.p0', 'llvm.lifetime.end.p0'}
READERS = {'fwrite', 'printf', 'fprintf', 'strcmp', 'strncmp', 'strlen', 'strcpy', 'strcat', 'puts', 'memcpy', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64'}


class FirstUse:
    def __init__(s, P):
        s.P = P; s.memo = {}; s.idx = {}

    def index(s, F):
        """base of an address -> [(instruction, 'R' | 'W' | call argument)]"""
        if F.name in s.idx: return s.idx[F.name]
        out = {}; F._build(); dead = F.dead()
        s.idx[F.name] = out
        def bases(o):
            if o[0] not in ('v', 'a') or o[0] == 'v' and F.inst[o[1]].ty != 'ptr': return ()
            p = F.addr(o)
            ps = [q for g, q in F.ptr_alts(p) or [(None, p)]] if p.base[0] in ('phi', 'sel') else [p]
            return {q.base for q in ps if ('*',) not in q.steps}
        for I in F.insts():
            if I.bb in dead or I.bb not in F.reach: continue
            if I.op == 'load':
                for b in bases(I.ops[0]): out.setdefault(b, []).append((I, 'R'))
            elif I.op == 'store':
                for b in bases(I.ops[1]): out.setdefault(b, []).append((I, 'W'))
                for b in bases(I.ops[0]): out.setdefault(b, []).append((I, 'E'))
            elif I.op == 'ret' and I.ops:
                for b in bases(I.ops[0]): out.setdefault(b, []).append((I, 'E'))
            elif I.op in ('call', 'invoke') and I.callee not in SILENT:
                for k, o in enumerate(I.ops):
                    for b in bases(o): out.setdefault(b, []).append((I, k))
        return out

    def kinds(s, F, I, k):
        """what a call does with what argument k points to: (looks at it first, writes it)"""
        if k in ('R', 'W'): return k == 'R', k == 'W'
        n = I.callee
        if n is None: return False, True
        if n in s.P.fn: return s.arg(n, k)
        if k in EXTW.get(n, ()): return False, True
        if n in READERS: return True, False
        return False, True

    def arg(s, n, k):
        if (n, k) in s.memo: return s.memo[n, k]
        s.memo[n, k] = (False, False)
        F = s.P.fn[n]; F._build()
        if k < len(F.args) and F.args[k].get('byval'): r = (False, False)
        else:
            B = s.P.bdd; e = B.FALSE
            for I, c in s.early(F, ('arg', k), None): e = B.OR(e, c)
            # what the caller can tell about it: scalar arguments
            e = s.scalars(e)
            r = (e if e is not B.FALSE else False, s.writes(F, ('arg', k)))
        s.memo[n, k] = r
        return r

    def scalars(s, e):
        """what a caller can tell about a condition: the part on scalar arguments"""
        return s.P.bdd.exists(e, lambda v: not (isinstance(v[1], Poly) and v[0] != 'call' and all(a[0] == 'arg' for a in v[1].atoms())))

    def passed(s, F, I, e): return map_cond(s.P.bdd, e, lambda p: p.subst(lambda a: F.ex(I.ops[a[1]]) if a[0] == 'arg' and a[1] < len(I.ops) else None))

    def touch(s, n, k):
        """condition (on scalar arguments) under which the routine makes use of its k-th argument, a pointer"""
        B = s.P.bdd
        if n not in s.P.fn: return B.TRUE
        if ('t', n, k) in s.memo: return s.memo['t', n, k]
        s.memo['t', n, k] = B.FALSE
        F = s.P.fn[n]; F._build(); e = B.FALSE
        for I, j in s.match(F, ('arg', k)):
            c = F.rc(I.bb)
            if j not in ('R', 'W', 'E'): c = B.AND(c, s.passed(F, I, s.touch(I.callee, j)) if I.callee else B.TRUE)
            e = B.OR(e, s.scalars(c))
        s.memo['t', n, k] = e
        return e

    def needed(s, F, I):
        """condition under which a loaded pointer is used for anything"""
        B = s.P.bdd; e = B.FALSE
        for U in F.uses.get(I.id, ()):
            if U.op != 'call' or U.callee not in s.P.fn: return B.TRUE
            for k, o in enumerate(U.ops):
                if o == ['v', I.id]: e = B.OR(e, B.AND(F.rc(U.bb), s.passed(F, U, s.touch(U.callee, k))))
        return e

    def writes(s, F, base):
        return any(k not in ('R', 'E') and s.kinds(F, I, k)[1] for I, k in s.match(F, base))

    def match(s, F, base):
        n = 3 if base[0] == 'call' else 2
        return [x for b, l in s.index(F).items() if b[:n] == base[:n] for x in l]

    def early(s, F, base, A):
        """accesses that look at the block on a way on which nothing was put into it"""
        B = s.P.bdd
        us = s.match(F, base)
        R, W = [], []
        for I, k in us:
            if k == 'E': continue
            r, w = s.kinds(F, I, k)
            if r: R.append((I, r))
            if w: W.append((I, k))
        out = []
        for I, when in R:
            stops = set(); same = False
            for w, k in W:
                if w is I:
                    continue
                if w.bb == I.bb and w.pos < I.pos: same = True; break
                ls = [L for L in F.loops_of(w.bb) if I.bb not in L.body]
                if ls: stops.add(max(ls, key=lambda L: len(L.body)).header)
                elif w.bb != I.bb: stops.add(w.bb)
            if same: continue
            a = A.bb if A is not None and A.op != 'alloca' else 0
            if a == 0 and a in stops: continue
            if not s.path(F, a, I.bb, stops): continue
            c = F.rc(I.bb)
            if A is not None: c = B.AND(c, F.rc(A.bb))
            for b in stops: c = B.AND(c, B.NOT(F.rc(b)))
            if when is not True: c = B.AND(c, s.passed(F, I, when))
            if c is not B.FALSE and I.op == 'load' and I.ty == 'ptr': c = B.AND(c, s.needed(F, I))
            if c is B.FALSE: continue
            out.append((I, c))
        return out

    def path(s, F, a, b, stops):
        if a == b: return True
        seen = {a}; w = [a]; dead = F.dead()
        while w:
            x = w.pop()
            for y in F.succ[x]:
                if y in seen or y in dead: continue
                if y in stops: continue
                if y == b: return True
                seen.add(y); w.append(y)
        return False
