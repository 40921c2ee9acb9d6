"""index ranges against block lengths: an access whose guard does not look at the loop counters and whose largest (smallest) index, counters at the ends of their ranges, lies outside the block"""
from ir import *
from effects import *
from fractions import Fraction
import c08

GRIDS = [(21, 31), (31, 21), (101, 51), (51, 101)]


def canon(p, memo):
    """sizes read from structures, whatever the structure is called here"""
    def f(a):
        if a[0] == 'ld':
            q = a[1]; fl = q.fields()
            if fl and not any(s[0] == 'i' for s in q.steps): return Poly.atom(('ld', Place(('st', ''), (('f', fl[-1], ''),))))
        return None
    return deep(p, f, memo)


def nxnz(p):
    """p as a function of (Nx, Nz), or None"""
    out = []
    for m, c in p.t.items():
        e = [0, 0]
        for a, k in m:
            if k < 0 or a[0] != 'ld' or len(a[1].steps) != 1 or a[1].steps[0][0] != 'f' or a[1].steps[0][1] not in ('Nx', 'Nz'): return None
            e[a[1].steps[0][1] == 'Nz'] += k
        out.append((c, e))
    return lambda x, z: sum(c * x ** e[0] * z ** e[1] for c, e in out)


def extreme(F, e, loops, up, memo):
    """largest (up) or smallest value of e over the loops around it; None when it cannot be told"""
    for L in loops:
        g = F.loop_range(L)
        if not g: continue
        iv, lo, hi, st = g
        co, rest = e.coef(iv)
        if any(iv in m for m in [x.atoms() for x in (co, rest)]): return None
        if co == ZERO: continue
        s = sign(canon(co, memo))
        if s == 0: return None
        if s == 3: continue
        e = rest + co * ((hi if (s > 0) == up else lo))
    if any(a[0] in ('iv', 'phi') for a in atoms_deep(e)): return None
    return canon(e, memo)


def lengths(P):
    """(structure, field) -> number of bytes, where every allocation agrees"""
    out = {}
    for name, F in P.fn.items():
        F._build(); memo = {}
        for A in F.calls(*c08.ALLOC):
            k = c08.ALLOC[A.callee]
            if k[0] is None: continue
            n = canon(F.ex(A.ops[k[0]]) * F.ex(A.ops[k[1]]), memo)
            us, esc = c08.derived(F, A.id)
            for U in esc:
                if U.op != 'store': continue
                for q in c08.targets(F, F.addr(U.ops[1])):
                    if q.steps and q.steps[-1][0] == 'f' and not any(s[0] == 'i' for s in q.steps): out.setdefault(tuple(s[1:3] for s in q.steps if s[0] == 'f')[-2:] if q.steps[-1][1] in ('type', 'val') else (q.steps[-1][1:3],), set()).add(n)
    return {k: next(iter(v)) for k, v in out.items() if len(v) == 1}


def run(c):
    P = c.P; B = P.bdd
    LEN = lengths(P)
    c.detail['known_field_lengths'] = len(LEN)
    for name in sorted(P.fn):
        F = P.fn[name]; F._build(); dead = F.dead(); memo = {}
        loc = {}
        for A in F.calls(*c08.ALLOC):
            k = c08.ALLOC[A.callee]
            if k[0] is not None: loc[('call', A.callee, A.id)] = canon(F.ex(A.ops[k[0]]) * F.ex(A.ops[k[1]]), memo)
        for I in F.insts():
            if I.bb in dead or I.op not in ('load', 'store'): continue
            p = F.addr(I.ops[0] if I.op == 'load' else I.ops[1])
            if not p.steps or p.steps[-1][0] != 'i': continue
            st = [s for s in p.steps[:-1] if s != ('*',)]
            if p.base in loc and not st: n = loc[p.base]; what = 'a local block'
            elif st and st[-1][0] == 'f' and not any(s[0] == 'i' for s in st):
                k = tuple(s[1:3] for s in st)[-2:] if st[-1][1] in ('type', 'val') else (st[-1][1:3],)
                if k not in LEN: continue
                n = LEN[k]; what = '.'.join(s[1] for s in st)
            else: continue
            z = c08.SIZE.get(I.ty if I.op == 'load' else I.d.get('vty'))
            if not z: continue
            n = n * Poly.const(Fraction(1, z))
            c.count('accesses')
            e = p.steps[-1][1]; loops = F.loops_of(I.bb)
            try: hi, lo = extreme(F, e, loops, True, memo), extreme(F, e, loops, False, memo)
            except AnalysisError: hi = lo = None
            if hi is None or lo is None: c.count('not_affine'); continue
            d = n - ONE - hi; f = nxnz(d); g = nxnz(lo)
            if f is None or g is None: c.count('other_sizes'); continue
            if sign(d) > 0 and sign(lo) > 0: c.count('in_bounds'); c.ok(); continue
            # does a guard restrict the counters?
            ivs = {F.loop_range(L)[0] for L in loops if F.loop_range(L)}
            gd = F.rc(I.bb)
            if any(ivs & atoms_deep(v[1]) for v in B.support(gd) if isinstance(v[1], Poly)): c.count('guarded'); continue
            bad = any(f(x, z) < 0 or g(x, z) < 0 for x, z in GRIDS)
            c.require(not bad, 'bounds:%s:%s' % (name, what), '%s: index %r of %s runs from %r to %r, the block has %r elements' % (name, e, what, lo, hi, n), I.loc())
            if not bad: c.count('in_bounds')
