"""C29 no value is used before it was given one: every read of a local variable is reached by an assignment of it.
SSA form: a variable without a value on some way in is an undefined operand of a merge.  The condition under which a merge is
undefined (edge conditions of the gated SSA form, first turn of a loop, at least one turn) must exclude the condition under which it is read."""
import json, os
from ir import *
from canon import map_cond

TAB = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'data', 'unset.json')
PASS = {'phi', 'insertvalue', 'freeze', 'select'}


class Undef:
    def __init__(s, F):
        F._build()
        s.F = F; s.B = F.prog.bdd; s.m = {}; s.rcm = {}
        s.src = {}
        for I in F.insts():
            if I.op == 'phi' and any(x[0][0] == 'u' for x in I.ops) and I.bb in F.reach: s.src[I.id] = I
        # everything that can carry an undefined value
        s.may = set(s.src); w = list(s.src)
        while w:
            for U in F.uses.get(w.pop(), ()):
                if U.op in ('phi', 'freeze', 'select') or U.op in CASTS:
                    if U.id not in s.may: s.may.add(U.id); w.append(U.id)

    def first(s, bb, c):
        """the condition in the first turn of the loops around block bb"""
        F = s.F
        for L in F.loops_of(bb):
            sub = {}
            for I in F.blocks[L.header]:
                if I.op != 'phi': continue
                if F.induction(I):
                    a = ('iv', L_id(L), I.d.get('dn'), I.id)
                    sub[a] = F.ex(F.induction(I)[0])
                else:
                    ini = [x[0] for x in I.ops if x[1] not in L.body]
                    if len(ini) == 1 and ini[0][0] in ('i', 'f'): sub[('phi', F.name, I.id)] = F.ex(ini[0])
            if sub: c = map_cond(s.B, c, lambda p: p.subst(lambda a: sub.get(a)))
        return c

    def undef(s, o, at):
        """condition under which operand o, used in block at, has no value"""
        B, F = s.B, s.F
        if o[0] == 'u': return B.TRUE
        if o[0] != 'v' or o[1] not in s.may: return B.FALSE
        I = F.inst[o[1]]
        L = F.loopof.get(I.bb)
        hdr = I.op == 'phi' and L and L.header == I.bb
        k = (I.id, hdr and at in L.body)
        if k in s.m: return s.m[k]
        s.m[k] = B.FALSE
        if I.op in CASTS or I.op == 'freeze': r = s.undef(I.ops[0], I.bb)
        elif I.op == 'select':
            c = F.cond(I.ops[0])
            r = B.ITE(c, s.undef(I.ops[1], I.bb), s.undef(I.ops[2], I.bb))
        elif hdr:
            ini = B.FALSE
            for x, pb in I.ops:
                if pb not in L.body: ini = B.OR(ini, s.undef(x, pb))
            if at in L.body: r = ini
            elif ini is B.FALSE: r = B.FALSE
            else:
                # after the loop: what the first turn leaves behind
                r = B.FALSE
                for x, pb in I.ops:
                    if pb in L.body: r = B.OR(r, B.AND(s.first(pb, s.rcin(L, pb)), s.undef(x, pb)))
                r = B.AND(r, ini)
        else:
            r = B.FALSE
            rc = F.local_rc(F.idom[I.bb])
            for x, pb in I.ops:
                if pb in F.dead(): continue
                u = s.undef(x, I.bb if s.leaves(x, pb, I.bb) else pb)
                if u is B.FALSE: continue
                r = B.OR(r, B.AND(F.edge_rc(rc, pb, I.bb), u))
        s.m[k] = r = s.first(I.bb, r)
        return r

    def leaves(s, o, pb, bb):
        """the edge pb -> bb leaves the loop that merges o at its top: at least one turn was made"""
        if o[0] != 'v': return False
        I = s.F.inst[o[1]]
        L = s.F.loopof.get(I.bb)
        return I.op == 'phi' and L and L.header == I.bb == pb and bb not in L.body

    def rcin(s, L, b):
        return s.F._rcget(s.F.local_rc(L.header), b)

    def findings(s):
        F, B = s.F, s.B
        for I in F.insts():
            if I.bb not in F.reach or I.bb in F.dead(): continue
            if I.op in PASS or I.op in CASTS: continue
            if I.op == 'call' and (I.callee or '').startswith('llvm.'): continue
            ops = list(I.ops) + [p[1] for p in I.d.get('path') or () if p[0] in ('p', 'x')]
            for o in ops:
                if isinstance(o, (list, tuple)) and o and o[0] == 'u':
                    c = F.rc(I.bb)
                    if c is not B.FALSE: yield I, 'line of ' + (I.d.get('dn') or I.d.get('nm') or I.op), c
                    continue
                if not isinstance(o, (list, tuple)) or not o or o[0] != 'v' or o[1] not in s.may: continue
                u = s.undef(o, I.bb)
                if u is B.FALSE: continue
                c = B.AND(s.first(I.bb, F.rc(I.bb)), u)
                if c is not B.FALSE: yield I, s.name(F.inst[o[1]]), c

    def name(s, I):
        while I.op in CASTS and I.ops[0][0] == 'v': I = s.F.inst[I.ops[0][1]]
        return I.d.get('dn') or I.d.get('nm') or '?'


# option values the input reader documents; everything else is a misuse of the input file
OPTS = {'reseed_markers': (0, 1), 'preconditioner': (-1, 0, 1), 'density_model': (0, 1, 2, 3, 4, 5), 'density_variations': (0, 1), 'interp_stencil': (1, 9)}
# handed to a callee that does not look at it in this case
UNUSED = {'RheologicalOperators': ('anisotropy', 0), 'ViscosityConcise': ('gs', 0), 'P2Mastah': ('prop', 1)}
# markers lie inside the domain (C18): the cases of the position tests are complete
INSIDE = {'Centers2Particle', 'Interp_Grid2P_centroids2'}


class Domain:
    """values an integer can take: constants of all call sites, documented option values, flags that only ever get constants"""
    def __init__(s, P):
        s.P = P; s.sites = {}; s.m = {}
        for F in P.fn.values():
            for I in F.calls():
                if I.callee in P.fn: s.sites.setdefault(I.callee, []).append((F, I))

    def of(s, F, a, depth=0):
        k = (F.name, a)
        if k not in s.m:
            s.m[k] = None
            s.m[k] = s._of(F, a, depth)
        return s.m[k]

    def poly(s, F, x, depth):
        if x.is_const(): return {int(x.cval())}
        if len(x.t) != 1: return None
        (m, c), = x.t.items()
        if c != 1 or len(m) != 1 or m[0][1] != 1: return None
        a = m[0][0]
        if a[0] == 'gate':
            r = set()
            for _, v in a[1]:
                d = s.poly(F, v, depth)
                if d is None: return None
                r |= d
            return r
        return s.of(F, a, depth)

    def _of(s, F, a, depth):
        if depth > 4: return None
        if a[0] == 'ld':
            f = [t[1] for t in a[1].steps if t[0] == 'f']
            return set(OPTS[f[-1]]) if f and f[-1] in OPTS else None
        if a[0] == 'arg':
            r = set()
            for G, I in s.sites.get(F.name, ()):
                if a[1] >= len(I.ops): return None
                if I.bb not in G.reach: continue
                d = s.poly(G, G.ex(I.ops[a[1]]), depth + 1)
                if d is None: return None
                r |= d
            return r or None
        if a[0] == 'phi' and a[1] == F.name:
            r = set(); seen = set(); w = [['v', a[2]]]
            while w:
                o = w.pop()
                if o[0] == 'i': r.add(o[1]); continue
                if o[0] == 'u': continue
                if o[0] != 'v': return None
                if o[1] in seen: continue
                seen.add(o[1]); I = F.inst[o[1]]
                if I.op == 'phi': w += [x[0] for x in I.ops]
                elif I.op in CASTS: w.append(I.ops[0])
                elif I.op == 'select': w += I.ops[1:]
                else: return None
            return r
        return None

    def restrict(s, F, c):
        """drop the cases in which an integer has a value it never takes"""
        B = F.prog.bdd
        c = map_cond(B, c, lambda p: p)
        vals = {}
        for v in list(B.support(c)):
            if v[0] == 'ge0':
                q = size_min(v[1])
                if q is not None and q >= 0: c = B.restrict(c, v, 1)
                continue
            if v[0] != 'eq0': continue
            q = size_min(v[1]) or size_min(-v[1])
            if q is not None and q > 0: c = B.restrict(c, v, 0); continue
            at = [m for m in v[1].t if m]
            if len(at) != 1 or len(at[0]) != 1 or at[0][0][1] != 1: continue
            a = at[0][0][0]
            if a in vals: continue
            u = UNUSED.get(F.name)
            d = s.of(F, a)
            if u and (a[0] == 'arg' and a[2] == u[0] or a[0] == 'ld' and [t[1] for t in a[1].steps if t[0] == 'f'][-1:] == [u[0]]):
                c = B.AND(c, B.NOT(B.var(('eq0', normsign(Poly.atom(a) - Poly.const(u[1]))))))
            if d: vals[a] = d
        for a, d in vals.items():
            # one case per value
            out = B.FALSE
            for k in sorted(d):
                e = map_cond(B, c, lambda p: p.subst(lambda x: Poly.const(k) if x == a else None))
                if e is not B.FALSE: out = B.OR(out, B.AND(e, B.var(('eq0', normsign(Poly.atom(a) - Poly.const(k))))))
            c = out
        return c


def size_min(x):
    """least value of c + n where n is a number of grid vertices (three at least)"""
    m = [k for k in x.t if k]
    if len(m) != 1 or len(m[0]) != 1 or m[0][0][1] != 1 or x.t[m[0]] != 1: return None
    a = m[0][0][0]
    n = a[1].steps[-1][1] if a[0] == 'ld' and a[1].steps and a[1].steps[-1][0] == 'f' else a[2] if a[0] == 'arg' else None
    return x.t.get((), 0) + 3 if n in ('Nx', 'Nz') else None


def reachable(P):
    """functions of the library a run or a model setup can get to"""
    api = {n for n in P.fn if n in ('RunMDOODZ', 'GetSetupFileName') or n.startswith(('SetPure', 'SetSimple', 'IsEllipse', 'IsRectangle'))}
    seen = set(); w = list(api)
    while w:
        n = w.pop()
        if n in seen or n not in P.fn: continue
        seen.add(n)
        F = P.fn[n]; F._build()
        for I in F.insts():
            if I.op == 'call' and I.callee: w.append(I.callee)
            w += [o[1] for o in I.ops if isinstance(o, (list, tuple)) and len(o) > 1 and o[0] in ('g', 'fn', 'f') and isinstance(o[1], str) and o[1] in P.fn]
    return seen


def run(c):
    allow = json.load(open(TAB)) if os.path.exists(TAB) else {}
    D = Domain(c.P)
    live = reachable(c.P)
    P = c.P
    for fn in sorted(P.fn):
        if fn not in live or fn in INSIDE: continue
        F = P.fn[fn]
        U = Undef(F)
        c.count('functions')
        c.count('variables_without_initial_value', len(U.src))
        seen = set()
        for I in F.insts():
            if I.op == 'phi': c.obl += 1
        for I, n, cond in U.findings():
            if (fn, n) in seen: continue
            cond = D.restrict(F, cond)
            if cond is c.P.bdd.FALSE: c.count('excluded_by_value_ranges'); continue
            seen.add((fn, n))
            if n in allow.get(fn, ()): c.count('accepted'); continue
            c.bad('unset:%s:%s' % (fn, n), '%s reads %s although it has no value when %s' % (fn, n, show_cond(c.P.bdd, cond)), I.loc())


    memory(c, D, live, allow)


def memory(c, D, live, allow):
    """blocks that are not zeroed when they are handed out, and local arrays: written before they are looked at"""
    from firstuse import FirstUse, FRESH
    P = c.P; B = P.bdd; U = FirstUse(P)
    for fn in sorted(live):
        F = P.fn[fn]; F._build(); dead = F.dead(); V = Undef(F)
        for A in F.insts():
            if A.bb in dead or A.bb not in F.reach: continue
            if A.op == 'call' and A.callee in FRESH: base = ('call', A.callee, A.id)
            elif A.op == 'alloca' and not A.d.get('st'):
                base = ('alloca', A.id)
                if F.addr(['v', A.id]).base[:2] != base: continue
            else: continue
            c.count('blocks_without_initial_contents'); c.obl += 1
            n = A.d.get('dn') or A.d.get('nm') or A.callee
            for I, cond in U.early(F, base, A):
                # every later turn of a loop finds what the turns before have put there
                if any(w.bb in L.body for L in F.loops_of(I.bb) for w, k in U.match(F, base) if k != 'E' and U.kinds(F, w, k)[1]): cond = V.first(I.bb, cond)
                cond = D.restrict(F, cond)
                if cond is B.FALSE: c.count('excluded_by_value_ranges'); continue
                if n in allow.get(fn, ()): c.count('accepted'); continue
                c.bad('fresh:%s:%s' % (fn, n), '%s looks at what is in %s (made at %s) before anything was put there, when %s' % (fn, n, A.loc(), show_cond(B, cond)), I.loc())
                break
            else: ranges(c, F, U, base, A, n)


def ranges(c, F, U, base, A, n):
    """where only loops over known ranges fill a block, no loop may look past what they fill"""
    import bounds
    acc = {'load': [], 'store': []}; memo = {}
    for I, k in U.match(F, base):
        if k == 'E': continue
        if k not in ('R', 'W'):
            if U.kinds(F, I, k)[1]: return
            continue
        p = F.addr(I.ops[0] if I.op == 'load' else I.ops[1])
        if base[0] != 'call': p = Place(p.base, [t for t in p.steps if t != ('*',)])
        if len(p.steps) != 1 or p.steps[0][0] != 'i':
            if I.op == 'store': return
            continue
        loops = F.loops_of(I.bb); e = p.steps[0][1]
        try: r = bounds.extreme(F, e, loops, False, memo), bounds.extreme(F, e, loops, True, memo)
        except AnalysisError: r = None, None
        if I.op == 'store' and None in r: return
        if None in r: continue
        if I.op == 'load':
            # a guard on the counters narrows the range
            ivs = {F.loop_range(L)[0] for L in loops if F.loop_range(L)}; rc = F.rc(I.bb)
            if any(ivs & bounds.atoms_deep(v[1]) for v in c.P.bdd.support(rc) if isinstance(v[1], Poly)):
                c.count('guarded_reads'); continue
        acc[I.op].append((I,) + r)
    def least(d):
        if d.is_const(): return d.cval()
        f = bounds.nxnz(d)
        return None if f is None else min(f(x, z) for x, z in bounds.GRIDS)
    for I, lo, hi in acc['load']:
        c.count('reads_of_filled_ranges'); c.obl += 1
        below = [least(lo - l) for _, l, h in acc['store']]; above = [least(h - hi) for _, l, h in acc['store']]
        if not below or None in below or None in above: c.count('ranges_not_comparable'); continue
        if max(below) < 0 or max(above) < 0:
            c.bad('range:%s:%s' % (F.name, n), '%s looks at elements %r to %r of %s, of which only %s were filled' % (F.name, lo, hi, n, ', '.join('%r to %r' % (l, h) for _, l, h in acc['store'])), I.loc())


def show_cond(B, c):
    return (B.show(c) if hasattr(B, 'show') else str(c))[:300]
