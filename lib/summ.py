"""canonical effect summary of one function: for every memory place it writes (and every call it makes) the guarded symbolic value,
with loop counters replaced by zero-based iteration numbers named after their trip count.  Independent of statement order, temporaries,
helper functions (inlined by irfacts), loop direction, running counters, pointer aliases of fields."""
import os, re
from ir import *
from ir import _key, DIGP, Atom
from effects import deep, deep_place, atoms_deep
from canon import ind, imap_cond, ind_atom, counter
from fractions import Fraction

STRUCTS = {'params': 'model', 'scale': 'scaling', 'mat_prop': 'materials', 'Nparams': 'Nmodel', 'ParticlesInput': 'particles', 'markers': 'particles', 'Input': 'input', 'grid': 'mesh', '_n_params': 'Nmodel', 'SparseMat': 'Mat', 'surface': 'topo'}
QUIET = {'printf', 'puts', 'putchar', 'fprintf', 'fflush', 'DoodzFree', 'free', 'omp_get_wtime', 'fputs', 'MinMaxArray', 'MinMaxArrayTag', 'MinMaxArrayI', 'MinMaxArrayPart', 'MinMaxArrayVal', 'perror'}
OPAQUE = DOPQ
ALLOC = {'DoodzCalloc', 'DoodzMalloc', 'malloc', 'calloc', 'DoodzRealloc', 'realloc'}


FATAL = {'exit', 'abort', '_exit', '__assert_fail'}


def posn(r):
    """[p > 0]*p is (p + |p|)/2: one form for ?:, if, fmin/fmax, MINV/MAXV"""
    for _ in range(4):
        grp = {}
        for m, c in r.t.items():
            for a, e in m:
                if a[0] != 'I': continue
                v = a[3]
                if not v or v[0] not in ('gt0f', 'lt0f', 'ge0'): continue
                J = tuple(x for x in m if x[0][0] == 'I' and x[0] != a); grp.setdefault((a, J), []).append((m, c))
        drop = set(); add = []
        for (a, J), ms in sorted(grp.items(), key=lambda kv: (_key(kv[0][0]), len(kv[0][1]), [_key(x[0]) for x in kv[0][1]])) if len(grp) < 400 else ():
            v = a[3]
            for d in ((v[1], v[1] + ONE) if v[0] == 'ge0' else (v[1],)):
                if len(ms) != len(d.t) or any(m in drop for m, c in ms): continue
                k = ratio(Poly({tuple(x for x in m if x[0][0] != 'I'): c for m, c in ms}), d)
                if k is None: continue
                x = (d + mkcall('fabs', (d,))) * Poly.const(Fraction(1, 2))
                if v[0] == 'lt0f': x = d - x
                drop.update(m for m, c in ms); add.append(Poly({J: 1}) * Poly.const(k) * x)
                break
        if not drop: return r
        t = {m: c for m, c in r.t.items() if m not in drop}
        for x in add:
            for m, c in x.t.items(): t[m] = t.get(m, 0) + c
        r = Poly(t)
    return r


def eqsub(p):
    """in a case 'iteration t is number r' the iteration number is written r"""
    out = None
    for m, c in p.t.items():
        g = None
        for a, e in m:
            if a[0] == 'I' and a[3] and a[3][0] == 'eq0':
                z = counter(a[3][1])
                if z: g = a, z; break
        if not g: continue
        a, (k, r, t, n) = g
        if k == 1: r = -r
        q = Poly({tuple(x for x in m if x[0] != a): c})
        ta = next(iter(t.t))[0][0]
        q2 = deep(q, lambda x: r if x == ta else None)
        if q2 == q: continue
        if out is None: out = p
        out = out - Poly({m: c}) + q2 * Poly.atom(a)
    return p if out is None else out


def abssub(p):
    """in a case d > 0, |d| is d; in a case d < 0 it is -d"""
    out = None
    for m, c in p.t.items():
        if len(m) < 2: continue
        ab = [(x, e) for x, e in m if x[0] == 'call' and x[1] == 'fabs' and e == 1]
        if not ab: continue
        for a, _ in m:
            if a[0] != 'I' or not a[3] or a[3][0] not in ('gt0f', 'lt0f', 'ge0'): continue
            v = a[3]; k = x = None
            for x, e in ab:
                for d in ((v[1], v[1] + ONE) if v[0] == 'ge0' else (v[1],)):
                    k = ratio(x[2][0], d)
                    if k is not None: break
                if k is not None: break
            if k is None: continue
            if v[0] == 'lt0f': k = -k
            y = x[2][0] if k > 0 else -x[2][0]
            if out is None: out = p
            out = out - Poly({m: c}) + Poly({tuple(z for z in m if z[0] != x): c}) * y
            break
    return p if out is None else out


def ratio(q, d):
    """k with q == k*d, or None"""
    if len(q.t) != len(d.t) or not d.t: return None
    m = next(iter(d.t))
    if m not in q.t: return None
    k = Fraction(q.t[m]) / d.t[m]
    return k if q == d * Poly.const(k) else None


class Summ:
    def __init__(s, F, args=None, bases=None, callargs=None, limit=64, keepscaling=True, prune=None, lname=None, skipcall=None, mr=None):
        F._build()
        s.F = F; s.B = F.prog.bdd; s.limit = limit; s.callargs = callargs or {}; s.prune = prune; s.skipcall = skipcall
        s.basemap = dict(bases or {}); s.args = args; s.lname = lname or {}
        s.lv = {}
        ids = set()
        for I in F.insts():
            if I.op == 'store':
                p0 = F.addr(I.ops[1])
                for c, q in (F.ptr_alts(p0) if p0.base[0] in ('phi', 'sel') else None) or [(None, p0)]: ids.add(ldkey(q))
            elif I.op == 'call' and mr is not None and I.callee in F.prog.fn:
                for k in mr.get(I.callee)[1]:
                    if k[0] == 'F': ids.add(('F', k[1].split('.')[-1]))
                    elif k[0] == 'A' and k[1] < len(I.ops): ids.add(ldkey(F.addr(I.ops[k[1]])))
        F.set_ldids(ids)
        s._al = {}
        for I in F.insts():
            if I.op == 'alloca' and F.alias_alloca(I): continue
            if I.op == 'alloca':
                st = I.d.get('st') or str(I.d.get('aty') or I.ty); dn = I.d.get('dn') or I.d.get('nm')
                b = ('alloca', I.id, dn)
                if b in s.basemap: continue
                s._al.setdefault((bool(I.d.get('st')), STRUCTS.get(st, st)), []).append((I.id, b))
        for (isst, nm), L in s._al.items():
            for n, (i, b) in enumerate(L): s.basemap[b] = (s.lkind(isst, i), nm if len(L) == 1 else '~' + nm)
        for i, a in enumerate(F.args):
            nm = args[i] if args and i < len(args) and args[i] else F.argname(i)
            if a.get('sret'): nm = STRUCTS.get(a['sret'], a['sret'])
            s.basemap[('arg', i, F.argname(i))] = ('st', nm)
        s.read = set(); s.env = {}; s.guard = s.B.TRUE; s.memo = {}; s.locs = {}; s.effects = []; s.calls = []; s.rets = []
        s.ver = {}; s.pre = {}; s.given = []; s.preg = {}; s._fr = {}; s.cur = 0; s.mr = mr
        s._iv = {}; s._stack = []; s._heap = {}; s._heapn = {}; s._acc = {}; s.tpoly = {}; s.cres = {}; s.copies = {}
        s._walk()

    def lkind(s, isst, i):
        """'lst': small local struct, visible only through the calls it is passed to and the return value"""
        if not isst: return 'loc'
        st = s.F.inst[i].d.get('st')
        return 'st' if st in STRUCTS or len(s.F.prog.structs.get(st, ())) > 8 else 'lst'

    # ---------------------------------------------------------- loop counters
    def iv(s, a):
        if a in s._iv: return s._iv[a]
        F = s.F; I = F.inst[a[3]]; L = F.loopof[I.bb]
        s._iv[a] = Poly.atom(('iv?', a[1]))
        ini, step = F.induction(I)
        r = s.norm(F.ex(ini)) + s.t(L) * Poly.const(step)
        g = F.loop_range(L)
        if g and g[3] < 0 and g[0] == a:
            # downward loop: count from the low end
            r = s.norm(g[1]) + s.t(L) * Poly.const(-g[3])
        s._iv[a] = r
        return r

    def trip(s, L):
        g = s.F.loop_range(L)
        if not g: return None
        n = s.norm(g[2] - g[1] + ONE)
        if abs(g[3]) != 1: n = Poly.atom(('ceildiv', n, abs(g[3])))
        return n

    def t(s, L):
        k = ('t', L.header)
        if k in s._iv: return s._iv[k]
        s._iv[k] = Poly.atom(('t', '?'))
        n = s.trip(L)
        nm = repr(n) if n is not None else '?%d' % len(s.F.loops_of(L.header))
        d = 0
        P = L.parent
        while P:
            if s.t(P) == Poly.atom(('t', nm + "'" * d)): d += 1
            P = P.parent
        s._iv[k] = Poly.atom(('t', nm + "'" * d))
        if n is not None: s.tpoly[show_atom(('t', nm + "'" * d))] = n
        return s._iv[k]

    def rec(s, a):
        """non-affine loop-header phi"""
        F = s.F; I = F.inst[a[2]]
        L = F.loopof.get(I.bb)
        if not L or L.header != I.bb: return Poly.atom(('phi', 'x'))
        if a in s._stack: return Poly.atom(('self', len(s._stack) - 1 - s._stack.index(a)))
        if len(s._stack) > 4: return Poly.atom(('phi', 'deep'))
        if a in s._acc: return s._acc[a]
        init = [x for x in I.ops if x[1] not in L.body]; nxt = [x for x in I.ops if x[1] in L.body]
        ini = s.norm(F.ex(init[0][0])) if init else ZERO
        if ini == Poly.atom(('undef',)): ini = ZERO     # "double x;" and "double x = 0.0;" are one
        # first with the running value as a free name: sums and nested reductions
        if len(s._acc) < 6:
            nm = ('acc', 'p%d' % len(s._acc)); s._acc[a] = Poly.atom(nm)
            try: nx = [s.norm(F.ex(x[0])) for x in nxt]
            finally: del s._acc[a]
            if nx and all(x == nx[0] for x in nx):
                if ini.is_const() and s.unused(a, nxt, nx[0], nm): return shorta(('rec', Poly.atom(('any',)), short(nx[0]), s.t(L)))
                r = s.close(ini, nx[0], nm, s.t(L))
                if r is not None: return r
        s._stack.append(a)
        try:
            # running counter through an inner loop
            if len(nxt) == 1:
                o = nxt[0][0]
                while o[0] == 'v' and F.inst[o[1]].op in CASTS: o = F.inst[o[1]].ops[0]
                if o[0] == 'v' and F.inst[o[1]].op == 'phi':
                    J = F.inst[o[1]]; L2 = F.loopof.get(J.bb)
                    if L2 and L2.header == J.bb and L2.parent is L:
                        ind = F.induction(J)
                        if ind and ind[0] == ['v', I.id]:
                            n = s.trip(L2)
                            if n is not None: return s.norm(F.ex(init[0][0])) + s.t(L) * n * Poly.const(ind[1])
            nx = [s.norm(F.ex(x[0])) for x in nxt]
            if len(nx) > 1 and any(x != nx[0] for x in nx): return Poly.atom(('phi', 'multi'))
            return shorta(('rec', short(ini), short(nx[0]), s.t(L)))
        finally: s._stack.pop()

    def unused(s, a, nxt, x, nm):
        """the next value does not depend on the running value of phi a"""
        if not mentions(x, "('acc', '%s')" % nm[1]): return True
        s._acc[a] = Poly.atom(('acc', 'q' + nm[1]))
        k = tuple(s._stack) + tuple(s._acc)
        old = s.memo.pop(k, None), s.memo.pop(('c',) + k, None)
        try: return all(s.norm(s.F.ex(o[0])) == x for o in nxt)
        finally:
            del s._acc[a]
            for kk, v in ((k, old[0]), (('c',) + k, old[1])):
                s.memo.pop(kk, None)
                if v is not None: s.memo[kk] = v

    def close(s, ini, nx, acc, t):
        """running value acc -> nx over t: a sum, a reduction over a loop nest, or None"""
        A = Poly.atom(acc); e = nx - A; tok = "('acc', '%s')" % acc[1]
        if not mentions(e, tok): return ini + s.sumover(e, t)
        if len(nx.t) == 1:
            (m, c), = nx.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'rec':
                b = m[0][0]
                if b[1] == A and not mentions(b[2], tok) and isinstance(b[3], Poly): return shorta(('rec', short(ini), b[2], b[3] * t))
        return None

    def sumover(s, e, t):
        (m, _), = t.t.items()
        tn = show_atom(m[0][0])
        r = ZERO; grp = {}
        for m, c in e.t.items():
            iv = []; va = []
            for a, p in m: (va if mentions_atom(a, tn) else iv).append((a, p))
            iv = tuple(iv)
            if not va:
                n = s.tpoly.get(tn)
                x = n if n is not None else Poly.atom(('sum', ONE, t))
                r = r + Poly({iv: c}) * x
            elif len(va) == 1 and va[0][1] == 1 and va[0][0][0] == 'sum' and isinstance(va[0][0][2], Poly):
                r = r + Poly({iv: c}) * shorta(('sum', va[0][0][1], va[0][0][2] * t))
            else: grp.setdefault(iv, {})[tuple(va)] = c
        for iv, q in grp.items(): r = r + Poly({iv: Fraction(1)}) * shorta(('sum', short(Poly(q)), t))
        return r

    # ---------------------------------------------------------- values
    def f(s, a):
        if a in s.basemap:
            b = s.basemap[a]
            return Poly.atom(b) if a[0] == 'arg' else b
        if not isinstance(a, tuple) or not a: return None
        k = a[0]
        if k == 'iv' and len(a) > 3 and a[1].startswith(s.F.name + '.'): return s.iv(a)
        if k == 'phi' and len(a) > 2 and a[1] == s.F.name: return s.rec(a)
        if k == 'res' and a[2] == s.F.name:
            if a[1] in ALLOC: return Poly.atom(('addr', Place(('heap', s.heapname(a[3])))))
            r = s.cres.get(a[3])
            return r if r is not None else s.result(s.F.inst[a[3]])
        if k == 'addr': return Poly.atom(('addr', s.place(a[1])))
        if k == 'ld':
            if len(a) > 2 and a[2] in s.lv: return s.lv[a[2]]
            pl = s.place(a[1])
            return s.load(pl)
        if k == 'gate':
            r = s.minmax(a[1])
            if r is not None: return r
            r = ZERO
            for c, v in a[1]:
                c = s.ncond(c)
                if c is s.B.FALSE: continue
                r = r + ind(s.B, c) * s.norm(v)
            r = posn(abssub(r))
            if len(r.t) > 300: r = digest('=', r)
            return r
        if k == 'bool': return ind(s.B, s.ncond(a[1]))
        return None

    def minmax(s, alts):
        """a > b ? a : b in any spelling, without splitting a and b into cases"""
        if len(alts) == 3: return s.clamp(alts)
        if len(alts) != 2: return None
        (c, v1), (c2, v2) = alts
        if c.id < 2 or c.lo.id > 1 or c.hi.id > 1: return None
        v = s.B.names[c.v]
        if v[0] not in ('gt0f', 'lt0f', 'ge0'): return None
        if c.hi.id == 0: v1, v2 = v2, v1
        k = ratio(v1 - v2, v[1])
        if k is None: return None
        d = s.norm(v[1])
        x = lift([d], lambda xs: mkcall('fabs', tuple(xs)))
        return s.norm(v2) + (d + (x if v[0] != 'lt0f' else -x)) * Poly.const(k / 2)

    def clamp(s, alts):
        """x limited to lo..hi (lo <= hi) by one test or by two, in any order"""
        sup = set()
        for c, v in alts: sup |= set(s.B.support(c))
        if len(sup) > 4: return None
        B = s.B
        for v in list(sup):
            if v[0] != 'ge0': continue
            q = v[1]
            g = next((a for m, c in q.t.items() for a, e in m if len(m) == 1 and e == 1 and a[0] == 'gate' and len(a[1]) <= 3), None)
            if g is None: continue
            # a test on the value limited so far is a test on each of its cases
            e = B.FALSE
            for c, x in g[1]:
                d = q.subst(lambda a: x if a == g else None)
                e = B.OR(e, B.AND(c, B.TRUE if sign(d) in (1, 2, 3) else B.FALSE if sign(d) == -1 else ge0(B, d)))
            alts = [(B.ITE(e, B.restrict(c, v, 1), B.restrict(c, v, 0)), y) for c, y in alts]
            alts = [(c, y) for c, y in alts if c is not B.FALSE]
        if len(alts) != 3: return None
        sup = set()
        for c, v in alts: sup |= set(B.support(c))
        if len(sup) != 2 or any(v[0] not in ('gt0f', 'lt0f', 'ge0') for v in sup): return None
        for i in range(3):
            x = alts[i][1]
            for a, b in ((1, 2), (2, 1)):
                lo, hi = alts[(i + a) % 3][1], alts[(i + b) % 3][1]
                dl, dh = x - lo, x - hi
                reg = []          # truth of each test in the regions x < lo, lo < x < hi, x > hi
                for v in sup:
                    k = ratio(v[1], dl); w = (0, 1, 1)
                    if k is None and v[0] == 'ge0': k = ratio(v[1] + ONE, dl) if (ratio(v[1] + ONE, dl) or 0) > 0 else None
                    if k is None and v[0] == 'ge0': k = ratio(v[1] + ONE, -dl); k = -k if k and k > 0 else None
                    if k is None:
                        k = ratio(v[1], dh); w = (0, 0, 1)
                        if k is None and v[0] == 'ge0': k = ratio(v[1] + ONE, dh) if (ratio(v[1] + ONE, dh) or 0) > 0 else None
                        if k is None and v[0] == 'ge0': k = ratio(v[1] + ONE, -dh); k = -k if k and k > 0 else None
                    if k is None: break
                    if (k < 0) != (v[0] == 'lt0f'): w = tuple(1 - t for t in w)
                    reg.append((v, w))
                else:
                    if len(reg) != 2: continue
                    ok = True
                    for r, want in enumerate((lo, x, hi)):
                        for c, v in alts:
                            for var, w in reg: c = s.B.restrict(c, var, w[r])
                            if c is s.B.TRUE: ok = ok and v == want
                            elif c is not s.B.FALSE: ok = False
                    if not ok: continue
                    X, L, H = s.norm(x), s.norm(lo), s.norm(hi)
                    if sign(H - L) <= 0 and sign(hi - lo) <= 0: continue
                    f = lambda d: lift([d], lambda xs: mkcall('fabs', tuple(xs)))
                    return (L + H + f(X - L) - f(X - H)) * Poly.const(Fraction(1, 2))
        return None

    def load(s, pl):
        def one(ix):
            q = setidx(pl, ix)
            s.read.add(q)
            v = s.env.get(q)
            if q.base[0] == 'glob' and q.base[1] in s.F.prog.ginit and len(q.steps) == 1 and q.steps[0][0] == 'i' and q.steps[0][1].is_const():
                L, k = s.F.prog.ginit[q.base[1]], int(q.steps[0][1].cval())
                if 0 <= k < len(L) and L[k] is not None: return Poly.const(L[k])
            if v is None and s.copies.get(q.base) == 0 and s.version(q) == q: return ZERO
            if v is None and s.copies.get(q.base, 0) != 0: return s.load(Place(s.copies[q.base].base, s.copies[q.base].steps + q.steps))
            return v if v is not None else shorta(('ld', s.version(q)))
        return lift(idxs(pl), one)

    def vkeys(s, p):
        fl = [t[1] for t in p.steps if t[0] == 'f']
        out = []
        if fl: out.append(('F', '.'.join(fl[-2:]) if len(fl) > 1 and fl[-1] in ('type', 'val') else fl[-1]))
        st = p.steps
        while True:
            out.append(('P', p.base, st))
            if not st or st[-1][0] != 'i': break
            st = st[:-1]
        return out

    def version(s, p):
        """mark what a call on the way here may have changed"""
        if not s.ver: return p
        L = []
        for k in s.vkeys(p):
            for n, bb, i in s.ver.get(k, ()):
                if (n, i) not in L and s.freach(bb, s.cur): L.append((n, i))
        if not L: return p
        return Place((p.base[0], '%s{%s}' % (p.base[1], ','.join(sorted(n for n, i in L)))) + tuple(p.base[2:]), p.steps)

    def freach(s, a, b):
        """block b can follow block a without taking a back edge"""
        if a == b: return True
        k = a
        if k not in s._fr:
            F = s.F; seen = {a}; w = [a]
            while w:
                x = w.pop()
                for t in F.succ[x]:
                    if t not in seen and F.rpoi[t] > F.rpoi[x]: seen.add(t); w.append(t)
            s._fr[k] = seen
        return b in s._fr[k]

    def callkeys(s, I):
        """what a call to a library function may write"""
        n = I.callee
        if n not in s.F.prog.fn or s.mr is None: return set()
        R, W = s.mr.get(n); bv = set(I.d.get('byval') or [])
        keys = set()
        for k in W:
            if k[0] == 'A':
                if k[1] in bv or k[1] >= len(I.ops): continue
                q = s.place(s.F.addr(I.ops[k[1]])); keys.add(('P', q.base, q.steps))
            elif k[0] == 'F': keys.add(k)
        return keys

    def clobber(s, I):
        """a call to a library function: its write set becomes unknown"""
        n = I.callee
        keys = s.callkeys(I)
        if not keys: return
        for k in keys: s.ver.setdefault(k, []).append((n, I.bb, I.id))
        try: g = ind(s.B, s.ncond(s.F.rc(I.bb)))
        except AnalysisError: g = ONE
        NORM[0] = True
        for pl in list(s.env):
            if not any(k in keys for k in s.vkeys(pl)): continue
            old = s.env.pop(pl)
            k0 = show_pl(pl) + ' @before ' + n; k = k0; j = 2
            while k in s.pre and s.preg[k] * g != ZERO: k = '%s#%d' % (k0, j); j += 1
            s.pre[k] = s.pre.get(k, ZERO) + g * old; s.preg[k] = s.preg.get(k, ZERO) + g
            if g != ONE:
                new = posn(g * Poly.atom(('ld', s.version(pl))) + (ONE - g) * old)
                s.env[pl] = digest('=', new) if len(new.t) > 600 else new
        NORM[0] = False
        s.memo = {}; s.read = set()

    def readbycall(s, base):
        """may a routine look at the local variable"""
        for I in s.F.insts():
            if I.op not in ('call', 'invoke'): continue
            for k, o in enumerate(I.ops):
                if o[0] != 'v': continue
                try: q = s.place(s.F.addr(o))
                except AnalysisError: return True
                if q.base == base and (not s.mr or s.mr.mayread(I.callee or '?', k)): return True
        return False

    def handed(s, I, n, g, r):
        """contents of scratch arrays at the moment they are handed to a routine that reads them"""
        for k, o in enumerate(I.ops):
            if o[0] != 'v': continue
            try: q = s.place(s.F.addr(o))
            except AnalysisError: continue
            if q.base[0] != 'heap' or not s.mr or not s.mr.mayread(n, k): continue
            for pl, v in s.env.items():
                if pl.base == q.base and pl.steps[:len(q.steps)] == q.steps: s.given.append((repr(r), k, show_pl(pl)[len(show_pl(q)):], g, v))

    def givenmap(s, want=None):
        acc = {}
        for c, k, ix, g, v in s.given:
            if want and not want(re.match(r'\w*', c).group(0)): continue
            key = '%s, content of argument %d%s' % (c, k + 1, ix)
            a = acc.setdefault(key, [ZERO, ZERO])
            f = g * (ONE - a[1])
            a[0] = a[0] + f * v; a[1] = a[1] + f
        return {k: repr(v) for k, (v, _) in acc.items()}

    def place(s, p):
        def g(b):
            if b in s.basemap: return s.basemap[b]
            if isinstance(b, tuple) and b and b[0] == 'call' and len(b) == 3 and isinstance(b[2], int):
                return ('heap', s.lname.get(b[2]) or s.heapname(b[2]))
            return s.f(b) if isinstance(b, tuple) and b and b[0] in ('iv', 'phi', 'res', 'ld', 'gate', 'bool') else None
        q = deep_place(p, g, {})
        # drop the '*' steps: a field that holds an array is written field[i]
        if isinstance(q.base, Poly): q = Place(('st', repr(q.base)), q.steps)
        return Place(q.base, tuple(t for t in q.steps if t != ('*',)))

    def hsig(s):
        """local heap blocks are named by allocator and size, local structs and arrays by type; equals are told apart by how they are used,
        then by order of first use (not by variable name or order of allocation)"""
        F = s.F
        ids = [I.id for I in F.insts() if I.op == 'call' and I.callee in ALLOC]
        als = {i: (t, b) for t, L in s._al.items() if len(L) > 1 for i, b in L}
        s._als = als; s._dup = {}; s._first = {}
        if not ids and not als: return
        for i in ids: s._heap[i] = '~h'
        env, ver = s.env, s.ver
        s.env, s.ver = {}, {}
        key = {i: repr(s.result(F.inst[i])) for i in ids}
        key.update({i: t[1] for i, (t, b) in als.items()})
        dup = [i for i in ids if sum(key[i] == key[j] for j in ids) > 1] + list(als)
        setn = s.setn
        sig = {}; cls = {}; gm = {}
        def guard(bb):
            if bb not in gm:
                try: gm[bb] = repr(ind(s.B, s.ncond(F.rc(bb))))
                except AnalysisError: gm[bb] = '?'
            return gm[bb]
        for i in dup:
            if s.F.name not in NORENAME: sig[i] = ((), s.firstuse(i))
        for rnd in range(3) if s.F.name in NORENAME else ():
            for i in ids: s._heap[i] = cls.get(i, '~h')
            for i in als: setn(i, cls.get(i, '~' + key[i]))
            gm.clear()
            for i in dup:
                setn(i, '~self'); s.memo = {}
                us = []; first = 1 << 30; w = [i]; seen = {i}
                while w:
                    x = w.pop()
                    for U in F.uses.get(x, ()):
                        pos = F.rpoi.get(U.bb, 0) * 10000 + U.pos
                        try:
                            if U.op in ('getelementptr', 'phi') or U.op in CASTS or (U.op == 'load' and U.ty == 'ptr'):
                                if U.id not in seen: seen.add(U.id); w.append(U.id)
                            elif U.op == 'load': first = min(first, pos); us.append('load')
                            elif U.op == 'store':
                                first = min(first, pos)
                                us.append('store %r if %s' % (s.norm(F.ex(U.ops[0])), guard(U.bb)))
                            elif U.op in ('call', 'invoke') and U.callee not in QUIET:
                                first = min(first, pos)
                                us.append('call %r if %s' % (s.result(U), guard(U.bb)))
                        except AnalysisError: us.append('?')
                sig[i] = (sorted(set(us)), first)
                setn(i, cls.get(i, '~h' if i not in als else '~' + key[i]))
            cls = {i: '~h' + sha(repr((key[i], sig[i][0]))) for i in dup}
        s.env, s.ver, s.memo = env, ver, {}
        for k in set(key.values()):
            g = sorted([i for i in key if key[i] == k], key=lambda i: sig.get(i, ([], 0)))
            for n, i in enumerate(g):
                m = '%s#%d' % (k, n) if n else k
                setn(i, m); s._first[i] = sig.get(i, ([], 0))[1]
                if len(g) > 1: s._dup[i] = (k, m)

    def heapname(s, i):
        if i not in s._heap: return repr(s.result(s.F.inst[i]))
        return s._heap[i] or '?'

    def norm(s, p):
        k = tuple(s._stack) + tuple(s._acc)
        m = s.memo.get(k)
        if m is None: m = s.memo[k] = {}
        nf = NORM[0]; NORM[0] = True
        try: return deep(p, s.f, m)
        finally: NORM[0] = nf

    def ncond(s, c):
        k = ('c',) + tuple(s._stack) + tuple(s._acc)
        m = s.memo.get(k)
        if m is None: m = s.memo[k] = {}
        return imap_cond(s.B, c, s.norm, m)

    def icond(s, c): return ind(s.B, c)

    def result(s, I):
        r = ZERO
        for g, x in s.cases(I): r = r + g * x
        return r

    def cases(s, I):
        """[(condition, call)]: arguments that depend on few conditions are told apart case by case"""
        idx = s.callargs.get(I.callee)
        ops = I.ops if idx is None else [I.ops[k] for k in idx if k < len(I.ops)]
        args = [s.content(o, short(s.norm(s.F.ex(o)))) for o in ops]
        def go(args):
            xs = set()
            for q in args: xs |= q.inds()
            if not xs or len(xs) > 4: return [(ONE, args)]
            x = min(xs, key=_key); P = Poly.atom(x)
            return [(P * g, a) for g, a in go([restrict_ind(q, x, 1) for q in args])] + [((ONE - P) * g, a) for g, a in go([restrict_ind(q, x, 0) for q in args])]
        out = {}
        for g, a in go(args):
            r = shorta(('call', I.callee or '?', tuple(a)))
            out[r] = out.get(r, ZERO) + g
        return [(g, r) for r, g in out.items()]

    def content(s, o, x):
        """a small local struct or array passed to a call: with its values"""
        if o[0] != 'v': return x
        I = s.F.inst[o[1]]
        if I.op == 'getelementptr' and all(p[0] == 'x' and p[1] == ['i', 0] for p in I.d['path']) and I.ops[0][0] == 'v': I = s.F.inst[I.ops[0][1]]
        if I.op != 'alloca' or not (I.d.get('st') or str(I.d.get('aty')).startswith('[')): return x
        b = s.place(s.F.addr(['v', I.id]))
        if b.steps: return x
        nm = re.sub('#.*', '', str(b.base[1]))
        if not I.d.get('st'):
            n = int(re.match(r'\[(\d+)', I.d['aty']).group(1)); nm = ''
            if n > 8: return x
            m = [('', s.load(b.add(('i', Poly.const(k))))) for k in range(n)] if b.base in s.copies or any(p.base == b.base for p in s.env) else []
        else: m = [(show_pl(p)[len(str(p.base[1])):] + '=', v) for p, v in s.env.items() if p.base == b.base]
        if not m or len(m) > 8: return x
        for p in s.env:
            if p.base == b.base: s.read.add(p)
        return short(Poly.atom(('st', '&' + nm + '{' + ', '.join('%s%r' % (k, short(v)) for k, v in sorted(m, key=lambda t: t[0])) + '}')))

    def store(s, pl, g, v):
        """conditional write; an index that depends on conditions is split into cases"""
        xs = set()
        for q in idxs(pl): xs |= q.inds()
        if xs and len(xs) <= 4:
            x = min(xs, key=_key); P = Poly.atom(x)
            s.store(setidx(pl, [restrict_ind(q, x, 1) for q in idxs(pl)]), g * P, v)
            s.store(setidx(pl, [restrict_ind(q, x, 0) for q in idxs(pl)]), g * (ONE - P), v)
            return
        if g == ZERO: return
        NORM[0] = True
        old = s.env.get(pl)
        if old is None: old = Poly.atom(('ld', pl))
        new = eqsub(posn(abssub(g * v + (ONE - g) * old)))
        if len(new.t) > 600: new = digest('=', new)
        NORM[0] = False
        s.env[pl] = new
        if pl in s.read: s.memo = {}; s.read = set()

    def _walk(s):
        s.hsig()
        for k in range(2):
            s._iv.clear(); s.tpoly.clear(); s.memo = {}; s.read = set(); s.lv = {}
            s.env = {}; s.locs = {}; s.effects = []; s.calls = []; s.rets = []; s.ver = {}; s.pre = {}; s.preg = {}; s.given = []; s.cur = 0; s.cres = {}; s.copies = {}
            s.blocks(list(s.F.rpo), None)
            if k or not s.rename(): break

    def firstuse(s, i):
        F = s.F; first = 1 << 30; w = [i]; seen = {i}
        while w:
            for U in F.uses.get(w.pop(), ()):
                if U.op in ('getelementptr', 'phi') or U.op in CASTS or (U.op == 'load' and U.ty == 'ptr'):
                    if U.id not in seen: seen.add(U.id); w.append(U.id)
                elif U.op in ('load', 'store', 'call', 'invoke') and U.callee not in QUIET: first = min(first, F.rpoi.get(U.bb, 0) * 10000 + U.pos)
        return first

    def rename(s):
        """number local blocks of equal size and type by what the results say about them; True when a name changed"""
        grp = {}
        for i, (k, n) in s._dup.items(): grp.setdefault(k, []).append((n, i))
        name = {n: k for k, L in grp.items() for n, i in L}
        if not name or s.F.name in NORENAME: return False
        pat = re.compile(r'(?<!\w)(?:%s)(?![\w#])' % '|'.join(re.escape(n) for n in sorted(name, key=len, reverse=True)))
        dead = {b for b in {pl.base for pl in s.env} if b[0] == 'loc' and not s.readbycall(b)}
        rows = [('=', pl, v) for pl, v in s.env.items() if pl.steps or pl.base not in dead] + [('pre',) + kv for kv in s.pre.items()] + [('call', r, g) for n, I, g, r in s.calls] + [('given',) + x for x in s.given] + [('ret',) + x for x in s.rets]
        nm = {}
        def names(x):
            if isinstance(x, str): return frozenset(pat.findall(x)) if '(' in x or len(x) < 200 else frozenset()
            if not isinstance(x, (Poly, Place, tuple)): return frozenset()
            if x in nm: return nm[x]
            nm[x] = frozenset()
            nm[x] = r = frozenset().union(*map(names, parts(x)))
            return r
        def parts(x):
            if isinstance(x, Poly): return [a for m in x.t for a, e in m]
            if isinstance(x, Place): return (x.base,) + x.steps
            if x and x[0] == 'D' and x[1] in DIGP: return DIGP[x[1]]
            if x and x[0] == 'I' and len(x) > 3 and x[3]: return x[3]
            return x
        hm = {}
        def H(x, n):
            if isinstance(x, str): return pat.sub(lambda m: '~self' if m.group(0) == n else '~' + cls[m.group(0)], x)
            if not isinstance(x, (Poly, Place, tuple)): return repr(x)
            if n is not None and n not in names(x): n = None
            k = (x, n)
            if k in hm: return hm[k]
            hm[k] = '?'
            if not names(x): r = show_atom(x) if type(x) is Atom else repr(x) if not isinstance(x, Poly) or len(x.t) < 200 else 'P%s' % sha(repr(x))
            elif isinstance(x, Poly): r = sha(' '.join(sorted('%s*%s' % (c, sorted((H(a, n), e) for a, e in m)) for m, c in x.t.items())))
            else: r = sha(repr([type(x) is Place, [H(y, n) for y in parts(x)]]))
            hm[k] = r
            return r
        rows = [(x, names(x)) for x in rows]
        rows = [x for x in rows if x[1]]
        cls = dict(name)
        for rnd in range(3):
            sg = {n: [] for n in name}; hm.clear()
            for r, ns in rows:
                for n in ns: sg[n].append(H(r, n))
            cls = {n: sha(name[n] + repr(sorted(sg[n]))) for n in name}
        ch = False
        for k, L in grp.items():
            L.sort(key=lambda x: (cls[x[0]], s._first.get(x[1], 0)))
            for j, (n, i) in enumerate(L):
                m = '%s#%d' % (k, j) if j else k
                if m != n: ch = True; s.setn(i, m)
        return ch

    def setn(s, i, n):
        if i in s._als: t, b = s._als[i]; s.basemap[b] = (s.lkind(t[0], i), n)
        else: s._heap[i] = n

    def blocks(s, seq, ctx):
        F = s.F; done = set()
        for b in seq:
            if b in done: continue
            L = F.loopof.get(b)
            while L is not None and L.parent is not ctx and L.parent is not None: L = L.parent
            if L is not None and L is not ctx and L.header == b and (ctx is None or L.parent is ctx):
                body = [x for x in seq if x in L.body]
                done.update(body)
                s.loop(L, body)
            else: s.block(b)

    def loop(s, L, body):
        """places that live on from one iteration to the next: closed form of the running value"""
        tn = show_atom(list(list(s.t(L).t)[0])[0][0])
        cand = {}
        keys = set()
        for b in body:
            for I in s.F.blocks[b]:
                if I.op == 'store' and b not in s.F.dead():
                    p0 = s.F.addr(I.ops[1])
                    for gc, p0 in (s.F.ptr_alts(p0) if p0.base[0] in ('phi', 'sel') else None) or [(None, p0)]:
                        try: pl = s.place(p0)
                        except AnalysisError: continue
                        if any(q.inds() for q in idxs(pl)) or (s.prune and s.prune(pl)): continue
                        if not textmentions(show_pl(pl), tn) and not opaque(show_pl(pl)): cand[pl] = 1
                elif I.op == 'call': keys |= s.callkeys(I)
        cand = [p for p in cand if not any(k in keys for k in s.vkeys(p))]
        lds = [I.id for b in body for I in s.F.blocks[b] if I.op == 'load']
        lds = set(lds)
        def drop():
            for i in [i for i in s.lv if (i[0] if isinstance(i, tuple) else i) in lds]: del s.lv[i]
        drop()
        twice = any(I.op == 'phi' and not s.F.induction(I) for I in s.F.blocks[L.header]) and any(I.op == 'store' for b in body for I in s.F.blocks[b])
        if len(cand) > 40: cand = []
        if not cand and not twice: return s.blocks(body, L)
        snap = (dict(s.env), dict(s.pre), dict(s.locs), len(s.effects), len(s.calls), len(s.rets), {k: list(v) for k, v in s.ver.items()}, s.cur, dict(s.preg), len(s.given))
        def restore():
            s.env, s.pre, s.locs, s.preg = dict(snap[0]), dict(snap[1]), dict(snap[2]), dict(snap[8])
            del s.effects[snap[3]:]; del s.calls[snap[4]:]; del s.rets[snap[5]:]; del s.given[snap[9]:]
            s.ver = {k: list(v) for k, v in snap[6].items()}; s.cur = snap[7]; s.memo = {}; s.read = set()
            drop()
        def init(p):
            v = snap[0].get(p)
            return v if v is not None else Poly.atom(('ld', s.version(p)))
        def probe(names):
            for p in cand: s.env[p] = Poly.atom(names[p])
            s.memo = {}; s.read = set()
            s.blocks(body, L)
            r = {p: s.env.get(p) for p in cand}
            restore()
            return r
        lv = len(s.F.loops_of(L.header))
        names = {p: ('acc', 'm%d.%s' % (lv, sha(show_pl(p)))) for p in cand}
        tok = {p: "('acc', '%s')" % names[p][1] for p in cand}
        nxt = probe(names) if cand else {}
        closed = {}
        for p in cand:
            if nxt[p] is None: continue
            if nxt[p] == Poly.atom(names[p]): closed[p] = init(p); continue
            c = s.close(init(p), nxt[p], names[p], s.t(L))
            if c is None:
                nx = nxt[p]
                oth = [q for q in cand if q != p and mentions(nx, tok[q])]
                nx2 = deep(nx, lambda a, n=names[p]: Poly.atom(('self', 0)) if a == n else None)
                if mentions(nx2, tok[p]):
                    nm = dict(names); nm[p] = ('self', 0)
                    nx2 = probe(nm)[p]
                    if nx2 is None: continue
                c = shorta(('rec', short(init(p)), short(nx2), s.t(L)))
            closed[p] = c
        # running values of one place inside another one's sum
        for k in range(2):
            for p in closed:
                closed[p] = deep(closed[p], lambda a: next((closed[q] for q in closed if q is not p and a == names[q]), None)) if any(mentions(closed[p], tok[q]) for q in closed if q is not p) else closed[p]
        for p, c in closed.items(): s.env[p] = c
        s.memo = {}; s.read = set()
        s.blocks(body, L)
        if twice:
            lv = {i: v for i, v in s.lv.items() if (i[0] if isinstance(i, tuple) else i) in lds}
            restore(); s.lv.update(lv)
            for p, c in closed.items(): s.env[p] = c
            s.blocks(body, L)
        for p, c in closed.items(): s.env[p] = c
        s.memo = {}; s.read = set()

    def block(s, b):
        F = s.F; dead = F.dead()
        for I in F.blocks[b]:
            if I.bb != s.cur:
                s.cur = I.bb
                if s.ver: s.memo = {}
            if I.op == 'load' and I.ty != 'ptr' and F.ldids and I.bb not in dead:
                p0 = F.addr(I.ops[0])
                al = F.ptr_alts(p0) if p0.base[0] in ('phi', 'sel') else None
                if al:
                    for n, (c, q) in enumerate(al):
                        if ldkey(q) in F.ldids:
                            try: s.lv[(I.id, n)] = s.load(s.place(q))
                            except AnalysisError: s.lv[(I.id, n)] = Poly.atom(('big',))
                elif ldkey(p0) in F.ldids and F.fwd_load(I) is None:
                    try: s.lv[I.id] = s.load(s.place(p0))
                    except AnalysisError: s.lv[I.id] = Poly.atom(('big',))
            elif I.op == 'store':
                if I.bb in dead: continue
                p0 = F.addr(I.ops[1])
                al = F.ptr_alts(p0) if p0.base[0] in ('phi', 'sel') else None
                for gc, p0 in al or [(s.B.TRUE, p0)]:
                    pl = None
                    try:
                        g = s.ncond(s.B.AND(F.rc(I.bb), gc))
                        if g is s.B.FALSE: continue
                        pl = s.place(p0); v = s.norm(F.ex(I.ops[0]))
                        if s.prune and s.prune(pl): continue
                        s.store(pl, ind(s.B, g), v)
                    except AnalysisError:
                        if pl is None: continue
                        s.env[pl] = Poly.atom(('big',)); s.memo = {}
                    s.locs[pl] = I.loc()
                    s.effects.append((pl, I))
            elif I.op in ('call', 'invoke'):
                n = I.callee or '?'
                if n in FATAL:
                    try:
                        g = ind(s.B, s.ncond(F.rc(I.bb)))
                        if g != ZERO: s.calls += [(n, I, g * c, r) for c, r in s.cases(I) if g * c != ZERO]
                    except AnalysisError: s.calls.append((n, I, Poly.atom(('big',)), s.result(I)))
                    continue
                if n.startswith('llvm.memset') and I.bb not in dead and I.ops[1] == ['i', 0] and I.ops[0][0] == 'v' and F.inst[I.ops[0][1]].op == 'alloca':
                    d = s.place(F.addr(I.ops[0]))
                    for pl in [x for x in s.env if x.base == d.base]: del s.env[pl]
                    s.copies[d.base] = 0; s.memo = {}
                if n.startswith('llvm.memcpy') and I.bb not in dead:
                    try:
                        d, q = s.place(F.addr(I.ops[0])), s.place(F.addr(I.ops[1]))
                        if I.ops[0][0] == 'v' and F.inst[I.ops[0][1]].op == 'alloca' and not d.steps and d.base != q.base:
                            for pl in [x for x in s.env if x.base == d.base]: del s.env[pl]
                            for pl, v in list(s.env.items()):
                                if pl.base == q.base and pl.steps[:len(q.steps)] == q.steps: s.env[Place(d.base, pl.steps[len(q.steps):])] = v
                            s.copies[d.base] = s.copies.get(q.base, q) if not q.steps else q if q.base not in s.copies or s.copies[q.base] == 0 else Place(s.copies[q.base].base, s.copies[q.base].steps + q.steps); s.memo = {}
                    except AnalysisError: pass
                if n in PURE or n.startswith('llvm.') or n in QUIET or I.bb in dead: continue
                if s.skipcall and s.skipcall(n):
                    s.clobber(I); continue
                try:
                    g = s.ncond(F.rc(I.bb))
                    if g is s.B.FALSE: continue
                    if n not in ALLOC: s.cres[I.id] = s.result(I)
                    g = ind(s.B, g)
                    for c, r in s.cases(I):
                        if g * c == ZERO: continue
                        s.calls.append((n, I, g * c, r))
                        s.handed(I, n, g * c, r)
                except AnalysisError: s.calls.append((n, I, Poly.atom(('big',)), Poly.atom(('big',))))
                s.clobber(I)
            elif I.op == 'ret' and I.ops and I.bb not in dead:
                g = s.ncond(F.rc(I.bb))
                o = I.ops[0]; v = None
                if o[0] == 'v' and F.inst[o[1]].op == 'load':
                    q = F.aggplace(F.inst[o[1]])
                    if q: v = Poly.atom(('st', '{' + ', '.join('%s=%r' % (x.steps[-1][1], short(s.load(s.place(x)))) for x in q) + '}'))
                s.rets.append((ind(s.B, g), v if v is not None else s.norm(F.ex(o))))

    # ---------------------------------------------------------- output
    def values(s, want=None):
        return {show_pl(pl): repr(v) for pl, v in s.env.items() if not want or want(pl)}

    def loc(s): return {show_pl(p): l for p, l in s.locs.items()}

    def callmap(s, want=None):
        acc = {}; loc = {}
        for n, I, g, r in s.calls:
            if want and not want(n): continue
            k = repr(r); acc[k] = acc.get(k, ZERO) + g * (ONE - acc.get(k, ZERO)); loc[k] = I.loc()
        return {k: repr(v) for k, v in acc.items()}, loc

    def order(s, want=None):
        """pairs of calls with conflicting effects: (first, second) in program order"""
        if s.mr is None: return set()
        L = [(repr(r), I) + s.mr.call(s.F, I) for n, I, g, r in s.calls if (not want or want(n)) and n in s.F.prog.fn]
        out = set()
        for i, (k1, I1, r1, w1) in enumerate(L):
            for k2, I2, r2, w2 in L[i + 1:]:
                if k1 == k2: continue
                if (w1 & (r2 | w2)) or (w2 & r1):
                    if s.freach(I1.bb, I2.bb): out.add((k1, k2))
        return out

    def retval(s):
        v = ZERO
        for g, x in s.rets: v = v + g * x
        return repr(v)


NORENAME = {'RunMDOODZ'}
_FT = {}; _FD = {}


def textmentions(t, tok):
    """does the text, digests looked into, contain the token"""
    if tok in t: return True
    return any(_digmentions(h, tok) for h in set(re.findall(r'D([0-9a-f]{12})', t)))


def _digmentions(h, tok):
    k = (h, tok)
    r = _FT.get(k)
    if r is None:
        t = DIG.get(h, '')
        _FT[k] = False
        if h not in _FD: _FD[h] = set(re.findall(r'D([0-9a-f]{12})', t))
        r = _FT[k] = tok in t or any(_digmentions(x, tok) for x in _FD[h])
    return r


def mentions(p, tok): return textmentions(repr(p), tok)


_MA = {}


def mentions_atom(a, tok):
    k = (a, tok)
    if k not in _MA: _MA[k] = textmentions(show_atom(a), tok)
    return _MA[k]


def idxs(p): return [t[1] for t in p.steps if t[0] == 'i']


def setidx(p, ix):
    it = iter(ix)
    return Place(p.base, tuple(('i', next(it)) if t[0] == 'i' else t for t in p.steps))


def show_pl(p):
    b = p.base
    x = b[1] if b[0] in ('st', 'glob', 'heap', 'loc', 'lst') else show_base(b)
    for st in p.steps:
        if st[0] == 'f': x += '.' + st[1]
        elif st[0] == 'i': x += '[%r]' % (st[1],)
        else: x += '?'
    return str(x)


def opaque(j):
    j = str(j)
    return j.endswith('~') or bool(OPAQUE.search(j))


def compare(c, ref, cur, loc, what, where, strict=False, spec='specified'):
    """frozen values against current ones; a place whose current value cannot be resolved is undecided, not wrong"""
    for k, v in sorted(ref.items()):
        if opaque(k) or opaque(v): continue
        w = cur.get(k)
        if w is None and any(opaque(x) and x not in ref and x.split('[')[0] == k.split('[')[0] for x in cur):
            c.undecided.append('%s:%s' % (where, k)); continue
        if w is None:
            c.require(False, 'missing:%s:%s' % (where, k), '%s no longer sets %s (%s: %s)' % (where, k, spec, cut(v)), where); continue
        if v != w and opaque(w):
            c.undecided.append('%s:%s' % (where, k)); continue
        if c.require(v == w, 'value:%s:%s' % (where, k), '%s: %s %s %s; %s: %s' % (where, k, what, cut(w), spec, cut(v)), loc.get(k, where)): c.sample(cut('%s = %s' % (k, w), 300))
    if strict:
        for k, w in sorted(cur.items()):
            if k not in ref and not opaque(k) and not opaque(w): c.require(False, 'extra:%s:%s' % (where, k), '%s additionally sets %s to %s' % (where, k, cut(w)), loc.get(k, where))


def cut(x, n=500): return x if len(x) <= n else x[:n] + '...'


def compare_calls(c, ref, cur, loc, where):
    for k, g in sorted(ref.items()):
        if opaque(k) or opaque(g): continue
        if k not in cur and any(opaque(x) and x not in ref and x.split('(')[0] == k.split('(')[0] for x in cur):
            c.undecided.append('%s:%s' % (where, k)); continue
        if k not in cur:
            c.require(False, 'call:%s:%s' % (where, k), '%s no longer performs %s' % (where, cut(k)), where); continue
        if opaque(cur[k]) and g != cur[k]: c.undecided.append('%s:%s' % (where, k)); continue
        c.require(g == cur[k], 'callguard:%s:%s' % (where, k), '%s performs %s when %s; specified: %s' % (where, cut(k), cut(cur[k]), cut(g)), loc.get(k, where))


def sha(t):
    import hashlib
    return hashlib.sha1(t.encode()).hexdigest()[:12]


def vkey(t, n=1200):
    """text as stored in the reference tables: very long values by digest"""
    if len(t) <= n: return t
    import hashlib
    return t[:200] + ' ... #' + hashlib.sha1(t.encode()).hexdigest()[:16] + ('~' if opaque(t) else '')
