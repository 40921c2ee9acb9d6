"""canonical, serialisable form of guarded symbolic values: comparable across versions of the source"""
from ir import Poly, Place, BDD, sign, ge0, gt0, normsign, ungate, gate, show_place, ZERO, ONE, AnalysisError, show_atom
from effects import deep, deep_place, atoms_deep


def map_cond(B, n, f, memo=None):
    """rewrite the polynomials inside a condition with f: Poly->Poly; re-normalise; expand gates"""
    memo = {} if memo is None else memo
    if n.id < 2: return n
    if n.id in memo: return memo[n.id]
    v = B.names[n.v]
    c = map_var(B, v, f)
    r = B.ITE(c, map_cond(B, n.hi, f, memo), map_cond(B, n.lo, f, memo))
    memo[n.id] = r
    return r


def map_var(B, v, f):
    k = v[0]
    if k not in ('eq0', 'feq0', 'ge0', 'gt0f', 'lt0f', 'isnan', 'true'): return B.var(v)
    p = f(v[1])
    r = B.FALSE
    for c, x in split_gates(B, p):
        r = B.OR(r, B.AND(c, mk(B, k, x)))
    return r


def counter(x):
    """x = r + c*t for exactly one loop counter t, c = +-1 -> (c, r, t, trip count text)"""
    z = [(m, c) for m, c in x.t.items() if any(a[0] == 't' for a, _ in m)]
    if len(z) != 1: return None
    (m, c), = z
    if len(m) != 1 or m[0][1] != 1 or c not in (1, -1): return None
    t = Poly.atom(m[0][0])
    return c, x - t * Poly.const(c), t, m[0][0][1].rstrip("'")


def mk(B, k, x):
    if k in ('eq0', 'feq0'):
        if x.is_const(): return B.TRUE if x.cval() == 0 else B.FALSE
        z = [m for m in x.t if m]
        if len(z) == 1 and len(z[0]) == 1 and z[0][0][0][0] == 'fx' and 'inf' in str(z[0][0][0][1]).lower(): return B.FALSE      # a number against infinity
        if k == 'eq0':
            g = counter(x)
            if g:
                c, r, t, n = g
                if c == 1: r = -r          # t == r
                if r.is_const() and r.cval() < 0 or repr(r) == n: return B.FALSE
                if n == '2' and r.is_const() and r.cval() == 1: return B.NOT(mk(B, 'eq0', t))      # the second of two iterations
            elif sign(x) in (1, -1): return B.FALSE
            f = flag(x)
            if f is not None: return B.NOT(B.var((k, normsign(f))))
        return B.var((k, normsign(x)))
    if k == 'ge0':
        g = counter(x)
        if g:
            c, r, t, n = g
            if c == 1:
                # t >= -r
                if r.is_const():
                    if r.cval() >= 0: return B.TRUE
                    if r.cval() == -1: return B.NOT(mk(B, 'eq0', t))
                if repr(-r) == n: return B.FALSE
                if repr(ONE - r) == n: return mk(B, 'eq0', t + r)
            else:
                # t <= r
                if r.is_const():
                    if r.cval() < 0: return B.FALSE
                    if r.cval() == 0: return mk(B, 'eq0', t)
                if repr(r + ONE) == n or repr(r) == n: return B.TRUE
                if repr(r + ONE + ONE) == n: return B.NOT(mk(B, 'eq0', t - r - ONE))
        else:
            c = sign(x)
            if c > 0: return B.TRUE
            if c == -1: return B.FALSE
        return ge0(B, x)
    if k == 'gt0f': return gt0(B, x)
    if k == 'lt0f': return gt0(B, -x)
    return B.var((k, x))


# documented on/off switches (0 or 1): 'not 0' and 'is 1' are the same test
FLAGS = set('''periodic_x Newton anisotropy auto_penalty chemical_diffusion chemical_production compressible constant_dt density_variations elastic finite_strain
fix_temperature force_act_vol_ast force_melt_weak free_surface gnuplot_log_res initial_cooling irestart isPD kinetics let_res_grow line_search marker_noise mechanical
melting noisy out_of_plane polar reseed_markers reseed_mode shear_style smooth_softening stagnated therm_perturb thermal topo_update track_T_P_x_z writer writer_debug
writer_markers zero_mean_topo deformation_maps save_initial_markers load_initial_markers Picard2Newton'''.split())


def flag(x):
    """'switch == 0' of a documented 0/1 switch -> 'switch - 1' (the two are complements)"""
    if len(x.t) != 1: return None
    (m, c), = x.t.items()
    if len(m) != 1 or m[0][1] != 1: return None
    a = m[0][0]
    if a[0] == 'ld' and a[1].steps and a[1].steps[-1][0] == 'f' and a[1].steps[-1][1] in FLAGS: return Poly.atom(a) - ONE
    return None


def split_gates(B, p, limit=64):
    """Poly with gate atoms anywhere (also inside calls, indices, denominators) -> [(cond, Poly without gates)]"""
    gs = [a for a in atoms_deep(p) if isinstance(a, tuple) and a and a[0] == 'gate']
    if not gs: return [(B.TRUE, p)]
    # innermost first
    gs = [a for a in gs if not any(isinstance(b, tuple) and b and b[0] == 'gate' and b is not a for c, v in a[1] for b in atoms_deep(v))] or gs
    a = min(gs, key=repr)
    out = {}
    for c, v in a[1]:
        q = deep(p, lambda b, a=a, v=v: v if b == a else None)
        for c2, v2 in split_gates(B, q, limit):
            cc = B.AND(c, c2)
            if cc is not B.FALSE: out[v2] = B.OR(out.get(v2, B.FALSE), cc)
            if len(out) > limit: raise AnalysisError('too many alternatives')
    return [(c, v) for v, c in out.items()]


# -------------------------------------------------------------- serialisation
def lit(v):
    """condition variable -> (string, exclusive group, value)"""
    k = v[0]
    if k in ('eq0', 'feq0'):
        p = v[1]; c = p.t.get((), 0)
        q = p - Poly.const(c)
        return ['%r == %s' % (q, str(-c)), repr(q), str(-c)]
    if k == 'ge0': return ['%r >= 0' % (v[1],), None, None]
    if k == 'gt0f': return ['%r > 0' % (v[1],), None, None]
    if k == 'lt0f': return ['%r < 0' % (v[1],), None, None]
    if k == 'isnan': return ['isnan(%r)' % (v[1],), None, None]
    if k == 'true': return ['true(%r)' % (v[1],), None, None]
    return [str(v), None, None]


def dump_cond(B, n):
    """-> True / False / ['ite', name, group, val, hi, lo] with variables in name order"""
    if n is B.TRUE: return True
    if n is B.FALSE: return False
    sup = sorted(B.support(n), key=lambda v: lit(v)[0])
    memo = {}
    def go(n, i):
        if n is B.TRUE: return True
        if n is B.FALSE: return False
        k = (n.id, i)
        if k in memo: return memo[k]
        while True:
            hi, lo = B.restrict(n, sup[i], 1), B.restrict(n, sup[i], 0)
            if hi is not lo: break
            i += 1
        r = ['ite'] + lit(sup[i]) + [go(hi, i + 1), go(lo, i + 1)]
        memo[k] = r
        return r
    return go(n, 0)


def load_cond(B2, j):
    if j is True: return B2.TRUE
    if j is False: return B2.FALSE
    _, name, grp, val, hi, lo = j
    return B2.ITE(B2.var((name, grp, val)), load_cond(B2, hi), load_cond(B2, lo))


def same_cond(a, b):
    """equality of two dumped conditions, modulo x==c1 excluding x==c2"""
    if a == b: return True
    B2 = BDD()
    na, nb = load_cond(B2, a), load_cond(B2, b)
    d = B2.ITE(na, B2.NOT(nb), nb)
    if d is B2.FALSE: return True
    vs = [v for v in B2.support(d) if v[1]]
    for i, x in enumerate(vs):
        for y in vs[i + 1:]:
            if x[1] == y[1] and x[2] != y[2]: d = B2.AND(d, B2.NOT(B2.AND(B2.var(x), B2.var(y))))
    return d is B2.FALSE


def show_cond(j):
    if j is True: return 'always'
    if j is False: return 'never'
    B2 = BDD(); n = load_cond(B2, j)
    return ' or '.join(' and '.join(('' if v else 'not ') + '(%s)' % a[0] for a, v in c) for c in B2.cubes(n, 4))


def dump_val(B, v, cond=None):
    """guarded value -> [[polystring, cond], ...] sorted"""
    acc = {}
    for c, p in split_gates(B, v):
        if cond is not None: c = B.AND(c, cond)
        if c is B.FALSE: continue
        s = repr(p)
        acc[s] = B.OR(acc.get(s, B.FALSE), c)
    return [[s, dump_cond(B, acc[s])] for s in sorted(acc)]


def same_val(a, b):
    da, db = {s: c for s, c in a}, {s: c for s, c in b}
    for s in set(da) | set(db):
        if not same_cond(da.get(s, False), db.get(s, False)): return False
    return True


def show_val(a):
    if len(a) == 1 and a[0][1] is True: return a[0][0]
    return '; '.join('%s when %s' % (s, show_cond(c)) for s, c in a)


# -------------------------------------------------------------- indicator form
def ind_atom(v):
    l = lit(v)
    n = l[0]
    if len(n) > 400:
        import hashlib, ir
        h = hashlib.sha1(n.encode()).hexdigest()[:12]
        ir.DIG.setdefault(h, n)
        n = 'D' + h + ('~' if ir.DOPQ.search(n) else '')
    return ('I', n, l[1], v)


def ind(B, n, memo=None):
    """condition -> polynomial of indicator atoms (multilinear: unique), exclusive equalities multiplied out"""
    memo = B.__dict__.setdefault('_ind', {})
    if n is B.TRUE: return ONE
    if n is B.FALSE: return ZERO
    if n.id in memo: return memo[n.id]
    x = Poly.atom(ind_atom(B.names[n.v]))
    lo = ind(B, n.lo); hi = ind(B, n.hi)
    if len(lo.t) + len(hi.t) > 4000: raise AnalysisError('condition too large')
    r = lo + x * (hi - lo)
    memo[n.id] = r
    return r


def icond(B, p, k):
    """condition on a value with indicators -> BDD node"""
    xs = p.inds()
    if not xs: return mk(B, k, p)
    from ir import restrict_ind, LIFT, short, _key
    pure = len(xs) > LIFT and len(xs) <= 26 and len(p.t) <= 100 and all(a[0] == 'I' for m in p.t for a, _ in m)
    if len(xs) > LIFT and not pure: return mk(B, k, short(p))
    x = min(xs, key=_key) if not pure else min(xs, key=lambda x: (x[2] is None, _key(x)))
    return B.ITE(B.var(x[3]), icond(B, restrict_ind(p, x, 1), k), icond(B, restrict_ind(p, x, 0), k))


def imap_cond(B, n, f, memo):
    """rewrite the values inside a condition with f (values may come back with indicators)"""
    if n.id < 2: return n
    if n.id in memo: return memo[n.id]
    v = B.names[n.v]
    if v[0] in ('eq0', 'feq0', 'ge0', 'gt0f', 'lt0f', 'isnan', 'true'): c = icond(B, f(v[1]), v[0])
    else: c = B.var(v)
    r = B.ITE(c, imap_cond(B, n.hi, f, memo), imap_cond(B, n.lo, f, memo))
    memo[n.id] = r
    return r
