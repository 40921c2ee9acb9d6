"""helpers over ir.Fn: deep atom rewriting, store/call effects with guards and loop nests, dense-index coverage"""
from ir import Poly, Place, ONE, ZERO, AnalysisError, L_id, BDD, PURE, mkcall, lift, _key


def deep_place(p, f, memo):
    k = ('P', p)
    if k in memo: return memo[k]
    nb = f(p.base)
    b = p.base if nb is None else nb
    st = tuple(('i', deep(s[1], f, memo)) if s[0] == 'i' else s for s in p.steps)
    if isinstance(b, Place): r = Place(b.base, b.steps + st)
    else: r = Place(b, st)
    memo[k] = r
    return r


def inds_of(args):
    r = set()
    for x in args:
        if isinstance(x, Poly): r |= x.inds()
    return r


def refill(args, xs):
    it = iter(xs)
    return tuple(next(it) if isinstance(x, Poly) else x for x in args)


def deep_any(x, f, memo):
    if isinstance(x, Poly): return deep(x, f, memo)
    if isinstance(x, Place): return deep_place(x, f, memo)
    if isinstance(x, tuple): return tuple(deep_any(y, f, memo) for y in x)
    return x


def deep(p, f, memo=None):
    """rewrite every atom/base inside a polynomial (bottom-up); f(atom or base) -> Poly/atom replacement or None.
    conditions inside gates are left alone"""
    if memo is None: memo = {}
    if p in memo: return memo[p]
    r = ZERO
    for m, c in p.t.items():
        x = Poly.const(c); fac = []
        for a, e in m:
            q = f(a)
            if q is None:
                if isinstance(a, tuple) and a and a[0] in ('ld', 'addr', 'call', 'inv', 'fptosi', 'sdiv', 'srem', 'mul', 'udiv', 'urem', 'ashr', 'and', 'or', 'gate', 'max', 'min', 'xv', 'rec', 'sum', 'ceildiv', 'bool2'):
                    a2 = tuple(deep_any(y, f, memo) for y in a)
                    if a2[0] == 'inv': q = a2[1].inv()
                    elif a2[0] == 'mul': q = a2[1] * a2[2]
                    elif a2[0] == 'call' and a2[1] in PURE: q = lift(list(a2[2]), lambda xs, n=a2[1]: mkcall(n, tuple(xs)))
                    elif a2[0] == 'call' and 0 < len(inds_of(a2[2])) <= 4: q = lift([x for x in a2[2] if isinstance(x, Poly)], lambda xs, n=a2: Poly.atom(('call', n[1], refill(n[2], xs)) + n[3:]))
                    elif a2[0] == 'fptosi': q = lift([a2[1]], lambda xs: xs[0] if xs[0].is_const() and xs[0].cval().denominator == 1 else Poly.atom(('fptosi', xs[0])))
                    elif a2[0] == 'fptosi' and a2[1].is_const() and a2[1].cval().denominator == 1: q = a2[1]
                    else: q = Poly.atom(a2)
                else: q = Poly.atom(a)
            elif not isinstance(q, Poly): q = Poly.atom(q)
            fac.append(q.powi(e))
        fac.sort(key=lambda q: (len(q.t), _key(q)) if len(q.t) > 1 else (0, ''))
        for q in fac: x = x * q
        r = r + x
    memo[p] = r
    return r


def name_args(F, names):
    """force canonical argument names by position so that two functions' atoms can be compared"""
    if len(F.args) < len(names): raise AnalysisError('%s takes %d arguments, expected %d' % (F.name, len(F.args), len(names)))
    for i, n in enumerate(names):
        if n: F.args[i]['dn'] = n
    return F


class Effect:
    def __init__(s, F, I, place, val=None):
        s.F = F; s.I = I; s.place = place; s.val = val
        s.guard = F.rc(I.bb)
        s.loops = F.loops_of(I.bb)
        s.order = (F.rpoi[I.bb], I.pos)

    def loc(s): return s.I.loc()


def stores(F):
    F._build()
    out = []
    for I in F.insts():
        if I.op == 'store':
            out.append(Effect(F, I, F.addr(I.ops[1]), F.ex(I.ops[0])))
    return out


def iv_ranges(F, loops):
    """[(iv atom, lo, hi, step)] innermost first; raises when a loop is not counted"""
    r = []
    for L in loops:
        g = F.loop_range(L)
        if g is None: return None
        r.append(g)
    return r


def covers(idx, rngs, count):
    """does idx, as the ivs run over their ranges (step +-1), take exactly the values 0..count-1 ?"""
    rem = idx; sizes = []
    used = [g for g in rngs if any(a == g[0] for a in idx.atoms())]
    # substitute iv = lo + t, t in 0..n-1
    base = idx
    terms = []
    for iv, lo, hi, st in used:
        if abs(st) != 1: return False
        co, rest = base.coef(iv)
        if any(a == iv for a in rest.atoms()) or any(a == iv for a in co.atoms()): return False
        terms.append((co, hi - lo + ONE, lo))
        base = rest + co * lo
    if base != ZERO: return False
    stride = ONE
    left = list(terms)
    while left:
        m = [t for t in left if t[0] == stride]
        if not m: return False
        left.remove(m[0]); stride = stride * m[0][1]
    return stride == count


def atoms_deep(p, acc=None):
    """all atoms nested anywhere inside p"""
    if acc is None: acc = set()
    for m in p.t:
        for a, _ in m: _ad(a, acc)
    return acc


def _ad(a, acc):
    if a in acc: return
    acc.add(a)
    if isinstance(a, tuple):
        for y in a:
            if isinstance(y, Poly): atoms_deep(y, acc)
            elif isinstance(y, Place):
                for s in y.steps:
                    if s[0] == 'i': atoms_deep(s[1], acc)
            elif isinstance(y, tuple): _ad(y, acc)


FMTCALLS = {'asprintf': (0, 1), 'sprintf': (0, 1), 'snprintf': (0, 2)}


def resolve_str(F, o, depth=0):
    """char* operand -> ('lit', s) | ('fmt', format, [args]) | None ; the last formatting call into the local buffer that dominates"""
    e = F.ex(o)
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if len(m) == 1 and m[0][0][0] == 'str': return ('lit', m[0][0][1])
    if o[0] == 's': return ('lit', o[1])
    p = F.addr(o)
    if p.base[0] != 'alloca': return None
    use = F.inst[o[1]] if o[0] == 'v' else None
    cands = []
    for I in F.calls(*FMTCALLS):
        d, k = FMTCALLS[I.callee]
        if F.addr(I.ops[d]).base == p.base: cands.append((I, k))
    if use is not None: cands = [x for x in cands if F.inst_dominates(x[0], use)] or cands
    if not cands: return None
    # the latest dominating definition
    best = cands[0]
    for x in cands[1:]:
        if F.inst_dominates(best[0], x[0]): best = x
    I, k = best
    f = resolve_str(F, I.ops[k], depth + 1)
    if not f or f[0] != 'lit' or depth > 4: return None
    args = []
    for a in I.ops[k + 1:]:
        s = resolve_str(F, a, depth + 1) if (a[0] == 's' or (a[0] == 'v' and F.inst[a[1]].ty == 'ptr')) else None
        args.append(s if s else F.ex(a))
    return ('fmt', f[1], args)


def reachable(F, a, b):
    """is there a CFG path from instruction a to instruction b (a strictly before b)?"""
    if a.bb == b.bb and a.pos < b.pos: return True
    seen = set(); w = list(F.succ[a.bb])
    while w:
        x = w.pop()
        if x in seen: continue
        seen.add(x)
        if x == b.bb: return True
        w.extend(F.succ[x])
    return False
