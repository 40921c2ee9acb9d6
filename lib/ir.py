"""SSA program model: loads irfacts' JSON and offers CFG, dominance, loops, reaching conditions and a canonical
algebraic form of every value (Laurent polynomials over opaque atoms).  Pure inspection, nothing is executed."""
import json, sys, functools
from fractions import Fraction
sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    """the check could not be decided (vanished anchor, unexpected shape): exit code 2, never 0 or 1"""


# ---------------------------------------------------------------- polynomials
def _frac(x):
    x = _frac0(x)
    return x.numerator if x.denominator == 1 else x


def _frac0(x):
    if isinstance(x, Fraction): return x
    if isinstance(x, int): return Fraction(x)
    f = Fraction(x)
    try:
        g = Fraction(repr(x))
    except ValueError:
        g = f
    for d in (1000, 100000):
        h = f.limit_denominator(d)
        if float(h) == x: return h
    return g


class Atom(tuple):
    """interned atom: cached hash and sort key"""
    def __hash__(s): return s._h


_IN = {}


def intern_atom(a):
    b = _IN.get(a)
    if b is None:
        b = Atom(a); b._h = tuple.__hash__(b); b._k = None; _IN[b] = b
    return b


def atom_key(a):
    if type(a) is not Atom: a = intern_atom(a)
    k = a._k
    if k is None: k = a._k = '[' + a[1] if a[0] == 'I' else _cap('(' + ', '.join(_key(x) for x in a) + ')')
    return k


def _cap(t):
    """bounded text: long keys by digest (raw expressions are graphs, their text as a tree can be exponential)"""
    if len(t) <= 400: return t
    import hashlib
    return t[:60] + '#' + hashlib.sha1(t.encode()).hexdigest()


def _key(x):
    if isinstance(x, Poly):
        if x._k is None: x._k = _cap(' + '.join('%s*%s' % (c, '*'.join('%s^%d' % (atom_key(a), p) for a, p in m)) for m, c in sorted(x.t.items(), key=lambda kv: (len(kv[0]), mkey(kv[0])))))
        return x._k
    if isinstance(x, Place): return _cap(_key(x.base) + '.' + '.'.join(_key(t) for t in x.steps))
    if isinstance(x, tuple):
        if type(x) is Atom: return atom_key(x)
        return _cap('(' + ', '.join(_key(y) for y in x) + ')')
    return repr(x)


def _akey(ap):
    a = ap[0]
    return (a._k if type(a) is Atom and a._k is not None else atom_key(a))


def mkey(m): return [(atom_key(a), p) for a, p in m]


MULMAX = 1500
DLEN = 700


def digest(op, *xs):
    """very large operand(s) -> a name computed from the canonical text"""
    import hashlib
    t = op + '|'.join(repr(x) for x in xs)
    h = hashlib.sha1(t.encode()).hexdigest()[:12]
    if h not in DIG: DIG[h] = t; DIGP[h] = xs
    return Poly.atom(('D', h, bool(DOPQ.search(t))))


import re
DOPQ = re.compile(r"\('(?:phi|opq|v|cyc|sel|x|val|undef|uno|big)'|D[0-9a-f]{12}~")
DIG = {}
DIGP = {}


def shorta(a):
    """atom with long text -> digest"""
    return digest('=', Poly.atom(a)) if NORM[0] and len(atom_key(a)) > DLEN else Poly.atom(a)


NORM = [False]   # set while already-normalised values are combined: only then may text be digested


def short(p):
    if NORM[0] and isinstance(p, Poly) and len(p.t) > 6 and len(repr(p)) > DLEN: return digest('=', p)
    return p


class Poly:
    """sum of coef * prod(atom**int); exact, hashable, canonical"""
    __slots__ = ('t', '_h', '_r', '_k')

    def __init__(self, t):
        self.t = {k: v for k, v in t.items() if v != 0}; self._h = None; self._r = None; self._k = None

    @staticmethod
    def const(c): return Poly({(): _frac(c)})

    @staticmethod
    def atom(a): return Poly({((a if type(a) is Atom else intern_atom(a), 1),): 1})

    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o): return isinstance(o, Poly) and self.t == o.t
    def __ne__(self, o): return not self == o

    def __repr__(self):
        if self._r is None:
            if not self.t: self._r = '0'
            else:
                out = []
                for m, c in sorted(self.t.items(), key=lambda kv: (len(kv[0]), mkey(kv[0]))):
                    s = '*'.join((show_atom(a) + ('' if p == 1 else '^%d' % p)) for a, p in m)
                    cs = str(c.numerator) if c.denominator == 1 else str(c)
                    if not m: out.append(cs)
                    elif c == 1: out.append(s)
                    elif c == -1: out.append('-' + s)
                    else: out.append(cs + '*' + s)
                self._r = ' + '.join(out).replace('+ -', '- ')
        return self._r

    def is_const(self): return not self.t or list(self.t) == [()]
    def cval(self): return self.t.get((), Fraction(0)) if self.is_const() else None

    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items(): t[k] = t.get(k, 0) + v
        return Poly(t)

    def __neg__(self): return Poly({k: -v for k, v in self.t.items()})
    def __sub__(self, o): return self + (-o)

    def __mul__(self, o):
        if len(self.t) * len(o.t) > MULMAX:
            r = Poly.atom(('mul',) + tuple(sorted((self, o), key=_key)))
            return digest('=', r) if NORM[0] else r
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                d = dict(m1); zero = False
                for a, p in m2:
                    if a[0] == 'I':
                        if a in d: continue
                        dr = None
                        for b in d:
                            if b[0] != 'I': continue
                            x = rel(a, b)
                            if x == 0: continue
                            if x == 1: zero = True; break
                            if x == 3: dr = a; break
                            dr = (dr or []) + [b]
                        if zero: break
                        if dr is a: continue
                        if dr:
                            for b in dr: del d[b]
                        d[a] = 1
                        continue
                    q = d.get(a, 0) + p
                    if q: d[a] = q
                    else: d.pop(a, None)
                if zero: continue
                k = tuple(sorted(d.items(), key=_akey)) if m1 and m2 else tuple(d.items())
                t[k] = t.get(k, 0) + c1 * c2
        return Poly(t)

    def inv(self):
        if self.inds(): return lift([self], lambda q: q[0].inv() if not q[0].inds() else Poly.atom(('inv', short(q[0]))))
        if len(self.t) == 1:
            (m, c), = self.t.items()
            r = Poly({tuple((a, -p) for a, p in m if not (a[0] == 'inv' and p > 0 and p == int(p))): Fraction(1) / c})
            for a, p in m:
                if a[0] == 'inv' and p > 0 and p == int(p):
                    for _ in range(int(p)): r = r * a[1]
            return r
        if not self.t: return Poly.atom(('inv0',))
        # pull out factors shared by all terms, and a canonical leading coefficient
        ms = [dict(m) for m in self.t]
        com = {a: min(d[a] for d in ms) for a in ms[0] if all(a in d for d in ms)}
        if com:
            q = ZERO
            for m, c in self.t.items(): q = q + Poly({tuple((a, p - com[a]) if a in com else (a, p) for a, p in m if p != com.get(a)): c})
            f = ONE
            for a, p in com.items():
                if a[0] == 'inv' and p > 0 and p == int(p):
                    for _ in range(int(p)): f = f * a[1]
                else: f = f * Poly({((a, -p),): 1})
            return q.inv() * f
        m0 = min(self.t, key=mkey); c0 = self.t[m0]
        return Poly.atom(('inv', short(self * Poly.const(Fraction(1) / c0)))) * Poly.const(Fraction(1) / c0)

    def __truediv__(self, o): return self * o.inv()

    def powi(self, n):
        if n < 0: return self.inv().powi(-n)
        r = Poly.const(1)
        for _ in range(n): r = r * self
        return r

    def inds(self):
        """indicator atoms [condition literal] of the top-level monomials"""
        return {a for m in self.t for a, _ in m if a[0] == 'I'}

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m: s.add(a)
        return s

    def subst(self, f):
        """f(atom) -> Poly or None"""
        r = Poly({})
        for m, c in self.t.items():
            x = Poly.const(c)
            for a, p in m:
                y = f(a)
                if y is None: y = Poly.atom(a)
                x = x * y.powi(p)
            r = r + x
        return r

    def degree_in(self, a): return max([p for m in self.t for b, p in m if b == a] or [0])

    def coef(self, a):
        """coefficient polynomial of atom**1 ; (rest)"""
        c, r = {}, {}
        for m, v in self.t.items():
            d = dict(m)
            if d.get(a, 0) == 1:
                d.pop(a); c[tuple(sorted(d.items(), key=_akey))] = v
            else: r[m] = v
        return Poly(c), Poly(r)


ZERO, ONE = Poly({}), Poly.const(1)


SIZES = {'Nx', 'Nz'}      # numbers of grid vertices: at least two


def sign(d):
    """+1 / -1 when the integer polynomial is known positive / negative, 2 / -2 for >= 0 / <= 0, else 0"""
    if d.is_const():
        c = d.t.get((), 0)
        return 1 if c > 0 else -1 if c < 0 else 3
    r = Poly({})
    for m, c in d.t.items():
        x = Poly.const(c)
        for a, e in m:
            if e < 0: return 0
            if a[0] == 't': y = Poly.atom(a)
            elif a[0] == 'ld' and a[1].steps and a[1].steps[-1][0] == 'f' and a[1].steps[-1][1] in SIZES: y = Poly.atom(a) + Poly.const(2)
            elif a[0] == 'arg' and a[-1] in SIZES: y = Poly.atom(a) + Poly.const(2)
            else: return 0
            x = x * y.powi(e)
        r = r + x
    c0 = r.t.get((), 0)
    if all(c >= 0 for c in r.t.values()): return 1 if c0 > 0 else 2
    if all(c <= 0 for c in r.t.values()): return -1 if c0 < 0 else -2
    return 0


_REL = {}


def rel(a, b):
    """two condition literals: 0 unrelated, 1 exclude each other, 2 a implies b, 3 b implies a"""
    k = (a, b)
    r = _REL.get(k)
    if r is None:
        r = _REL[k] = _rel(a, b)
        _REL[(b, a)] = {2: 3, 3: 2}.get(r, r)
    return r


def _rel(a, b):
    if a[2] is not None and a[2] == b[2]: return 1
    va, vb = a[3], b[3]
    if not va or not vb: return 0
    ka, kb = va[0], vb[0]
    if ka not in RELK or kb not in RELK: return 0
    p, q = va[1], vb[1]
    if len(p.t) > 40 or len(q.t) > 40: return 0
    ea, eb = ka in ('eq0', 'feq0'), kb in ('eq0', 'feq0')
    if (ka in ('gt0f', 'lt0f', 'feq0')) != (kb in ('gt0f', 'lt0f', 'feq0')): return 0
    if ea and not eb: return {2: 3, 3: 2}.get(_rel(b, a), _rel(b, a)) if _rel(b, a) in (2, 3) else _rel(b, a)
    if ea and eb:
        return 1 if any(sign(x) in (1, -1) for x in (p - q, p + q)) else 0
    if eb:
        # q == 0, so p takes the value p -+ q
        for x in (p - q, p + q):
            g = sign(x)
            if not g: continue
            if ka == 'ge0':
                if g > 0: return 3
                if g == -1: return 1
            elif ka == 'gt0f':
                if g == 1: return 3
                if g in (-1, -2, 3): return 1
            else:
                if g == -1: return 3
                if g in (1, 2, 3): return 1
        return 0
    if ka == 'ge0' and kb == 'ge0':
        g = sign(p - q)
        if g > 0: return 3
        if g < 0: return 2
        return 1 if sign(p + q) == -1 else 0
    x = p - q
    if not x.is_const(): return 0
    c = x.t.get((), 0)          # p == q + c
    if ka == kb: return (3 if c >= 0 else 2) if ka == 'gt0f' else (2 if c >= 0 else 3)
    if ka == 'gt0f': return 1 if c <= 0 else 0
    return 1 if c >= 0 else 0


RELK = {'eq0', 'feq0', 'ge0', 'gt0f', 'lt0f'}


def restrict_ind(p, x, val):
    """set the indicator x to 0/1 (x = 1 switches off the literals that exclude it)"""
    out = {}
    for m, c in p.t.items():
        d = dict(m)
        if x in d:
            if not val: continue
            d.pop(x)
        z = False
        for a in list(d):
            if a[0] != 'I': continue
            y = rel(x, a)
            if val and y == 1 or not val and y == 3: z = True; break
            if val and y == 2: del d[a]
        if z: continue
        k = tuple(d.items()) if len(d) == len(m) else tuple(sorted(d.items(), key=_akey))
        out[k] = out.get(k, 0) + c
    return Poly(out)


LIFT = 6


def lift(ps, fn):
    """fn over values that depend on conditions: case split, recombined with indicators"""
    xs = set()
    for p in ps: xs |= p.inds()
    if not xs or len(xs) > LIFT: return fn(ps)
    x = min(xs, key=_key)
    a = lift([restrict_ind(p, x, 1) for p in ps], fn); b = lift([restrict_ind(p, x, 0) for p in ps], fn)
    if a == b: return a
    return b + Poly.atom(x) * (a - b)


def show_atom(a):
    if isinstance(a, tuple):
        k = a[0]
        if k == 'ld': return show_place(a[1])
        if k == 'arg': return a[2] or 'arg%d' % a[1]
        if k == 'iv': return '%s@%s' % (a[2] if len(a) > 2 and a[2] else 'iv', a[1])
        if k == 'phi': return "('phi', %s)" % (a[1:],)
        if k == 'D': return 'D' + a[1] + ('~' if a[2] else '')
        if k == 'call': return '%s(%s)' % (a[1], ', '.join(repr(x) if isinstance(x, Poly) else show_any(x) for x in a[2]))
        if k == 'addr': return '&' + show_place(a[1])
        if k == 'inv': return '1/(%r)' % a[1]
        if k == 'str': return json.dumps(a[1])
        if k == 'I': return '[%s]' % a[1]
        if k == 'st': return str(a[1])
        if k == 't': return 't<%s>' % a[1]
        if k == 'gate': return 'gate(%s)' % '; '.join('%r' % (v,) for c, v in a[1])
        if k in ('fptosi', 'sdiv', 'srem', 'and', 'or', 'ashr', 'rec', 'sum', 'ceildiv', 'max', 'min'): return '%s(%s)' % (k, ', '.join(repr(x) for x in a[1:]))
    return str(a)


def show_any(x):
    if isinstance(x, Poly): return repr(x)
    if isinstance(x, Place): return '&' + show_place(x)
    return str(x)


class Place:
    """memory location: base + steps; steps: ('f',field,struct) | ('i',Poly) | ('*',)"""
    __slots__ = ('base', 'steps', '_h')

    def __init__(self, base, steps=()):
        self.base = base; self.steps = tuple(steps); self._h = None

    def __hash__(self):
        if self._h is None: self._h = hash((self.base, self.steps))
        return self._h

    def __eq__(self, o): return isinstance(o, Place) and self.base == o.base and self.steps == o.steps
    def __repr__(self): return show_place(self)
    def add(self, *st): return Place(self.base, self.steps + tuple(st))
    def fields(self): return tuple(s[1] for s in self.steps if s[0] == 'f')

    def key(self):
        """path without indices: e.g. ('mesh','BCu','type')"""
        return (self.base,) + self.fields()

    def index(self):
        """last index polynomial (or None)"""
        for s in reversed(self.steps):
            if s[0] == 'i': return s[1]
        return None


def show_base(b):
    if b[0] == 'arg': return b[2] or 'arg%d' % b[1]
    if b[0] == 'alloca': return b[2] or 'local%d' % b[1]
    if b[0] == 'glob': return b[1]
    if b[0] in ('st', 'heap', 'loc', 'lst'): return str(b[1])
    return repr(b)


def show_place(p):
    if not isinstance(p, Place): return str(p)
    s = show_base(p.base)
    for st in p.steps:
        if st[0] == 'f': s += '.' + st[1]
        elif st[0] == 'i': s += '[%r]' % st[1]
    return s


# ---------------------------------------------------------------- program
PURE = {'pow', 'exp', 'log', 'log10', 'sqrt', 'fabs', 'llvm.abs.i32', 'sin', 'cos', 'tan', 'atan', 'acos', 'asin', 'atan2', 'sinh', 'cosh', 'tanh', 'ceil', 'floor', 'fmin', 'fmax', 'abs', 'fabsf', 'sqrtf',
        'llvm.fabs.f64', 'llvm.fmuladd.f64', 'erf', 'erfc', 'log1p', 'expm1', 'cbrt', 'isnan', 'isinf', '__isnan', '__isinf', 'llvm.is.fpclass.f64', 'round', 'fmod', 'rint', 'trunc', 'nearbyint'}
NORETURN = {'exit', 'abort', '_exit', '__assert_fail'}
CASTS = {'sext', 'zext', 'trunc', 'fpext', 'sitofp', 'uitofp', 'bitcast', 'fptrunc', 'ptrtoint', 'inttoptr', 'freeze'}


class Inst:
    __slots__ = ('fn', 'id', 'op', 'ty', 'ops', 'ln', 'fl', 'd', 'bb', 'pos')

    def __init__(s, fn, d, bb, pos):
        s.fn = fn; s.id = d['id']; s.op = d['op']; s.ty = d.get('ty'); s.ops = d['ops']; s.ln = d.get('ln', 0); s.fl = d.get('fl'); s.d = d; s.bb = bb; s.pos = pos

    @property
    def callee(s):
        c = s.d.get('callee')
        return c[1] if c and c[0] == 'fn' else None

    def loc(s): return '%s:%d' % (shortfile(s.fl or s.fn.file), s.ln)
    def __repr__(s): return '<%s %s#%d %s>' % (s.op, s.fn.name, s.id, s.loc())


def shortfile(f):
    f = f or '?'
    i = f.find('/repo/')
    if i >= 0: f = f[i + 6:]
    return f


class Loop:
    def __init__(s, fn, header):
        s.fn = fn; s.header = header; s.body = set(); s.latches = []; s.parent = None; s.ivs = None

    def __repr__(s): return '<loop %s bb%d ln %s>' % (s.fn.name, s.header, s.line())

    def line(s):
        for i in s.fn.blocks[s.header]:
            if i.ln: return i.ln
        return 0


class Fn:
    def __init__(s, prog, d):
        s.prog = prog; s.name = d['name']; s.file = d.get('file', ''); s.line = d.get('line', 0); s.src = d.get('src', d['name'])
        s.args = d['args']; s.ditypes = d.get('ditypes', []); s.ret = d['ret']; s._raw = d['blocks']; s._built = False; s.ldids = None

    def _build(s):
        if s._built: return
        s._built = True
        s.blocks = []; s.succ = []; s.inst = {}; s.bname = []
        for bi, b in enumerate(s._raw):
            L = []
            for pos, i in enumerate(b['i']):
                I = Inst(s, i, bi, pos); L.append(I); s.inst[I.id] = I
            s.blocks.append(L); s.succ.append(list(b['s'])); s.bname.append(b['n'])
        s._raw = None
        n = len(s.blocks)
        s.pred = [[] for _ in range(n)]
        for b in range(n):
            for t in s.succ[b]:
                if b not in s.pred[t]: s.pred[t].append(b)
        # reverse postorder (second call: loop exits after loop bodies)
        s._rpo(lambda b: s.succ[b])
        s._doms()
        s._loops()
        s._rpo(lambda b: sorted(s.succ[b], key=lambda t: len([L for L in s.loops_of(b) if t in L.body])))
        s._uses()
        s._e = {}; s._a = {}

    def set_ldids(s, ids):
        s._pa = {}
        """loads of these places are told apart by instruction (the place is written in this function, so its value depends on when it is read)"""
        if (s.ldids or set()) == ids: return
        s.ldids = ids; s._e = {}; s._a = {}
        for k in ('_lrc', '_al'):
            if hasattr(s, k): delattr(s, k)
        for L in s.loops:
            if hasattr(L, '_rng'): del L._rng

    def _rpo(s, succ):
        seen = set(); po = []
        st = [(0, iter(succ(0)))]; seen.add(0)
        while st:
            b, it = st[-1]
            for t in it:
                if t not in seen:
                    seen.add(t); st.append((t, iter(succ(t)))); break
            else:
                po.append(b); st.pop()
        s.rpo = po[::-1]; s.rpoi = {b: i for i, b in enumerate(s.rpo)}
        s.reach = seen

    def _doms(s):
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in s.rpo[1:]:
                ps = [p for p in s.pred[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    a, c = p, new
                    while a != c:
                        while s.rpoi[a] > s.rpoi[c]: a = idom[a]
                        while s.rpoi[c] > s.rpoi[a]: c = idom[c]
                    new = a
                if idom.get(b) != new: idom[b] = new; ch = True
        s.idom = idom

    def _uses(s):
        s.uses = {}
        for L in s.blocks:
            for I in L:
                for o in I.ops:
                    oo = o[0] if I.op == 'phi' else o
                    s._adduse(oo, I)
                if I.op == 'getelementptr':
                    for p in I.d['path']:
                        if p[0] in ('p', 'x'): s._adduse(p[1], I)
                if 'callee' in I.d: s._adduse(I.d['callee'], I)

    def _adduse(s, o, I):
        if o and o[0] == 'v': s.uses.setdefault(o[1], []).append(I)
        elif o and o[0] == 'gep': s._adduse(o[1], I)

    def dominates(s, a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = s.idom[b]

    def inst_dominates(s, I, J):
        if I.bb == J.bb: return I.pos < J.pos
        return s.dominates(I.bb, J.bb)

    def _loops(s):
        loops = {}
        for b in s.rpo:
            for t in s.succ[b]:
                if s.dominates(t, b):
                    L = loops.get(t)
                    if L is None: L = loops[t] = Loop(s, t); L.body.add(t)
                    L.latches.append(b)
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in L.body: continue
                        L.body.add(x); w.extend(p for p in s.pred[x] if p in s.reach)
        s.loops = list(loops.values())
        s.loopof = {}
        for L in sorted(s.loops, key=lambda L: -len(L.body)):
            for b in L.body: s.loopof[b] = L
        for L in s.loops:
            c = [M for M in s.loops if M is not L and L.header in M.body]
            L.parent = min(c, key=lambda M: len(M.body)) if c else None

    def loops_of(s, bb):
        r = []; L = s.loopof.get(bb)
        while L: r.append(L); L = L.parent
        return r

    def insts(s):
        s._build()
        for b in s.rpo:
            for I in s.blocks[b]: yield I

    def calls(s, *names):
        for I in s.insts():
            if I.op in ('call', 'invoke') and (not names or I.callee in names): yield I

    def loc(s): return '%s:%d' % (shortfile(s.file), s.line)

    # ---------------------------------------------------- values
    def argname(s, k):
        a = s.args[k]
        return a.get('dn') or a['name'] or 'arg%d' % k

    def base(s, o):
        """operand that is a pointer root -> base tuple"""
        if o[0] == 'a': return ('arg', o[1], s.argname(o[1]))
        return None

    def addr(s, o):
        """pointer operand -> Place"""
        k = o[0]
        if k == 'a': return Place(('arg', o[1], s.argname(o[1])))
        if k == 'g': return Place(('glob', s.prog.gname.get(o[1], o[1])))
        if k == 's': return Place(('str', o[1]))
        if k == 'n': return Place(('null',))
        if k == 'fn': return Place(('fn', o[1]))
        if k == 'u': return Place(('undef',))
        if k == 'gep': return s._gepath(s.addr(o[1]), o[2])
        if k == 'i': return Place(('intptr', o[1]))
        if k != 'v': return Place(('x', str(o)))
        r = s._a.get(o[1])
        if r is not None: return r
        I = s.inst[o[1]]
        s._a[o[1]] = Place(('cyc', I.id))
        if I.op == 'alloca': r = s.alias_alloca(I) or Place(('alloca', I.id, I.d.get('dn') or I.d.get('nm')))
        elif I.op == 'getelementptr': r = s._gepath(s.addr(I.ops[0]), I.d['path'], s._elty(I.ops[0]))
        elif I.op == 'load':
            q = s.addr(I.ops[0])
            f = s.fwd_load(I)
            if f is not None: r = s.addr(f)
            else: r = q.add(('*',))
        elif I.op in CASTS: r = s.addr(I.ops[0])
        elif I.op == 'call':
            r = Place(('call', I.callee or '?', I.id))
        elif I.op == 'phi':
            ps = {s.addr(x[0]) for x in I.ops if x[0][0] != 'u'}
            ps.discard(Place(('cyc', I.id)))
            r = ps.pop() if len(ps) == 1 else Place(('phi', I.id))
        elif I.op == 'select':
            ps = {s.addr(x) for x in I.ops[1:]}
            r = ps.pop() if len(ps) == 1 else Place(('sel', I.id))
        else: r = Place(('val', I.id))
        s._a[o[1]] = r
        return r

    def _elty(s, o):
        """type of the array element a pointer operand was computed to point at"""
        if o[0] == 'gep': return o[2][-1][2] if o[2] and o[2][-1][0] in ('p', 'x') else None
        if o[0] != 'v': return None
        I = s.inst[o[1]]
        if I.op == 'getelementptr':
            p = I.d['path']
            return (p[-1][2] if p[-1][0] in ('p', 'x') and len(p[-1]) > 2 else None) if p else s._elty(I.ops[0])
        if I.op in CASTS: return s._elty(I.ops[0])
        if I.op == 'load':
            f = s.fwd_load(I)
            return s._elty(f) if f is not None else None
        return None

    def _gepath(s, b, path, elty=None):
        st = []
        if elty and path and path[0][0] == 'p' and path[0][2] == elty and b.steps and b.steps[-1][0] == 'i':
            # p + i + j of the same element type
            b = Place(b.base, b.steps[:-1] + (('i', b.steps[-1][1] + s.ex(path[0][1])),)); path = path[1:]
        for p in path:
            if p[0] == 'f': st.append(('f', p[1], p[2]))
            elif p[0] in ('p', 'x'):
                ix = s.ex(p[1])
                # constant-zero pointer step on a pointer is the pointer itself, but keep it: arr[0]
                st.append(('i', ix))
            else: st.append(('?',))
        steps = list(b.steps)
        for q in st:
            steps.append(q)
        return Place(b.base, steps)

    def _readonly_use(s, U, o):
        """use of a pointer that cannot write through it"""
        if U.op == 'load' or U.op == 'icmp': return True
        if U.op == 'call':
            c = U.callee or ''
            if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove'): return U.ops[0] != o
            if c == 'fwrite': return True
            if c in ('printf', 'fprintf', 'puts', 'strlen', 'strcmp', 'fopen', 'remove', 'free', 'DoodzFree') or c.startswith('llvm.dbg') or c.startswith('llvm.lifetime'): return True
            ba = U.d.get('byval') or []
            if any(U.ops[k] == o for k in ba): return all(U.ops[k] != o or k in ba for k in range(len(U.ops)))
        return False

    def fwd_load(s, I):
        """forward a load from an unpromoted local whose only store dominates the load (never written elsewhere)"""
        o = I.ops[0]
        if o[0] != 'v': return None
        A = s.inst[o[1]]
        if A.op != 'alloca': return None
        st = None
        for U in s.uses.get(A.id, ()):
            if U.op == 'store' and U.ops[1] == o:
                if st is not None: return None
                st = U; continue
            if s._readonly_use(U, o): continue
            return None
        if st is not None and s.inst_dominates(st, I): return st.ops[0]
        return None

    def alias_alloca(s, A):
        """local struct that is only ever a copy (one memcpy) of another place -> that place"""
        if not hasattr(s, '_al'): s._al = {}
        if A.id in s._al: return s._al[A.id]
        s._al[A.id] = None
        o = ['v', A.id]; src = None
        w = [A.id]; seen = {A.id}
        while w:
            x = w.pop(); xo = ['v', x]
            for U in s.uses.get(x, ()):
                if U.op == 'getelementptr' and U.ops[0] == xo:
                    if U.id not in seen: seen.add(U.id); w.append(U.id)
                    continue
                c = (U.callee or '') if U.op == 'call' else ''
                if x == A.id and c.startswith('llvm.memcpy') and U.ops[0] == xo:
                    if src is not None: return None
                    src = U; continue
                if s._readonly_use(U, xo): continue
                return None
        if src is None: return None
        p = s.addr(src.ops[1])
        # the source must not be written in this function (snapshot == source)
        for J in s.insts():
            if J.op == 'store':
                o, fl = J.ops[1], []
                while o[0] == 'v' and s.inst[o[1]].op == 'getelementptr': fl = [x[1] for x in s.inst[o[1]].d['path'] if x[0] == 'f'] + fl; o = s.inst[o[1]].ops[0]
                if p.base[0] == 'arg' and o[0] == 'a' and o[1] == p.base[1] or p.base[0] == 'glob' and o[0] == 'g' and o[1] == p.base[1] or p.base[0] == 'alloca' and o[0] == 'v' and o[1] == p.base[1]:
                    pf = list(p.fields())
                    if fl[:len(pf)] == pf: return None
        s._al[A.id] = p
        return p

    def ex(s, o):
        """operand -> Poly (numeric) ; pointers become ('addr',Place) atoms"""
        k = o[0]
        if k == 'i': return Poly.const(o[1])
        if k == 'f': return Poly.const(o[1])
        if k == 'fx': return Poly.atom(('fx', o[1]))
        if k == 'u': return Poly.atom(('undef',))
        if k == 'n': return ZERO
        if k == 's': return Poly.atom(('str', o[1]))
        if k == 'a':
            if s.args[o[1]]['ty'] == 'ptr': return Poly.atom(('addr', s.addr(o)))
            return Poly.atom(('arg', o[1], s.argname(o[1])))
        if k in ('g', 'fn', 'gep'): return Poly.atom(('addr', s.addr(o)))
        if k != 'v': return Poly.atom(('x', str(o)))
        r = s._e.get(o[1])
        if r is None:
            s._e[o[1]] = Poly.atom(('phi', s.name, o[1]))
            nf = NORM[0]; NORM[0] = False
            r = s._ex(s.inst[o[1]])
            NORM[0] = nf
            s._e[o[1]] = r
        return r

    def _ex(s, I):
        op = I.op; E = s.ex
        if op in ('add', 'fadd'): return E(I.ops[0]) + E(I.ops[1])
        if op in ('sub', 'fsub'): return E(I.ops[0]) - E(I.ops[1])
        if op in ('mul', 'fmul'): return E(I.ops[0]) * E(I.ops[1])
        if op == 'fdiv': return E(I.ops[0]) / E(I.ops[1])
        if op == 'fneg': return -E(I.ops[0])
        if op in CASTS: return E(I.ops[0])
        if op in ('fptosi', 'fptoui'):
            e = E(I.ops[0])
            return e if e.is_const() and e.cval().denominator == 1 else Poly.atom(('fptosi', e))
        if op in ('sdiv', 'udiv', 'srem', 'urem', 'shl', 'and', 'or', 'xor', 'ashr', 'lshr'):
            a, b = E(I.ops[0]), E(I.ops[1])
            if op == 'shl' and b.is_const(): return a * Poly.const(2 ** int(b.cval()))
            if op in ('sdiv', 'udiv') and a.is_const() and b.is_const() and b.cval() != 0: return Poly.const(int(Fraction(a.cval()) / b.cval()))
            if op == 'xor' and I.ty == 'i1': return Poly.atom(('bool', s.cond(['v', I.id])))
            return Poly.atom((op, a, b))
        if op == 'load':
            f = s.fwd_load(I)
            if f is not None: return s.ex(f)
            if I.ty == 'ptr': return Poly.atom(('addr', s.addr(['v', I.id])))
            q = s.addr(I.ops[0])
            if q.base[0] in ('phi', 'sel'):
                al = s.ptr_alts(q)
                if al:
                    alts = {}; B = s.prog.bdd
                    for n, (c, r) in enumerate(al):
                        v = Poly.atom(('ld', r, (I.id, n)) if s.ldids and ldkey(r) in s.ldids else ('ld', r))
                        alts[v] = B.OR(alts.get(v, B.FALSE), c)
                    return gate(alts)
            if s.ldids and ldkey(q) in s.ldids: return Poly.atom(('ld', q, I.id))
            return Poly.atom(('ld', q))
        if op == 'call':
            c = I.callee or ''
            if c == 'llvm.fmuladd.f64': return E(I.ops[0]) * E(I.ops[1]) + E(I.ops[2])
            if c == 'pow':
                b, e = E(I.ops[0]), E(I.ops[1])
                if e.is_const() and e.cval().denominator == 1 and abs(e.cval()) <= 6: return b.powi(int(e.cval()))
            if c.startswith('llvm.') and c.endswith('.f64') and c[5:-4] in PURE: c = c[5:-4]
            if c in ('ceil', 'floor', 'round', 'rint', 'trunc', 'nearbyint') and I.ops[0][0] == 'v' and s.inst[I.ops[0][1]].op in ('sitofp', 'uitofp'): return E(I.ops[0])
            if c in PURE:
                n = {'llvm.fabs.f64': 'fabs', '__isnan': 'isnan', '__isinf': 'isinf', 'llvm.abs.i32': 'abs', 'fabsf': 'fabs'}.get(c, c)
                return mkcall(n, tuple(E(x) for x in (I.ops[:1] if n == 'abs' else I.ops)))
            return Poly.atom(('res', c or '?', s.name, I.id))
        if op == 'phi': return s._phi(I)
        if op == 'select':
            a, b = E(I.ops[1]), E(I.ops[2])
            if a == b: return a
            B = s.prog.bdd; c = s.cond(I.ops[0]); alts = {}
            for c1, v in ((c, a), (B.NOT(c), b)):
                for c2, v2 in flat(v, B, I):
                    cc = B.AND(c1, c2)
                    if cc is not B.FALSE: alts[v2] = B.OR(alts.get(v2, B.FALSE), cc)
            return gate(alts)
        if op in ('icmp', 'fcmp'): return Poly.atom(('bool', s.cond(['v', I.id])))
        if op in ('getelementptr', 'alloca'): return Poly.atom(('addr', s.addr(['v', I.id])))
        if op == 'extractvalue':
            o, k = I.ops[0], I.d['ix']
            while o[0] == 'v' and s.inst[o[1]].op == 'insertvalue':
                J = s.inst[o[1]]
                if J.d['ix'] == k: return E(J.ops[1])
                o = J.ops[0]
            if o[0] == 'v' and s.inst[o[1]].op == 'load':
                q = s.aggplace(s.inst[o[1]])
                if q: return Poly.atom(('ld', q[k]))
            return Poly.atom(('xv', E(o), k))
        return Poly.atom(('v', s.name, I.id, op))

    def ptr_alts(s, p, depth=0):
        """place reached through a pointer chosen by conditions -> [(condition, place)], or None"""
        if not hasattr(s, '_pa'): s._pa = {}
        b = p.base
        if b not in s._pa:
            s._pa[b] = None; I = s.inst[b[1]]; B = s.prog.bdd; r = []
            if I.op == 'phi':
                L = s.loopof.get(I.bb)
                if not (L and L.header == I.bb):
                    rc = s.local_rc(s.idom[I.bb])
                    for x, pb in I.ops:
                        if pb in s.dead() or x[0] in ('u', 'n'): continue
                        r.append((s.edge_rc(rc, pb, I.bb), s.addr(x)))
            elif I.op == 'select': c = s.cond(I.ops[0]); r = [(c, s.addr(I.ops[1])), (B.NOT(c), s.addr(I.ops[2]))]
            out = {}
            for c, q in r:
                if c is B.FALSE: continue
                sub = s.ptr_alts(q, depth + 1) if q.base[0] in ('phi', 'sel') and depth < 4 else [(B.TRUE, q)]
                if sub is None: out = None; break
                for c2, q2 in sub: out[q2] = B.OR(out.get(q2, B.FALSE), B.AND(c, c2))
            if out and not any(q.base[0] in ('phi', 'sel', 'cyc', 'val') for q in out): s._pa[b] = [(c, q) for q, c in out.items() if c is not B.FALSE]
        al = s._pa[b]
        return [(c, Place(q.base, q.steps + p.steps)) for c, q in al] if al else None

    def aggplace(s, I):
        """load of a whole struct from a local -> places of its members"""
        q = s.addr(I.ops[0])
        if q.base[0] != 'alloca' or q.steps: return None
        st = s.inst[q.base[1]].d.get('st'); fl = s.prog.structs.get(st)
        return [q.add(('f', f[0], st)) for f in fl] if fl else None

    def _phi(s, I):
        L = s.loopof.get(I.bb)
        if L and L.header == I.bb:
            iv = s.induction(I)
            if iv: return Poly.atom(('iv', L_id(L), I.d.get('dn'), I.id))
            return Poly.atom(('phi', s.name, I.id))
        vs = [s.ex(x[0]) for x in I.ops]
        live = [(v, x) for v, x in zip(vs, I.ops) if v != Poly.atom(('undef',)) and x[1] not in s.dead()] or list(zip(vs, I.ops))
        # a path that leaves the value unset counts as zero
        unset = any(v == Poly.atom(('undef',)) and x[1] not in s.dead() for v, x in zip(vs, I.ops))
        if all(v == live[0][0] for v, _ in live) and (live[0][0].is_const() or not unset): return live[0][0]
        # gated phi: alternatives with their conditions relative to the immediate dominator
        B = s.prog.bdd
        rc = s.local_rc(s.idom[I.bb])
        alts = {}
        for v, (x, pb) in live:
            c = s.edge_rc(rc, pb, I.bb)
            if c is B.FALSE: continue
            for c2, v2 in flat(v, B, I):
                cc = B.AND(c, c2)
                if cc is not B.FALSE: alts[v2] = B.OR(alts.get(v2, B.FALSE), cc)
        if unset:
            rest = B.TRUE
            for c in alts.values(): rest = B.AND(rest, B.NOT(c))
            if rest is not B.FALSE: alts[ZERO] = B.OR(alts.get(ZERO, B.FALSE), rest)
        return gate(alts)

    def induction(s, I):
        """loop-header phi -> (init operand, step Poly const) if affine"""
        L = s.loopof.get(I.bb)
        if not L or L.header != I.bb or I.ty is None or not I.ty.startswith('i') or I.ty == 'i1': return None
        init = [x for x in I.ops if x[1] not in L.body]; nxt = [x for x in I.ops if x[1] in L.body]
        if len(init) != 1 or not nxt: return None
        steps = set()
        for x in nxt:
            o = x[0]; st = 0
            for n in range(24):
                if o[0] != 'v': return None
                J = s.inst[o[1]]
                if J is I: break
                if J.op in CASTS: o = J.ops[0]
                elif J.op == 'phi':
                    # look through trivial phis
                    if J.bb not in L.body or len({tuple(map(str, y[0])) for y in J.ops}) != 1: return None
                    o = J.ops[0][0]
                elif J.op == 'add' and J.ops[1][0] == 'i': st += J.ops[1][1]; o = J.ops[0]
                elif J.op == 'add' and J.ops[0][0] == 'i': st += J.ops[0][1]; o = J.ops[1]
                elif J.op == 'sub' and J.ops[1][0] == 'i': st -= J.ops[1][1]; o = J.ops[0]
                else: return None
            if o != ['v', I.id] or not st: return None
            steps.add(st)
        if len(steps) != 1: return None
        return init[0][0], steps.pop()

    def loop_range(s, L):
        """(iv atom, lo Poly, hi Poly (inclusive), step) for a counted loop, or None"""
        if getattr(L, '_rng', 0) != 0: return L._rng
        L._rng = None
        for I in s.blocks[L.header]:
            if I.op != 'phi': continue
            ind = s.induction(I)
            if not ind: continue
            init, step = ind
            # exit tests
            for b in sorted(L.body):
                T = s.blocks[b][-1]
                if T.op != 'br' or len(T.ops) != 3: continue
                outs = [t for t in s.succ[b] if t not in L.body]
                if len(outs) != 1: continue
                if b != L.header and b not in L.latches: continue
                c = T.ops[0]
                if c[0] != 'v' or s.inst[c[1]].op != 'icmp': continue
                C = s.inst[c[1]]
                stay_true = s.succ[b][0] in L.body if T.ops[2] == ['b', s.succ[b][0]] else s.succ[b][0] in L.body
                # llvm br operands: cond, false, true ; successors order: true, false
                stay_true = s.succ[b][0] in L.body
                pred = C.d['pred']
                a, d = s.ex(C.ops[0]), s.ex(C.ops[1])
                iv = Poly.atom(('iv', L_id(L), I.d.get('dn'), I.id))
                if not stay_true: pred = {'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ne': 'eq', 'eq': 'ne', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}.get(pred, pred)
                ivx = [x for x in a.atoms() | d.atoms() if x == ('iv', L_id(L), I.d.get('dn'), I.id)]
                if not ivx: continue
                # a pred d  ->  diff form
                diff = a - d
                co, rest = diff.coef(ivx[0])
                if not co.is_const() or abs(co.cval()) != 1: continue
                sg = co.cval()
                bound = -rest * Poly.const(sg)   # iv pred' bound
                if sg < 0: pred = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(pred, pred)
                ini = s.ex(init)
                one = ONE
                adj = ZERO
                if b != L.header:
                    # bottom test on value before/after increment
                    adj = ZERO
                lo = hi = None
                if step > 0:
                    if pred in ('slt', 'ult', 'ne'): lo, hi = ini, bound - one
                    elif pred in ('sle', 'ule'): lo, hi = ini, bound
                else:
                    if pred in ('sgt', 'ugt', 'ne'): lo, hi = bound + one, ini
                    elif pred in ('sge', 'uge'): lo, hi = bound, ini
                if lo is None: continue
                if b != L.header:
                    # do-while: body runs with iv up to bound-1+... ; continue test holds for the *next* iteration's value shift
                    if step > 0: hi = hi + one
                    else: lo = lo - one
                L._rng = (ivx[0], lo, hi, step)
                return L._rng
        return None

    # ---------------------------------------------------- conditions
    def cond(s, o):
        """i1 operand -> BDD node"""
        B = s.prog.bdd
        if o[0] == 'i': return B.TRUE if o[1] else B.FALSE
        if o[0] != 'v': return B.var(('opq', str(o)))
        I = s.inst[o[1]]
        if I.op in ('icmp', 'fcmp'):
            p = I.d['pred']
            if I.op == 'icmp' and p in ('eq', 'ne'):
                # (zext i1 x) != 0
                for a, b in ((I.ops[0], I.ops[1]), (I.ops[1], I.ops[0])):
                    if b in (['i', 0], ['i', 1]) and a[0] == 'v' and s.inst[a[1]].op in ('zext', 'sext'):
                        J = s.inst[a[1]]
                        src = J.ops[0]
                        if src[0] == 'v' and s.inst[src[1]].ty == 'i1':
                            c = s.cond(src)
                            return c if ((p == 'ne') == (b[1] == 0)) else B.NOT(c)
                a, b = s.ex(I.ops[0]), s.ex(I.ops[1])
                for x, y in ((a, b), (b, a)):
                    bb = boolval(x)
                    if bb is not None and y.is_const():
                        v = y.cval()
                        if v == 0: return bb if p == 'ne' else B.NOT(bb)
                        if v == 1: return bb if p == 'eq' else B.NOT(bb)
                d = a - b
                if d.is_const(): r = B.TRUE if d.cval() == 0 else B.FALSE
                else: r = B.var(('eq0', normsign(d)))
                return r if p == 'eq' else B.NOT(r)
            a, b = s.ex(I.ops[0]), s.ex(I.ops[1])
            if I.op == 'icmp':
                q = p[1:]
                # integer: ge0(x)
                if q == 'ge': d = a - b
                elif q == 'gt': d = a - b - ONE
                elif q == 'le': d = b - a
                elif q == 'lt': d = b - a - ONE
                else: return B.var(('opq', s.name, I.id))
                return ge0(B, d)
            q = p[1:]
            if q == 'eq': return B.var(('feq0', normsign(a - b))) if not (a - b).is_const() else (B.TRUE if (a - b).cval() == 0 else B.FALSE)
            if q == 'ne': return B.NOT(B.var(('feq0', normsign(a - b)))) if not (a - b).is_const() else (B.FALSE if (a - b).cval() == 0 else B.TRUE)
            if q == 'gt': return gt0(B, a - b)
            if q == 'lt': return gt0(B, b - a)
            if q == 'ge': return B.NOT(gt0(B, b - a))
            if q == 'le': return B.NOT(gt0(B, a - b))
            if p == 'uno': return B.var(('isnan', a)) if a == b else B.var(('uno', a, b))
            if p == 'ord': return B.NOT(B.var(('isnan', a)) if a == b else B.var(('uno', a, b)))
            return B.var(('opq', s.name, I.id))
        if I.op == 'xor':
            for a, b in ((I.ops[0], I.ops[1]), (I.ops[1], I.ops[0])):
                if b[0] == 'i': return B.NOT(s.cond(a)) if b[1] else s.cond(a)
        if I.op == 'and': return B.AND(s.cond(I.ops[0]), s.cond(I.ops[1]))
        if I.op == 'or': return B.OR(s.cond(I.ops[0]), s.cond(I.ops[1]))
        if I.op == 'select': return B.ITE(s.cond(I.ops[0]), s.cond(I.ops[1]), s.cond(I.ops[2]))
        if I.op == 'trunc': return s.tobool(I.ops[0])
        if I.op == 'phi' and I.ty == 'i1':
            # && / || lowering: condition of each incoming edge relative to the phi's immediate dominator
            r = B.FALSE
            d = s.idom[I.bb]
            rc = s.local_rc(d)
            for v, pb in I.ops:
                r = B.OR(r, B.AND(s.edge_rc(rc, pb, I.bb), s.cond(v)))
            return r
        if I.op == 'call' and I.callee in PURE: return B.var(('true', s.ex(o)))
        return B.var(('opq', s.name, I.id, I.op))

    def tobool(s, o):
        B = s.prog.bdd
        e = s.ex(o)
        b = boolval(e)
        if b is not None: return b
        if e.is_const(): return B.TRUE if e.cval() != 0 else B.FALSE
        return B.NOT(B.var(('eq0', normsign(e))))

    def dead(s):
        """blocks that cannot reach a return (error exits)"""
        if hasattr(s, '_dead'): return s._dead
        ok = set(); w = []
        for b in s.rpo:
            T = s.blocks[b][-1]
            nr = any(I.op == 'call' and (I.callee in NORETURN) for I in s.blocks[b])
            if T.op == 'ret' and not nr: ok.add(b); w.append(b)
        noret = {b for b in s.rpo if any(I.op == 'call' and (I.callee in NORETURN) for I in s.blocks[b])}
        while w:
            b = w.pop()
            for p in s.pred[b]:
                if p not in ok and p not in noret and p in s.reach: ok.add(p); w.append(p)
        s._dead = {b for b in s.rpo if b not in ok}
        return s._dead

    def edge_cond(s, b, t):
        B = s.prog.bdd
        T = s.blocks[b][-1]
        if T.op == 'br' and len(T.ops) == 3:
            if s.succ[b][0] == s.succ[b][1]: return B.TRUE
            c = s.cond(T.ops[0])
            return c if s.succ[b][0] == t else B.NOT(c)
        if T.op == 'switch':
            r = B.FALSE; e = s.ex(T.ops[0]); nd = B.TRUE
            for v, d in T.d['cases'][1:]:
                a = B.var(('eq0', normsign(e - Poly.const(v)))) if not (e - Poly.const(v)).is_const() else (B.TRUE if (e - Poly.const(v)).cval() == 0 else B.FALSE)
                nd = B.AND(nd, B.NOT(a))
                if d == t: r = B.OR(r, a)
            if T.d['cases'][0][1] == t: r = B.OR(r, nd)
            return r
        return B.TRUE

    def local_rc(s, root):
        """reaching conditions relative to block root (acyclic, back edges ignored, error exits and loop tests dropped)"""
        if not hasattr(s, '_lrc'): s._lrc = {}
        if root in s._lrc: return s._lrc[root]
        B = s.prog.bdd; rc = {root: B.TRUE}
        s._lrc[root] = rc
        return rc

    def _rcget(s, rc, b):
        if b in rc: return rc[b]
        B = s.prog.bdd
        rc[b] = B.FALSE
        r = B.FALSE
        for p in s.pred[b]:
            if p not in s.reach or s.rpoi[p] >= s.rpoi[b]: continue
            pc = s._rcget(rc, p)
            if pc is B.FALSE: continue
            r = B.OR(r, B.AND(pc, s.edge_free(p, b)))
        rc[b] = r
        return r

    def edge_free(s, p, b):
        B = s.prog.bdd
        dead = s.dead()
        if p not in dead:
            alive = [t for t in s.succ[p] if t not in dead]
            if len(set(alive)) == 1 and b in alive: return B.TRUE
        for L in s.loops_of(p):
            outs = [t for t in s.succ[p] if t not in L.body]
            ins = [t for t in s.succ[p] if t in L.body]
            if outs and ins and (p == L.header or p in L.latches):
                return B.TRUE
            if outs and ins and b in ins and all(t in L.body or t in dead for t in s.succ[p]) is False and p != L.header:
                # break out of the loop: later iterations/blocks are reached only if not broken; keep the condition
                return s.edge_cond(p, b)
        return s.edge_cond(p, b)

    def edge_rc(s, rc, p, b):
        B = s.prog.bdd
        return B.AND(s._rcget(rc, p), s.edge_free(p, b))

    def rc(s, b):
        """reaching condition of a block from function entry"""
        return s._rcget(s.local_rc(0), b)


def gate(alts):
    if len(alts) == 1: return next(iter(alts))
    return Poly.atom(('gate', tuple(sorted(((c, v) for v, c in alts.items()), key=lambda cv: _key(cv[1])))))


def ungate(v, B):
    """Poly -> [(condition, value)]"""
    if len(v.t) == 1:
        (m, c), = v.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == 'gate': return list(m[0][0][1])
    return [(B.TRUE, v)]


def flat(v, B, I):
    """small integer case distinctions are merged into the enclosing one; others stay nested"""
    a = ungate(v, B) if I.ty != 'double' else None
    return a if a and len(a) <= 6 else [(B.TRUE, v)]


def clampabs(a):
    """|max(0,x) - h| with h >= 0 is x/2 - |x|/2 + |x - h|: limiting on two sides reads the same in either order"""
    z = [(m, c) for m, c in a.t.items() if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'call' and m[0][0][1] == 'fabs']
    if len(z) != 1 or z[0][1] < 0: return None
    (m, c), = z
    A = Poly({m: c}); y = a - A; zz = m[0][0][2][0] * Poly.const(c)
    for x2 in (zz, -zz):
        h = x2 - y
        if sign(h) > 0: return x2 - A + mkcall('fabs', (x2 + x2 - h,))
    return None


def mkcall(n, args):
    """pure library call, with the identities a rewrite may use"""
    if n in ('fabs', 'abs', 'sqrt') and len(args) == 1 and not args[0].t: return ZERO
    if n in ('fabs', 'abs', 'cos') and len(args) == 1 and args[0].t:
        a = args[0]; m0 = min(a.t, key=mkey)
        if n == 'cos':
            if a.t[m0] < 0: a = -a
            return Poly.atom(('call', n, (a,)))
        if a.is_const(): return Poly.const(abs(a.cval()))
        if n == 'fabs':
            r = clampabs(a) or clampabs(-a)
            if r is not None: return r
        k = abs(a.t[m0]) if n == 'fabs' else 1
        if a.t[m0] < 0 or k != 1: a = a * Poly.const(Fraction(1 if a.t[m0] > 0 else -1) / k)
        return Poly.const(k) * Poly.atom(('call', n, (a,)))
    if n == 'sqrt' and len(args) == 1 and args[0].is_const():
        import math
        q = args[0].cval()
        if q >= 0:
            r = Fraction(math.isqrt(q.numerator), math.isqrt(q.denominator)) if q.denominator else None
            if r is not None and r * r == q: return Poly.const(r)
    if n not in ('fmin', 'fmax'): args = tuple(short(a) for a in args)
    if n in ('fmin', 'fmax'):
        d = args[0] - args[1]
        return (args[0] + args[1] + mkcall('fabs', (d,)) * Poly.const(1 if n == 'fmax' else -1)) * Poly.const(Fraction(1, 2))
    if n == 'pow' and args[1].is_const() and args[1].cval() == Fraction(1, 2): return mkcall('sqrt', args[:1])
    return shorta(('call', n, args))


def L_id(L): return '%s.%d' % (L.fn.name, L.header)


def boolval(e):
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == 'bool': return m[0][0][1]
    return None


def normsign(d):
    """canonical representative of d == 0"""
    if not d.t: return d
    m0 = min(d.t, key=mkey) if not (len(d.t) > 1 and () in d.t) else min((m for m in d.t if m), key=mkey)
    c = d.t[m0]
    return d * Poly.const(Fraction(1) / c)


def ge0(B, d):
    if d.is_const(): return B.TRUE if d.cval() >= 0 else B.FALSE
    n = normsign(d)
    m0 = [m for m in d.t if n.t.get(m) is not None]
    # choose orientation: if leading coefficient negative represent as NOT ge0(-d-1)
    lead = min((m for m in d.t if m), key=mkey)
    if d.t[lead] < 0: return B.NOT(B.var(('ge0', -d - ONE)))
    return B.var(('ge0', d))


def gt0(B, d):
    if d.is_const(): return B.TRUE if d.cval() > 0 else B.FALSE
    lead = min((m for m in d.t if m), key=mkey)
    c = d.t[lead]
    if c < 0: return B.var(('lt0f', d * Poly.const(Fraction(1) / c)))     # -d < 0 form kept separate from NOT(gt) (NaN)
    return B.var(('gt0f', d * Poly.const(Fraction(1) / c)))


class BDD:
    """tiny ROBDD with interned nodes"""
    class N:
        __slots__ = ('v', 'lo', 'hi', 'id')
        def __repr__(s): return 'c%d' % s.id

    def __init__(s):
        s.order = {}; s.names = []; s.u = {}; s.memo = {}
        s.TRUE = BDD.N(); s.TRUE.v = 1 << 60; s.TRUE.id = 1; s.TRUE.lo = s.TRUE.hi = None
        s.FALSE = BDD.N(); s.FALSE.v = 1 << 60; s.FALSE.id = 0; s.FALSE.lo = s.FALSE.hi = None
        s.n = 2

    def mk(s, v, lo, hi):
        if lo is hi: return lo
        k = (v, lo.id, hi.id)
        r = s.u.get(k)
        if r is None:
            r = BDD.N(); r.v = v; r.lo = lo; r.hi = hi; r.id = s.n; s.n += 1; s.u[k] = r
        return r

    def var(s, name):
        v = s.order.get(name)
        if v is None: v = s.order[name] = len(s.names); s.names.append(name)
        return s.mk(v, s.FALSE, s.TRUE)

    def ITE(s, f, g, h):
        if f is s.TRUE: return g
        if f is s.FALSE: return h
        if g is h: return g
        if g is s.TRUE and h is s.FALSE: return f
        k = (f.id, g.id, h.id)
        r = s.memo.get(k)
        if r is not None: return r
        v = min(f.v, g.v, h.v)
        def co(n, b): return n if n.v != v else (n.hi if b else n.lo)
        r = s.mk(v, s.ITE(co(f, 0), co(g, 0), co(h, 0)), s.ITE(co(f, 1), co(g, 1), co(h, 1)))
        s.memo[k] = r
        return r

    def AND(s, a, b): return s.ITE(a, b, s.FALSE)
    def OR(s, a, b): return s.ITE(a, s.TRUE, b)
    def NOT(s, a): return s.ITE(a, s.FALSE, s.TRUE)
    def implies(s, a, b): return s.ITE(a, b, s.TRUE) is s.TRUE

    def support(s, n, acc=None, seen=None):
        acc = set() if acc is None else acc; seen = set() if seen is None else seen
        if n.id < 2 or n.id in seen: return acc
        seen.add(n.id); acc.add(s.names[n.v]); s.support(n.lo, acc, seen); s.support(n.hi, acc, seen)
        return acc

    def restrict(s, n, name, val):
        v = s.order.get(name)
        if v is None: return n
        memo = {}
        def go(x):
            if x.id < 2 or x.v > v: return x
            if x.id in memo: return memo[x.id]
            if x.v == v: r = x.hi if val else x.lo
            else: r = s.mk(x.v, go(x.lo), go(x.hi))
            memo[x.id] = r
            return r
        return go(n)

    def exists(s, n, pred):
        """quantify away variables whose name satisfies pred"""
        for a in list(s.support(n)):
            if pred(a): n = s.OR(s.restrict(n, a, 1), s.restrict(n, a, 0))
        return n

    def cubes(s, n, limit=64):
        out = []
        def go(x, lits):
            if len(out) >= limit: return
            if x is s.TRUE: out.append(list(lits)); return
            if x is s.FALSE: return
            go(x.hi, lits + [(s.names[x.v], True)]); go(x.lo, lits + [(s.names[x.v], False)])
        go(n, [])
        return out

    def show(s, n):
        if n is s.TRUE: return 'always'
        if n is s.FALSE: return 'never'
        return ' or '.join('(' + ' and '.join(show_lit(a, v) for a, v in c) + ')' for c in s.cubes(n, 6))


def show_lit(a, v):
    k = a[0]
    if k == 'eq0' or k == 'feq0': return '%r %s 0' % (a[1], '==' if v else '!=')
    if k == 'ge0': return '%r %s 0' % (a[1], '>=' if v else '<')
    if k == 'gt0f': return '%r %s 0' % (a[1], '>' if v else '<=')
    if k == 'lt0f': return '%r %s 0' % (a[1], '<' if v else '>=')
    return ('' if v else 'not ') + str(a)


def ldkey(q):
    f = [t[1] for t in q.steps if t[0] == 'f']
    return ('F', f[-1]) if f else ('B', q.base)


class Program:
    def __init__(s, path):
        s.bdd = BDD(); s.fn = {}
        with open(path) as f:
            h = json.loads(f.readline())
            s.structs = h['structs']; s.globals = h['globals']; s.gname = {g['name']: '{' + ', '.join(str(x) for x in g['init']) + '}' for g in s.globals if 'init' in g and g['name'].startswith('__const.')}; s.ginit = {s.gname.get(g['name'], g['name']): g['init'] for g in s.globals if 'init' in g}; s.enums = h['enums']
            for line in f:
                d = json.loads(line); F = Fn(s, d); s.fn[F.name] = F

    def get(s, name):
        F = s.fn.get(name)
        if F is None: raise AnalysisError('anchor function %s not found in the sources' % name)
        F._build()
        return F
