"""C08 lifetime of blocks: use after release, release twice, leaks and element sizes of blocks allocated and used inside one function"""
from ir import *
from effects import *
from modref import ModRef, pkey
from canon import map_cond

ALLOC = {'DoodzCalloc': (0, 1), 'DoodzMalloc': (None, 0), 'malloc': (None, 0), 'calloc': (0, 1)}
FREE = {'DoodzFree', 'free', 'fclose', 'DoodzRealloc', 'realloc'}
OPEN = {'fopen', 'fopen64'}
SIZE = {'double': 8, 'float': 4, 'i32': 4, 'i8': 1, 'ptr': 8, 'i64': 8, 'i16': 2, 'i1': 1}


def roots(F, o, seen=None):
    """the values a pointer operand may come from: ('v', id) of calls/loads/arguments"""
    seen = set() if seen is None else seen
    if o[0] != 'v': return {tuple(o[:2])} if o[0] == 'a' else set()
    if o[1] in seen: return set()
    seen.add(o[1]); I = F.inst[o[1]]
    if I.op in CASTS or I.op == 'getelementptr': return roots(F, I.ops[0], seen)
    if I.op == 'phi': return set().union(*[roots(F, x[0], seen) for x in I.ops] or [set()])
    if I.op == 'select': return roots(F, I.ops[1], seen) | roots(F, I.ops[2], seen)
    if I.op == 'load':
        f = F.fwd_load(I)
        if f is not None: return roots(F, f, seen)
    return {('v', o[1])}


def derived(F, i, phis=True):
    """instructions that hold or use a pointer derived from value i: (uses, escapes)"""
    w = [i]; seen = {i}; uses = []; esc = []
    while w:
        x = w.pop()
        for U in F.uses.get(x, ()):
            if U.op == 'phi' and not phis: continue
            if U.op in ('getelementptr', 'phi', 'select') or U.op in CASTS:
                if U.op == 'getelementptr' and U.ops[0] != ['v', x]: uses.append((U, x)); continue
                if U.id not in seen: seen.add(U.id); w.append(U.id)
            elif U.op == 'store' and U.ops[0] == ['v', x] and U.ops[1] != ['v', x]:
                A = F.inst[U.ops[1][1]] if U.ops[1][0] == 'v' else None
                if A is not None and A.op == 'alloca' and not A.d.get('st'):
                    # kept in a local variable: follow its loads
                    ld = [V for V in F.uses.get(A.id, ()) if V.op == 'load']
                    for V in ld:
                        if F.fwd_load(V) is not None and V.id not in seen: seen.add(V.id); w.append(V.id)
                    if all(V.op in ('load', 'store') for V in F.uses.get(A.id, ())): 
                        for V in ld:
                            if V.id not in seen: seen.add(V.id); w.append(V.id)
                        continue
                esc.append(U)
            elif U.op == 'ret': esc.append(U)
            elif U.op == 'icmp': pass
            else: uses.append((U, x))
    return uses, esc


def after(F, a, b, kills):
    """b can run after a without passing an instruction that makes the block again"""
    kb = {}
    for d in kills: kb.setdefault(d.bb, []).append(d.pos)
    if a.bb == b.bb and a.pos < b.pos: return not any(a.pos < p < b.pos for p in kb.get(a.bb, ()))
    if any(p > a.pos for p in kb.get(a.bb, ())): return False
    seen = set(); w = list(F.succ[a.bb])
    while w:
        x = w.pop()
        if x in seen: continue
        seen.add(x)
        if x == b.bb and not any(p < b.pos for p in kb.get(x, ())): return True
        if x in kb: continue
        w.extend(F.succ[x])
    return False


def remade(F, p, mr):
    """instructions that may put another block into place p"""
    fl = p.fields(); out = []
    key = pkey(F, p)
    for I in F.insts():
        if I.op == 'store' and F.inst.get(I.id) is not None:
            q = F.addr(I.ops[1])
            if q == p or (q.base == p.base and q.fields() == fl and not (q.base[0] == 'call')): out.append(I)
        elif I.op == 'call' and I.callee not in FREE:
            if p.base[0] == 'alloca' and any(o[0] == 'v' and F.inst[o[1]].ty == 'ptr' and F.addr(o).base == p.base and ('*',) not in F.addr(o).steps for o in I.ops): out.append(I)
            elif key and key in mr.call(F, I)[1]: out.append(I)
    return out


def escapes(F, A, stop):
    """a way from the allocation to a return that passes no release"""
    if A.bb in stop: return False
    seen = {A.bb}; w = [A.bb]
    while w:
        x = w.pop()
        if any(I.op == 'ret' for I in F.blocks[x]): return True
        for y in F.succ[x]:
            if y not in seen and y not in stop: seen.add(y); w.append(y)
    return False


def targets(F, p):
    return [q for g, q in F.ptr_alts(p) or [(None, p)]] if p.base[0] in ('phi', 'sel') else [p]


def field(F, p, name):
    """what a pointer is kept in: a field of a structure, or an array local to this function"""
    fl = p.fields()
    if fl: return ('field', '.'.join(fl[-2:]) if fl[-1] in ('type', 'val') else fl[-1])
    if p.base[0] == 'call': return ('local', name, p.base[1])
    return None


def sources(F, o, name):
    out = set()
    for r in roots(F, o):
        if r[0] != 'v' or F.inst[r[1]].op != 'load': continue
        for q in targets(F, F.addr(F.inst[r[1]].ops[0])):
            k = field(F, q, name)
            if k: out.add(k)
    return out


def options(P, c):
    """the part of a condition that depends on options only, the options named by their field (whichever structure they were read from)"""
    B = P.bdd
    def opt(a): return a[0] == 'ld' and a[1].steps and all(t[0] == 'f' for t in a[1].steps[-1:]) and not any(t[0] not in ('f', '*') for t in a[1].steps)
    c = map_cond(B, c, lambda p: p.subst(lambda a: Poly.atom(('opt', a[1].steps[-1][1])) if opt(a) else None))
    return B.exists(c, lambda v: v[0] not in ('eq0', 'ge0', 'feq0', 'gt0f', 'lt0f', 'true') or any(a[0] != 'opt' for a in (v[1].atoms() if isinstance(v[1], Poly) else [('?',)])))


def run(c):
    P = c.P; B = P.bdd
    if not hasattr(P, 'mr'): P.mr = ModRef(P)
    mr = P.mr
    made, gone, unknown = {}, set(), set(); when_made, when_gone = {}, {}
    for name in sorted(P.fn):
        F = P.fn[name]; F._build(); dead = F.dead()
        frees = [I for I in F.calls(*FREE) if I.bb not in dead]
        for A in F.calls(*(set(ALLOC) | OPEN)):
            if A.bb in dead: continue
            c.count('blocks')
            us, esc = derived(F, A.id)
            straight = {id(U) for U, x in derived(F, A.id, False)[0]}
            us = [(U, x) for U, x in us if U.bb not in dead]
            fr = [U for U, x in us if U.op == 'call' and U.callee in FREE]
            what = A.d.get('dn') or name + ':' + repr(F.addr(['v', A.id]))
            for R in fr:
                for U, x in us:
                    if 'ealloc' in R.callee and id(U) not in straight: continue
                    if U is R or not after(F, R, U, [A]): 
                        continue
                    g = B.AND(F.rc(R.bb), F.rc(U.bb))
                    if g is B.FALSE: continue
                    c.require(False, 'uaf:%s:%s' % (name, U.callee or U.op), '%s: a block is %s after it was released at %s' % (name, 'released again' if U.op == 'call' and U.callee in FREE else 'used', R.loc()), U.loc())
            c.ok()
            if not esc:
                c.count('local_blocks')
                if not fr:
                    c.require(False, 'leak:%s:%r' % (name, F.ex(['v', A.id])), '%s: a block allocated here is never released' % name, A.loc())
                else:
                    g = B.FALSE
                    for R in fr: g = B.OR(g, F.rc(R.bb))
                    if B.AND(F.rc(A.bb), B.NOT(g)) is not B.FALSE and escapes(F, A, {R.bb for R in fr}):
                        c.require(False, 'pathleak:%s:%s' % (name, A.callee), '%s: a way through the function leaves this block unreleased' % name, A.loc())
                    else: c.ok()
            for U in esc:
                if U.op != 'store' or fr: continue
                for q in targets(F, F.addr(U.ops[1])):
                    k = field(F, q, name)
                    if k:
                        made.setdefault(k, (A, name))
                        when_made.setdefault(k, []).append((A, name, options(P, F.rc(A.bb))))
            # element type
            if A.callee in ALLOC:
                k = ALLOC[A.callee][1]; n = F.ex(A.ops[k])
                w = [A.id]; tys = set(); seen = {A.id}
                while w:
                    x = w.pop()
                    for U in F.uses.get(x, ()):
                        if U.op == 'getelementptr' and U.ops[0] == ['v', x] and U.d['path'] and U.d['path'][0][0] == 'p': tys.add(U.d['path'][0][2])
                        elif U.op in CASTS or U.op == 'phi':
                            if U.id not in seen: seen.add(U.id); w.append(U.id)
                for t in tys:
                    z = SIZE.get(t)
                    if z is None: continue
                    c.count('element_types')
                    if n.is_const() and ALLOC[A.callee][0] is not None: c.require(n.cval() >= z, 'elem:%s:%s' % (name, t), '%s: block of %s-byte elements is used as an array of %s' % (name, n.cval(), t), A.loc())
        for R in frees:
            for o in R.ops[:1]:
                for k in sources(F, o, name):
                    gone.add(k)
                    when_gone[k] = B.OR(when_gone.get(k, B.FALSE), options(P, F.rc(R.bb)))
        # releases of the same local variable, field or array element twice
        for i, R in enumerate(frees):
            if R.ops[0][0] != 'v' or F.inst[R.ops[0][1]].op != 'load': continue
            p = F.addr(F.inst[R.ops[0][1]].ops[0])
            if p.base[0] in ('phi', 'sel', 'cyc', 'val'): continue
            c.count('released_places')
            kills = None
            for R2 in frees:
                if R2 is R or R2.ops[0][0] != 'v' or F.inst[R2.ops[0][1]].op != 'load' or F.addr(F.inst[R2.ops[0][1]].ops[0]) != p: continue
                if B.AND(F.rc(R.bb), F.rc(R2.bb)) is B.FALSE: continue
                if kills is None: kills = remade(F, p, mr)
                c.require(not after(F, R, R2, kills), 'twice:%s:%r' % (name, p), '%s releases %r again after it was released at %s' % (name, p, R.loc()), R2.loc())
    kept = {k[1].split('.')[-1] for k in made if k[0] == 'field'}
    for k, (A, name) in sorted(made.items(), key=lambda kv: str(kv[0])):
        c.count('kept_blocks')
        c.require(k in gone, 'kept:%s' % '.'.join(map(str, k[1:])), 'blocks made in %s and kept in %s are released nowhere' % (name, k[-1] if k[0] == 'field' else 'a local array'), A.loc())
        if k in gone:
            for A, name, w in when_made[k]:
                c.count('kept_block_conditions')
                # a test of the block itself (released when it exists) holds here
                ptr = lambda v: any(a[1] in kept for a in v[1].atoms())
                left = B.AND(w, B.NOT(B.exists(when_gone[k], ptr)))
                c.require(left is B.FALSE, 'when:%s' % '.'.join(map(str, k[1:])), 'a block made in %s and kept in %s is not released when %s' % (name, k[-1] if k[0] == 'field' else 'a local array', B.show(left)[:200]), A.loc())
    import bounds
    bounds.run(c)
    for k, n in (('blocks', 400), ('local_blocks', 180), ('element_types', 160), ('released_places', 250), ('kept_blocks', 150), ('accesses', 2500), ('in_bounds', 1200), ('known_field_lengths', 140)): c.floor(k, n)
