"""C05 thread independence: every OpenMP region gives the same result for any number of threads and any schedule"""
import re
from ir import *
from effects import deep, deep_place
from modref import ModRef

# index tables of the grid / of the numbering: position -> node or equation, each entry once
TABLES = {'kn', 'ln', 'kp', 'lp', 'kvx', 'lvx', 'kvz', 'lvz', 'eqn_u', 'eqn_v', 'eqn_p', 'eqn_number', 'Ic'}
UNSAFE = {'rand', 'srand', 'random', 'drand48', 'strtok', 'localtime', 'gmtime', 'setlocale'}
RUNTIME = re.compile(r'__kmpc_|omp_|llvm\.')
LOCK = ('__kmpc_critical', '__kmpc_critical_with_hint', '__kmpc_reduce', '__kmpc_reduce_nowait', '__kmpc_ordered', '__kmpc_single', '__kmpc_master', '__kmpc_masked')
UNLOCK = ('__kmpc_end_critical', '__kmpc_end_ordered', '__kmpc_end_reduce', '__kmpc_end_single', '__kmpc_end_master', '__kmpc_end_masked')


def region(n): return '.omp_outlined' in n and 'reduction_func' not in n and 'copy_func' not in n


def tname(a): return isinstance(a, tuple) and len(a) > 1 and a[0] in ('res', 'call') and a[1] == 'omp_get_thread_num'


def mentions(x, pred, seen=None):
    seen = set() if seen is None else seen
    if isinstance(x, (Poly, Place)):
        if x in seen: return False
        seen.add(x)
    if isinstance(x, Poly): return any(pred(a) or mentions(tuple(a) if isinstance(a, tuple) else a, pred, seen) for m in x.t for a, e in m)
    if isinstance(x, Place): return pred(x.base) or any(mentions(y, pred, seen) for s in x.steps for y in s)
    if isinstance(x, tuple): return pred(x) or any(mentions(y, pred, seen) for y in x)
    return False


class Region:
    """one outlined parallel region (or a library routine called from one, evaluated with its actual arguments)"""
    def __init__(s, F):
        s.F = F; F._build()
        s.loops = {L for b in F.rpo for L in F.loops_of(b)}
        s.dist = {}                       # header -> Loop whose iterations are divided among the threads
        for L in s.loops:
            for I in F.blocks[L.header]:
                if I.op != 'phi': continue
                n = I.d.get('dn') or I.d.get('nm') or ''
                if n.startswith('.omp.iv'): s.dist[L.header] = I.id
                else:
                    init = [x[0] for x in I.ops if x[1] not in L.body]
                    if F.induction(I) and len(init) == 1 and mentions(F.ex(init[0]), tname): s.dist[L.header] = I.id
        s.ids = set(s.dist.values())
        s.lock = {}
        st = {F.rpo[0]: False}; w = [F.rpo[0]]
        while w:
            b = w.pop(); x = st[b]
            for I in F.blocks[b]:
                s.lock[I.id] = x
                c = (I.callee or '') if I.op == 'call' else ''
                if c in LOCK: x = True
                elif c in UNLOCK: x = False
            for t in F.succ[b]:
                if t not in st: st[t] = x; w.append(t)
                elif st[t] and not x: st[t] = False; w.append(t)

    def isiv(s, a): return isinstance(a, tuple) and len(a) > 3 and a[0] == 'iv' and a[3] in s.ids and a[1].startswith(s.F.name + '.') or isinstance(a, tuple) and len(a) > 2 and a[0] == 'phi' and a[2] in s.ids and a[1] == s.F.name

    def per(s, x): return mentions(x, lambda a: tname(a) or s.isiv(a))

    def work(s, bb): return any(L.header in s.dist for L in s.F.loops_of(bb))

    def once(s, I):
        """guarded by (counter == constant): a single iteration gets here"""
        B = s.F.prog.bdd
        try: g = s.F.rc(I.bb)
        except AnalysisError: return False
        for a in B.support(g):
            if a[0] == 'eq0' and len(a[1].t) <= 2 and any(s.isiv(x) for m in a[1].t for x, e in m) and all(len(m) <= 1 for m in a[1].t) and B.implies(g, B.var(a)): return True
        return False

    def own(s, p):
        """'thread' slice | 'iter' one element per iteration | 'scatter' iteration-dependent but not one-to-one | None shared by all"""
        if any(mentions(x, tname) for st in p.steps for x in st): return 'thread'
        r = None
        for st in p.steps:
            if st[0] != 'i': continue
            k = s.index(st[1])
            if k == 'iter': return k
            r = r or k
        return r

    def index(s, q):
        r = None
        for m in q.t:
            for a, e in m:
                if s.isiv(a): return 'iter'
                if isinstance(a, tuple) and a and a[0] in ('sdiv', 'srem', 'udiv', 'urem') and isinstance(a[1], Poly):
                    if s.index(a[1]) == 'iter': return 'iter'
                if isinstance(a, tuple) and a and a[0] == 'ld' and isinstance(a[1], Place):
                    f = a[1].fields(); last = (f[-1] if f else (a[1].base[2] if a[1].base[0] in ('arg', 'alloca') else ''))
                    if last in TABLES and any(st[0] == 'i' and s.index(st[1]) == 'iter' for st in a[1].steps): return 'iter'
                if s.per(Poly.atom(a)): r = 'scatter'
        return r


def private(F, p):
    if p.base[0] != 'alloca' or ('*',) in p.steps: return False
    return True


def show(p): return re.sub(r'@[\w.]+', '', repr(p))[:120]


def callee_places(P, name, depth=2, memo={}):
    """stores of a routine (and of what it calls) as places over its own arguments -> [(place, loc)], None entries = not resolvable"""
    k = (id(P), name, depth)
    if k in memo: return memo[k]
    memo[k] = []
    F = P.fn[name]; F._build(); out = []
    for I in F.insts():
        if I.op in ('store', 'atomicrmw', 'cmpxchg'):
            p = F.addr(I.ops[1] if I.op == 'store' else I.ops[0])
            if private(F, p): continue
            if p.base[0] == 'arg' and F.args[p.base[1]].get('byval') and ('*',) not in p.steps: continue
            for q in [q for c, q in (F.ptr_alts(p) or [(None, p)])] if p.base[0] in ('phi', 'sel') else [p]:
                if not private(F, q): out.append((q, I.loc()))
        elif I.op == 'call' and I.callee in P.fn and not RUNTIME.match(I.callee) and depth:
            out += [(q, l) for q, l in substituted(P, F, I, callee_places(P, I.callee, depth - 1)) if not private(F, q)]
    memo[k] = out
    return out


def substituted(P, F, I, places):
    G = P.fn[I.callee]; bv = set(I.d.get('byval') or [])
    m = {}

    def f(a):
        if isinstance(a, tuple) and a and a[0] == 'arg':
            if a in m: return m[a]
            k = a[1]
            r = None
            if k < len(I.ops): r = F.addr(I.ops[k]) if G.args[k]['ty'] == 'ptr' else F.ex(I.ops[k])
            m[a] = r
            return r
        if isinstance(a, tuple) and len(a) == 2 and a[0] == 'addr' and isinstance(a[1], Place): return None
        return None
    for p, l in places:
        try: yield deep_place(p, f, {}), l
        except Exception: yield Place(('val', 0)), l


def serial_undef(F):
    """variables read before they are ever written (operand undef)"""
    return sum(1 for I in F.insts() if I.op not in ('phi', 'insertvalue', 'freeze') and any(o == ['u'] or (isinstance(o, (list, tuple)) and o and o[0] == 'u') for o in I.ops if isinstance(o, (list, tuple))))


def run(c):
    P = c.OMP
    regs = [F for F in P.fn.values() if region(F.name)]
    wrapped = {I.callee for F in regs for I in F.calls() if region(I.callee or '')}
    mr = ModRef(P)
    for F in regs:
        if any(region(I.callee or '') for I in F.calls()): continue      # thin wrapper made by the compiler around the body
        R = Region(F); name = F.name.split('.omp_outlined')[0]
        c.count('parallel_regions'); c.count('work_shared_loops', len(R.dist))
        wr = {}                                                           # array -> [(place, inst)]
        for I in F.insts():
            if I.op in ('store', 'atomicrmw', 'cmpxchg'):
                if I.op != 'store' or I.d.get('atomic'): c.count('atomic_updates'); continue
                p = F.addr(I.ops[1])
                for q in ([q for _, q in (F.ptr_alts(p) or [(None, p)])] if p.base[0] in ('phi', 'sel') else [p]):
                    place(c, R, name, I, q, I.loc(), F.ex(I.ops[0]), wr)
            elif I.op == 'call':
                n = I.callee
                if n in UNSAFE: c.require(False, 'unsafe:%s:%s' % (name, n), '%s calls %s, whose hidden state is shared by the threads, inside a parallel region' % (name, n), I.loc())
                elif n in P.fn and not RUNTIME.match(n) and not region(n):
                    c.count('calls_in_regions')
                    for q, l in substituted(P, F, I, callee_places(P, n)):
                        place(c, R, name, I, q, l, None, None, via=n)
                    for k in mr.get(n)[1]:
                        if k[0] == 'G' and not R.lock.get(I.id): c.require(False, 'global:%s:%s' % (name, k[1]), '%s: %s writes the global %s inside a parallel region' % (name, n, k[1]), I.loc())
        carried(c, R, name)
        undefined(c, R, name)
        flow(c, R, name, wr)
    live = reach(P)
    for F in sorted(P.fn.values(), key=lambda F: F.name):
        if F.name.split('.omp_outlined')[0] in live: lost(c, F)
    # a parallel region must not leave the enclosing routine with an uninitialised variable
    c.floor('parallel_regions', 150); c.floor('shared_writes', 400)


def reach(P):
    """routines a run can get to"""
    seen = set(); w = ['RunMDOODZ']
    while w:
        n = w.pop()
        if n in seen or n not in P.fn: continue
        seen.add(n); F = P.fn[n]; F._build()
        for I in F.insts():
            if I.op in ('call', 'invoke'):
                if I.callee: w.append(I.callee)
                w += [o[1] for o in I.ops if isinstance(o, (list, tuple)) and len(o) > 1 and isinstance(o[1], str) and o[1] in P.fn]
    return {n.split('.omp_outlined')[0] for n in seen}


def lost(c, F):
    """partial results are kept one block per thread, A[thread][...]; where a loop goes over those blocks, each turn must
    add to what the turns before have left: a place that stays the same must not simply be overwritten"""
    F._build()
    R = Region(F) if region(F.name) else None
    # a place chosen by a running counter is another place in every turn
    counter = lambda a: isinstance(a, tuple) and len(a) > 1 and (a[0] == 'phi' and not (R and R.isiv(a)) or a[0] in ('gate', 'cphi', 'after') or a[0] == 'ld' and not a[1].fields())
    done = {}
    def goes_on(a):
        """an index that starts where another loop left off"""
        if not (isinstance(a, tuple) and len(a) > 3 and a[0] == 'iv' and a[3] in F.inst and a[1].startswith(F.name + '.')): return False
        if a[3] not in done:
            done[a[3]] = False
            t = F.induction(F.inst[a[3]])
            done[a[3]] = bool(t) and mentions(F.ex(t[0]), lambda x: counter(x) or goes_on(x))
        return done[a[3]]
    for L in F.loops:
        ids = {I.id for I in F.blocks[L.header] if I.op == 'phi' and F.induction(I)}
        if not ids: continue
        iv = lambda a: isinstance(a, tuple) and len(a) > 3 and a[0] == 'iv' and a[3] in ids and a[1] == L_id(L)
        def slot(a):
            """an element of block number iv of a table of blocks"""
            if not (isinstance(a, tuple) and a[0] == 'ld'): return False
            st = a[1].steps
            return any(t[0] == 'i' and t[1].atoms() and any(iv(x) for x in t[1].atoms()) and k + 1 < len(st) and st[k + 1] == ('*',) for k, t in enumerate(st))
        for b in sorted(L.body):
            if F.loopof.get(b) is not L and not (F.loopof.get(b) and F.loopof[b].header in L.body): continue
            for I in F.blocks[b]:
                if I.op != 'store' or b in F.dead() or b not in F.reach: continue
                v = F.ex(I.ops[0])
                if not mentions(v, slot): continue
                p = F.addr(I.ops[1])
                if mentions(p, iv) or mentions(p, lambda a: counter(a) or goes_on(a) and F.inst[a[3]].bb in L.body): continue
                if p.base[0] == 'call' and F.inst[p.base[2]].bb in L.body: continue
                # a block made anew in every turn
                cut = [k for k, t in enumerate(p.steps) if t == ('*',)]
                if cut and any(F.addr(U.ops[1]) == Place(p.base, p.steps[:cut[-1]]) for x in L.body for U in F.blocks[x] if U.op == 'store'): continue
                c.count('merged_partial_results')
                same = lambda a: isinstance(a, tuple) and a[0] == 'ld' and a[1].base == p.base and [t for t in a[1].steps if t[0] == 'f'] == [t for t in p.steps if t[0] == 'f']
                c.require(mentions(v, same), 'lost:%s:%s' % (F.name.split('.omp_outlined')[0], re.sub(r'\[.*', '', show(p))), '%s: %s is overwritten with the part of each thread in turn: only the last part is kept' % (F.name.split('.omp_outlined')[0], show(p)), I.loc())


def place(c, R, name, I, p, loc, val, wr, via=None):
    F = R.F
    if private(F, p) or p.base[0] in ('str', 'null', 'fn'): return
    if p.base[0] in ('call', 'alloca'): return                             # memory obtained inside the region
    if p.base[0] in ('val', 'cyc', 'x', 'phi', 'sel'): c.undecided.append('%s: write through an unresolved pointer' % loc); return
    c.count('shared_writes'); c.obl += 1
    if R.lock.get(I.id): c.count('locked_writes'); return
    o = R.own(p)
    if wr is not None: wr.setdefault((p.base,) + tuple(s[1] if s[0] == 'f' else s[0] for s in p.steps[:-1]), []).append((p, I, o))
    if o in ('thread', 'iter'): return
    if R.once(I): return
    if not R.work(I.bb):
        # executed by every thread: harmless only when all of them write the same value
        if val is None or not R.per(val): c.count('same_value_writes'); return
    v = show(p)
    k = 'race:%s:%s' % (name, re.sub(r'\[.*', '', v))
    if o == 'scatter':
        c.bad(k, '%s: iterations run by different threads can update the same element %s%s without atomic, critical section or a private copy per thread' % (name, v, ' (in %s)' % via if via else ''), loc)
    else:
        c.bad(k, '%s: every thread writes the shared variable %s%s: it is neither private, reduced, atomic, nor indexed by the iteration or thread number' % (name, v, ' (in %s)' % via if via else ''), loc)


def carried(c, R, name):
    """values of private variables that survive from one iteration to the next depend on which thread ran the previous one"""
    F = R.F
    for h, iv in R.dist.items():
        L = next(l for l in R.loops if l.header == h)
        for J in F.blocks[h]:
            if J.op != 'phi' or J.id == iv: continue
            n = J.d.get('dn') or J.d.get('nm') or ''
            if n.startswith('.omp'): continue
            if not live(F, J): continue
            # second counter running in step with the loop is as good as the counter itself only when it starts from the thread's own position
            c.obl += 1
            init = [x[0] for x in J.ops if x[1] not in L.body]
            if F.induction(J) and len(init) == 1 and R.per(F.ex(init[0])): continue
            if all(x[0] == ['v', J.id] for x in J.ops if x[1] in L.body): continue
            if merged(F, R, J): c.count('partial_results_merged_under_lock'); continue
            if unset_serially(c, name, n, {I.ln for b in L.body for I in F.blocks[b] if I.ln}): c.count('unset_on_entry_in_the_serial_program_too'); continue
            c.bad('carried:%s:%s' % (name, n), '%s: the private variable %s carries a value from one iteration to the next: the result depends on how the iterations are divided among threads' % (name, n or '?'), F.blocks[h][0].loc() if F.blocks[h][0].ln else J.loc())
        c.count('loops_without_carried_values')


def live(F, J):
    """the phi feeds something other than phis"""
    seen = set(); w = [J.id]
    while w:
        x = w.pop()
        if x in seen: continue
        seen.add(x)
        for U in F.uses.get(x, ()):
            if U.op == 'phi': w.append(U.id)
            elif U.bb in F.dead(): continue
            elif U.op == 'call' and U.callee in F.prog.fn and not RUNTIME.match(U.callee) and all(optional(F.prog, U.callee, k) for k in range(len(U.ops)) if U.ops[k] == ['v', x]): continue
            else: return True
    return False


def optional(P, name, k, depth=3):
    """the routine looks at this argument only under some condition of its own (an option that is off where the value is unset)"""
    F = P.fn[name]; F._build()
    if depth == 0: return False
    for U in F.insts():
        if ['a', k] not in U.ops or U.bb in F.dead(): continue
        if U.op == 'call' and U.callee in P.fn and all(optional(P, U.callee, j, depth - 1) for j in range(len(U.ops)) if U.ops[j] == ['a', k]): continue
        if U.op == 'phi': return False
        if unconditional(F, U.bb): return False
    return True


def unconditional(F, b):
    """the block is passed on every path to a return"""
    seen = set(); w = [F.rpo[0]]
    while w:
        x = w.pop()
        if x == b or x in seen or x in F.dead(): continue
        seen.add(x)
        if F.blocks[x][-1].op == 'ret': return False
        w += F.succ[x]
    return True


def merged(F, R, J):
    """the carried value is a partial result of this thread: outside its own update it is only used under a lock, after the loop"""
    L = [l for l in R.loops if l.header == J.bb][0]
    seen = set(); w = [J.id]; hit = False
    while w:
        x = w.pop()
        if x in seen: continue
        seen.add(x)
        for U in F.uses.get(x, ()):
            if U.bb in F.dead(): continue
            if U.op in ('store', 'call') and not (U.op == 'call' and U.callee in PURE):
                if U.bb in L.body or not R.lock.get(U.id): return False
                hit = True
            elif U.op in ('load', 'getelementptr'): return False
            else: w.append(U.id)
    return hit


def unset_serially(c, name, n, line):
    """in the serial program too the variable has no value on entry to the loop: only paths that never happen can read it"""
    F = c.P.fn.get(name)
    if F is None: return False
    F._build(); c_ = []
    for I in F.insts():
        if I.op != 'phi' or (I.d.get('dn') or I.d.get('nm') or '') != n: continue
        L = F.loopof.get(I.bb)
        if L is None or L.header != I.bb or not nearline(F, L, line): continue
        c_.append(unset(F, [x[0] for x in I.ops if x[1] not in L.body], n, set()))
    return bool(c_) and all(c_)


def nearline(F, L, lines):
    l = {I.ln for b in L.body for I in F.blocks[b] if I.ln}
    return bool(l & lines)


def unset(F, ops, n, seen):
    for o in ops:
        if o[0] == 'u': continue
        if o[0] == 'v' and o[1] in seen: continue
        if o[0] == 'v' and F.inst[o[1]].op == 'phi':
            seen.add(o[1])
            if not unset(F, [x[0] for x in F.inst[o[1]].ops if x[0][0] == 'u' or x[0][0] == 'v' and F.inst[x[0][1]].op == 'phi'] or [x[0] for x in F.inst[o[1]].ops], n, seen): return False
            continue
        return False
    return True


def undefined(c, R, name):
    F = R.F
    for I in F.insts():
        if I.op in ('phi', 'insertvalue', 'freeze'): continue
        c.count('instructions')
        if any(isinstance(o, (list, tuple)) and o and o[0] == 'u' for o in I.ops):
            if I.op == 'call' and (I.callee or '').startswith('llvm.'): continue
            c.bad('undef:%s:%s' % (name, I.loc().split(':')[0]), '%s: a private variable is read in the parallel region before it gets a value (private where firstprivate is needed?)' % name, I.loc())
    for A in F.insts():
        if A.op != 'alloca' or (A.d.get('dn') or A.d.get('nm') or '').startswith('.omp'): continue
        rd, w, seen, st = None, False, {A.id}, [A.id]
        while st:
            x = st.pop()
            for U in F.uses.get(x, ()):
                if U.op in ('getelementptr',) or U.op in CASTS:
                    if U.id not in seen: seen.add(U.id); st.append(U.id)
                elif U.op == 'load': rd = rd or U
                elif U.op == 'store':
                    w = True
                elif U.op == 'call':
                    cn = U.callee or ''
                    if cn.startswith('llvm.dbg') or cn.startswith('llvm.lifetime'): continue
                    if cn.startswith('llvm.memcpy') and U.ops[0] != ['v', x]: rd = rd or U
                    elif (U.d.get('byval') or []) and any(U.ops[k] == ['v', x] for k in U.d['byval']): rd = rd or U
                    else: w = True
                elif U.op != 'phi' and U.op != 'select' and U.op != 'icmp': w = True
                elif U.op != 'icmp': w = True
        c.obl += 1
        if rd is not None and not w: c.bad('undef:%s:%s' % (name, A.d.get('dn') or A.d.get('nm')), '%s: the private variable %s is read in the parallel region but never set there' % (name, A.d.get('dn') or A.d.get('nm')), rd.loc())


def flow(c, R, name, wr):
    """an element written by one iteration may not be read by another one"""
    F = R.F
    for I in F.insts():
        if I.op != 'load' or not R.work(I.bb) or R.lock.get(I.id): continue
        p = F.addr(I.ops[0])
        if not p.steps or p.steps[-1][0] != 'i': continue
        k = (p.base,) + tuple(s[1] if s[0] == 'f' else s[0] for s in p.steps[:-1])
        for q, J, o in wr.get(k, ()):
            if o != 'iter': continue
            c.count('read_write_pairs'); c.obl += 1
            if not R.index(p.steps[-1][1]) and R.index(q.steps[-1][1]) or p.steps != q.steps and R.index(q.steps[-1][1]) == 'iter':
                if p.steps[:-1] != q.steps[:-1] and all((a[1] - b[1]).is_const() and (a[1] - b[1]).cval() for a, b in zip(p.steps[:-1], q.steps[:-1]) if a != b and a[0] == 'i'): continue
                if R.once(J) and R.once(I): continue
                c.bad('flow:%s:%s' % (name, re.sub(r'\[.*', '', show(p))), '%s: %s is read while other iterations write %s: the result depends on the schedule' % (name, show(p), show(q)), I.loc())
