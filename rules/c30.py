"""C30 writing is an observer: output routines leave the model's state as it was, and output options steer nothing but output"""
import re
from ir import *
from modref import ModRef, pkey

# routines that write files, maps and reports (and what they need for it)
OUT = ['MakeBreakpointParticles', 'DeletePreviousBreakpoint', 'WriteOutputHDF5', 'WriteOutputHDF5Particles', 'WriteResiduals', 'GenerateDeformationMaps',
       'CreateDir', 'CreateOutputHDF5', 'AddGroupToHDF5', 'AddFieldToGroup', 'MinMaxArray', 'MinMaxArrayTag', 'MinMaxArrayPart', 'MinMaxArrayTagChar', 'MinMaxArrayI',
       'MinMaxArrayTagInt', 'CheckArrays', 'CheckSym', 'IsNanArray2DFP', 'IsInfArray2DFP']
# recomputed from the markers by every call that uses them (P2Mastah resets them first); see DESIGN.md
RECOMPUTED = {'phase_perc_n', 'phase_perc_s', 'X_n'}
OPTION = re.compile(r'\b(writer\w*|delete_breakpoints|deformation_maps|gnuplot_log_res)\b')
READER = {'ReadInputFile', 'MutateInput'}
FREE = {'free', 'DoodzFree'}
NOTE = {'GNUplotPipe'}


def owned(F, p):
    """the place belongs to the function itself: a local or a block it allocated (or was returned)"""
    if p.base[0] in ('alloca',): return ('*',) not in p.steps or True
    if p.base[0] in ('call', 'str', 'null', 'undef', 'x', 'intptr', 'fn'): return True
    if p.base[0] == 'glob' and ('*',) in p.steps and str(p.base[1]).startswith('std'): return True
    return False


def outside(F, p):
    """for the driver, whose locals are the model: everything but its scratch"""
    if F.name == 'RunMDOODZ' and p.base[0] == 'alloca' and F.inst[p.base[1]].d.get('st'): return True
    return not owned(F, p)


def leaves(F, p):
    al = F.ptr_alts(p) if p.base[0] in ('phi', 'sel') else None
    return [q for c, q in al] if al else [p]


def shown(p): return repr(p)


def routine(c, P, mr, n):
    F = P.get(n); F._build()
    scaled = {}
    for I in F.calls():
        m = I.callee
        if m not in P.fn or I.bb not in F.reach: continue
        c.count('calls_of_output_routines')
        if m in OUT: continue
        W = mr.get(m)[1]
        bv = set(I.d.get('byval') or [])
        args = {k for k in W if k[0] == 'A'}
        fld = {k[1] for k in W if k[0] == 'F'} - RECOMPUTED
        glob = {k[1] for k in W if k[0] == 'G'}
        c.require(not glob, 'global:%s:%s' % (n, m), '%s calls %s, which writes the globals %s' % (n, m, sorted(glob)), I.loc())
        for _, k in args:
            if k in bv or k >= len(I.ops): continue
            for q in leaves(F, F.addr(I.ops[k])):
                c.obl += 1
                if owned(F, q): continue
                f = [s[1] for s in q.steps if s[0] == 'f']
                if f and f[-1] in RECOMPUTED: continue
                if m == 'ArrayTimesScalar': scaled.setdefault((shown(q), repr(F.ex(I.ops[2])), F.rc(I.bb)), []).append((F.ex(I.ops[1]), I)); continue
                c.bad('changed:%s:%s' % (n, f[-1] if f else shown(q)), '%s lets %s overwrite %s' % (n, m, shown(q)), I.loc())
        if fld:
            for k, o in enumerate(I.ops):
                if o[0] not in ('v', 'a', 'g', 'gep') or (o[0] == 'v' and F.inst[o[1]].ty != 'ptr') or k in bv: continue
                for q in leaves(F, F.addr(o)):
                    c.obl += 1
                    if not owned(F, q) and ('A', k) in fieldroots(P, mr, m): c.bad('changed:%s:%s:%s' % (n, m, ','.join(sorted(fld))[:80]), '%s calls %s, which writes %s of %s' % (n, m, ', '.join(sorted(fld)), shown(q)), I.loc())
    for (q, ln, g), L in scaled.items():
        x = Poly.const(1)
        for f, I in L: x = x * f
        c.count('fields_scaled_and_scaled_back')
        c.require(x.is_const() and x.cval() == 1, 'factor:%s:%s' % (n, q), '%s leaves %s multiplied by %r' % (n, q, x), L[-1][1].loc())


def fieldroots(P, mr, m):
    """the pointer arguments through which a routine (or what it calls) writes named fields"""
    if not hasattr(mr, 'frt'): mr.frt = {}
    if m in mr.frt: return mr.frt[m]
    r = mr.frt[m] = set()
    F = P.fn.get(m)
    if F is None: return r
    F._build()
    for I in F.insts():
        if I.op == 'store':
            for q in leaves(F, F.addr(I.ops[1])):
                k = pkey(F, q, True)
                if k and k[0] == 'F' and k[1] in RECOMPUTED: continue
                if q.base[0] == 'arg' and any(s[0] == 'f' for s in q.steps): r.add(('A', q.base[1]))
        elif I.op == 'call' and I.callee in P.fn:
            w = mr.get(I.callee)[1]; sub = fieldroots(P, mr, I.callee)
            bv = set(I.d.get('byval') or [])
            for k, o in enumerate(I.ops):
                if (('A', k) in w or ('A', k) in sub) and k not in bv and o[0] in ('v', 'a'):
                    for q in leaves(F, F.addr(o)):
                        k2 = pkey(F, q, True)
                        if k2 and k2[0] == 'F' and k2[1] in RECOMPUTED: continue
                        if q.base[0] == 'arg' and (any(s[0] == 'f' for s in q.steps) or ('A', k) in sub): r.add(('A', q.base[1]))
    return r


def run(c):
    import frozen
    P = c.P; B = P.bdd
    if not hasattr(P, 'mr'): P.mr = ModRef(P)
    mr = P.mr
    jobs = []
    for n in OUT:
        if n not in P.fn: c.undecided.append('%s: function not found' % n); continue
        c.count('output_routines')
        routine(c, P, mr, n)
        jobs.append((n, frozen.Spec(n), None))
    for n, d in frozen.compute(P, jobs).items():
        if 'err' in d: c.undecided.append('%s: %s' % (n, d['err'])); continue
        c.obl += 1
        for k in d['v']:
            if re.match(r'(DoodzCalloc|DoodzMalloc|malloc|calloc)', k): continue
            f = re.findall(r'\.(\w+)', k.split('[')[0])
            if f and f[-1] in RECOMPUTED: continue
            c.bad('changed:%s:%s' % (n, k[:80]), '%s leaves %s changed: %s' % (n, k[:120], d['v'][k][:200]), d['loc'].get(k, d['floc']))
    # what output options decide
    for n in sorted(P.fn):
        if n in READER or n in OUT: continue
        F = P.fn[n]; F._build()
        if not any(I.op == 'load' and (lambda p: p.steps and p.steps[-1][0] == 'f' and OPTION.match(p.steps[-1][1]))(F.addr(I.ops[0])) for I in F.insts()): continue
        c.count('functions_reading_output_options')
        for I in F.insts():
            if I.bb not in F.reach: continue
            g = [x for x in B.support(F.rc(I.bb)) if OPTION.search(repr(x))] if I.op in ('store', 'call') else []
            if I.op == 'store':
                for q in leaves(F, F.addr(I.ops[1])):
                    c.obl += 1
                    v = repr(F.ex(I.ops[0])) if len(I.ops) else ''
                    if outside(F, q) and (g or OPTION.search(v)): c.bad('steered:%s:%s' % (n, shown(q)[:60]), '%s sets %s only under (or from) the output option %s' % (n, shown(q), cut(repr(g or v))), I.loc())
            elif I.op == 'call' and g and I.callee in P.fn:
                c.count('calls_under_output_options'); c.obl += 1
                if I.callee in OUT or I.callee in FREE or mr.effectfree(I.callee) or not mr.get(I.callee)[1]: continue
                for q, why in written(F, P, mr, I):
                    if outside(F, q): c.bad('steered:%s:%s' % (n, I.callee), '%s calls %s, which changes %s, only under the output option %s' % (n, I.callee, shown(q), cut(repr(g))), I.loc())
    c.floor('output_routines', 15); c.floor('functions_reading_output_options', 2); c.floor('calls_under_output_options', 8)


def cut(s): return s[:160]


def written(F, P, mr, I):
    W = mr.get(I.callee)[1]; sub = fieldroots(P, mr, I.callee); bv = set(I.d.get('byval') or [])
    for k, o in enumerate(I.ops):
        if k in bv or not (('A', k) in W or ('A', k) in sub): continue
        if o[0] not in ('v', 'a', 'g', 'gep'): continue
        for q in leaves(F, F.addr(o)): yield q, k
