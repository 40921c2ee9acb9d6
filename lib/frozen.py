"""conformance of functions' canonical effect summaries with reviewed reference tables (data/eff_<id>.json)"""
import json, os, re, sys
from summ import *

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'data')


def state(pl):
    """places outside the function: through arguments, globals, returned structs; not its own locals or scratch arrays"""
    return pl.base[0] in ('st', 'glob')


class Spec:
    """fn: function; keep(place)->bool; calls(name)->bool; ret: compare the return value; strict: no further writes"""
    def __init__(s, fn, keep=None, calls=None, ret=False, strict=True, callargs=None, skip=(), prune=None, ordered=True):
        s.ordered = ordered; s.fn = fn; s.keep = keep or state; s.calls = calls or (lambda n: False); s.ret = ret; s.strict = strict; s.callargs = callargs; s.skip = set(skip); s.prune = prune

    def keepname(s, k): return not re.match(r'(DoodzCalloc|DoodzMalloc|malloc|calloc|\[|double|i32|i8|ptr|float)', k)


def summary(P, sp, args=None):
    F = P.get(sp.fn)
    if not hasattr(P, 'mr'):
        from modref import ModRef
        P.mr = ModRef(P)
    calls = lambda n: sp.calls(n) and not P.mr.effectfree(n)
    S = Summ(F, args=args, mr=P.mr, callargs=sp.callargs, skipcall=lambda n: not calls(n), prune=sp.prune)
    v = {vkey(show_pl(pl), 400): vkey(repr(x)) for pl, x in S.env.items() if sp.keep(pl) and repr(x) != show_pl(pl)}
    v.update({vkey(k, 400): vkey(repr(x)) for k, x in S.pre.items() if sp.keepname(k)})
    loc = {vkey(show_pl(p), 400): l for p, l in S.locs.items()}
    cm, cl = S.callmap(calls)
    gv = S.givenmap(calls)
    v.update({vkey(k, 400): vkey(x) for k, x in gv.items()})
    for k, x, l in scratch(S, sp, cm, gv): v[vkey(k, 400)] = vkey(x); loc[vkey(k, 400)] = l
    return S, v, loc, {vkey(k): vkey(x) for k, x in cm.items()}, {vkey(k): x for k, x in cl.items()}, (vkey(S.retval()) if sp.ret else None)


def scratch(S, sp, cm, gv):
    """contents of local work arrays that the results above are expressed in (read back in another pattern than they were written)"""
    todo = [repr(x) for pl, x in S.env.items() if sp.keep(pl)] + [repr(x) for k, x in S.pre.items() if sp.keepname(k)] + list(cm) + list(cm.values()) + list(gv.values())
    if sp.ret: todo.append(S.retval())
    loc = {}
    for pl in S.env:
        if pl.base[0] == 'loc' and not pl.steps and not S.readbycall(pl.base): continue
        if pl.base[0] in ('heap', 'loc', 'lst') and not sp.keep(pl): loc.setdefault(pl.base, []).append(pl)
    pre = [(k, repr(x)) for k, x in S.pre.items() if not sp.keepname(k)]
    out = []
    while loc and todo:
        T = todo; todo = []
        for b in list(loc):
            nm = str(b[1])
            if not any(textmentions(t, nm + '[') or textmentions(t, nm + '{') for t in T): continue
            for pl in loc.pop(b):
                k, x = show_pl(pl), repr(S.env[pl])
                if x != k: out.append((k, x, S.locs.get(pl))); todo.append(x)
            for k, x in pre:
                if k.startswith((nm + '[', nm + '{', nm + ' @')): out.append((k, x, None)); todo.append(x)
    return out


def pairs(S, sp, cm):
    ix = {k: i for i, k in enumerate(sorted(cm))}
    return sorted([ix[a], ix[b]] for a, b in {(vkey(a), vkey(b)) for a, b in S.order(sp.calls)} if a in ix and b in ix)


def table(pid): return os.path.join(DATA, 'eff_%s.json' % pid.lower())


def child(P, sp, args, path):
    try:
        S, v, loc, cm, cl, r = summary(P, sp, args)
        cur = sorted({(vkey(a), vkey(b)) for a, b in S.order(sp.calls)}) if sp.ordered else []
        F = P.get(sp.fn)
        d = {'args': [F.argname(i) for i in range(len(F.args))], 'v': v, 'loc': loc, 'cm': cm, 'cl': cl, 'r': r, 'cur': cur, 'o': pairs(S, sp, cm) if sp.ordered else [], 'floc': F.loc()}
    except AnalysisError as e: d = {'err': str(e)[:300]}
    except MemoryError: d = {'err': 'out of memory'}
    except RecursionError: d = {'err': 'recursion too deep'}
    with open(path, 'w') as f: json.dump(d, f)


def compute(P, jobs, limit=400, width=8):
    """effect summaries of jobs [(key, Spec, args)] in forked workers -> {key: dict}; a worker that runs out of time is reported as 'err'"""
    import tempfile, time, shutil, resource, traceback
    if not hasattr(P, 'mr'):
        from modref import ModRef
        P.mr = ModRef(P)
    for n in P.fn: P.mr.get(n)
    D = tempfile.mkdtemp(prefix='verif_'); live = {}; out = {}

    def reap(block):
        while True:
            for pid, (k, t) in list(live.items()):
                r, _ = os.waitpid(pid, os.WNOHANG)
                if r: del live[pid]
                elif time.time() - t > limit: os.kill(pid, 9); os.waitpid(pid, 0); del live[pid]
            if (block and live) or len(live) >= width: time.sleep(.01)
            else: return
    try:
        order = sorted(range(len(jobs)), key=lambda i: (SLOW.index(jobs[i][1].fn) if jobs[i][1].fn in SLOW else 99))
        for i in order:
            k, sp, args = jobs[i]
            reap(False)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    child(P, sp, args, D + '/%d' % i)
                except BaseException: traceback.print_exc()
                finally: os._exit(0)
            live[pid] = (k, time.time())
        reap(True)
        for i, (k, sp, args) in enumerate(jobs):
            p = D + '/%d' % i
            try: out[k] = json.load(open(p))
            except Exception: out[k] = {'err': 'no result within %d s' % limit}
    finally: shutil.rmtree(D, ignore_errors=True)
    return out


SLOW = ['RunMDOODZ', 'ViscosityConciseAniso', 'ViscosityConcise', 'GenerateDeformationMaps', 'LocalIterationViscoElasticGrainSize', 'P2Mastah', 'Interp_Grid2P_strain']


def freeze(pid, P, specs):
    out = {}; tot = op = 0
    res = compute(P, [(sp.fn, sp, None) for sp in specs])
    for sp in specs:
        d = res[sp.fn]
        if 'err' in d: print('  %s: NOT ANALYSABLE: %s' % (sp.fn, d['err'])); continue
        v, cm, r = d['v'], d['cm'], d['r']
        o = [k for k in v if opaque(k) or opaque(v[k])] + [k for k in cm if opaque(k) or opaque(cm[k])]
        if os.environ.get('SHOWOPAQUE'):
            for k in o: print('  opaque', sp.fn, k[:150])
        tot += len(v) + len(cm); op += len(o)
        ix = sorted(cm)
        po = [[ix[a], ix[b]] for a, b in d['o']]
        for k in o: v.pop(k, None); cm.pop(k, None)
        if r is not None and opaque(r): r = None; op += 1
        ix = {k: i for i, k in enumerate(sorted(cm))}
        po = [[ix[a], ix[b]] for a, b in po if a in ix and b in ix]
        out[sp.fn] = {'args': d['args'], 'v': v, 'c': cm, 'r': r, 'opaque': len(o), 'o': po}
        if o: print('  %s: %d of %d rows not resolvable' % (sp.fn, len(o), len(v) + len(cm)))
    with open(table(pid), 'w') as f:
        f.write(re.sub(r'\n(?=[\d\[\]], ?|\d|\])', '', json.dumps(out, indent=0, sort_keys=True)))
    print(pid, len(out), 'of', len(specs), 'functions', tot, 'rows', op, 'not resolvable (left out)', os.path.getsize(table(pid)) >> 10, 'kB')


def run(c, pid, specs, what='is set to'):
    ref = json.load(open(table(pid)))
    jobs = []
    for sp in specs:
        r = ref.get(sp.fn)
        if r is None: continue
        c.count('functions_specified')
        if sp.fn not in c.P.fn: c.undecided.append('%s: function not found' % sp.fn); continue
        F = c.P.get(sp.fn)
        if len(F.args) != len(r['args']): c.undecided.append('%s: signature changed' % sp.fn); continue
        jobs.append((sp.fn, sp, r['args']))
    res = compute(c.P, jobs)
    for fn, sp, args in jobs:
        d = res[fn]; r = ref[fn]
        if 'err' in d: c.undecided.append('%s: %s' % (fn, d['err'])); continue
        v, loc, cm, cl, rv = d['v'], d['loc'], d['cm'], d['cl'], d['r']
        c.count('functions'); c.count('effects', len(v)); c.count('calls', len(cm))
        ex = r['opaque'] > 0
        compare(c, r['v'], v, loc, what, fn, strict=sp.strict and not ex)
        compare_calls(c, r['c'], cm, cl, fn)
        if sp.strict and not ex:
            for k in cm:
                if k not in r['c'] and not opaque(k): c.require(False, 'extracall:%s:%s' % (fn, k), '%s additionally performs %s' % (fn, cut(k)), cl.get(k, fn))
        if r['o']:
            cur = {tuple(x) for x in d['cur']}
            names = sorted(r['c'])
            for a, b in r['o']:
                a, b = names[a], names[b]
                if a in cm and b in cm:
                    c.count('ordered_pairs')
                    c.require((a, b) in cur, 'order:%s:%s<%s' % (fn, a, b), '%s: %s no longer comes before %s although one uses what the other writes' % (fn, cut(a, 160), cut(b, 160)), cl.get(b, fn))
        if r['r'] is not None:
            if rv != r['r'] and opaque(rv): c.undecided.append(fn + ':return')
            else: c.require(rv == r['r'], 'return:' + fn, '%s returns %s; specified: %s' % (fn, cut(rv), cut(r['r'])), d['floc'])
    c.floor('functions', max(1, len(jobs) // 2))
