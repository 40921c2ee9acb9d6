"""C02 crash safety of checkpoint pruning: at no instant is the last complete checkpoint gone"""
from ir import *
from effects import *

KILL = {'remove': [0], 'unlink': [0], 'rename': [0, 1], 'truncate': [0]}
PRUNE, WRITE = 'DeletePreviousBreakpoint', 'MakeBreakpointParticles'


def age(F, s):
    """resolved file name -> how many output intervals old the checkpoint is (Fraction), or None when it is not a per-step checkpoint"""
    if not s or s[0] != 'fmt' or 'Breakpoint' not in s[1] or len(s[2]) != 1: return None
    a = s[2][0]
    st, ws = Poly.atom(('arg', 0, 'step')), Poly.atom(('arg', 1, 'writer_step'))
    d = (st - a) / ws
    return d.cval() if d.is_const() else None


def run(c):
    P = c.P
    D = name_args(P.get(PRUNE), ['step', 'writer_step'])
    M = P.get('RunMDOODZ'); W = P.get(WRITE)
    mk = list(M.calls(WRITE)); dl = list(M.calls(PRUNE))
    if not mk: raise AnalysisError('the driver no longer writes checkpoints')
    # does pruning run before the new checkpoint is complete? (within one step: prune reaches write without passing the loop back edge)
    before = any(M.rpoi[d.bb] < M.rpoi[m.bb] or (d.bb == m.bb and d.pos < m.pos) for d in dl for m in mk)
    need = 2 if before else 1
    c.detail['prune_before_write'] = int(before)
    for d in dl:
        c.count('prune_calls')
        a, b = M.ex(d.ops[0]), M.ex(d.ops[1])
        c.require(repr(a).endswith('.model.step') and repr(b).endswith('.model.writer_step'), 'args', 'pruning is called with (%r, %r) instead of the current step and the output interval' % (a, b), d.loc())
    # victims inside the pruning routine
    def victim(F, I, s, what, role):
        c.count('victims')
        k = age(F, s)
        if k is None: raise AnalysisError('%s: cannot resolve the file name given to %s' % (I.loc(), what))
        if role == 'target':
            c.require(k == 0 or k >= need, 'target', '%s overwrites the checkpoint made %s outputs ago' % (what, k), I.loc())
        else:
            c.require(k >= need, 'victim', '%s takes away the checkpoint made %s output(s) ago while the new one is not complete yet' % (what, k), I.loc())
        c.sample('%s: %s %s outputs old' % (I.loc(), role, k))
    for F in P.fn.values():
        F._build()
        for I in F.calls('system', *KILL):
            c.count('destructive_calls')
            if F is not D:
                s = [resolve_str(F, o) for o in I.ops]
                lits = ' '.join(x[1] for x in s if x)
                if I.callee == 'system' or 'Breakpoint' in lits:
                    if not all(x and 'Breakpoint' not in str(x) for x in s):
                        c.bad('outsider:%s' % F.name, '%s may delete or rename checkpoint files outside the pruning routine' % F.name, I.loc())
                continue
            if I.callee == 'system':
                s = resolve_str(F, I.ops[0])
                if not s: raise AnalysisError('%s: cannot resolve the shell command' % I.loc())
                words = s[1].split()
                args = list(s[2]) if s[0] == 'fmt' else []
                names = [w for w in words[1:] if not w.startswith('-')]
                files = []
                for w in names:
                    if w.startswith('%'): files.append(args.pop(0) if w == '%s' and args else None)
                    elif 'Breakpoint' in w: files.append(('fmt', w, [args.pop(0)] if '%' in w and args else []))
                    else: files.append(None)
                if words[0] in ('mv',):
                    victim(F, I, files[0], 'mv', 'victim'); victim(F, I, files[1], 'mv', 'target')
                elif words[0] in ('rm', 'unlink', 'del'):
                    for f in files: victim(F, I, f, words[0], 'victim')
                elif words[0] == 'cp': victim(F, I, files[-1], 'cp', 'target')
                else: raise AnalysisError('%s: unknown shell command %s' % (I.loc(), words[0]))
            else:
                for n, k in enumerate(KILL[I.callee]):
                    victim(F, I, resolve_str(F, I.ops[k]), I.callee, 'target' if n == 1 else 'victim')
    # the writer itself opens only the current step's file (or the single rolling file the user asked for)
    name_args(W, ['particles', 'mesh', 'topo_chain', 'topo_chain_ini', 'model'])
    step = "model.step"
    for I in W.calls('asprintf', 'sprintf', 'snprintf'):
        d, k = FMTCALLS[I.callee]
        f = resolve_str(W, I.ops[k])
        if f and f[0] == 'lit' and '%' in f[1]:
            a = [W.ex(o) for o in I.ops[k + 1:]]
            c.count('names_written')
            c.require(len(a) == 1 and repr(a[0]) == step, 'wname', 'the checkpoint of a step is written under the number %r: an older checkpoint can be overwritten' % (a,), I.loc())
    # every opened stream is closed on every path to a return
    for F in (W,):
        for I in F.calls('fopen'):
            c.count('streams')
            closes = list(F.calls('fclose'))
            ok = all(must_pass(F, I, [x.bb for x in closes if F.addr(x.ops[0]) == F.addr(['v', I.id])]) for _ in (0,))
            c.require(ok, 'close', 'the checkpoint stream is not closed on every path: buffered data can be lost', I.loc())
    c.floor('victims', 2); c.floor('destructive_calls', 1); c.floor('streams', 1); c.floor('names_written', 1)


def must_pass(F, I, blocks):
    """every path from I to a return passes a block of `blocks` (error exits ignored)"""
    dead = F.dead()
    seen = set(); w = [I.bb]
    while w:
        b = w.pop()
        if b in seen or b in dead: continue
        seen.add(b)
        if b in blocks and b != I.bb: continue
        if F.blocks[b][-1].op == 'ret': return False
        w.extend(F.succ[b])
    return True
