"""C09 a run that cannot continue says so: exit statuses, streams that could not be opened (the conditions of every fatal exit: effect tables)"""
import re
from ir import *

STREAM = {'fread': 3, 'fwrite': 3, 'fgets': 2, 'fgetc': 0, 'fclose': 0, 'fseek': 0, 'rewind': 0, 'feof': 0, 'ftell': 0, 'fprintf': 0, 'fputs': 1, 'fscanf': 0, '__isoc99_fscanf': 0, 'getc': 0, 'ungetc': 1, 'fflush': 0, 'pclose': 0}
OPEN = {'fopen', 'fopen64', 'fdopen', 'freopen'}


def streams(F):
    """SSA values holding a stream opened in this function: id -> opening call"""
    o = {I.id: {I.id} for I in F.calls() if I.callee in OPEN}
    ch = True
    while ch:
        ch = False
        for I in F.insts():
            if I.op in ('phi', 'select', 'freeze') or I.op in CASTS:
                src = [x[0] for x in I.ops] if I.op == 'phi' else I.ops
                s = set()
                for x in src:
                    if x[0] == 'v': s |= o.get(x[1], set())
                if s - o.get(I.id, set()): o.setdefault(I.id, set()).update(s); ch = True
    return o


def unopened(F, B, O, uses):
    """uses of the stream opened by O that some path reaches although O failed"""
    v = B.var(('eq0', normsign(F.ex(['v', O.id]))))
    name = next(iter(B.support(v)), None)
    bad = []; seen = set(); w = [(O.bb, O.id)]
    while w:
        b, frm = w.pop()
        stop = False
        for I in F.blocks[b]:
            if frm is not None:
                if I.id == frm: frm = None
                continue
            if I.op == 'call':
                if I.callee in NORETURN or I is O: stop = True; break
                if I.id in uses: bad.append(I)
        if stop: continue
        for t in F.succ[b]:
            if t in seen: continue
            c = F.edge_cond(b, t)
            if name is not None: c = B.restrict(c, name, 1)
            if c is B.FALSE: continue
            seen.add(t); w.append((t, None))
    return bad


def run(c):
    P = c.P; B = P.bdd
    for fn in sorted(P.fn):
        F = P.fn[fn]; F._build()
        o = streams(F)
        for I in F.calls():
            if I.bb not in F.reach: continue
            if I.callee == 'exit':
                x = F.ex(I.ops[0]); c.count('exits')
                c.require(x.is_const() and int(x.cval()) % 256 != 0, 'status:%s' % fn, '%s ends the run with exit(%r), which the caller reads as success' % (fn, x), I.loc())
            if I.callee in ('_exit', '_Exit', 'quick_exit', 'longjmp', 'raise', 'signal', 'atexit'): c.require(False, 'exit:%s:%s' % (fn, I.callee), '%s calls %s' % (fn, I.callee), I.loc())
        ops = {}
        for I in F.calls():
            if I.callee in STREAM and o and I.bb in F.reach:
                k = STREAM[I.callee]
                if k < len(I.ops) and I.ops[k][0] == 'v' and I.ops[k][1] in o:
                    c.count('stream_uses'); c.obl += 1
                    for q in o[I.ops[k][1]]: ops.setdefault(q, set()).add(I.id)
        for I in F.calls():
            if I.callee in OPEN and I.bb in F.reach:
                c.count('opens')
                for U in unopened(F, B, I, ops.get(I.id, ())):
                    c.bad('stream:%s:%s' % (fn, U.callee), '%s calls %s on a stream that may not have been opened' % (fn, U.callee), U.loc())
    c.floor('exits', 60); c.floor('opens', 6); c.floor('stream_uses', 100)
