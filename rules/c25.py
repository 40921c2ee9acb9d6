"""C25 a run is a function of its input: clock, random, environment and address values stay out of the results"""
from ir import *

CLOCK = {'clock', 'time', 'omp_get_wtime', 'gettimeofday', 'clock_gettime', 'getpid', 'getenv', 'secure_getenv', 'gethostname', 'getrusage', 'times', 'ftime', 'localtime', 'gmtime', 'ctime', 'rdtsc', 'omp_get_wtick', 'getuid', 'getcwd', 'random', 'drand48', 'rand_r', 'lrand48', 'arc4random', 'getrandom', 'timespec_get'}
SEED = {'srand', 'srandom', 'srand48', 'initstate', 'seed48'}
SINK = {'printf', 'fprintf', 'puts', 'fputs', 'perror', 'fflush', 'DoodzFree', 'free'}
ARITH = {'fsub', 'fadd', 'fmul', 'fdiv', 'sub', 'add', 'mul', 'sdiv', 'udiv', 'fneg', 'phi', 'select', 'freeze', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'srem', 'urem', 'frem', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'trunc', 'zext', 'sext'}
STDOUT = ('stdout', 'stderr')


def run(c):
    P = c.P
    for fn in sorted(P.fn):
        F = P.fn[fn]; F._build()
        for I in F.calls():
            if I.bb not in F.reach: continue
            n = I.callee or ''
            if n in SEED:
                c.count('seeds')
                c.require(F.ex(I.ops[0]).is_const(), 'seed:%s' % fn, '%s seeds the random numbers with a value that is not fixed' % fn, I.loc())
            if n in CLOCK:
                c.count('clock_reads')
                trace(c, F, fn, n, I)
        for I in F.insts():
            if I.op == 'ptrtoint' and I.bb in F.reach:
                c.count('addresses_as_numbers')
                # differences of two addresses are fine, a single one is not
                ok = all(U.op in ('icmp', 'sub') for U in F.uses.get(I.id, ()))
                c.require(ok, 'address:%s' % fn, '%s uses the address of a block as a number' % fn, I.loc())
            if I.op in ('load', 'store') and I.op == 'load' and F.addr(I.ops[0]).base[0] == 'glob':
                c.count('global_reads')
    c.floor('clock_reads', 20)


def trace(c, F, fn, n, I0):
    """the value may only be subtracted, scaled and printed"""
    seen = {I0.id}; w = [I0]
    while w:
        I = w.pop()
        for U in F.uses.get(I.id, ()):
            if U.op in ARITH or U.op in CASTS:
                if U.id not in seen: seen.add(U.id); w.append(U)
            elif U.op == 'call' and ((U.callee or '') in SINK or (U.callee or '').startswith('llvm.dbg') or (U.callee or '').startswith('llvm.lifetime')): c.count('printed')
            elif U.op == 'call' and (U.callee or '').startswith('llvm.') :
                if U.id not in seen: seen.add(U.id); w.append(U)
            elif U.op == 'store' and U.ops[0] == ['v', I.id] and F.addr(U.ops[1]).base[0] == 'alloca':
                # a local that could not be kept in a register: its readers
                b = F.addr(U.ops[1]).base
                for J in F.insts():
                    if J.op == 'load' and F.addr(J.ops[0]).base == b and J.id not in seen: seen.add(J.id); w.append(J)
            else:
                c.require(False, 'clock:%s:%s' % (fn, n), '%s: the value of %s reaches %s' % (fn, n, U.op if U.op != 'call' else U.callee), U.loc())
        c.obl += 1
