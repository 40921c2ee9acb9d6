"""compile /repo's MDLIB to LLVM bitcode (never executed) and load the SSA program"""
import os, re, subprocess, tempfile, shutil, sys
from concurrent.futures import ThreadPoolExecutor
from ir import Program, AnalysisError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def sources():
    p = os.path.join(REPO, 'MDLIB', 'CMakeLists.txt')
    try: txt = open(p).read()
    except OSError as e: raise AnalysisError(str(e))
    m = re.search(r'add_library\s*\(\s*mdoodz\b(.*?)\)', txt, re.S)
    if not m: raise AnalysisError('no add_library(mdoodz ...) in MDLIB/CMakeLists.txt')
    return [x for x in m.group(1).split() if x.endswith('.c')]


FLAGS = ['-w', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names', '-std=gnu11', '-DNPARTITION', '-I' + os.path.join(HERE, 'stub'),
         '-I/usr/include/suitesparse', '-I/usr/include/hdf5/serial', '-IMDLIB/include', '-emit-llvm', '-c']


def tool():
    t = os.path.join(HERE, 'build', 'irfacts')
    src = os.path.join(HERE, 'tool', 'irfacts.cpp')
    if not os.path.exists(t) or os.path.getmtime(t) < os.path.getmtime(src):
        r = subprocess.run(['bash', os.path.join(HERE, 'tool', 'build.sh')], capture_output=True, text=True)
        if r.returncode: raise AnalysisError('cannot build irfacts: ' + r.stderr[-400:])
    return t


def load(omp=False, extra=(), keep=True):
    """returns (Program, info)"""
    t = tool()
    srcs = ['MDLIB/' + f for f in sources()] + list(extra)
    d = tempfile.mkdtemp(prefix='vfir.')
    try:
        def one(a):
            i, f = a
            o = os.path.join(d, '%02d.bc' % i)
            r = subprocess.run(['clang'] + FLAGS + (['-fopenmp', '-D_OMP_'] if omp else []) + [f, '-o', o], cwd=REPO, capture_output=True, text=True)
            if r.returncode: raise AnalysisError('%s does not compile: %s' % (f, r.stderr[-400:]))
            return o
        with ThreadPoolExecutor(8) as ex: bc = list(ex.map(one, enumerate(srcs)))
        j = os.path.join(d, 'p.json')
        r = subprocess.run([t, '-o', j] + (['-keep', os.path.join(HERE, 'data', 'functions.txt')] if keep else []) + bc, capture_output=True, text=True)
        if r.returncode: raise AnalysisError('irfacts failed: ' + r.stderr[-400:])
        P = Program(j)
        P.inlined = sorted(x.split()[1] for x in r.stderr.splitlines() if x.startswith('INLINE'))
        P.tables = sorted(x.split()[1] for x in r.stderr.splitlines() if x.startswith('TABLE'))
        P.units = srcs
        return P
    finally: shutil.rmtree(d, ignore_errors=True)
