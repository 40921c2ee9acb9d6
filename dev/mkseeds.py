"""mkseeds.py: writes seeded/<id>/ (patch.diff, demo.sh, demo.c, meta.json) from the specs in dev/seedspecs.py (developer tool)"""
import os, sys, json, subprocess, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/dev')
import seedspecs
SH = '''#!/bin/bash
# exit 0: behaviour as specified; non-zero: broken
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d /tmp/seed.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
gcc -w -O0 -std=gnu11 -I"$R/MDLIB" -I"$R/MDLIB/include" -I/usr/include/suitesparse -I/usr/include/hdf5/serial "$D/demo.c" -o "$W/demo" "$R/cmake-build/MDLIB/libmdoodz.so" -Wl,-rpath,"$R/cmake-build/MDLIB" -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 -lcholmod -lcxsparse -lm || exit 2
cd "$W" && timeout 250 ./demo > out.txt 2>&1
rc=$?
tail -3 out.txt
exit $rc
'''
# the library built with threads
OMP = SH.replace('export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\n', """export OPENBLAS_NUM_THREADS=1
F="-w -O1 -std=gnu11 -fopenmp -D_OMP_ -I$R/MDLIB -I$R/MDLIB/include -I/usr/include/suitesparse -I/usr/include/hdf5/serial"
for f in $(sed -n '/add_library/,/)/s/^ *\\([A-Za-z0-9_]*\\.c\\).*/\\1/p' "$R/MDLIB/CMakeLists.txt"); do gcc $F -c "$R/MDLIB/$f" -o "$W/$f.o" & done; wait
""").replace('gcc -w -O0 -std=gnu11 -I"$R/MDLIB" -I"$R/MDLIB/include" -I/usr/include/suitesparse -I/usr/include/hdf5/serial "$D/demo.c"', 'gcc $F "$D/demo.c"').replace('"$R/cmake-build/MDLIB/libmdoodz.so" -Wl,-rpath,"$R/cmake-build/MDLIB"', '"$W"/*.o').replace('-lcholmod', '-lcholmod -lumfpack -lamd -lcolamd -lsuitesparseconfig -llapack -lblas')
only = sys.argv[1:]
for s in seedspecs.SEEDS:
    if only and s['id'] not in only: continue
    d = H + '/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='mk_')
    files = sorted({e[0] for e in s['edits']})
    for f in files:
        for side in 'ab':
            os.makedirs(os.path.dirname('%s/%s/%s' % (t, side, f)), exist_ok=True)
            shutil.copy('/repo/' + f, '%s/%s/%s' % (t, side, f))
    for f, a, b in s['edits']:
        p = t + '/b/' + f; x = open(p).read()
        assert x.count(a) == 1, (s['id'], f, a, x.count(a))
        open(p, 'w').write(x.replace(a, b))
    r = subprocess.run(['diff', '-u', '-r', 'a', 'b'], cwd=t, capture_output=True, text=True).stdout
    out = []
    for l in r.splitlines():
        if l.startswith('diff '): continue
        if l.startswith('--- ') or l.startswith('+++ '): l = l.split('\t')[0]
        out.append(l)
    open(d + '/patch.diff', 'w').write('\n'.join(out) + '\n')
    open(d + '/demo.c', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(OMP if s.get('omp') else SH); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(t)
    print(s['id'])
