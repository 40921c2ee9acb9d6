"""seedtest.py ID...: in a private /repo copy (user+mount namespace): demo on the unchanged tree, build + stable tests + demo with the patch; then run the property's check (CHECK=all: every check)"""
import os, sys, json, subprocess, shutil, concurrent.futures as cf
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(H + '/seeded'))
def one(i):
    w = '/tmp/st_' + i
    subprocess.run(['rm', '-rf', w]); os.makedirs(w)
    subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
    subprocess.run(['cp', '-a', H + '/seeded/' + i, w + '/seed'], check=True)
    m = json.load(open(H + '/seeded/%s/meta.json' % i))
    pids = m['property'] if os.environ.get('CHECK') != 'all' else '$(python3 -c "import registry;print(*registry.BY_ID)")'
    s = '''mount --bind %(w)s/repo /repo; cd /repo; bash %(w)s/seed/demo.sh > %(w)s/d0 2>&1; echo demo0=$?
git -c safe.directory=* apply %(w)s/seed/patch.diff || echo NOAPPLY
bash /opt/vp/build.sh > %(w)s/b 2>&1 || echo BUILDFAIL
bash /opt/vp/test.sh %(w)s/o.json 2>&1 | tail -1
bash %(w)s/seed/demo.sh > %(w)s/d1 2>&1; echo demo1=$?
''' % {'w': w}
    if os.environ.get('CHECK') != 'none':
        s += 'mkdir %s/v; cp -a %s/. %s/v/; cd %s/v; for p in %s; do python3 check.py $p > %s/c_$p 2>&1; echo check $p=$?; done\n' % (w, H, w, w, pids, w)
    r = subprocess.run(['unshare', '-Urm', 'bash', '-c', s], capture_output=True, text=True)
    v = ''
    for f in sorted(os.listdir(w)):
        if f.startswith('c_'):
            L = [x for x in open(w + '/' + f).read().splitlines() if 'VIOLATION' in x or 'UNDEC' in x]
            v += ' '.join(L[:1])[:200]
    out = i + ': ' + ' | '.join(r.stdout.split('\n')) + v + (('\nD0:' + open(w + '/d0').read()[-300:]) if 'demo0=0' not in r.stdout else '') + ('  D1:' + open(w + '/d1').read()[-150:].strip().replace('\n', ' / ')) + r.stderr[-300:]
    if not os.environ.get('KEEP'): subprocess.run(['rm', '-rf', w])
    return out
with cf.ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for o in ex.map(one, ids): print(o, flush=True)
