#!/usr/bin/env python3
"""check.py ID : decide one property on /repo's current sources (static analysis only).
exit 0 held / 1 violated (+ VIOLATION line) / 2 the analysis could not decide (never used on the unchanged tree)"""
import sys, os, json, time, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib')); sys.path.insert(0, os.path.join(HERE, 'rules')); sys.path.insert(0, HERE)
sys.setrecursionlimit(40000)
import threading
threading.stack_size(512 << 20)


class Ctx:
    def __init__(s, pid):
        s.pid = pid; s.viol = []; s.obl = 0; s.detail = {}; s.samples = []; s._p = {}; s.notes = []; s.undecided = []

    @property
    def P(s): return s.prog(False)

    @property
    def OMP(s): return s.prog(True)

    def prog(s, omp, extra=()):
        k = (omp, tuple(extra))
        if k not in s._p:
            import build
            s._p[k] = build.load(omp, extra)
        return s._p[k]

    def ok(s, n=1): s.obl += n

    def require(s, cond, key, msg, loc=''):
        """one proof obligation; key identifies the violating construct (stable across line shifts)"""
        s.obl += 1
        if not cond: s.bad(key, msg, loc)
        return cond

    def bad(s, key, msg, loc=''):
        s.viol.append({'key': key, 'loc': loc, 'msg': msg})

    def count(s, k, n=1): s.detail[k] = s.detail.get(k, 0) + n

    def floor(s, k, n):
        """vacuity guard: the number of analysed constructs may not collapse"""
        if s.detail.get(k, 0) < n:
            from ir import AnalysisError
            raise AnalysisError('only %d instances of "%s" analysed, at least %d confirmed by hand' % (s.detail.get(k, 0), k, n))

    def sample(s, x):
        if len(s.samples) < 12: s.samples.append(x)


def main(pid):
    from ir import AnalysisError
    t0 = time.time()
    import registry
    reg = registry.BY_ID[pid]
    c = Ctx(pid)
    err = None
    try:
        if os.path.exists(os.path.join(HERE, 'rules', pid.lower() + '.py')): importlib.import_module(pid.lower()).run(c)
        import specs, frozen
        if pid in specs.FUNCS or pid in specs.ALSO: frozen.run(c, pid, specs.specs(pid))
    except AnalysisError as e: err = str(e)
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf): known = [k for k in json.load(open(kf))['findings'] if k['property'] == pid and k.get('status') == 'known']
    kk = {k['key']: k for k in known}
    seen = set(); new = []
    for v in c.viol:
        if v['key'] in kk:
            if v['key'] not in seen: print('KNOWN-FINDING: property=%s %s' % (pid, kk[v['key']]['what'])); seen.add(v['key'])
        else: new.append(v)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    nob = max(c.obl, 1)
    ev = {'property': pid, 'tier': os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
          'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': reg.get('level', 'other'),
          'coverage': {'explanation': reg['rule'], 'obligations': c.obl, 'discharged': c.obl - len(c.viol), 'analysed': c.detail, 'samples': c.samples,
                       'undecided': c.undecided[:50], 'functions_in_program': len(c._p and list(c._p.values())[0].fn or {}),
                       'units': sorted({u for p in c._p.values() for u in p.units}), 'helpers_folded_in': sorted({u for p in c._p.values() for u in p.inlined})},
          'assumptions': reg.get('assumptions', []), 'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    if err: ev['coverage']['error'] = err
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    rp = os.path.join(HERE, 'evidence', pid + '.violations.json')
    if new:
        json.dump(new, open(rp, 'w'), indent=1)
        for v in new[:40]: print('%s: %s: [%s] %s' % (pid, v['loc'] or '-', v['key'], v['msg']))
        if len(new) > 40: print('... %d more' % (len(new) - 40))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if os.path.exists(rp): os.remove(rp)
    if err:
        print('%s: ANALYSIS ERROR: %s' % (pid, err)); return 2
    print('%s: held; %d obligations; %s' % (pid, c.obl, ', '.join('%s=%s' % kv for kv in c.detail.items())))
    return 0


if __name__ == '__main__':
    rc = [2]
    def go():
        try: rc[0] = main(sys.argv[1])
        except BaseException:
            traceback.print_exc(); rc[0] = 2
    t = threading.Thread(target=go); t.start(); t.join()
    sys.stdout.flush()
    os._exit(rc[0])
