"""dumpall.py OUT.json [names...]: effect summaries of every function (developer tool: used to measure how stable the canonical form is under refactorings)"""
import sys, os, time, json, threading
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + '/lib', H + '/rules', H]
sys.setrecursionlimit(40000); threading.stack_size(512 << 20)
import build
from frozen import *
P = build.load()
from modref import ModRef
P.mr = ModRef(P)
for n in P.fn: P.mr.get(n)
names = sys.argv[2:] or [n for n in P.fn]
import tempfile
D = tempfile.mkdtemp()
def child(n):
    try:
        sp = Spec(n, calls=lambda x: x not in ALLOC, ret=True); S, v, loc, cm, cl, r = summary(P, sp); json.dump({'v': v, 'c': cm, 'r': r, 'o': pairs(S, sp, cm)}, open(D + '/' + n, 'w'))
    except Exception as e: json.dump({'err': repr(e)}, open(D + '/' + n, 'w'))
live = {}
def reap(block):
    while True:
        for pid, (n, t) in list(live.items()):
            r, _ = os.waitpid(pid, os.WNOHANG)
            if r:
                del live[pid]
                if time.time() - t > 6: print('%.0fs' % (time.time() - t), n)
            elif time.time() - t > 300: os.kill(pid, 9); os.waitpid(pid, 0); del live[pid]; print('TIMEOUT', n)
        if (block and live) or len(live) >= 8: time.sleep(.02)
        else: return
for n in names:
    reap(False); sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        t = threading.Thread(target=child, args=(n,)); t.start(); t.join(); os._exit(0)
    live[pid] = (n, time.time())
reap(True)
json.dump({n: json.load(open(D + '/' + n)) for n in names if os.path.exists(D + '/' + n)}, open(sys.argv[1], 'w'), indent=0, sort_keys=True)
import shutil; shutil.rmtree(D)
