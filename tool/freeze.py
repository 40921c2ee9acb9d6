"""freeze.py ID...: (re)generate the reference tables of a rule from the confirmed tree; run by hand only, reviewed and committed"""
import sys, os, threading, importlib
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + '/lib', H + '/rules', H]
sys.setrecursionlimit(40000); threading.stack_size(512 << 20)
def go():
    import build, specs, frozen
    P = build.load()
    for i in sys.argv[1:]:
        if os.path.exists(H + '/rules/%s.py' % i.lower()):
            m = importlib.import_module(i.lower())
            if hasattr(m, 'freeze'): m.freeze(P)
        if i in specs.FUNCS or i in specs.ALSO: frozen.freeze(i, P, specs.specs(i))
t = threading.Thread(target=go); t.start(); t.join()
