"""C03 input parameters: key -> default -> unit -> where it is stored, derived settings included"""
import json, os
from summ import *
from modref import ModRef

FN = 'ReadInputFile'
TAB = os.path.join(os.path.dirname(__file__), '..', 'data', 'input_table.json')
READERS = {'ReadInt2': (1, 2), 'ReadDou2': (1, 2), 'ReadChar': (1, 2), 'ReadPhaseDiagram': (1,), 'ReadMatProps': (1, 2, 3)}
KEEP = ('model', 'materials', 'Nmodel', 'particles', 'scaling', 'input')


def loader(n): return n.startswith('ReadData') or n in ('ScaleMe', 'AllocatePhaseDiagrams')


def analyse(P):
    """symbolic value of every configuration place at return, plus the routines that fill tables"""
    F = P.get(FN)
    if not hasattr(P, 'mr'): P.mr = ModRef(P)
    S = Summ(F, callargs=READERS, mr=P.mr)
    vals = {}
    for pl, v in S.env.items():
        if pl.base[0] == 'st' and pl.base[1] in KEEP: vals[show_pl(pl)] = repr(v)
    calls, cl = S.callmap(loader)
    keys = {}
    for n, I, g, r in S.calls:
        if n in READERS: keys.setdefault(repr(F.ex(I.ops[1])), []).append(n)
    return S, vals, calls, cl, keys


def freeze(P):
    S, vals, calls, cl, keys = analyse(P)
    json.dump({'places': vals, 'calls': calls, 'keys': sorted(keys)}, open(TAB, 'w'), indent=0, sort_keys=True)
    print(len(vals), len(calls), len(keys), sum(opaque(v) for v in vals.values()))


def run(c):
    ref = json.load(open(TAB))
    S, vals, calls, cl, keys = analyse(c.P)
    c.detail['configuration_places'] = len(vals); c.detail['reader_calls'] = sum(len(v) for v in keys.values()); c.detail['reference_rows'] = len(ref['places'])
    c.floor('configuration_places', 200); c.floor('reader_calls', 180)
    compare(c, ref['places'], vals, S.loc(), 'is set to', FN)
    compare_calls(c, ref['calls'], calls, cl, FN)
    for k in ref['keys']: c.require(k in keys, 'key:' + k, 'the input key %s is no longer read' % k, FN)
