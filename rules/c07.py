"""C07 flow laws: which database entry is read for which phase (the entries themselves: effect tables)"""
import json
from summ import *
import c03


def run(c):
    ref = json.load(open(c03.TAB))
    S, vals, calls, cl, keys = c03.analyse(c.P)
    mine = lambda d: {k: v for k, v in d.items() if k.startswith('ReadData')}
    c.count('database_reads', len(mine(calls)))
    compare_calls(c, mine(ref['calls']), mine(calls), cl, 'ReadInputFile')
    c.require(bool(mine(calls)), 'reads', 'no database entry is read any more', 'ReadInputFile')
