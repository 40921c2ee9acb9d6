"""C04 unit scaling: exponents of (eta, L, V, T) in every derived scale; unit factor of every input that is stored scaled"""
import json, re
from fractions import Fraction
from summ import *
import c03

# kg m s K exponents of the base scales and of what is derived from them
BASE = {'eta': (1, -1, -1, 0), 'L': (0, 1, 0, 0), 'V': (0, 1, -1, 0), 'T': (0, 0, 0, 1)}
DIM = {'t': (0, 0, 1, 0), 'a': (0, 1, -2, 0), 'E': (0, 0, -1, 0), 'S': (1, -1, -2, 0), 'm': (1, 0, 0, 0), 'rho': (1, -3, 0, 0), 'F': (1, 1, -2, 0),
       'J': (1, 2, -2, 0), 'W': (1, 2, -3, 0), 'Cp': (0, 2, -2, -1), 'k': (1, 1, -3, -1), 'rhoE': (1, -1, -2, 0)}


def dims(m):
    d = [Fraction(0)] * 4
    for a, e in m:
        n = show_atom(a)
        if not n.startswith('scale.') or n[6:] not in BASE: return None
        for i in range(4): d[i] += BASE[n[6:]][i] * e
    return tuple(d)


def run(c):
    P = c.P
    S = Summ(P.get('ScaleMe'), args=['scale'])
    cur = {show_pl(pl): v for pl, v in S.env.items()}
    for f, want in DIM.items():
        v = cur.get('scale.' + f)
        if v is None: c.require(False, 'scale:' + f, 'ScaleMe no longer sets the scale of %s' % f, 'ScaleMe'); continue
        if opaque(repr(v)) or len(v.t) != 1: c.undecided.append('scale.' + f); continue
        (m, k), = v.t.items()
        d = dims(m)
        if d is None: c.undecided.append('scale.' + f); continue
        c.count('derived_scales')
        if c.require(d == want and k == 1, 'dim:' + f, 'the scale of %s is %r = kg^%s m^%s s^%s K^%s (factor %s); its dimension is kg^%d m^%d s^%d K^%d' % ((f, v) + d + (k,) + want), S.locs.get(next(p for p in S.env if show_pl(p) == 'scale.' + f), 'ScaleMe')): c.sample('scale.%s = %r' % (f, v))
    # inputs stored in internal units: the same factor as specified
    ref = json.load(open(c03.TAB))
    S, vals, calls, cl, keys = c03.analyse(P)
    loc = S.loc()
    fac = lambda t: sorted(re.findall(r'(?:scaling\{ScaleMe\}\.\w+|ReadDou2\("(?:eta|L|V|T)", 1\))(?:\^-?[\d/]+)?', t))
    for k, v in sorted(ref['places'].items()):
        w = vals.get(k)
        if w is None or opaque(v) or opaque(w) or not (fac(v) or fac(w)): continue
        c.count('scaled_inputs')
        c.require(fac(v) == fac(w), 'factor:' + k, 'ReadInputFile: %s is converted with %s; specified: %s' % (k, ' '.join(fac(w)) or 'nothing', ' '.join(fac(v)) or 'nothing'), loc.get(k, 'ReadInputFile'))
    c.floor('scaled_inputs', 50)
