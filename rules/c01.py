"""C01 checkpoint round trip: the writer's and the loader's file-event sequences and unit conversions must be inverse"""
from ir import *
from effects import *

ROLES = ['particles', 'mesh', 'topo_chain', 'topo_chain_ini', 'model', 'topo', 'topo_ini', 'scaling']
W, R = 'MakeBreakpointParticles', 'LoadBreakpointParticles'


def fname(F, opname):
    """[(format+args, guard)] of the file name passed to the data stream's fopen"""
    out = []
    for I in F.calls('asprintf', 'sprintf', 'snprintf'):
        k = {'asprintf': 1, 'sprintf': 1, 'snprintf': 2}[I.callee]
        out.append((tuple(repr(F.ex(o)) for o in I.ops[k:]), F.rc(I.bb), I))
    return out


def ivname(F, loops):
    d = {}
    for n, L in enumerate(reversed(loops)):
        g = F.loop_range(L)
        if g is None: raise AnalysisError('%s: uncounted loop around file access at line %d' % (F.name, L.line()))
        d[g[0]] = ('IV', n)
    return d


class Ev: pass


def events(F, call, hdr):
    """ordered file events; hdr: list that maps header slots to size values"""
    evs = []; slots = {}
    for I in F.calls(call):
        e = Ev(); e.I = I
        loops = F.loops_of(I.bb)
        m = ivname(F, loops)
        f = lambda a: m.get(a)
        e.raw = F.addr(I.ops[0])
        e.place = deep_place(e.raw, f, {})
        size = F.ex(I.ops[1]); e.count = deep(F.ex(I.ops[2]), f)
        e.guard = F.rc(I.bb)
        e.loops = [tuple(deep(x, f) for x in F.loop_range(L)[1:3]) for L in loops]
        e.order = (F.rpoi[I.bb], I.pos)
        if e.place.base[0] == 'alloca':
            # header bytes: local size variables
            slots[e.place.base] = len(slots)
            e.kind = 'hdr'; e.slot = slots[e.place.base]
        else: e.kind = 'item'
        e.size = size
        evs.append(e)
    for e in evs:
        def g(a):
            if a[0] == 'ld' and a[1].base in slots: return Poly.const(hdr[slots[a[1].base]]) if hdr and slots[a[1].base] < len(hdr) else None
        e.size = e.size.subst(g)
    return evs


def item_key(p):
    return '.'.join([show_base(p.base)] + list(p.fields()))


def scalings(F, items):
    """stores to persisted items: (key -> [(order, factor, guard, eff)])"""
    out = {}
    for s in stores(F):
        if s.place.base[0] not in ('arg',): continue
        k = item_key(s.place)
        if k not in items: continue
        old = Poly.atom(('ld', s.place))
        fac = s.val / old
        out.setdefault(k, []).append((s, fac))
    return out


def run(c):
    P = c.P; B = P.bdd
    w = name_args(P.get(W), ROLES); r = name_args(P.get(R), ROLES)
    # header values: the writer stores sizeof constants into locals that it writes first
    hdr = []
    for I in w.calls('fwrite'):
        p = w.addr(I.ops[0])
        if p.base[0] != 'alloca': break
        v = None
        for U in w.uses.get(p.base[1], ()):
            if U.op == 'store': v = w.ex(U.ops[0])
        if v is None or not v.is_const(): raise AnalysisError('header slot of the checkpoint is not a constant')
        hdr.append(int(v.cval()))
    we = events(w, 'fwrite', hdr); re = events(r, 'fread', hdr)
    c.detail['written_items'] = len(we); c.detail['read_items'] = len(re)
    c.floor('written_items', 60); c.floor('read_items', 60)
    # 1. same sequence
    n = min(len(we), len(re))
    bad = False
    for i in range(n):
        a, b = we[i], re[i]
        if a.kind != b.kind:
            c.bad('seq:%d' % i, 'item %d of the checkpoint is %s when written but %s when read' % (i, a.place, b.place), b.I.loc()); bad = True; break
        if a.kind == 'hdr':
            c.require(a.slot == b.slot and a.size == b.size and a.count == b.count, 'hdr:%d' % i, 'header byte %d differs' % i, b.I.loc()); continue
        nm = item_key(a.place)
        if not c.require(a.place == b.place, 'item:%s' % nm, 'item %d: %s is written, but the loader reads it into %s' % (i, show_place(a.place), show_place(b.place)), b.I.loc()):
            bad = True
        c.require(a.size == b.size, 'size:%s' % nm, '%s: element size written %r, read %r' % (nm, a.size, b.size), b.I.loc())
        c.require(a.count == b.count, 'count:%s' % nm, '%s: %r elements written, %r read' % (nm, a.count, b.count), b.I.loc())
        c.require(a.guard is b.guard, 'guard:%s' % nm, '%s: written when %s, read when %s' % (nm, B.show(a.guard), B.show(b.guard)), b.I.loc())
        c.require(a.loops == b.loops, 'loop:%s' % nm, '%s: loop ranges differ' % nm, b.I.loc())
        c.sample('%s size=%r count=%r when %s' % (nm, a.size, a.count, B.show(a.guard)))
    if len(we) != len(re):
        x = (we if len(we) > len(re) else re)[n]
        c.bad('len', '%d items written but %d read; first unmatched: %s' % (len(we), len(re), x.place), x.I.loc())
    # a count taken from the file must have been read before it is used
    for e in re:
        for a in atoms_deep(e.count):
            if a[0] != 'ld': continue
            src = [q for q in re if q.kind == 'item' and q.place == a[1]]
            if src: c.require(src[0].order < e.order, 'dep:%s' % item_key(e.place), '%s is read with the count %r before that count itself is restored' % (item_key(e.place), e.count), e.I.loc())
    # 2. nothing persisted today is dropped from the checkpoint
    import json, os
    ref = json.load(open(os.path.join(os.path.dirname(__file__), '..', 'data', 'checkpoint_items.json')))
    have = {}
    for e in we:
        if e.kind == 'item': have.setdefault(item_key(e.place), e)
    for k, (sz, cnt, gd) in ref.items():
        e = have.get(k)
        if not c.require(e is not None, 'persist:%s' % k, '%s is no longer part of the checkpoint' % k, w.loc()): continue
        c.require(repr(e.size) == sz and repr(e.count) == cnt, 'persistcount:%s' % k, '%s: checkpoint keeps %r x %r bytes, needs %s x %s' % (k, e.count, e.size, cnt, sz), e.I.loc())
        c.require(gd == 'always' and e.guard is B.TRUE or guard_of(B, w, gd) is None or B.implies(guard_of(B, w, gd), e.guard), 'persistguard:%s' % k, '%s: only saved when %s, needed when %s' % (k, B.show(e.guard), gd), e.I.loc())
    # 3. unit conversions cancel
    items = {}
    for e in we:
        if e.kind == 'item': items.setdefault(item_key(e.place), e)
    ritems = {}
    for e in re:
        if e.kind == 'item': ritems.setdefault(item_key(e.place), e)
    ws = scalings(w, items); rs = scalings(r, ritems)
    nscale = 0
    for k, e in items.items():
        pre = [x for x in ws.get(k, []) if x[0].order < e.order]; post = [x for x in ws.get(k, []) if x[0].order > e.order]
        filef = net(c, B, w, k, e, pre, 'before writing'); backf = net(c, B, w, k, e, post, 'after writing')
        if filef is None or backf is None: continue
        nscale += 1
        c.require(filef * backf == ONE, 'wscale:%s' % k, '%s: multiplied by %r before writing but by %r after: the running model is left changed' % (k, filef, backf), (post or pre or [(e, 0)])[0][0].I.loc())
        q = ritems.get(k)
        if q is None: continue
        rpre = [x for x in rs.get(k, []) if x[0].order < q.order and not x[1].is_const()]; rpost = [x for x in rs.get(k, []) if x[0].order > q.order]
        loadf = net(c, B, r, k, q, rpost, 'after reading')
        if loadf is None: continue
        c.require(filef * loadf == ONE, 'rscale:%s' % k, '%s: stored multiplied by %r, restored multiplied by %r: not the original value' % (k, filef, loadf), (rpost[0][0].I.loc() if rpost else q.I.loc()))
    c.detail['unit_conversions'] = nscale
    # 4. same file
    wf, rf = fname(w, 'wb'), fname(r, 'rb')
    c.require(bool(wf) and {(a, g.id) for a, g, _ in wf} == {(a, g.id) for a, g, _ in rf}, 'name', 'checkpoint file name differs: written as %s, read as %s' % ([a for a, _, _ in wf], [a for a, _, _ in rf]), r.loc())
    wo = [I for I in w.calls('fopen')]; ro = [I for I in r.calls('fopen')]
    c.require(all('b' in str(F.ex(I.ops[1])) for F, L in ((w, wo), (r, ro)) for I in L) and wo and ro, 'mode', 'checkpoint is not opened in binary mode', w.loc())
    M = P.get('RunMDOODZ')
    mk = list(M.calls(W)); ld = list(M.calls(R))
    if not mk or not ld: raise AnalysisError('checkpoint calls vanished from the driver')
    c.count('driver_calls', len(mk) + len(ld))


def guard_of(B, F, txt):
    """'model.flag==1' -> BDD node as the extractor builds it"""
    if txt == 'always': return B.TRUE
    f = txt.split('==')[0].split('.')[1]; v = int(txt.split('==')[1])
    i = ROLES.index('model')
    return B.var(('eq0', Poly.atom(('ld', Place(('arg', i, 'model'), (('f', f, 'params'),)))) - Poly.const(v)))


def net(c, B, F, k, e, lst, when):
    """net factor applied to an item, or None after reporting"""
    f = ONE
    for s, fac in lst:
        if fac == ONE: continue
        bad = [a for a in atoms_deep(fac) if a[0] == 'ld' and not (a[1].base[0] == 'arg' and a[1].base[2] == 'scaling')]
        if bad or any(a[0] not in ('ld',) for a in fac.atoms()):
            c.bad('value:%s' % k, '%s is overwritten %s with something other than a unit conversion (%r)' % (k, when, s.val), s.loc()); return None
        rngs = iv_ranges(F, s.loops)
        idx = s.place.index()
        if idx is None or (rngs == [] and e.count == ONE): pass
        elif rngs is None: raise AnalysisError('%s: unit conversion of %s in a loop that is not counted' % (F.name, k))
        else:
            full = covers(idx, rngs, e.count if not e.loops else e.count)
            if not full and not cover_equal(F, e, rngs, idx):
                c.bad('cover:%s' % k, '%s: the unit conversion %s runs over index %r, not over all %r elements' % (k, when, idx, e.count), s.loc()); return None
        c.ok()
        if not B.implies(e.guard, s.guard):
            c.bad('scaleguard:%s' % k, '%s: saved when %s but converted %s only when %s' % (k, B.show(e.guard), when, B.show(s.guard)), s.loc()); return None
        f = f * fac
    return f


def cover_equal(F, e, rngs, idx):
    """mesh.Nx and model.Nx denote the same grid size"""
    def f(a):
        if a[0] == 'ld' and a[1].base[0] == 'arg' and a[1].base[2] == 'mesh' and a[1].fields() in (('Nx',), ('Nz',)):
            return Poly.atom(('ld', Place(('arg', ROLES.index('model'), 'model'), (('f', a[1].fields()[0], 'params'),))))
    return covers(deep(idx, f), [(iv, deep(lo, f), deep(hi, f), st) for iv, lo, hi, st in rngs], e.count)


def freeze(P):
    import json, os, re
    w = name_args(P.get(W), ROLES); d = {}
    for e in events(w, 'fwrite', [4, 8, 8, 1]):
        if e.kind == 'item':
            g = P.bdd.show(e.guard)
            if g != 'always': g = re.match(r'\(-1 \+ (model\.\w+) == 0\)$', g).group(1) + '==1'
            d.setdefault(item_key(e.place), [repr(e.size), repr(e.count), g])
    json.dump(d, open(os.path.join(os.path.dirname(__file__), '..', 'data', 'checkpoint_items.json'), 'w'), indent=0)
