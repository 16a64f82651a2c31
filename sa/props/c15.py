"""Receivers account for all absorbed energy, hit by hit."""
import itertools
from ..opt_h import *
from ..geom_h import Setup, RectPlate, Sphere, FiniteCylinder, Dish, Triangle, Hemisphere

RULE = ('Value numbering over gated SSA of every receiver through bounded histories (calls with an arbitrary selection of hitting rays, calls with none, queries, resets; all of length '
        'up to four, and through Surface and real geometry managers over two iterations): after each history the reported energies and points must be, in order, the value numbers '
        'energy*absorptivity and hit point of exactly the rays selected since the last reset; the outgoing rays must be those specified for the wrapped optics; the receiver '
        'assembly\'s histogram must bin exactly those hits in the receiver\'s frame over the receiver\'s extent.')

KINDS = {'ReflectiveReceiver': 'Reflective', 'LambertianReceiver': 'LambertianReflector', 'accountant over AbsorberReflector': 'AbsorberReflector'}

def build(h, kind, a):
    if kind.startswith('accountant'): return h.new(O, 'AbsorptionAccountant', h.cls(O, KINDS[kind]), a)
    return h.new(O, kind, a)

def joined(h, ws, a):
    """what must be reported"""
    I = h.I
    ws = [w for w in ws if w.chosen is not dd.FALSE]
    if not ws: return I.new_arr((0,), []), I.new_arr((3, 0), [])
    en = [I.new_arr((w.sub,), [dd.mul(I.elems(w.vals['energy'])[0], a.node)]) for w in ws]
    pt = [I.new_arr((3, w.sub), w.p) for w in ws]
    if len(ws) == 1: return en[0], pt[0]
    return npm.hstack(I, [tuple(en)], {}), npm.hstack(I, [tuple(pt)], {})

def report(h, name, rec, ws, a):
    I = h.I
    got = I.resolve(h.m(rec, 'get_all_hits'))
    e, p = joined(h, ws, a)
    for c, g in h.alts(got):
        if dd.sat(c) is None: continue
        def go():
            if not isinstance(g, tuple) or len(g) != 2: h.und(name, 'not a pair'); return
            record(h, name + ': absorbed energy', g[0], e, ws, 1)
            record(h, name + ': hit points', g[1], p, ws, 3)
        h.under(c, go)

def record(h, name, got, want, ws, rows):
    """got lists the hits of want in order; rounds without hits leave no trace"""
    I = h.I
    for c, g in h.alts(got):
        if dd.sat(c) is None: continue
        def go():
            g2 = npm.toarr(I, g)
            if len(g2.dims) != (1 if rows == 1 else 2) or (rows == 3 and g2.dims[0] != 3):
                h.viol(name, 'has shape %s' % h.shp(g2.dims), h.vloc(g2)); return
            ax = g2.dims[-1]
            if ax == 0:
                some = dd.FALSE
                for w in ws: some = dd.or_(some, w.sub.nonempty()) if w.chosen is not dd.FALSE else some
                h.eq(name + ': empty only when nothing was hit', dd.and_(I.pc, some), dd.FALSE, care=dd.TRUE, loc=h.vloc(g2)); return
            if isinstance(ax, int): h.und(name, 'literal length'); return
            fl = [(j, b, m) for j, b, m in flat_idx(ax) if dd.sat(dd.and_(I.pc if j is None else part_val(I.pc, ax.base, j), dd.and_(m, b.care)), elem=b.witness) is not None]
            live = [w for w in ws if w.chosen is not dd.FALSE and dd.sat(dd.and_(I.pc, w.sub.nonempty())) is not None]
            if [b for j, b, m in fl] != [w.ax.base for w in live]:
                h.viol(name, 'lists the rays of %s, required those of %s' % ([b.name for j, b, m in fl], [w.ax.base.name for w in live]), h.vloc(g2)); return
            spec = I.elems(want)
            for (j, b, m), w in zip(fl, live):
                pc = I.pc if j is None else part_val(I.pc, ax.base, j)
                if h.eq('%s: which rays of %s' % (name, b.name), m, w.chosen, care=dd.and_(pc, b.care), loc=h.vloc(g2)) is False: return
                el = I.elems(g2)
                if j is not None: el = [part_val(x, ax.base, j) for x in el]
                wl = [dd.mul(I.elems(w.vals['energy'])[0], w.abs_.node)] if rows == 1 else w.p
                for q, (x, y) in enumerate(zip(el, wl)):
                    if h.eq('%s[%d] of %s' % (name, q, b.name), x, y, care=dd.and_(pc, dd.and_(m, b.care)), loc=h.vloc(g2)) is False: return
        h.under(c, go)

def outgoing(h, name, kind, out, w, a):
    v = w.reflected(dd.sub(dd.c(1), a.node))
    if 'Lambertian' in kind: v['directions'] = None
    if 'AbsorberReflector' in kind:
        back = dd.gt(h.dot(w.d, w.u), dd.c(0))
        v['energy'] = [dd.mul(h.I.elems(w.vals['energy'])[0], dd.ite(back, dd.c(0), dd.sub(dd.c(1), a.node)))]
    check_rays(h, name + ': outgoing', out, [('rays', w.ax.base, w.chosen, v)], w.care)

def history(h, kind, ops, check_out):
    I = h.I
    a = h.sc('absorptivity', lo=0.0, hi=1.0)
    rec = build(h, kind, a)
    ws = []
    for k, op in enumerate(ops):
        if op in 'cn':
            w = OptWorld(h, name='it%d.' % k, tag='round %d' % k, none=op == 'n'); w.abs_ = a
            out = I.call(rec, [w.geom, w.bund, w.idx], {})
            ws.append(w)
            if check_out: outgoing(h, 'round %d' % k, kind, out, w, a)
        elif op == 'a': report(h, 'query %d' % k, rec, ws, a)
        elif op == 'r': h.m(rec, 'reset'); ws = []
    report(h, 'final report', rec, ws, a)
    h.writes('incoming rays, selectors and hit points not modified')

def twice_built(h, kind):
    """two receivers of one class do not share a record"""
    a = h.sc('absorptivity', lo=0.0, hi=1.0); b = h.sc('absorptivity2', lo=0.0, hi=1.0)
    r1, r2 = build(h, kind, a), build(h, kind, b)
    w = OptWorld(h, name='one.', tag='first'); w.abs_ = a
    x = OptWorld(h, name='two.', tag='second'); x.abs_ = b
    h.I.call(r1, [w.geom, w.bund, w.idx], {}); h.I.call(r2, [x.geom, x.bund, x.idx], {})
    report(h, 'first receiver', r1, [w], a); report(h, 'second receiver', r2, [x], b)
    h.m(r2, 'reset')
    report(h, 'first receiver after the second was reset', r1, [w], a); report(h, 'second receiver after reset', r2, [], b)

class RealRound(object):
    """one iteration of the trace protocol on a surface with a real geometry manager"""
    def __init__(self, h, s, surf, name, a):
        I = h.I
        self.abs_ = a
        self.ax = h.axis(name)
        self.bund, self.vals = h.bundle(self.ax, name=name, tag=name)
        prm = npm.toarr(I, h.m(surf, 'register_incoming', self.bund))
        t = I.elems(prm)[0]
        self.chosen = dd.and_(dd.not_(dd.isinf(t)), dd.batom('chosen@' + name, deps=frozenset([self.ax.base.id])))
        self.sub = self.ax.sub(self.chosen)
        idx = npm.nonzero(I, I.new_arr((self.ax,), [self.chosen], 'b'))[0]
        h.m(surf, 'select_rays', idx)
        self.p = [dd.add(x, dd.mul(t, y)) for x, y in zip(I.elems(self.vals['vertices']), I.elems(self.vals['directions']))]
        h.m(surf, 'get_outgoing')
        h.m(surf, 'done')

def real(h, S, kind):
    a = h.sc('absorptivity', lo=0.0, hi=1.0)
    sh = S()
    rec = build(h, kind, a)
    surf = h.new('tracer.surface', 'Surface', sh.build(h), rec)
    F, R, t = h.frame('frame')
    h.m(surf, 'transform_frame', F)
    ws = [RealRound(h, sh, surf, 'r%d' % k, a) for k in range(2)]
    # compare where the geometry manager's own formula is regular
    for w in ws:
        lv = h.tvec(R, h.vsub(h.I.elems(w.vals['vertices']), t)); ld = h.tvec(R, h.I.elems(w.vals['directions']))
        w.ax.base.care = dd.and_(w.ax.base.care, sh.care(h, lv, ld)) if False else w.ax.base.care
    report(h, 'after two iterations', rec, ws, a)
    rec2 = h.m(surf, 'get_optics_manager')
    report(h, 'through the surface', rec2, ws, a)

def histogram(h, dims):
    I = h.I
    if dims == 'tuple':
        sx, sy = h.sc('side_x', lo=1e-30), h.sc('side_y', lo=1e-30); side = (sx, sy)
    else: sx = sy = side = h.sc('side', lo=1e-30)
    asm = h.new('tracer.models.homogenized_local_receiver', 'HomogenizedLocalReceiver',
        h.new('tracer.surface', 'Surface', h.new('tracer.flat_surface', 'FlatGeometryManager'), h.new(O, 'Reflective', 0)),
        h.sc('receiver_pos', lo=1e-30), side, h.sc('depth', lo=1e-30), h.sc('eff', lo=0.0, hi=1.0))
    F, R, t = h.frame('frame')
    h.m(asm, 'set_transform', F)
    surf = h.m(asm, 'get_receiver_surf')
    rec = h.m(surf, 'get_optics_manager')
    w = OptWorld(h, name='it.', tag='hits'); w.abs_ = Sc(dd.c(1))
    I.call(rec, [w.geom, w.bund, w.idx], {})
    mark = len(I.events)
    res = h.m(asm, 'histogram_hits', 7)
    evs = [e for e in I.events[mark:] if getattr(e, 'name', None) == 'histogram2d']
    if not evs: h.und('histogram', 'no histogram call seen'); return
    fr = I.elems(npm.toarr(I, h.get(surf, '_temp_frame')))
    Rr = [fr[0:3], fr[4:7], fr[8:11]]; tt = [fr[3], fr[7], fr[11]]
    loc = h.tvec(Rr, h.vsub(w.p, tt))
    for e in evs:
        if dd.sat(e.pc) is None: continue
        def go():
            hit = w.sub.nonempty()
            a, k = e.args, e.kw
            wt = k.get('weights', a[5] if len(a) > 5 else None)
            rg = k.get('range', a[3] if len(a) > 3 else None)
            if rg is None: h.viol('histogram', 'bins the range of the data, not the receiver', e.loc); return
            if wt is None: h.viol('histogram', 'counts hits instead of adding up energy', e.loc); return
            w_ = I.new_arr
            for nm in ('density', 'normed'):
                if k.get(nm) not in (None, False) or len(a) > 4 and a[4] not in (None, False): h.viol('histogram', 'asks for a density, not for the energy in each bin', e.loc); return
            for nm, got, want in zip(('energies', 'x edges', 'y edges'), [x for c, x in h.items(res)], e.out): h.same('histogram: returned ' + nm, got, want, loc=e.loc)
            h.same('histogram x', a[0], w_((w.sub,), [loc[0]]), loc=e.loc)
            h.same('histogram y', a[1], w_((w.sub,), [loc[1]]), loc=e.loc)
            h.same('histogram weights', wt, w_((w.sub,), [I.elems(w.vals['energy'])[0]]), loc=e.loc)
            hx, hy = dd.mul(sx.node, dd.c(Fraction(1, 2))), dd.mul(sy.node, dd.c(Fraction(1, 2)))
            h.same('histogram range', npm.toarr(I, rg), w_((2, 2), [dd.neg(hx), hx, dd.neg(hy), hy]), loc=e.loc)
        h.under(dd.and_(e.pc, w.sub.nonempty()), go)

def run(rep):
    deep = rep.tier == 'thorough'
    for kind in KINDS:
        rep.case('%s/two receivers' % kind, twice_built, kind)
        for L in range(0, 6 if deep else 5):
            for ops in itertools.product('cnar', repeat=L):
                ops = ''.join(ops)
                if L > 2 and kind != 'ReflectiveReceiver' and not deep and not ops.startswith('c'): continue
                if ops.count('c') > 3: continue
                rep.case('%s/%s' % (kind, ops or 'never hit'), history, kind, ops, L <= 2)
    for S in (RectPlate, Triangle, Sphere, Hemisphere, FiniteCylinder, Dish):
        for kind in ('ReflectiveReceiver', 'LambertianReceiver'):
            rep.case('%s on a %s' % (kind, S.name), real, S, kind)
    for d in ('tuple', 'scalar'): rep.case('histogram/' + d, histogram, d)
