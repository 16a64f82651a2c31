"""Rays do not influence each other."""
from functools import reduce
from ..geom_h import *
from .. import opt_h
from ..opt_h import OptWorld, Geom, O, PROPS
from ..engine_h import World, part_node

RULE = ('Non-interference: each geometry and optics manager is interpreted twice with the same generic ray, once in a bundle of its own index space and once in a bundle whose index '
        'space also holds arbitrary unrelated rays before or after it; for the first index space the value numbers, decision diagrams and membership in result index spaces '
        'must be the same in both. Reductions over rays, elements picked by position and conditions on the existence of other rays are distinct terms in the two runs, so any '
        'influence shows. Engine: the verdict for a ray must be the function of that ray\'s own distances (as in C01).')

def parts(h, v, base):
    """[(condition over the case, mask, nodes)] of the rays of `base` in array v"""
    I = h.I
    a = npm.toarr(I, v)
    ax = a.dims[-1]
    if isinstance(ax, int): return ax
    out = []
    for j, b, m in flat_idx(ax):
        if b is not base: continue
        el = I.elems(a)
        c = I.pc
        if j is not None: el, c = [part_val(x, ax.base, j) for x in el], part_val(c, ax.base, j)
        out.append((dd.and_(c, dd.and_(m, b.care)), m, el))
    return out

def agree(h, name, alone, mixed, base, care):
    """values of the rays of base agree"""
    for ca, a in h.alts(alone):
        for cb, b in h.alts(mixed):
            c = dd.and_(ca, cb)
            if c is dd.FALSE or dd.sat(c) is None: continue
            def go():
                A, B = parts(h, a, base), parts(h, b, base)
                if (isinstance(A, int) and A) or (isinstance(B, int) and B): h.und(name, 'literal length'); return
                A, B = A or [], B or []
                if len(A) != len(B):
                    # grouped differently: the number of outgoing rays of each ray must still be the same
                    n = lambda L: reduce(dd.add, [dd.ite(m, dd.c(1), dd.c(0)) for c_, m, e in L], dd.c(0))
                    if verdict(h, name + ': how many', n(A), n(B), dd.and_(care, dd.and_(base.care, h.I.pc)), base, h.vloc(b)) is False: return
                while len(A) != len(B):
                    # one run has a further group of rays: it must be empty here
                    L = A if len(A) > len(B) else B
                    c1, m1, e1 = L.pop()
                    d = dd.sat(dd.and_(c1, dd.and_(m1, dd.and_(care, base.care))), elem=base.witness)
                    if d is not None: h.und(name, 'split differently'); return
                if not A: h.ok(name + ': none'); return
                for (c1, m1, e1), (c2, m2, e2) in zip(A, B):
                    cc = dd.and_(care, dd.and_(base.care, h.I.pc))
                    if verdict(h, name + ': which rays', m1, m2, cc, base, h.vloc(b)) is False: return
                    cc = dd.and_(cc, dd.and_(c1, c2))
                    for k, (x, y) in enumerate(zip(e1, e2)):
                        if verdict(h, '%s[%d]' % (name, k), x, y, cc, base, h.vloc(b)) is False: return
            h.under(c, go)

def verdict(h, name, x, y, care, base, loc):
    try: d = dd.differ(x, y, care, True, elem=base.witness, report=True)
    except dd.TooBig: h.und(name, 'too big'); return None
    if d is None: h.ok(name); return True
    txt = 'the same ray gives different results alone and next to other rays: ' + d.text()
    if d.imp:
        # values taken across rays, reached on a path that does not itself depend on such values
        if any('X' in l.deps for l in (d.a, d.b) if hasattr(l, 'deps')) and not any(dd.vars_[k].imp for k in d.path):
            h.viol(name, txt, loc); return False
        h.und(name, txt[:300]); return None
    h.viol(name, txt, loc); return False

def mixed_bundle(h, ax1, v1, ax2, v2, order):
    """one bundle of both sets of rays"""
    I = h.I
    kw = {}
    for p in v1:
        pair = (v1[p], v2[p]) if order == 'first' else (v2[p], v1[p])
        kw[p] = npm.hstack(I, [pair], {})
    b = I.call(I.anchor('tracer.ray_bundle', 'RayBundle'), [], kw)
    return b, npm.toarr(I, kw['vertices']).dims[1]

def geometry(h, S, order):
    I = h.I
    sh = S()
    s = Setup(h, sh)
    base = s.ax.base
    ax2 = h.axis('other')
    b2, v2 = h.bundle(ax2, name='other')
    mb, max_ = mixed_bundle(h, s.ax, s.vals, ax2, v2, order)
    care = s.care
    P1 = s.find()
    pts1, nrm1 = select(h, s.gm, s.ax, P1)
    gm2 = sh.build(h)
    P2 = h.m(gm2, 'find_intersections', s.F, mb)
    pts2, nrm2 = select(h, gm2, max_, P2)
    agree(h, 'distance', P1, P2, base, care)
    agree(h, 'hit point', pts1, pts2, base, care)
    agree(h, 'normal', nrm1, nrm2, base, care)

def select(h, gm, ax, prm):
    I = h.I
    P = npm.toarr(I, prm)
    fin = dd.not_(dd.isinf(I.elems(P)[0]))
    ch = part_node(ax, lambda b: dd.batom('chosen@' + b.name, deps=frozenset([b.id])))
    m = I.new_arr((ax,), [dd.and_(fin, ch)], 'b')
    idx = npm.nonzero(I, m)[0]
    h.m(gm, 'select_rays', idx)
    return h.m(gm, 'get_intersection_points_global'), h.m(gm, 'get_normals')

class Mixed(object):
    """two optics worlds in one bundle"""
    def __init__(self, h, w, w2, order):
        I = h.I
        self.bund, ax = mixed_bundle(h, w.ax, w.vals, w2.ax, w2.vals, order)
        by = {w.ax.base.id: w, w2.ax.base.id: w2}
        pn = lambda f: part_node(ax, lambda b: f(by[b.id]))
        self.sub = ax.sub(pn(lambda x: x.chosen))
        self.idx = I.new_arr((self.sub,), [ax.pos()], 'i')
        self.P = I.new_arr((3, self.sub), [pn(lambda x: x.p[i]) for i in range(3)])
        self.Nn = I.new_arr((3, self.sub), [pn(lambda x: x.n[i]) for i in range(3)])
        self.Up = w.Up
        self.prm = pn(lambda x: x.prm); self.ax = ax
        self.calls = []
        self.geom = Geom(self)

def optics(h, mk, order, ref=None, skip=()):
    I = h.I
    if ref: opt, rf = mk(h), ref(h)
    else: opt, rf = mk(h), None
    w = OptWorld(h, ref_index=rf and (lambda ax: dd.ite(dd.batom('inside@' + ax.base.name, deps=frozenset([ax.base.id])), rf[0].node, rf[1].node)))
    w2 = OptWorld(h, name='other', ref_index=rf and (lambda ax: dd.ite(dd.batom('inside@' + ax.base.name, deps=frozenset([ax.base.id])), rf[0].node, rf[1].node)))
    M = Mixed(h, w, w2, order)
    out1 = I.call(opt, [w.geom, w.bund, w.idx], {})
    out2 = I.call(opt, [M.geom, M.bund, M.idx], {})
    care = dd.and_(w.care, w2.care)
    for p in PROPS:
        if p == 'parents' or p in skip: continue
        v1, r1 = h.attempt(lambda: I.resolve(I.meth(out1, 'get_' + p)))
        v2, r2 = h.attempt(lambda: I.resolve(I.meth(out2, 'get_' + p)))
        # an empty bundle need not have custom properties
        none = lambda o: dd.eq(I.scalar(I.meth(o, 'get_num_rays')).node, dd.c(0))
        for r, o in ((r1, out1), (r2, out2)):
            for st, e, loc, tr in r: h.holds(p + ': missing only if there are no rays', none(o), care=st.pc)
        if v1 is None or v2 is None: h.und(p, 'missing'); continue
        agree(h, p, v1, v2, w.ax.base, care)

def engine(h, layout, reps, simple=False):
    w = World(h, layout, simple)
    w.trace(reps)
    w.check_select()

def bounds(h, cls, kw):
    """bounding volumes, point by point"""
    I = h.I
    F, R, t = h.frame('own')
    k = dict(location=h.mk((3,), t))
    if cls != 'BoundarySphere': k['rotation'] = h.mk((3, 3), R[0] + R[1] + R[2])
    b = h.new('tracer.boundary_shape', cls, **k)
    G = h.frame('parent')[0]
    h.m(b, 'transform_frame', G)
    a1, a2 = h.axis('pt'), h.axis('other')
    p1, p2 = h.arr('p', a1, 3), h.arr('q', a2, 3)
    agree(h, 'containment', h.m(b, 'in_bounds', p1), h.m(b, 'in_bounds', npm.concatenate(I, [(p1, p2)], {})), a1.base, dd.TRUE)

def run(rep):
    for S in ALL:
        for order in ('first', 'last'): rep.case('%s/%s among other rays' % (S.name, order), geometry, S, order)
    ab = lambda h: h.sc('absorptivity', lo=0.0, hi=1.0)
    n12 = lambda h: (h.sc('n1', lo=0.5), h.sc('n2', lo=0.5))
    OPT = [('Reflective', lambda h: h.new(O, 'Reflective', ab(h)), None, ()), ('perfect mirror', lambda h: h.I.anchor(O, 'perfect_mirror'), None, ()),
        ('AbsorberReflector', lambda h: h.new(O, 'AbsorberReflector', ab(h)), None, ()), ('RefractiveHomogenous', lambda h: h.new(O, 'RefractiveHomogenous', *n12(h)), n12, ()),
        ('LambertianReflector', lambda h: h.new(O, 'LambertianReflector', ab(h)), None, ('directions',))]
    for nm, mk, ref, skip in OPT:
        for order in ('first', 'last'): rep.case('%s/%s among other rays' % (nm, order), optics, mk, order, ref, skip)
    for cls in ('BoundarySphere', 'BoundaryCylinder', 'BoundaryPlane'): rep.case(cls, bounds, cls, None)
    rep.case('engine, 1 iteration', engine, (2, 1), 1)
    rep.case('engine, 2 iterations', engine, (1, 1), 2)
