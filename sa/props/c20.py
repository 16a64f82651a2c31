"""Meshes lie on the surface they represent."""
from ..harness import *
from ..geom_h import RectPlate, RoundPlate, Triangle, Sphere, Hemisphere, FiniteCylinder, Dish, half, sq
from ..frame_h import I3, Z3, frame_of, place, MODS
from ..engine_h import Stub

RULE = ('Value numbering of every mesh method on generic dimensions and resolution: the coordinates must satisfy the surface equation identically, each be the documented function of the two grids '
        'that run along the two mesh directions (polar, cylindrical, spherical, rectangular, barycentric), and each grid start at one end of the aperture, have the documented spacing, and end '
        'at the other end up to rim rounding (or span the full turn). Surface.mesh of a generic local mesh must be the current global frame applied to it, over any placing history.')

TWOPI = dd.mul(dd.c(2), dd.leaf(n.pi_()))

class Grid(object):
    """value along a mesh direction; stepped: start + k*step < end; spaced: `count` points from start to end"""
    def __init__(self, v, sn, en, pn, ax, count=None): self.v, self.s, self.e, self.p, self.ax, self.count = v, sn, en, pn, ax, count

def grids(I, ax):
    out = []
    def add(g):
        if g.ax.base is ax.base: out.append(g)
        elif getattr(g.ax.base, 'twin', None) is ax.base:
            g.v = subst(g.v, g.ax, ax); g.ax = ax; out.append(g)
    for val, sn, en, pn, a in I.grids: add(Grid(dd.leaf(val), sn, en, pn, a))
    for v, sn, en, nn, a, endp, cnt in I.lins:
        if endp: add(Grid(v, sn, en, None, a, cnt))
    return out

def same(x, y): return x.var == dd.LEAF and y.var == dd.LEAF and dd.asnum(x.val).fp == dd.asnum(y.val).fp
def sc_(x):
    s, c = n.sincos(x.val)
    return dd.leaf(s), dd.leaf(c)

def spans(h, what, g, lo, hi, step, loc, over=Fraction(1, 2), turn=False):
    """grid g covers lo..hi, ending past it by no more than `over` steps"""
    if g.count is not None:
        a, b = (lo, hi) if not same(g.s, hi) else (hi, lo)
        if turn: h.eq(what + ': covers the full turn', dd.sub(g.e, g.s), TWOPI, loc=loc)
        else: h.eq(what + ': starts at the edge', g.s, a, loc=loc); h.eq(what + ': ends at the edge', g.e, b, loc=loc)
        h.holds(what + ': has both ends', dd.ge(g.count, dd.c(2)), loc=loc)
        return
    if not turn: h.eq(what + ': starts at the edge', g.s, lo, loc=loc)
    h.eq(what + ': spacing', g.p, step, loc=loc)
    q = dd.div(dd.sub(g.e, dd.add(g.s, TWOPI) if turn else hi), g.p)
    # the end itself is left out: going around, and to the pole, the last point must not fall short of it
    h.holds(what + ': reaches the other edge', dd.ge(q, dd.c(1)) if turn or over == 1 else dd.gt(q, dd.c(0)), loc=loc)
    h.holds(what + ': stops at the edge, up to rounding', dd.le(q, dd.c(2 if turn else over)), loc=loc)

def local(h, gm, res):
    """-> three elements over the two mesh directions"""
    I = h.I
    r = h.m(gm, 'mesh', res)
    its = h.items(r)
    if its is None:
        a = npm.toarr(I, r)
        if a.dims[0] != 3 or len(a.dims) != 3: h.viol('mesh', 'has shape %s' % h.shp(a.dims), h.vloc(a)); return
        return list(a.dims[1:]), [[e] for e in I.elems(a)], h.vloc(a)
    if len(its) != 3: h.viol('mesh', 'gives %d arrays' % len(its)); return
    A = [npm.toarr(I, x) for _, x in its]
    loc = h.vloc(A[0])
    for a in A:
        if len(a.dims) != 2: h.viol('mesh', 'coordinate of shape %s' % h.shp(a.dims), h.vloc(a)); return
    for a in A[1:]:
        for d in (0, 1):
            e = npm.dim_eq(I, A[0].dims[d], a.dims[d])
            if e is None and isinstance(A[0].dims[d], Axis) == isinstance(a.dims[d], Axis): h.und('mesh shape', 'index spaces'); return
            if not e: h.viol('mesh', 'coordinates of shapes %s and %s' % (h.shp(A[0].dims), h.shp(a.dims)), h.vloc(a)); return
    dims = list(A[0].dims)
    el = [npm.bcast(I, a, dims) for a in A]
    return dims, el, loc

def shape_case(h, cls):
    I = h.I
    s = cls(); gm = s.build(h)
    if cls is Triangle: res = h.sc('resolution', lo=2.0, isint=True)
    else: res = h.sc('resolution', lo=1e-30)
    h.fork(lambda: mesh_case(h, cls, s, gm, res))

def mesh_case(h, cls, s, gm, res):
    I = h.I
    m = local(h, gm, res)
    if m is None: return
    dims, el, loc = m
    if not all(isinstance(d, Axis) for d in dims): h.viol('mesh', 'of shape %s, whatever the resolution' % h.shp(dims), loc); return
    x, y, z = [dd.restrict(e[0], I.pc) for e in el]
    G = [grids(I, d) for d in dims]
    one = dd.c(1)
    if cls in (RectPlate, RoundPlate, Triangle): h.eq('on the surface', z, dd.c(0), loc=loc)
    elif cls in (Sphere, Hemisphere): h.eq('on the surface', dd.add(dd.add(sq(x), sq(y)), sq(z)), sq(s.r.node), loc=loc)
    elif cls is FiniteCylinder: h.eq('on the surface', dd.add(sq(x), sq(y)), sq(half(s.d)), loc=loc)
    else: h.eq('on the surface', z, dd.add(dd.mul(s.ab()[0], sq(x)), dd.mul(s.ab()[1], sq(y))), loc=loc)
    st = dd.div(one, res.node)
    pairs = [(a, b) for i, j in ((0, 1), (1, 0)) for a in G[i] for b in G[j]]
    def pick(test, want, what):
        for a, b in pairs:
            if test(a, b): return a, b
        if not pairs: h.und(what, 'no grid of its own along a mesh direction'); return None
        r = [h_try(h, p, want) for p in pairs]
        if all(t is not None for t in r): h.viol(what, r[0], loc)
        else: h.und(what, 'unknown parametrisation')
        return None
    def circ(r, p):
        """x, y run around the circle of radius r with the angle p, from anywhere and either way"""
        sn, cs = sc_(p)
        rs, rc = dd.mul(r, sn), dd.mul(r, cs)
        for u, v in ((x, y), (y, x)):
            if (same(u, rc) or same(u, dd.neg(rc))) and (same(v, rs) or same(v, dd.neg(rs))): return True
        return False
    R = None
    if cls is RectPlate:
        p = pick(lambda a, b: (same(x, a.v) or same(x, dd.neg(a.v))) and (same(y, b.v) or same(y, dd.neg(b.v))), lambda a, b: [(x, a.v), (y, b.v)], 'rectangular grid')
        if p is None: return
        for nm, g, d in (('x', p[0], s.w), ('y', p[1], s.hh)):
            spans(h, nm, g, dd.neg(half(d)), half(d), st, loc)
            if g.count is not None:
                k = dd.opaque('ceil', dd.mul(res.node, d.node), isint=True, lo=0.0)
                h.eq(nm + ': number of points', g.count, dd.ite(dd.lt(k, dd.c(2)), dd.c(2), k), loc=loc)
    elif cls in (RoundPlate, Dish):
        R = s.R.node if cls is RoundPlate else half(s.d)
        p = pick(lambda a, b: circ(a.v, b.v), lambda a, b: [(dd.add(sq(x), sq(y)), sq(a.v))], 'polar grid')
        if p is None: return
        spans(h, 'radius', p[0], dd.c(0), R, st, loc)
        spans(h, 'angle', p[1], None, None, dd.div(st, R), loc, turn=True)
    elif cls is FiniteCylinder:
        R = half(s.d)
        p = pick(lambda a, b: circ(R, b.v) and (same(z, a.v) or same(z, dd.neg(a.v))), lambda a, b: [(z, a.v), (x, dd.mul(R, sc_(b.v)[1]))], 'cylindrical grid')
        if p is None: return
        spans(h, 'height', p[0], dd.neg(half(s.hh)), half(s.hh), st, loc)
        spans(h, 'angle', p[1], None, None, dd.div(st, R), loc, turn=True)
    elif cls in (Sphere, Hemisphere):
        R = s.r.node
        def ok(a, b):
            sn, cs = sc_(a.v)
            return same(z, dd.mul(R, cs)) and circ(dd.mul(R, sn), b.v)
        p = pick(ok, lambda a, b: [(z, dd.mul(R, sc_(a.v)[1])), (x, dd.mul(R, dd.mul(sc_(a.v)[0], sc_(b.v)[1])))], 'spherical grid')
        if p is None: return
        pi = dd.leaf(n.pi_())
        spans(h, 'polar angle', p[0], dd.c(0) if cls is Sphere else dd.div(pi, dd.c(2)), pi, dd.div(st, R), loc, over=1)
        spans(h, 'azimuth', p[1], None, None, dd.div(st, R), loc, turn=True)
    else:
        def tri(a, b):
            return [h.vadd(h.smul(dd.mul(a.v, b.v), u), h.smul(dd.mul(a.v, dd.sub(one, b.v)), w)) for u, w in ((s.a, s.b), (s.b, s.a))]
        p = pick(lambda a, b: any(all(same(g, w) for g, w in zip((x, y), t)) for t in tri(a, b)), lambda a, b: list(zip((x, y), tri(a, b)[0])), 'barycentric grid')
        if p is None: return
        for nm, g in (('along the edges', p[0]), ('between the edges', p[1])):
            spans(h, nm, g, dd.c(0), one, None, loc)
            if g.count is not None: h.eq(nm + ': number of points', g.count, res.node, loc=loc)

def h_try(h, p, want):
    """text of a definite mismatch, or None"""
    try:
        for g, w in want(*p):
            d = dd.differ(g, w, h.I.pc, True, report=True)
            if d is not None and not d.imp: return d.text()
    except dd.TooBig: pass
    return None

class MeshGeom(Stub):
    kind = name = 'geometry'
    def __init__(self, arrs): self.arrs, self.asked = arrs, []
    def m_mesh(self, I, resolution):
        self.asked.append(resolution)
        return self.arrs

def surface_case(h, ops, nest):
    I = h.I
    a, b = h.axis('row'), h.axis('col')
    arrs = [h.arr('local %s' % c, a, b, tag='the local mesh') for c in 'xyz']
    p = [I.elems(q)[0] for q in arrs]
    g = MeshGeom(tuple(arrs))
    res = h.sc('resolution', lo=1e-30)
    R, t = I3(h), Z3(h)
    F0, R, t = h.frame('built', tag='frame arrays')
    s = h.new(MODS['Surface'], 'Surface', g, Stub(), location=h.mk((3,), t), rotation=h.mk((3, 3), R[0] + R[1] + R[2]))
    T = [(R, t)]
    top = None
    if nest:
        o = h.new('tracer.object', 'AssembledObject', surfs=I.new_list([s]))
        top = o
        oF, oR, ot = h.frame('object', tag='frame arrays')
        h.m(o, 'set_transform', oF)
        T.insert(0, (oR, ot))
        if nest == 2:
            asm = h.new('tracer.assembly', 'Assembly')
            aF, aR, at = h.frame('inassembly', tag='frame arrays')
            h.m(asm, 'add_object', o, aF)
            T[0] = (aR, at)
            top = asm
            bF, bR, bt = h.frame('assembly', tag='frame arrays')
            h.m(asm, 'set_transform', bF)
            T.insert(0, (bR, bt))
    for k, op in enumerate(ops):
        if top is None: R, t = place(h, s, op, R, t, str(k)); T[-1] = (R, t)
        else: T[0] = place(h, top, op, T[0][0], T[0][1], str(k))
    if top is not None: h.m(top, 'transform_children')
    elif 'transform' in ops: h.m(s, 'transform_frame', frame_of(h, I3(h), Z3(h)))
    q = p
    for Rk, tk in reversed(T): q = h.vadd(h.matvec(Rk, q), tk)
    for rnd in (1, 2):
        r = h.m(s, 'mesh', res)
        its = h.items(r)
        if its is not None: got = [npm.toarr(I, v) for _, v in its]
        else:
            A = npm.toarr(I, r)
            if A.dims[0] != 3: h.viol('global mesh', 'has shape %s' % h.shp(A.dims), h.vloc(A)); return
            got = [h.mk(A.dims[1:], [e]) for e in I.elems(A)]
        if len(got) != 3: h.viol('global mesh', '%d coordinates' % len(got)); return
        for i in range(3): h.same('global mesh %s, call %d' % ('xyz'[i], rnd), got[i], h.mk((a, b), [q[i]]))
    for i, x in enumerate(g.asked): h.same('resolution asked for', x, res)
    h.writes('local mesh and frames not modified')

def run(rep):
    for c in (RectPlate, RoundPlate, Triangle, Sphere, Hemisphere, FiniteCylinder, Dish): rep.case(c.name, shape_case, c)
    for nest in (0, 1, 2):
        for ops in ([], ['location'], ['rotation'], ['transform'], ['location', 'rotation'], ['transform', 'location'], ['rotation', 'transform']):
            rep.case('surface mesh/%s/%s' % (('own', 'in an object', 'in an assembly')[nest], '+'.join(ops) or 'as built'), surface_case, ops, nest)
