"""Light sources emit the rays they document."""
from ..harness import *
from ..rand_h import Draws

RULE = ('Value numbering of the source builders on generic arguments, with each random draw a term of its own: positions relative to the centre must be perpendicular to the direction, their squared '
        'distance in units of the radius an even draw, their azimuth an even draw of a full turn; directions unit vectors whose squared sine in units of the angle\'s is an even draw, leaning '
        'forward; the four draws distinct; energies flux*pi*radius^2/rays; as many of everything as rays asked for. Square sources: the grid points, each once, directions all the given one.')
S, G = 'tracer.sources', 'tracer.spatial_geometry'

def direction(h, kind):
    if kind == 'whole': return [dd.c(0), dd.c(-1), dd.c(0)]
    if kind == 'up': return [dd.c(0), dd.c(0), dd.c(1)]
    if kind == 'down': return [dd.c(0), dd.c(0), dd.c(-1)]
    return h.unit('direction')

def frame(h, d):
    """orthonormal frame with Z along d, as the documented frame builder gives it (C19)"""
    el = h.I.elems(npm.toarr(h.I, h.call(G, 'rotation_to_z', h.mk((3,), d))))
    return [el[0:3], el[3:6], el[6:9]]

def clear(h, x, g):
    """restrict to directions that are not vertical (those are inputs of their own)"""
    return dd.restrict(x, g) if g is not None else x

def common(h, kind):
    d = direction(h, kind)
    g = dd.or_(dd.ne(d[0], dd.c(0)), dd.ne(d[1], dd.c(0))) if kind == 'any' else None
    if g is not None: g = dd.TRUE if h.I.simplify(g) is dd.TRUE else g
    return d, g

def length(h, name, ax, num, loc):
    """the index space has num elements"""
    nd = dd.c(ax) if isinstance(ax, int) else ax.len()
    h.eq(name, nd, num, loc=loc)

def arrays(h, b, props, num):
    I = h.I
    out = {}
    for p in props:
        a = npm.toarr(I, h.m(b, 'get_' + p))
        out[p] = a
        length(h, 'number of %s' % p, a.dims[-1], num, h.vloc(a))
    return out

def pillbox(h, D, d, R, ang, name='direction'):
    """d: three nodes; R: frame rows"""
    loc = h.tvec(R, d)
    s2 = dd.mul(n_sin(ang), n_sin(ang))
    r2 = dd.add(dd.mul(loc[0], loc[0]), dd.mul(loc[1], loc[1]))
    h.eq(name + ' is a unit vector', h.dot(d, d), dd.c(1))
    D.decide(name + ': deviation', dd.div(r2, s2))
    h.holds(name + ': leans forward', dd.ge(loc[2], dd.c(0)))
    r = dd.sqrt(r2)
    D.turn(name + ': azimuth of the deviation', dd.div(loc[0], r), dd.div(loc[1], r))

def n_sin(a): return dd.leaf(n.sincos(a.node.val)[0])

def sunshape(h):
    I = h.I
    num = h.sc('num_rays', lo=1.0, isint=True); ang = h.sc('ang_range', lo=1e-6, hi=1.57)
    D = Draws(h, 'any')
    a = npm.toarr(I, h.call(S, 'pillbox_sunshape_directions', num, ang))
    D.free()
    if len(a.dims) != 2 or a.dims[0] != 3: h.viol('directions', 'have shape %s' % h.shp(a.dims), h.vloc(a)); return
    length(h, 'number of directions', a.dims[1], num.node, h.vloc(a))
    one = [[dd.c(1 if i == j else 0) for j in range(3)] for i in range(3)]
    pillbox(h, D, I.elems(a), one, ang)

def place(h, kind, d):
    whole = kind == 'whole'; dt = 'i' if whole else 'f'
    c = [dd.leaf(n.atom('center%d' % i, isint=whole)) for i in range(3)]
    return c, h.mk((3, 1), c, dt, 'the caller\'s centre'), h.mk((3,), d, dt, 'the caller\'s direction')

def disk(h, kind, flux):
    I = h.I
    num = h.sc('num_rays', lo=1.0, isint=True); ang = h.sc('ang_range', lo=1e-6, hi=1.57); rad = h.sc('radius', lo=1e-30, isint=kind == 'whole')
    d, g = common(h, kind)
    c, C, DR = place(h, kind, d)
    kw = {}
    if flux: kw['flux'] = h.sc('flux', lo=0.0)
    R = frame(h, d)
    b = h.call(S, 'solar_disk_bundle', num, C, DR, rad, ang, **kw)
    D = Draws(h, 'any')
    D.free()
    v = arrays(h, b, ('vertices', 'directions') + (('energy',) if flux else ()), num.node)
    def go():
        p = [clear(h, x, g) for x in h.vsub(I.elems(v['vertices']), c)]
        q = [clear(h, x, g) for x in I.elems(v['directions'])]
        Rr = [[clear(h, x, g) for x in row] for row in R]
        dv = [clear(h, x, g) for x in d]
        h.eq('position in the plane of the disk', h.dot(p, dv), dd.c(0), loc=h.vloc(v['vertices']))
        r2 = h.dot(p, p)
        D.decide('position: squared distance from the centre', dd.div(r2, dd.mul(rad.node, rad.node)), h.vloc(v['vertices']))
        loc = h.tvec(Rr, p)
        r = dd.sqrt(r2)
        D.turn('position: azimuth', dd.div(loc[0], r), dd.div(loc[1], r), h.vloc(v['vertices']))
        pillbox(h, D, q, Rr, ang)
    h.under(g if g is not None else dd.TRUE, go)
    if flux:
        e = dd.div(dd.mul(dd.mul(dd.leaf(n.pi_()), dd.mul(rad.node, rad.node)), kw['flux'].node), num.node)
        for x in I.elems(v['energy']): h.eq('energy of a ray', x, e, loc=h.vloc(v['energy']))
    h.writes('centre and direction not modified')

def square(h, kind, k):
    """k*k rays"""
    I = h.I
    w = h.sc('width', lo=1e-30, isint=kind == 'whole')
    d, g = common(h, kind)
    c, C, DR = place(h, kind, d)
    num = k * k if k else h.sc('num_rays', lo=1.0, isint=True)
    R = frame(h, d)
    b = h.call(S, 'square_bundle', num, C, DR, w)
    V, Q = npm.toarr(I, h.m(b, 'get_vertices')), npm.toarr(I, h.m(b, 'get_directions'))
    def go():
        if V.dims[0] != 3 or Q.dims[0] != 3: h.viol('square', 'shapes %s, %s' % (h.shp(V.dims), h.shp(Q.dims)), h.vloc(V)); return
        e = npm.dim_eq(I, V.dims[1], Q.dims[1])
        if e is None: h.und('as many directions as positions', 'index spaces'); return
        if not e: h.viol('as many directions as positions', '%s and %s' % (h.shp(V.dims), h.shp(Q.dims)), h.vloc(Q)); return
        h.ok('as many directions as positions')
        ve, qe = I.elems(V), I.elems(Q)
        m = V.dims[1] if isinstance(V.dims[1], int) else 1
        mq = Q.dims[1] if isinstance(Q.dims[1], int) else 1
        for j in range(mq):
            for i in range(3): h.eq('direction of ray %d [%d]' % (j, i), qe[i * mq + j], d[i], loc=h.vloc(Q))
        Rr = [[clear(h, x, g) for x in row] for row in R]
        L = []
        for j in range(m):
            p = [clear(h, dd.sub(ve[i * m + j], c[i]), g) for i in range(3)]
            loc = h.tvec(Rr, p)
            h.eq('position %d in the plane of the square' % j, loc[2], dd.c(0), loc=h.vloc(V))
            L.append(loc[:2])
        if k:
            if isinstance(V.dims[1], int): h.eq('number of rays', dd.c(m), dd.c(k * k), loc=h.vloc(V))
            else: h.und('number of rays', 'symbolic'); return
            left = [(i, j) for i in range(k) for j in range(k)]
            at = lambda i: dd.mul(w.node, dd.c(Fraction(2 * i, k) - 1))
            for j, l in enumerate(L):
                hit = [t for t in left if all(same(x, at(y)) for x, y in zip(l, t))]
                if hit: left.remove(hit[0]); continue
                i0 = left[0]
                h.eq('position %d is a point of the grid' % j, l[0], at(i0[0]), loc=h.vloc(V)); h.eq('position %d is a point of the grid' % j, l[1], at(i0[1]), loc=h.vloc(V))
                return
            h.ok('grid points each once')
        else:
            bases = []
            for q, x in enumerate(L[0]):
                g_ = [t for t in grids(I) if x.var == dd.LEAF and t[0].fp == x.val.fp]
                if not g_: h.und('coordinate %d' % q, 'not a recorded grid'); continue
                val, sn, en, pn, ax = g_[0]
                h.eq('coordinate %d starts at' % q, sn, dd.neg(w.node)); h.eq('coordinate %d ends before' % q, en, w.node)
                h.eq('coordinate %d spacing' % q, pn, dd.div(dd.mul(dd.c(2), w.node), dd.sqrt(num.node)))
                bases.append(ax.base)
            if len(bases) == 2: h.eq('the coordinates vary independently', dd.TRUE if bases[0] is not bases[1] else dd.FALSE, dd.TRUE)
    h.under(g if g is not None else dd.TRUE, go)
    h.writes('centre and direction not modified')

def grids(I):
    out = list(I.grids)
    for val, sn, en, pn, ax in I.grids:
        if getattr(ax.base, 'twin', None) is not None:
            b = Axis(ax.base.twin)
            out.append((subst(dd.leaf(val), ax, b).val, sn, en, pn, b))
    return out

def same(x, y): return x.var == dd.LEAF and y.var == dd.LEAF and dd.asnum(x.val).fp == dd.asnum(y.val).fp

def run(rep):
    rep.case('pillbox sunshape', sunshape)
    for k in ('any', 'up', 'down', 'whole'):
        rep.case('disk/%s' % k, disk, k, False)
        rep.case('disk with flux/%s' % k, disk, k, True)
        for s in (1, 2, 3, 4, 5): rep.case('square of %d rays/%s' % (s * s, k), square, k, s)
        rep.case('square of any number of rays/%s' % k, square, k, 0)
