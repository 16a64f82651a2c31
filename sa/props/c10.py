"""Trimmed surfaces accept a hit exactly when it lies within their aperture."""
from ..geom_h import *

RULE = ('Value numbering of find_intersections of every trimmed geometry over a generic ray and rigid frame: the decision diagram of the reported parameter must be '
        'that of "first root, in ascending order, that is positive and whose local point satisfies the documented aperture; else +inf". Bounding volumes: the '
        'membership diagram must be the documented inequality on the point expressed in the volume\'s own placed frame.')

def hits(h, S, direction=None):
    s = Setup(h, S(), direction=direction)
    prm = s.find()
    h.same('parameter', prm, h.mk((s.ax,), [s.expected()]), s.care, boundary=False)

def points(h, S, direction=None):
    s = Setup(h, S(), direction=direction)
    prm = s.find()
    p = h.I.elems(npm.toarr(h.I, prm))[0]
    sub = s.select(prm)
    h.same('hit points', h.m(s.gm, 'get_intersection_points_global'), h.mk((3, sub), s.point(p)), s.care, boundary=False)

def parallel(h, S, direction):
    s = Setup(h, S(), direction=direction)
    prm = s.find()
    sh = s.shape
    want = INF
    if isinstance(sh, Paraboloid):
        a, b = sh.ab()
        z = dd.add(dd.mul(a, sq(s.lv[0])), dd.mul(b, sq(s.lv[1])))
        p = dd.div(dd.sub(z, s.lv[2]), s.ld[2])
        want = dd.ite(dd.and_(dd.gt(p, dd.c(0)), sh.aperture(h, s.point(p, s.lv, s.ld))), p, INF)
    h.same('parameter', prm, h.mk((s.ax,), [want]), boundary=False)

def refuse(h, mod, cls, mk):
    """non-positive dimensions are rejected"""
    x = h.sc('dimension', hi=0.0)
    v, r = h.attempt(lambda: h.new(mod, cls, *mk(h, x)))
    cond = dd.FALSE
    for st, e, loc, tr in r:
        if e.exc == 'ValueError': cond = dd.or_(cond, st.pc)
    h.holds('rejected', cond)

# ---- bounding volumes -------------------------------------------------------
def placed(h, cls, *args, **kw):
    """a boundary with its own location/rotation, then placed by a parent frame"""
    I = h.I
    B, R, t = h.frame('own')
    if cls == 'BoundarySphere': kw2 = dict(location=h.mk((3,), t))
    else: kw2 = dict(location=h.mk((3,), t), rotation=h.mk((3, 3), R[0] + R[1] + R[2]))
    kw2.update(kw)
    b = h.new('tracer.boundary_shape', cls, *args, **kw2)
    ax = h.axis('pt')
    P = h.arr('p', ax, 3)
    p = h.I.elems(P)
    return b, (R, t), ax, P, p

def local(h, own, par, p):
    """own frame coordinates of global p, with parent frame par (or None)"""
    if par is not None: p = h.tvec(par[0], h.vsub(p, par[1]))
    return h.tvec(own[0], h.vsub(p, own[1]))

def inb(h, cls, mkargs, pred, moved):
    args, want = mkargs(h)
    b, own, ax, P, p = placed(h, cls, *args[0], **args[1])
    par = None
    if moved:
        F, R, t = h.frame('parent')
        h.m(b, 'transform_frame', F); par = (R, t)
    q = local(h, own, par, p)
    h.same('membership', h.m(b, 'in_bounds', P), h.mk((ax,), [pred(h, q, want)], 'b'), boundary=False)

def sphere_args(h):
    r = h.sc('radius', lo=1e-30); return ([], dict(radius=r)), r.node
def cyl_args(h):
    r = h.sc('diameter', lo=1e-30); return ([], dict(diameter=r)), dd.mul(r.node, dd.c(Fraction(1, 2)))
def none_args(h): return ([], {}), None
def p_sphere(h, q, r): return dd.le(h.dot(q, q), sq(r))
def p_cyl(h, q, r): return dd.le(h.dot(q[:2], q[:2]), sq(r))
def p_plane(h, q, r): return dd.ge(q[2], dd.c(0))

def rect(h, moved):
    r = h.sc('radius', lo=1e-30)
    t = [dd.leaf(n.atom('loc%d' % i)) for i in range(3)]
    b = h.new('tracer.boundary_shape', 'BoundarySphere', location=h.mk((3,), t), radius=r)
    c = t
    if moved:
        F, R, tt = h.frame('parent')
        h.m(b, 'transform_frame', F)
        c = h.vadd(h.matvec(R, t), tt)
    G, GR, Gt = h.frame('plane')
    got = h.m(b, 'bounding_rect_for_plane', G)
    q = h.tvec(GR, h.vsub(c, Gt))
    cut = dd.gt(sq(r.node), sq(q[2]))      # the plane cuts the sphere
    re2 = dd.sub(sq(r.node), sq(q[2]))
    re = dd.sqrt(re2)
    items = h.items(got)
    vals = [x for _, x in items]
    I = h.I
    nd = [I.elems(npm.toarr(I, v))[0] for v in vals]
    want = [dd.sub(q[0], re), dd.add(q[0], re), dd.sub(q[1], re), dd.add(q[1], re)]
    for nm, g, w in zip(('xmin', 'xmax', 'ymin', 'ymax'), nd, want):
        # encloses: min <= true min, max >= true max
        c1 = dd.le(g, w) if nm.endswith('min') else dd.ge(g, w)
        h.holds(nm, c1, cut, boundary=False)

def run(rep):
    for S in TRIMMED:
        rep.case(S.name + '/parameter', hits, S)
        rep.case(S.name + '/points', points, S)
        rep.case(S.name + '/parameter of rays given in whole numbers', hits, S, 'whole')
        rep.case(S.name + '/points of rays given in whole numbers', points, S, 'whole')
    for S in (RectPlate, RoundPlate, Triangle): rep.case(S.name + '/parallel rays', parallel, S, 'across')
    rep.case('finite cylinder/rays along the axis', parallel, FiniteCylinder, 'axis')
    rep.case('finite cylinder/rays down the axis', parallel, FiniteCylinder, 'down')
    for S in (Dish, HexDish):
        rep.case(S.name + '/rays along the axis', parallel, S, 'axis')
        rep.case(S.name + '/rays down the axis', parallel, S, 'down')
    one = h1 = None
    F = 'tracer.flat_surface'
    rep.case('rectangular plate/bad width', refuse, F, 'RectPlateGM', lambda h, x: [x, h.sc('other', lo=1e-30)])
    rep.case('rectangular plate/bad height', refuse, F, 'RectPlateGM', lambda h, x: [h.sc('other', lo=1e-30), x])
    rep.case('round plate/bad radius', refuse, F, 'RoundPlateGM', lambda h, x: [x])
    rep.case('sphere/bad radius', refuse, 'tracer.sphere_surface', 'SphericalGM', lambda h, x: [x])
    for moved in (False, True):
        m = '/in a parent frame' if moved else '/alone'
        rep.case('bounding sphere' + m, inb, 'BoundarySphere', sphere_args, p_sphere, moved)
        rep.case('bounding cylinder' + m, inb, 'BoundaryCylinder', cyl_args, p_cyl, moved)
        rep.case('bounding half space' + m, inb, 'BoundaryPlane', none_args, p_plane, moved)
        rep.case('rectangle of a bounding sphere' + m, rect, moved)
