"""Untrimmed surfaces: intersections lie on the ray and on the surface."""
from ..geom_h import *

RULE = ('Value numbering of find_intersections over a generic ray (generic origin, generic unit direction) and a generic rigid frame: the parameter must be the '
        'value number of the smallest positive root of the surface\'s equation along the ray, +inf where none is positive; the reported point must be '
        'origin + parameter * direction. Rays nearly parallel to the plane/axis (|cos| or sin^2 <= 1e-6) are covered only at exact parallelism.')

def hits(h, S, direction=None):
    s = Setup(h, S(), direction=direction)
    prm = s.find()
    h.same('parameter', prm, h.mk((s.ax,), [s.expected()]), s.care, boundary=False)

def points(h, S, direction=None):
    s = Setup(h, S(), direction=direction)
    prm = s.find()
    P = npm.toarr(h.I, prm)
    p = h.I.elems(P)[0]
    sub = s.select(prm)
    got = h.m(s.gm, 'get_intersection_points_global')
    h.same('hit points', got, h.mk((3, sub), s.point(p)), s.care, boundary=False)

def parallel(h, S, direction):
    s = Setup(h, S(), direction=direction)
    prm = s.find()
    c = dd.TRUE
    if isinstance(s.shape, Paraboloid):
        # along the axis: z = a x^2 + b y^2, one root
        a, b = s.shape.ab()
        z = dd.add(dd.mul(a, sq(s.lv[0])), dd.mul(b, sq(s.lv[1])))
        p = dd.div(dd.sub(z, s.lv[2]), s.ld[2])
        want = dd.ite(dd.gt(p, dd.c(0)), p, INF)
    else: want = INF
    h.same('parameter', prm, h.mk((s.ax,), [want]), c, boundary=False)

def run(rep):
    for S in UNTRIMMED:
        rep.case(S.name + '/parameter', hits, S)
        rep.case(S.name + '/points', points, S)
        rep.case(S.name + '/parameter of rays given in whole numbers', hits, S, 'whole')
        rep.case(S.name + '/points of rays given in whole numbers', points, S, 'whole')
    rep.case('infinite plane/parallel rays', parallel, Plane, 'across')
    rep.case('infinite cylinder/rays along the axis', parallel, Cylinder, 'axis')
    rep.case('infinite cylinder/rays down the axis', parallel, Cylinder, 'down')
    rep.case('paraboloid/rays along the axis', parallel, Paraboloid, 'axis')
    rep.case('paraboloid/rays down the axis', parallel, Paraboloid, 'down')
