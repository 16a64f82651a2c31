"""Normals are unit length, perpendicular to the surface, and face the ray."""
from ..geom_h import *

RULE = ('Value numbering of select_rays/get_normals of every geometry manager over a generic ray, rigid frame and an arbitrary subset of the hitting rays: the normal '
        'must be, component by component, the frame\'s rotation applied to the normalised gradient of the surface\'s equation at the hit point, negated exactly '
        'where its product with the ray direction is positive; it must be indexed by the same index space as the hit points and the selected rays.')

def normals(h, S, direction=None):
    s = Setup(h, S(), direction=direction)
    I = h.I
    prm = s.find()
    p = I.elems(npm.toarr(I, prm))[0]
    sub = s.select(prm)
    nl = s.shape.normal(h, s.point(p, s.lv, s.ld))
    ln = dd.sqrt(h.dot(nl, nl))
    ng = h.matvec(s.R, [dd.div(x, ln) for x in nl])
    away = dd.gt(h.dot(ng, s.d), dd.c(0))
    want = [dd.ite(away, dd.neg(x), x) for x in ng]
    got = h.m(s.gm, 'get_normals')
    h.same('normals', got, h.mk((3, sub), want), s.care, boundary=False)
    again = h.m(s.gm, 'get_normals')
    h.same('normals asked again', again, h.mk((3, sub), want), s.care, boundary=False)
    pts = npm.toarr(I, h.m(s.gm, 'get_intersection_points_global'))
    h.same('points correspond to the selected rays', pts, h.mk((3, sub), s.point(p)), s.care, boundary=False)
    up = h.m(s.gm, 'up')
    h.same('up direction', up, h.mk((3,), [s.R[i][2] for i in range(3)]))

def empty(h, S):
    """nothing selected: empty normals and points"""
    s = Setup(h, S())
    s.find()
    h.m(s.gm, 'select_rays', h.mk((0,), [], 'i'))
    h.same('no normals', h.m(s.gm, 'get_normals'), h.mk((3, 0), []))
    h.same('no points', h.m(s.gm, 'get_intersection_points_global'), h.mk((3, 0), []))

def run(rep):
    for S in ALL:
        rep.case(S.name, normals, S)
        rep.case(S.name + '/rays given in whole numbers', normals, S, 'whole')
        rep.case(S.name + '/nothing selected', empty, S)
