"""Placeable things for the checks of frames (C07, C08, C24)."""
from .harness import *
from .engine_h import Stub

def I3(h): return [[dd.c(int(i == j)) for j in range(3)] for i in range(3)]
def Z3(h): return [dd.c(0)] * 3
def frame_of(h, R, t, tag=None):
    el = []
    for i in range(3): el += list(R[i]) + [t[i]]
    return h.mk((4, 4), el + [dd.c(0), dd.c(0), dd.c(0), dd.c(1)], tag=tag)

class NoGeom(Stub):
    """geometry manager that records the frame it is given"""
    kind = name = 'geometry'
    def __init__(self): self.frames = []
    def m_find_intersections(self, I, frame, bundle):
        self.frames.append((I.pc, frame, list(I.elems(npm.toarr(I, frame)))))
        V = npm.toarr(I, I.meth(bundle, 'get_vertices'))
        return I.new_arr((V.dims[1],), [dd.c(n.INF)])
    def m_done(self, I): pass

MODS = dict(HasFrame='tracer.has_frame', Surface='tracer.surface', Assembly='tracer.assembly', AssembledObject='tracer.object',
    BoundarySphere='tracer.boundary_shape', BoundaryCylinder='tracer.boundary_shape', BoundaryPlane='tracer.boundary_shape')

_shared = {}
def thing(h, cls, given):
    """a new placeable; given: None (defaults), 'own' (placed when built), 'shared' (the same arrays for every call)"""
    R, t = I3(h), Z3(h)
    kw = {}
    args = []
    if cls == 'Surface': args = [NoGeom(), NoGeom()]
    if given:
        cache = h.__dict__.setdefault('_shared', {})
        if given == 'shared' and cls in cache: R, t, kw = cache[cls]
        else:
            F, R, t = h.frame('built', tag='the array given when built')
            if cls == 'AssembledObject': kw = dict(transform=F)
            else: kw = dict(location=h.mk((3,), t, tag='the location given when built'), rotation=h.mk((3, 3), R[0] + R[1] + R[2], tag='the rotation given when built'))
            cache[cls] = (R, t, kw)
    return h.new(MODS[cls], cls, *args, **kw), R, t

def place(h, o, op, R, t, k):
    """move o generically; -> new (R, t)"""
    if op.startswith('whole '):
        # arrays of whole numbers, such as translate(1, 2, 3) makes
        tag = 'array %s used for placing' % k
        t1 = [h.sc('P%s.whole%d' % (k, i), isint=True).node for i in range(3)]
        R1 = [[dd.c(x) for x in r] for r in ((0, -1, 0), (1, 0, 0), (0, 0, 1))]
        if op == 'whole location': h.m(o, 'set_location', h.mk((3,), t1, 'i', tag)); return R, t1
        if op == 'whole rotation': h.m(o, 'set_rotation', h.mk((3, 3), R1[0] + R1[1] + R1[2], 'i', tag)); return R1, t
        el = []
        for i in range(3): el += list(R1[i]) + [t1[i]]
        h.m(o, 'set_transform', h.mk((4, 4), el + [dd.c(0)] * 3 + [dd.c(1)], 'i', tag)); return R1, t1
    if op.startswith('slight '):
        # a move by very little
        tag = 'array %s used for placing' % k
        t1 = [dd.add(x, dd.c(Fraction(e, 10**9))) for x, e in zip(t, (1, -2000, 3))]
        q = Fraction(1, 5 * 10**6)
        cs, sn = (1 - q * q) / (1 + q * q), 2 * q / (1 + q * q)
        R1 = [[dd.add(dd.mul(r[0], dd.c(cs)), dd.mul(r[1], dd.c(sn))), dd.sub(dd.mul(r[1], dd.c(cs)), dd.mul(r[0], dd.c(sn))), r[2]] for r in R]
        if op == 'slight location': h.m(o, 'set_location', h.mk((3,), t1, tag=tag)); return R, t1
        if op == 'slight rotation': h.m(o, 'set_rotation', h.mk((3, 3), R1[0] + R1[1] + R1[2], tag=tag)); return R1, t
        el = []
        for i in range(3): el += list(R1[i]) + [t1[i]]
        h.m(o, 'set_transform', h.mk((4, 4), el + [dd.c(0)] * 3 + [dd.c(1)], tag=tag)); return R1, t1
    F, R1, t1 = h.frame('P' + k, tag='array %s used for placing' % k)
    if op == 'location': h.m(o, 'set_location', h.mk((3,), t1, tag='array %s used for placing' % k)); return R, t1
    if op == 'rotation': h.m(o, 'set_rotation', h.mk((3, 3), R1[0] + R1[1] + R1[2], tag='array %s used for placing' % k)); return R1, t
    h.m(o, 'set_transform', F); return R1, t1
