"""Specification of the geometry managers: what a ray meets, where, with which normal."""
from .harness import *

INF = dd.c(n.INF)
TOL = dd.c(Fraction(1, 1000000))

class Shape(object):
    """local-frame description; `p` are three nodes"""
    name = mod = cls = None
    flat = False
    def args(self, h): return []
    def aperture(self, h, p): return dd.TRUE
    def care(self, h, v, d): return dd.TRUE
    def build(self, h): return h.new(self.mod, self.cls, *self.args(h))

def sq(x): return dd.mul(x, x)
def lessor(a, b): return dd.le(a, b)
def within(x, r): return dd.le(dd.abs_(x), r)

class Plane(Shape):
    mod, cls, name, flat = 'tracer.flat_surface', 'FlatGeometryManager', 'infinite plane', True
    def normal(self, h, p): return [dd.c(0), dd.c(0), dd.c(1)]
    def roots(self, h, v, d):
        """[(valid, parameter)] ascending"""
        return [(dd.TRUE, dd.neg(dd.div(v[2], d[2])))]
    def care(self, h, v, d): return dd.gt(dd.abs_(d[2]), TOL)

class RectPlate(Plane):
    cls, name = 'RectPlateGM', 'rectangular plate'
    def args(self, h):
        self.w, self.hh = h.sc('width', lo=1e-30), h.sc('height', lo=1e-30)
        return [self.w, self.hh]
    def aperture(self, h, p):
        return dd.and_(within(p[0], half(self.w)), within(p[1], half(self.hh)))

class RoundPlate(Plane):
    cls, name = 'RoundPlateGM', 'round plate'
    def args(self, h):
        self.R = h.sc('R', lo=1e-30)
        return [self.R]
    def aperture(self, h, p): return dd.le(dd.add(sq(p[0]), sq(p[1])), sq(self.R.node))

def half(s): return dd.mul(s.node, dd.c(Fraction(1, 2)))

class Triangle(Plane):
    mod, cls, name = 'tracer.triangular_face', 'TriangularFace', 'triangular face'
    def args(self, h):
        self.a = [dd.leaf(n.atom('ax')), dd.leaf(n.atom('ay')), dd.c(0)]
        self.b = [dd.leaf(n.atom('bx')), dd.leaf(n.atom('by')), dd.c(0)]
        el = [self.a[0], self.b[0], self.a[1], self.b[1], dd.c(0), dd.c(0)]
        return [h.mk((3, 2), el, tag='triangle vertices')]
    def bary(self, p):
        det = dd.sub(dd.mul(self.a[0], self.b[1]), dd.mul(self.a[1], self.b[0]))
        u = dd.div(dd.sub(dd.mul(p[0], self.b[1]), dd.mul(p[1], self.b[0])), det)
        w = dd.div(dd.sub(dd.mul(self.a[0], p[1]), dd.mul(self.a[1], p[0])), det)
        return u, w
    def aperture(self, h, p):
        u, w = self.bary(p)
        return dd.and_(dd.and_(dd.ge(u, dd.c(0)), dd.ge(w, dd.c(0))), dd.le(dd.add(u, w), dd.c(1)))

class Quadric(Shape):
    def roots(self, h, v, d):
        A, B, C = self.abc(h, v, d)
        D = dd.sub(sq(B), dd.mul(dd.c(4), dd.mul(A, C)))
        ok = dd.ge(D, dd.c(0))
        r = dd.sqrt(D)
        i2a = dd.div(dd.c(1), dd.mul(dd.c(2), A))
        return [(ok, dd.mul(dd.sub(dd.neg(B), r), i2a)), (ok, dd.mul(dd.add(dd.neg(B), r), i2a))]
    def care(self, h, v, d): return dd.gt(self.abc(h, v, d)[0], TOL)

class Sphere(Quadric):
    mod, cls, name = 'tracer.sphere_surface', 'SphericalGM', 'sphere'
    def args(self, h):
        self.r = h.sc('radius', lo=1e-30)
        return [self.r]
    def abc(self, h, v, d): return h.dot(d, d), dd.mul(dd.c(2), h.dot(d, v)), dd.sub(h.dot(v, v), sq(self.r.node))
    def normal(self, h, p): return p

class Hemisphere(Sphere):
    cls, name = 'HemisphereGM', 'hemisphere'
    def aperture(self, h, p): return dd.le(p[2], dd.c(0))

class CutSphere(Sphere):
    """bounded by an opaque volume, given by its own in_bounds()"""
    cls, name = 'CutSphereGM', 'cut sphere'
    bound = None
    def args(self, h):
        a = Sphere.args(self, h)
        self.F, self.BR, self.Bt = None, None, None
        if self.bound == 'plane':
            R = h.rotation('boundrot')
            self.BR, self.Bt = R, [dd.leaf(n.atom('boundloc%d' % i)) for i in range(3)]
            b = h.new('tracer.boundary_shape', 'BoundaryPlane', location=h.mk((3,), self.Bt), rotation=h.mk((3, 3), R[0] + R[1] + R[2]))
            a.append(b)
        return a
    def aperture(self, h, p):
        if self.bound is None: return dd.TRUE
        q = h.tvec(self.BR, h.vsub(p, self.Bt))
        return dd.ge(q[2], dd.c(0))

class CutSpherePlane(CutSphere):
    bound = 'plane'; name = 'sphere cut by a half space'

class Cylinder(Quadric):
    mod, cls, name = 'tracer.cylinder', 'InfiniteCylinder', 'infinite cylinder'
    def args(self, h):
        self.d = h.sc('diameter', lo=1e-30)
        return [self.d]
    def abc(self, h, v, d):
        v, d = v[:2], d[:2]
        return h.dot(d, d), dd.mul(dd.c(2), h.dot(d, v)), dd.sub(h.dot(v, v), sq(half(self.d)))
    def normal(self, h, p): return [p[0], p[1], dd.c(0)]

class FiniteCylinder(Cylinder):
    cls, name = 'FiniteCylinder', 'finite cylinder'
    def args(self, h):
        self.hh = h.sc('height', lo=1e-30)
        return Cylinder.args(self, h) + [self.hh]
    def aperture(self, h, p): return within(p[2], half(self.hh))

class Paraboloid(Quadric):
    mod, cls, name = 'tracer.paraboloid', 'Paraboloid', 'paraboloid'
    def args(self, h):
        self.pa, self.pb = h.sc('a', lo=1e-30), h.sc('b', lo=1e-30)
        return [self.pa, self.pb]
    def ab(self): return dd.div(dd.c(1), sq(self.pa.node)), dd.div(dd.c(1), sq(self.pb.node))
    def abc(self, h, v, d):
        a, b = self.ab()
        A = dd.add(dd.mul(a, sq(d[0])), dd.mul(b, sq(d[1])))
        B = dd.sub(dd.mul(dd.c(2), dd.add(dd.mul(a, dd.mul(v[0], d[0])), dd.mul(b, dd.mul(v[1], d[1])))), d[2])
        C = dd.sub(dd.add(dd.mul(a, sq(v[0])), dd.mul(b, sq(v[1]))), v[2])
        return A, B, C
    def normal(self, h, p):
        a, b = self.ab()
        return [dd.mul(dd.c(-2), dd.mul(a, p[0])), dd.mul(dd.c(-2), dd.mul(b, p[1])), dd.c(1)]

class Dish(Paraboloid):
    cls, name = 'ParabolicDishGM', 'parabolic dish'
    def args(self, h):
        self.d, self.f = h.sc('diameter', lo=1e-30), h.sc('focal_length', lo=1e-30)
        return [self.d, self.f]
    def ab(self):
        a = dd.div(dd.c(1), dd.mul(dd.c(4), self.f.node))
        return a, a
    def aperture(self, h, p): 
        # on the surface, z <= rim height <=> x^2+y^2 <= (d/2)^2
        return dd.le(p[2], dd.mul(self.ab()[0], sq(half(self.d))))

class HexDish(Dish):
    cls, name = 'HexagonalParabolicDishGM', 'hexagonal dish'
    def aperture(self, h, p):
        R = half(self.d)
        x, y = dd.abs_(p[0]), dd.abs_(p[1])
        s3 = dd.sqrt(dd.c(3))
        a = dd.le(x, dd.mul(s3, dd.mul(R, dd.c(Fraction(1, 2)))))
        b = dd.le(y, dd.sub(R, dd.div(x, s3)))
        return dd.and_(a, b)

UNTRIMMED = [Plane, Sphere, Cylinder, Paraboloid]
TRIMMED = [RectPlate, RoundPlate, Triangle, Hemisphere, CutSphere, CutSpherePlane, FiniteCylinder, Dish, HexDish]
ALL = UNTRIMMED + TRIMMED

class Setup(object):
    def __init__(self, h, shape, tag=None, direction=None):
        """direction: 'axis' = along the local Z, 'across' = in the local XY plane, 'whole' = given in whole numbers, None = any"""
        self.h, self.I = h, h.I
        self.shape = shape
        self.ax = h.axis('ray')
        self.gm = shape.build(h)
        self.F, self.R, self.t = h.frame('frame', tag=tag and tag + ' frame')
        kw = {}
        if direction == 'whole':      # arrays of whole numbers
            self.vi = [h.node('whole pos%s@ray' % c_, self.ax, isint=True) for c_ in 'xyz']
            kw['vertices'] = h.mk((3, self.ax), self.vi, 'i', tag and tag + ' vertices')
            kw['directions'] = h.mk((3, self.ax), [dd.c(0), dd.c(-1), dd.c(0)], 'i', tag and tag + ' directions')
        elif direction:
            if direction == 'axis': loc = [dd.c(0), dd.c(0), dd.c(1)]
            elif direction == 'down': loc = [dd.c(0), dd.c(0), dd.c(-1)]
            else:
                u = n.atom('u@ray', deps=frozenset([self.ax.base.id])); i = n.inv(n.add(n.const(1), n.mul(u, u)))
                loc = [dd.leaf(n.mul(n.mul(n.const(2), u), i)), dd.leaf(n.mul(n.sub(n.const(1), n.mul(u, u)), i)), dd.c(0)]
            kw['directions'] = h.mk((3, self.ax), h.matvec(self.R, loc), tag=tag and tag + ' directions')
        self.bund, self.vals = h.bundle(self.ax, tag=tag, **kw)
        self.frame2()
    def frame2(self):
        h = self.h
        self.v = h.I.elems(self.vals['vertices']); self.d = h.I.elems(self.vals['directions'])
        self.lv = h.tvec(self.R, h.vsub(self.v, self.t)); self.ld = h.tvec(self.R, self.d)
        self.care = self.shape.care(h, self.lv, self.ld)
    def point(self, p, v=None, d=None):
        h = self.h
        return h.vadd(v or self.v, h.smul(p, d or self.d))
    def expected(self):
        """the specified parameter"""
        h, s = self.h, self.shape
        r = INF
        for ok, p in reversed(s.roots(h, self.lv, self.ld)):
            hit = dd.and_(ok, dd.gt(p, dd.c(0)))
            pt = self.point(p, self.lv, self.ld)
            hit = dd.and_(hit, s.aperture(h, pt))
            r = dd.ite(hit, p, r)
        return r
    def find(self): return self.h.m(self.gm, 'find_intersections', self.F, self.bund)
    def select(self, prm, extra=True):
        """select an arbitrary subset of the rays that hit"""
        h, I = self.h, self.I
        P = npm.toarr(I, prm)
        fin = dd.not_(dd.isinf(I.elems(P)[0]))
        if extra: fin = dd.and_(fin, dd.batom('chosen@ray', deps=frozenset([self.ax.base.id])))
        m = I.new_arr((self.ax,), [fin], 'b')
        self.idx = npm.nonzero(I, m)[0]
        h.m(self.gm, 'select_rays', self.idx)
        self.sub = npm.toarr(I, self.idx).dims[0]
        return self.sub
