"""Heliostats reflect the sun to the target."""
from ..harness import *

RULE = ('Value numbering of building and (repeatedly) aiming fields of heliostats at generic positions, with generic sun angles and aim heights: the frame of every heliostat must be a proper rotation '
        'whose Z axis has the value number of the unit bisector of the directions to the sun and to the target as currently set, and whose origin is its position; likewise for its '
        'reflecting surface. Sun vector against its closed form; radial-stagger layouts of every small number of rings and spokes against the documented rings.')
M = 'tracer.models.heliostat_field'

def sun(h, k=''):
    az = h.sc('azimuth' + k); el = h.sc('elevation' + k, lo=1e-6, hi=3.1415)
    sa, ca = [dd.leaf(x) for x in n.sincos(az.node.val)]
    se, ce = [dd.leaf(x) for x in n.sincos(el.node.val)]
    return az, el, [dd.neg(dd.mul(sa, se)), dd.neg(dd.mul(ca, se)), ce]

def vector(h):
    az, el, v = sun(h)
    h.same('solar vector', h.call(M, 'solar_vector', az, el), h.mk((3,), v))

def unit(h, v):
    l = dd.sqrt(h.dot(v, v))
    return [dd.div(x, l) for x in v]

class Field(object):
    def __init__(self, h, k, moved=False):
        self.h, self.k = h, k
        # every position, written as a distance and a direction from the target (of the last aiming)
        last = h.sc('final aim height')
        self.dir = [h.unit('direction to the target %d' % i) for i in range(k)]
        self.pos = []
        for i in range(k):
            L = h.sc('distance to the target %d' % i, lo=1e-30).node; n.register_root(L.val)
            self.pos.append(h.vsub([dd.c(0), dd.c(0), last.node], h.smul(L, self.dir[i])))
        self.last = last
        P = h.mk((k, 3), [x for p in self.pos for x in p], tag="the caller's positions")
        w, ht, ab, th = h.sc('width', lo=1e-30), h.sc('height', lo=1e-30), h.sc('absorptivity', lo=0.0, hi=1.0), (h.sc('aim height') if moved else last)
        self.f = h.new(M, 'HeliostatField', P, w, ht, ab, th)
        self.ab = ab; self.w, self.ht = w, ht
        self.hs = h.items(h.m(self.f, 'get_heliostats'))
        h.eq('one heliostat per position', dd.c(len(self.hs)), dd.c(k))
        objs = h.items(h.m(self.f, 'get_objects'))
        h.eq('all heliostats are in the field', dd.TRUE if [o for _, o in objs] == [o for _, o in self.hs] else dd.FALSE, dd.TRUE)
    def frames(self, when):
        h, I = self.h, self.h.I
        for i, (g, o) in enumerate(self.hs):
            yield i, o, '%s: heliostat %d' % (when, i), I.elems(npm.toarr(I, h.m(o, 'get_transform')))
    def proper(self, nm, F):
        h = self.h
        col = [[F[4 * r + c] for r in range(3)] for c in range(3)]
        for a in range(3):
            for b in range(a, 3): h.eq('%s: axes %d,%d' % (nm, a, b), h.dot(col[a], col[b]), dd.c(int(a == b)))
        for r, (x, y) in enumerate(zip(h.cross(col[0], col[1]), col[2])): h.eq('%s: right-handed [%d]' % (nm, r), x, y)
        for c in range(4): h.eq('%s: last row [%d]' % (nm, c), F[12 + c], dd.c(int(c == 3)))
    def checks(self, when, normal):
        h, I = self.h, self.h.I
        for i, o, nm, F in self.frames(when):
            self.proper(nm, F)
            z = normal(i)
            for r in range(3):
                h.eq('%s: position [%d]' % (nm, r), F[4 * r + 3], self.pos[i][r], why='not at its own position')
                h.eq('%s: normal [%d]' % (nm, r), F[4 * r + 2], z[r], why='normal')
            # the reflecting surface itself, as tracing uses it
            ss = h.items(h.m(o, 'get_surfaces'))
            pts = [[self.pos[i][r] for r in range(3)], h.vadd(self.pos[i], z)]
            P = h.mk((3, 2), [pts[c][r] for r in range(3) for c in range(2)])
            L = npm.toarr(I, h.m(ss[0][1], 'global_to_local', P))
            el = I.elems(L)
            for c, w in enumerate(([0, 0, 0], [0, 0, 1])):
                for r in range(3): h.eq('%s: its mirror %s [%d]' % (nm, 'lies there' if c == 0 else 'faces there', r), el[2 * r + c], dd.c(w[r]))

def down(h, k):
    f = Field(h, k)
    f.checks('before aiming', lambda i: [dd.c(0), dd.c(0), dd.c(-1)])
    h.writes('positions not modified')

def aim(h, k, steps):
    """the frames after the last step; the aim height is 'last' only then"""
    mv = [j for j, s in enumerate(steps) if s == 'height']
    f = Field(h, k, bool(mv))
    for j, s in enumerate(steps):
        if s == 'height':
            h.m(f.f, 'set_aim_height', f.last if j == mv[-1] else h.sc('aim height %d' % j)); continue
        az, el, v = sun(h, str(j))
        h.m(f.f, 'aim_to_sun', az, el)
    f.checks('aimed', lambda i: unit(h, h.vadd(f.dir[i], v)))
    h.writes('positions not modified')

def overhead(h):
    """sun and target both straight above"""
    f = Field(h, 1)
    f.pos = None
    z, L = h.sc('height'), h.sc('distance', lo=1e-30); n.register_root(L.node.val)
    P = h.mk((1, 3), [dd.c(0), dd.c(0), dd.sub(z.node, L.node)])
    f.f = h.new(M, 'HeliostatField', P, f.w, f.ht, f.ab, z)
    f.pos = [[dd.c(0), dd.c(0), dd.sub(z.node, L.node)]]
    f.hs = h.items(h.m(f.f, 'get_heliostats'))
    h.m(f.f, 'aim_to_sun', h.sc('azimuth'), Sc(dd.c(0), 'f'))
    f.checks('aimed', lambda i: [dd.c(0), dd.c(0), dd.c(1)])

def whole(h, aims):
    """positions given in whole numbers"""
    f = Field(h, 2)
    P = [[3, 0, 0], [0, -12, -1]]
    f.pos = [[dd.c(x) for x in p] for p in P]
    f.dir = [[dd.c(Fraction(x)) for x in d] for d in (('-3/5', 0, '4/5'), (0, '12/13', '5/13'))]
    f.f = h.new(M, 'HeliostatField', h.mk((2, 3), [x for p in f.pos for x in p], 'i', tag="the caller's positions"), f.w, f.ht, f.ab, Sc(dd.c(4), 'f'))
    f.hs = h.items(h.m(f.f, 'get_heliostats'))
    if not aims: f.checks('before aiming', lambda i: [dd.c(0), dd.c(0), dd.c(-1)])
    for k in range(aims):
        az, el, v = sun(h, str(k))
        h.m(f.f, 'aim_to_sun', az, el)
    if aims: f.checks('aimed', lambda i: unit(h, h.vadd(f.dir[i], v)))
    h.writes('positions not modified')

def stagger(h, nr, na):
    """nr rings, na half-steps of angle"""
    I = h.I
    s, az, r0, dr = h.sc('start_ang'), h.sc('az_space', lo=1e-30), h.sc('rmin', lo=1e-30), h.sc('r_space', lo=1e-30)
    end = Sc(dd.add(s.node, dd.mul(az.node, dd.c(Fraction(2 * na - 1, 4)))), 'f')
    r1 = Sc(dd.add(r0.node, dd.mul(dr.node, dd.c(Fraction(2 * nr - 1, 2)))), 'f')
    a = npm.toarr(I, h.call(M, 'radial_stagger', s, end, az, r0, r1, dr))
    want = []
    for i in range(nr):
        for j in range(na):
            if i % 2 != j % 2: continue
            ang = n.add(s.node.val, n.mul(az.node.val, n.const(Fraction(j, 2))))
            S, C = n.sincos(ang)
            r = dd.add(r0.node, dd.mul(dr.node, dd.c(i)))
            want.append((dd.mul(r, dd.leaf(C)), dd.mul(r, dd.leaf(S)), 'ring %d, spoke %d' % (i, j)))
    if len(a.dims) != 2 or a.dims[1] != 2 or not isinstance(a.dims[0], int):
        if all(isinstance(d, int) for d in a.dims): h.viol('layout', 'shape %s' % h.shp(a.dims), h.vloc(a))
        else: h.und('layout', 'shape %s' % h.shp(a.dims))
        return
    h.eq('number of heliostats', dd.c(a.dims[0]), dd.c(len(want)), loc=h.vloc(a))
    el = I.elems(a)
    fp = lambda x: dd.asnum(x.val).fp if x.var == dd.LEAF else None
    left = list(want)
    for k in range(a.dims[0]):
        hit = [w for w in left if fp(w[0]) == fp(el[2 * k]) and fp(w[1]) == fp(el[2 * k + 1])]
        if hit: left.remove(hit[0]); h.ok('heliostat %d' % k); continue
        if not left: return
        h.eq('heliostat %d x' % k, el[2 * k], left[0][0], loc=h.vloc(a), why='not at any place of the layout still free, e.g. ' + left[0][2]) and \
        h.eq('heliostat %d y' % k, el[2 * k + 1], left[0][1], loc=h.vloc(a), why='not at any place of the layout still free, e.g. ' + left[0][2])
        return

def run(rep):
    rep.case('solar vector', vector)
    rep.case('sun and target overhead', overhead)
    for k in (0, 1, 2): rep.case('positions in whole numbers, aimed %d times' % k, whole, k)
    ks = (1, 2, 3) if rep.tier == 'quick' else (1, 2, 3, 5)
    for k in ks:
        rep.case('%d heliostats/as built' % k, down, k)
        rep.case('%d heliostats/aimed' % k, aim, k, ['aim'])
        rep.case('%d heliostats/re-aimed' % k, aim, k, ['aim', 'aim'])
        rep.case('%d heliostats/target moved first' % k, aim, k, ['height', 'aim'])
        rep.case('%d heliostats/target moved' % k, aim, k, ['aim', 'height', 'aim'])
        rep.case('%d heliostats/target moved twice' % k, aim, k, ['aim', 'height', 'height', 'aim', 'aim'])
    m = 5 if rep.tier == 'quick' else 8
    for i in range(1, m):
        for j in range(1, m): rep.case('layout of %d rings and %d half-steps' % (i, j), stagger, i, j)
