"""Tracing never modifies what the caller handed in."""
from ..geom_h import *
from ..engine_h import World
from ..opt_h import O, OptWorld
from .c06 import Use
from .c15 import build as receiver
from .c21 import Field, sun
from . import c17

RULE = ('Alias and effect analysis: every array a caller passes (and every property a passed bundle reports) and every array handed out by an earlier step is snapshotted in the abstract store; after each '
        'later step - over every geometry manager, surface, optics manager, receiver, bundle operation, source, rotation builder, boundary, aiming, model and whole traces - each must still hold the value '
        'numbers it held.')

class Guard(object):
    def __init__(self, h): self.h, self.I, self.g = h, h.I, []
    def snap(self, v):
        I = self.I
        if isinstance(v, Choice):
            try: v = npm.toarr(I, v)
            except Undecided: return v
        if isinstance(v, Arr): return v, I.get(v.oid)
        return v
    def back(self, s):
        if not (isinstance(s, tuple) and len(s) == 2 and isinstance(s[1], ArrRec)): return s
        v, r = s
        return Arr(self.I.alloc(ArrRec(r.elems, r.dt, None, r.loc)), v.dims, v.pos)
    def arr(self, label, v):
        """an array (or tuple of arrays)"""
        v = self.I.resolve(v)
        if isinstance(v, tuple):
            for i, x in enumerate(v): self.arr('%s[%d]' % (label, i), x)
            return
        if isinstance(v, Choice):
            try: npm.toarr(self.I, v)
            except Undecided: return
            return
        if isinstance(v, Arr): self.g.append((label, lambda: v, self.snap(v), None))
    def bundle(self, label, b, props=('vertices', 'directions', 'energy', 'parents', 'ref_index'), cond=None):
        """what a bundle reports, and the arrays it holds now"""
        h, I = self.h, self.I
        if cond is not None:
            out = I.st
            return h.under(cond, lambda: self.bundle2(label, b, props, cond, out))
        self.bundle2(label, b, props, None, I.st)
    def bundle2(self, label, b, props, cond, out):
        h, I = self.h, self.I
        for p in props:
            v, rs = h.attempt(lambda: I.resolve(I.meth(b, 'get_' + p)))
            if v is None or isinstance(v, Choice): continue
            self.g.append(('%s %s' % (label, p), lambda p=p: I.resolve(I.meth(b, 'get_' + p)), self.snap(v), cond))
            if isinstance(v, Arr) and cond is None: self.g.append(('%s array of %s' % (label, p), lambda v=v: v, self.snap(v), None))
    def check(self, when):
        h = self.h
        def one(label, get, old):
            h.same('%s: %s' % (label, when), get(), self.back(old), why='altered by a later step')
        for label, get, old, cond in self.g:
            if cond is None: one(label, get, old)
            else: h.under(cond, lambda: one(label, get, old))

def geometry(h, S, hist):
    """hist: steps on the first bundle, after which a second is taken through"""
    I = h.I
    sh = S(); gm = sh.build(h)
    G = Guard(h)
    uses = []
    for k, (nm, ops) in enumerate((('first', hist), ('second', 'fsqd'))):
        u = Use(h, sh, nm + '.')
        G.bundle('the %s bundle' % nm, u.bund); G.arr('the %s frame' % nm, u.F)
        for i, op in enumerate(ops):
            when = 'after step %d (%s) on the %s bundle' % (i, op, nm)
            if op == 's':
                u.ix = u.idx(); G.arr('%s index array %d' % (nm, i), u.ix); h.m(gm, 'select_rays', u.ix); u.sel = True
            elif op == 'q':
                G.arr('%s hit points %d' % (nm, i), h.m(gm, 'get_intersection_points_global'))
                G.arr('%s normals %d' % (nm, i), h.m(gm, 'get_normals'))
                G.arr('%s up %d' % (nm, i), h.m(gm, 'up'))
            else: u.step(gm, op)
            if op == 'f': G.arr('%s distances' % nm, u.prm)
            G.check(when)

OPTICS = {
 'Reflective': lambda h: h.new(O, 'Reflective', h.sc('absorptivity', lo=0.0, hi=1.0)),
 'AbsorberReflector': lambda h: h.new(O, 'AbsorberReflector', h.sc('absorptivity', lo=0.0, hi=1.0)),
 'LambertianReflector': lambda h: h.new(O, 'LambertianReflector', h.sc('absorptivity', lo=0.0, hi=1.0)),
 'RefractiveHomogenous': lambda h: h.new(O, 'RefractiveHomogenous', h.sc('n1', lo=1.0), h.sc('n2', lo=1.0)),
 'ReflectiveReceiver': lambda h: receiver(h, 'ReflectiveReceiver', h.sc('absorptivity', lo=0.0, hi=1.0)),
 'LambertianReceiver': lambda h: receiver(h, 'LambertianReceiver', h.sc('absorptivity', lo=0.0, hi=1.0)),
 'accountant over AbsorberReflector': lambda h: receiver(h, 'accountant over AbsorberReflector', h.sc('absorptivity', lo=0.0, hi=1.0)),
}
PR = ('vertices', 'directions', 'energy', 'parents', 'ref_index', 'wavelen', 'spectrum')

def optics(h, kind):
    I = h.I
    o = OPTICS[kind](h)
    G = Guard(h)
    for k in range(3):
        w = OptWorld(h, name='it%d.' % k, tag='round %d' % k)
        G.bundle('incoming rays of call %d' % k, w.bund, PR); G.arr('selector of call %d' % k, w.idx)
        for nm, a in (('hit points', w.P), ('normals', w.Nn), ('up', w.Up)): G.arr('%s of call %d' % (nm, k), a)
        out = I.call(o, [w.geom, w.bund, w.idx], {})
        for c, b in h.alts(out):
            if dd.sat(c) is not None and c is I.pc: G.bundle('outgoing rays of call %d' % k, b, PR)
        G.check('after call %d' % k)
        if 'eceiver' in kind or 'accountant' in kind:
            G.arr('record reported after call %d' % k, h.m(o, 'get_all_hits')); G.check('after a report')
    if 'eceiver' in kind or 'accountant' in kind: h.m(o, 'reset'); G.check('after a reset')

def surface(h, S, kind):
    I = h.I
    sh = S()
    s = h.new('tracer.surface', 'Surface', sh.build(h), OPTICS[kind](h))
    G = Guard(h)
    for nm in ('first', 'second'):
        u = Use(h, sh, nm + '.')
        G.bundle('the %s bundle' % nm, u.bund); G.arr('the %s frame' % nm, u.F)
        u.surf(s, 'f'); G.arr('%s distances' % nm, u.prm); G.check('after registering the %s bundle' % nm)
        u.ix = u.idx(); G.arr('%s index array' % nm, u.ix); h.m(s, 'select_rays', u.ix); u.sel = True
        u.surf(s, 'q'); G.check('after generating rays from the %s bundle' % nm)
        for c, b in h.alts(u.out):
            if c is I.pc: G.bundle('rays from the %s bundle' % nm, b)
        u.surf(s, 'd'); G.check('after releasing the %s bundle' % nm)

def bundles(h, op):
    I = h.I
    G = Guard(h)
    ax, a, va = c17.mkb(h, 'A'); bx, b, vb = c17.mkb(h, 'B')
    P = c17.props()
    m = h.arr('chosen', ax, dt='b'); ix = npm.nonzero(I, m)[0]
    kx = h.axis('K'); arb = h.arr('idx', kx, lo=0.0, isint=True, dt='i')
    sub = ax.sub(I.elems(m)[0])
    for l, x in (('A', a), ('B', b)): G.bundle('bundle %s' % l, x, P)
    for l, x in (('mask', m), ('index array', ix), ('index array', arb)): G.arr(l, x)
    new = h.arr('new', sub); G.arr('new energies', new)
    newd = h.mk((3, sub), h.unit('newdir', ax)); G.arr('new directions', newd)
    if op == 'inherit by mask': r = h.m(a, 'inherit', m, energy=new, direction=newd)
    elif op == 'inherit by index': r = h.m(a, 'inherit', ix, energy=new)
    elif op == 'inherit by any index': r = h.m(a, 'inherit', arb)
    elif op == 'inherit all': r = h.m(a, 'inherit')
    elif op == 'add': r = h.m(a, '__add__', b)
    elif op == 'concatenate': r = h.call('tracer.ray_bundle', 'concatenate_rays', I.new_list([a, b]))
    elif op == 'delete by mask': r = h.m(a, 'delete_rays', m)
    elif op == 'delete by index': r = h.m(a, 'delete_rays', ix)
    G.check('after ' + op)
    # what is done to the new bundle stays there
    cs = [x for c, x in h.alts(r) if c is I.pc]
    for x in cs:
        v = npm.toarr(I, I.meth(x, 'get_energy'))
        fresh = h.mk(v.dims, [dd.opaque('fresh', e) for e in I.elems(v)])
        G.arr('the array set', fresh)
        h.m(x, 'set_energy', fresh); G.check('after setting energies of the result')
        if isinstance(v.dims[0], Axis):
            y = h.m(x, 'inherit', h.arr('later', v.dims[0], dt='b')); G.check('after deriving a further bundle')

def source(h, fn):
    I = h.I
    S = 'tracer.sources'
    G = Guard(h)
    c = h.arr('center', 3, 1); G.arr('centre', c)
    out = []
    for k, d in enumerate(('any', 'any', 'down', 'up')):
        el = h.unit('direction%d' % k) if d == 'any' else [dd.c(0), dd.c(0), dd.c(1 if d == 'up' else -1)]
        D = h.mk((3,), el); G.arr('direction %d' % k, D)
        num = h.sc('num_rays%d' % k, lo=1.0, isint=True)
        if fn == 'solar_disk_bundle': b = h.call(S, fn, num, c, D, h.sc('radius', lo=1e-30), h.sc('ang', lo=1e-6, hi=1.5), flux=h.sc('flux', lo=0.0))
        else: b = h.call(S, fn, 9, c, D, h.sc('width', lo=1e-30))
        G.check('after making bundle %d' % k)
        G.bundle('bundle %d' % k, b, ('vertices', 'directions'))

def rotations(h):
    I = h.I
    M = 'tracer.spatial_geometry'
    G = Guard(h)
    for k in range(2):
        ax = h.mk((3,), h.unit('axis%d' % k)); G.arr('axis %d' % k, ax)
        a = h.sc('angle%d' % k); t = h.arr('t%d' % k, 3, 1); G.arr('translation %d' % k, t)
        G.arr('rotation %d' % k, h.call(M, 'general_axis_rotation', ax, a)); G.check('after an axis rotation')
        G.arr('transform %d' % k, h.call(M, 'generate_transform', ax, a, t)); G.check('after a transform')
        for f in ('rotx', 'roty', 'rotz'): G.arr('%s %d' % (f, k), h.call(M, f, a)); G.check('after ' + f)
        G.arr('translate %d' % k, h.call(M, 'translate', a, a, a)); G.check('after translate')
        z = h.mk((3,), h.unit('z%d' % k)); G.arr('vector %d' % k, z)
        G.arr('frame on z %d' % k, h.call(M, 'rotation_to_z', z)); G.check('after rotation_to_z of one vector')
        vs = h.mk((3, 3), h.unit('za%d' % k) + [dd.c(0), dd.c(0), dd.c(1)] + [dd.c(0), dd.c(0), dd.c(-1)]); G.arr('vectors %d' % k, vs)
        G.arr('frames %d' % k, h.call(M, 'rotation_to_z', vs)); G.check('after rotation_to_z of several')
        bx = h.axis('batch%d' % k)
        u = h.unit('zb%d' % k, bx)
        bv = h.mk((bx, 3), u); G.arr('batch %d' % k, bv)
        G.arr('batch frames %d' % k, h.call(M, 'rotation_to_z', bv)); G.check('after rotation_to_z of any number')

def laws(h):
    I = h.I
    M = 'tracer.optics'
    G = Guard(h)
    for k in range(2):
        ax = h.axis('ray%d' % k)
        d = h.mk((3, ax), h.unit('d%d' % k, ax)); nn = h.mk((3, ax), h.unit('n%d' % k, ax))
        n1, n2 = h.arr('n1%d' % k, ax, lo=1.0), h.arr('n2%d' % k, ax, lo=1.0)
        for l, x in (('directions', d), ('normals', nn), ('first indices', n1), ('second indices', n2)): G.arr('%s %d' % (l, k), x)
        G.arr('reflections %d' % k, h.call(M, 'reflections', d, nn)); G.check('after reflections')
        G.arr('refractions %d' % k, h.call(M, 'refractions', n1, n2, d, nn)); G.check('after refractions')
        G.arr('fresnel %d' % k, h.call(M, 'fresnel', d, nn, n1, n2)); G.check('after fresnel')

def bounds(h, cls):
    I = h.I
    M = 'tracer.boundary_shape'
    G = Guard(h)
    loc = h.arr('location', 3); G.arr('location', loc)
    kw = dict(location=loc)
    if cls == 'BoundarySphere': kw['radius'] = h.sc('radius', lo=1e-30)
    else:
        R = h.rotation('rot'); r = h.mk((3, 3), R[0] + R[1] + R[2]); G.arr('rotation', r); kw['rotation'] = r
        if cls == 'BoundaryCylinder': kw['diameter'] = h.sc('diameter', lo=1e-30)
    b = h.new(M, cls, **kw); G.check('after building')
    for k in range(2):
        F, _, _ = h.frame('F%d' % k); G.arr('frame %d' % k, F)
        h.m(b, 'transform_frame', F); G.check('after moving')
        P = h.arr('points%d' % k, h.axis('point%d' % k), 3); G.arr('points %d' % k, P)
        G.arr('containment %d' % k, h.m(b, 'in_bounds', P)); G.check('after asking for containment')
        if cls == 'BoundarySphere':
            T, _, _ = h.frame('T%d' % k); G.arr('plane %d' % k, T)
            h.attempt(lambda: h.m(b, 'bounding_rect_for_plane', T)); G.check('after asking for the bounding rectangle')

def placing(h):
    """surfaces, objects and assemblies leave the arrays used for placing them alone"""
    I = h.I
    G = Guard(h)
    loc, R = h.arr('location', 3), h.rotation('rot'); rot = h.mk((3, 3), R[0] + R[1] + R[2])
    G.arr('location', loc); G.arr('rotation', rot)
    s = h.new('tracer.surface', 'Surface', h.new('tracer.flat_surface', 'FlatGeometryManager'), h.new(O, 'Reflective', h.sc('a', lo=0.0, hi=1.0)), location=loc, rotation=rot)
    fr = [h.frame('F%d' % i)[0] for i in range(6)]
    for i, f in enumerate(fr): G.arr('frame %d' % i, f)
    o = h.new('tracer.object', 'AssembledObject', surfs=I.new_list([s]), transform=fr[0]); G.check('after building an object')
    a = h.new('tracer.assembly', 'Assembly')
    h.m(a, 'add_object', o, fr[1]); G.check('after adding the object')
    b = h.new('tracer.assembly', 'Assembly'); h.m(b, 'add_assembly', a, fr[2]); G.check('after adding the assembly')
    h.m(b, 'set_transform', fr[3]); G.check('after placing the whole')
    h.m(b, 'transform_children', fr[4]); G.check('after placing it within something else')
    for x in (s, o, a, b):
        l2 = h.arr('location2', 3); G.arr('new location', l2); h.m(x, 'set_location', l2); G.check('after setting a location')
        r2 = h.mk((3, 3), sum(h.rotation('rot2'), [])); G.arr('new rotation', r2); h.m(x, 'set_rotation', r2); G.check('after setting a rotation')
        h.m(x, 'set_transform', fr[5]); G.check('after setting a transform')
        h.m(x, 'set_location', l2); h.m(x, 'set_rotation', r2); G.check('after setting location and rotation again')
    h.m(b, 'transform_children'); G.check('after placing everything')

def aiming(h, k):
    I = h.I
    G = Guard(h)
    P = h.mk((k, 3), [dd.leaf(n.atom('pos%d%d' % (i, j))) for i in range(k) for j in range(3)]); G.arr('positions', P)
    f = h.new('tracer.models.heliostat_field', 'HeliostatField', P, h.sc('w', lo=1e-30), h.sc('ht', lo=1e-30), h.sc('ab', lo=0.0, hi=1.0), h.sc('aim'))
    G.check('after building a field')
    for r in range(2):
        az, el, v = sun(h, str(r))
        G.arr('sun vector %d' % r, h.call('tracer.models.heliostat_field', 'solar_vector', az, el))
        h.m(f, 'aim_to_sun', az, el); G.check('after aiming, time %d' % r)
        h.m(f, 'set_aim_height', h.sc('aim%d' % r)); G.check('after changing the aim height')

def triangulated(h):
    I = h.I
    G = Guard(h)
    q = lambda *x: [dd.c(Fraction(y)) for y in x]
    V = h.mk((5, 3), q(0, 0, 0, 3, 0, 0, 0, 4, 0, 3, 4, 0, 6, 0, 0)); F = h.const_arr([[0, 1, 2], [1, 3, 2], [0, 0, 3], [0, 1, 4]])
    T = h.frame('frame')[0]
    for l, x in (('vertices', V), ('faces', F), ('transform', T)): G.arr(l, x)
    o = h.new('tracer.models.triangulated_surface', 'TriangulatedSurface', V, F, h.new(O, 'Reflective', h.sc('a', lo=0.0, hi=1.0)), transform=T)
    G.check('after building')
    h.m(o, 'set_transform', h.frame('other')[0]); h.m(o, 'transform_children'); G.check('after placing')

def vertices(h):
    """the triangle's vertex array"""
    G = Guard(h)
    V = h.mk((3, 2), [dd.leaf(n.atom(x)) for x in ('ax', 'bx', 'ay', 'by')] + [dd.c(0), dd.c(0)]); G.arr('vertices', V)
    g = h.new('tracer.triangular_face', 'TriangularFace', V); G.check('after building')
    G.arr('mesh', h.m(g, 'mesh', h.sc('resolution', lo=2.0, isint=True))); G.check('after meshing')
    h.m(g, 'set_vertices', V); G.check('after setting them again')

def mesh(h, S):
    sh = S(); gm = sh.build(h)
    G = Guard(h)
    s = h.new('tracer.surface', 'Surface', gm, h.new(O, 'Reflective', h.sc('a', lo=0.0, hi=1.0)))
    for k in range(2):
        F = h.frame('F%d' % k)[0]; G.arr('frame %d' % k, F)
        h.m(s, 'transform_frame', F)
        G.arr('mesh %d' % k, h.m(s, 'mesh', h.sc('resolution', lo=2.0, isint=True))); G.check('after mesh %d' % k)

def trace(h, layout, reps, simple, again=True, bare=False):
    I = h.I
    h.watch = 'the source bundle'
    w = World(h, layout, simple, tags='source', extra=True, bare=bare)
    G = Guard(h)
    P = w.props()
    G.bundle('the source bundle', w.src, P)
    eng, r = w.trace(reps)
    G.check('after the trace')
    if bare:
        v, rs = h.attempt(lambda: I.resolve(I.meth(w.src, 'get_parents')))
        if v is None: h.ok('the source bundle: parents still not set')
        else: h.viol('the source bundle: parents still not set', 'the source rays were given parents', h.vloc(v))
    its = h.items(I.resolve(r)) if isinstance(I.resolve(r), (tuple, ListRef)) else None
    for i, (g, v) in enumerate(its or []): G.arr('returned value %d' % i, v)
    tree = h.get(eng, 'tree')
    lv, rs = h.attempt(lambda: I.as_int(h.m(tree, 'num_bunds')))
    if lv:
        for k in range(lv): G.bundle('tree level %d' % k, I.meth(tree, '__getitem__', k), P)
    elif isinstance(I.resolve(h.get(tree, '_bunds')), ListRef):
        for k, (g, b) in enumerate(h.items(I.resolve(h.get(tree, '_bunds')))): G.bundle('tree level %d' % k, b, P, cond=g)
    if again:
        w2 = w.again()
        G.bundle('the second source bundle', w2.src, P)
        w2.trace(1, eng=eng)
        G.check('after a second trace')

def history(h):
    """tree queries alter nothing"""
    I = h.I
    G = Guard(h)
    tree = h.new('tracer.trace_tree', 'RayTree')
    for k in range(3):
        ax = h.axis('level%d' % k)
        b, v = h.bundle(ax, name='L%d.' % k)
        G.bundle('level %d' % k, b); h.m(tree, 'append', b); G.check('after recording level %d' % k)
    h.m(tree, 'ordered_parents'); G.check('after asking for the parents')
    h.attempt(lambda: h.m(tree, 'ray_history', h.sc('ray', lo=0.0, isint=True))); G.check('after asking for a history')

class Rough(object):
    """every case with directions not of length exactly one: an argument normalised in place is altered all the same"""
    def __init__(self, rep): self.rep, self.tier = rep, rep.tier
    def case(self, name, fn, *args):
        def go(h, *a): h.rough = True; return fn(h, *a)
        self.rep.case(name, go, *args)

def run(rep):
    rep = Rough(rep)
    deep = rep.tier == 'thorough'
    for S in ALL:
        for hist in ('fsqd', 'fsqqd', 'fd') + (('fsqdfsqd', 'fsqqdfdfsqd') if deep else ()):
            rep.case('%s/%s' % (S.name, hist), geometry, S, hist)
    for o in OPTICS: rep.case('optics/%s' % o, optics, o)
    for S in ALL if deep else (Plane, RectPlate, Triangle, Sphere, Hemisphere, FiniteCylinder, Dish):
        for o in OPTICS:
            if not deep and o not in ('Reflective', 'RefractiveHomogenous', 'ReflectiveReceiver', 'AbsorberReflector'): continue
            rep.case('surface/%s with %s' % (S.name, o), surface, S, o)
    for op in ('inherit by mask', 'inherit by index', 'inherit by any index', 'inherit all', 'add', 'concatenate', 'delete by mask', 'delete by index'): rep.case('bundles/' + op, bundles, op)
    for f in ('solar_disk_bundle', 'square_bundle'): rep.case('source/' + f, source, f)
    rep.case('rotations', rotations)
    rep.case('laws of optics', laws)
    for c in ('BoundarySphere', 'BoundaryCylinder', 'BoundaryPlane'): rep.case('boundary/' + c, bounds, c)
    rep.case('placing', placing)
    for k in (1, 2): rep.case('aiming %d heliostats' % k, aiming, k)
    rep.case('triangulated surface', triangulated)
    rep.case('triangle vertices', vertices)
    for S in (RectPlate, RoundPlate, Triangle, Sphere, Hemisphere, FiniteCylinder, Dish): rep.case('mesh/' + S.name, mesh, S)
    rep.case('tree', history)
    rep.case('trace, 1 surface, 1 iteration', trace, (1,), 1, True)
    rep.case('trace, rays with no parents', trace, (1, 1), 2, True, False, True)
    rep.case('trace, 2 surfaces, 2 iterations', trace, (1, 1), 2, True)
    rep.case('trace, 2 surfaces, owned rays', trace, (1, 1), 2, False, False)
    rep.case('trace, 3 surfaces in 2 objects', trace, (2, 1), 2, True, False)
    if deep: rep.case('trace, 2 surfaces, 3 iterations', trace, (1, 1), 3, True, False)
