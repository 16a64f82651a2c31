"""Ready-made models place, size and coat their parts as documented."""
from ..frame_h import *
from ..opt_h import OptWorld

RULE = ('Value numbering of the constructors of the models on generic dimensions: each surface of the model must answer a generic ray (distance, hit point, normal, up side) and treat it (energies, '
        'directions, media of the outgoing rays) with the value numbers of a surface of the documented shape and coating standing in the documented frame; surfaces are matched one to one in '
        'any order. Lenses are analysed for every sign and flatness of the two radii; triangulated surfaces for every pattern of degenerate faces up to four.')

FS, SS, CY, PB, TF, OC = 'tracer.flat_surface', 'tracer.sphere_surface', 'tracer.cylinder', 'tracer.paraboloid', 'tracer.triangular_face', 'tracer.optics_callables'
c = dd.c
def half(s): return dd.mul(s.node, c(Fraction(1, 2)))
def SC(x): return Sc(x, 'f')
RX = lambda s: [[c(1), c(0), c(0)], [c(0), c(0), c(-s)], [c(0), c(s), c(0)]]      # quarter turn about x
RY = lambda s: [[c(0), c(0), c(s)], [c(0), c(1), c(0)], [c(-s), c(0), c(0)]]
FLIP = [[c(1), c(0), c(0)], [c(0), c(-1), c(0)], [c(0), c(0), c(-1)]]

class Lab(object):
    """generic rays to question surfaces with"""
    def __init__(self, h):
        self.h = h
        self.ax = ax = h.axis('ray')
        self.b, self.vals = h.bundle(ax)
    def ask(self, s):
        """what the surface's geometry says of the rays"""
        h, I = self.h, self.h.I
        t = npm.toarr(I, h.m(s, 'register_incoming', self.b))
        tn = I.elems(t)[0]
        hit = dd.and_(dd.isfinite(tn) if hasattr(dd, 'isfinite') else dd.lt(tn, dd.c(n.INF)), dd.batom('taken@ray', deps=frozenset([self.ax.base.id])))
        sub = self.ax.sub(hit)
        idx = h.mk((sub,), [self.ax.pos()], 'i')
        h.m(s, 'select_rays', idx)
        g = h.m(s, 'get_geometry_manager')
        P = npm.toarr(I, h.m(g, 'get_intersection_points_global')); Nn = npm.toarr(I, h.m(g, 'get_normals')); U = npm.toarr(I, h.m(g, 'up'))
        return dict(t=tn, hit=hit, p=I.elems(P), n=I.elems(Nn), up=I.elems(U), loc=h.vloc(t))

def alike(a, b):
    """cheap test: same distances"""
    try: return dd.differ(a['t'], b['t'], dd.TRUE, True) is None
    except dd.TooBig: return False

class Coat(object):
    """generic rays to question optics managers with"""
    def __init__(self, h, media=None):
        self.h = h
        ri = None
        if media:
            m = dd.batom('inside@ray', deps=frozenset())
            def ri(ax): return dd.ite(dd.batom('inside', deps=frozenset([ax.base.id])), media[1].node, media[0].node)
        self.w = OptWorld(h, ref_index=ri, name='coat ')
    def out(self, o):
        h = self.h
        return h.I.call(o, [self.w.geom, self.w.bund, self.w.idx], {})
    def compare(self, name, o, ref, props=('vertices', 'directions', 'energy', 'parents')):
        h, I, w = self.h, self.h.I, self.w
        if not isinstance(o, Choice): return self.at(dd.TRUE, lambda: self.compare1(name, o, ref, props))
        return self.compare1(name, o, ref, props)
    def at(self, pc, fn):
        """evaluate fn under another path condition; state changes are kept"""
        I = self.h.I
        p0 = I.st.pc
        I.st.pc = pc
        try: return fn()
        finally: I.st.pc = p0
    def compare1(self, name, o, ref, props):
        h, I, w = self.h, self.h.I, self.w
        a, b = self.out(o), self.out(ref)
        for p in props:
            h.same('%s: %s of the outgoing rays' % (name, p), h.m(a, 'get_' + p), h.m(b, 'get_' + p), care=dd.and_(I.pc, w.care))
        return a

def surface(h, gm, opt, R=None, t=None):
    kw = {}
    if R is not None: kw['rotation'] = h.mk((3, 3), R[0] + R[1] + R[2])
    if t is not None: kw['location'] = h.mk((3,), t)
    return h.new('tracer.surface', 'Surface', gm, opt, **kw)

class Ref(object):
    """a documented part"""
    def __init__(self, name, gm, opt, R=None, t=None, props=('vertices', 'directions', 'energy', 'parents'), up=True):
        self.name, self.gm, self.opt, self.R, self.t, self.props, self.up = name, gm, opt, R, t, props, up

def match(h, what, surfs, refs, coat, lab=None):
    """surfs: surfaces of the model; one for each documented part"""
    I = h.I
    if len(surfs) != len(refs):
        h.viol(what, 'has %d surfaces, %d documented (%s)' % (len(surfs), len(refs), ', '.join(r.name for r in refs))); return
    lab = lab or Lab(h)
    got = [(s, lab.ask(s)) for s in surfs]
    want = [(r, lab.ask(surface(h, r.gm, r.opt, r.R, r.t))) for r in refs]
    left = list(got)
    for r, a in sorted(want, key=lambda x: 0):
        k = [x for x in left if alike(x[1], a) and (not r.up or all(fp(p) == fp(q) for p, q in zip(x[1]['up'], a['up'])))] or [x for x in left if alike(x[1], a)]
        s, b = (k or left)[0]
        if not k and len(left) > 1:
            # the part is missing: compare with the surface no other part claims
            free = [x for x in left if not any(alike(x[1], y) for q, y in want if q is not r)]
            if free: s, b = free[0]
        left.pop([x[1] is b for x in left].index(True))
        nm = '%s: %s' % (what, r.name)
        h.eq(nm + ': distances', b['t'], a['t'], loc=b['loc'], why='the surface is not where or as large as documented')
        hit = dd.and_(I.pc, a['hit'])
        for i in range(3):
            h.eq(nm + ': hit points [%d]' % i, b['p'][i], a['p'][i], care=hit, boundary=False)
            h.eq(nm + ': normals [%d]' % i, b['n'][i], a['n'][i], care=hit, boundary=False)
            if r.up: h.eq(nm + ': up side [%d]' % i, b['up'][i], a['up'][i], why='faces the other way')
        if r.opt is not None: coat.compare(nm, h.m(s, 'get_optics_manager'), r.opt, r.props)
    return got

def fp(x): return dd.asnum(x.val).fp if x.var == dd.LEAF else x.id

def skip_all(h, name, obj, ns):
    """rays just leaving the object are not tested against it again"""
    I = h.I
    ax = h.axis('leaving')
    b, _ = h.bundle(ax, name='leaving ')
    for s in range(ns):
        a = npm.toarr(I, h.m(obj, 'surfaces_for_next_iteration', b, s))
        if len(a.dims) != 2 or a.dims[0] != ns or npm.dim_eq(I, a.dims[1], ax) is not True:
            h.viol(name + ': surfaces to test next', 'shape %s' % h.shp(a.dims), h.vloc(a)); continue
        for x in I.elems(a): h.eq(name + ': rays leaving surface %d skip the object' % s, dd.truth(x) if I.adt(a) != 'b' else x, dd.FALSE, loc=h.vloc(a))

def objs(h, x): return [o for g, o in h.items(h.m(x, 'get_objects'))]
def surfs(h, x): return [o for g, o in h.items(h.m(x, 'get_surfaces'))]
def one(h, mod, name, *args, **kw): return h.new(mod, name, *args, **kw)

def opened(h, x):
    """the assembly as tracing sees it"""
    h.m(x, 'transform_children')

# ---- parts -------------------------------------------------------------------
def mirror(h):
    w, l, ab = h.sc('width', lo=1e-30), h.sc('height', lo=1e-30), h.sc('absorptivity', lo=0.0, hi=1.0)
    o = h.call('tracer.models.one_sided_mirror', 'rect_one_sided_mirror', w, l, ab)
    match(h, 'one-sided mirror', surfs(h, o), [plate(h, 'mirror', w, l, ab)], Coat(h))
    skip_all(h, 'one-sided mirror', o, 1)

def plate(h, name, w, l, ab, R=None, t=None):
    return Ref(name, one(h, FS, 'RectPlateGM', w, l), one(h, OC, 'AbsorberReflector', ab), R, t)

def receiver_parts(h, back, w, l, ab, R=None, t=None):
    """front and opaque back; the back's distance from the front is the model's own"""
    f = Ref('receiving face', one(h, FS, 'RectPlateGM', w, l), one(h, OC, 'ReflectiveReceiver', ab), R, t)
    z = h.I.elems(npm.toarr(h.I, h.m(back, 'get_location')))
    h.holds('back of the receiver just behind it', dd.and_(dd.lt(z[2], c(0)), dd.gt(z[2], c(Fraction(-1, 10**6)))))
    d = z[2]
    t2 = [c(0), c(0), d]
    if R is not None: t2 = [dd.add(x, dd.mul(r[2], d)) for x, r in zip(t, R)]
    b = Ref('back', one(h, FS, 'RectPlateGM', w, l), one(h, OC, 'Reflective', SC(c(1))), R, t2, up=False)
    return [f, b]

def receiver(h, ab):
    w, l = h.sc('width', lo=1e-30), h.sc('height', lo=1e-30)
    a = h.sc('absorptivity', lo=0.0, hi=1.0) if ab else SC(c(1))
    r = h.call('tracer.models.one_sided_mirror', 'one_sided_receiver', w, l, *([a] if ab else []))
    front, o = [x for _, x in h.items(r)]
    ss = surfs(h, o)
    h.eq('the receiving surface is one of the object\'s', dd.TRUE if front in ss else dd.FALSE, dd.TRUE)
    rest = [s for s in ss if s is not front]
    if len(rest) != 1: h.viol('receiver', '%d surfaces, 2 documented' % len(ss)); return
    coat = Coat(h)
    match(h, 'one-sided receiver', [front, rest[0]], receiver_parts(h, rest[0], w, l, a), coat)
    skip_all(h, 'one-sided receiver', o, 2)
    e, p = [x for _, x in h.items(h.m(h.m(front, 'get_optics_manager'), 'get_all_hits'))]
    h.same('the receiving surface records what it absorbs', e, h.mk((coat.w.sub,), [dd.mul(coat.w.h.I.elems(coat.w.vals['energy'])[0], a.node)]))

def walls(h, x, y, ht, eff, F=None):
    """documented walls; F: (R, t) of the homogenizer"""
    ab = SC(dd.sub(c(1), eff.node)); hh = half(ht)
    L = [('wall at +x', ht, y, RY(-1), [half(x), c(0), hh]), ('wall at -x', ht, y, RY(1), [dd.neg(half(x)), c(0), hh]),
         ('wall at +y', x, ht, RX(1), [c(0), half(y), hh]), ('wall at -y', x, ht, RX(-1), [c(0), dd.neg(half(y)), hh])]
    out = []
    for nm, a, b, R, t in L:
        if F:
            t = h.vadd(h.matvec(F[0], t), F[1])
            R = [[h.dot(F[0][i], [R[k][j] for k in range(3)]) for j in range(3)] for i in range(3)]
        out.append(plate(h, nm, a, b, ab, R, t))
    return out

def homogenizer(h):
    x, y, ht, eff = h.sc('x', lo=1e-30), h.sc('y', lo=1e-30), h.sc('height', lo=1e-30), h.sc('efficiency', lo=0.0, hi=1.0)
    a = h.call('tracer.models.homogenizer', 'rect_homogenizer', x, y, ht, eff)
    oo = objs(h, a)
    h.eq('four objects', c(len(oo)), c(4))
    match(h, 'homogenizer', surfs(h, a), walls(h, x, y, ht, eff), Coat(h))
    for i, o in enumerate(oo): skip_all(h, 'wall %d' % i, o, 1)

def assembled(h, what, a, main, pos, x, y, depth, eff):
    """an assembly of main reflector, receiver and homogenizer"""
    I = h.I
    rec = h.m(a, 'get_receiver_surf'); mr = h.m(a, 'get_main_reflector'); hom = h.m(a, 'get_homogenizer')
    ss = surfs(h, a)
    h.eq('main reflector is in the assembly', dd.TRUE if mr in ss else dd.FALSE, dd.TRUE)
    h.eq('receiver is in the assembly', dd.TRUE if rec in ss else dd.FALSE, dd.TRUE)
    hs = surfs(h, hom)
    for s in hs: h.eq('homogenizer wall is in the assembly', dd.TRUE if s in ss else dd.FALSE, dd.TRUE)
    rest = [s for s in ss if s is not rec and s is not mr and s not in hs]
    if len(rest) != 1: h.viol(what, '%d surfaces besides main reflector, receiving face and homogenizer; 1 documented (the receiver\'s back)' % len(rest)); return
    t = [c(0), c(0), pos]
    coat, lab = Coat(h), Lab(h)
    match(h, what, [rec, rest[0]], receiver_parts(h, rest[0], x, y, SC(c(1)), FLIP, t), coat, lab)
    match(h, what + ': homogenizer', hs, walls(h, x, y, depth, eff, (FLIP, t)), coat, lab)
    if main is not None: match(h, what, [mr], [main], coat, lab)

def local_receiver(h, square):
    I = h.I
    pos, depth, eff = h.sc('receiver_pos', lo=1e-30), h.sc('depth', lo=1e-30), h.sc('efficiency', lo=0.0, hi=1.0)
    x = h.sc('side x', lo=1e-30); y = x if square else h.sc('side y', lo=1e-30)
    m = h.new('tracer.surface', 'Surface', one(h, FS, 'FlatGeometryManager'), one(h, OC, 'Reflective', SC(c(0))))
    a = h.new('tracer.models.homogenized_local_receiver', 'HomogenizedLocalReceiver', m, pos, x if square else (x, y), depth, eff)
    h.eq('main reflector kept', dd.TRUE if h.m(a, 'get_main_reflector') is m else dd.FALSE, dd.TRUE)
    assembled(h, 'receiver assembly', a, None, pos.node, x, y, depth, eff)

def dish(h, mod, cls, gm, asp):
    D, f, de = h.sc('diameter', lo=1e-30), h.sc('focal length', lo=1e-30), h.sc('dish efficiency', lo=0.0, hi=1.0)
    pos, depth, eff, side = h.sc('receiver_pos', lo=1e-30), h.sc('depth', lo=1e-30), h.sc('efficiency', lo=0.0, hi=1.0), h.sc('side', lo=1e-30)
    y, kw = side, {}
    if asp: kw['receiver_aspect'] = h.sc('aspect', lo=1e-30); y = SC(dd.mul(side.node, kw['receiver_aspect'].node))
    a = h.new('tracer.models.' + mod, cls, D, f, de, pos, side, depth, eff, **kw)
    main = Ref('dish', one(h, PB, gm, D, f), one(h, OC, 'Reflective', SC(dd.sub(c(1), de.node))))
    x = side
    if asp == 'x':
        x, y = y, x
        lab = Lab(h)
        it = lab.ask(h.m(a, 'get_receiver_surf'))
        def at(x, y):
            gm = one(h, FS, 'RectPlateGM', x, y)
            return alike(it, lab.ask(surface(h, gm, None, FLIP, [c(0), c(0), pos.node])))
        if not at(x, y) and at(y, x):
            h.viol('aspect of the receiver: y is stretched instead of x', 'the receiver is side by side*aspect along x and y, side*aspect by side documented')
            x, y = y, x
    assembled(h, cls, a, main, pos.node, x, y, depth, eff)
    r = [I_ for _, I_ in h.items(h.m(a, 'get_external_dimensions'))]
    h.eq('external diameter', h.I.scalar(r[0]).node, D.node); h.eq('external height', h.I.scalar(r[1]).node, pos.node)

def measures(h, make):
    I = h.I
    D, C, v = h.sc('diameter', lo=1e-30), h.sc('concentration', lo=1e-30), h.sc('virt_sources', lo=0.0)
    M = 'tracer.models.tau_minidish'
    f = dd.div(D.node, dd.mul(c(4), dd.sub(dd.sqrt(c(2)), c(1))))
    W = dd.mul(half(D), dd.sqrt(dd.div(dd.leaf(n.pi_()), C.node)))
    k = dd.mul(dd.add(v.node, c(1)), W)
    H = dd.div(dd.mul(k, f), dd.sub(D.node, k))
    h.I.st.pc = dd.and_(h.I.st.pc, dd.and_(dd.gt(W, c(0)), dd.gt(H, c(0))))
    if not make:
        r = [I.scalar(x).node for _, x in h.items(h.call(M, 'standard_minidish_measures', D, C, v))]
        a = None
    else:
        de, eff = h.sc('dish efficiency', lo=0.0, hi=1.0), h.sc('efficiency', lo=0.0, hi=1.0)
        r = [x for _, x in h.items(h.call(M, 'standard_minidish', D, C, v, de, eff))]
        a = r[0]; r = [I.scalar(x).node for x in r[1:]]
    for x, y, nm in zip(r, (f, W, H), ('focal length', 'homogenizer width', 'receiver distance from the focus')): h.eq(nm, x, y)
    if a is None: return
    main = Ref('dish', one(h, PB, 'ParabolicDishGM', D, SC(f)), one(h, OC, 'Reflective', SC(dd.sub(c(1), de.node))))
    assembled(h, 'standard minidish', a, main, dd.add(f, H), SC(W), SC(W), SC(H), eff)

# ---- lenses ------------------------------------------------------------------
KINDS = ('convex', 'concave', 'flat: 0', 'flat: None', 'flat: inf', 'flat: -inf')

def lens(h, k1, k2, moved):
    I = h.I
    D, depth, nn = h.sc('diameter', lo=1e-30), h.sc('depth', lo=1e-30), h.sc('refr_idx', lo=1.001)
    one_ = c(1)
    R, args = [], []
    for i, k in enumerate((k1, k2)):
        # R > 0: centre of curvature below; the front bulges out for R > 0, the back for R < 0
        sg = (1 if k == 'convex' else -1) * (1 if i == 0 else -1)
        if k.startswith('flat'):
            R.append(None); args.append({'0': 0, 'None': None, 'inf': SC(c(n.INF)), '-inf': SC(dd.c(-n.INF))}[k[6:]]); continue
        z = h.sc('z%d' % (i + 1), lo=1e-30)          # distance of the rim's plane from the centre
        # half-diameter D/2, radius sqrt(z^2 + D^2/4): parametrised so that the radius is a quantity of its own
        r = h.sc('R%d' % (i + 1), lo=1e-30)
        R.append((sg, r.node)); args.append(SC(dd.mul(c(sg), r.node)))
        h.allow  # radius at least half the diameter is a precondition
    pre = dd.TRUE
    for x in R:
        if x: pre = dd.and_(pre, dd.gt(x[1], half(D)))
    I.st.pc = dd.and_(I.st.pc, pre)
    inv = [dd.mul(c(x[0]), dd.div(one_, x[1])) if x else c(0) for x in R]
    n1 = dd.sub(nn.node, one_)
    power = dd.mul(n1, dd.add(dd.sub(inv[0], inv[1]), dd.div(dd.mul(dd.mul(depth.node, n1), dd.mul(inv[0], inv[1])), nn.node)))
    f = dd.div(one_, power)
    pd = dd.div(dd.mul(dd.mul(f, depth.node), dd.mul(n1, inv[0])), nn.node)
    kw = {}
    G = None
    if moved: T, GR, Gt = h.frame('lens frame'); kw['transform'] = T; G = (GR, Gt)
    L = h.new('tracer.models.spherical_lens', 'SphericalLens', D, depth, args[0], args[1], nn, **kw)
    what = 'lens'
    h.eq('focal length', I.scalar(h.m(L, 'focal_length')).node, f)
    # vertices of the two faces, from the frames of the surfaces
    alts = h.alts(h.m(L, 'get_surfaces'))
    for cond, lst in alts:
        if dd.sat(dd.and_(I.pc, cond)) is None: continue
        h.under(cond, lambda: one_lens(h, L, [x for _, x in h.items(lst)], R, D, depth, nn, pd, G))

def one_lens(h, L, ss, R, D, depth, nn, pd, G):
    I = h.I
    def z_of(s): return I.elems(npm.toarr(I, h.m(s, 'get_location')))[2]
    if len(ss) not in (2, 3): h.viol('lens', '%d surfaces, 2 or 3 documented' % len(ss)); return
    front, back = ss[0], ss[1]
    sag = lambda x: dd.sqrt(dd.sub(dd.mul(x[1], x[1]), dd.mul(half(D), half(D))))
    v = []
    for s, x in zip((front, back), R):
        z = z_of(s)
        v.append(dd.add(z, dd.mul(c(x[0]), x[1])) if x else z)
    # position along the axis: the documented origin is the back principal point
    vertex(h, v, R, depth, pd)
    rims, refs = [], []
    for i, (s, x) in enumerate(zip((front, back), R)):
        nm = ('front', 'back')[i] + ' face'
        opt = one(h, OC, 'RefractiveHomogenous', SC(c(1)), nn)
        z = z_of(s)
        if x is None:
            rims.append(z)
            refs.append(Ref(nm, one(h, FS, 'RoundPlateGM', SC(half(D))), opt, None, [c(0), c(0), z], props=PR, up=False))
            continue
        cut = dd.mul(c(x[0]), sag(x))
        rims.append(dd.add(z, cut))
        bp = h.new('tracer.boundary_shape', 'BoundaryPlane', location=h.mk((3,), [c(0), c(0), cut]), **({} if x[0] > 0 else dict(rotation=h.mk((3, 3), FLIP[0] + FLIP[1] + FLIP[2]))))
        refs.append(Ref(nm, one(h, SS, 'CutSphereGM', SC(x[1]), bp), opt, None, [c(0), c(0), z], props=PR, up=False))
    height = dd.sub(rims[0], rims[1])
    if len(ss) == 3:
        h.holds('closing cylinder only where the rims are apart', dd.gt(height, c(0)))
        refs.append(Ref('closing cylinder', one(h, CY, 'FiniteCylinder', D, SC(height)), one(h, OC, 'RefractiveHomogenous', SC(c(1)), nn), None,
            [c(0), c(0), dd.mul(dd.add(rims[0], rims[1]), c(Fraction(1, 2)))], props=PR, up=False))
    else: h.holds('no cylinder only where the rims meet', dd.le(height, c(0)))
    if G:
        for r in refs:
            if r.R is None: r.R = I3(h)
            r.t = h.vadd(h.matvec(G[0], r.t), G[1]); r.R = [[h.dot(G[0][i], [r.R[k][j] for k in range(3)]) for j in range(3)] for i in range(3)]
    match(h, 'lens', ss, refs, Coat(h, (SC(c(1)), nn)))
PR = ('vertices', 'directions', 'energy', 'parents', 'ref_index')

def vertex(h, v, R, depth, pd):
    """where the faces' vertices are along the axis.  Two deviations of the present code from its documentation have names of their own (known findings)."""
    front, back = v
    want = dd.neg(pd)
    fb = lambda x, y: dd.differ(x, y, h.I.pc, True) is None
    if not fb(back, want) and R[1] is not None and fb(back, pd): h.viol('back principal point at Z = 0: back vertex stands at +pd instead of -pd', 'the back face is at %s, %s documented' % (dd.show(back), dd.show(want)))
    elif not fb(back, want) and R[1] is None and fb(back, c(0)): h.viol('back principal point at Z = 0: planar back face stands at 0 instead of -pd', 'the back face is at %s, %s documented' % (dd.show(back), dd.show(want)))
    else: h.eq('back principal point at Z = 0', back, want)
    if R[1] is None and not fb(front, dd.add(back, depth.node)) and fb(front, dd.add(dd.add(back, pd), depth.node)):
        h.viol('thickness: lens with a planar back face is depth + pd thick', 'front vertex at %s, back face at %s' % (dd.show(front), dd.show(back)))
    else: h.eq('thickness', dd.sub(front, back), depth.node)

# ---- triangulated surfaces ------------------------------------------------------
def q(*rows): return [[c(Fraction(x)) for x in r] for r in rows]
ROTS = [q((1, 0, 0), (0, 1, 0), (0, 0, 1)), q((0, 0, 1), (1, 0, 0), (0, 1, 0)), q(('3/5', '-4/5', 0), ('4/5', '3/5', 0), (0, 0, 1)),
        q(('2/3', '-1/3', '2/3'), ('2/3', '2/3', '-1/3'), ('-1/3', '2/3', '2/3'))]

def triangles(h, pattern, moved, order=None):
    """pattern: per face 'f' (proper) or how it is degenerate: '1' first two vertices alike, '2' first and last alike, 'c' collinear, 'l' last two alike (collinear)"""
    I = h.I
    h.watch = 'vertices not modified'
    verts, faces, want = [], [], []
    for i, k in enumerate(pattern):
        R = ROTS[i % len(ROTS)]
        t = [dd.leaf(n.atom('origin%d%s' % (i, x))) for x in 'xyz']
        if order == 'fan' and i: t = verts[0]
        a, b, e = h.sc('a%d' % i, lo=.1).node, h.sc('b%d' % i).node, h.sc('c%d' % i, lo=.1).node
        n.register_root(a.val); n.register_root(e.val)
        if k in 'cl': e = c(0)
        if k == 'c': b = h.sc('b+%d' % i, lo=.1).node; n.register_root(b.val)
        if k == 'l': b = a
        dd.add(dd.mul(b, b), dd.mul(e, e))        # known positive
        X, Y = [r[0] for r in R], [r[1] for r in R]
        v = [t, h.vadd(t, h.smul(a, X)), h.vadd(t, h.vadd(h.smul(b, X), h.smul(e, Y)))]
        m = len(verts); verts += v
        ix = [m, m + 1, m + 2]
        if k == '1': ix = [m, m, m + 2]
        if k == '2': ix = [m, m + 1, m]
        if order == 'fan': ix = [0 if j == m else j for j in ix]
        faces.append(ix)
        if k == 'f': want.append((R, t, a, b, e))
    if order is not None:
        # the vertices are listed in another order (one of them in no face), faces from the last to the first
        verts.append([dd.leaf(n.atom('unused' + x)) for x in 'xyz'])
        to = list(range(len(verts)))
        if order in ('down', 'fan'): to = to[::-1]
        if order == 'mixed': to = sorted(to, key=lambda j: (j * 5 + 3) % (len(to) + (len(to) % 5 == 0)))
        verts = [verts[to.index(j)] for j in range(len(to))]
        faces = [[to[j] for j in f] for f in faces][::-1]
    V = h.mk((len(verts), 3), [x for v in verts for x in v], tag="the caller's vertices")
    F = h.const_arr(faces)
    opt = one(h, OC, 'Reflective', h.sc('absorptivity', lo=0.0, hi=1.0))
    kw = {}
    G = None
    if moved: T, GR, Gt = h.frame('object frame'); kw['transform'] = T; G = (GR, Gt)
    o = h.new('tracer.models.triangulated_surface', 'TriangulatedSurface', V, F, opt, **kw)
    h.writes('vertices not modified')
    ss = surfs(h, o)
    refs = []
    for j, (R, t, a, b, e) in enumerate(want):
        gm = one(h, TF, 'TriangularFace', h.mk((3, 2), [a, b, c(0), e, c(0), c(0)]))
        if G:
            t = h.vadd(h.matvec(G[0], t), G[1]); R = [[h.dot(G[0][i], [R[k][j_] for k in range(3)]) for j_ in range(3)] for i in range(3)]
        refs.append(Ref('face %d' % j, gm, None, R, t))
    match(h, 'triangulated surface', ss, refs, None)
    for s in ss:
        R = I.elems(npm.toarr(I, h.m(s, 'get_rotation')))
        for i in range(3):
            for j in range(i + 1): h.eq('frame of a face is a rotation', h.dot([R[3 * k + i] for k in range(3)], [R[3 * k + j] for k in range(3)]), c(1 if i == j else 0))
    for s in ss: h.eq('optics of every face are the given ones', dd.TRUE if h.m(s, 'get_optics_manager') is opt else dd.FALSE, dd.TRUE)

def run(rep):
    rep.case('one-sided mirror', mirror)
    rep.case('one-sided receiver', receiver, True)
    rep.case('one-sided receiver by default', receiver, False)
    rep.case('homogenizer', homogenizer)
    rep.case('homogenized receiver/square', local_receiver, True)
    rep.case('homogenized receiver/rectangular', local_receiver, False)
    rep.case('MiniDish', dish, 'tau_minidish', 'MiniDish', 'ParabolicDishGM', False)
    rep.case('MiniDish of another aspect', dish, 'tau_minidish', 'MiniDish', 'ParabolicDishGM', 'y')
    rep.case('PETAL of another aspect', dish, 'PETAL_dish', 'PETAL', 'HexagonalParabolicDishGM', 'x')
    rep.case('PETAL', dish, 'PETAL_dish', 'PETAL', 'HexagonalParabolicDishGM', False)
    rep.case('minidish measures', measures, False)
    rep.case('standard minidish', measures, True)
    for a in KINDS:
        for b in KINDS:
            if a[0] == 'f' and b[0] == 'f': continue
            if (a[0] == 'f' and a != 'flat: inf' and b != 'convex') or (b[0] == 'f' and b != 'flat: inf' and a != 'convex'): continue
            rep.case('lens/front %s, back %s' % (a, b), lens, a, b, False)
    rep.case('lens/front convex, back convex, placed', lens, 'convex', 'convex', True)
    import itertools
    m = 3 if rep.tier == 'quick' else 4
    for k in range(1, m + 1):
        for p in itertools.product('f12cl' if k < 3 or rep.tier != 'quick' else 'f1c', repeat=k):
            if 'f' in p: rep.case('faces ' + ''.join(p), triangles, ''.join(p), False)
    for o in ('down', 'mixed', 'fan'):
        for p in ('ff', 'f1f', 'fcf'): rep.case('faces %s, vertices listed otherwise (%s)' % (p, o), triangles, p, False, o)
    rep.case('faces f1f placed', triangles, 'f1f', True)
