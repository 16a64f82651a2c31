"""A surface keeps no memory: repeated use equals first use."""
from ..geom_h import *
from ..engine_h import World
from ..opt_h import O

RULE = ('Value numbering and typestate over histories: every geometry manager (bare, and within a Surface with real optics) is taken through bounded histories of the protocol with '
        'one bundle and frame - register, select an arbitrary or empty subset, query, release, in every order the protocol allows, releases at every stage - and then used with another '
        'bundle and frame; distances, hit points, normals, up direction and outgoing rays must have the value numbers a freshly built one gives. No history may raise. '
        'An engine is traced twice over opaque surfaces: tree, surfaces addressed, and returned rays of the second trace must be those of that trace alone.')

# histories on the first bundle: f register, s select some, z select none, q query, d release
HIST = ['d', 'dd', 'fd', 'fdd', 'fsd', 'fzd', 'fsqd', 'fqd', 'fsqqd', 'fzqd', 'fsqdfd', 'fdfsqd', 'fsqdfsqd', 'fsdd', 'f', 'fs', 'fsq', 'fz', 'ff']
LONG = ['fsqdfsqdfsqd', 'fdfdfsqd', 'dfsqddfd', 'fzqdfsqd', 'fsqdfzqd', 'fsqdfzdfd']

class Use(object):
    """one bundle and frame; protocol steps on a geometry manager or surface"""
    def __init__(self, h, sh, name, ax=None, place=None, rays=None):
        self.h, self.I, self.name = h, h.I, name
        self.ax = ax or (rays.ax if rays else h.axis(name + 'ray'))
        self.F, self.R, self.t = h.frame(name + 'frame')
        if place: self.R, self.t = place.R, place.t; self.F = snap(h, place.F)      # the same place, another array
        self.bund, self.vals = (rays.bund, rays.vals) if rays else h.bundle(self.ax, name=name, wavelen=h.arr(name + 'wl', self.ax))
        self.care = sh.care(h, h.tvec(self.R, h.vsub(h.I.elems(self.vals['vertices']), self.t)), h.tvec(self.R, h.I.elems(self.vals['directions'])))
    def step(self, gm, op):
        h, I = self.h, self.I
        if op == 'f': self.prm = h.m(gm, 'find_intersections', self.F, self.bund)
        elif op == 's': h.m(gm, 'select_rays', self.idx())
        elif op == 'z': h.m(gm, 'select_rays', I.new_arr((0,), [], 'i'))
        elif op == 'q':
            if self.sel: h.m(gm, 'get_normals'); h.m(gm, 'get_intersection_points_global')
            h.m(gm, 'up')
        elif op == 'd': h.m(gm, 'done')
        if op in 'fd': self.sel = False
        if op in 'sz': self.sel = True
    def idx(self):
        h, I = self.h, self.I
        P = npm.toarr(I, self.prm)
        fin = dd.and_(dd.not_(dd.isinf(I.elems(P)[0])), dd.batom(self.name + 'chosen@' + self.ax.base.name, deps=frozenset([self.ax.base.id])))
        return npm.nonzero(I, I.new_arr((self.ax,), [fin], 'b'))[0]
    def surf(self, s, op):
        """the same steps through a Surface"""
        h, I = self.h, self.I
        if op == 'f': h.m(s, 'transform_frame', self.F); self.prm = h.m(s, 'register_incoming', self.bund)
        elif op == 's': h.m(s, 'select_rays', self.idx())
        elif op == 'z': h.m(s, 'select_rays', I.new_arr((0,), [], 'i'))
        elif op == 'q': self.out = h.m(s, 'get_outgoing') if self.sel else None
        elif op == 'd': h.m(s, 'done')
        if op in 'fd': self.sel = False
        if op in 'sz': self.sel = True

def geometry(h, S, hist, change=None, same=False):
    I = h.I
    sh = S()
    gm = sh.build(h)
    a = Use(h, sh, 'first.')
    # again with: as many rays, the same place, the same bundle
    b = Use(h, sh, 'second.', a.ax if same in ('size', 'bundle') else None, a if same in ('place', 'all') else None, a if same in ('rays', 'all') else None)
    for op in hist: a.step(gm, op)
    if same == 'array':          # the frame's array is written over, as moving a surface that stands alone does
        I.write(a.F, I.elems(b.F)); b.F = a.F
    if same == 'bundle':         # the bundle is given other rays
        for p in ('vertices', 'directions'): h.m(a.bund, 'set_' + p, b.vals[p])
        b.bund = a.bund
    if change: change(h, sh, gm)
    fresh = change(h, sh, None) if change else sh.build(h)
    res = []
    for g in (gm, fresh):
        b.step(g, 'f'); p = snap(h, b.prm)
        b.step(g, 's')
        r = [('distance', p)]
        for rnd in ('', ', asked again'):
            r += [('hit point' + rnd, snap(h, h.m(g, 'get_intersection_points_global'))), ('normal' + rnd, snap(h, h.m(g, 'get_normals')))]
        r.append(('up', snap(h, h.m(g, 'up'))))
        res.append(r)
        h.m(g, 'done')
    for (nm, x), (_, y) in zip(*res): h.same(nm, x, y, care=b.care)
    by = dict(res[0])
    for nm in ('hit point', 'normal'): h.same(nm + ' asked twice', by[nm + ', asked again'], by[nm], care=b.care)

def snap(h, v):
    I = h.I
    v = npm.toarr(I, v)
    return Arr(I.alloc(ArrRec(I.get(v.oid).elems, I.adt(v), None, I.get(v.oid).loc)), v.dims, v.pos)

def radius(h, sh, gm):
    r = h.sc('new radius', lo=1e-30)
    if gm is None: return h.new(sh.mod, sh.cls, r)
    h.m(gm, 'set_radius', r)
def verts(h, sh, gm):
    el = [dd.leaf(n.atom('new ' + x)) for x in ('ax', 'bx', 'ay', 'by')] + [dd.c(0), dd.c(0)]
    if gm is None: return h.new(sh.mod, sh.cls, h.mk((3, 2), el))
    h.m(gm, 'set_vertices', h.mk((3, 2), el))

OPT = {'Reflective': lambda h: h.new(O, 'Reflective', h.sc('absorptivity', lo=0.0, hi=1.0)),
       'AbsorberReflector': lambda h: h.new(O, 'AbsorberReflector', h.sc('absorptivity', lo=0.0, hi=1.0)),
       'ReflectiveReceiver': lambda h: h.new(O, 'ReflectiveReceiver', h.sc('absorptivity', lo=0.0, hi=1.0)),
       'LambertianReflector': lambda h: h.new(O, 'LambertianReflector', h.sc('absorptivity', lo=0.0, hi=1.0)),
       'RefractiveHomogenous': lambda h: h.new(O, 'RefractiveHomogenous', h.sc('n1', lo=1.0), h.sc('n2', lo=1.0))}

def surface(h, S, opt, hist):
    I = h.I
    sh = S()
    mk = lambda: h.new('tracer.surface', 'Surface', sh.build(h), OPT[opt](h))
    s, fresh = mk(), mk()
    a, b = Use(h, sh, 'first.'), Use(h, sh, 'second.')
    for op in hist: a.surf(s, op)
    res = []
    for g in (s, fresh):
        for op in 'fsq': b.surf(g, op)
        r = [('distance', snap(h, b.prm))]
        for p in ('vertices', 'energy', 'parents', 'ref_index', 'wavelen') + (() if 'Lambertian' in opt else ('directions',)):
            v, rs = h.attempt(lambda: I.resolve(I.meth(b.out, 'get_' + p)))
            r.append(('outgoing ' + p, v))
        res.append(r)
        b.surf(g, 'd')
    for (nm, x), (_, y) in zip(*res):
        if x is None or y is None: h.und(nm, 'not set'); continue
        for cx, x1 in h.alts(x):
            for cy, y1 in h.alts(y):
                c = dd.and_(cx, cy)
                if c is dd.FALSE or dd.sat(c) is None: continue
                h.under(c, lambda: h.same(nm, x1, y1, care=dd.and_(h.I.pc, b.care)))

def engine(h, layout, reps, first, simple, tree1=True):
    w = World(h, layout, simple)
    eng, r = w.trace(first, tree=tree1)
    w2 = w.again()
    eng, r = w2.trace(reps, eng=eng)
    per = w2.check_register(); w2.check_registered_iff(reps, per)
    per = w2.check_select(); w2.check_selected_iff(reps, per)
    w2.check_return(reps, r)
    w2.check_tree(eng, reps)

def run(rep):
    deep = rep.tier == 'thorough'
    rep.case('engine used again', engine, (1, 1), 1, 1, True)
    rep.case('engine used again after two iterations', engine, (1,), 2, 2, True)
    rep.case('engine used again, owned rays', engine, (1, 1), 1, 1, False)
    rep.case('engine used again, owned rays carried', engine, (1,), 2, 2, False)
    rep.case('engine used again, first without tree', engine, (1, 1), 1, 1, True, False)
    for hist in ('', 'fsqd', 'fd'):
        rep.case('sphere/%s/radius changed' % hist, geometry, Sphere, hist, radius)
        rep.case('hemisphere/%s/radius changed' % hist, geometry, Hemisphere, hist, radius)
        rep.case('triangle/%s/vertices changed' % hist, geometry, Triangle, hist, verts)
        if not hist: continue
        for same in ('place', 'rays', 'all'):
            rep.case('sphere/%s/radius changed, same %s' % (hist, same), geometry, Sphere, hist, radius, same)
            rep.case('hemisphere/%s/radius changed, same %s' % (hist, same), geometry, Hemisphere, hist, radius, same)
            rep.case('triangle/%s/vertices changed, same %s' % (hist, same), geometry, Triangle, hist, verts, same)
    # the most telling first: a shape that takes long must not keep the others from their turn
    first = ['fsqd', 'fd', 'fsq']
    for hist in first + [x for x in HIST + (LONG if deep else []) if x not in first]:
        for S in ALL: rep.case('%s/%s' % (S.name, hist), geometry, S, hist)
        if not deep and hist not in ('fsqd', 'fd'): continue
        for same in ('size', 'place', 'rays', 'array', 'bundle'):
            for S in ALL: rep.case('%s/%s, same %s' % (S.name, hist, same), geometry, S, hist, None, same)
    for S in (Plane, RectPlate, Triangle, Sphere, FiniteCylinder, Dish):
        for o in OPT:
            for hist in (HIST if deep else ['d', 'fd', 'fsqd', 'fzqd', 'fsd', 'fsqdfd', 'f', 'fsq']):
                rep.case('%s with %s/%s' % (S.name, o, hist), surface, S, o, hist)
    if deep: rep.case('engine used again, three surfaces', engine, (2, 1), 2, 1, False)
