"""Every surface is used in the frame composed from the root down to it."""
from ..frame_h import *

RULE = ('Abstract interpretation of building, filling and moving assembly trees (generic rigid transforms at every node): the frame argument reaching the geometry manager '
        'of every surface must have the value number of the product of the current transforms from the root down; bounding volumes must test points in the frame composed likewise. '
        'Trees are built top-down, bottom-up and through constructors, things are added with and without a transform, and moved afterwards; every sibling is checked after every step.')

class Tree(object):
    def __init__(self, h):
        self.h = h
        self.surfs = []      # (surface, geometry, path) ; path: list of nodes
        self.bounds = []
        self.T = {}          # node -> 4x4 Arr of its current transform (specification)
        self.k = 0
        self.nm = {}
    def fr(self, nm=None):
        self.k += 1
        F, R, t = self.h.frame(nm or 'T%d' % self.k, tag='caller\'s transform')
        return F, R, t
    def eye(self): return frame_of(self.h, I3(self.h), Z3(self.h))
    def surface(self, label, given=True):
        h = self.h
        g = NoGeom()
        kw = {}
        F = self.eye()
        if given:
            F, R, t = self.fr('own frame of ' + label)
            kw = dict(location=h.mk((3,), t), rotation=h.mk((3, 3), R[0] + R[1] + R[2]))
        s = h.new('tracer.surface', 'Surface', g, g, **kw)
        self.T[s] = F; self.nm[s] = label
        self.surfs.append((s, g, [s]))
        return s
    def boundary(self, label, cls='BoundaryPlane'):
        h = self.h
        F, R, t = self.fr('own frame of ' + label)
        kw = dict(location=h.mk((3,), t))
        if cls != 'BoundarySphere': kw['rotation'] = h.mk((3, 3), R[0] + R[1] + R[2])
        else: F = frame_of(h, I3(h), t)
        b = h.new('tracer.boundary_shape', cls, **kw)
        self.T[b] = F; self.nm[b] = label
        self.bounds.append((b, cls, [b]))
        return b
    def obj(self, label, surfs=None, bounds=None, transform=False):
        h = self.h
        kw = {}
        if surfs is not None: kw['surfs'] = h.I.new_list(surfs)
        if bounds is not None: kw['bounds'] = h.I.new_list(bounds)
        F = self.eye()
        if transform: F = self.fr()[0]; kw['transform'] = F
        o = h.new('tracer.object', 'AssembledObject', **kw)
        self.T[o] = F; self.nm[o] = label
        for s in (surfs or []) + (bounds or []): self.link(o, s)
        return o
    def asm(self, label, objects=None, subs=None, placed=False):
        h = self.h
        kw = {}
        if objects is not None: kw['objects'] = h.I.new_list(objects)
        if subs is not None: kw['subassemblies'] = h.I.new_list(subs)
        F = self.eye()
        if placed:
            F, R, t = self.fr()
            kw.update(location=h.mk((3,), t), rotation=h.mk((3, 3), R[0] + R[1] + R[2]))
        a = h.new('tracer.assembly', 'Assembly', **kw)
        self.T[a] = F; self.nm[a] = label
        for c in (objects or []) + (subs or []): self.link(a, c)
        return a
    def link(self, p, c):
        for _, _, path in self.surfs + self.bounds:
            if path[0] is c: path.insert(0, p)
    def add(self, p, kind, c, transform=None):
        """p.add_<kind>(c[, transform])"""
        h = self.h
        if kind in ('surface', 'boundary'): h.m(p, 'add_' + kind, c)
        elif transform:
            F = self.fr()[0]
            h.m(p, 'add_' + kind, c, F); self.T[c] = F
        else:
            h.m(p, 'add_' + kind, c); self.T[c] = self.eye()
        self.link(p, c)
        if kind not in ('surface', 'boundary'): h.same('transform of the added %s' % self.nm[c], h.m(c, 'get_transform'), self.T[c])
    def move(self, o, op, root=None):
        h, I = self.h, self.h.I
        el = I.elems(self.T[o])
        R, t = [el[0:3], el[4:7], el[8:11]], [el[3], el[7], el[11]]
        self.k += 1
        R, t = place(h, o, op, R, t, str(self.k))
        self.T[o] = frame_of(h, R, t)
        if root is not None: h.m(root, 'transform_children')
    def frame(self, path):
        F = None
        for o in path: F = self.T[o] if F is None else self.h.matmul44(F, self.T[o])
        return F
    def check(self, root, step):
        h, I = self.h, self.h.I
        for s, g, path in self.surfs:
            if path[0] is not root: continue
            del g.frames[:]
            b, vals = h.bundle(h.axis('ray'))
            h.m(s, 'register_incoming', b)
            h.m(s, 'done')
            for pc, f, el in g.frames:
                h.same('%s: frame of %s' % (step, self.nm[s]), h.mk((4, 4), el), self.frame(path), care=pc)
        for b, cls, path in self.bounds:
            if path[0] is not root: continue
            F = I.elems(self.frame(path))
            R, t = [F[0:3], F[4:7], F[8:11]], [F[3], F[7], F[11]]
            ax = h.axis('pt')
            P = h.arr('p', ax, 3)
            q = h.tvec(R, h.vsub(I.elems(P), t))
            want = dd.ge(q[2], dd.c(0)) if cls == 'BoundaryPlane' else dd.le(h.dot(q[:2], q[:2]), dd.c(Fraction(1, 4))) if cls == 'BoundaryCylinder' else dd.le(h.dot(q, q), dd.c(1))
            h.same('%s: points within %s' % (step, self.nm[b]), h.m(b, 'in_bounds', P), h.mk((ax,), [want], 'b'), boundary=False)

def std(t, how):
    """root - (assembly B - object O1, O2), object O3 ; O1 has two surfaces and a boundary"""
    h = t.h
    if how == 'constructors':
        s1, s2, s3, s4 = [t.surface('surface %d' % i, i != 2) for i in (1, 2, 3, 4)]
        o1 = t.obj('object 1', [s1, s2], [t.boundary('boundary 1')], True)
        o2 = t.obj('object 2', [s3], None, True)
        o3 = t.obj('object 3', [s4], [t.boundary('boundary 2', 'BoundarySphere')])
        B = t.asm('assembly B', [o1, o2], None, True)
        A = t.asm('root', [o3], [B], True)
        h.m(A, 'transform_children')
    elif how == 'top down':
        A = t.asm('root', None, None, True)
        B = t.asm('assembly B')
        t.add(A, 'assembly', B, True)
        o1, o2, o3 = t.obj('object 1'), t.obj('object 2', transform=True), t.obj('object 3')
        t.add(A, 'object', o3, True)
        t.add(B, 'object', o1, True); t.add(B, 'object', o2)
        t.add(o1, 'surface', t.surface('surface 1')); t.add(o1, 'surface', t.surface('surface 2', False))
        t.add(o1, 'boundary', t.boundary('boundary 1', 'BoundaryCylinder'))
        t.add(o2, 'surface', t.surface('surface 3'))
        t.add(o3, 'surface', t.surface('surface 4')); t.add(o3, 'boundary', t.boundary('boundary 2', 'BoundarySphere'))
        h.m(A, 'transform_children')
    else:
        o1, o2, o3 = t.obj('object 1', transform=True), t.obj('object 2'), t.obj('object 3', transform=True)
        t.add(o1, 'surface', t.surface('surface 1')); t.add(o1, 'surface', t.surface('surface 2', False))
        t.add(o1, 'boundary', t.boundary('boundary 1'))
        t.add(o2, 'surface', t.surface('surface 3'))
        t.add(o3, 'surface', t.surface('surface 4')); t.add(o3, 'boundary', t.boundary('boundary 2', 'BoundarySphere'))
        B = t.asm('assembly B', placed=True)
        t.add(B, 'object', o1, True); t.add(B, 'object', o2)
        A = t.asm('root', placed=True)
        t.add(A, 'object', o3); t.add(A, 'assembly', B, True)
    return A, B, o1, o2, o3

def build(h, how):
    t = Tree(h)
    A, B, o1, o2, o3 = std(t, how)
    t.check(A, how)
    h.m(A, 'transform_children')
    t.check(A, how + ', updated again')
    h.writes('transforms given by the caller not modified')

def moves(h, how, seq):
    t = Tree(h)
    A, B, o1, o2, o3 = std(t, how)
    N_ = dict(root=A, B=B, o1=o1, o2=o2, o3=o3, s=t.surfs[0][0], b=t.bounds[0][0])
    done = []
    for who, op in seq:
        t.move(N_[who], op, None if who == 'root' else A)
        done.append('%s of %s' % (op, who))
        t.check(A, 'after moving ' + ', '.join(done))
    h.writes('transforms given by the caller not modified')

def later(h, how):
    """things added to the root after it was moved"""
    t = Tree(h)
    A, B, o1, o2, o3 = std(t, how)
    t.move(A, 'transform')
    o4 = t.obj('object 4', [t.surface('surface 5')])
    t.add(A, 'object', o4, True)
    t.check(A, 'object added later')
    C = t.asm('assembly C', [t.obj('object 5', [t.surface('surface 6')], None, True)], None, True)
    t.add(A, 'assembly', C)
    t.check(A, 'assembly added later')
    t.move(A, 'rotation')
    t.check(A, 'root rotated after that')
    h.writes('transforms given by the caller not modified')

def lone(h):
    """an object or assembly used as the root by itself"""
    t = Tree(h)
    o = t.obj('object', None, None, True)
    t.add(o, 'surface', t.surface('surface 1'))
    t.add(o, 'boundary', t.boundary('boundary 1'))
    t.check(o, 'object alone')
    t.move(o, 'location'); t.check(o, 'object alone moved')
    t.move(o, 'rotation'); t.check(o, 'object alone rotated')
    o2 = t.obj('object 2', [t.surface('surface 2')], [t.boundary('boundary 2')], True)
    t.check(o2, 'object built whole')

def slight(h, op):
    """everything in the middle, then moved by very little"""
    t = Tree(h)
    s = t.surface('surface', False)
    o = t.obj('object', [s]); B = t.asm('assembly B', [o]); A = t.asm('root', None, [B])
    h.m(A, 'transform_children')
    t.check(A, 'built')
    for x in (A, B, o, s, A): t.move(x, 'slight ' + op, A); t.check(A, '%s moved' % t.nm[x])

def same_array(h, op):
    """two objects placed with one array; moving one leaves its sibling"""
    t = Tree(h)
    A = t.asm('root', placed=True)
    F = t.fr()[0]
    o = [t.obj('object %d' % i, [t.surface('surface %d' % i)]) for i in (1, 2)]
    for x in o:
        h.m(A, 'add_object', x, F); t.T[x] = F; t.link(A, x)
    t.check(A, 'placed')
    t.move(o[0], op, A)
    t.check(A, 'first moved')
    h.writes('transforms given by the caller not modified')

def deep(h, depth):
    t = Tree(h)
    A = t.asm('level 0', placed=True)
    cur = A
    for i in range(depth):
        B = t.asm('level %d' % (i + 1))
        t.add(cur, 'assembly', B, True)
        o = t.obj('object %d' % i, [t.surface('surface %d' % i)])
        t.add(B, 'object', o, True)
        cur = B
    t.move(A, 'transform')
    t.check(A, '%d levels' % depth)

# shapes: an assembly is (sub-assemblies, objects), an object (number of surfaces, of boundaries)
_l = ([], [(1, 0)])
SHAPES = {'only sub-assemblies': ([_l], []), 'only sub-assemblies, two deep': ([([_l], [])], []), 'two sub-assemblies': ([_l, _l], []), 'two sub-assemblies and an object': ([_l, _l], [(1, 0)]),
    'object with only boundaries': ([], [(0, 1), (1, 0)]), 'empty object beside another': ([], [(0, 0), (1, 1)]), 'empty assembly beside another': ([([], []), _l], [(1, 0)]),
    'three surfaces': ([], [(3, 0)]), 'two boundaries': ([], [(1, 2)]), 'three objects': ([], [(1, 0), (1, 0), (1, 0)]), 'empty inner assembly': ([([_l], []), ([], [])], [])}

def shape(h, spec, how):
    t = Tree(h)
    nodes = []
    n_ = [0]
    def mk(sp, name):
        n_[0] += 1
        if how == 'constructors':
            obs = [mko(o, '%s.object %d' % (name, i)) for i, o in enumerate(sp[1])]
            subs = [mk(a, '%s.%d' % (name, i)) for i, a in enumerate(sp[0])]
            a = t.asm(name, obs, subs, True); nodes.append(a); nodes.extend(obs)
            return a
        a = t.asm(name, None, None, True); nodes.append(a)
        for i, b in enumerate(sp[0]): t.add(a, 'assembly', mk(b, '%s.%d' % (name, i)), i % 2 == 0)
        for i, o in enumerate(sp[1]):
            x = mko(o, '%s.object %d' % (name, i)); nodes.append(x)
            t.add(a, 'object', x, i % 2 == 0)
        return a
    def mko(o, name):
        if how == 'constructors':
            return t.obj(name, [t.surface('%s.surface %d' % (name, i)) for i in range(o[0])], [t.boundary('%s.boundary %d' % (name, i)) for i in range(o[1])], True)
        x = t.obj(name)
        for i in range(o[0]): t.add(x, 'surface', t.surface('%s.surface %d' % (name, i)))
        for i in range(o[1]): t.add(x, 'boundary', t.boundary('%s.boundary %d' % (name, i)))
        return x
    A = mk(spec, 'root')
    if how == 'constructors': h.m(A, 'transform_children')
    t.check(A, 'built')
    t.move(A, 'transform'); t.check(A, 'root moved')
    for x in nodes:
        if x is not A: t.move(x, 'location', A); t.check(A, '%s moved' % t.nm[x])
    t.move(A, 'rotation'); t.check(A, 'root rotated')
    t.move(A, 'location'); t.check(A, 'root shifted')

OPS = ('location', 'rotation', 'transform')
def run(rep):
    for op in OPS: rep.case('moved very little/' + op, slight, op)
    HOW = ('constructors', 'top down', 'bottom up')
    for how in HOW:
        rep.case('built %s' % how, build, how)
        for who in ('root', 'B', 'o1', 'o3', 's', 'b'):
            for op in OPS: rep.case('built %s/move %s of %s' % (how, op, who), moves, how, [(who, op)])
        rep.case('built %s/added later' % how, later, how)
    S = [[('root', 'rotation'), ('root', 'location')], [('B', 'transform'), ('root', 'location')], [('o1', 'rotation'), ('B', 'location'), ('root', 'transform')],
         [('root', 'location'), ('o2', 'location'), ('s', 'rotation')], [('s', 'transform'), ('b', 'location'), ('root', 'rotation')], [('o3', 'transform'), ('o3', 'location'), ('o3', 'rotation')]]
    for i, s in enumerate(S):
        for how in (HOW if rep.tier == 'thorough' else HOW[1:2]): rep.case('built %s/moves %d' % (how, i), moves, how, s)
    rep.case('object alone', lone)
    for k in SHAPES:
        for how in ('constructors', 'adding'): rep.case('%s/%s' % (k, how), shape, SHAPES[k], how)
    for op in OPS: rep.case('two objects placed with one array, %s' % op, same_array, op)
    rep.case('nested assemblies', deep, 3)
    if rep.tier == 'thorough': rep.case('deeply nested assemblies', deep, 6)
