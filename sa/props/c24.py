"""Object and surface listings agree in order and completeness."""
from ..engine_h import *
from ..frame_h import NoGeom

RULE = ('Abstract interpretation of the listing methods over assembly trees of several shapes, built through constructors and through additions: identity sets of the listed '
        'nodes must be exactly those of the tree, each once; the surface list must be the concatenation of the objects\' surface lists in object-list order; listings are repeated, '
        'and the lists handed out extended, to detect effects of listing on the tree. The engine is then run on a real nested assembly of opaque objects: every query about rays '
        'must reach the object owning the surface they left.')

def flat(h, v):
    it = h.items(h.I.resolve(v))
    if it is None: return None
    if any(g is not dd.TRUE or isinstance(x, (SymItem, Choice, Top)) for g, x in it): return None
    return [x for g, x in it]

class Intruder(Stub):
    name = 'intruder'
    def attr(self, I, name): return Builtin(name, lambda I, a, k: I.new_list([]), lift=False)

class T(object):
    def __init__(self, h): self.h, self.k = h, 0; self.kids = {}; self.surfs = {}
    def surface(self):
        g = NoGeom()
        return self.h.new('tracer.surface', 'Surface', g, g)
    def obj(self, cnt, how='constructor'):
        h = self.h
        ss = [self.surface() for _ in range(cnt)]
        if how == 'constructor': o = h.new('tracer.object', 'AssembledObject', surfs=h.I.new_list(ss))
        elif how == 'default' : o = h.new('tracer.object', 'AssembledObject')
        else:
            o = h.new('tracer.object', 'AssembledObject')
            for s in ss: h.m(o, 'add_surface', s)
        self.surfs[o] = ss
        return o
    def asm(self, objs, subs, how='constructor'):
        h = self.h
        if how == 'constructor': a = h.new('tracer.assembly', 'Assembly', objects=h.I.new_list(objs), subassemblies=h.I.new_list(subs))
        else:
            a = h.new('tracer.assembly', 'Assembly')
            for o in objs: h.m(a, 'add_object', o)
            for s in subs: h.m(a, 'add_assembly', s)
        self.kids[a] = [list(objs), list(subs)]
        return a
    def add_obj(self, a, o, F=None): self.h.m(a, 'add_object', o, *([F] if F else [])); self.kids[a][0].append(o)
    def add_asm(self, a, b, F=None): self.h.m(a, 'add_assembly', b, *([F] if F else [])); self.kids[a][1].append(b)
    def add_surf(self, o):
        s = self.surface(); self.h.m(o, 'add_surface', s); self.surfs[o].append(s)
    def all(self, a):
        r = []
        for b in self.kids[a][1]: r += self.all(b)
        return r + self.kids[a][0]
    def seqeq(self, name, got, want):
        h = self.h
        g = flat(h, got)
        if g is None: h.und(name, 'list not modelled'); return None
        if len(g) == len(want) and all(x == y for x, y in zip(g, want)): h.ok(name); return g
        h.viol(name, 'listed %d (%s), required %d' % (len(g), self.show(g, want), len(want))); return None
    def show(self, g, want): return ', '.join(str(want.index(x)) if x in want else '?' for x in g)
    def check(self, a, step):
        h = self.h
        want = self.all(a)
        nm = step + ': objects listed exactly once'
        g = flat(h, h.m(a, 'get_objects'))
        if g is None: h.und(nm, 'list not modelled'); return
        if len(g) == len(want) and all(x in g for x in want): h.ok(nm)
        else:
            h.viol(nm, 'the object list holds %d things (%s) instead of the %d objects of the tree' % (len(g), self.show(g, want), len(want))); return
        self.seqeq(step + ': surfaces in object-list order', h.m(a, 'get_surfaces'), [s for o in g for s in self.surfs[o]])
        for o in g: self.seqeq(step + ': surfaces of an object', h.m(o, 'get_surfaces'), self.surfs[o])
        for b in self.kids:
            self.seqeq(step + ': local objects', h.m(b, 'get_local_objects'), self.kids[b][0])
            self.seqeq(step + ': sub-assemblies', h.m(b, 'get_assemblies'), self.kids[b][1])
    def checks(self, a, step):
        self.check(a, step)
        for b in list(self.kids):
            if b is not a: self.check(b, step + ', nested assembly')
        self.check(a, step + ', listed again')
        # the lists made by the recursive listings belong to the caller
        h = self.h
        for b in list(self.kids):
            for f in ('get_objects', 'get_surfaces'):
                l = h.m(b, f)
                if isinstance(l, ListRef): h.m(l, 'append', Intruder())
        self.check(a, step + ', after the caller extended its list')

def tree(h, shape, how):
    t = T(h)
    def mk(s):
        objs, subs = s
        return t.asm([t.obj(c, how) for c in objs], [mk(x) for x in subs], how)
    a = mk(shape)
    t.checks(a, 'tree')
    # things added later are included
    F = h.frame('later')[0]
    t.add_obj(a, t.obj(2, 'added'), F)
    t.checks(a, 'after adding an object')
    o = t.all(a)[0]
    t.add_surf(o)
    t.checks(a, 'after adding a surface')
    inner = [b for b in t.kids if b is not a]
    b = inner[0] if inner else a
    c = t.asm([t.obj(1)], [], 'added')
    t.add_asm(b, c, F)
    t.checks(a, 'after adding an assembly')
    t.add_obj(c, t.obj(1, 'added'))
    t.checks(a, 'after adding an object to a nested assembly')

def separate(h):
    """trees built with defaults do not share their contents"""
    t = T(h)
    a = t.asm([], [], 'added'); b = t.asm([], [], 'added')
    t.add_obj(a, t.obj(1, 'added'))
    t.add_asm(a, t.asm([t.obj(1, 'added')], [], 'added'))
    t.check(a, 'the filled one'); t.check(b, 'the other one')
    c = t.asm([], [], 'added')
    t.check(c, 'one made later')

class NestObj(Obj):
    """opaque object that can be placed in a real assembly"""
    def m_set_transform(self, I, F): pass
    def m_transform_children(self, I, F=None): pass
    def m_get_local_objects(self, I): return I.new_list([])

def engine(h, layout, subs, reps):
    """engine on a real nested assembly; queries reach the owner of the surface"""
    w = World(h, layout)
    I = h.I
    w.objs = [NestObj(w, o.o, o.surfs) for o in w.objs]
    def mk(s):
        objs, sub = s
        a = h.new('tracer.assembly', 'Assembly')
        for x in sub: h.m(a, 'add_assembly', mk(x))
        for o in objs: h.m(a, 'add_object', w.objs[o])
        return a
    w.asm = mk(subs)
    w.trace(reps)
    w.check_objects()
    per = w.check_register()
    w.check_registered_iff(reps, per)

def run(rep):
    E = ([], [])
    SH = [('one object', ([1], [])), ('two objects', ([2, 1], [])), ('nested', ([1], [([2], [])])), ('only nested', ([], [([1, 2], []), ([1], [])])),
          ('deep', ([1], [([2], [([1], [])]), ([1], [])])), ('nested without surfaces', ([1], [([0], [])])), ('only nested without surfaces', ([], [([0, 0], [])])), ('with empty parts', ([0, 1], [E, ([1], [E])]))]
    for nm, s in SH:
        for how in ('constructor', 'added'): rep.case('%s/%s' % (nm, how), tree, s, how)
    rep.case('empty assembly', empty)
    rep.case('defaults not shared', separate)
    rep.case('engine on a nested assembly', engine, (1, 2, 1), ([2], [([0, 1], [])]), 2)
    rep.case('engine on two nested assemblies', engine, (2, 1), ([], [([0], []), ([1], [])]), 2)
    if rep.tier == 'thorough':
        rep.case('engine on a deeply nested assembly', engine, (1, 1, 1), ([2], [([1], [([0], [])])]), 2)

def empty(h):
    t = T(h)
    a = t.asm([], [], 'added')
    t.check(a, 'empty assembly')
    o = t.obj(0, 'default')
    t.add_obj(a, o); t.check(a, 'assembly with an empty object')
