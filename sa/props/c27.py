"""The 3D scene shows exactly the current surfaces and the current trace."""
from ..harness import *
from ..engine_h import Stub
import itertools

RULE = ('Typestate and provenance analysis of TracerScene against a recording stand-in for the plotting library: every mesh and ray plot ever created is followed through every order of up to three '
        '(thorough: four) calls of the scene\'s methods on assemblies that share, gain and lose surfaces; after each call exactly the meshes of the current surfaces are alive, one each, made from that '
        'surface\'s mesh() at its own or the given resolution, colour and opacity, and exactly one ray plot is alive, of the current source traced through the current assembly with the current limits.')

class Any(HostObj):
    """an object of a GUI library that nothing is known about"""
    def attr(self, I, name): return Any()
    def setattr(self, I, name, v): pass
    def call(self, I, a, k): return Any()

class Thing(Stub):
    """something drawn on the scene; `alive` is kept in the abstract store"""
    name = 'drawn'
    def __init__(self, sc, what, kw):
        self.sc, self.what, self.kw = sc, what, kw
        self.oid = sc.h.I.alloc(DictRec(dict(alive=Sc(dd.TRUE, 'b'), odd=Sc(dd.FALSE, 'b'))))
        self.born = sc.h.I.pc; self.loc = sc.h.I.loc
        sc.things.append(self)
    def m_remove(self, I): self.upd(I, alive=Sc(dd.FALSE, 'b'))
    def attr(self, I, name):
        if name == 'remove': return Builtin('remove', lambda I, a, k: self.m_remove(I))
        self.upd(I, odd=Sc(dd.TRUE, 'b'))
        return Any()
    def setattr(self, I, name, v): self.upd(I, odd=Sc(dd.TRUE, 'b'))
    def alive(self, I): return I.resolve(self.st(I)['alive'])

class Data(HostObj):
    """points on their way to become a plot; the lines between them"""
    def __init__(self, sc, pts): self.sc, self.pts, self.lines = sc, pts, []
    def attr(self, I, name): return self
    def setattr(self, I, name, v):
        if name == 'lines': self.lines.append(v)
    def call(self, I, a, k): return self

class Scene(Stub):
    """the plotting library's scene, with mlab and its pipeline"""
    name = 'scene'
    def __init__(self, h):
        self.h, self.things, self.log = h, [], []
        self.oid = h.I.alloc(DictRec({}))
    def attr(self, I, name):
        if name in ('mlab', 'pipeline', 'scene'): return self
        m = getattr(self, 'm_' + name, None)
        if m is not None: return Builtin(name, lambda I, a, k: m(I, *a, **k), lift=False)
        return self.st(I).get(name, Any())
    def setattr(self, I, name, v): self.upd(I, **{name: v})
    def m_clf(self, I, *a):
        for t in self.things: t.upd(I, alive=Sc(dd.FALSE, 'b'))
    def m_mesh(self, I, *a, **k): return Thing(self, ('mesh',) + a, k)
    def m_scalar_scatter(self, I, *a, **k): return Data(self, a)
    def m_surface(self, I, d=None, **k):
        if not isinstance(d, Data): raise Undecided('surface of something else than points')
        return Thing(self, ('rays', d), k)

class Surf(Stub):
    kind = 'surface'
    def __init__(self, h, name, **notes):
        self.name, self.notes, self.h, self.made = name, notes, h, []
        self.oid = h.I.alloc(DictRec({}))
    def attr(self, I, name):
        if name in self.notes: return self.notes[name]
        if name == 'mesh': return Builtin('mesh', lambda I, a, k: self.mesh(I, *a, **k))
        if I.anchor('tracer.surface', 'Surface').lookup(name) is not MISSING: raise Undecided('Surface.%s' % name)
        return self.st(I).get(name, MISSING)
    def mesh(self, I, resolution=None):
        r = tuple(I.new_arr((2, 2), [dd.leaf(n.atom('%s.mesh%d.%s%d' % (self.name, len(self.made), c_, i))) for i in range(4)]) for c_ in 'xyz')
        self.made.append((r, resolution))
        return r
    def setattr(self, I, name, v): self.upd(I, **{name: v})

class Asm(Stub):
    kind = 'assembly'
    def __init__(self, name, surfs): self.name, self.surfs = name, list(surfs)
    def m_get_surfaces(self, I): return I.new_list(list(self.surfs))
    def missing(self, I, name):
        if I.anchor('tracer.assembly', 'Assembly').lookup(name) is not MISSING: raise Undecided('Assembly.%s' % name)
        return MISSING

class Engine(Stub):
    kind = 'engine'; name = 'engine'
    def __init__(self, lab, asm): self.lab, self.asm = lab, asm; self.oid = lab.h.I.alloc(DictRec({}))
    def attr(self, I, name):
        if name in ('tree', 'ray_tracer'): return super(Engine, self).attr(I, name) if name != 'tree' else self.st(I).get('tree', MISSING)
        raise Undecided('%s of the engine' % name)
    def m_ray_tracer(self, I, *a, **k):
        lab = self.lab
        names = lab.params
        kw = dict(zip(names, a)); kw.update(k)
        ax = lab.h.axis('trace%d' % len(lab.traces))
        b, v = lab.h.bundle(ax, name='trace%d.' % len(lab.traces))
        tree = I.call(I.anchor('tracer.trace_tree', 'RayTree'), [], {})
        I.meth(tree, 'append', b)
        lab.traces.append((self.asm, kw, ax, v, I.pc, I.loc))
        keep = kw.get('tree', True)
        if keep is True: self.upd(I, tree=tree)
        return (v['vertices'], v['directions'])
    def setattr(self, I, name, v): self.upd(I, **{name: v})

class Lab(object):
    """one scene and its environment"""
    def __init__(self, h):
        self.h, I = h, h.I
        self.traces = []
        hast = ClassVal('HasTraits', [], None); hast.partial = True
        self.scenes = []
        def instance(I, a, k):
            s = Scene(h); self.scenes.append(s); return s
        I.ext['traits.api'] = ModuleVal('traits.api', {'HasTraits': hast, 'Instance': Builtin('Instance', instance)})
        I.ext['traits'] = ModuleVal('traits', {'api': I.ext['traits.api']})
        I.ext['traits.api'].partial = True
        anyf = Builtin('any', lambda I, a, k: Any())
        I.ext['traitsui.api'] = ModuleVal('traitsui.api', {'View': anyf, 'Item': anyf, 'Group': anyf, 'HGroup': anyf, 'VGroup': anyf})
        I.ext['traitsui.api'].partial = True
        I.ext['traitsui'] = ModuleVal('traitsui', {'api': I.ext['traitsui.api']})
        for m, k in (('mayavi.tools.mlab_scene_model', 'MlabSceneModel'), ('tvtk.pyface.scene_editor', 'SceneEditor'), ('mayavi.core.ui.mayavi_scene', 'MayaviScene')):
            I.ext[m] = ModuleVal(m, {k: anyf}); I.ext[m].partial = True
        f = I.anchor('tracer.tracer_engine', 'TracerEngine')
        rt = f.lookup('ray_tracer')
        self.params = [a.arg for a in rt.args.args][1:]
        eng = ModuleVal('tracer.tracer_engine', {'TracerEngine': Builtin('TracerEngine', lambda I, a, k: Engine(self, (list(a) + list(k.values()))[0]))})
        I.modules.pop('tracer.tracer_engine'); I.ext['tracer.tracer_engine'] = eng
        self.cls = I.anchor('tracer.mayavi_ui.scene_view', 'TracerScene')
        h.handled = len(I.raises)
    def scene(self):
        """a new scene"""
        s = self.cls.lookup('_scene')
        if not isinstance(s, Scene): raise Undecided('the scene is not understood')
        s.things = []; I = self.h.I
        I.put(s.oid, DictRec({}))
        return s

def ptuple(I, v):
    if isinstance(v, tuple): return v
    try: return tuple(I.iterate(v))
    except Exception: return v

class Run(object):
    """the specification, stepped along with the code"""
    def __init__(self, lab, label, source=True, selector=False):
        self.lab, self.h, self.I = lab, lab.h, lab.h.I
        self.label = label
        h, I = self.h, self.I
        ann = dict(resolution=h.sc('own resolution'), colour=(0.1, 0.2, 0.3), opacity=h.sc('own opacity'))
        self.a0, self.a1, self.a2 = Surf(h, 'plain'), Surf(h, 'annotated', **ann), Surf(h, 'coloured', colour=(0.9, 0.8, 0.7))
        self.b0, self.c0 = Surf(h, 'other', opacity=h.sc('another opacity')), Surf(h, 'added', resolution=h.sc('another resolution'))
        self.A, self.B, self.E = Asm('A', [self.a0, self.a1, self.a2]), Asm('B', [self.a1, self.b0]), Asm('no surfaces', [])
        self.asm = self.A
        self.S = lab.scene()
        lab.traces[:] = []
        self.nsrc = 0
        self.src = Any() if source else None
        self.limits = [200000000, 0.05]
        self.esc = h.sc('escaping')
        self.shown = {}; self.unspec = set()
        self.plot = None
        self.sel = None
        self.selcalls = []
        def sel(I, a, k):
            self.selcalls.append(a[0])
            V = npm.toarr(I, I.meth(a[0], 'get_vertices'))
            return h.arr('shown', V.dims[1], dt='b')
        if selector: self.sel = Builtin('ray_selector', sel)
        self.ntr = 0
        kw = dict(escaping=self.esc)
        if self.sel is not None: kw['ray_selector'] = self.sel
        self.o = I.call(lab.cls, [self.A, self.src], kw)
        self.after_set(self.A); self.after_plot()
        self.check('created')
    DEF = dict(resolution=10, colour=(0.5, 0.5, 0.5), opacity=1.)
    def look(self, s, given): return {k: s.notes.get(k, given[k]) for k in ('resolution', 'colour', 'opacity')}
    def after_set(self, asm):
        self.asm = asm; self.unspec = set()
        self.shown = {s: self.look(s, self.DEF) for s in asm.surfs}
    def after_plot(self):
        if self.src is None: self.plot = None
        else: self.plot = (self.asm, self.src, tuple(self.limits))
        self.fresh = self.src is not None
    def do(self, op):
        h, I, o = self.h, self.I, self.o
        self.fresh = False
        self.ntr = len(self.lab.traces)
        if op == 'set_assembly(A)': h.m(o, 'set_assembly', self.A); self.after_set(self.A)
        elif op == 'set_assembly(B)': h.m(o, 'set_assembly', self.B); self.after_set(self.B)
        elif op == 'set_assembly(empty)': h.m(o, 'set_assembly', self.E); self.after_set(self.E)
        elif op in ('surface added', 'surface removed', 'surfaces all removed', 'nothing changed', 'surfaces swapped'):
            new = []
            if op in ('surface added', 'surfaces swapped') and self.c0 not in self.asm.surfs: self.asm.surfs.insert(1, self.c0); new = [self.c0]
            if op in ('surface removed', 'surfaces swapped') and len(self.asm.surfs) > 1: del self.asm.surfs[0]
            if op == 'surfaces all removed': del self.asm.surfs[:]
            h.m(o, 'update_surfaces')
            for s in list(self.shown):
                if s not in self.asm.surfs: del self.shown[s]
            self.unspec &= set(self.asm.surfs)
            for s in self.asm.surfs:
                if s not in self.shown and s not in self.unspec: self.shown[s] = self.look(s, self.DEF)
        elif op == 'show_assembly(styled)':
            st = dict(resolution=h.sc('given resolution'), colour=(0.3, 0.3, 0.1), opacity=h.sc('given opacity'))
            h.m(o, 'show_assembly', **st)
            for s in set(self.shown) | self.unspec: self.shown[s] = self.look(s, st)
            self.unspec = set()
        elif op == 'show_assembly(update)':
            st = dict(resolution=h.sc('given resolution'))
            t = [s for s in self.asm.surfs if s in self.shown or s in self.unspec][-1:]
            h.m(o, 'show_assembly', update=I.new_list([I.call(I.builtins['id'], [s], {}) for s in t]), **st)
            for s in t: self.shown[s] = self.look(s, dict(self.DEF, **st)); self.unspec.discard(s)
        elif op == 'clear_scene':
            h.m(o, 'clear_scene'); self.unspec = set(self.shown) | self.unspec; self.shown = {}; self.plot = None
            self.gone = True
        elif op == 'set_source':
            self.src = Any(); h.m(o, 'set_source', self.src); self.after_plot()
        elif op == 'set_source(same)':
            h.m(o, 'set_source', self.src); self.after_plot()
        elif op == 'set_source(None)':
            self.src = None; h.m(o, 'set_source', None); self.after_plot()
        elif op == 'plot_ray_trace':
            h.m(o, 'plot_ray_trace'); self.after_plot()
        elif op == 'set_trace_control(max_iter)':
            self.limits[0] = h.sc('max_iter', isint=True); h.m(o, 'set_trace_control', max_iter=self.limits[0])
        elif op == 'set_trace_control(min_energy)':
            self.limits[1] = h.sc('min_energy'); h.m(o, 'set_trace_control', min_energy=self.limits[1])
        elif op == 'set_trace_control(both)':
            self.limits = [h.sc('max_iter2', isint=True), h.sc('min_energy2')]
            h.m(o, 'set_trace_control', max_iter=self.limits[0], min_energy=self.limits[1])
        elif op == 'set_background': h.m(o, 'set_background', (0., 0.5, 1.))
        self.label += ', ' + op
        self.check(op)
    def save(self):
        return (self.I.st.fork(self.I.pc), dict(self.shown), set(self.unspec), self.plot, self.src, list(self.limits), self.asm, list(self.A.surfs), list(self.B.surfs), list(self.E.surfs),
            len(self.S.things), self.label, len(self.lab.traces))
    def restore(self, k):
        self.I.st, self.shown, self.unspec, self.plot, self.src, self.limits, self.asm, self.A.surfs, self.B.surfs, self.E.surfs, nt, self.label, ntr = k
        del self.S.things[nt:]; del self.lab.traces[ntr:]
    def state(self, t):
        """is t on the scene: True, False or None (not decided)"""
        a = t.alive(self.I)
        if not isinstance(a, Sc): return None
        nd = dd.and_(a.node, t.born)
        pc = self.I.pc
        if dd.implies(pc, nd): return True
        if dd.sat(dd.and_(pc, nd)) is None: return False
        return None
    def val(self, nm, got, want, loc):
        h = self.h
        if isinstance(want, tuple):
            g = ptuple(self.I, got)
            if not isinstance(g, tuple) or len(g) != len(want):
                if isinstance(g, (Top, Choice, Arr)): h.und(nm, 'not decided'); return
                h.viol(nm, '%s instead of %s' % (g, want), loc); return False
            return all([h.same('%s[%d]' % (nm, i), x, y, loc=loc) for i, (x, y) in enumerate(zip(g, want))])
        if isinstance(want, HostObj) or want is None:
            if got is want: h.ok(nm); return True
            if isinstance(got, (Top, Choice)): h.und(nm, 'not decided'); return
            h.viol(nm, 'a different object', loc); return False
        if got is None: h.viol(nm, 'None instead of a value', loc); return False
        return h.same(nm, got, want, loc=loc)
    def check(self, op):
        h, I, S = self.h, self.I, self.S
        L = self.label
        alive = []
        for t in S.things:
            s = self.state(t)
            if s is None: h.und('%s: what is shown' % L, 'not decided'); return
            if s: alive.append(t)
        if any(I.resolve(t.st(I)['odd']).node is not dd.FALSE for t in alive): h.und('%s: what is shown' % L, 'drawn things changed later'); return
        meshes = [t for t in alive if t.what[0] == 'mesh']; rays = [t for t in alive if t.what[0] == 'rays']
        surfs = [self.a0, self.a1, self.a2, self.b0, self.c0]
        of = {}
        for t in meshes:
            for s in surfs:
                for j, (r, res) in enumerate(s.made):
                    if len(t.what) == 4 and all(isinstance(x, Arr) and x.oid == y.oid for x, y in zip(t.what[1:], r)): of.setdefault(s, []).append((t, res))
        n_of = sum(map(len, of.values()))
        if n_of != len(meshes): h.und('%s: meshes' % L, 'not made of mesh() of one surface'); return
        for s in surfs:
            g = of.get(s, [])
            nm = '%s: surface "%s"' % (L, s.name)
            if s in self.unspec: continue
            if s not in self.shown:
                if g: h.viol(nm, 'a mesh of a surface that does not belong there is still on the scene', g[0][0].loc)
                else: h.ok(nm + ' not shown')
                continue
            if len(g) != 1:
                h.viol(nm, '%d meshes of the surface on the scene, one expected' % len(g), g[0][0].loc if g else None); continue
            t, res = g[0]
            w = self.shown[s]
            h.ok(nm + ' shown once')
            self.val(nm + ' resolution', res, w['resolution'], t.loc)
            self.val(nm + ' colour', t.kw.get('color'), w['colour'], t.loc)
            op_ = t.kw.get('opacity', 1.)
            self.val(nm + ' opacity', op_, w['opacity'], t.loc)
        # rays
        nm = '%s: rays' % L
        if self.plot is None:
            if rays: h.viol(nm, 'a ray plot that does not belong there is still on the scene', rays[0].loc)
            else: h.ok(nm + ' not shown')
        elif len(rays) != 1: h.viol(nm, '%d ray plots on the scene, one expected' % len(rays), rays[0].loc if rays else None)
        else:
            t = rays[0]; d = t.what[1]
            hit = None
            P = [npm.toarr(I, x) for x in d.pts[:3]]
            e = [I.elems(p)[0] for p in P]
            fl = flat_idx(P[0].dims[0]) if isinstance(P[0].dims[0], Axis) else []
            for k, (asm, kw, ax, v, pc, loc) in enumerate(self.lab.traces):
                V = I.elems(v['vertices'])
                for j, b, m in fl:
                    xyz = [part_val(x, P[0].dims[0].base, j) if j is not None else x for x in e]
                    if b is ax.base and all(x is y for x, y in zip(xyz, V)): hit = k
            if hit is None: h.und(nm, 'plotted points not understood'); return
            asm, kw, ax, v, pc, loc = self.lab.traces[hit]
            if self.fresh:
                if hit < self.ntr: h.viol(nm, 'the plot shows an earlier trace', t.loc)
                else: h.ok(nm + ' traced anew')
            wa, ws, (wi, we) = self.plot
            self.val(nm + ' assembly', asm, wa, loc)
            self.val(nm + ' source', kw.get(self.lab.params[0]), ws, loc)
            self.val(nm + ' iterations', kw.get(self.lab.params[1]), wi, loc)
            self.val(nm + ' minimal energy', kw.get(self.lab.params[2], 0.), we, loc)
            # escape length and filter
            D = I.elems(v['directions']); V = I.elems(v['vertices'])
            want = h.vadd(V, h.smul(self.esc.node, D))
            mask = dd.ne(I.elems(v['energy'])[0], dd.c(0))
            if self.sel is not None: mask = dd.and_(mask, I.elems(h.arr('shown', ax, dt='b'))[0])
            got = None
            for j, b, m in fl:
                xyz = [part_val(x, P[0].dims[0].base, j) if j is not None else x for x in e]
                if b is ax.base and not all(x is y for x, y in zip(xyz, V)): got = xyz, m
            if got is None: h.und(nm + ' ends', 'no end points')
            else:
                for a, b, c_ in zip(got[0], want, 'xyz'): h.eq('%s ends %s' % (nm, c_), a, b, loc=t.loc)
                h.eq(nm + ' filtered', got[1], mask, loc=t.loc)
        dr = S.st(I).get('disable_render', False)
        if isinstance(dr, (bool, Sc)): h.eq('%s: rendering is on' % L, dd.not_(dr.node if isinstance(dr, Sc) else dd.TRUE if dr else dd.FALSE), dd.TRUE)
        if op == 'set_background': self.val('%s: background' % L, S.st(I).get('background'), (0., 0.5, 1.), None)
        if op.startswith('set_trace_control'):
            c_ = ptuple(I, h.m(self.o, 'trace_control'))
            if isinstance(c_, tuple) and len(c_) == 2:
                self.val('%s: trace_control() iterations' % L, c_[0], self.limits[0], None); self.val('%s: trace_control() energy' % L, c_[1], self.limits[1], None)

OPS = ['set_assembly(A)', 'set_assembly(B)', 'set_assembly(empty)', 'surface added', 'surface removed', 'surfaces all removed', 'surfaces swapped', 'nothing changed', 'show_assembly(styled)', 'show_assembly(update)',
       'clear_scene', 'set_source', 'set_source(same)', 'set_source(None)', 'plot_ray_trace', 'set_trace_control(max_iter)', 'set_trace_control(min_energy)', 'set_trace_control(both)', 'set_background']

def case(h, first, depth):
    lab = Lab(h)
    bad = lambda: sum(o.status == 'viol' for o in h.rep.obs[mark:]) > 40
    mark = len(h.rep.obs)
    def go(r, ops, left):
        for op in ops:
            if bad(): return
            h.I.steps = 0
            k = r.save()
            try: r.do(op)
            except AbsRaise as e:
                h.viol('%s, then %s' % (r.label, op), '%s: %s' % (e.exc, e.msg), h.I.loc)
            else:
                if left > 1: go(r, OPS, left - 1)
            r.restore(k)
    for source, selector in ((True, False), (True, True), (False, False)):
        try: r = Run(lab, 'source' + ('' if source else ' None') + (' filtered' if selector else ''), source, selector)
        except AbsRaise as e:
            h.viol('creation', '%s: %s' % (e.exc, e.msg), h.I.loc); continue
        go(r, [first], depth if source and not selector else depth - 1)

def run(rep):
    depth = 3 if rep.tier == 'quick' else 4
    for op in OPS: rep.case('first %s' % op, case, op, depth)
