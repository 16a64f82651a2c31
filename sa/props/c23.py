"""The ray plot joins each ray to its true parent."""
from ..harness import *
from ..engine_h import Stub

RULE = ('Index-space typing of show_rays on a recorded trace of one to four levels of generic length, with generic parents, energies, directions and filter, against a recording stand-in for the plotting '
        'library: each end of each plotted connection is decoded into the block of plotted points it falls in and the element of that block; the segments must be exactly child-to-true-parent for every '
        'child of a live, shown ray and start-to-escape-point for every live, shown ray that is nobody\'s parent.')

class Lib(Stub):
    """an object of the plotting library: remembers what it is given"""
    name = 'scene'
    def __init__(self, log, path=(), data=None): self.log, self.path, self.data = log, path, data
    def attr(self, I, name): return Lib(self.log, self.path + (name,), self.data)
    def setattr(self, I, name, v):
        if name == 'lines': self.log.append((I.pc, self.data, v, I.loc))
    def call(self, I, a, k):
        d = self.data
        for x in a:
            if isinstance(x, Lib) and x.data is not None: d = x.data
        if self.path[-1:] in (('scalar_scatter',), ('points3d',), ('plot3d',)): d = tuple(a)
        return Lib(self.log, (), d)

def case(h, levels, selector):
    I = h.I
    tree = h.new('tracer.trace_tree', 'RayTree')
    axs, V, D, nd, par = [], [], [], [], []
    shown = {}
    for k in range(levels):
        ax = h.axis('level%d' % k)
        b, v = h.bundle(ax, name='L%d.' % k, tag='level %d' % k)
        h.m(tree, 'append', b); axs.append(ax)
        V.append(I.elems(v['vertices'])); D.append(I.elems(v['directions'])); par.append(v['parents'])
        nd.append(dd.ne(I.elems(v['energy'])[0], dd.c(0)))
        if selector:
            shown[k] = h.arr('shown', ax, dt='b')
            nd[k] = dd.and_(nd[k], I.elems(shown[k])[0])
    log = []
    esc = h.sc('escaping_len')
    def sel(I, a, kw):
        a = npm.toarr(I, I.meth(a[0], 'get_vertices'))
        for k in range(levels):
            if a.dims[1] is axs[k]: return h.mk((axs[k],), I.elems(shown[k]), 'b')
        return h.arr('shown', a.dims[1], dt='b')
    args = [Builtin('ray_selector', sel)] if selector else []
    h.call('tracer.mayavi_ui.scene_view', 'show_rays', Lib(log), tree, esc, *args)
    # what must be drawn
    want = {}
    for k in range(levels):
        m = nd[k]
        if k + 1 < levels:
            g = npm.getitem(I, h.mk((axs[k],), [nd[k]], 'b'), (par[k + 1],))
            want['child', k] = I.elems(npm.toarr(I, g))[0]
            m = dd.and_(m, dd.not_(dd.exists(axs[k + 1].base, dd.eq(axs[k].pos(), I.elems(par[k + 1])[0]))))
        want['escape', k] = m
    got = {k: dd.FALSE for k in want}
    esc_pt = [h.vadd(V[k], h.smul(esc.node, D[k])) for k in range(levels)]
    def what(p):
        """which point of the trace is plotted"""
        for k in range(levels):
            if all(eqn(x, y) for x, y in zip(p, V[k])): return 'vertex', k
            if all(eqn(x, y) for x, y in zip(p, esc_pt[k])): return 'end', k
    if not log: h.und('connections', 'nothing handed to the plotting library that is understood'); return
    for pc, data, lines, loc in log:
        if pc is not dd.TRUE: h.und('connections', 'drawn conditionally'); return
        if data is None or len(data) < 3: h.und('points', 'not understood'); return
        P = [npm.toarr(I, x) for x in data[:3]]
        C = npm.toarr(I, lines)
        if any(len(p.dims) != 1 or not isinstance(p.dims[0], Axis) for p in P): h.und('points', 'shape'); return
        for p in P[1:]:
            if p.dims[0] is not P[0].dims[0]: h.und('points', 'index spaces'); return
        if len(C.dims) != 2 or C.dims[1] != 2 or not isinstance(C.dims[0], Axis): h.und('connections', 'shape %s' % h.shp(C.dims)); return
        pax, cax = P[0].dims[0], C.dims[0]
        pe = [I.elems(p)[0] for p in P]
        ce = I.elems(C)
        blocks, off = [], dd.c(0)
        for j, b, m in flat_idx(pax):
            a = Axis(b, m)
            xyz = [part_val(e, pax.base, j) if j is not None else e for e in pe]
            blocks.append((a, off, xyz)); off = dd.add(off, a.len())
        for i, b, m in flat_idx(cax):
            row = [part_val(e, cax.base, i) if i is not None else e for e in ce]
            lab = 'connections of %s' % b.name
            if not all(x.var == dd.LEAF for x in row): h.und(lab, 'conditional index'); return
            ends = []
            for x in row:
                hit = None
                for a, o, xyz in blocks:
                    w = dd.sub(x, o)
                    if a.base is b and eqn(w, a.pos()):
                        if not dd.implies(dd.and_(m, b.care), a.mask): h.und(lab, 'point not plotted'); return
                        hit = ('own', what(xyz)); break
                    for k in range(1, levels):
                        if b is axs[k].base and a is axs[k - 1] and eqn(w, I.elems(par[k])[0]): hit = ('parent', what(xyz))
                    if hit: break
                if hit is None or hit[1] is None:
                    if dd.asnum(x.val).imp: h.und(lab, 'index not modelled'); return
                    h.viol(lab, 'index %s of a connection is not that of the ray, its end or its parent' % dd.show(x)[:200], loc); return
                ends.append(hit)
            (s, (sk, sl)), (e, (ek, el)) = ends
            if (s, sk, e, ek) == ('parent', 'vertex', 'own', 'vertex') and el == sl + 1: key = 'child', sl
            elif (s, sk, e, ek) == ('own', 'vertex', 'own', 'end') and sl == el: key = 'escape', sl
            elif (e, ek, s, sk) == ('parent', 'vertex', 'own', 'vertex') and sl == el + 1: key = 'child', el
            elif (e, ek, s, sk) == ('own', 'vertex', 'own', 'end') and sl == el: key = 'escape', sl
            else: h.viol(lab, 'joins the %s %s of level %d of a ray with the %s %s of level %d' % (s, sk, sl, e, ek, el), loc); return
            h.ok(lab + ' decoded')
            got[key] = dd.or_(got[key], m)
    for key, w in want.items():
        b = axs[key[1] + (key[0] == 'child')].base
        nm = 'segments %s level %d' % ('to the children of' if key[0] == 'child' else 'of escaping rays of', key[1])
        h.eq(nm, got[key], w, loc=log[0][3])
    h.writes('the recorded trace is not modified')

def eqn(x, y): return x.var == dd.LEAF and y.var == dd.LEAF and dd.asnum(x.val).fp == dd.asnum(y.val).fp and not dd.asnum(x.val).kind

def run(rep):
    for lv in (1, 2, 3, 4):
        for s in (False, True): rep.case('%d levels/%s' % (lv, 'filtered' if s else 'all'), case, lv, s)
