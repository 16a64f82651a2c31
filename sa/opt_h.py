"""Environment and specification shared by the checks of the optics managers."""
from .harness import *
from .engine_h import Stub

O = 'tracer.optics_callables'

class Geom(Stub):
    """a geometry manager that gives an opaque point and unit normal for each selected ray"""
    kind = name = 'geometry'
    def __init__(self, w): self.w = w
    def m_find_intersections(self, I, frame, bundle):
        self.w.calls.append('find_intersections')
        return I.new_arr((self.w.ax,), [self.w.prm])
    def m_select_rays(self, I, idxs): self.w.calls.append('select_rays'); self.w.selected = idxs
    def m_get_intersection_points_global(self, I): return self.w.P
    def m_get_normals(self, I): return self.w.Nn
    def m_up(self, I): return self.w.Up
    def m_done(self, I): self.w.calls.append('done')

class OptWorld(object):
    def __init__(self, h, ref_index=None, tag='incoming', name='', none=False, whole=False):
        self.h, self.I = h, h.I
        I = h.I
        self.calls = []
        self.ax = ax = h.axis(name + 'ray')
        self.prm = h.node(name + 't@' + ax.base.name, ax)
        kw = dict(wavelen=h.arr(name + 'wl', ax, tag=tag + ' wavelen'), spectrum=h.arr(name + 'sp', 2, ax, tag=tag + ' spectrum'))
        if ref_index is not None: kw['ref_index'] = h.mk((ax,), [ref_index(ax)], 'i' if whole else 'f', tag=tag + ' ref_index')
        if whole:           # rays given in whole numbers
            kw['energy'] = h.arr(name + 'energy', ax, tag=tag + ' energy', lo=0.0, isint=True, dt='i')
            kw['vertices'] = h.mk((3, ax), [h.node('%spos%s@%s' % (name, c_, ax.base.name), ax, isint=True) for c_ in 'xyz'], 'i', tag + ' vertices')
            kw['directions'] = h.mk((3, ax), [dd.c(0), dd.c(0), dd.c(-1)], 'i', tag + ' directions')
            kw['wavelen'] = h.arr(name + 'wl', ax, tag=tag + ' wavelen', isint=True, dt='i')
        self.bund, self.vals = h.bundle(ax, tag=tag, name=name, **kw)
        self.d = I.elems(self.vals['directions'])
        self.n = h.unit(name + 'nrm', ax)
        self.u = h.unit(name + 'up')
        self.chosen = dd.FALSE if none else dd.batom(name + 'hit@' + ax.base.name, deps=frozenset([ax.base.id]))
        m = I.new_arr((ax,), [self.chosen], 'b')
        self.sub = ax.sub(self.chosen)
        self.idx = I.new_arr((self.sub,), [ax.pos()], 'i', tag + ' selector')
        self.p = [h.node('%shit%s@%s' % (name, c_, ax.base.name), ax) for c_ in 'xyz']
        self.P = I.new_arr((3, self.sub), self.p, 'f', 'hit points held by the geometry manager')
        self.Nn = I.new_arr((3, self.sub), self.n, 'f', 'normals held by the geometry manager')
        self.Up = I.new_arr((3,), self.u, 'f', 'the surface\'s frame')
        self.care = dd.lt(h.dot(self.d, self.n), dd.c(0))       # normals face the ray (C11)
        self.geom = Geom(self)
    # the specified values, one node list per property
    def base(self): return {p: self.I.elems(v) for p, v in self.vals.items()}
    def reflected(self, frac):
        h = self.h
        v = self.base()
        v['vertices'] = self.p
        v['parents'] = [self.ax.pos()]
        v['directions'] = h.vsub(self.d, h.smul(dd.mul(dd.c(2), h.dot(self.d, self.n)), self.n))
        v['energy'] = [dd.mul(v['energy'][0], frac)]
        return v

PROPS = ('vertices', 'directions', 'energy', 'parents', 'ref_index', 'wavelen', 'spectrum')

def check_rays(h, name, bund, exp, care, props=PROPS, boundary=False, extra=None):
    """the bundle holds exactly the rays exp = [(label, base, mask, {prop: nodes})], each once, in any order of parts.
    extra(part nodes {prop: nodes}, condition, elem): further obligations"""
    I = h.I
    for c0, b in h.alts(bund):
        if dd.sat(c0) is None: continue
        h.under(c0, lambda: one_bundle(h, name, b, exp, care, props, boundary, extra))

def one_bundle(h, name, b, exp, care, props, boundary, extra):
    I = h.I
    got = {}
    lead = I.resolve(I.meth(b, 'get_' + props[0]))
    if isinstance(lead, Arr) and isinstance(lead.dims[-1], int) and lead.dims[-1] == 0:
        return no_rays(h, name, exp)
    for p in props:
        try: v = I.resolve(I.meth(b, 'get_' + p))
        except AbsRaise as e:
            h.viol(name, 'property %s of the outgoing rays is not set' % p); return
        got[p] = v
    lead = got[props[0]]
    # alternatives of the leading property; the others are resolved under the same condition
    for c, a in h.alts(lead):
        if c is dd.FALSE or dd.sat(c) is None: continue
        def go():
            vs = {}
            for p in props:
                v = got[p]
                while isinstance(v, Choice):
                    q = I.simplify(v.c)
                    if q is dd.TRUE: v = v.a
                    elif q is dd.FALSE: v = v.b
                    else:
                        try: v = npm.toarr(I, v)
                        except Undecided: break
                if isinstance(v, (Choice, Top)): h.und(name, 'value of %s' % p); return
                vs[p] = npm.toarr(I, v)
            one_alt(h, name, vs, exp, care, props, boundary, extra)
        h.under(c, go)

def no_rays(h, name, exp):
    for label, base, mask, vals in exp:
        h.eq('%s: no %s' % (name, label), dd.and_(h.I.pc, Axis(base, mask).nonempty()), dd.FALSE, care=dd.TRUE)

def one_alt(h, name, vs, exp, care, props, boundary, extra):
    I = h.I
    pc = I.pc
    ax = vs[props[0]].dims[-1]
    if isinstance(ax, int):
        if ax == 0: return no_rays(h, name, exp)
        h.und(name, 'literal ray count'); return
    for p in props[1:]:
        x = vs[p].dims[-1]
        if isinstance(x, int): h.und(name, 'literal count'); return
        if x is ax: continue
        e = axis_equiv(x, ax, pc, True)
        if e is None: h.und(name, 'index space of %s' % p); return
        if e is False: h.viol(name, '%s is not aligned with %s: %s vs %s' % (p, props[0], x.name, ax.name), h.vloc(vs[p])); return
    seen = [dd.FALSE] * len(exp)
    for j, b, m in flat_idx(ax):
        cc = pc if j is None else part_val(pc, ax.base, j)
        cm = dd.and_(cc, dd.and_(m, b.care))
        if dd.sat(cm, elem=b.witness) is None: continue
        part = {}
        for p in props:
            x = vs[p].dims[-1]
            el = I.elems(vs[p])
            if x is not ax: el = [reindex(v, x, ax) for v in el]
            part[p] = el if j is None else [part_val(v, ax.base, j) for v in el]
        match, why = None, None
        for i, (label, base, mask, vals) in enumerate(exp):
            if base is not b: continue
            bad = None
            for p in props:
                if vals.get(p) is None: continue
                for q, (x, y) in enumerate(zip(part[p], vals[p])):
                    d = dd.differ(x, y, dd.and_(cm, care), boundary, elem=b.witness, report=True)
                    if d is not None:
                        bad = (p, q, d); break
                if bad: break
            if bad is None: match = i; break
            # prefer the mismatch latest in the property order / not yet covered
            if why is None or seen[why[0]] is not dd.FALSE: why = (i, bad)
        if match is None:
            if why is None: h.viol(name, 'contains rays that come from %s, none of the hitting rays' % b.name, h.vloc(vs[props[0]])); return
            i, (p, q, d) = why
            nm = '%s: %s %s[%d]' % (name, exp[i][0], p, q)
            if d.imp: h.und(nm, 'not modelled: ' + d.text()[:200])
            else: h.viol(nm, d.text(), h.vloc(vs[p]))
            return
        label = exp[match][0]
        h.ok('%s: %s have their specified properties' % (name, label))
        h.eq('%s: %s once each' % (name, label), dd.and_(seen[match], m), dd.FALSE, care=dd.and_(cc, dd.and_(b.care, care)), boundary=boundary)
        seen[match] = dd.or_(seen[match], m)
        if extra: extra(label, part, dd.and_(cm, care), b)
    for (label, base, mask, vals), s in zip(exp, seen):
        d = dd.differ(s, mask, dd.and_(pc, dd.and_(base.care, care)), boundary, elem=base.witness, report=True)
        nm = '%s: %s complete' % (name, label)
        if d is None: h.ok(nm)
        elif d.imp: h.und(nm, d.text()[:200])
        else: h.viol(nm, 'which rays give %s: %s' % (label, d.text()), h.vloc(vs[props[0]]))
