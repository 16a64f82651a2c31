"""Optics conserve energy and give each outgoing ray its rightful properties."""
from ..opt_h import *
from ..rand_h import Draws
from .c13 import snell

RULE = ('Value numbering over gated SSA of every optics manager, called on a generic bundle (with custom properties) and an opaque geometry manager giving a generic '
        'hit point and unit normal for an arbitrary selection of rays: the outgoing bundle must consist of exactly the specified rays, each property of each having '
        'the value number of its specification (start at the hit point, parent = position of the hitting ray, energy share, medium, custom properties inherited).')

def fres(h, w, x1, x2):
    c = dd.abs_(h.dot(w.d, w.n))
    m = dd.div(x1, x2)
    bar = dd.sqrt(dd.sub(dd.c(1), dd.mul(dd.mul(m, m), dd.sub(dd.c(1), dd.mul(c, c)))))
    def r(p, q):
        x = dd.div(dd.sub(p, q), dd.add(p, q))
        return dd.mul(x, x)
    return dd.mul(dd.c(Fraction(1, 2)), dd.add(r(dd.mul(x1, c), dd.mul(x2, bar)), r(dd.mul(x1, bar), dd.mul(x2, c))))

def ab(h): return h.sc('absorptivity', lo=0.0, hi=1.0)

def apply(h, w, opt, via):
    """the outgoing rays, either from the callable or through a Surface"""
    if via == 'callable': return h.I.call(opt, [w.geom, w.bund, w.idx], {})
    s = h.new('tracer.surface', 'Surface', w.geom, opt)
    h.same('parametric positions are the geometry manager\'s', h.m(s, 'register_incoming', w.bund), h.mk((w.ax,), [w.prm]))
    h.m(s, 'select_rays', w.idx)
    h.same('geometry manager told the selection', w.selected, w.idx)
    r = h.m(s, 'get_outgoing')
    h.m(s, 'done')
    h.holds('geometry manager released', dd.TRUE if 'done' in w.calls else dd.FALSE)
    return r

def specular(h, via, none=False, whole=False):
    w = OptWorld(h, none=none, whole=whole)
    a = ab(h)
    out = apply(h, w, h.new(O, 'Reflective', a), via)
    exp = [('reflected rays', w.ax.base, w.chosen, w.reflected(dd.sub(dd.c(1), a.node)))]
    check_rays(h, 'Reflective', out, exp, w.care)
    h.writes('incoming rays, selector and geometry data not modified')

def mirror(h, via, whole=False):
    w = OptWorld(h, whole=whole)
    out = apply(h, w, h.I.anchor(O, 'perfect_mirror'), via)
    check_rays(h, 'perfect_mirror', out, [('reflected rays', w.ax.base, w.chosen, w.reflected(dd.c(1)))], w.care)
    h.writes('incoming rays, selector and geometry data not modified')

def one_sided(h, via, none=False, whole=False):
    w = OptWorld(h, none=none, whole=whole)
    a = ab(h)
    out = apply(h, w, h.new(O, 'AbsorberReflector', a), via)
    back = dd.gt(h.dot(w.d, w.u), dd.c(0))
    v = w.reflected(dd.ite(back, dd.c(0), dd.sub(dd.c(1), a.node)))
    check_rays(h, 'AbsorberReflector', out, [('reflected rays', w.ax.base, w.chosen, v)], w.care)
    h.writes('incoming rays, selector and geometry data not modified')

def diffuse(h, via, none=False, whole=False):
    w = OptWorld(h, none=none, whole=whole)
    I = h.I
    a = ab(h)
    out = apply(h, w, h.new(O, 'LambertianReflector', a), via)
    v = w.reflected(dd.sub(dd.c(1), a.node))
    v['directions'] = None
    def extra(label, part, care, b):
        d = part['directions']
        h.eq('Lambertian: directions are unit vectors', h.dot(d, d), dd.c(1), care=care, boundary=False)
        h.holds('Lambertian: directions leave on the normal\'s side', dd.ge(h.dot(d, w.n), dd.c(0)), care=care, boundary=False)
        D = Draws(h, frozenset([w.ax.base.id]))
        D.free()
        cs = h.dot(d, w.n)
        name = 'Lambertian: the squared sine of the angle to the normal is drawn evenly'
        g = D.generic(dd.sub(dd.c(1), dd.mul(cs, cs)), care)
        for x in g:
            k = D.uniform(x)
            if k is not None: D.claim(name, k)
            elif len(g) == 1: D.decide(name, x)
            else: h.und(name, 'differs from case to case')
    check_rays(h, 'LambertianReflector', out, [('reflected rays', w.ax.base, w.chosen, v)], w.care, extra=extra)
    h.writes('incoming rays, selector and geometry data not modified')

def refractive(h, via, none=False, whole=False):
    n1, n2 = h.sc('n1', lo=0.5, isint=bool(whole)), h.sc('n2', lo=0.5, isint=whole is True)
    if whole == 'outside': inside = lambda ax: dd.TRUE
    else: inside = lambda ax: dd.batom('inside@ray', deps=frozenset([ax.base.id]))
    w = OptWorld(h, ref_index=lambda ax: dd.ite(inside(ax), n1.node, n2.node), none=none, whole=whole)
    ins = inside(w.ax)
    x1, x2 = dd.ite(ins, n1.node, n2.node), dd.ite(ins, n2.node, n1.node)
    opt = h.new(O, 'RefractiveHomogenous', n1, n2)
    out = apply(h, w, opt, via)
    mask, dirs = snell(h, w.d, w.n, x1, x2)
    R = dd.ite(mask, fres(h, w, x1, x2), dd.c(1))
    refl = w.reflected(R)
    refr = w.reflected(dd.sub(dd.c(1), R))
    refr['directions'] = dirs
    refr['ref_index'] = [x2]
    exp = [('reflected rays', w.ax.base, w.chosen, refl), ('refracted rays', w.ax.base, dd.and_(w.chosen, mask), refr)]
    care = dd.and_(w.care, dd.not_(dd.eq(n1.node, n2.node)))
    check_rays(h, 'RefractiveHomogenous', out, exp, care)
    h.writes('incoming rays, selector and geometry data not modified')

def toggle(h, outside):
    n1, n2 = h.sc('n1', lo=0.5, isint=outside), h.sc('n2', lo=0.5)
    opt = h.new(O, 'RefractiveHomogenous', n1, n2)
    ax = h.axis('ray')
    ins = dd.TRUE if outside else dd.batom('inside@ray', deps=frozenset([ax.base.id]))
    cur = h.mk((ax,), [dd.ite(ins, n1.node, n2.node)], 'i' if outside else 'f', tag='current')
    got = h.m(opt, 'toggle_ref_idx', cur)
    h.same('toggled index', got, h.mk((ax,), [dd.ite(ins, n2.node, n1.node)]))
    h.writes()

def run(rep):
    for via in ('callable', 'surface'):
        rep.case('Reflective/' + via, specular, via)
        rep.case('Reflective/nothing selected/' + via, specular, via, True)
        rep.case('perfect_mirror/' + via, mirror, via)
        rep.case('AbsorberReflector/' + via, one_sided, via)
        rep.case('AbsorberReflector/nothing selected/' + via, one_sided, via, True)
        rep.case('LambertianReflector/' + via, diffuse, via)
        rep.case('RefractiveHomogenous/' + via, refractive, via)
        rep.case('RefractiveHomogenous/nothing selected/' + via, refractive, via, True)
    for name, fn in (('Reflective', specular), ('AbsorberReflector', one_sided), ('LambertianReflector', diffuse), ('RefractiveHomogenous', refractive)):
        rep.case(name + '/rays given in whole numbers', fn, 'callable', False, True)
    rep.case('perfect_mirror/rays given in whole numbers', mirror, 'callable', True)
    rep.case('RefractiveHomogenous/rays in a medium whose index is a whole number', refractive, 'callable', False, 'outside')
    rep.case('toggle', toggle, False)
    rep.case('toggle/rays in a medium whose index is a whole number', toggle, True)
