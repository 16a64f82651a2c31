"""Reflection, refraction and Fresnel laws hold for every incidence."""
from ..harness import *

RULE = ('Value numbering of the optics functions over a generic unit direction and unit normal per ray and generic positive refractive indices: reflected directions '
        'must have the value number of d - 2(d.n)n; the refracted mask must be the diagram of (d.n)^2 >= 1 - (n2/n1)^2; refracted directions that of Snell\'s law in '
        'vector form on the far side; reflectance that of the mean of Fresnel\'s two equations; dispersion that of the documented Hartmann formula.')

O = 'tracer.optics'

def inputs(h, one_normal=False, whole=False):
    ax = h.axis('ray')
    if whole:          # directions, and with 'all' also normals, given in whole numbers
        d = [dd.c(0), dd.c(-1), dd.c(0)]
        nr = [dd.c(0), dd.c(1), dd.c(0)] if whole == 'all' else h.unit('nrm', ax)
        return ax, d, nr, h.mk((3, ax), d, 'i', 'directions'), h.mk((3, ax), nr, 'i' if whole == 'all' else 'f', 'normals')
    d = h.unit('dir', ax)
    nr = h.unit('nrm') if one_normal else h.unit('nrm', ax)
    D = h.mk((3, ax), d, tag='directions')
    Nn = h.mk((3, 1) if one_normal else (3, ax), nr, tag='normals')
    return ax, d, nr, D, Nn

def reflect(h, whole=False):
    ax, d, nr, D, Nn = inputs(h, whole=whole)
    got = h.call(O, 'reflections', D, Nn)
    c2 = dd.mul(dd.c(2), h.dot(d, nr))
    h.same('law of reflection', got, h.mk((3, ax), h.vsub(d, h.smul(c2, nr))))
    h.writes()

def indices(h, ax, how, whole=False):
    if whole:
        a, b = h.arr('n1', ax, lo=0.5, tag='n1', isint=True, dt='i'), h.arr('n2', ax, lo=0.5, tag='n2', isint=True, dt='i')
        return a, b, h.I.elems(a)[0], h.I.elems(b)[0]
    if how == 'scalars':
        a, b = h.sc('n1', lo=0.5), h.sc('n2', lo=0.5)
        return a, b, a.node, b.node
    a, b = h.arr('n1', ax, lo=0.5, tag='n1'), h.arr('n2', ax, lo=0.5, tag='n2')
    return a, b, h.I.elems(a)[0], h.I.elems(b)[0]

def snell(h, d, nr, x1, x2):
    m = dd.div(x2, x1)
    c = h.dot(d, nr)
    lhs, rhs = dd.mul(c, c), dd.sub(dd.c(1), dd.mul(m, m))
    mask = dd.ge(lhs, rhs)
    cos2 = dd.sqrt(dd.sub(dd.c(1), dd.div(dd.sub(dd.c(1), dd.mul(c, c)), dd.mul(m, m))))
    tang = [dd.div(x, m) for x in h.vsub(d, h.smul(c, nr))]
    sg = dd.ite(dd.lt(c, dd.c(0)), dd.neg(cos2), cos2)
    return mask, h.vadd(tang, h.smul(sg, nr))

def refract(h, how, one_normal=False, whole=False):
    ax, d, nr, D, Nn = inputs(h, one_normal, whole)
    a, b, x1, x2 = indices(h, ax, how, whole)
    got = h.call(O, 'refractions', a, b, D, Nn)
    mask, dirs = snell(h, d, nr, x1, x2)
    items = h.items(got)
    h.same('not totally reflected', items[0][1], h.mk((ax,), [mask], 'b'))
    sub = ax.sub(mask)
    # the refracted directions are indexed by the refracted rays
    G = npm.toarr(h.I, items[1][1])
    h.same('refracted directions', G, h.mk((3, sub), dirs), boundary=False)
    h.writes()

def fresnel(h, how, whole=False):
    ax, d, nr, D, Nn = inputs(h, whole=whole)
    a, b, x1, x2 = indices(h, ax, how, whole)
    mask, _ = snell(h, d, nr, x1, x2)
    c = dd.abs_(h.dot(d, nr))
    m = dd.div(x1, x2)
    bar = dd.sqrt(dd.sub(dd.c(1), dd.mul(dd.mul(m, m), dd.sub(dd.c(1), dd.mul(c, c)))))
    def r(p, q):
        x = dd.div(dd.sub(p, q), dd.add(p, q))
        return dd.mul(x, x)
    rs = r(dd.mul(x1, c), dd.mul(x2, bar))
    rp = r(dd.mul(x1, bar), dd.mul(x2, c))
    want = dd.mul(dd.c(Fraction(1, 2)), dd.add(rs, rp))
    got = h.call(O, 'fresnel', D, Nn, a, b)
    # strictly below the critical angle
    strict = dd.gt(dd.mul(c, c), dd.sub(dd.c(1), dd.div(dd.mul(x2, x2), dd.mul(x1, x1))))
    h.same('reflectance', got, h.mk((ax,), [want]), strict, boundary=False)
    h.writes()

def hartmann(h, array):
    ks = [h.sc(k) for k in 'abcde']
    ax = h.axis('wl')
    w = h.arr('wavelength', ax, lo=0.0) if array else h.sc('wavelength', lo=0.0)
    x = h.I.elems(w)[0] if array else w.node
    a, b, c, d, e = [k.node for k in ks]
    want = dd.add(a, dd.add(dd.div(b, dd.sub(c, x)), dd.div(d, dd.sub(e, x))))
    care = dd.and_(dd.not_(dd.eq(c, x)), dd.not_(dd.eq(e, x)))
    h.allow += [dd.eq(c, x), dd.eq(e, x)]
    got = h.call(O, 'refr_idx_hartmann', w, *ks)
    h.same('Hartmann formula', got, h.mk((ax,), [want]) if array else Sc(want, 'f'), care, boundary=False)

def run(rep):
    rep.case('reflections', reflect)
    rep.case('refractions/index per ray', refract, 'arrays')
    rep.case('refractions/one pair of indices', refract, 'scalars')
    rep.case('refractions/one normal', refract, 'scalars', True)
    rep.case('fresnel/index per ray', fresnel, 'arrays')
    rep.case('fresnel/one pair of indices', fresnel, 'scalars')
    for whole in ('directions', 'all'):
        name = 'whole numbers/%s/' % whole
        rep.case(name + 'reflections', reflect, whole)
        rep.case(name + 'refractions', refract, 'arrays', False, whole)
        rep.case(name + 'fresnel', fresnel, 'arrays', whole)
    rep.case('dispersion/wavelength array', hartmann, True)
    rep.case('dispersion/one wavelength', hartmann, False)
