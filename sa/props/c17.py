"""Ray bundle operations keep every property aligned with its ray."""
from ..harness import *

RULE = ('Index-space typing with value numbering: every RayBundle operation is interpreted over a bundle of '
        'generic length whose every property is a distinct function of the ray; each property of the result must be '
        'the same function composed with the documented selection, over the same index space, and all properties of '
        'one bundle must share one index space.')
ASSUME = ['selectors are boolean masks, index arrays without duplicates obtained from them, or arbitrary index arrays within range']
PROPS = ('vertices', 'directions', 'energy', 'parents', 'ref_index')

def mkb(h, name, ax=None, extra=True):
    ax = ax or h.axis(name)
    kw = {}
    if extra:
        kw['wavelen'] = h.arr(name + 'wl', ax, tag=name + ' wavelen')
        kw['spectrum'] = h.arr(name + 'sp', 2, ax, tag=name + ' spectrum')
    b, vals = h.bundle(ax, tag=name, name=name, **kw)
    return ax, b, vals

def whole(h, name):
    """a bundle whose every property is given in whole numbers"""
    ax = h.axis(name)
    arr = lambda p, *dims: h.arr('%s.%s' % (name, p), *dims, tag='%s %s' % (name, p), isint=True, dt='i')
    kw = dict(vertices=arr('vertices', 3, ax), directions=arr('directions', 3, ax), energy=arr('energy', ax), ref_index=arr('ref_index', ax),
              wavelen=arr('wavelen', ax), spectrum=arr('spectrum', 2, ax))
    b, vals = h.bundle(ax, tag=name, name=name, **kw)
    return ax, b, vals

def mixed(h, order):
    """whole numbers next to real ones: neither loses anything"""
    bs = [whole(h, 'ABC'[i]) if k == 'w' else mkb(h, 'ABC'[i]) for i, k in enumerate(order)]
    r = h.call('tracer.ray_bundle', 'concatenate_rays', h.I.new_list([b for _, b, _ in bs]))
    check(h, 'concatenate', r, cat_want(h, [v for _, _, v in bs]))
    if len(bs) == 2:
        r = h.I.binop(__import__('ast').Add(), bs[0][1], bs[1][1])
        check(h, 'A + B', r, cat_want(h, [v for _, _, v in bs]))
    for ax, b, v in bs: check(h, 'operand after', b, v)
    ax, b, vals = bs[order.index('w')]
    m = h.arr('chosen', ax, dt='b')
    for sl in (m, npm.nonzero(h.I, m)[0]):
        want, sub = sel(h, vals, ax, h.I.elems(m)[0])
        kw = {}
        for p in ('vertices', 'energy', 'ref_index', 'spectrum'):
            kw[p] = want[p] = h.mk(want[p].dims, [dd.opaque('new_' + p, e) for e in h.I.elems(want[p])])
        check(h, 'inherit from whole numbers', h.m(b, 'inherit', sl, **kw), want)
    h.writes()

def props(extra=True): return PROPS + (('wavelen', 'spectrum') if extra else ())

def check(h, label, b, want, extra=True, num=None):
    for p in props(extra):
        got = h.m(b, 'get_' + p)
        h.same('%s.%s' % (label, p), got, want[p])
    if num is not None:
        h.same(label + '.get_num_rays', h.m(b, 'get_num_rays'), Sc(num, 'i'))

def sel(h, vals, ax, mask):
    """expected: property restricted to mask"""
    sub = ax.sub(mask)
    return {p: h.mk(tuple(sub if d is ax else d for d in v.dims), h.I.elems(v), h.I.adt(v)) for p, v in vals.items()}, sub

def construct(h):
    ax, b, vals = mkb(h, 'A')
    check(h, 'constructor', b, vals, num=ax.len())
    for p in props():
        h.same('has_property ' + p, h.m(b, 'has_property', p), True)
    h.same('has_property other', h.m(b, 'has_property', 'nonesuch'), False)

def inherit(h, how, given):
    ax, b, vals = mkb(h, 'A')
    m = h.arr('chosen', ax, dt='b')
    mask = h.I.elems(m)[0]
    if how == 'mask': s = m
    elif how == 'index': s = npm.nonzero(h.I, m)[0]
    want, sub = sel(h, vals, ax, mask)
    kw = {}
    names = dict(directions='direction')
    for p in given:
        new = h.mk(want[p].dims, [dd.opaque('new_' + p, e) for e in h.I.elems(want[p])], h.I.adt(want[p]))
        want[p] = new; kw[names.get(p, p)] = new
    r = h.m(b, 'inherit', s, **kw)
    check(h, 'inherit', r, want, num=sub.len())
    check(h, 'original after inherit', b, vals, num=ax.len())
    h.writes()

def inherit_perm(h):
    """an arbitrary index array: ray k of the result is ray idx[k]"""
    ax, b, vals = mkb(h, 'A')
    kx = h.axis('K')
    idx = h.arr('idx', kx, lo=0.0, isint=True, dt='i')
    r = h.m(b, 'inherit', idx)
    want = {p: npm.getitem(h.I, v, (Ellipsis, idx)) for p, v in vals.items()}
    check(h, 'inherit by arbitrary index', r, want, num=kx.len())

def inherit_all(h):
    ax, b, vals = mkb(h, 'A')
    r = h.m(b, 'inherit')
    check(h, 'inherit all', r, vals, num=ax.len())
    e2 = h.arr('e2', ax, lo=0.0)
    r = h.m(b, 'inherit', energy=e2)
    w = dict(vals); w['energy'] = e2
    check(h, 'inherit all, new energy', r, w)

def inherit_partial(h):
    """properties that are not set stay unset; explicit ones are added"""
    ax = h.axis('A')
    b, vals = h.bundle(ax, props=(), name='A')
    m = h.arr('chosen', ax, dt='b')
    r = h.m(b, 'inherit', m)
    w, sub = sel(h, vals, ax, h.I.elems(m)[0])
    for p in ('vertices', 'directions'): h.same('inherit.' + p, h.m(r, 'get_' + p), w[p])
    e = h.arr('e', sub)
    r = h.m(b, 'inherit', m, energy=e, custom=e)
    h.same('inherit.energy', h.m(r, 'get_energy'), e)
    h.same('inherit.custom', h.m(r, 'get_custom'), e)

def cat_want(h, vs, extra=True):
    out = {}
    for p in props(extra):
        out[p] = npm.hstack(h.I, [tuple(v[p] for v in vs)], {})
    return out

def add(h):
    a, A, va = mkb(h, 'A'); b, B, vb = mkb(h, 'B')
    r = h.I.binop(__import__('ast').Add(), A, B)
    check(h, 'A + B', r, cat_want(h, (va, vb)), num=dd.add(a.len(), b.len()))
    r2 = h.I.binop(__import__('ast').Add(), r, A)
    check(h, '(A + B) + A', r2, cat_want(h, (va, vb, va)))
    m = h.arr('chosen', a, dt='b')
    c = h.m(A, 'inherit', m)
    w, sub = sel(h, va, a, h.I.elems(m)[0])
    check(h, 'B + A[mask]', h.I.binop(__import__('ast').Add(), B, c), cat_want(h, (vb, w)))
    check(h, 'A after', A, va); check(h, 'B after', B, vb)
    h.writes()

def concat(h, k):
    bs = [mkb(h, 'ABCD'[i]) for i in range(k)]
    r = h.call('tracer.ray_bundle', 'concatenate_rays', h.I.new_list([b for _, b, _ in bs]))
    num = dd.c(0)
    for ax, _, _ in bs: num = dd.add(num, ax.len())
    check(h, 'concatenate', r, cat_want(h, [v for _, _, v in bs]), num=num)
    for ax, b, v in bs: check(h, 'operand after', b, v)
    h.writes()

def concat_subs(h):
    a, A, va = mkb(h, 'A'); b, B, vb = mkb(h, 'B')
    m = h.arr('chosen', a, dt='b')
    w, sub = sel(h, va, a, h.I.elems(m)[0])
    x = h.m(A, 'inherit', m)
    r = h.call('tracer.ray_bundle', 'concatenate_rays', h.I.new_list([x, B]))
    check(h, 'concatenate', r, cat_want(h, (w, vb)))
    m2 = h.arr('kill', sub, dt='b')
    y = h.m(x, 'delete_rays', npm.nonzero(h.I, m2)[0])
    w2 = {p: h.mk(tuple(sub.sub(dd.not_(h.I.elems(m2)[0])) if d is sub else d for d in v.dims), h.I.elems(v)) for p, v in w.items()}
    check(h, 'delete after inherit', y, w2)
    r = h.call('tracer.ray_bundle', 'concatenate_rays', h.I.new_list([B, y]))
    check(h, 'concatenate 2', r, cat_want(h, (vb, w2)))

def empty(h):
    e = h.call('tracer.ray_bundle', 'concatenate_rays', h.I.new_list([]))
    h.same('empty count', h.m(e, 'get_num_rays'), 0)
    for p in ('vertices', 'directions'):
        h.same('empty ' + p, npm.arr_attr(h.I, npm.toarr(h.I, h.m(e, 'get_' + p)), 'shape'), (3, 0))
    for p in ('energy', 'parents', 'ref_index'):
        h.same('empty ' + p, npm.arr_attr(h.I, npm.toarr(h.I, h.m(e, 'get_' + p)), 'shape'), (0,))
    E = h.I.getattr(h.cls('tracer.ray_bundle', 'RayBundle'), 'empty_bund')
    e = h.I.call(E, [], {})
    h.same('empty_bund count', h.m(e, 'get_num_rays'), 0)

def delete(h):
    a, A, va = mkb(h, 'A')
    m = h.arr('kill', a, dt='b')
    r = h.m(A, 'delete_rays', npm.nonzero(h.I, m)[0])
    w, sub = sel(h, va, a, dd.not_(h.I.elems(m)[0]))
    check(h, 'delete_rays', r, w, num=sub.len())
    check(h, 'original', A, va)
    h.writes()

def getset(h, how):
    a, A, va = mkb(h, 'A')
    m = h.arr('chosen', a, dt='b')
    mask = h.I.elems(m)[0]
    s = m if how == 'mask' else npm.nonzero(h.I, m)[0]
    w, sub = sel(h, va, a, mask)
    for p in props(): h.same('get_%s(selector)' % p, h.m(A, 'get_' + p, s), w[p])
    for p in props():
        new = h.mk(w[p].dims, [dd.opaque('new_' + p, e, isint=p == 'parents') for e in h.I.elems(w[p])], h.I.adt(w[p]))
        old = [e for e in h.I.elems(va[p])]
        want = h.mk(va[p].dims, [dd.ite(mask, x, y) for x, y in zip(h.I.elems(new), old)])
        others = {q: h.mk(va[q].dims, h.I.elems(va[q])) for q in props() if q != p}
        h.m(A, 'set_' + p, new, s)
        h.same('set_%s(selector)' % p, h.m(A, 'get_' + p), want)
        for q in others: h.same('%s after set_%s' % (q, p), h.m(A, 'get_' + q), others[q])
    for p in props():
        new = h.mk(va[p].dims, [dd.opaque('whole_' + p, e, isint=p == 'parents') for e in h.I.elems(va[p])], h.I.adt(va[p]))
        h.m(A, 'set_' + p, new)
        h.same('set_%s()' % p, h.m(A, 'get_' + p), new)
    h.same('count', h.m(A, 'get_num_rays'), Sc(a.len(), 'i'))

def two_bundles(h):
    """accessors of one bundle never reach another bundle"""
    a, A, va = mkb(h, 'A'); b, B, vb = mkb(h, 'B')
    check(h, 'A', A, va); check(h, 'B', B, vb)

def run(rep):
    rep.case('construct', construct)
    rep.case('two bundles', two_bundles)
    for how in ('mask', 'index'):
        rep.case('inherit/%s' % how, inherit, how, ())
        rep.case('inherit/%s/replace-all' % how, inherit, how, props())
        for p in props():
            rep.case('inherit/%s/replace-%s' % (how, p), inherit, how, (p,))
        rep.case('getset/' + how, getset, how)
    rep.case('inherit/perm', inherit_perm)
    rep.case('inherit/all', inherit_all)
    rep.case('inherit/partial', inherit_partial)
    rep.case('add', add)
    for k in (1, 2, 3): rep.case('concat/%d' % k, concat, k)
    for k in ('wr', 'rw', 'ww', 'wrw'): rep.case('whole and real numbers/%s' % k, mixed, k)
    rep.case('concat/subsets', concat_subs)
    rep.case('empty', empty)
    rep.case('delete', delete)
