"""The trace tree attributes every recorded ray to the ray that produced it."""
from ..engine_h import *

RULE = ('Index-space typing of the ray tree: after a trace through opaque surfaces, each tree level must be a concatenation, each ray exactly once, of the '
        'index spaces of the bundles generated in that iteration, with the value numbers the surfaces produced; the parent index of each ray must be the '
        'position term of its parent ray in the previous level\'s index space. ray_history is compared with the composition of the parent arrays.')

def case(h, layout, reps, simple=False, extra=False):
    w = World(h, layout, simple, extra=extra)
    eng, r = w.trace(reps)
    w.check_tree(eng, reps)

def notree(h, layout, reps):
    w = World(h, layout, True)
    eng, r = w.trace(reps, tree=False)
    I = h.I
    tree = I.getattr(eng, 'tree')
    for i in range(1, reps + 1):
        # rays generated in the last iteration that ran
        cond = w.runs(i - 1)
        if i < reps: cond = dd.and_(cond, dd.not_(w.survivors_exist(i)))
        if dd.sat(dd.and_(I.pc, cond)) is None: continue
        def chk():
            b = I.getitem(tree, -1)
            vals = {p: I.meth(b, 'get_' + p) for p in ('vertices', 'directions', 'energy')}
            w.rays('last bundle when iteration %d is the last' % (i - 1), vals, [(x, dd.TRUE) for x in w.level(i)], I.pc, props=('vertices', 'directions', 'energy'))
        h.under(cond, chk)

def history(h, levels, given):
    I = h.I
    tree = h.new('tracer.trace_tree', 'RayTree')
    axs = [h.axis('L%d' % i) for i in range(levels)]
    pars = []
    for i, ax in enumerate(axs):
        b, kw = h.bundle(ax, name='L%d' % i)
        h.m(tree, 'append', b); pars.append(kw['parents'])
    h.same('num_bunds', h.m(tree, 'num_bunds'), levels)
    want = h.m(tree, 'ordered_parents')
    h.same('ordered_parents', want, I.new_list(pars[1:]))
    idx = h.sc('ray', lo=0.0, isint=True)
    L = levels - 1 if given is None else given
    got = h.m(tree, 'ray_history', idx) if given is None else h.m(tree, 'ray_history', idx, given)
    cur = idx; seq = [cur]
    for lv in range(L, 0, -1):
        cur = I.getitem(pars[lv], cur); seq.append(cur)
    got = npm.toarr(I, got)
    h.same('length of the history', npm.arr_attr(I, got, 'shape'), (L + 1,))
    h.same('history follows the parents to the source', got, npm.toarr(I, I.new_list(seq)))

def run(rep):
    rep.case('1 surface, 2 iterations', case, (1,), 2)
    rep.case('3 surfaces in 2 objects, 1 iteration', case, (2, 1), 1)
    rep.case('3 surfaces in 2 objects, 2 iterations', case, (2, 1), 2, True)
    rep.case('2 objects, 2 iterations', case, (1, 1), 2)
    rep.case('2 objects, 3 iterations', case, (1, 1), 3, True)
    rep.case('custom properties', case, (1, 1), 2, True, True)
    rep.case('no tree, 1 iteration', notree, (1, 1), 1)
    rep.case('no tree, 2 iterations', notree, (1, 1), 2)
    rep.case('ray_history/last level', history, 3, None)
    rep.case('ray_history/level 2 of 4', history, 4, 2)
    rep.case('ray_history/level 1', history, 3, 1)
    rep.case('ray_history/source', history, 3, 0)
    if rep.tier == 'thorough':
        rep.case('3 surfaces in 2 objects, 3 iterations', case, (2, 1), 3, True)
