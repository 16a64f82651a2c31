"""Energy cut-off: weak rays are recorded but not propagated; traces stop rightly."""
from ..engine_h import *

RULE = ('Over opaque surfaces and generic energies and cut-off: the rays entering each iteration are exactly the generated rays with energy > cut-off; weak rays '
        'are in the tree level; the number of iterations that run is min(reps, first iteration leaving no survivor); the returned arrays are the survivors\' '
        'positions and directions of the last iteration that ran.')

def case(h, layout, reps, simple=True):
    w = World(h, layout, simple)
    eng, r = w.trace(reps)
    per = w.check_register()
    w.check_registered_iff(reps, per)
    w.check_return(reps, r)
    for s in w.surfs: h.eq('iterations run (surface %d)' % s.k, s.st(h.I)['ndone'].node, w.iterations(reps))
    w.check_tree(eng, reps)

def noreps(h):
    w = World(h, (1,), True)
    eng, r = w.trace(0)
    h.same('no iteration: source positions', r[0], w.srcvals['vertices'])
    h.same('no iteration: source directions', r[1], w.srcvals['directions'])

def notree(h, layout, reps):
    w = World(h, layout, True)
    eng, r = w.trace(reps, tree=False)
    w.check_return(reps, r)
    per = w.check_register()
    w.check_registered_iff(reps, per)
    for s in w.surfs: h.eq('iterations run (surface %d)' % s.k, s.st(h.I)['ndone'].node, w.iterations(reps))

def run(rep):
    rep.case('1 surface, 1 iteration', case, (1,), 1)
    rep.case('2 surfaces, 2 iterations', case, (1, 1), 2)
    rep.case('3 surfaces, 2 iterations', case, (2, 1), 2)
    rep.case('2 surfaces, 3 iterations', case, (2,), 3)
    rep.case('1 surface, 3 iterations', case, (1,), 3)
    rep.case('1 surface, 2 iterations, rays owned', case, (1,), 2, False)
    rep.case('2 surfaces, 2 iterations, rays owned', case, (1, 1), 2, False)
    rep.case('2 surfaces of an object, 2 iterations, rays owned', case, (2,), 2, False)
    rep.case('no iterations', noreps)
    rep.case('no tree, 2 iterations', notree, (1, 1), 2)
    rep.case('no tree, 3 iterations', notree, (1,), 3)
