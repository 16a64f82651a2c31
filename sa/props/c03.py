"""Ray ownership and surface relevancy follow the ray they were decided for."""
from ..engine_h import *

RULE = ('Index-space typing at the register_incoming, own_rays and surfaces_for_next_iteration call sites of the engine: in every iteration the bundle given '
        'to a surface must consist of exactly the propagating rays that (a) are unowned or owned by the surface\'s object and (b) whose generating object did '
        'not deem that surface irrelevant, with those rays\' own data; objects are asked about exactly the surviving rays of each of their surfaces, with the '
        'surface\'s position in the object.')

def case(h, layout, reps):
    w = World(h, layout)
    w.trace(reps)
    per = w.check_register()
    w.check_registered_iff(reps, per)
    p2 = w.check_objects()
    for i in range(1, reps):
        for b in w.level(i):
            for kind in ('own_rays', 'surfaces_for_next'):
                want = dd.and_(w.runs(i - 1), Axis(b, w.survives(b)).nonempty())
                h.holds('%s asked about %s' % (kind, b.name), dd.or_(p2.get((kind, b.id), dd.FALSE), dd.not_(want)), care=dd.TRUE)

def run(rep):
    rep.case('3 surfaces in 2 objects, 1 iteration', case, (2, 1), 1)
    rep.case('3 surfaces in 2 objects, 2 iterations', case, (2, 1), 2)
    rep.case('2 objects of 1 and 2 surfaces, 2 iterations', case, (1, 2), 2)
    rep.case('2 objects of 1 surface, 3 iterations', case, (1, 1), 3)
    rep.case('1 object of 3 surfaces, 2 iterations', case, (3,), 2)
    rep.case('3 objects, 2 iterations', case, (1, 1, 1), 2)
    if rep.tier == 'thorough':
        rep.case('4 surfaces in 3 objects, 2 iterations', case, (1, 2, 1), 2)
        rep.case('3 surfaces in 2 objects, 3 iterations', case, (2, 1), 3)
