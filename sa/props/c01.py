"""Each ray interacts with exactly the nearest surface ahead of it."""
from ..engine_h import *

RULE = ('The engine (TracerEngine.ray_tracer and all it calls) is interpreted over opaque surfaces and objects and a source bundle of generic length. '
        'At every select_rays call site the selected index space must equal {rays tested by that surface, met beyond the tolerance, with no smaller '
        'parameter beyond the tolerance at another tested surface}, decided ray by ray on value numbers; the indices passed must be those rays\' positions '
        'in the bundle registered with that surface; and a surface is asked to act iff that set is not empty.')
ASSUME = ['surfaces report non-negative parameters, +inf for a miss']

def case(h, layout, reps, simple=False):
    w = World(h, layout, simple)
    w.trace(reps)
    per = w.check_select()
    w.check_selected_iff(reps, per)

def run(rep):
    rep.case('1 surface, 1 iteration', case, (1,), 1)
    rep.case('3 surfaces in 2 objects, 1 iteration', case, (2, 1), 1)
    rep.case('3 surfaces in 2 objects, 2 iterations', case, (2, 1), 2)
    rep.case('2 objects of 1 and 2 surfaces, 2 iterations', case, (1, 2), 2)
    rep.case('2 surfaces, 3 iterations', case, (1, 1), 3)
    rep.case('4 surfaces in 2 objects, 1 iteration', case, (2, 2), 1)
    if rep.tier == 'thorough':
        rep.case('4 surfaces in 3 objects, 2 iterations', case, (1, 2, 1), 2)
        rep.case('3 surfaces in 2 objects, 3 iterations', case, (2, 1), 3)
