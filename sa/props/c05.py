"""Trace protocol: register, select, generate, release - in order, every iteration."""
from ..engine_h import *

RULE = ('Typestate of each surface carried through the abstract store and joined at every merge of the engine\'s control flow: register -> select -> outgoing -> '
        'release; obligations at each call site plus, at the end, number of releases = number of iterations for every surface, none left unreleased; each '
        'surface is asked for outgoing rays iff some ray hit it, and given only the rays to be tested against it.')

def case(h, layout, reps, simple=False, tree=True):
    w = World(h, layout, simple)
    w.trace(reps, tree=tree)
    w.check_protocol(reps)
    per = w.check_register()
    w.check_registered_iff(reps, per)
    asked = {}
    for e in w.events:
        if e.kind == 'outgoing' and w.live(e) and e.idx is not None and isinstance(e.idx.dims[0], Axis):
            lv = w.evlevel(e.idx.dims[0])
            asked[(e.k, lv)] = dd.or_(asked.get((e.k, lv), dd.FALSE), e.pc)
    w.check_selected_iff(reps, asked)

def run(rep):
    rep.case('1 surface, 1 iteration', case, (1,), 1)
    rep.case('3 surfaces in 2 objects, 1 iteration', case, (2, 1), 1)
    rep.case('3 surfaces in 2 objects, 2 iterations', case, (2, 1), 2)
    rep.case('2 surfaces, 3 iterations', case, (1, 1), 3, True)
    rep.case('2 surfaces, 2 iterations, no tree', case, (1, 1), 2, True, False)
    if rep.tier == 'thorough':
        rep.case('3 surfaces in 2 objects, 3 iterations', case, (2, 1), 3)
