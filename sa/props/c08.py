"""Location, rotation and transform of anything placeable always agree."""
import itertools
from ..frame_h import *

RULE = ('Value numbering of get_location/get_rotation/get_transform after every sequence of up to three placements (location, rotation, full transform; generic values) of '
        'every placeable class: each must hold the last value set for its part, the last row of the transform must be 0 0 0 1. Exhaustive shape typing of the rejected arrays. Alias and '
        'effect analysis: two things placed with the same array, then one moved; the other keeps its frame and the array keeps its contents; an array changed by the caller after placing one thing and used for another does not move the first.')

CLASSES = ('HasFrame', 'Surface', 'Assembly', 'AssembledObject', 'BoundarySphere', 'BoundaryCylinder', 'BoundaryPlane')

def accessors(h, o, R, t, label):
    want = frame_of(h, R, t)
    h.same(label + ': get_transform', h.m(o, 'get_transform'), want)
    h.same(label + ': get_location', h.m(o, 'get_location'), h.mk((3,), t))
    h.same(label + ': get_rotation', h.m(o, 'get_rotation'), h.mk((3, 3), R[0] + R[1] + R[2]))

def seq(h, cls, ops, given):
    o, R, t = thing(h, cls, given)
    accessors(h, o, R, t, 'when built')
    lab = []
    for i, op in enumerate(ops):
        R, t = place(h, o, op, R, t, str(i))
        lab.append(op)
        accessors(h, o, R, t, 'after ' + ', '.join(lab))
    h.writes('arrays used for placing not modified')

def reject(h, cls, what, shape):
    o, R, t = thing(h, cls, None)
    bad = h.arr('bad', *shape)
    v, r = h.attempt(lambda: h.m(o, 'set_' + what, bad))
    cond = dd.FALSE
    for st, e, loc, tr in r: cond = dd.or_(cond, st.pc)
    h.holds('%s of shape %s is rejected' % (what, (shape,)), cond)
    for st, e, loc, tr in r:
        s0 = h.I.st
        h.I.st = st.fork(st.pc)
        accessors(h, o, R, t, 'after the rejected %s' % what)
        h.I.st = s0

def shared(h, cls, op, then):
    """two things placed with the same array; the first is moved on"""
    a, Ra, ta = thing(h, cls, None)
    b, Rb, tb = thing(h, cls, None)
    F, R, t = h.frame('P', tag='the array used to place both')
    if op == 'location': A = h.mk((3,), t, tag='the array used to place both'); R = I3(h)
    elif op == 'rotation': A = h.mk((3, 3), R[0] + R[1] + R[2], tag='the array used to place both'); t = Z3(h)
    else: A = F
    h.m(a, 'set_' + op, A); h.m(b, 'set_' + op, A)
    Ra, ta = place(h, a, then, R, t, '1')
    accessors(h, b, R, t, 'the one not moved')
    accessors(h, a, Ra, ta, 'the one moved')
    h.writes('the array used to place both not modified')

def reused(h, cls, op, built):
    """the caller changes the array it has placed one thing with, and places another with it"""
    I = h.I
    F, R, t = h.frame('P')
    F2, R2, t2 = h.frame('Q')
    if built:
        # when built, op names the array that is changed
        L, M = h.mk((3,), t), h.mk((3, 3), R[0] + R[1] + R[2])
        a, b = [(h.new(MODS[cls], cls, *([NoGeom(), NoGeom()] if cls == 'Surface' else []), **k)) for k in
            ([dict(transform=F)] * 2 if cls == 'AssembledObject' else [dict(location=L, rotation=M)] * 2)]
        A = F if cls == 'AssembledObject' else L if op == 'location' else M
        if cls == 'AssembledObject': new = I.elems(F2)
        else: new = t2 if op == 'location' else R2[0] + R2[1] + R2[2]
    else:
        a, _, _ = thing(h, cls, None); b, _, _ = thing(h, cls, None)
        if op == 'location': A, new, R = h.mk((3,), t), t2, I3(h)
        elif op == 'rotation': A, new, t = h.mk((3, 3), R[0] + R[1] + R[2]), R2[0] + R2[1] + R2[2], Z3(h)
        else: A, new = F, I.elems(F2)
        h.m(a, 'set_' + op, A)
    I.write(A, list(new))
    if not built: h.m(b, 'set_' + op, A)
    accessors(h, a, R, t, 'the one placed first')
    if not built:
        Rb, tb = (I3(h), t2) if op == 'location' else (R2, Z3(h)) if op == 'rotation' else (R2, t2)
        accessors(h, b, Rb, tb, 'the one placed next')

def built_shared(h, cls, then):
    a, R, t = thing(h, cls, 'shared')
    b, R, t = thing(h, cls, 'shared')
    Ra, ta = place(h, a, then, R, t, '1')
    accessors(h, b, R, t, 'the one not moved')
    accessors(h, a, Ra, ta, 'the one moved')
    h.writes('the array used to build both not modified')

def defaults(h, cls, then):
    """things built with defaults do not share a frame"""
    a, R, t = thing(h, cls, None)
    b, R, t = thing(h, cls, None)
    place(h, a, then, R, t, '1')
    accessors(h, b, R, t, 'the other default one')
    c, R, t = thing(h, cls, None)
    accessors(h, c, R, t, 'one built later with defaults')

def handed(h, cls, then):
    """one thing placed with another's transform"""
    a, R, t = thing(h, cls, None)
    b, Rb, tb = thing(h, cls, None)
    R, t = place(h, a, 'transform', R, t, '0')
    h.m(b, 'set_transform', h.m(a, 'get_transform'))
    place(h, b, then, R, t, '1')
    accessors(h, a, R, t, 'the one whose transform was used')

OPS = ('location', 'rotation', 'transform')
def run(rep):
    for cls in CLASSES:
        for op in OPS:
            for then in OPS + tuple('slight ' + x for x in OPS): rep.case('%s/slight %s, then %s' % (cls, op, then), seq, cls, ('slight ' + op, then), None)
            rep.case('%s/whole %s, then slight %s' % (cls, op, op), seq, cls, ('whole ' + op, 'slight ' + op), None)
    for cls in CLASSES:
        for given in (None, 'own'):
            if given and cls == 'BoundarySphere': continue
            for ops in ([()] if given else []) + [o for k in (1, 2) for o in itertools.product(OPS, repeat=k)] + (list(itertools.product(OPS, repeat=3)) if rep.tier == 'thorough' or cls in ('HasFrame', 'Surface') else []):
                rep.case('%s%s/%s' % (cls, ' placed when built' if given else '', ','.join(ops)), seq, cls, ops, given)
        for op in OPS:
            for then in OPS: rep.case('%s/whole %s, then %s' % (cls, op, then), seq, cls, ('whole ' + op, then), None)
        for op in OPS:
            for then in OPS: rep.case('%s/shared %s, then %s' % (cls, op, then), shared, cls, op, then)
            if cls != 'BoundarySphere': rep.case('%s/built with shared arrays, then %s' % (cls, op), built_shared, cls, op)
            rep.case('%s/array reused, %s' % (cls, op), reused, cls, op, False)
            if cls != 'BoundarySphere': rep.case('%s/array given when built reused, %s' % (cls, op), reused, cls, op, True)
            rep.case('%s/defaults, then %s' % (cls, op), defaults, cls, op)
            rep.case('%s/placed with another\'s transform, then %s' % (cls, op), handed, cls, op)
        for shape in ((4,), (2,), (1,), (3, 1), (1, 3), (3, 3), (4, 1)): rep.case('%s/location %s' % (cls, shape), reject, cls, 'location', shape)
        for shape in ((3,), (4, 4), (2, 2), (3, 4), (4, 3), (9,), (3, 3, 1), (2, 3), (1, 3), (3, 1), (1, 1), (1,), (1, 3, 3)): rep.case('%s/rotation %s' % (cls, shape), reject, cls, 'rotation', shape)
