"""Rotation and transform builders produce the documented proper rotations."""
from ..harness import *

RULE = ('Value numbering of every builder on generic arguments: the axis rotation must be Rodrigues\' matrix term by term; elementary rotations, translations and the axis-angle-'
        'translation builder the documented homogeneous matrices; for the frame pointing Z along a vector, over a generic unit vector, both vertical ones, literal batches mixing them and a '
        'batch of any size: columns orthonormal, determinant 1, Z column the vector itself, X horizontal, the identity for +Z - as identities between value numbers.')
G = 'tracer.spatial_geometry'

def sc(a): return n.sincos(a.node.val)

def trig(a):
    s, c = n.sincos(a.node.val)
    return dd.leaf(s), dd.leaf(c)

def rodrigues(h, u, s, c):
    v = dd.sub(dd.c(1), c)
    z = dd.c(0)
    K = [[z, dd.neg(u[2]), u[1]], [u[2], z, dd.neg(u[0])], [dd.neg(u[1]), u[0], z]]
    return [dd.add(dd.add(dd.mul(dd.mul(u[i], u[j]), v), c if i == j else z), dd.mul(K[i][j], s)) for i in range(3) for j in range(3)]

def axis_rot(h, axis):
    u = h.unit('axis') if axis is None else [dd.c(x) for x in axis]
    ang = h.sc('angle')
    s, c = trig(ang)
    ints = axis is not None
    A = h.mk((3,), u, 'i' if ints else 'f', 'the caller\'s axis')
    want = rodrigues(h, u, s, c)
    h.same('rotation about an axis', h.call(G, 'general_axis_rotation', A, ang), h.mk((3, 3), want))
    t = [dd.leaf(n.atom('t%d' % i)) for i in range(3)]
    T = h.mk((3, 1), t, 'f', 'the caller\'s translation')
    el = []
    for i in range(3): el += want[3*i:3*i+3] + [t[i]]
    h.same('axis-angle-translation transform', h.call(G, 'generate_transform', A, ang, T), h.mk((4, 4), el + [dd.c(0)] * 3 + [dd.c(1)]))
    h.writes('arguments not modified')

def right_angles(h):
    """exact right angles keep the axes apart"""
    I = h.I
    for k, nm in enumerate(('rotx', 'roty', 'rotz')):
        R = npm.toarr(I, h.call(G, nm, Sc(dd.c(0))))
        h.same(nm + ' by 0', R, h.mk((4, 4), [dd.c(1 if i == j else 0) for i in range(4) for j in range(4)]))

def elementary(h):
    a = h.sc('angle')
    s, c = trig(a)
    ns = dd.neg(s); o, z = dd.c(1), dd.c(0)
    M = dict(rotx=[o, z, z, z, z, c, ns, z, z, s, c, z, z, z, z, o], roty=[c, z, s, z, z, o, z, z, ns, z, c, z, z, z, z, o], rotz=[c, ns, z, z, s, c, z, z, z, z, o, z, z, z, z, o])
    for k in sorted(M): h.same(k, h.call(G, k, a), h.mk((4, 4), M[k]))
    x, y, w = h.sc('x'), h.sc('y'), h.sc('z')
    h.same('translate', h.call(G, 'translate', x, y, w), h.mk((4, 4), [o, z, z, x.node, z, o, z, y.node, z, z, o, w.node, z, z, z, o]))

def proper(h, name, R, vec, care=None, up=False):
    """R: 9 nodes, vec: 3 nodes"""
    col = [[R[0 + j], R[3 + j], R[6 + j]] for j in range(3)]
    care = h.I.pc if care is None else dd.and_(h.I.pc, care)
    # a generic vector stands for those not vertical; the vertical ones are inputs of their own
    g = dd.or_(dd.ne(vec[0], dd.c(0)), dd.ne(vec[1], dd.c(0)))
    g = dd.or_(g, dd.apply1('literal', lambda x: dd.TRUE if dd.asnum(x).const in (1, -1) else dd.FALSE, vec[2]))
    care = dd.and_(care, g)
    for i in range(3): h.eq('%s: Z axis [%d]' % (name, i), col[2][i], vec[i], care=care)
    h.eq('%s: X axis is horizontal' % name, col[0][2], dd.c(0), care=care)
    for i in range(3):
        for j in range(i + 1): h.eq('%s: columns %d.%d' % (name, i, j), h.dot(col[i], col[j]), dd.c(1 if i == j else 0), care=care)
    h.eq('%s: proper' % name, h.dot(h.cross(col[0], col[1]), col[2]), dd.c(1), care=care)
    if up:
        for i in range(3):
            for j in range(3): h.eq('%s: original frame retained [%d,%d]' % (name, i, j), R[3*i + j], dd.c(1 if i == j else 0), care=care)

Z = dict(up=[dd.c(0), dd.c(0), dd.c(1)], down=[dd.c(0), dd.c(0), dd.c(-1)])
def vec(h, kind, name='v'):
    if kind == 'up': return [dd.c(0), dd.c(0), dd.c(1)]
    if kind == 'down': return [dd.c(0), dd.c(0), dd.c(-1)]
    if kind == 'flat':
        u = n.atom(name + '.u'); i = n.inv(n.add(n.const(1), n.mul(u, u)))
        return [dd.leaf(n.mul(n.mul(n.const(2), u), i)), dd.leaf(n.mul(n.sub(n.const(1), n.mul(u, u)), i)), dd.c(0)]
    if kind == 'y': return [dd.c(0), dd.c(1), dd.c(0)]
    if kind == '-x': return [dd.c(-1), dd.c(0), dd.c(0)]
    return h.unit(name)

def single(h, kind, whole=False):
    I = h.I
    v = vec(h, kind)
    r = npm.toarr(I, h.call(G, 'rotation_to_z', h.mk((3,), v, 'i' if whole else 'f', 'the caller\'s direction')))
    if r.dims != (3, 3): h.viol('frame for one vector', 'has shape %s' % h.shp(r.dims), h.vloc(r)); return
    proper(h, kind, I.elems(r), v, up=kind == 'up')
    h.writes('direction not modified')

def batch(h, kinds, whole=False):
    I = h.I
    vs = [vec(h, k, 'v%d' % i) for i, k in enumerate(kinds)]
    r = npm.toarr(I, h.call(G, 'rotation_to_z', h.mk((len(vs), 3), [x for v in vs for x in v], 'i' if whole else 'f', 'the caller\'s directions')))
    if r.dims != (len(vs), 3, 3): h.viol('frames for a batch', 'have shape %s' % h.shp(r.dims), h.vloc(r)); return
    el = I.elems(r)
    for i, (k, v) in enumerate(zip(kinds, vs)): proper(h, 'vector %d (%s)' % (i, k), el[9*i:9*i+9], v, up=k == 'up')
    h.writes('directions not modified')

def many(h):
    I = h.I
    ax = h.axis('vector')
    up = dd.batom('up@vector', deps=frozenset([ax.base.id])); dn = dd.batom('down@vector', deps=frozenset([ax.base.id]))
    u = h.unit('v', ax)
    v = [dd.ite(up, a, dd.ite(dn, b, c_)) for a, b, c_ in zip(vec(h, 'up'), vec(h, 'down'), u)]
    r = npm.toarr(I, h.call(G, 'rotation_to_z', h.mk((ax, 3), v, 'f', 'the caller\'s directions')))
    if len(r.dims) != 3 or r.dims[0] is not ax or r.dims[1:] != (3, 3): h.viol('frames for a batch of any size', 'have shape %s' % h.shp(r.dims), h.vloc(r)); return
    proper(h, 'any vector of a batch', I.elems(r), v)
    proper(h, 'vertical vector of a batch', I.elems(r), v, care=up, up=True)
    h.writes('directions not modified')

def run(rep):
    rep.case('axis rotation/any axis', axis_rot, None)
    for a in ((1, 0, 0), (0, 1, 0), (0, 0, -1)): rep.case('axis rotation/integer axis %s' % (a,), axis_rot, a)
    rep.case('elementary', elementary)
    rep.case('no rotation', right_angles)
    K = ('any', 'up', 'down', 'flat', 'y', '-x')
    for k in K: rep.case('point Z/%s' % k, single, k)
    for k in (('any', 'any'), ('up', 'any'), ('any', 'up'), ('down', 'any', 'up'), ('up', 'down'), ('flat', 'down', 'any')): rep.case('point Z/batch %s' % ','.join(k), batch, k)
    for k in ('up', 'down', 'y', '-x'): rep.case('point Z/%s in whole numbers' % k, single, k, True)
    for k in (('y', 'up'), ('down', '-x', 'up')): rep.case('point Z/batch %s in whole numbers' % ','.join(k), batch, k, True)
    rep.case('point Z/batch of any size', many)
