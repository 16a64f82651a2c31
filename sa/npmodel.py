"""Abstract semantics of the numpy operations used by the code under analysis.

Arrays are typed by *index spaces*: a dimension is either a known size or an
Axis (the rays of a bundle, the rays of it satisfying a mask, the concatenation
of several such sets).  Combining arrays over different ray sets is an error of
the analysed code; elements are gated value numbers for a generic ray.
"""
import ast, itertools
from fractions import Fraction
from . import num as n, dd
from .core import *

# ---- helpers ------------------------------------------------------------------
def dimlen(d):
    if isinstance(d, int): return d
    nd = d.len()
    if nd.var == dd.LEAF and nd.val.kind == 0 and nd.val.const is not None: return int(nd.val.const)
    return Sc(nd, 'i')

def dt_join(*dts):
    if 'f' in dts: return 'f'
    if 'f32' in dts: return 'f32' if all(d in ('f32', 'b') for d in dts) else 'f'
    if 'i' in dts: return 'i'
    return 'b'

def dim_eq(I, x, y):
    """True/False/None"""
    if x is y: return True
    if isinstance(x, int) and isinstance(y, int): return x == y
    if isinstance(x, Axis) and isinstance(y, Axis):
        e = axis_equiv(x, y, I.pc, True)
        if e is False and (positional(x) or positional(y)): return None      # a stretch of one may be as long as the other
        return e
    a, k = (x, y) if isinstance(x, Axis) else (y, x)
    nd = a.len()
    if nd.var == dd.LEAF and nd.val.const is not None: return nd.val.const == k
    if k == 0: return True if dd.sat(dd.and_(I.pc, a.nonempty())) is None else False
    if a.base.name.startswith('n='): return None
    return False

def mismatch(I, x, y, what='operands'):
    def nm(d): return str(d) if isinstance(d, int) else 'rays(%s)' % d.name
    raise AbsRaise('ValueError', '%s of different index spaces combined: %s and %s' % (what, nm(x), nm(y)), kind='misalign')

def bdim(I, x, y):
    if x is y or x == y: return x
    if x == 1: return y
    if y == 1: return x
    if isinstance(x, Axis) and isinstance(y, Axis) and getattr(x.base, 'twin', None) is y.base and x.mask is dd.TRUE and y.mask is dd.TRUE:
        return x if x.base.id > y.base.id else y
    e = dim_eq(I, x, y)
    if e is None: raise Undecided('cannot compare index spaces')
    if e: return x if isinstance(x, Axis) else y
    mismatch(I, x, y)

def bdims(I, dl):
    nd = max(len(d) for d in dl)
    out = []
    for k in range(nd):
        cur = 1
        for d in dl:
            i = k - (nd - len(d))
            if i >= 0: cur = bdim(I, cur, d[i])
        out.append(cur)
    untwin(out)
    chk_outer(out)
    return tuple(out)

def untwin(out):
    """a grid's index used in two directions: the second is the twin"""
    for j in range(len(out)):
        if isinstance(out[j], Axis) and any(isinstance(out[i], Axis) and out[i].base is out[j].base for i in range(j)) and twinable(out[j]):
            t = twin(out[j])
            if not any(isinstance(out[i], Axis) and out[i].base is t.base for i in range(len(out))): out[j] = t

def chk_outer(dims):
    sy = [d for d in dims if isinstance(d, Axis)]
    for i in range(len(sy)):
        for j in range(i + 1, len(sy)):
            if sy[i].base.assoc & sy[j].base.assoc: raise Undecided('array over pairs of rays')

def bcast(I, a, dims):
    """list of element nodes of array a broadcast to dims"""
    el = I.elems(a)
    nd = len(dims); ad = a.dims
    sh = cshape(ad); st = strides(sh)
    out = []
    re = []
    for k in range(len(ad)):
        x, y = ad[k], dims[k + nd - len(ad)]
        if isinstance(x, Axis) and isinstance(y, Axis) and x.base is not y.base: re.append((x, y))
    off = nd - len(ad)
    if not el: return [dd.c(0) for ix in indices(cshape(dims))]   # no elements: the broadcast space is empty here
    for ix in indices(cshape(dims)):
        p = 0
        for k in range(len(ad)):
            if sh[k] != 1: p += ix[k + off] * st[k]
        v = el[p]
        for x, y in re: v = reindex(v, x, y)
        out.append(v)
    return out

def copy(I, a): return I.new_arr(a.dims, I.elems(a), I.adt(a))

def mkarr(I, dims, elems, dt):
    if len(dims) == 0: return Sc(elems[0], dt)
    return I.new_arr(dims, elems, dt)

def dim_of(I, v):
    """dimension from a size value"""
    k = I.as_int(v)
    if k is not None: return k
    s = I.scalar(v)
    if s is None: raise Undecided('array size')
    nd = dd.tonum(dd.restrict(s.node, I.pc))
    if s.dt == 'f': pass
    ax = axis_of_len(I, nd)
    if ax is None: raise Undecided('array size')
    return ax

def is_zero(nd): return nd.var == dd.LEAF and not nd.val.kind and nd.val.const == 0

_nb = {}
def axis_of_len(I, nd):
    if nd.var != dd.LEAF:
        hi, lo = axis_of_len(I, nd.hi), axis_of_len(I, nd.lo)
        v = dd.mk(nd.var, dd.TRUE, dd.FALSE)
        if lo is None and is_zero(nd.lo) and hi is not None: return Axis(hi.base, dd.and_(hi.mask, v))
        if hi is None and is_zero(nd.hi) and lo is not None: return Axis(lo.base, dd.and_(lo.mask, dd.not_(v)))
        if hi is None or lo is None: return None
        if hi is lo: return hi
        if hi.base is lo.base: return Axis(hi.base, dd.ite(v, hi.mask, lo.mask))
        if axis_equiv(hi, lo, dd.and_(I.pc, v)) is True: return lo
        if axis_equiv(hi, lo, dd.and_(I.pc, dd.not_(v))) is True: return hi
        return None
    v = nd.val
    if v.kind: return None
    ds = n.atoms.get(v.fp)
    if ds is not None and ds[0] == 'len': return ds[1]
    if v.const is not None: return None
    key = ('n', v.fp, v.imp)
    if key not in dd._memo:
        parts = len_parts(v)
        if parts and len(parts) > 1:
            # as many as several index spaces together: room for each of them in turn
            ax, _ = concat_axis(parts)
            if ax is not None and same_num(ax.len(), nd): dd._memo[key] = ax
    if key not in dd._memo:
        b = Base('n=%s' % v.show())
        b.len_node = nd
        ax = Axis(b)
        n.atoms[v.fp] = ('len', ax)
        dd._memo[key] = ax
    return dd._memo[key]

def same_num(x, y): return x is y or x.var == dd.LEAF and y.var == dd.LEAF and not x.val.kind and not y.val.kind and dd.asnum(x.val).fp == dd.asnum(y.val).fp

def len_parts(v):
    """the index spaces whose lengths are added up in v, in order"""
    if v.kind: return None
    if v.const == 0: return []
    ds = n.atoms.get(v.fp)
    if ds is not None and ds[0] == 'len': return [ds[1]]
    ev = v.ev
    if ev and ev[0] == '+':
        a, b = len_parts(ev[1]), len_parts(ev[2])
        if a is not None and b is not None: return a + b
    return None

def shape_arg(I, v):
    v = I.resolve(v)
    if isinstance(v, (tuple, ListRef)):
        out = []
        for g, x in I.iterate(v):
            if g is not dd.TRUE: raise Undecided('shape')
            out.append(dim_of(I, x))
        return tuple(out)
    if isinstance(v, Arr) and len(v.dims) == 1 and isinstance(v.dims[0], int):
        return tuple(dim_of(I, Sc(x, I.adt(v))) for x in I.elems(v))
    return (dim_of(I, v),)

NARROW = {'int8': (-128, 127), 'i1': (-128, 127), 'uint8': (0, 255), 'u1': (0, 255), 'ubyte': (0, 255), 'byte': (-128, 127), 'int16': (-32768, 32767), 'i2': (-32768, 32767),
          'short': (-32768, 32767), 'uint16': (0, 65535), 'u2': (0, 65535)}
class Narrow(str):
    """an integer type too small to number any amount of rays; otherwise like 'i'"""
    @classmethod
    def of(cls, nm):
        x = cls('i'); x.nm = nm; x.lo, x.hi = NARROW[nm]
        return x

def parse_dt(I, v):
    if v is None: return None
    v = I.resolve(v)
    if isinstance(v, DtypeV): return v.dt
    if isinstance(v, TypeV): nm = v.name
    elif isinstance(v, str): nm = v
    elif isinstance(v, Builtin): nm = v.name
    else: raise Undecided('dtype')
    if nm in ('float', 'float64', 'double', 'd', 'f8', 'float_', 'f', 'longdouble'): return 'f' if nm != 'f' else 'f32'
    if nm in ('float32', 'single', 'float16', 'half', 'f4'): return 'f32'
    if nm in ('bool', 'bool_', 'bool8', '?'): return 'b'
    if nm in NARROW: return Narrow.of(nm)
    if nm.startswith('int') or nm.startswith('uint') or nm in ('i', 'long', 'intp', 'i8', 'i4'): return 'i'
    raise Undecided('dtype %s' % nm)

class DtypeV(object):
    def __init__(self, dt): self.dt = dt
    def __eq__(self, o): return isinstance(o, DtypeV) and o.dt == self.dt
    def __hash__(self): return hash(self.dt)

def toarr(I, v, dt=None):
    """any array-like -> Arr (no copy of arrays)"""
    v = I.resolve(v)
    if isinstance(v, Choice):
        r = try_merge(I, v)
        if r is None: raise Undecided('alternatives of different shape')
        v = r
    if isinstance(v, Arr):
        if dt is not None and (I.adt(v) != dt or isinstance(dt, Narrow)): return I.new_arr(v.dims, [I.cast(x, dt) for x in I.elems(v)], dt)
        return v
    s = I.scalar(v)
    if s is not None:
        d = dt or s.dt
        return I.new_arr((), [I.cast(s.node, d)], d)
    if isinstance(v, (tuple, ListRef, RangeV, GenericIter)) or (isinstance(v, DictRef) and False):
        items = I.iterate(v)
        if any(isinstance(x, (SymItem, GenericIter)) for g, x in items):
            if len(items) != 1: raise Undecided('array of per-ray and other items')
            g, x = items[0]
            ax = x.axis if g is dd.TRUE else x.axis.sub(g)
            val = toarr(I, x.val if isinstance(x, SymItem) else x.item)
            d = dt or I.adt(val)
            return I.new_arr((ax,) + val.dims, [I.cast(e, d) for e in I.elems(val)], d)
        if any(g is not dd.TRUE for g, x in items):
            items = [(dd.restrict(g, I.pc), x) for g, x in items]
            items = [(g, x) for g, x in items if g is not dd.FALSE]
            if any(g is not dd.TRUE for g, x in items): raise Undecided('array of a conditional list')
        if not items: return I.new_arr((0,), [], dt or 'f')
        subs = [toarr(I, x) for g, x in items]
        d0 = subs[0].dims
        dims = list(d0)
        for s2 in subs[1:]:
            if len(s2.dims) != len(d0): raise AbsRaise('ValueError', 'ragged nested sequence')
            for k in range(len(d0)):
                e = dim_eq(I, dims[k], s2.dims[k])
                if e is None: raise Undecided('ragged?')
                if not e: mismatch(I, dims[k], s2.dims[k], 'rows')
                if isinstance(s2.dims[k], Axis) and isinstance(dims[k], int): dims[k] = s2.dims[k]
        d = dt or dt_join(*[I.adt(s2) for s2 in subs])
        el = []
        for s2 in subs: el += bcast(I, s2, dims)
        return I.new_arr((len(subs),) + tuple(dims), [I.cast(x, d) for x in el], d)
    if isinstance(v, Top): raise Undecided('array from %s' % v.why)
    if v is None or isinstance(v, (str, ObjRef)): raise AbsRaise('TypeError', 'array operation on %s' % I.typename(v))
    raise Undecided('array from %r' % (v,))

def isnumeric(I, v):
    return isinstance(v, Arr) or I.scalar(v) is not None

def try_merge(I, ch):
    """one value for a choice of same-shaped numeric values, or None"""
    a, b = ch.a, ch.b
    if isinstance(a, Choice): a = try_merge(I, a)
    if isinstance(b, Choice): b = try_merge(I, b)
    if a is None or b is None: return None
    sa, sb = I.scalar(a), I.scalar(b)
    if sa is not None and sb is not None: return I.merge(ch.c, sa, sb)
    if not (isinstance(a, Arr) and isinstance(b, Arr)): return None
    if len(a.dims) != len(b.dims): return None
    dims = []
    pca, pcb = dd.and_(I.pc, ch.c), dd.and_(I.pc, dd.not_(ch.c))
    for x, y in zip(a.dims, b.dims):
        if x is y or x == y: dims.append(x); continue
        if isinstance(x, Axis) and isinstance(y, Axis):
            if x.base is y.base:
                dims.append(Axis(x.base, dd.ite(ch.c, x.mask, y.mask))); continue
            if axis_equiv(x, y, pcb) is True: dims.append(x); continue
            if axis_equiv(x, y, pca) is True: dims.append(y); continue
        return None
    dt = dt_join(I.adt(a), I.adt(b))
    ea, eb = bcast(I, a, dims), bcast(I, b, dims)
    return I.new_arr(dims, [dd.ite(ch.c, I.cast(x, dt), I.cast(y, dt)) for x, y in zip(ea, eb)], dt)

def lifted(I, f, args, kw):
    for i, a in enumerate(args):
        a = I.resolve(a)
        args[i] = a
        if isinstance(a, Choice):
            r = try_merge(I, a)
            if r is not None: args[i] = r; continue
            x, y = list(args), list(args)
            x[i], y[i] = a.a, a.b
            return I.fork(a.c, lambda: lifted(I, f, x, dict(kw)), lambda: lifted(I, f, y, dict(kw)))
    for k, a in list(kw.items()):
        a = I.resolve(a)
        kw[k] = a
        if isinstance(a, Choice):
            r = try_merge(I, a)
            if r is not None: kw[k] = r; continue
            x, y = dict(kw), dict(kw)
            x[k], y[k] = a.a, a.b
            return I.fork(a.c, lambda: lifted(I, f, list(args), x), lambda: lifted(I, f, list(args), y))
    return f.fn(I, args, kw)

# ---- indexing ----------------------------------------------------------------
class _Adv(object):
    def __init__(self, arr): self.arr = arr

def norm_key(I, a, key):
    """expand ellipsis, convert lists/bools; -> list of ('int',node)|('slice',SliceV)|('new',)|('adv',Arr), one per source dim (bool arrays expanded)"""
    out = []
    nd = 0
    conv = []
    for k in key:
        k = I.resolve(k)
        if isinstance(k, Top): raise Undecided('index %s' % k.why)
        if k is None: conv.append(('new',)); continue
        if k is Ellipsis: conv.append(('ell',)); continue
        if isinstance(k, SliceV): conv.append(('slice', k)); nd += 1; continue
        if isinstance(k, (ListRef, tuple, RangeV)): k = toarr(I, k)
        if isinstance(k, Arr) and len(k.dims) == 0: k = Sc(I.elems(k)[0], I.adt(k))
        if isinstance(k, Arr):
            if I.adt(k) == 'b':
                conv.append(('mask', k)); nd += len(k.dims)
            elif I.adt(k) == 'i': conv.append(('adv', k)); nd += 1
            elif any(d == 0 for d in k.dims): conv.append(('adv', I.new_arr(k.dims, [], 'i'))); nd += 1
            else:
                # numpy rejects float index arrays unless empty
                if len(k.dims) == 1 and isinstance(k.dims[0], Axis):
                    if dd.sat(dd.and_(I.pc, k.dims[0].nonempty())) is None:
                        conv.append(('adv', I.new_arr((0,), [], 'i'))); nd += 1; continue
                raise AbsRaise('IndexError', 'arrays used as indices must be of integer (or boolean) type')
            continue
        if isinstance(k, bool): raise Undecided('boolean scalar index')
        s = I.scalar(k)
        if s is None: raise AbsRaise('IndexError', 'bad index %r' % (k,))
        if s.dt == 'b': raise Undecided('boolean scalar index')
        if s.dt != 'i': raise AbsRaise('IndexError', 'only integers, slices and arrays are valid indices')
        conv.append(('int', s.node)); nd += 1
    if nd > len(a.dims): raise AbsRaise('IndexError', 'too many indices for array')
    fill = len(a.dims) - nd
    seen = False
    for c in conv:
        if c[0] == 'ell':
            if not seen: out += [('slice', SliceV(None, None, None))] * fill
            seen = True
        else: out.append(c)
    if not seen: out += [('slice', SliceV(None, None, None))] * fill
    return out

def expand_masks(I, a, key):
    """boolean arrays -> index arrays; forks on symbolic masks over sized dims are raised as NeedFork"""
    out = []; d = 0
    for c in key:
        if c[0] == 'mask':
            m = c[1]
            for k in range(len(m.dims)):
                e = dim_eq(I, m.dims[k], a.dims[d + k])
                if e is None: raise Undecided('mask length')
                if not e:
                    if isinstance(m.dims[k], int) and isinstance(a.dims[d + k], int): raise AbsRaise('IndexError', 'boolean index did not match indexed array')
                    mismatch(I, m.dims[k], a.dims[d + k], 'mask and array')
            m2 = m
            # express the mask over the array's own axis
            if m.dims != a.dims[d:d + len(m.dims)]:
                m2 = I.new_arr(a.dims[d:d + len(m.dims)], bcast(I, m, a.dims[d:d + len(m.dims)]), 'b')
            idx = nonzero(I, m2)
            out += [('adv', x) for x in idx]; d += len(m.dims)
        else:
            out.append(c)
            if c[0] != 'new': d += 1
    return out

by_position = set()       # conditions on an element's position, from slices
def positional(ax): return any(v in by_position for b, m in flatten(ax) for v in dd.support(m))

def part_mask(I, d, fl, lo, hi):
    """the parts of d from lo up to hi, where those are, case by case, lengths of the parts before them; or None"""
    def live(l, pc): return [z for ax in l for z in (Axis(*p) for p in flatten(ax)) if dd.sat(dd.and_(pc, z.nonempty())) is not None]
    def at(x, pc):
        ls = len_parts(x)
        if ls is None: return None
        v = live(ls, pc)
        for q in range(len(fl) + 1):
            w = live([Axis(b, mm) for j, b, mm in fl[:q]], pc)
            if len(w) == len(v) and all(p.base is r.base and axis_equiv(p, r, pc) is True for p, r in zip(v, w)): return q
        return None
    if len(fl) < 2 or any(j is None for j, b, mm in fl): return None
    out = dd.FALSE
    for a in dd.leaves(lo):
        ca = leaf_cond(lo, dd.asnum(a.val))
        if dd.sat(dd.and_(I.pc, ca)) is None: continue
        for b in dd.leaves(hi):
            k = dd.and_(ca, leaf_cond(hi, dd.asnum(b.val)))
            c = dd.and_(I.pc, k)
            if dd.sat(c) is None: continue
            p, q = at(dd.asnum(a.val), c), at(dd.asnum(b.val), c)
            if p is None or q is None: return None
            for r, (j, base, mm) in enumerate(fl):
                if p <= r < q: out = dd.or_(out, dd.and_(k, d.base.part_cond[j]))
    return out

def slice_dim(I, s, d):
    """-> ('list', [indices]) for sized dims or ('axis', Axis)"""
    if isinstance(d, int):
        a, b, st = I.slice_idx(s, d) if True else None
        return 'list', list(range(a, b, st))
    if s.a is None and s.b is None and s.s is None: return 'axis', d
    if s.s is not None and I.as_int(s.s) != 1: 
        if I.as_int(s.s) == -1 and s.a is None and s.b is None: raise Undecided('reversed ray axis')
        raise Undecided('strided ray slice')
    ln, pos = d.len(), d.pos()
    m = dd.TRUE
    def bound(x):
        sc = I.scalar(x)
        if sc is None: raise Undecided('slice bound')
        if sc.dt == 'f': raise AbsRaise('TypeError', 'slice indices must be integers')
        nd = dd.tonum(sc.node)
        k = I.as_int(x)
        if k is not None and k < 0: nd = dd.add(ln, nd)
        return nd
    # slices at part boundaries
    pts = [dd.c(0)]
    fl = flat_idx(d)
    for j, b, mm in fl: pts.append(dd.restrict(dd.add(pts[-1], Axis(b, mm).len()), I.pc))
    lo = dd.restrict(bound(s.a), I.pc) if s.a is not None else pts[0]
    hi = dd.restrict(bound(s.b), I.pc) if s.b is not None else pts[-1]
    at = lambda x: [q for q, y in enumerate(pts) if same_num(x, y)]
    l_, h_ = at(lo), at(hi)
    if l_ and h_:
        for q, (j, b, mm) in enumerate(fl):
            if not (l_[0] <= q < h_[-1]): m = dd.and_(m, dd.not_(d.base.part_cond[j])) if j is not None else dd.FALSE
        return 'axis', d.sub(m)
    m = part_mask(I, d, fl, lo, hi)
    if m is not None: return 'axis', d.sub(m)
    m = dd.TRUE
    sym = dd.TRUE
    if s.a is not None:
        k = I.as_int(s.a)
        if k != 0:
            lo = dd.restrict(bound(s.a), I.pc)
            q = dd.ge(pos, lo)
            q = dd.apply1(('slice from', q.id), lambda x: dd.TRUE if dd.asnum(x).const == 0 else q, lo)
            m = dd.and_(m, q)
            if k is None: sym = dd.and_(sym, q)
    if s.b is not None:
        nb = dd.restrict(bound(s.b), I.pc)
        if not same_num(nb, ln):
            q = dd.lt(pos, nb)
            df = dd.restrict(dd.sub(nb, ln), I.pc)
            q = dd.apply1(('slice to', q.id), lambda x: dd.TRUE if dd.asnum(x).const == 0 else q, df)
            m = dd.and_(m, q)
            if I.as_int(s.b) is None: sym = dd.and_(sym, q)
    r = d.sub(m)
    if r is not d: by_position.update(v for v in dd.support(sym) if d.base.id in dd.vars_[v].deps)
    return 'axis', r

def elem_at(I, node, ax, k):
    """value at a fixed position k of an axis (cross-ray)"""
    if ax.base.id not in node.deps and not (node.deps & ax.base.assoc): return node
    bools = all(isinstance(l.val, bool) for l in dd.leaves(node))
    key = 'elem:%d:%s:%s' % (node.id, ax.key, k)
    deps = (node.deps - ax.base.assoc) | frozenset(['X'])
    if bools: return dd.batom(key, imp=node.imp, deps=deps, desc=('elem', k, node, ax))
    return dd.leaf(n.atom(key, deps=deps, imp=node.imp, desc=('elem', k, node, ax), isint=all_int(node), lo=lo_(node), hi=hi_(node), expr='element %s of ray axis' % k))

def pos_terms(x):
    """a position in a concatenation: (index spaces whose lengths are added, the index space it is a position of), or None"""
    if x.kind: return None
    ds = n.atoms.get(x.fp)
    if ds is not None: return ([], ds[1]) if ds[0] == 'pos' else ([ds[1]], None) if ds[0] == 'len' else None
    if x.const == 0: return [], None
    if x.ev and x.ev[0] == '+':
        a, b = pos_terms(x.ev[1]), pos_terms(x.ev[2])
        if a is None or b is None or (a[1] is not None and b[1] is not None): return None
        return a[0] + b[0], a[1] or b[1]
    return None

def same_place(I, x, y, pc):
    """two positions, each a sum of lengths and a position: the same one where pc holds?  True/False/None"""
    if x.fp == y.fp: return True
    a, b = pos_terms(x), pos_terms(y)
    if a is None or b is None or a[1] is None or b[1] is None: return False
    e = axis_equiv(a[1], b[1], pc)
    if e is not True: return e
    def live(l): return [z for ax in l for z in (Axis(*p) for p in flatten(ax)) if dd.sat(dd.and_(pc, z.nonempty())) is not None]
    la, lb = live(a[0]), live(b[0])
    if len(la) != len(lb): return False
    for p in la:
        q = [z for z in lb if z.base is p.base]
        if not q: return False
        e = axis_equiv(p, q[0], pc)
        if e is not True: return e
        lb.remove(q[0])
    return True

def leaf_cond(node, x):
    """the condition, on nothing but what holds for all rays, under which node is x"""
    c = dd.apply1(('is', x.fp, x.kind), lambda y: dd.TRUE if dd.asnum(y) is x or (not dd.asnum(y).kind and dd.asnum(y).fp == x.fp) else dd.FALSE, node)
    for v in sorted(dd.support(c)):
        if dd.vars_[v].deps: c = dd.or_(dd.cofactor(c, v, True), dd.cofactor(c, v, False))
    return c

def pos_cond(I, node, ax):
    """For an index node into axis ax: list of (cond, part_cond, base, mask) and the rest condition (unknown)."""
    parts = ax.pos_parts()
    res = []
    known = dd.FALSE
    for pcnd, b, m, leafv in parts:
        def f(x, leafv=leafv, b=b, m=m):
            x = dd.asnum(x)
            if x.kind: return dd.FALSE
            if x.fp == leafv.fp: return dd.TRUE
            if b.id not in x.deps: return dd.FALSE
            e = same_place(I, x, leafv, dd.and_(I.pc, leaf_cond(node, x)))
            if e is None: raise Undecided('index space')
            return dd.TRUE if e else dd.FALSE
        c = dd.apply1(('posc', leafv.fp, ax.key, I.pc.id, node.id), f, node)
        if c is not dd.FALSE: res.append((c, pcnd, b, m)); known = dd.or_(known, c)
    return res, dd.not_(known)

def lo_(node): return min(-n.INF if dd.asnum(l.val).part or dd.asnum(l.val).kind == n.NAN else dd.asnum(l.val).lo for l in dd.leaves(node))
def hi_(node): return max(n.INF if dd.asnum(l.val).part or dd.asnum(l.val).kind == n.NAN else dd.asnum(l.val).hi for l in dd.leaves(node))
def all_int(node): return all(isinstance(l.val, bool) or l.val.isint for l in dd.leaves(node))

def gather_axis(I, node_src, idx, ax):
    """value of node_src (over ax) at index idx"""
    res, rest = pos_cond(I, idx, ax)
    r = None
    if dd.restrict(rest, I.pc) is not dd.FALSE and rest is not dd.FALSE:
        # some other index: constants or foreign positions
        def f(x):
            x = dd.asnum(x)
            if x.const is not None: return elem_at(I, node_src, ax, str(x.const))
            if not (node_src.deps & ax.base.assoc): return node_src
            if all(isinstance(l.val, bool) for l in dd.leaves(node_src)):
                return dd.batom('gather:%d:%s:%r' % (node_src.id, ax.key, x.fp), imp=node_src.imp or x.imp, deps=(node_src.deps - ax.base.assoc) | x.deps)
            return dd.leaf(n.atom('gather:%d:%s:%r' % (node_src.id, ax.key, x.fp), deps=(node_src.deps - ax.base.assoc) | x.deps, imp=node_src.imp or x.imp, isint=all_int(node_src),
                                  expr='(value at index %s)' % x.show()))
        r = dd.apply1(('gather', node_src.id, ax.key), f, idx)
    for c, pcnd, b, m in res:
        v = node_src
        if ax.base.parts:
            j = next(j for j, cnd in enumerate(ax.base.part_cond) if cnd is pcnd)
            v = part_val(node_src, ax.base, j)
        r = v if r is None else dd.ite(c, v, r)
    return r if r is not None else node_src

def select_const(I, vals, idx, what='index'):
    """vals[idx] for list of nodes, idx node"""
    k = len(vals)
    def f(x):
        x = dd.asnum(x)
        if x.kind: return dd.leaf(n.opaque('badindex', [], imp=True))
        if x.const is not None:
            i = int(x.const)
            if not -k <= i < k: raise AbsRaise('IndexError', 'index %d out of bounds for size %d' % (i, k))
            return vals[i]
        r = vals[-1]
        lf = dd.leaf(x)
        for i in range(k - 2, -1, -1): r = dd.ite(dd.eq(lf, dd.c(i)), vals[i], r)
        return r
    idx = dd.restrict(dd.tonum(idx), I.pc)
    return dd.apply1(('selc', tuple(v.id for v in vals)), f, idx)

def all_const(elems):
    return all(e.var == dd.LEAF for e in elems)

def getitem(I, a, key):
    key = norm_key(I, a, key)
    r = fork_masks(I, a, key, lambda k: getitem2(I, a, k))
    return r

def fork_masks(I, a, key, cont):
    """fork until boolean masks over sized dims are constant"""
    for i, c in enumerate(key):
        if c[0] != 'mask': continue
        m = c[1]
        if len(m.dims) == 1 and isinstance(m.dims[0], int):
            el = [dd.restrict(e, I.pc) for e in I.elems(m)]
            if not all_const(el):
                j = next(j for j, e in enumerate(el) if e.var != dd.LEAF)
                if any(isinstance(b, int) for b in el[j].deps): raise Undecided('per-ray mask over a sized dimension')
                def with_(v):
                    def g():
                        e2 = list(el); e2[j] = v
                        m2 = I.new_arr(m.dims, e2, 'b')
                        return fork_masks(I, a, key[:i] + [('mask', m2)] + key[i + 1:], cont)
                    return g
                return I.fork(el[j], with_(dd.TRUE), with_(dd.FALSE))
    return cont(key)

def view_basic(I, a, key):
    """apply int/slice/new (adv treated as full slice). -> Arr view"""
    sh = cshape(a.dims)
    st = strides(sh)
    dims, ranges = [], []
    d = 0
    post = []        # (result dim number or -1, kind)
    masked = False
    scal = []
    for c in key:
        if c[0] == 'new': dims.append(1); ranges.append([None]); continue
        dim = a.dims[d]
        if c[0] == 'slice':
            kd, v = slice_dim(I, c[1], dim)
            if kd == 'list': dims.append(len(v)); ranges.append([x * st[d] for x in v])
            else:
                if v is not dim: masked = True
                dims.append(v); ranges.append([0])
        elif c[0] == 'int':
            k = I.as_int(Sc(c[1], 'i'))
            if isinstance(dim, int):
                if k is None: raise Undecided('internal: symbolic int')
                if not -dim <= k < dim: raise AbsRaise('IndexError', 'index %d is out of bounds for axis with size %d' % (k, dim))
                ranges.append([(k % dim) * st[d]]); dims.append('drop')
            else: raise Undecided('internal: int over axis')
        else: # adv: keep whole
            dims.append(dim); ranges.append([x * st[d] for x in range(sh[d])])
        d += 1
    pos = []
    for t in itertools.product(*ranges):
        pos.append(a.pos[sum(x for x in t if x is not None)])
    r = Arr(a.oid, [x for x in dims if x != 'drop'], pos)
    r.ro = masked or getattr(a, 'ro', False)
    return r

def is_sym_int(I, c, dim):
    return c[0] == 'int' and (isinstance(dim, Axis) or I.as_int(Sc(c[1], 'i')) is None)

def counted(I, a, key):
    """the first k elements, k being how many fulfil a condition: the element at each of their ranks"""
    d = 0
    for i, c in enumerate(key):
        if c[0] == 'new': continue
        dim = a.dims[d]; d += 1
        if c[0] != 'slice' or not isinstance(dim, Axis) or dim.base.parts or c[1].b is None or c[1].s is not None: continue
        if c[1].a is not None and I.as_int(c[1].a) != 0: continue
        sc = I.scalar(c[1].b)
        if sc is None or sc.dt == 'f': continue
        nd = dd.restrict(dd.tonum(sc.node), I.pc)
        ds = n.atoms.get(nd.val.fp) if nd.var == dd.LEAF and not nd.val.kind else None
        if not ds or ds[0] != 'len' or ds[1].base is not dim.base or axis_equiv(ds[1], dim, I.pc) is not False: continue
        if any(v in by_position for e in I.elems(a) for v in dd.support(e)): continue
        key = key[:i] + [('adv', I.new_arr((ds[1],), [ds[1].pos()], 'i'))] + key[i + 1:]
    return key

def getitem2(I, a, key):
    key = counted(I, a, expand_masks(I, a, key))
    # which source dim each entry addresses
    d = 0; anyadv = False
    for c in key:
        if c[0] == 'adv': anyadv = True
        elif c[0] == 'int' and is_sym_int(I, c, a.dims[d]): anyadv = True
        if c[0] != 'new': d += 1
    if not anyadv:
        v = view_basic(I, a, key)
        if not v.dims: return Sc(I.elems(v)[0], I.adt(a))
        return v
    # ints join the advanced indices
    base = []      # after basic step: list of ('keep',)|('adv', Arr) per view dim
    k2 = []
    d = 0
    hasarr = any(c[0] == 'adv' for c in key)
    for c in key:
        if c[0] == 'int':
            if is_sym_int(I, c, a.dims[d]) or hasarr:
                base.append(('adv', I.new_arr((), [c[1]], 'i'))); k2.append(('slice', SliceV(None, None, None)))
            else: k2.append(c)
        elif c[0] == 'adv': base.append(c); k2.append(('slice', SliceV(None, None, None)))
        else: base.append(('keep',)); k2.append(c)
        if c[0] != 'new': d += 1
    v = view_basic(I, a, k2)
    advpos = [i for i, b in enumerate(base) if b[0] == 'adv']
    advs = [base[i][1] for i in advpos]
    bd = bdims(I, [x.dims for x in advs])
    contiguous = all(advpos[i + 1] == advpos[i] + 1 for i in range(len(advpos) - 1))
    keep = [i for i in range(len(base)) if base[i][0] == 'keep']
    at = len([i for i in keep if i < advpos[0]]) if contiguous else 0
    kd = [v.dims[i] for i in keep]
    rdims = kd[:at] + list(bd) + kd[at:]
    chk_outer(rdims)
    for i, x in zip(advpos, advs):
        if v.dims[i] == 0 and any(b != 0 for b in bd) and prod(cshape(bd)):
            raise AbsRaise('IndexError', 'index into an empty dimension')
    vel = I.elems(v); vsh = cshape(v.dims); vst = strides(vsh)
    ael = [bcast(I, x, bd) for x in advs]
    out = []
    bsh = cshape(bd)
    masks = [b.mask for b in bd if isinstance(b, Axis)]
    for ix in indices(cshape(rdims)):
        bi = ix[at:at + len(bd)]
        ki = ix[:at] + ix[at + len(bd):]
        bp = sum(x * s for x, s in zip(bi, strides(bsh)))
        off = sum(k * vst[i] for k, i in zip(ki, keep))
        # choose over advanced dims
        def rec(q, off):
            if q == len(advpos): return vel[off]
            i = advpos[q]; dim = v.dims[i]; idn = ael[q][bp]
            if isinstance(dim, int):
                ch = [rec(q + 1, off + j * vst[i]) for j in range(dim)]
                return select_const(I, ch, idn)
            return gather_axis(I, rec(q + 1, off), idn, dim)
        r = rec(0, off)
        for m in masks: r = dd.restrict(r, m)
        out.append(r)
    return mkarr(I, rdims, out, I.adt(a))

def strip1(I, v, nd):
    """assignment drops leading dimensions of length one that the target does not have"""
    k = 0
    while len(v.dims) - k > nd and v.dims[k] == 1 and isinstance(v.dims[k], int): k += 1
    return v if not k else I.new_arr(v.dims[k:], I.elems(v), I.adt(v))

def set_all(I, a, val):
    v = toarr(I, val)
    v = strip1(I, v, len(a.dims))
    rd = bdims(I, [a.dims, v.dims])
    if len(rd) != len(a.dims) or any(dim_eq(I, x, y) is False for x, y in zip(rd, a.dims)):
        raise AbsRaise('ValueError', 'could not broadcast input array into shape', kind='misalign')
    el = bcast(I, v, a.dims)
    write(I, a, el)

def write(I, a, el):
    """store el through view a, masked by its axes if it is a sub-axis view"""
    dt = I.adt(a)
    el = [I.cast(x, dt) for x in el]
    if getattr(a, 'ro', False):
        m = dd.TRUE
        for d in a.dims:
            if isinstance(d, Axis): m = dd.and_(m, d.mask)
        el = [dd.ite(m, x, o) for x, o in zip(el, I.elems(a))]
    I.write(a, el)

def setitem(I, a, key, val):
    key = norm_key(I, a, key)
    fork_masks(I, a, key, lambda k: setitem2(I, a, k, val))

def setitem2(I, a, key, val):
    v = toarr(I, val)
    # full-mask assignment of a value constant along the masked dims
    masks = [c for c in key if c[0] == 'mask']
    if len(masks) == 1 and all(c[0] in ('mask', 'slice') and (c[0] == 'mask' or (c[1].a is None and c[1].b is None and c[1].s is None)) for c in key):
        m = masks[0][1]
        ki = key.index(masks[0])
        mnd = len(m.dims)
        for k in range(mnd):
            e = dim_eq(I, m.dims[k], a.dims[ki + k])
            if e is None: raise Undecided('mask length')
            if not e:
                if isinstance(m.dims[k], int) and isinstance(a.dims[ki + k], int): raise AbsRaise('IndexError', 'boolean index did not match')
                mismatch(I, m.dims[k], a.dims[ki + k], 'mask and array')
        tail = len(a.dims) - ki - mnd
        v = strip1(I, v, len(a.dims) - mnd + 1)
        # value's dim corresponding to the mask
        vd = v.dims
        vk = len(vd) - 1 - tail
        if all(x == 1 for x in (vd[vk:vk + 1] if vk >= 0 else ())):
            mel = bcast(I, m, a.dims[ki:ki + mnd])
            # v broadcast over result dims with mask dim of size 1
            rd = list(a.dims[:ki]) + [1] + list(a.dims[ki + mnd:])
            bd = bdims(I, [rd, vd])
            if len(bd) > len(rd) or any(dim_eq(I, x, y) is False for x, y in zip(bd, rd)): raise AbsRaise('ValueError', 'could not broadcast input array', kind='misalign')
            vel = bcast(I, v, rd)
            old = I.elems(a); new = []
            ash = cshape(a.dims); msh = ash[ki:ki + mnd]
            rst = strides(cshape(rd)); dt = I.adt(a)
            for p, ix in enumerate(indices(ash)):
                mp = sum(x * s for x, s in zip(ix[ki:ki + mnd], strides(msh)))
                rix = ix[:ki] + (0,) + ix[ki + mnd:]
                rp = sum(x * s for x, s in zip(rix, rst))
                new.append(dd.ite(mel[mp], I.cast(vel[rp], dt), old[p]))
            write(I, a, new)
            return
    key = expand_masks(I, a, key)
    d = 0; anyadv = False
    for c in key:
        if c[0] == 'adv': anyadv = True
        elif c[0] == 'int' and is_sym_int(I, c, a.dims[d]): anyadv = True
        if c[0] != 'new': d += 1
    if not anyadv:
        vw = view_basic(I, a, key)
        set_all(I, vw, v)
        return
    base, k2, d = [], [], 0
    hasarr = any(c[0] == 'adv' for c in key)
    for c in key:
        if c[0] == 'int':
            if is_sym_int(I, c, a.dims[d]) or hasarr:
                base.append(('adv', I.new_arr((), [c[1]], 'i'))); k2.append(('slice', SliceV(None, None, None)))
            else: k2.append(c)
        elif c[0] == 'adv': base.append(c); k2.append(('slice', SliceV(None, None, None)))
        else: base.append(('keep',)); k2.append(c)
        if c[0] != 'new': d += 1
    vw = view_basic(I, a, k2)
    advpos = [i for i, b in enumerate(base) if b[0] == 'adv']
    advs = [base[i][1] for i in advpos]
    bd = bdims(I, [x.dims for x in advs])
    contiguous = all(advpos[i + 1] == advpos[i] + 1 for i in range(len(advpos) - 1))
    keep = [i for i in range(len(base)) if base[i][0] == 'keep']
    at = len([i for i in keep if i < advpos[0]]) if contiguous else 0
    kd = [vw.dims[i] for i in keep]
    rdims = kd[:at] + list(bd) + kd[at:]
    vd = v.dims
    while len(vd) > len(rdims) and vd[0] == 1: vd = vd[1:]
    v = Arr(v.oid, vd, v.pos)
    nb = bdims(I, [rdims, vd])
    if len(nb) != len(rdims) or any(dim_eq(I, x, y) is False for x, y in zip(nb, rdims)): raise AbsRaise('ValueError', 'shape mismatch in indexed assignment', kind='misalign')
    vel = bcast(I, v, rdims)
    rsh = cshape(rdims); rst = strides(rsh); bsh = cshape(bd); bst = strides(bsh)
    ael = [bcast(I, x, bd) for x in advs]
    old = I.elems(vw); new = list(old)
    vsh = cshape(vw.dims); vst = strides(vsh); dt = I.adt(a)
    baxes = [b for b in bd if isinstance(b, Axis)]
    axadv = [q for q, i in enumerate(advpos) if isinstance(vw.dims[i], Axis)]
    if len(baxes) > 1: raise Undecided('scatter over several ray axes')
    if baxes and not axadv:
        if not I.generic: raise Undecided('per-ray scatter into a sized array')
    # flat parts of the writing axis
    if baxes: parts = flat_idx(baxes[0])
    elif I.generic: parts = [(None, I.generic[-1].base, I.generic[-1].mask)]
    else: parts = [(None, None, dd.TRUE)]
    for j, pb, pm in parts:
        def pv(node, axis=baxes[0] if baxes else None, j=j):
            return node if j is None or axis is None else part_val(node, axis.base, j)
        for bix in indices(bsh):
            bp = sum(x * s for x, s in zip(bix, bst))
            # enumerate target offsets with conditions
            targets = [(0, dd.TRUE)]
            for q, i in enumerate(advpos):
                dim = vw.dims[i]; idn = pv(ael[q][bp])
                if isinstance(dim, int):
                    idn = dd.restrict(idn, dd.and_(I.pc, pm))
                    nt = []
                    for jx in range(dim):
                        c = index_is(I, idn, jx, dim)
                        if c is dd.FALSE: continue
                        nt += [(o + jx * vst[i], dd.and_(cc, c)) for o, cc in targets]
                    targets = nt
                else:
                    res, rest = pos_cond(I, idn, dim)
                    rest2 = dd.and_(rest, dd.and_(I.pc, pm))
                    if rest2 is not dd.FALSE and dd.sat(rest2) is not None:
                        if pb is not None and not dim.base.parts and dim.mask is dd.TRUE and pb is not dim.base and len(advpos) == 1 and len(bsh) == 1 and not keep \
                            and rest is dd.TRUE and not res and idn.var == dd.LEAF and idn.val.const is None and not idn.val.imp and n.atoms.get(idn.val.fp, ('',))[0] != 'pos' and idn.val.deps <= frozenset([pb.id]):
                            val = I.cast(pv(vel[0]), dt)
                            if val.var == dd.LEAF and not getattr(val.val, 'deps', ()):
                                # the same value wherever some element of the writing index space points
                                new[0] = dd.ite(dd.exists(pb, dd.and_(pm, dd.eq(dim.pos(), idn))), val, new[0])
                                targets = []; break
                        scatter_bad(I, vw, new, idn, dim); targets = []; break
                    nt = []
                    for c, pcnd, b, m in res:
                        if pb is not b:
                            rec = I.get(vw.oid)
                            wr = I.cast(pv(vel[0]), dt)
                            if rec.tag and any(wr is not x for x in new): I.anoms.append((dd.and_(I.pc, dd.and_(pm, dd.and_(c, pcnd))), 'write', 'modifies %s in place' % rec.tag, I.loc))
                            raise Undecided('scatter through a many-to-one index')
                        nt += [(o, dd.and_(cc, dd.and_(pcnd, c))) for o, cc in targets]
                    targets = nt
            for kix in indices(tuple(rsh[:at]) + tuple(rsh[at + len(bd):])):
                rix = kix[:at] + bix + kix[at:]
                rp = sum(x * s for x, s in zip(rix, rst))
                val = I.cast(pv(vel[rp]), dt)
                ko = sum(k * vst[i] for k, i in zip(kix, keep))
                for o, c in targets:
                    new[o + ko] = dd.ite(dd.and_(c, pm) if pb is not None else c, val, new[o + ko])
    write(I, vw, new)

def scatter_bad(I, vw, new, idn, dim):
    """assignment through an index of another space: garbles the array"""
    lv = [l.val for l in dd.leaves(idn)]
    if all(isinstance(x, n.Num) and (x.const is not None) for x in lv): raise Undecided('assignment at a fixed ray position')
    imp = any(getattr(x, 'imp', False) for x in lv)
    for i in range(len(new)):
        if isinstance(new[i].val, bool) if new[i].var == dd.LEAF else False:
            new[i] = dd.bfresh('garbled by misindexed assignment', imp=imp, deps=frozenset([dim.base.id]))
        else: new[i] = dd.leaf(n.fresh('garbled by misindexed assignment', imp=imp, deps=frozenset([dim.base.id])))

def index_is(I, idn, j, size):
    def f(x):
        x = dd.asnum(x)
        if x.kind: return dd.FALSE
        if x.const is not None:
            i = int(x.const)
            if not -size <= i < size: raise AbsRaise('IndexError', 'index out of bounds')
            return dd.TRUE if i % size == j else dd.FALSE
        return dd._eq_leaf(x, n.const(j))
    return dd.apply1(('ixis', j, size), f, idn)

# ---- nonzero -----------------------------------------------------------------
def nonzero(I, m):
    """tuple of index arrays"""
    m = toarr(I, m)
    el = [dd.truth(x) if I.adt(m) != 'b' else x for x in I.elems(m)]
    if len(m.dims) == 0: raise Undecided('nonzero of scalar')
    if len(m.dims) == 1:
        d = m.dims[0]
        if isinstance(d, Axis):
            sub = d.sub(el[0])
            return (I.new_arr((sub,), [dd.restrict(d.pos(), el[0])], 'i'),)
        el = [dd.restrict(e, I.pc) for e in el]
        if all_const(el):
            return (I.new_arr((len([e for e in el if e is dd.TRUE]),), [dd.c(i) for i, e in enumerate(el) if e is dd.TRUE], 'i'),)
        el = [I.simplify(e) for e in el]
        if all_const(el):
            return (I.new_arr((len([e for e in el if e is dd.TRUE]),), [dd.c(i) for i, e in enumerate(el) if e is dd.TRUE], 'i'),)
        raise Undecided('nonzero of a symbolic mask over a sized dimension')
    sy = [k for k, d in enumerate(m.dims) if isinstance(d, Axis)]
    if not sy:
        el = [I.simplify(e) for e in el]
        if not all_const(el): raise Undecided('nonzero of a symbolic mask')
        hit = [ix for ix, e in zip(indices(m.dims), el) if e is dd.TRUE]
        return tuple(I.new_arr((len(hit),), [dd.c(h[k]) for h in hit], 'i') for k in range(len(m.dims)))
    if len(sy) > 1: raise Undecided('nonzero over pairs of rays')
    k = sy[0]; ax = m.dims[k]
    if k == len(m.dims) - 1:
        ixs = list(indices(cshape(m.dims)))
        pieces = []
        for ix, e in zip(ixs, el):
            if e is dd.FALSE: continue
            pieces.append((ax.sub(e), [dd.restrict(ax.pos(), e) if q == k else dd.c(ix[q]) for q in range(len(m.dims))]))
        axis, nodes = cat(I, pieces, len(m.dims))
        if axis is None: return tuple(I.new_arr((0,), [], 'i') for _ in m.dims)
        return tuple(I.new_arr((axis,), [x], 'i') for x in nodes)
    if k == 0:
        # at most one true per ray: one entry per ray
        tot, multi = dd.FALSE, dd.FALSE
        for e in el:
            multi = dd.or_(multi, dd.and_(tot, e)); tot = dd.or_(tot, e)
        care = dd.and_(I.pc, ax.care)
        mu = dd.and_(multi, care)
        if mu is not dd.FALSE and dd.sat(mu) is not None: raise Undecided('several entries per ray')
        sub = ax.sub(tot)
        out = [I.new_arr((sub,), [dd.restrict(ax.pos(), tot)], 'i')]
        ixs = list(indices(cshape(m.dims)))
        for q in range(1, len(m.dims)):
            r = dd.c(ixs[-1][q])
            for ix, e in reversed(list(zip(ixs, el))[:-1]): r = dd.ite(e, dd.c(ix[q]), r)
            out.append(I.new_arr((sub,), [dd.restrict(r, tot)], 'i'))
        return tuple(out)
    raise Undecided('nonzero layout')

def cat(I, pieces, cnt):
    """pieces: [(axis, [nodes])] -> (axis, [nodes]) over the concatenation"""
    flat = []
    for ax, nodes in pieces:
        for j, b, m in flat_idx(ax):
            if m is dd.FALSE: continue
            flat.append((Axis(b, m), [x if j is None else part_val(x, ax.base, j) for x in nodes]))
    axis, parts = concat_axis([a for a, _ in flat])
    if axis is None: return None, None
    if len(flat) == 1: return axis, flat[0][1]
    out = []
    for q in range(cnt):
        r = flat[-1][1][q]
        for i in range(len(flat) - 2, -1, -1): r = dd.ite(axis.base.part_cond[i], flat[i][1][q], r)
        out.append(r)
    return axis, out

# ---- arithmetic --------------------------------------------------------------
def map2(I, f, a, b, dt=None):
    A, B = toarr(I, a), toarr(I, b)
    dims = bdims(I, [A.dims, B.dims])
    x, y = bcast(I, A, dims), bcast(I, B, dims)
    return mkarr(I, dims, [f(p, q) for p, q in zip(x, y)], dt or dt_join(I.adt(A), I.adt(B)))

def map1(I, f, a, dt=None):
    A = toarr(I, a)
    return mkarr(I, A.dims, [f(p) for p in I.elems(A)], dt or I.adt(A))

def fl(dt): return 'f32' if dt == 'f32' else 'f'

def pow_node(x, y):
    y = dd.tonum(y)
    if y.var == dd.LEAF and y.val.const is not None:
        k = y.val.const
        if k.denominator == 1 and abs(k) <= 8: return dd.powi(dd.tonum(x), int(k))
        if k.denominator == 2 and abs(k) <= 4:
            r = dd.sqrt(dd.tonum(x))
            r = dd.powi(r, abs(k.numerator))
            return r if k > 0 else dd.div(dd.c(1), r)
    return dd.opaque('pow', dd.tonum(x), y)

def _int_leaf(fn, name):
    def f(x):
        x = dd.asnum(x)
        if x.kind: return dd.leaf(x)
        if x.const is not None: return dd.c(fn(x.const))
        if x.isint: return dd.leaf(x)
        import math
        if name == 'ceil' and 0 < x.lo < 1e15: return dd.leaf(n.opaque(name, [x], isint=True, lo=float(math.ceil(x.lo * (1 - 1e-9))), hi=math.ceil(x.hi) if abs(x.hi) < 1e15 else x.hi))
        return dd.leaf(n.opaque(name, [x], isint=True, lo=math.floor(x.lo) if abs(x.lo) < 1e15 else x.lo, hi=math.ceil(x.hi) if abs(x.hi) < 1e15 else x.hi))
    return lambda nd: dd.apply1(name, f, dd.tonum(nd))
import math as _m
floor_ = _int_leaf(lambda c: _m.floor(c), 'floor')
ceil_ = _int_leaf(lambda c: _m.ceil(c), 'ceil')
rint_ = _int_leaf(lambda c: round(c), 'rint')
trunc_ = _int_leaf(lambda c: int(c), 'trunc')

def mod_node(x, y):
    def f(p, q):
        p, q = dd.asnum(p), dd.asnum(q)
        if p.const is not None and q.const is not None and q.const != 0:
            return dd.c(p.const - q.const * _m.floor(p.const / q.const))
        return dd.leaf(n.opaque('mod', [p, q]))
    return dd.apply2('mod', f, x, y)

def binop(I, op, a, b):
    if not (isnumeric(I, a) or isinstance(a, (ListRef, tuple))) or not (isnumeric(I, b) or isinstance(b, (ListRef, tuple))):
        if isinstance(a, (str, DictRef, FuncVal, BoundM, ClassVal)) or isinstance(b, (str, DictRef, FuncVal, BoundM, ClassVal)): raise AbsRaise('TypeError', 'unsupported operand types')
        raise Undecided('operation on %r, %r' % (a, b))
    if isinstance(op, ast.MatMult): return dot(I, toarr(I, a), toarr(I, b))
    if isinstance(a, (ListRef, tuple)) and not isinstance(b, Arr) or isinstance(b, (ListRef, tuple)) and not isinstance(a, Arr):
        s = I.scalar(b if isinstance(a, (ListRef, tuple)) else a)
        # numpy scalars broadcast over lists; python floats do not -- not distinguished
        if s is None: raise AbsRaise('TypeError', 'unsupported operand types')
    A, B = toarr(I, a), toarr(I, b)
    da, db = I.adt(A), I.adt(B)
    j = dt_join(da, db)
    if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
        if j == 'b':
            f = {ast.BitAnd: dd.and_, ast.BitOr: dd.or_, ast.BitXor: dd.xor_}[type(op)]
            return map2(I, f, A, B, 'b')
        if j in ('f', 'f32'): raise AbsRaise('TypeError', 'bitwise operation on floats')
        raise Undecided('bitwise operation on integers')
    num = lambda f: (lambda x, y: f(dd.tonum(x), dd.tonum(y)))
    if isinstance(op, ast.Add):
        if j == 'b': return map2(I, dd.or_, A, B, 'b') if isinstance(a, Arr) or isinstance(b, Arr) else map2(I, num(dd.add), A, B, 'i')
        return map2(I, num(dd.add), A, B, j)
    if isinstance(op, ast.Sub):
        if j == 'b' and (isinstance(a, Arr) or isinstance(b, Arr)): raise AbsRaise('TypeError', 'numpy boolean subtract')
        return map2(I, num(dd.sub), A, B, j if j != 'b' else 'i')
    if isinstance(op, ast.Mult):
        if j == 'b' and (isinstance(a, Arr) or isinstance(b, Arr)): return map2(I, dd.and_, A, B, 'b')
        # boolean masks times numbers keep gates
        return map2(I, num(dd.mul), A, B, j if j != 'b' else 'i')
    if isinstance(op, ast.Div):
        if not isinstance(a, Arr) and not isinstance(b, Arr): chk_zero(I, I.elems(B)[0])
        return map2(I, num(dd.div), A, B, fl(j))
    if isinstance(op, ast.FloorDiv):
        return map2(I, lambda x, y: floor_(dd.div(dd.tonum(x), dd.tonum(y))), A, B, j if j != 'b' else 'i')
    if isinstance(op, ast.Mod): return map2(I, lambda x, y: mod_node(dd.tonum(x), dd.tonum(y)), A, B, j if j != 'b' else 'i')
    if isinstance(op, ast.Pow): return map2(I, pow_node, A, B, j if j != 'b' else 'i')
    raise Undecided('operator %s' % type(op).__name__)

def chk_zero(I, node): pass

CMP = {ast.Lt: dd.lt, ast.LtE: dd.le, ast.Gt: dd.gt, ast.GtE: dd.ge, ast.Eq: dd.eq, ast.NotEq: dd.ne}
def compare(I, op, a, b):
    if a is None or b is None or isinstance(a, (str, ObjRef, ClassVal)) or isinstance(b, (str, ObjRef, ClassVal)):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            arr = a if isinstance(a, Arr) else b if isinstance(b, Arr) else None
            if arr is not None and len(arr.dims):
                # elementwise comparison with a non-number: array of False
                return I.new_arr(arr.dims, [dd.FALSE if isinstance(op, ast.Eq) else dd.TRUE for _ in arr.pos], 'b')
            return isinstance(op, ast.NotEq)
        raise AbsRaise('TypeError', 'ordering of non-numbers')
    f = CMP[type(op)]
    def g(x, y):
        bx = all(isinstance(l.val, bool) for l in dd.leaves(x)); by = all(isinstance(l.val, bool) for l in dd.leaves(y))
        if bx and by and f in (dd.eq, dd.ne):
            r = dd.xor_(x, y)
            return r if f is dd.ne else dd.not_(r)
        return f(dd.tonum(x), dd.tonum(y))
    r = map2(I, g, a, b, 'b')
    if isinstance(r, Sc) and r.node.var == dd.LEAF: return I.boolv(r.node)
    return r

def unary(I, op, v):
    if isinstance(v, Top): return v
    if not isnumeric(I, v): raise AbsRaise('TypeError', 'bad operand type for unary operator')
    s = I.scalar(v)
    if isinstance(op, ast.USub):
        if isinstance(v, Arr) and I.adt(v) == 'b': raise AbsRaise('TypeError', 'negative of a boolean array')
        return map1(I, lambda x: dd.neg(dd.tonum(x)), v, (I.adt(v) if isinstance(v, Arr) else ('i' if s.dt == 'b' else s.dt)))
    if isinstance(op, ast.UAdd): return v
    if isinstance(op, ast.Invert):
        dt = I.adt(v) if isinstance(v, Arr) else s.dt
        if dt == 'b':
            if v is True or v is False: raise Undecided('~ of python bool')
            return map1(I, dd.not_, v, 'b')
        if dt in ('f', 'f32'): raise AbsRaise('TypeError', 'bitwise invert of floats')
        return map1(I, lambda x: dd.sub(dd.c(-1), dd.tonum(x)), v, 'i')
    raise Undecided('unary')

def _arctan2_leaf(y, x):
    y, x = dd.asnum(y), dd.asnum(x)
    if y.kind or x.kind: return dd.leaf(n.opaque('arctan2', [y, x], imp=True))
    pi = n.pi_()
    if y.const == 0 and x.const is not None: return dd.c(0) if x.const >= 0 else dd.leaf(pi)
    if x.const == 0 and y.const is not None and y.const != 0: return dd.leaf(n.mul(pi, n.const(Fraction(1 if y.const > 0 else -1, 2))))
    a = n.opaque('arctan2', [y, x], lo=-_m.pi, hi=_m.pi)
    r2 = n.add(n.mul(x, x), n.mul(y, y))
    r = n.sqrt(r2)
    if r.const != 0 and a.fp not in n._trig: n.set_trig(a, n.div(y, r), n.div(x, r))
    return dd.leaf(a)

def _arccos_leaf(x):
    x = dd.asnum(x)
    if x.kind: return dd.leaf(n.nan())
    if x.const is not None:
        if abs(x.const) > 1: return dd.leaf(n.nan())
        t = {Fraction(1): Fraction(0), Fraction(0): Fraction(1, 2), Fraction(-1): Fraction(1), Fraction(1, 2): Fraction(1, 3), Fraction(-1, 2): Fraction(2, 3)}.get(x.const)
        if t is not None: return dd.leaf(n.mul(n.pi_(), n.const(t)))
    for fp, (s, c) in list(n._trig.items()):
        k = n._tab.get((0, fp, False))
        if k is not None and c.fp == x.fp and k.lo >= 0 and k.hi <= 3.2: return dd.leaf(k)
    a = n.opaque('arccos', [x], lo=0.0, hi=_m.pi)
    if a.fp not in n._trig: n.set_trig(a, n.sqrt(n.sub(n.const(1), n.mul(x, x))), x)
    return dd.leaf(a)

def _arcsin_leaf(x):
    x = dd.asnum(x)
    if x.kind: return dd.leaf(n.nan())
    if x.const is not None:
        if abs(x.const) > 1: return dd.leaf(n.nan())
        t = {Fraction(1): Fraction(1, 2), Fraction(0): Fraction(0), Fraction(-1): Fraction(-1, 2), Fraction(1, 2): Fraction(1, 6), Fraction(-1, 2): Fraction(-1, 6)}.get(x.const)
        if t is not None: return dd.leaf(n.mul(n.pi_(), n.const(t)))
    a = n.opaque('arcsin', [x], lo=-_m.pi / 2, hi=_m.pi / 2)
    if a.fp not in n._trig: n.set_trig(a, x, n.sqrt(n.sub(n.const(1), n.mul(x, x))))
    return dd.leaf(a)

def _arctan_leaf(x):
    x = dd.asnum(x)
    if x.kind: return dd.leaf(n.opaque('arctan', [x], imp=True))
    if x.const == 0: return dd.c(0)
    a = n.opaque('arctan', [x], lo=-_m.pi / 2, hi=_m.pi / 2)
    h = n.sqrt(n.add(n.const(1), n.mul(x, x)))
    if a.fp not in n._trig: n.set_trig(a, n.div(x, h), n.div(n.const(1), h))
    return dd.leaf(a)

def opq(name, **kw): return lambda x: dd.opaque(name, dd.tonum(x), **kw)
def sign_node(x):
    x = dd.tonum(x); z = dd.c(0)
    return dd.ite(dd.lt(x, z), dd.c(-1), dd.ite(dd.gt(x, z), dd.c(1), z))

U1 = {
    'abs': (lambda x: dd.abs_(dd.tonum(x)), None), 'absolute': (lambda x: dd.abs_(dd.tonum(x)), None), 'fabs': (lambda x: dd.abs_(dd.tonum(x)), 'f'),
    'sqrt': (lambda x: dd.sqrt(dd.tonum(x)), 'f'), 'sin': (lambda x: dd.sin(dd.tonum(x)), 'f'), 'cos': (lambda x: dd.cos(dd.tonum(x)), 'f'),
    'tan': (lambda x: dd.div(dd.sin(dd.tonum(x)), dd.cos(dd.tonum(x))), 'f'),
    'arccos': (lambda x: dd.apply1('arccos', _arccos_leaf, dd.tonum(x)), 'f'), 'arcsin': (lambda x: dd.apply1('arcsin', _arcsin_leaf, dd.tonum(x)), 'f'),
    'arctan': (lambda x: dd.apply1('arctan', _arctan_leaf, dd.tonum(x)), 'f'),
    'exp': (opq('exp', lo=0.0), 'f'), 'log': (opq('log'), 'f'), 'log10': (opq('log10'), 'f'), 'log2': (opq('log2'), 'f'),
    'sinh': (opq('sinh'), 'f'), 'cosh': (opq('cosh'), 'f'), 'tanh': (opq('tanh'), 'f'), 'cbrt': (opq('cbrt'), 'f'),
    'floor': (floor_, 'f'), 'ceil': (ceil_, 'f'), 'rint': (rint_, 'f'), 'trunc': (trunc_, 'f'), 'fix': (trunc_, 'f'),
    'isinf': (lambda x: dd.isinf(dd.tonum(x)), 'b'), 'isnan': (lambda x: dd.isnan(dd.tonum(x)), 'b'),
    'isfinite': (lambda x: dd.not_(dd.or_(dd.isinf(dd.tonum(x)), dd.isnan(dd.tonum(x)))), 'b'),
    'logical_not': (lambda x: dd.not_(dd.truth(x)), 'b'), 'negative': (lambda x: dd.neg(dd.tonum(x)), None),
    'square': (lambda x: dd.mul(dd.tonum(x), dd.tonum(x)), None), 'sign': (sign_node, None),
    'deg2rad': (lambda x: dd.mul(dd.tonum(x), dd.div(dd.leaf(n.pi_()), dd.c(180))), 'f'), 'radians': (lambda x: dd.mul(dd.tonum(x), dd.div(dd.leaf(n.pi_()), dd.c(180))), 'f'),
    'rad2deg': (lambda x: dd.mul(dd.tonum(x), dd.div(dd.c(180), dd.leaf(n.pi_()))), 'f'), 'degrees': (lambda x: dd.mul(dd.tonum(x), dd.div(dd.c(180), dd.leaf(n.pi_()))), 'f'),
    'reciprocal': (lambda x: dd.div(dd.c(1), dd.tonum(x)), 'f'), 'conj': (lambda x: x, None), 'real': (lambda x: x, None),
    'positive': (lambda x: x, None), 'signbit': (lambda x: dd.lt(dd.tonum(x), dd.c(0)), 'b'),
    'isposinf': (lambda x: dd.apply1('ispinf', lambda v: dd.TRUE if dd.asnum(v).kind == 1 else dd.FALSE, x), 'b'),
}
U1['arccosine'] = U1['arccos']

def ufunc1(I, name, v, kw=None):
    f, dt = U1[name]
    if isinstance(v, Top): return v
    if name in ('abs',) and not isinstance(v, Arr) and I.scalar(v) is None and isinstance(v, ListRef): raise AbsRaise('TypeError', 'bad operand type for abs()')
    A = toarr(I, v)
    d = I.adt(A)
    r = map1(I, f, A, dt or (d if d != 'b' else 'i'))
    if kw and kw.get('out') is not None: set_all(I, kw['out'], r); return kw['out']
    return r

def U2f():
    t = dd.tonum
    num = lambda f: (lambda x, y: f(t(x), t(y)))
    return {
    'add': ast.Add(), 'subtract': ast.Sub(), 'multiply': ast.Mult(), 'divide': ast.Div(), 'true_divide': ast.Div(), 'power': ast.Pow(),
    'floor_divide': ast.FloorDiv(), 'mod': ast.Mod(), 'remainder': ast.Mod(), 'fmod': ast.Mod(),
    'bitwise_and': ast.BitAnd(), 'bitwise_or': ast.BitOr(), 'bitwise_xor': ast.BitXor(),
    'logical_and': (lambda x, y: dd.and_(dd.truth(x), dd.truth(y)), 'b'),
    'logical_or': (lambda x, y: dd.or_(dd.truth(x), dd.truth(y)), 'b'),
    'logical_xor': (lambda x, y: dd.xor_(dd.truth(x), dd.truth(y)), 'b'),
    'maximum': (num(lambda a, b: dd.max_(a, b)), None), 'minimum': (num(lambda a, b: dd.min_(a, b)), None),
    'fmax': (num(nan_aware(dd.max_)), None), 'fmin': (num(nan_aware(dd.min_)), None),
    'arctan2': (num(lambda a, b: dd.apply2('arctan2', _arctan2_leaf, a, b)), 'f'),
    'hypot': (num(lambda a, b: dd.sqrt(dd.add(dd.mul(a, a), dd.mul(b, b)))), 'f'),
    'equal': ast.Eq(), 'not_equal': ast.NotEq(), 'less': ast.Lt(), 'less_equal': ast.LtE(), 'greater': ast.Gt(), 'greater_equal': ast.GtE(),
    'copysign': (num(lambda a, b: dd.ite(dd.lt(b, dd.c(0)), dd.neg(dd.abs_(a)), dd.abs_(a))), 'f'),
    }
def nan_aware(f):
    return lambda a, b: dd.ite(dd.isnan(a), b, dd.ite(dd.isnan(b), a, f(a, b)))
U2 = U2f()

def ufunc2(I, name, a, b, kw=None):
    s = U2[name]
    if isinstance(a, Top) or isinstance(b, Top): return Top(name)
    if isinstance(s, ast.AST):
        if isinstance(s, ast.cmpop): r = compare(I, s, toarr(I, a), toarr(I, b))
        else: r = binop(I, s, toarr(I, a), toarr(I, b))
    else:
        A, B = toarr(I, a), toarr(I, b)
        d = dt_join(I.adt(A), I.adt(B))
        r = map2(I, s[0], A, B, s[1] or (d if d != 'b' else 'i'))
    if kw and kw.get('out') is not None: set_all(I, kw['out'], r); return kw['out']
    return r

# ---- reductions ----------------------------------------------------------------
def axes_arg(I, a, axis):
    nd = len(a.dims)
    if axis is None: return list(range(nd))
    axis = I.resolve(axis)
    if isinstance(axis, (tuple, ListRef)): ks = [I.as_int(x) for _, x in I.iterate(axis)]
    else: ks = [I.as_int(axis)]
    if any(k is None for k in ks): raise Undecided('axis')
    for k in ks:
        if not -nd <= k < nd: raise AbsRaise('AxisError', 'axis %d out of bounds' % k)
    return [k % nd for k in ks]

def groups(a, ks):
    """for each result index: list of element positions"""
    sh = cshape(a.dims); st = strides(sh)
    keep = [k for k in range(len(a.dims)) if k not in ks]
    out = []
    for kix in indices([sh[k] for k in keep]):
        g = []
        for rix in indices([sh[k] for k in ks]):
            g.append(sum(x * st[k] for x, k in zip(kix, keep)) + sum(x * st[k] for x, k in zip(rix, ks)))
        out.append(g)
    return keep, out

def keepdims_(I, a, ks, r, kw):
    if kw and kw.get('keepdims') is True:
        dims = [1 if k in ks else d for k, d in enumerate(a.dims)]
        x = toarr(I, r)
        return I.new_arr(dims, I.elems(x), I.adt(x))
    return r

def reduce_bool(I, a, isany, axis, kw=None):
    a = toarr(I, a)
    ks = axes_arg(I, a, axis)
    keep, gs = groups(a, ks)
    el = [dd.truth(x) if I.adt(a) != 'b' else x for x in I.elems(a)]
    axs = [a.dims[k] for k in ks if isinstance(a.dims[k], Axis)]
    out = []
    for g in gs:
        r = dd.FALSE if isany else dd.TRUE
        for p in g: r = dd.or_(r, el[p]) if isany else dd.and_(r, el[p])
        for ax in axs:
            r = ax.exists(r) if isany else dd.not_(ax.exists(dd.not_(r)))
        out.append(r)
    r = mkarr(I, [a.dims[k] for k in keep], out, 'b')
    if isinstance(r, Sc): return I.boolv(r.node) if not (kw and kw.get('keepdims')) else keepdims_(I, a, ks, r, kw)
    return keepdims_(I, a, ks, r, kw)

def red_axis(I, name, node, ax):
    """reduction of a per-ray value over the whole axis"""
    bools = all(isinstance(l.val, bool) for l in dd.leaves(node))
    if name == 'sum' and bools: return ax.sub(node).len()
    node = dd.tonum(node)
    if name == 'sum' and all(l.val.const in (0, 1) and not l.val.kind for l in dd.leaves(node)): return ax.sub(dd.truth(node)).len()
    if name in ('min', 'max', 'mean') and not (node.deps & ax.base.assoc): return node
    if name == 'sum' and not (node.deps & ax.base.assoc): return dd.mul(node, ax.len())
    deps = (node.deps - ax.base.assoc) | frozenset(['X'])
    return dd.leaf(n.atom('%s:%d:%s' % (name, node.id, ax.key), deps=deps, imp=node.imp, desc=('red', name, node, ax), isint=all_int(node), lo=lo_(node) if name in ('min', 'max') else -n.INF, hi=hi_(node) if name in ('min', 'max') else n.INF, expr='%s over all rays' % name))

def reduce(I, name, a, axis, kw=None):
    a = toarr(I, a)
    ks = axes_arg(I, a, axis)
    keep, gs = groups(a, ks)
    el = I.elems(a); dt = I.adt(a)
    axs = [a.dims[k] for k in ks if isinstance(a.dims[k], Axis)]
    out = []
    cnt = prod([a.dims[k] for k in ks if isinstance(a.dims[k], int)])
    if cnt == 0 and name in ('min', 'max', 'argmin', 'argmax') and all(gs): pass
    for g in gs:
        vals = [el[p] for p in g]
        if not vals:
            if name in ('sum',): out.append(dd.c(0)); continue
            if name == 'prod': out.append(dd.c(1)); continue
            if name == 'mean': out.append(dd.leaf(n.nan())); continue
            raise AbsRaise('ValueError', 'reduction of an empty array has no identity')
        if name in ('sum', 'mean', 'nansum'):
            if name == 'nansum': vals = [dd.ite(dd.isnan(dd.tonum(x)), dd.c(0), dd.tonum(x)) for x in vals]
            if axs and len(vals) == 1 and name == 'sum': r = vals[0]
            else:
                r = dd.tonum(vals[0])
                for x in vals[1:]: r = dd.add(r, dd.tonum(x))
            for ax in axs: r = red_axis(I, 'sum', r, ax)
            if name == 'mean':
                r = dd.div(dd.tonum(r), dd.c(cnt))
                for ax in axs: r = dd.div(r, ax.len())
        elif name == 'prod':
            r = dd.tonum(vals[0])
            for x in vals[1:]: r = dd.mul(r, dd.tonum(x))
            for ax in axs: r = red_axis(I, 'prod', r, ax)
        elif name in ('min', 'max', 'nanmin', 'nanmax'):
            f = dd.min_ if 'min' in name else dd.max_
            if name.startswith('nan'): f = nan_aware(f)
            r = dd.tonum(vals[0])
            for x in vals[1:]: r = f(r, dd.tonum(x))
            for ax in axs: r = red_axis(I, name[-3:], r, ax)
        elif name in ('argmin', 'argmax', 'nanargmin'):
            if axs: raise Undecided('arg-reduction over rays')
            best, r = dd.tonum(vals[0]), dd.c(0)
            if dt == 'b' and name == 'argmax':
                r = dd.c(0)
                for i in range(len(vals) - 1, -1, -1): r = dd.ite(vals[i], dd.c(i), r)
            else:
                for i, x in enumerate(vals[1:], 1):
                    x = dd.tonum(x)
                    c = dd.lt(x, best) if 'min' in name else dd.gt(x, best)
                    if name == 'nanargmin': c = dd.or_(c, dd.isnan(best))
                    r = dd.ite(c, dd.c(i), r); best = dd.ite(c, x, best)
        elif name in ('std', 'var'):
            raise Undecided('std')
        else: raise Undecided('reduction ' + name)
        out.append(r)
    rdt = dt
    if name in ('sum', 'prod', 'argmin', 'argmax', 'nanargmin') and dt == 'b': rdt = 'i'
    if name in ('argmin', 'argmax', 'nanargmin'): rdt = 'i'
    if name == 'mean': rdt = 'f'
    if kw and kw.get('dtype') is not None: rdt = parse_dt(I, kw['dtype']); out = [I.cast(x, rdt) for x in out]
    r = mkarr(I, [a.dims[k] for k in keep], out, rdt)
    if isinstance(r, Sc) and not (kw and kw.get('keepdims')): return r
    return keepdims_(I, a, ks, r, kw)

def cum(I, a, axis, op=ast.Add()):
    a = toarr(I, a)
    if axis is None:
        if len(a.dims) > 1: a = ravel(I, a)
        k = 0
    else: k = axes_arg(I, a, axis)[0]
    if isinstance(a.dims[k], Axis):
        dt = I.adt(a); el = []
        for x in I.elems(a):
            el.append(dd.leaf(n.atom('cumsum:%d:%s' % (x.id, a.dims[k].key), deps=x.deps | frozenset(['X', a.dims[k].base.id]), imp=True)))
        return I.new_arr(a.dims, el, 'i' if dt == 'b' else dt)
    sh = cshape(a.dims); st = strides(sh); el = [dd.tonum(x) for x in I.elems(a)]
    for p, ix in enumerate(indices(sh)):
        if ix[k] > 0: el[p] = (dd.add if isinstance(op, ast.Add) else dd.mul)(el[p - st[k]], el[p])
    dt = I.adt(a)
    return I.new_arr(a.dims, el, 'i' if dt == 'b' else dt)

# ---- structure --------------------------------------------------------------
def transpose(I, a, perm=None):
    nd = len(a.dims)
    perm = list(perm) if perm is not None else list(range(nd))[::-1]
    sh = cshape(a.dims); st = strides(sh)
    dims = [a.dims[p] for p in perm]
    pos = [a.pos[sum(x * st[p] for x, p in zip(ix, perm))] for ix in indices(cshape(dims))]
    r = Arr(a.oid, dims, pos); r.ro = getattr(a, 'ro', False)
    return r

def prod_axis(axes):
    key = ('prodaxis',) + tuple(a.key for a in axes)
    if key not in dd._memo:
        b = Base('x'.join(a.name for a in axes))
        ln = dd.c(1)
        for a in axes:
            b.assoc = b.assoc | a.base.assoc; b.witness |= a.base.witness; b.care = dd.and_(b.care, a.care); ln = dd.mul(ln, a.len())
        b.len_node = ln; b.factors = axes
        ax = Axis(b)
        if ln.var == dd.LEAF: n.atoms.setdefault(ln.val.fp, ('len', ax))
        dd._memo[key] = ax
    return dd._memo[key]

def ravel(I, a, copy_=False):
    dims = [d for d in a.dims]
    sy = [d for d in dims if isinstance(d, Axis)]
    if not sy:
        r = Arr(a.oid, (prod(dims),), a.pos)
        return copy(I, r) if copy_ else r
    if len(a.dims) == 1: return copy(I, a) if copy_ else a
    k = next(i for i, d in enumerate(dims) if isinstance(d, Axis))
    cs = cshape(dims)
    if len(sy) == 1:
        if prod(cs) == 1:
            r = Arr(a.oid, (sy[0],), a.pos)
            return copy(I, r) if copy_ else r
        if prod(cs[k + 1:]) == 1:
            el = I.elems(a)
            axis, nodes = cat(I, [(sy[0], [x]) for x in el], 1)
            return I.new_arr((axis,), nodes, I.adt(a))
        raise Undecided('flattening interleaves rays')
    if prod(cs) == 1:
        return I.new_arr((prod_axis(sy),), I.elems(a), I.adt(a))
    raise Undecided('flattening')

def reshape(I, a, shp):
    if len(shp) == 1:
        s0 = I.resolve(shp[0])
        if isinstance(s0, (tuple, ListRef)): shp = [x for _, x in I.iterate(s0)]
    want = []
    neg = None
    for i, x in enumerate(shp):
        k = I.as_int(x)
        if k == -1: neg = i; want.append(None)
        else: want.append(dim_of(I, x))
    sy = [d for d in a.dims if isinstance(d, Axis)]
    if neg is not None:
        known = [w for w in want if w is not None]
        ksy = [w for w in known if isinstance(w, Axis)]
        cint = prod([d for d in a.dims if isinstance(d, int)])
        kint = prod([w for w in known if isinstance(w, int)])
        rest = list(sy)
        for w in ksy:
            m = [r for r in rest if dim_eq(I, r, w) is True]
            if not m: raise Undecided('reshape')
            rest.remove(m[0])
        if not rest:
            if kint == 0 or cint % kint:
                if kint == 0: raise Undecided('reshape')
                raise AbsRaise('ValueError', 'cannot reshape')
            want[neg] = cint // kint
        elif len(rest) == 1 and cint == kint: want[neg] = rest[0]
        elif len(rest) == 1 and kint and cint % kint == 0:
            # -1 merges sized dims into the ray axis
            if len(want) == 1: return ravel(I, a)
            # sized dims directly before the ray axis merge into it (C order)
            q = cint // kint
            if neg == len(want) - 1 and isinstance(a.dims[-1], Axis):
                el = I.elems(a); lead = [w for w in want[:-1]]
                outn, axis = [], None
                for i in range(prod(lead)):
                    axis, nodes = cat(I, [(a.dims[-1], [x]) for x in el[i * q:(i + 1) * q]], 1)
                    outn.append(nodes[0])
                return I.new_arr(tuple(lead) + (axis,), outn, I.adt(a))
            raise Undecided('reshape')
        else:
            if len(want) == 1: return ravel(I, a)
            raise Undecided('reshape')
    cint = prod([d for d in a.dims if isinstance(d, int)])
    wsy = [w for w in want if isinstance(w, Axis)]
    if len(wsy) != len(sy):
        if len(want) == 1 and len(sy) >= 1: 
            r = ravel(I, a)
            return r
        if len(sy) == 1 and len(wsy) > 1 and hasattr(sy[0].base, 'factors') and len(sy[0].base.factors) == len(wsy) and all(dim_eq(I, x, y) is True for x, y in zip(sy[0].base.factors, wsy)):
            return Arr(a.oid, want, a.pos)
        raise Undecided('reshape changes ray axes')
    if prod([w for w in want if isinstance(w, int)]) != cint: raise AbsRaise('ValueError', 'cannot reshape array')
    # the ray axis must keep the same sized product before it
    def before(dims):
        out = []; p = 1
        for d in dims:
            if isinstance(d, Axis): out.append((p, d)); p = 1
            else: p *= d
        return out
    b1, b2 = before(a.dims), before(want)
    for (p, x), (q, y) in zip(b1, b2):
        if p != q: raise Undecided('reshape interleaves rays')
        e = dim_eq(I, x, y)
        if e is None: raise Undecided('reshape')
        if not e: mismatch(I, x, y, 'reshape')
    want = [x for x in want]
    sym = iter(sy)
    want = [next(sym) if isinstance(w, Axis) else w for w in want]
    r = Arr(a.oid, want, a.pos); r.ro = getattr(a, 'ro', False)
    return r

def unlike(I, x, axis, promote):
    """do the alternatives differ in shape outside the concatenation axis?"""
    if isinstance(x.a, Choice) or isinstance(x.b, Choice): return True
    A, B = toarr(I, x.a), toarr(I, x.b)
    if promote: A, B = promote(I, A), promote(I, B)
    if len(A.dims) != len(B.dims): return True
    ax = axis if axis >= 0 else axis + len(A.dims)
    return any(k != ax and p is not q and p != q for k, (p, q) in enumerate(zip(A.dims, B.dims)))

def concat(I, seq, axis=0, promote=None):
    """seq: list of (guard, value)"""
    pieces = []
    seq = [(g, I.resolve(x)) for g, x in seq]
    for g, x in seq:
        if isinstance(x, Choice):
            r = try_merge(I, x)
            if r is None and unlike(I, x, axis, promote):
                k = seq.index((g, x)) if (g, x) in seq else None
                if k is None: raise Undecided('alternatives of different shape')
                return I.fork(x.c, lambda: concat(I, seq[:k] + [(g, x.a)] + seq[k + 1:], axis, promote), lambda: concat(I, seq[:k] + [(g, x.b)] + seq[k + 1:], axis, promote))
            if r is None:
                pieces += [(dd.and_(g, x.c), y) for y in [x.a]] + [(dd.and_(g, dd.not_(x.c)), x.b)]
                continue
            x = r
        pieces.append((g, x))
    ps = []
    for g, x in pieces:
        if isinstance(x, (SymItem, GenericIter)): raise Undecided('concatenation of per-ray items')
        if isinstance(x, Choice): raise Undecided('nested alternatives')
        g = dd.restrict(g, I.pc)
        if g is dd.FALSE: continue
        A = toarr(I, x)
        if promote: A = promote(I, A)
        ps.append((g, A))
    gs = dd.FALSE
    for g, _ in ps: gs = dd.or_(gs, g)
    if not ps: raise AbsRaise('ValueError', 'need at least one array to concatenate')
    if gs is not dd.TRUE and I.simplify(gs) is not dd.TRUE:
        s0 = I.st
        ng = dd.and_(s0.pc, dd.not_(gs))
        if dd.sat(ng) is not None:
            I.st = s0.fork(ng)
            I.record_raise(AbsRaise('ValueError', 'need at least one array to concatenate'))
            I.st = s0.fork(dd.and_(s0.pc, gs))
            ps = [(dd.restrict(g, I.pc), A) for g, A in ps]
    nd = len(ps[0][1].dims)
    for g, A in ps:
        if len(A.dims) != nd: raise AbsRaise('ValueError', 'all the input arrays must have same number of dimensions')
    if nd == 0: raise AbsRaise('ValueError', 'zero-dimensional arrays cannot be concatenated')
    ax = axis if axis >= 0 else axis + nd
    if not 0 <= ax < nd: raise AbsRaise('AxisError', 'axis out of bounds')
    dims = list(ps[0][1].dims)
    for g, A in ps[1:]:
        for k in range(nd):
            if k == ax: continue
            e = dim_eq(I, dims[k], A.dims[k])
            if e is None: raise Undecided('concatenate dims')
            if not e:
                if isinstance(dims[k], int) and isinstance(A.dims[k], int): raise AbsRaise('ValueError', 'array dimensions must match exactly for concatenation')
                mismatch(I, dims[k], A.dims[k], 'concatenated arrays')
            if isinstance(A.dims[k], Axis) and isinstance(dims[k], int): dims[k] = A.dims[k]
    dt = dt_join(*[I.adt(A) for g, A in ps if A.pos] or [I.adt(ps[0][1])])
    dt = dt_join(*[I.adt(A) for g, A in ps])
    ps = [(g, A) for g, A in ps if not (isinstance(A.dims[ax], int) and A.dims[ax] == 0)] or ps[:1]
    if all(isinstance(A.dims[ax], int) for g, A in ps):
        if any(g is not dd.TRUE for g, A in ps):
            if len(ps) == 1 and not isinstance(ps[0][1].dims[ax], Axis) and ps[0][1].dims[ax] == 0: pass
            else: raise Undecided('conditional concatenation of sized arrays')
        dims[ax] = sum(A.dims[ax] for g, A in ps)
        el = []
        src = [(bcast(I, A, dims[:ax] + [A.dims[ax]] + dims[ax + 1:]), cshape(dims[:ax] + [A.dims[ax]] + dims[ax + 1:])) for g, A in ps]
        for ix in indices(cshape(dims)):
            k = ix[ax]
            for e, sh in src:
                if k < sh[ax]:
                    jx = ix[:ax] + (k,) + ix[ax + 1:]
                    el.append(I.cast(e[sum(x * s for x, s in zip(jx, strides(sh)))], dt)); break
                k -= sh[ax]
        return I.new_arr(dims, el, dt)
    flat = []
    for g, A in ps:
        d = A.dims[ax]
        if isinstance(d, int):
            sh = cshape(A.dims); el0 = I.elems(A); st = strides(sh)
            for q in range(d):
                key = ('lit', I.noid, len(flat), q)
                b = Base('one element'); b.len_node = dd.c(1)
                sub = [el0[sum(x * s for x, s in zip(ix[:ax] + (q,) + ix[ax + 1:], st))] for ix in indices(sh[:ax] + (1,) + sh[ax + 1:])]
                flat.append((Axis(b).sub(g), sub))
            continue
        tgt = dims[:ax] + [d] + dims[ax + 1:]
        flat.append((d.sub(g) if g is not dd.TRUE else d, bcast(I, A, tgt)))
    cnt = len(flat[0][1])
    axis_, nodes = cat(I, flat, cnt)
    if axis_ is None:
        dims[ax] = 0
        return I.new_arr(dims, [], dt)
    dims[ax] = axis_
    chk_outer(dims)
    return I.new_arr(dims, [I.cast(x, dt) for x in nodes], dt)

def p1(I, A): return Arr(A.oid, (1,), A.pos) if len(A.dims) == 0 else A
def p2(I, A):
    if len(A.dims) == 0: return Arr(A.oid, (1, 1), A.pos)
    if len(A.dims) == 1: return Arr(A.oid, (1,) + A.dims, A.pos)
    return A
def p2c(I, A):
    if len(A.dims) == 0: return Arr(A.oid, (1, 1), A.pos)
    if len(A.dims) == 1: return Arr(A.oid, A.dims + (1,), A.pos)
    return A
def p3(I, A):
    A = p2(I, A)
    return Arr(A.oid, A.dims + (1,), A.pos) if len(A.dims) == 2 else A

def seq_items(I, v):
    if isinstance(v, Arr): return [(dd.TRUE, x) for _, x in I.iterate(v)] if isinstance(v.dims[0], int) else _und('stack over rays')
    return I.iterate(v)
def _und(m): raise Undecided(m)

def stack_rays(I, items, ax):
    """concatenation of one array per ray (list built in a per-ray loop)"""
    if len(items) == 1 and isinstance(items[0][1], (SymItem, GenericIter)):
        g, x = items[0]
        A = toarr(I, x.val if isinstance(x, SymItem) else x.item)
        axis = x.axis if g is dd.TRUE else x.axis.sub(g)
        return A, axis
    return None

def hstack(I, args, kw):
    items = seq_items(I, args[0])
    sr = stack_rays(I, items, None)
    if sr:
        A, axis = sr
        if len(A.dims) <= 1 and prod(cshape(A.dims)) == 1 and (not A.dims or A.dims[0] == 1): return I.new_arr((axis,), I.elems(A), I.adt(A))
        if len(A.dims) == 2 and A.dims[1] == 1: return I.new_arr((A.dims[0], axis), I.elems(A), I.adt(A))
        raise Undecided('hstack over rays')
    first = next((x for g, x in items), None)
    arrs = []
    nd = None
    for g, x in items:
        x = I.resolve(x)
        y = x
        while isinstance(y, Choice): y = y.a
        if nd is None and not isinstance(y, Choice): nd = max(1, len(toarr(I, y).dims))
    return concat(I, items, 0 if (nd or 1) == 1 else 1, p1)

def vstack(I, args, kw):
    items = seq_items(I, args[0])
    sr = stack_rays(I, items, None)
    if sr:
        A, axis = sr
        if len(A.dims) == 1: return I.new_arr((axis,) + A.dims, I.elems(A), I.adt(A))
        if len(A.dims) == 2 and A.dims[0] == 1: return I.new_arr((axis, A.dims[1]), I.elems(A), I.adt(A))
        raise Undecided('vstack over rays')
    return concat(I, items, 0, p2)

def concatenate(I, args, kw):
    axis = args[1] if len(args) > 1 else kw.get('axis', 0)
    items = seq_items(I, args[0])
    if any(isinstance(x, (SymItem, GenericIter)) for g, x in items): raise Undecided('concatenate over rays')
    if axis is None: return concat(I, [(g, ravel(I, toarr(I, x))) for g, x in items], 0)
    return concat(I, items, I.as_int(axis))

def stack(I, args, kw):
    axis = I.as_int(args[1] if len(args) > 1 else kw.get('axis', 0))
    items = seq_items(I, args[0])
    if any(isinstance(x, (SymItem, GenericIter)) for g, x in items):
        A = toarr(I, args[0])
        if axis == 0: return A
        if axis in (-1, len(A.dims) - 1): return copy(I, transpose(I, A, list(range(1, len(A.dims))) + [0]))
        raise Undecided('stack over rays')
    out = []
    for g, x in items:
        A = toarr(I, x)
        k = axis if axis >= 0 else axis + len(A.dims) + 1
        out.append((g, Arr(A.oid, A.dims[:k] + (1,) + A.dims[k:], A.pos)))
    return concat(I, out, axis)

def dot(I, a, b):
    if len(a.dims) == 0 or len(b.dims) == 0: return binop(I, ast.Mult(), a, b)
    ka = len(a.dims) - 1
    kb = len(b.dims) - 2 if len(b.dims) > 1 else 0
    return contract(I, a, b, [ka], [kb])

def contract(I, a, b, kas, kbs):
    for x, y in zip(kas, kbs):
        e = dim_eq(I, a.dims[x], b.dims[y])
        if e is None: raise Undecided('dot dims')
        if not e:
            if isinstance(a.dims[x], int) and isinstance(b.dims[y], int): raise AbsRaise('ValueError', 'shapes not aligned')
            mismatch(I, a.dims[x], b.dims[y], 'dot operands')
    fa = [k for k in range(len(a.dims)) if k not in kas]
    fb = [k for k in range(len(b.dims)) if k not in kbs]
    rd = [a.dims[k] for k in fa] + [b.dims[k] for k in fb]
    chk_outer(rd)
    axs = [a.dims[k] for k in kas if isinstance(a.dims[k], Axis)]
    sa, sb = cshape(a.dims), cshape(b.dims)
    ta, tb = strides(sa), strides(sb)
    ea, eb = [dd.tonum(x) for x in I.elems(a)], [dd.tonum(x) for x in I.elems(b)]
    out = []
    for ix in indices(cshape(rd)):
        oa = sum(i * ta[k] for i, k in zip(ix[:len(fa)], fa)); ob = sum(i * tb[k] for i, k in zip(ix[len(fa):], fb))
        r = dd.c(0)
        for cx in indices([sa[k] for k in kas]):
            x = ea[oa + sum(i * ta[k] for i, k in zip(cx, kas))]; y = eb[ob + sum(i * tb[k] for i, k in zip(cx, kbs))]
            r = dd.add(r, dd.mul(x, y))
        for ax in axs: r = red_axis(I, 'sum', r, ax)
        out.append(r)
    dt = dt_join(I.adt(a), I.adt(b))
    return mkarr(I, rd, out, dt if dt != 'b' else 'i')

def einsum(I, args, kw):
    spec = args[0]
    if not isinstance(spec, str): raise Undecided('einsum')
    spec = spec.replace(' ', '')
    if '.' in spec: raise Undecided('einsum ellipsis')
    ins, _, outp = spec.partition('->')
    ins = ins.split(',')
    ops = [toarr(I, x) for x in args[1:]]
    if not _:
        outp = ''.join(sorted(ch for ch in set(''.join(ins)) if ''.join(ins).count(ch) == 1))
    dim = {}
    for s, A in zip(ins, ops):
        if len(s) != len(A.dims): raise AbsRaise('ValueError', 'einsum operand dimensions')
        for ch, d in zip(s, A.dims): dim[ch] = bdim(I, dim[ch], d) if ch in dim else d
    rd = [dim[ch] for ch in outp]; chk_outer(rd)
    summ = [ch for ch in dim if ch not in outp]
    out = []
    els = []
    for s, A in zip(ins, ops):
        tgt = [dim[ch] for ch in s]
        els.append((s, [dd.tonum(x) for x in bcast(I, A, tgt)], strides(cshape(tgt))))
    axs = [dim[ch] for ch in summ if isinstance(dim[ch], Axis)]
    for ix in indices(cshape(rd)):
        env = dict(zip(outp, ix)); r = dd.c(0)
        for cx in indices(cshape([dim[ch] for ch in summ])):
            env.update(zip(summ, cx)); t = dd.c(1)
            for s, e, st in els: t = dd.mul(t, e[sum(env[ch] * q for ch, q in zip(s, st))])
            r = dd.add(r, t)
        for ax in axs: r = red_axis(I, 'sum', r, ax)
        out.append(r)
    return mkarr(I, rd, out, dt_join(*[I.adt(A) for A in ops]))

def minor_det(M, rows, cols):
    if len(rows) == 1: return M[rows[0]][cols[0]]
    r = dd.c(0)
    for k, cc in enumerate(cols):
        x = M[rows[0]][cc]
        if x.var == dd.LEAF and x.val.const == 0: continue
        t = dd.mul(x, minor_det(M, rows[1:], cols[:k] + cols[k + 1:]))
        r = dd.add(r, t) if k % 2 == 0 else dd.sub(r, t)
    return r

def sqmat(I, a):
    a = toarr(I, a)
    if len(a.dims) == 3 and isinstance(a.dims[0], Axis): return a, a.dims[1]
    if len(a.dims) != 2 or a.dims[0] != a.dims[1] or not isinstance(a.dims[0], int): raise AbsRaise('LinAlgError', 'not a square matrix')
    return a, a.dims[0]

def inv(I, a):
    a, k = sqmat(I, a)
    el = [dd.tonum(x) for x in I.elems(a)]
    M = [el[i * k:(i + 1) * k] for i in range(k)]
    if k == 4:
        # affine matrices: structured inverse keeps values small
        last = M[3]
        if all(last[j].var == dd.LEAF and last[j].val.const == (1 if j == 3 else 0) for j in range(4)):
            R = [[M[i][j] for j in range(3)] for i in range(3)]
            det = minor_det(R, [0, 1, 2], [0, 1, 2])
            Ri = [[dd.div(cof(R, j, i, 3), det) for j in range(3)] for i in range(3)]
            t = [dd.neg(sumn([dd.mul(Ri[i][j], M[j][3]) for j in range(3)])) for i in range(3)]
            out = []
            for i in range(3): out += Ri[i] + [t[i]]
            out += [dd.c(0), dd.c(0), dd.c(0), dd.c(1)]
            return I.new_arr(a.dims, out, 'f')
    r = list(range(k))
    det = minor_det(M, r, r)
    out = []
    for i in range(k):
        for j in range(k): out.append(dd.div(cof(M, j, i, k), det))
    return I.new_arr(a.dims, out, 'f')

def sumn(xs):
    r = xs[0]
    for x in xs[1:]: r = dd.add(r, x)
    return r

def cof(M, i, j, k):
    if k == 1: return dd.c(1)
    rows = [x for x in range(k) if x != i]; cols = [x for x in range(k) if x != j]
    d = minor_det(M, rows, cols)
    return d if (i + j) % 2 == 0 else dd.neg(d)

def cross(I, args, kw):
    a, b = toarr(I, args[0]), toarr(I, args[1])
    names = ['axisa', 'axisb', 'axisc', 'axis']
    vals = dict(axisa=-1, axisb=-1, axisc=-1, axis=None)
    for nm, v in zip(names, args[2:]): vals[nm] = v
    vals.update(kw)
    if vals['axis'] is not None: vals['axisa'] = vals['axisb'] = vals['axisc'] = vals['axis']
    ka, kb, kc = [I.as_int(vals[x]) for x in names[:3]]
    def mv(x, k):
        k = k % len(x.dims)
        p = [q for q in range(len(x.dims)) if q != k] + [k]
        return transpose(I, x, p)
    a, b = mv(a, ka), mv(b, kb)
    if a.dims[-1] != 3 or b.dims[-1] != 3: raise AbsRaise('ValueError', 'incompatible dimensions for cross product')
    dims = bdims(I, [a.dims, b.dims])
    x, y = [dd.tonum(v) for v in bcast(I, a, dims)], [dd.tonum(v) for v in bcast(I, b, dims)]
    out = []
    for o in range(0, len(x), 3):
        a0, a1, a2 = x[o:o + 3]; b0, b1, b2 = y[o:o + 3]
        out += [dd.sub(dd.mul(a1, b2), dd.mul(a2, b1)), dd.sub(dd.mul(a2, b0), dd.mul(a0, b2)), dd.sub(dd.mul(a0, b1), dd.mul(a1, b0))]
    r = I.new_arr(dims, out, dt_join(I.adt(a), I.adt(b)))
    kc = kc % len(dims)
    if kc != len(dims) - 1:
        p = list(range(len(dims) - 1)); p.insert(kc, len(dims) - 1)
        r = transpose(I, r, p)
    return r

def tile(I, args, kw):
    a = toarr(I, args[0])
    reps = args[1] if len(args) > 1 else kw['reps']
    reps = [x for _, x in I.iterate(reps)] if isinstance(reps, (tuple, ListRef)) else [reps]
    if isinstance(reps[0], Arr) and len(reps) == 1 and reps[0].dims: reps = [x for _, x in I.iterate(reps[0])]
    nd = max(len(reps), len(a.dims))
    dims = (1,) * (nd - len(a.dims)) + a.dims
    reps = [1] * (nd - len(reps)) + reps
    cur = Arr(a.oid, dims, a.pos)
    for k in range(nd):
        r = dim_of(I, reps[k])
        if r == 1: continue
        d = cur.dims[k]
        if r == 0:
            nd_ = list(cur.dims); nd_[k] = 0; cur = I.new_arr(nd_, [], I.adt(a)); continue
        if d == 1:
            nd_ = list(cur.dims); nd_[k] = r
            untwin(nd_); chk_outer(nd_)
            cur = I.new_arr(nd_, bcast(I, cur, nd_), I.adt(a)); continue
        if isinstance(r, int): cur = concat(I, [(dd.TRUE, cur)] * r, k); continue
        raise Undecided('tile')
    return copy(I, cur)

def repeat(I, args, kw):
    a = toarr(I, args[0]); reps = args[1] if len(args) > 1 else kw['repeats']
    axis = args[2] if len(args) > 2 else kw.get('axis')
    if axis is None: a = ravel(I, a); k = 0
    else: k = axes_arg(I, a, axis)[0]
    d = a.dims[k]
    rr = I.resolve(reps)
    sc = I.scalar(rr)
    if isinstance(rr, Arr) and len(rr.dims) == 1 and rr.dims[0] == 1: sc = Sc(I.elems(rr)[0], I.adt(rr))
    if sc is not None:
        r = dim_of(I, sc)
        if d == 1:
            nd = list(a.dims); nd[k] = r; untwin(nd); chk_outer(nd)
            return I.new_arr(nd, bcast(I, a, nd), I.adt(a))
        if r == 1: return copy(I, a)
        if isinstance(d, int) and isinstance(r, int):
            return getitem(I, a, tuple([SliceV(None, None, None)] * k + [I.new_arr((d * r,), [dd.c(i // r) for i in range(d * r)], 'i')]))
        if isinstance(d, int):
            # each element repeated per ray: concatenation of d copies of the axis
            pieces = []
            sl = [getitem(I, a, tuple([SliceV(None, None, None)] * k + [SliceV(i, i + 1, None)])) for i in range(d)]
            out = []
            for x in sl:
                nd = list(x.dims); nd[k] = r
                out.append((dd.TRUE, I.new_arr(nd, bcast(I, x, nd), I.adt(a))))
            return concat(I, out, k)
        raise Undecided('repeat of rays')
    rp = [dim_of(I, x) for _, x in I.iterate(rr)]
    if not isinstance(d, int): raise Undecided('repeat')
    if len(rp) != d: raise AbsRaise('ValueError', 'repeat counts do not match')
    if all(isinstance(x, int) for x in rp):
        idx = [i for i, q in enumerate(rp) for _ in range(q)]
        return getitem(I, a, tuple([SliceV(None, None, None)] * k + [I.new_arr((len(idx),), [dd.c(i) for i in idx], 'i')]))
    out = []
    for i in range(d):
        x = getitem(I, a, tuple([SliceV(None, None, None)] * k + [SliceV(i, i + 1, None)]))
        nd = list(x.dims); nd[k] = rp[i]
        out.append((dd.TRUE, I.new_arr(nd, bcast(I, x, nd), I.adt(a))))
    return concat(I, out, k)

def indexed(I, obj, d):
    """which elements of index space d the index array obj names"""
    m = dd.FALSE
    ob = obj.dims[0]
    for j, b, pm in flat_idx(ob):
        idn = I.elems(obj)[0]
        if j is not None: idn = part_val(idn, ob.base, j)
        res, rest = pos_cond(I, idn, d)
        rr = dd.and_(rest, dd.and_(I.pc, pm))
        if rr is not dd.FALSE and dd.sat(rr) is not None: raise Undecided('membership in an index array')
        for c, pcnd, b2, m2 in res:
            if b2 is not b: raise Undecided('membership in a many-to-one index')
            m = dd.or_(m, dd.and_(pcnd, dd.and_(c, pm)))
    return m

def in1d(I, args, kw):
    a, b = ravel(I, toarr(I, args[0])), ravel(I, toarr(I, args[1]))
    inv = kw.get('invert', args[3] if len(args) > 3 else False)
    if inv not in (True, False): raise Undecided('invert')
    d, e = a.dims[0], b.dims[0]
    ea, eb = I.elems(a), I.elems(b)
    if e == 0: m = [dd.FALSE] * len(ea)
    elif isinstance(e, int):
        m = []
        for x in ea:
            r = dd.FALSE
            for y in eb: r = dd.or_(r, dd.eq(x, y))
            m.append(r)
    elif isinstance(d, Axis) and same_num(ea[0], d.pos()) or isinstance(d, Axis) and d.base.parts and ea[0] is d.pos():
        m = [indexed(I, b, d)]
    else: raise Undecided('membership')
    return I.new_arr((d,), [dd.not_(x) if inv else x for x in m], 'b')

def setdiff1d(I, args, kw):
    a = ravel(I, toarr(I, args[0]))
    if not (isinstance(a.dims[0], Axis) and I.elems(a)[0] is a.dims[0].pos()): raise Undecided('set difference')      # sorted and unique
    m = in1d(I, [a, args[1]], {'invert': True})
    return getitem(I, a, (m,))

def put(I, args, kw):
    a, v = args[0], toarr(I, args[2])
    if not isinstance(a, Arr) or len(a.dims) != 1: raise Undecided('put')
    idx = toarr(I, args[1])
    if len(v.dims) == 1 and v.dims[0] is not idx.dims[0]:
        if dim_eq(I, v.dims[0], idx.dims[0]) is not True: raise Undecided('put repeats or drops values')
    setitem(I, a, (idx,), v)

def delete(I, args, kw):
    a = toarr(I, args[0]); obj = args[1]
    axis = args[2] if len(args) > 2 else kw.get('axis')
    if axis is None: a = ravel(I, a); k = 0
    else: k = axes_arg(I, a, axis)[0]
    d = a.dims[k]
    if isinstance(obj, (ListRef, tuple)): obj = toarr(I, obj, None)
    full = [SliceV(None, None, None)] * k
    if isinstance(obj, Arr) and len(obj.dims) == 1 and obj.dims[0] == 0: return copy(I, a)
    if isinstance(d, Axis):
        if isinstance(obj, Arr) and I.adt(obj) == 'b': m = bcast(I, obj, (d,))[0]
        elif isinstance(obj, Arr) and isinstance(obj.dims[0], Axis):
            m = dd.FALSE
            ob = obj.dims[0]
            for j, b, pm in flat_idx(ob):
                idn = I.elems(obj)[0]
                if j is not None: idn = part_val(idn, ob.base, j)
                res, rest = pos_cond(I, idn, d)
                rr = dd.and_(rest, dd.and_(I.pc, pm))
                if rr is not dd.FALSE and dd.sat(rr) is not None:
                    m = dd.bfresh('deleted by a misaligned index', imp=idn.imp, deps=frozenset([d.base.id])); break
                for c, pcnd, b2, m2 in res:
                    if b2 is not b: raise Undecided('delete through many-to-one index')
                    m = dd.or_(m, dd.and_(pcnd, dd.and_(c, pm)))
        elif isinstance(obj, Sc) or isinstance(obj, int):
            raise Undecided('deleting one ray by number')
        else: raise Undecided('delete')
        keep = I.new_arr((d,), [dd.not_(m)], 'b')
        return getitem(I, a, tuple(full + [keep]))
    if isinstance(obj, SliceV):
        lo, hi, st = I.slice_idx(obj, d); rem = set(range(lo, hi, st))
    elif isinstance(obj, Arr) and I.adt(obj) == 'b':
        el = [I.simplify(x) for x in I.elems(obj)]
        if not all_const(el): raise Undecided('delete')
        rem = {i for i, x in enumerate(el) if x is dd.TRUE}
    else:
        xs = [I.as_int(Sc(x, 'i')) for x in I.elems(toarr(I, obj))]
        if any(x is None for x in xs): raise Undecided('delete')
        rem = {x % d for x in xs}
    idx = [i for i in range(d) if i not in rem]
    return getitem(I, a, tuple(full + [I.new_arr((len(idx),), [dd.c(i) for i in idx], 'i')]))

def choose(I, args, kw):
    idx = toarr(I, args[0]); ch = args[1]
    chs = [toarr(I, x) for _, x in I.iterate(ch)]
    if I.adt(idx) in ('f', 'f32'): raise AbsRaise('TypeError', 'choose with a float index')
    dims = bdims(I, [idx.dims] + [c.dims for c in chs])
    ie = bcast(I, idx, dims); ce = [bcast(I, c, dims) for c in chs]
    dt = dt_join(*[I.adt(c) for c in chs])
    axm = dd.TRUE
    for d in dims:
        if isinstance(d, Axis): axm = dd.and_(axm, d.mask)
    out = [select_const(I, [I.cast(c[p], dt) for c in ce], dd.restrict(ie[p], axm)) for p in range(len(ie))]
    return mkarr(I, dims, out, dt)

def where(I, args, kw):
    if len(args) == 1: return nonzero(I, args[0])
    c, x, y = toarr(I, args[0]), toarr(I, args[1]), toarr(I, args[2])
    dims = bdims(I, [c.dims, x.dims, y.dims])
    ce = [dd.truth(v) if I.adt(c) != 'b' else v for v in bcast(I, c, dims)]
    dt = dt_join(I.adt(x), I.adt(y))
    xe, ye = bcast(I, x, dims), bcast(I, y, dims)
    return mkarr(I, dims, [dd.ite(p, I.cast(q, dt), I.cast(r, dt)) for p, q, r in zip(ce, xe, ye)], dt)

def steps_axis(I, start, stop, step, what):
    """index space of start, start+step, ... < stop"""
    sn, en, pn = [dd.tonum(I.scalar(x).node) for x in (start, stop, step)]
    cs = [x.val.const if x.var == dd.LEAF and x.val.kind == 0 else None for x in (sn, en, pn)]
    if all(x is not None for x in cs) and cs[2] != 0:
        k = max(0, _m.ceil((cs[1] - cs[0]) / cs[2]))
        if k <= 64: return k, [dd.add(sn, dd.mul(dd.c(i), pn)) for i in range(k)]
    if not all(x.var == dd.LEAF for x in (sn, en, pn)): sn, en, pn = [dd.restrict(x, I.pc) for x in (sn, en, pn)]
    for x in (sn, en, pn):
        if x.var != dd.LEAF: raise Undecided('range with conditional bounds', x.var)
    q = dd.div(dd.sub(en, sn), pn)
    if q.var == dd.LEAF and q.val.kind == 0 and q.val.const is not None and not q.val.imp and q.val.const <= 64:
        return max(0, _m.ceil(q.val.const)), [dd.add(sn, dd.mul(dd.c(i), pn)) for i in range(max(0, _m.ceil(q.val.const)))]
    ln = dd.opaque('ceil', q, isint=True, lo=0.0)
    ax = axis_of_len(I, ln)
    v = dd.add(sn, dd.mul(ax.pos(), pn))
    if v.var == dd.LEAF and v.val.const is None:
        if sn.val.lo >= 0 and pn.val.lo >= 0: v.val.lo = max(v.val.lo, sn.val.lo)
        I.grids.append((v.val, sn, en, pn, ax))
    return ax, [v]

def arange(I, args, kw):
    dt = parse_dt(I, kw.get('dtype')) if kw.get('dtype') is not None else None
    if len(args) == 1: a, b, s = 0, args[0], 1
    elif len(args) == 2: a, b, s = args[0], args[1], 1
    else: a, b, s = args[:3]
    ss = [I.scalar(x) for x in (a, b, s)]
    if any(x is None for x in ss): raise Undecided('arange')
    d = dt or dt_join(*[x.dt for x in ss])
    if I.as_int(s) == 1:
        ln = dd.sub(dd.tonum(ss[1].node), dd.tonum(ss[0].node))
        ln = dd.restrict(ln, I.pc)
        k = I.as_int(Sc(ln, 'i'))
        if k is not None: return I.new_arr((max(k, 0),), [dd.add(dd.tonum(ss[0].node), dd.c(i)) for i in range(max(k, 0))], d)
        if ln.var == dd.LEAF and n.atoms.get(ln.val.fp, (None,))[0] == 'len':
            ax = n.atoms[ln.val.fp][1]
            return I.new_arr((ax,), [dd.add(dd.tonum(ss[0].node), ax.pos())], d)
        ax = axis_of_len(I, ln)
        if ax is not None: return I.new_arr((ax,), [dd.add(dd.tonum(ss[0].node), ax.pos())], d)
    ax, el = steps_axis(I, a, b, s, 'arange')
    return I.new_arr((ax,), el, d)

def linspace(I, args, kw):
    a, b = I.scalar(args[0]), I.scalar(args[1])
    num = args[2] if len(args) > 2 else kw.get('num', 50)
    endpoint = args[3] if len(args) > 3 else kw.get('endpoint', True)
    if kw.get('retstep') or endpoint not in (True, False) or a is None or b is None: raise Undecided('linspace')
    sn, en = dd.tonum(a.node), dd.tonum(b.node)
    k = I.as_int(num)
    if k is not None and k <= 64:
        if k == 1: return I.new_arr((1,), [sn], 'f')
        div = k - 1 if endpoint else k
        return I.new_arr((k,), [dd.add(sn, dd.mul(dd.c(Fraction(i, div)), dd.sub(en, sn))) for i in range(k)], 'f')
    nn = dd.tonum(I.scalar(num).node) if k is None else dd.c(k)
    cnt = nn
    if nn.var != dd.LEAF: nn = dd.opaque('int', dd.leaf(n.atom('node:%d' % nn.id, imp=nn.imp)), isint=True, lo=0.0)
    if nn.val.const is not None:
        key = ('bigaxis', nn.val.const)
        if key not in dd._memo:
            b_ = Base('n=%d' % nn.val.const); b_.len_node = nn; dd._memo[key] = Axis(b_)
        ax = dd._memo[key]
    else: ax = axis_of_len(I, nn)
    t = n.div(ax.pos().val, n.sub(nn.val, n.const(1)) if endpoint else nn.val)
    if t.const is None: t.lo, t.hi = max(t.lo, 0.0), min(t.hi, 1.0)
    v = dd.add(sn, dd.mul(dd.leaf(t), dd.sub(en, sn)))
    I.lins.append((v, sn, en, nn, ax, bool(endpoint), cnt))
    return I.new_arr((ax,), [v], 'f')

def fullarr(I, dims, node, dt):
    chk_outer(dims)
    return I.new_arr(dims, [node] * prod(cshape(dims)), dt)

class IndexMaker(HostObj):
    def __init__(self, kind): self.kind = kind
    def attr(self, I, name): return MISSING
    def getitem(self, I, k):
        ks = k if isinstance(k, tuple) else (k,)
        if self.kind == 's_': return k
        if self.kind in ('mgrid', 'ogrid'):
            axs = []
            for s in ks:
                if not isinstance(s, SliceV): raise Undecided('mgrid')
                axs.append(self.rng(I, s))
            if not isinstance(k, tuple): return axs[0]
            nd = len(axs); outs = []
            for i, a in enumerate(axs): outs.append(Arr(a.oid, (1,) * i + a.dims + (1,) * (nd - 1 - i), a.pos))
            if self.kind == 'ogrid': return I.new_list(outs)
            dims = bdims(I, [o.dims for o in outs])
            return I.new_arr((nd,) + dims, [x for o in outs for x in bcast(I, o, dims)], dt_join(*[I.adt(o) for o in outs]))
        items = []
        for s in ks:
            s = I.resolve(s)
            if isinstance(s, SliceV): s = self.rng(I, s)
            if isinstance(s, str): raise Undecided('r_ directive')
            items.append((dd.TRUE, s))
        if self.kind == 'r_':
            return concat(I, items, 0, p1)
        return concat(I, items, -1, p2c)
    def rng(self, I, s):
        a = s.a if s.a is not None else 0
        st = s.s if s.s is not None else 1
        return arange(I, [a, s.b, st], {})

def broadcast_arrays(I, args, kw):
    arrs = [toarr(I, a) for a in args]
    dims = bdims(I, [a.dims for a in arrs])
    # an argument that already has the common shape comes back as a view of itself
    return I.new_list([a if len(a.dims) == len(dims) and all(x is y or (not isinstance(x, Axis) and x == y) for x, y in zip(a.dims, dims))
                       else I.new_arr(dims, bcast(I, a, dims), I.adt(a)) for a in arrs])

def meshgrid(I, args, kw):
    arrs = [toarr(I, a) for a in args]
    ij = kw.get('indexing', 'xy') == 'ij'
    nd = len(arrs)
    order = list(range(nd))
    if not ij and nd >= 2: order[0], order[1] = 1, 0
    views = []
    for i, a in enumerate(arrs):
        if len(a.dims) != 1: a = ravel(I, a)
        d = [1] * nd; d[order[i]] = a.dims[0]
        views.append(Arr(a.oid, d, a.pos))
    dims = bdims(I, [v.dims for v in views])
    return I.new_list([I.new_arr(dims, bcast(I, v, dims), I.adt(v)) for v in views])

def norm(I, args, kw):
    a = toarr(I, args[0]); axis = args[2] if len(args) > 2 else kw.get('axis')
    if (len(args) > 1 and args[1] not in (None, 2)) or kw.get('ord') not in (None, 2): raise Undecided('norm order')
    sq = map1(I, lambda x: dd.mul(dd.tonum(x), dd.tonum(x)), a, 'f')
    s = reduce(I, 'sum', sq, axis, {k: v for k, v in kw.items() if k == 'keepdims'})
    return map1(I, dd.sqrt, s, 'f')

def squeeze(I, a, axis=None):
    if axis is not None:
        ks = axes_arg(I, a, axis)
        for k in ks:
            if a.dims[k] != 1: raise AbsRaise('ValueError', 'cannot squeeze an axis of size other than one')
    else: ks = [k for k, d in enumerate(a.dims) if d == 1]
    # note: a bundle of one ray would lose its ray axis; generic sizes only
    r = Arr(a.oid, [d for k, d in enumerate(a.dims) if k not in ks], a.pos)
    return r if r.dims else Sc(I.elems(r)[0], I.adt(r))

def uniform(I, args, kw):
    lo = args[0] if len(args) > 0 else kw.get('low', 0)
    hi = args[1] if len(args) > 1 else kw.get('high', 1)
    size = args[2] if len(args) > 2 else kw.get('size')
    return rnd(I, lo, hi, size)

def rnd(I, lo, hi, size):
    L, H = toarr(I, lo), toarr(I, hi)
    dims = shape_arg(I, size) if size is not None else bdims(I, [L.dims, H.dims])
    le, he = bcast(I, L, dims), bcast(I, H, dims)
    out = []
    deps = frozenset(d.base.id for d in dims if isinstance(d, Axis))
    for x, y in zip(le, he):
        u = dd.leaf(n.fresh('random', lo=0.0, hi=1.0, deps=deps))
        x, y = dd.tonum(x), dd.tonum(y)
        v = dd.add(x, dd.mul(u, dd.sub(y, x)))
        if v.var == dd.LEAF and v.val.const is None and x.var == dd.LEAF and y.var == dd.LEAF:
            v.val.lo = max(v.val.lo, min(x.val.lo, y.val.lo)); v.val.hi = min(v.val.hi, max(x.val.hi, y.val.hi))
        I.randoms.append((v, u, x, y))
        out.append(v)
    return mkarr(I, dims, out, 'f')

def take(I, args, kw):
    a = toarr(I, args[0]); axis = args[2] if len(args) > 2 else kw.get('axis')
    if axis is None: return getitem(I, ravel(I, a), (args[1],))
    k = axes_arg(I, a, axis)[0]
    return getitem(I, a, tuple([SliceV(None, None, None)] * k + [args[1]]))

def compress(I, args, kw):
    a = toarr(I, args[1]); axis = args[2] if len(args) > 2 else kw.get('axis')
    c = toarr(I, args[0], 'b')
    if axis is None: return getitem(I, ravel(I, a), (c,))
    k = axes_arg(I, a, axis)[0]
    return getitem(I, a, tuple([SliceV(None, None, None)] * k + [c]))

def append(I, args, kw):
    axis = args[2] if len(args) > 2 else kw.get('axis')
    a, b = toarr(I, args[0]), toarr(I, args[1])
    if axis is None: return concat(I, [(dd.TRUE, ravel(I, p1(I, a))), (dd.TRUE, ravel(I, p1(I, b)))], 0)
    return concat(I, [(dd.TRUE, a), (dd.TRUE, b)], I.as_int(axis))

def sort_(I, a, axis=-1):
    a = toarr(I, a)
    k = axes_arg(I, a, axis)[0]
    if isinstance(a.dims[k], Axis):
        # already in order, or some permutation of the values
        ax = a.dims[k]; el = []
        for x in I.elems(a):
            d = n.atoms.get(x.val.fp) if x.var == dd.LEAF and isinstance(x.val, n.Num) and not x.val.kind else None
            if not ax.base.id in x.deps or (d is not None and d[0] == 'pos' and d[1].base is ax.base): el.append(x); continue
            el.append(dd.leaf(n.atom('sorted:%d:%s' % (x.id, ax.key), deps=x.deps | frozenset(['X', ax.base.id]), imp=True)))
        return I.new_arr(a.dims, el, I.adt(a))
    _, gs = groups(a, [k])
    el = I.elems(a)
    for g in gs:
        v = [dd.tonum(el[p]) for p in g]
        if len(v) > 4: raise Undecided('sort')
        for i in range(len(v)):
            for j in range(len(v) - 1 - i):
                x, y = v[j], v[j + 1]
                c = dd.lt(y, x)
                v[j], v[j + 1] = dd.ite(c, y, x), dd.ite(c, x, y)
        for p, x in zip(g, v): el[p] = x
    return I.new_arr(a.dims, el, I.adt(a))

def argsort_(I, a, axis=-1):
    a = toarr(I, a)
    k = axes_arg(I, a, axis)[0]
    if isinstance(a.dims[k], Axis): raise Undecided('sorting rays')
    _, gs = groups(a, [k])
    el = I.elems(a); out = list(el)
    for g in gs:
        v = [(dd.tonum(el[p]), dd.c(i)) for i, p in enumerate(g)]
        if len(v) > 4: raise Undecided('sort')
        for i in range(len(v)):
            for j in range(len(v) - 1 - i):
                (x, xi), (y, yi) = v[j], v[j + 1]
                c = dd.lt(y, x)
                v[j] = (dd.ite(c, y, x), dd.ite(c, yi, xi)); v[j + 1] = (dd.ite(c, x, y), dd.ite(c, xi, yi))
        for p, (x, xi) in zip(g, v): out[p] = xi
    return I.new_arr(a.dims, out, 'i')

def allclose(I, args, kw):
    r = isclose(I, args, kw)
    return reduce_bool(I, r, True if False else False, None) if isinstance(r, Arr) else r
def isclose(I, args, kw):
    rt = I.scalar(args[2] if len(args) > 2 else kw.get('rtol', Sc(dd.c(1e-5))))
    at = I.scalar(args[3] if len(args) > 3 else kw.get('atol', Sc(dd.c(1e-8))))
    def f(x, y):
        x, y = dd.tonum(x), dd.tonum(y)
        return dd.le(dd.abs_(dd.sub(x, y)), dd.add(dd.tonum(at.node), dd.mul(dd.tonum(rt.node), dd.abs_(y))))
    return map2(I, f, args[0], args[1], 'b')

def array(I, args, kw):
    dt = parse_dt(I, args[1] if len(args) > 1 else kw.get('dtype'))
    v = args[0]
    r = toarr(I, v, dt)
    if isinstance(v, Arr) and r is v and kw.get('copy') is not False: r = copy(I, r)
    nm = I.as_int(kw.get('ndmin')) if kw.get('ndmin') is not None else None
    if nm: r = Arr(r.oid, (1,) * max(0, nm - len(r.dims)) + r.dims, r.pos)
    return r if r.dims else r

def asarray(I, args, kw):
    return toarr(I, args[0], parse_dt(I, args[1] if len(args) > 1 else kw.get('dtype')))

def like(I, v):
    a = toarr(I, v)
    return a.dims, I.adt(a)

def outer(I, args, kw):
    a, b = ravel(I, toarr(I, args[0])), ravel(I, toarr(I, args[1]))
    a, b = p1(I, a), p1(I, b)
    return binop(I, ast.Mult(), Arr(a.oid, (a.dims[0], 1), a.pos), Arr(b.oid, (1, b.dims[0]), b.pos))

def u_outer(name):
    def f(I, args, kw):
        a, b = toarr(I, args[0]), toarr(I, args[1])
        return ufunc2(I, name, Arr(a.oid, a.dims + (1,) * len(b.dims), a.pos), b)
    return f

def tensordot(I, args, kw):
    a, b = toarr(I, args[0]), toarr(I, args[1])
    axes = I.resolve(args[2] if len(args) > 2 else kw.get('axes', 2))
    k = I.as_int(axes) if not isinstance(axes, (tuple, ListRef)) else None
    if k is not None:
        return contract(I, a, b, list(range(len(a.dims) - k, len(a.dims))), list(range(k)))
    x, y = [v for _, v in I.iterate(axes)]
    def ks(v, A):
        if isinstance(v, (tuple, ListRef)): return [I.as_int(q) % len(A.dims) for _, q in I.iterate(v)]
        return [I.as_int(v) % len(A.dims)]
    return contract(I, a, b, ks(x, a), ks(y, b))

def matmul(I, a, b):
    a, b = toarr(I, a), toarr(I, b)
    if len(a.dims) <= 2 and len(b.dims) <= 2: return dot(I, a, b)
    raise Undecided('stacked matmul')

def diag(I, args, kw):
    a = toarr(I, args[0])
    if len(a.dims) == 1 and isinstance(a.dims[0], int):
        k = a.dims[0]; el = I.elems(a); out = []
        for i in range(k):
            for j in range(k): out.append(dd.tonum(el[i]) if i == j else dd.c(0))
        return I.new_arr((k, k), out, I.adt(a))
    if len(a.dims) == 2 and a.dims[0] == a.dims[1] and isinstance(a.dims[0], int):
        k = a.dims[0]
        return Arr(a.oid, (k,), [a.pos[i * k + i] for i in range(k)])
    raise Undecided('diag')

def eye(I, args, kw):
    k = I.as_int(args[0])
    if k is None: raise Undecided('eye')
    c = I.as_int(args[1]) if len(args) > 1 and args[1] is not None else k
    dt = parse_dt(I, kw.get('dtype')) or 'f'
    return I.new_arr((k, c), [I.cast(dd.c(1 if i == j else 0), dt) for i in range(k) for j in range(c)], dt)

def solve(I, args, kw):
    A = inv(I, args[0])
    return dot(I, A, toarr(I, args[1]))

def det(I, args, kw):
    a, k = sqmat(I, args[0])
    el = [dd.tonum(x) for x in I.elems(a)]
    M = [el[i * k:(i + 1) * k] for i in range(k)]
    d = minor_det(M, list(range(k)), list(range(k)))
    return mkarr(I, a.dims[:-2], [d], 'f')

def clip(I, a, lo, hi):
    r = a
    if lo is not None: r = ufunc2(I, 'maximum', r, lo)
    if hi is not None: r = ufunc2(I, 'minimum', r, hi)
    return r

def roll(I, args, kw): raise Undecided('roll')

def unwrap_scalar(I, v):
    return v

# ---- attributes ----------------------------------------------------------------
def M(name, fn): return Builtin(name, fn)

def arr_attr(I, a, name):
    if name == 'shape': return tuple(dimlen(d) for d in a.dims)
    if name == 'T': return transpose(I, a)
    if name == 'ndim': return len(a.dims)
    if name == 'size':
        r = dd.c(1)
        for d in a.dims:
            x = dimlen(d)
            r = dd.mul(r, I.scalar(x).node)
        k = I.as_int(Sc(r, 'i'))
        return k if k is not None else Sc(r, 'i')
    if name == 'dtype': return DtypeV(I.adt(a))
    if name == 'flat': return ravel(I, a)
    if name == 'real': return a
    if name == '__class__': return TypeV('ndarray')
    def red(nm): return M(nm, lambda I, ar, kw: reduce(I, nm, a, ar[0] if ar else kw.get('axis'), kw))
    if name in ('sum', 'min', 'max', 'prod', 'mean', 'argmin', 'argmax', 'std', 'var'): return red(name)
    if name in ('any', 'all'): return M(name, lambda I, ar, kw: reduce_bool(I, a, name == 'any', ar[0] if ar else kw.get('axis'), kw))
    if name == 'copy': return M(name, lambda I, ar, kw: copy(I, a))
    if name == '__copy__': return M(name, lambda I, ar, kw: copy(I, a))
    if name == 'reshape': return M(name, lambda I, ar, kw: reshape(I, a, ar))
    if name == 'ravel': return M(name, lambda I, ar, kw: ravel(I, a))
    if name == 'flatten': return M(name, lambda I, ar, kw: copy(I, ravel(I, a)))
    if name == 'squeeze': return M(name, lambda I, ar, kw: squeeze(I, a, ar[0] if ar else kw.get('axis')))
    if name == 'astype': return M(name, lambda I, ar, kw: (lambda dt: I.new_arr(a.dims, [I.cast(x, dt) for x in I.elems(a)], dt))(parse_dt(I, ar[0] if ar else kw['dtype'])))
    if name == 'tolist':
        def f(I, ar, kw):
            def rec(x):
                if not isinstance(x, Arr): return x
                return I.new_list([rec(y) for g, y in I.iterate(x)]) if isinstance(x.dims[0], int) else _list_rays(I, x)
            return rec(a)
        return M(name, f)
    if name == 'nonzero': return M(name, lambda I, ar, kw: nonzero(I, a))
    if name == 'transpose':
        def f(I, ar, kw):
            if not ar: return transpose(I, a)
            p = [x for _, x in I.iterate(ar[0])] if isinstance(ar[0], (tuple, ListRef)) else ar
            return transpose(I, a, [I.as_int(x) % len(a.dims) for x in p])
        return M(name, f)
    if name == 'dot': return M(name, lambda I, ar, kw: dot(I, a, toarr(I, ar[0])))
    if name == 'repeat': return M(name, lambda I, ar, kw: repeat(I, [a] + ar, kw))
    if name == 'cumsum': return M(name, lambda I, ar, kw: cum(I, a, ar[0] if ar else kw.get('axis')))
    if name == 'fill': return M(name, lambda I, ar, kw: set_all(I, a, ar[0]))
    if name == 'swapaxes':
        def f(I, ar, kw):
            p = list(range(len(a.dims))); x, y = I.as_int(ar[0]) % len(p), I.as_int(ar[1]) % len(p)
            p[x], p[y] = p[y], p[x]
            return transpose(I, a, p)
        return M(name, f)
    if name == 'diagonal': return M(name, lambda I, ar, kw: diag(I, [a], {}))
    if name == 'trace': return M(name, lambda I, ar, kw: reduce(I, 'sum', diag(I, [a], {}), None))
    if name == 'clip': return M(name, lambda I, ar, kw: clip(I, a, ar[0] if ar else kw.get('min'), ar[1] if len(ar) > 1 else kw.get('max')))
    if name == 'item':
        def f(I, ar, kw):
            if ar: return getitem(I, a, tuple(ar))
            if len(a.pos) == 1 and all(isinstance(d, int) for d in a.dims): return Sc(I.elems(a)[0], I.adt(a))
            raise AbsRaise('ValueError', 'can only convert an array of size 1 to a Python scalar')
        return M(name, f)
    if name == 'take': return M(name, lambda I, ar, kw: take(I, [a] + ar, kw))
    if name == 'compress': return M(name, lambda I, ar, kw: compress(I, [ar[0], a] + ar[1:], kw))
    if name == 'sort':
        def f(I, ar, kw): set_all(I, a, sort_(I, a, ar[0] if ar else kw.get('axis', -1)))
        return M(name, f)
    if name == 'argsort': return M(name, lambda I, ar, kw: argsort_(I, a, ar[0] if ar else kw.get('axis', -1)))
    if name in ('conj', 'conjugate', 'view'): return M(name, lambda I, ar, kw: a)
    if name == 'round': return M(name, lambda I, ar, kw: map1(I, lambda x: dd.opaque('round', dd.tonum(x)), a))
    if name == '__len__': return M(name, lambda I, ar, kw: dimlen(a.dims[0]))
    if name in ('setflags',): return M(name, lambda I, ar, kw: None)
    if name in ('base', 'flags', 'strides', 'ptp', 'partition', 'argpartition', 'put', 'choose', 'cumprod', 'searchsorted', 'resize', 'tostring', 'tobytes', 'imag', 'itemsize', 'nbytes', 'byteswap'):
        raise Undecided('array attribute ' + name)
    return MISSING

def _list_rays(I, x):
    it = I.iterate(x)
    g, gi = it[0]
    return ListRef(I.alloc(ListRec([(dd.TRUE, SymItem(gi.axis, gi.item))])))

def method(I, o, name):
    if isinstance(o, Arr): return arr_attr(I, o, name)
    if isinstance(o, (Sc, int, float, bool)) and not isinstance(o, str):
        if name in ('shape',): return ()
        if name == 'ndim': return 0
        if name == 'size': return 1
        s = I.scalar(o)
        if name == 'dtype': return DtypeV(s.dt)
        a = I.new_arr((), [s.node], s.dt)
        r = arr_attr(I, a, name)
        return r
    if isinstance(o, ListRef): return list_attr(I, o, name)
    if isinstance(o, DictRef): return dict_attr(I, o, name)
    if isinstance(o, tuple):
        if name == 'index': return M(name, lambda I, ar, kw: list_index(I, o, ar[0]))
        if name == 'count': return M(name, lambda I, ar, kw: sum(1 for x in o if I.pyeq(x, ar[0]) is dd.TRUE))
        return MISSING
    if isinstance(o, str):
        return M(name, lambda I, ar, kw: str_call(I, o, name, ar))
    if type(o).__name__ == 'InstDict': return instdict_attr(I, o, name)
    if isinstance(o, (RangeV, GenericIter, SliceV, StaticM)):
        if isinstance(o, SliceV):
            return {'start': o.a, 'stop': o.b, 'step': o.s}.get(name, MISSING)
        raise Undecided('attribute %s' % name)
    if isinstance(o, TypeV):
        if name == '__name__': return o.name
        return MISSING
    if o is None: return MISSING
    if isinstance(o, DtypeV):
        if name == 'kind': return {'f': 'f', 'f32': 'f', 'i': 'i', 'b': 'b'}[o.dt]
        if name == 'type': return o
        return MISSING
    if isinstance(o, Choice): raise Undecided('attribute of alternatives')
    raise Undecided('attribute %s of %r' % (name, o))

def str_call(I, s, name, ar):
    if all(isinstance(x, (str, int)) for x in ar) and name in ('startswith', 'endswith', 'lower', 'upper', 'strip', 'replace', 'lstrip', 'rstrip', 'capitalize', 'find', 'isdigit'):
        return getattr(s, name)(*ar)
    if name in ('split', 'partition', 'rpartition') and all(isinstance(x, str) for x in ar):
        r = getattr(s, name)(*ar)
        return I.new_list(r) if isinstance(r, list) else r
    if name == 'join':
        it = I.iterate(ar[0])
        if all(g is dd.TRUE and isinstance(x, str) for g, x in it): return s.join(x for _, x in it)
        return '<joined>'
    if name == 'format':
        x = [v if type(v) in (str, int) else None for v in ar]
        if None not in x:
            try: return s.format(*x)
            except (IndexError, KeyError, ValueError): pass
        return '<formatted>'
    raise Undecided('str.' + name)

def list_index(I, o, x):
    items = I.iterate(o)
    for i, (g, v) in enumerate(items):
        if g is not dd.TRUE: raise Undecided('index of conditional list')
        e = I.simplify(I.pyeq(v, x))
        if e is dd.TRUE: return i
        if e is not dd.FALSE: raise Undecided('index')
    raise AbsRaise('ValueError', 'not in list')

def list_attr(I, o, name):
    def app(I, ar, kw):
        I.put(o.oid, ListRec(I.get(o.oid).items + ((dd.TRUE, ar[0]),)))
    def ext(I, ar, kw):
        out = []
        for g, x in I.iterate(ar[0]):
            if isinstance(x, GenericIter): x = SymItem(x.axis, x.item)
            out.append((g, x))
        I.put(o.oid, ListRec(I.get(o.oid).items + tuple(out)))
    if name == 'append': return Builtin(name, app, lift=False)
    if name == 'extend': return Builtin(name, ext, lift=False)
    if name == 'insert':
        def f(I, ar, kw):
            it = list(I.get(o.oid).items); i = I.as_int(ar[0])
            if i is None or (i != 0 and any(g is not dd.TRUE for g, _ in it)): raise Undecided('insert')
            it.insert(i, (dd.TRUE, ar[1])); I.put(o.oid, ListRec(it))
        return Builtin(name, f, lift=False)
    if name == 'pop':
        def f(I, ar, kw):
            it = list(I.get(o.oid).items)
            if any(g is not dd.TRUE for g, _ in it): raise Undecided('pop')
            i = I.as_int(ar[0]) if ar else -1
            if not it or not -len(it) <= i < len(it): raise AbsRaise('IndexError', 'pop from empty list')
            v = it.pop(i); I.put(o.oid, ListRec(it)); return v[1]
        return M(name, f)
    if name == 'remove':
        def f(I, ar, kw):
            it = list(I.get(o.oid).items)
            i = list_index(I, o, ar[0]); del it[i]; I.put(o.oid, ListRec(it))
        return M(name, f)
    if name == 'index': return M(name, lambda I, ar, kw: list_index(I, o, ar[0]))
    if name == 'count': return M(name, lambda I, ar, kw: sum(1 for g, x in I.iterate(o) if I.pyeq(x, ar[0]) is dd.TRUE))
    if name == 'reverse':
        def f(I, ar, kw): I.put(o.oid, ListRec(tuple(reversed(I.get(o.oid).items))))
        return M(name, f)
    if name == 'copy': return M(name, lambda I, ar, kw: ListRef(I.alloc(I.get(o.oid))))
    if name == 'clear': return M(name, lambda I, ar, kw: I.put(o.oid, ListRec(())))
    if name == 'sort': raise Undecided('list.sort')
    if name == '__len__': return M(name, lambda I, ar, kw: I.call(I.builtins['len'], [o], {}))
    return MISSING

def dict_attr(I, o, name):
    rec = lambda: I.get(o.oid)
    def pairs():
        out = []
        for k, v in rec().d.items():
            v = I.resolve(v); p = I.present(v)
            if p is not dd.FALSE: out.append((p, k, I.strip_missing(v)))
        return out
    if name in ('keys', 'iterkeys'): return M(name, lambda I, ar, kw: ListRef(I.alloc(ListRec([(p, k) for p, k, v in pairs()]))))
    if name in ('values', 'itervalues'): return M(name, lambda I, ar, kw: ListRef(I.alloc(ListRec([(p, v) for p, k, v in pairs()]))))
    if name in ('items', 'iteritems'): return M(name, lambda I, ar, kw: ListRef(I.alloc(ListRec([(p, (k, v)) for p, k, v in pairs()]))))
    if name == 'has_key': return M(name, lambda I, ar, kw: I.boolv(I.contains(o, ar[0])))
    def get_(I, ar, kw):
        return I.map_missing(I.resolve(rec().d.get(I.dkey(ar[0]), MISSING)), ar[1] if len(ar) > 1 else kw.get('default'))
    if name == 'get': return Builtin(name, get_, lift=False)
    if name == 'setdefault':
        def f(I, ar, kw):
            k = I.dkey(ar[0]); d = dict(rec().d)
            v = I.map_missing(I.resolve(d.get(k, MISSING)), ar[1] if len(ar) > 1 else None)
            d[k] = v; I.put(o.oid, DictRec(d, rec().kind)); return v
        return Builtin(name, f, lift=False)
    if name == 'update':
        def f(I, ar, kw):
            d = dict(rec().d)
            if ar:
                src = I.resolve(ar[0])
                if isinstance(src, DictRef):
                    for k, v in I.get(src.oid).d.items():
                        v = I.resolve(v)
                        d[k] = v if I.present(v) is dd.TRUE else I.map_missing(v, d.get(k, MISSING))
                else:
                    for g, x in I.iterate(src):
                        k, v = I.unpack(x, 2); k = I.dkey(k)
                        d[k] = v if g is dd.TRUE else I.merge(g, v, d.get(k, MISSING))
            d.update(kw); I.put(o.oid, DictRec(d, rec().kind))
        return Builtin(name, f, lift=False)
    if name == 'pop':
        def f(I, ar, kw):
            d = dict(rec().d); k = I.dkey(ar[0])
            v = I.resolve(d.get(k, MISSING))
            if len(ar) > 1: v = I.map_missing(v, ar[1])
            else: v = I.need(v, 'KeyError', repr(k))
            d = dict(rec().d); d.pop(k, None); I.put(o.oid, DictRec(d, rec().kind)); return v
        return Builtin(name, f, lift=False)
    if name == 'copy': return M(name, lambda I, ar, kw: DictRef(I.alloc(rec())))
    if name == 'clear': return M(name, lambda I, ar, kw: I.put(o.oid, DictRec({}, rec().kind)))
    if name == 'add':
        def f(I, ar, kw):
            d = dict(rec().d); d[I.dkey(ar[0])] = True; I.put(o.oid, DictRec(d, rec().kind))
        return M(name, f)
    if name in ('discard', 'remove'):
        def f(I, ar, kw):
            d = dict(rec().d); d.pop(I.dkey(ar[0]), None); I.put(o.oid, DictRec(d, rec().kind))
        return M(name, f)
    return MISSING

def instdict_attr(I, o, name):
    rec = I.get(o.obj.oid).d
    tmp = DictRef(I.alloc(DictRec(dict(rec))))
    if name in ('update', 'pop', 'setdefault', 'clear'):
        def f(I, ar, kw):
            r = I.call(dict_attr(I, tmp, name), ar, kw)
            I.put(o.obj.oid, ObjRec(dict(I.get(tmp.oid).d))); return r
        return Builtin(name, f, lift=False)
    return dict_attr(I, tmp, name)

# ---- module ------------------------------------------------------------------
class NumpyModule(ModuleVal): pass

def install(I):
    I.grids, I.lins, I.randoms, I.seeds = [], [], [], []
    d = {}
    m = ModuleVal('numpy', d); I.ext['numpy'] = m; m.strict = True
    def add(name, fn, lift=True): d[name] = Builtin('numpy.' + name, fn, lift)
    for nm in U1:
        add(nm, (lambda nm: lambda I, a, k: ufunc1(I, nm, a[0], dict(k, out=a[1]) if len(a) > 1 else k))(nm))
    for nm in U2:
        add(nm, (lambda nm: lambda I, a, k: ufunc2(I, nm, a[0], a[1], dict(k, out=a[2]) if len(a) > 2 else k))(nm))
        b = d[nm]
        b.attrs = {'outer': Builtin(nm + '.outer', u_outer(nm))}
        if nm in ('add', 'multiply'):
            op = ast.Add() if nm == 'add' else ast.Mult()
            b.attrs['accumulate'] = Builtin('accumulate', (lambda op: lambda I, a, k: cum(I, a[0], a[1] if len(a) > 1 else k.get('axis', 0), op))(op))
            b.attrs['reduce'] = Builtin('reduce', (lambda nm: lambda I, a, k: reduce(I, 'sum' if nm == 'add' else 'prod', a[0], a[1] if len(a) > 1 else k.get('axis', 0), k))(nm))
        if nm in ('logical_or', 'logical_and', 'bitwise_or', 'bitwise_and'):
            b.attrs['reduce'] = Builtin('reduce', (lambda nm: lambda I, a, k: reduce_bool(I, a[0], nm.endswith('or'), a[1] if len(a) > 1 else k.get('axis', 0), k))(nm))
        if nm in ('minimum', 'maximum', 'fmin', 'fmax'):
            b.attrs['reduce'] = Builtin('reduce', (lambda nm: lambda I, a, k: reduce(I, 'min' if 'min' in nm else 'max', a[0], a[1] if len(a) > 1 else k.get('axis', 0), k))(nm))
        if nm in ('logical_xor',):
            def xr(I, a, k):
                A = toarr(I, a[0]); ks = axes_arg(I, A, a[1] if len(a) > 1 else k.get('axis', 0)); keep, gs = groups(A, ks); el = I.elems(A)
                if any(isinstance(A.dims[q], Axis) for q in ks): raise Undecided('xor over rays')
                out = []
                for g in gs:
                    r = dd.FALSE
                    for p in g: r = dd.xor_(r, dd.truth(el[p]))
                    out.append(r)
                return mkarr(I, [A.dims[q] for q in keep], out, 'b')
            b.attrs['reduce'] = Builtin('reduce', xr)
    add('array', array); add('asarray', asarray); add('asanyarray', asarray); add('ascontiguousarray', asarray)
    add('asfarray', lambda I, a, k: toarr(I, a[0], 'f'))
    def filled(val, dflt='f'):
        def f(I, a, k):
            dt = parse_dt(I, a[1] if len(a) > 1 else k.get('dtype')) or dflt
            return fullarr(I, shape_arg(I, a[0] if a else k['shape']), I.cast(val, dt), dt)
        return f
    add('zeros', lambda I, a, k: filled(dd.c(0))(I, a, k)); add('ones', lambda I, a, k: filled(dd.c(1))(I, a, k))
    def uninit_leaf(I, dims):
        deps = frozenset(x.base.id for x in dims if isinstance(x, Axis))
        v = n.fresh('uninitialised', deps=deps); v.uninit = True
        return dd.leaf(v)
    def empty(I, a, k):
        dt = parse_dt(I, a[1] if len(a) > 1 else k.get('dtype')) or 'f'
        dims = shape_arg(I, a[0] if a else k['shape'])
        chk_outer(dims)
        el = []
        for i in range(prod(cshape(dims))):
            el.append(uninit_leaf(I, dims) if dt != 'b' else dd.bfresh('uninitialised', deps=frozenset(x.base.id for x in dims if isinstance(x, Axis))))
        return I.new_arr(dims, el, dt)
    add('empty', empty)
    def full(I, a, k):
        v = toarr(I, a[1] if len(a) > 1 else k['fill_value'])
        dt = parse_dt(I, a[2] if len(a) > 2 else k.get('dtype')) or I.adt(v)
        dims = shape_arg(I, a[0])
        chk_outer(dims)
        return I.new_arr(dims, [I.cast(x, dt) for x in bcast(I, v, dims)], dt)
    add('full', full)
    def like_(val):
        def f(I, a, k):
            dims, dt = like(I, a[0])
            dt = parse_dt(I, a[1] if len(a) > 1 else k.get('dtype')) or dt
            if val is None: return empty(I, [tuple(dimlen(x) for x in dims)], {'dtype': DtypeV(dt)})
            return fullarr(I, dims, I.cast(dd.c(val), dt), dt)
        return f
    add('zeros_like', like_(0)); add('ones_like', like_(1)); add('empty_like', like_(None))
    def full_like(I, a, k):
        dims, dt = like(I, a[0]); dt = parse_dt(I, k.get('dtype')) or dt
        return I.new_arr(dims, [I.cast(x, dt) for x in bcast(I, toarr(I, a[1]), dims)], dt)
    add('full_like', full_like)
    def result_type(I, a, k):
        def one(v):
            v = I.resolve(v)
            if isinstance(v, (Arr, Sc)): return I.adt(v) if isinstance(v, Arr) else v.dt
            s_ = I.scalar(v)
            return s_.dt if s_ is not None else parse_dt(I, v)
        return DtypeV(dt_join(*[one(v) for v in a]))
    add('result_type', result_type); add('promote_types', result_type)
    add('eye', eye); add('identity', eye); add('diag', diag); add('diagonal', diag)
    add('arange', arange); add('linspace', linspace)
    add('hstack', hstack); add('vstack', vstack); add('row_stack', vstack); add('concatenate', concatenate); add('stack', stack)
    add('dstack', lambda I, a, k: concat(I, seq_items(I, a[0]), 2, p3)); add('column_stack', lambda I, a, k: concat(I, seq_items(I, a[0]), 1, p2c))
    add('append', append)
    add('dot', lambda I, a, k: dot(I, toarr(I, a[0]), toarr(I, a[1]))); add('matmul', lambda I, a, k: matmul(I, a[0], a[1]))
    add('inner', lambda I, a, k: (lambda x, y: contract(I, x, y, [len(x.dims) - 1], [len(y.dims) - 1]) if x.dims and y.dims else binop(I, ast.Mult(), x, y))(toarr(I, a[0]), toarr(I, a[1])))
    add('vdot', lambda I, a, k: contract(I, ravel(I, toarr(I, a[0])), ravel(I, toarr(I, a[1])), [0], [0]))
    add('tensordot', tensordot); add('einsum', einsum); add('outer', outer); add('cross', cross)
    add('tile', tile); add('repeat', repeat); add('delete', delete); add('in1d', in1d); add('setdiff1d', setdiff1d); add('put', put); add('choose', choose); add('where', where)
    add('nonzero', lambda I, a, k: nonzero(I, a[0])); add('flatnonzero', lambda I, a, k: nonzero(I, ravel(I, toarr(I, a[0])))[0])
    def argwhere(I, a, k):
        r = nonzero(I, a[0])
        return copy(I, transpose(I, concat(I, [(dd.TRUE, x) for x in r], 0, p2)))
    add('argwhere', argwhere)
    def isin(I, a, k):
        x = toarr(I, a[0])
        if len(x.dims) != 1: raise Undecided('isin')
        return in1d(I, a, k)
    add('isin', isin)
    add('take', take); add('compress', compress)
    add('broadcast_arrays', broadcast_arrays); add('meshgrid', meshgrid)
    add('broadcast_to', lambda I, a, k: (lambda A, dims: I.new_arr(dims, bcast(I, A, bdims(I, [dims, A.dims])), I.adt(A)))(toarr(I, a[0]), shape_arg(I, a[1])))
    for nm in ('sum', 'prod', 'mean', 'min', 'max', 'argmin', 'argmax', 'nansum', 'nanmin', 'nanmax', 'nanargmin', 'std', 'var'):
        add(nm, (lambda nm: lambda I, a, k: reduce(I, nm, a[0], a[1] if len(a) > 1 else k.get('axis'), k))(nm))
    d['amin'] = d['min']; d['amax'] = d['max']; d['product'] = d['prod']
    add('any', lambda I, a, k: reduce_bool(I, a[0], True, a[1] if len(a) > 1 else k.get('axis'), k))
    add('all', lambda I, a, k: reduce_bool(I, a[0], False, a[1] if len(a) > 1 else k.get('axis'), k))
    d['alltrue'] = d['all']; d['sometrue'] = d['any']
    add('count_nonzero', lambda I, a, k: reduce(I, 'sum', toarr(I, a[0], 'b'), k.get('axis') if len(a) < 2 else a[1]))
    add('cumsum', lambda I, a, k: cum(I, a[0], a[1] if len(a) > 1 else k.get('axis')))
    add('squeeze', lambda I, a, k: squeeze(I, toarr(I, a[0]), a[1] if len(a) > 1 else k.get('axis')))
    add('reshape', lambda I, a, k: reshape(I, toarr(I, a[0]), a[1:])); add('ravel', lambda I, a, k: ravel(I, toarr(I, a[0])))
    def trans(I, a, k):
        A = toarr(I, a[0]); p = a[1] if len(a) > 1 else k.get('axes')
        return transpose(I, A, None if p is None else [I.as_int(x) % len(A.dims) for _, x in I.iterate(p)])
    add('transpose', trans)
    def rollaxis(I, a, k):
        A = toarr(I, a[0]); p = list(range(len(A.dims))); x = I.as_int(a[1]) % len(p); s = I.as_int(a[2]) if len(a) > 2 else 0
        p.remove(x); p.insert(s if s <= x else s - 1, x); return transpose(I, A, p)
    add('rollaxis', rollaxis)
    def moveaxis(I, a, k):
        A = toarr(I, a[0]); p = list(range(len(A.dims))); x = I.as_int(a[1]) % len(p); y = I.as_int(a[2]) % len(p)
        p.remove(x); p.insert(y, x); return transpose(I, A, p)
    add('moveaxis', moveaxis)
    add('swapaxes', lambda I, a, k: I.call(arr_attr(I, toarr(I, a[0]), 'swapaxes'), a[1:], {}))
    add('atleast_1d', lambda I, a, k: p1(I, toarr(I, a[0]))); add('atleast_2d', lambda I, a, k: p2(I, toarr(I, a[0])))
    add('expand_dims', lambda I, a, k: (lambda A, q: Arr(A.oid, A.dims[:q] + (1,) + A.dims[q:], A.pos))(*(lambda A: (A, I.as_int(a[1] if len(a) > 1 else k['axis']) % (len(A.dims) + 1)))(toarr(I, a[0]))))
    add('copy', lambda I, a, k: copy(I, toarr(I, a[0]))); add('shape', lambda I, a, k: arr_attr(I, toarr(I, a[0]), 'shape')); add('size', lambda I, a, k: arr_attr(I, toarr(I, a[0]), 'size')); add('ndim', lambda I, a, k: len(toarr(I, a[0]).dims))
    add('clip', lambda I, a, k: clip(I, a[0], a[1] if len(a) > 1 else k.get('a_min'), a[2] if len(a) > 2 else k.get('a_max')))
    add('allclose', allclose); add('isclose', isclose)
    add('array_equal', lambda I, a, k: reduce_bool(I, compare(I, ast.Eq(), toarr(I, a[0]), toarr(I, a[1])), False, None))
    add('sort', lambda I, a, k: sort_(I, a[0], a[1] if len(a) > 1 else k.get('axis', -1))); add('argsort', lambda I, a, k: argsort_(I, a[0], a[1] if len(a) > 1 else k.get('axis', -1)))
    add('seterr', lambda I, a, k: I.new_dict({})); add('errstate', lambda I, a, k: None); add('geterr', lambda I, a, k: I.new_dict({})); add('set_printoptions', lambda I, a, k: None)
    add('isscalar', lambda I, a, k: not isinstance(a[0], (Arr, ListRef, tuple, ObjRef)) and I.scalar(a[0]) is not None)
    add('iterable', lambda I, a, k: isinstance(a[0], (Arr, ListRef, tuple, str)))
    add('fill_diagonal', lambda I, a, k: set_all(I, diag(I, [a[0]], {}), a[1]))
    def tal(I, a, k):
        A, ix = toarr(I, a[0]), toarr(I, a[1]); ax = axes_arg(I, A, a[2] if len(a) > 2 else k.get('axis'))[0]
        if isinstance(A.dims[ax], Axis): raise Undecided('take_along_axis over rays')
        dims = list(bdims(I, [A.dims[:ax] + (1,) + A.dims[ax + 1:], ix.dims])); 
        ie = bcast(I, ix, dims); ad = dims[:ax] + [A.dims[ax]] + dims[ax + 1:]
        ae = bcast(I, A, ad); st = strides(cshape(ad)); out = []
        for p, jx in enumerate(indices(cshape(dims))):
            ch = [ae[sum(x * s for x, s in zip(jx[:ax] + (q,) + jx[ax + 1:], st))] for q in range(A.dims[ax])]
            out.append(select_const(I, ch, ie[p]))
        return I.new_arr(dims, out, I.adt(A))
    add('take_along_axis', tal)
    def histogram2d(I, a, k):
        x, y = toarr(I, a[0]), toarr(I, a[1])
        ev = EventLike(I, 'histogram2d', (x, y) + tuple(a[2:]), k)
        I.events.append(ev)
        b = k.get('bins', a[2] if len(a) > 2 else 10)
        if isinstance(b, ListRef): b = tuple(x for c, x in I.get(b.oid).items)
        bx, by = [I.as_int(q) for q in (b if isinstance(b, tuple) else (b, b))]
        if bx * by > 200: raise Undecided('large histogram')
        t = 'histogram%d.' % len(I.events)
        cells = lambda nm, *sh: I.new_arr(sh, [dd.leaf(n.atom('%s%s%s' % (t, nm, list(ix)))) for ix in indices(sh)], 'f')
        ev.out = (cells('cell', bx, by), cells('xedge', bx + 1), cells('yedge', by + 1))
        return ev.out
    add('histogram2d', histogram2d)
    def maximum_like(I, a, k): raise Undecided('select')
    add('select', lambda I, a, k: np_select(I, a, k))
    add('vectorize', lambda I, a, k: _und('vectorize'))
    for nm in ('r_', 'c_', 's_', 'mgrid', 'ogrid', 'index_exp'): d[nm] = IndexMaker('s_' if nm == 'index_exp' else nm)
    d['pi'] = Sc(dd.leaf(n.pi_()), 'f')
    for nm in ('inf', 'Inf', 'infty', 'PINF'): d[nm] = Sc(dd.leaf(n.pinf()), 'f')
    d['NINF'] = Sc(dd.leaf(n.ninf()), 'f')
    for nm in ('nan', 'NaN', 'NAN'): d[nm] = Sc(dd.leaf(n.nan()), 'f')
    d['newaxis'] = None
    d['ndarray'] = TypeV('ndarray')
    for nm in 'float64 float32 float_ int_ int64 int32 bool_ intp uint8 int8 int16 uint16 short byte ubyte uint32 uint64 double'.split():
        d[nm] = TypeV(nm)
        base = 'float' if nm in ('float64', 'float32', 'float_', 'double') else 'bool' if nm == 'bool_' else 'int'
        def cast_(I, a, k, base=base, nm=nm):
            v = a[0] if a else 0
            if isinstance(v, (Arr, ListRef, tuple)) and not I.scalar(v): return toarr(I, v, Narrow.of(nm) if nm in NARROW else 'f32' if nm == 'float32' else {'float': 'f', 'bool': 'b', 'int': 'i'}[base])
            return I.typecalls[base].fn(I, a, k)
        I.typecalls[nm] = Builtin(nm, cast_)
    d['float'] = TypeV('float'); d['int'] = TypeV('int'); d['bool'] = TypeV('bool')
    d['integer'] = TypeV('integer'); d['floating'] = TypeV('floating'); d['number'] = TypeV('number')
    def finfo(I, a, k): return EpsObj()
    add('finfo', finfo)
    la = {}
    I.ext['numpy.linalg'] = ModuleVal('numpy.linalg', la); d['linalg'] = I.ext['numpy.linalg']; d['linalg'].strict = True
    la['inv'] = Builtin('inv', lambda I, a, k: inv(I, a[0])); la['norm'] = Builtin('norm', norm)
    la['solve'] = Builtin('solve', solve); la['det'] = Builtin('det', det)
    rn = {}
    I.ext['numpy.random'] = ModuleVal('numpy.random', rn); d['random'] = I.ext['numpy.random']; d['random'].strict = True
    rn['uniform'] = Builtin('uniform', uniform)
    rs = Builtin('random_sample', lambda I, a, k: rnd(I, 0, 1, a[0] if a else k.get('size')))
    rn['random_sample'] = rn['random'] = rn['ranf'] = rn['sample'] = rs
    rn['rand'] = Builtin('rand', lambda I, a, k: rnd(I, 0, 1, tuple(a) if a else None))
    def seed(I, a, k):
        if (a or k) and not (a and a[0] is None): I.seeds.append(I.loc)
    rn['seed'] = Builtin('seed', seed)
    mt = {}
    for nm in ('sqrt', 'sin', 'cos', 'tan', 'exp', 'log', 'floor', 'ceil', 'fabs', 'degrees', 'radians', 'log10'): mt[nm] = d[nm]
    for x, y in (('acos', 'arccos'), ('asin', 'arcsin'), ('atan', 'arctan'), ('atan2', 'arctan2'), ('hypot', 'hypot'), ('pow', 'power'), ('isinf', 'isinf'), ('isnan', 'isnan')): mt[x] = d[y]
    mt['pi'] = d['pi']; mt['inf'] = d['inf']; mt['nan'] = d['nan']
    I.ext['math'] = ModuleVal('math', mt); I.ext['math'].strict = True

def np_select(I, a, k):
    cl = [x for _, x in I.iterate(a[0])]; vl = [x for _, x in I.iterate(a[1])]
    r = a[2] if len(a) > 2 else k.get('default', 0)
    for c, v in reversed(list(zip(cl, vl))): r = where(I, [c, v, r], {})
    return r

class EpsObj(HostObj):
    def attr(self, I, name):
        if name == 'eps': return Sc(dd.c(Fraction(1, 2**52)), 'f')
        return MISSING

class EventLike(object):
    def __init__(self, I, name, args, kw): self.pc, self.name, self.args, self.kw, self.loc = I.pc, name, args, kw, I.loc
