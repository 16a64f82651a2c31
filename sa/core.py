"""Index spaces, abstract values, abstract store."""
import itertools
from fractions import Fraction
from . import num as n, dd
from .dd import Node

class Undecided(Exception):
    """The analysis cannot model this; the obligation is left undecided."""

class AbsRaise(Exception):
    def __init__(self, exc, msg='', kind='raise', val=None):
        Exception.__init__(self, exc, msg)
        self.exc, self.msg, self.kind, self.val = exc, msg, kind, val
        self.loc = None

# ---- index spaces ----------------------------------------------------------
class Base(object):
    count = 0
    def __init__(self, name, parts=None, parent=None, care=None):
        Base.count += 1
        self.id = Base.count
        self.name, self.parts, self.parent = name, parts, parent
        self.len_node = None       # explicit length (product or literal index spaces)
        self.assoc = frozenset([self.id])       # index spaces an element's value may depend on
        self.witness = frozenset([self.id])     # index spaces certain to have an element if this has one
        self.care = care or dd.TRUE
        if parent is not None:
            self.assoc |= parent.base.assoc
            self.witness |= parent.base.witness
            self.care = dd.and_(self.care, parent.care)
        if parts:
            conds, rest = [], dd.TRUE
            for j in range(len(parts)):
                if j < len(parts) - 1:
                    s = dd.newvar(('sel', self.id, j), dd.VarD('sel', self, j, deps=frozenset([self.id]), name='from part %d of %s' % (j, name)))
                    conds.append(dd.and_(rest, s)); rest = dd.and_(rest, dd.not_(s))
                else: conds.append(rest)
            self.part_cond = conds
            care = dd.FALSE
            for cnd, ax in zip(conds, parts):
                care = dd.or_(care, dd.and_(cnd, ax.care))
                self.assoc |= ax.base.assoc
            self.care = care
            w = parts[0].base.witness
            for ax in parts[1:]: w &= ax.base.witness
            self.witness |= w
    def sel_vars(self, j):
        out = []
        for i in range(j):
            out.append((dd._varkey[('sel', self.id, i)], False))
        if j < len(self.parts) - 1: out.append((dd._varkey[('sel', self.id, j)], True))
        return out
    def implied(self):
        """condition implied by this index space having an element: a chain of parents has one"""
        r = getattr(self, '_implied', None)
        if r is None:
            r = dd.TRUE
            if self.parent is not None:
                r = dd.FALSE
                for b, m in flatten(self.parent): r = dd.or_(r, dd.and_(dd.exists(b, m), b.implied()))
            elif self.parts:
                r = dd.FALSE
                for ax in self.parts: r = dd.or_(r, ax.base.implied())
            self._implied = r
        return r
    def __repr__(self): return 'Base(%s)' % self.name

def norm_mask(base, mask):
    """an element of the index space witnesses "some element satisfies m'" when it satisfies m'"""
    if base.parts:
        if not any(dd.vars_[v].kind == 'exists' for v in dd.support(mask)): return mask
        vals = [norm_mask(ax.base, dd.and_(ax.mask, part_val(mask, base, j))) for j, ax in enumerate(base.parts)]
        r = vals[-1]
        for j in range(len(vals) - 2, -1, -1): r = dd.ite(base.part_cond[j], vals[j], r)
        return r
    for v in dd.support(mask):
        d = dd.vars_[v]
        if d.kind != 'exists' or d.a.id not in base.witness: continue
        care = base.care if d.a is not base else dd.TRUE
        h0, l0 = dd.cofactor(mask, v, True), dd.cofactor(mask, v, False)
        hi, lo = dd.and_(h0, care), dd.and_(l0, care)
        if dd.and_(lo, dd.not_(d.b)) is hi: mask = h0; continue     # v false: no element satisfies d.b
        if not dd.implies(hi, d.b): continue
        if dd.implies(lo, d.b) or dd.implies(lo, hi): mask = dd.cofactor(mask, v, True)
    return mask

class Axis(object):
    _tab = {}
    def __new__(cls, base, mask=None):
        mask = mask or dd.TRUE
        if mask.var != dd.LEAF: mask = norm_mask(base, mask)
        k = (base.id, mask.id)
        a = cls._tab.get(k)
        if a is None:
            a = object.__new__(cls)
            a.base, a.mask = base, mask
            a.care = dd.and_(mask, base.care)
            cls._tab[k] = a
        return a
    def sub(self, m): return Axis(self.base, dd.and_(self.mask, m))
    @property
    def key(self): return '%d:%d' % (self.base.id, self.mask.id)
    def len(self):
        if self.mask is dd.FALSE: return dd.c(0)
        if self.base.len_node is not None and self.mask is dd.TRUE: return self.base.len_node
        if self.base.parts:
            r = dd.c(0)
            for b, m in flatten(self): r = dd.add(r, Axis(b, m).len())
            if r.var == dd.LEAF and r.val.kind == 0 and r.val.const is None:
                n.atoms.setdefault(r.val.fp, ('len', self)); r.val.isint = True
                if r.val.lo < 0: r.val.lo = 0.0
            return r
        return dd.leaf(n.atom('len:' + self.key, lo=0.0, isint=True, desc=('len', self), expr='len(%s)' % self.base.name))
    def pos(self):
        if self.base.parts:
            fl = flat_idx(self)
            off, vals = dd.c(0), []
            for j, b, m in fl:
                ax = Axis(b, m)
                vals.append((j, dd.add(off, ax.pos())))
                off = dd.add(off, ax.len())
            if not vals: return dd.c(0)
            r = vals[-1][1]
            for j, v in reversed(vals[:-1]): r = dd.ite(self.base.part_cond[j], v, r)
            return r
        return dd.leaf(n.atom('pos:' + self.key, lo=0.0, isint=True, deps=frozenset([self.base.id]), desc=('pos', self), expr='index_in(%s)' % self.name))
    def pos_parts(self):
        """[(part condition, base, mask, position leaf value number)]"""
        if not self.base.parts:
            return [(dd.TRUE, self.base, self.mask, self.pos().val)]
        out, off = [], dd.c(0)
        for j, b, m in flat_idx(self):
            ax = Axis(b, m)
            out.append((self.base.part_cond[j], b, m, dd.add(off, ax.pos()).val))
            off = dd.add(off, ax.len())
        return out
    @property
    def name(self): return self.base.name + ('' if self.mask is dd.TRUE else '|%d' % self.mask.id)
    def nonempty(self):
        fl = flatten(self)
        r = dd.FALSE
        for b, m in fl: r = dd.or_(r, dd.exists(b, m))
        return r
    def exists(self, m):
        r = dd.FALSE
        for b, mm in flatten(self.sub(m)): r = dd.or_(r, dd.exists(b, mm))
        return r
    def __repr__(self): return 'Axis(%s)' % self.name

def part_val(node, base, j):
    for v, val in base.sel_vars(j): node = dd.cofactor(node, v, val)
    return node

def flatten(axis):
    b = axis.base
    if not b.parts:
        return [(b, axis.mask)] if axis.mask is not dd.FALSE else []
    out = []
    for j, ax in enumerate(b.parts):
        m = dd.and_(ax.mask, part_val(axis.mask, b, j))
        if m is not dd.FALSE: out.append((ax.base, m))
    return out

def flat_idx(axis):
    """like flatten, but with the part number (None when not a concatenation)"""
    b = axis.base
    if not b.parts: return [(None, b, axis.mask)]
    out = []
    for j, ax in enumerate(b.parts):
        m = dd.and_(ax.mask, part_val(axis.mask, b, j))
        if m is not dd.FALSE: out.append((j, ax.base, m))
    return out

_concats = {}
def concat_axis(axes):
    parts = []
    for a in axes:
        for b, m in flatten(a): parts.append((b, m))
    if not parts: return None, parts
    if len(parts) == 1: return Axis(*parts[0]), parts
    k = tuple((b.id, m.id) for b, m in parts)
    base = _concats.get(k)
    if base is None:
        base = Base('(' + '+'.join(b.name for b, m in parts) + ')', [Axis(b, m) for b, m in parts])
        _concats[k] = base
    return Axis(base), parts

def axis_equiv(A, B, pc, report=False):
    if A is B: return True
    fa, fb = flatten(A), flatten(B)
    unsure = [False]
    def live(f):
        out = []
        for b, m in f:
            d = dd.sat(dd.and_(pc, dd.and_(m, b.care)), elem=b.witness, report=report)
            if d is None: continue
            if d.imp: unsure[0] = True
            out.append((b, m))
        return out
    if A.base is B.base and not A.base.parts:
        d = dd.differ(A.mask, B.mask, dd.and_(pc, A.base.care), elem=A.base.witness, report=report)
        if d is None: return True
        fa, fb = live(fa), live(fb)
        if len(fa) == len(fb) and all(x[0] is y[0] and dd.differ(x[1], y[1], dd.and_(pc, x[0].care), elem=x[0].witness) is None for x, y in zip(fa, fb)): return True
        return None if d.imp else False
    fa, fb = live(fa), live(fb)
    if len(fa) != len(fb) or any(x[0] is not y[0] for x, y in zip(fa, fb)): return None if unsure[0] else False
    for (b, m), (_, m2) in zip(fa, fb):
        d = dd.differ(m, m2, dd.and_(pc, b.care), elem=b.witness, report=report)
        if d is not None: return None if d.imp else False
    return True

def twin(A):
    """a second index running over the same positions, independent of the first (outer products of a grid with itself)"""
    b = A.base
    if getattr(b, 'twin', None) is None:
        t = Base(b.name + "'"); t.len_node = b.len_node
        b.twin = t; t.twin = b
    return Axis(b.twin)

def twinable(A): return A.mask is dd.TRUE and A.base.len_node is not None and not A.base.parts and A.base.parent is None

def subst(node, A, B):
    """element over the grid index A re-expressed over its twin B: only what is computed from the position itself"""
    bid = A.base.id
    pa, pb = A.pos().val, B.pos().val
    memo = {}
    def rec(v):
        if bid not in v.deps or v.kind: return v
        if v.fp == pa.fp: return pb
        if v in memo: return memo[v]
        ev = v.ev
        if ev is None or ev[0] == 'atom': raise Undecided('grid value')
        a = [rec(x) for x in ev[1:]]
        o = ev[0]
        if o == '+': r = n.add(*a)
        elif o == '*': r = n.mul(*a)
        elif o == 'neg': r = n.neg(*a)
        elif o == 'inv': r = n.inv(*a)
        elif o == 'sqrt': r = n.sqrt(*a)
        elif o == 'tanhalf':
            s, c = n.sincos(a[0]); r = n.div(s, n.add(n.const(1), c))
        else: r = n.opaque(o, a, v.lo, v.hi, v.imp, v.isint)
        if r.const is None and not r.kind:
            r.lo, r.hi = max(r.lo, v.lo), min(r.hi, v.hi)
        memo[v] = r
        return r
    if node.var == dd.LEAF: return dd.leaf(rec(dd.asnum(node.val))) if not isinstance(node.val, bool) else node
    if bid in dd.vars_[node.var].deps: raise Undecided('grid value under a condition')
    return dd.mk(node.var, subst(node.hi, A, B), subst(node.lo, A, B))

def reindex(node, A, B):
    """value over axis A re-expressed over the equivalent axis B"""
    if A.base is B.base: return node
    if getattr(A.base, 'twin', None) is B.base: return subst(node, A, B)
    fa = flat_idx(A)
    vals = {}
    for j, b, m in fa: vals.setdefault(b.id, []).append(node if j is None else part_val(node, A.base, j))
    r = None
    for j, b, m in reversed(flat_idx(B)):
        lst = vals.get(b.id)
        if not lst: continue
        v = lst.pop() if len(lst) > 1 else lst[0]
        r = v if r is None or j is None else dd.ite(B.base.part_cond[j], v, r)
    return r if r is not None else node

def reset():
    dd.reset(); Axis._tab.clear(); _concats.clear(); Base.count = 0

# ---- values ------------------------------------------------------------------
class Sc(object):
    __slots__ = ('node', 'dt')
    def __init__(self, node, dt='f'): self.node, self.dt = node, dt
    def __repr__(self): return 'Sc(%s)' % dd.show(self.node)

class Arr(object):
    __slots__ = ('oid', 'dims', 'pos', 'nz', 'ro')
    def __init__(self, oid, dims, pos, nz=None):
        self.oid, self.dims, self.pos, self.nz = oid, tuple(dims), tuple(pos), nz
    def __repr__(self): return 'Arr#%d%r' % (self.oid, self.dims)

class ArrRec(object):
    __slots__ = ('elems', 'dt', 'tag', 'loc')
    def __init__(self, elems, dt, tag=None, loc=None):
        self.elems, self.dt, self.tag, self.loc = tuple(elems), dt, tag, loc

class ListRec(object):
    __slots__ = ('items',)          # tuple of (guard node, value)
    def __init__(self, items): self.items = tuple(items)

class DictRec(object):
    __slots__ = ('d', 'kind')
    def __init__(self, d, kind='dict'): self.d, self.kind = d, kind

class ObjRec(object):
    __slots__ = ('d',)
    def __init__(self, d): self.d = d

class Ref(object):
    __slots__ = ('oid',)
    def __init__(self, oid): self.oid = oid
    def __eq__(self, o): return type(self) is type(o) and self.oid == o.oid
    def __hash__(self): return hash(self.oid)
    def __repr__(self): return '%s#%d' % (type(self).__name__, self.oid)
class ListRef(Ref): __slots__ = ()
class DictRef(Ref): __slots__ = ()
class ObjRef(Ref):
    __slots__ = ('cls',)
    def __init__(self, oid, cls): self.oid, self.cls = oid, cls
    def __repr__(self): return '<%s #%d>' % (self.cls.name, self.oid)

class SymItem(object):
    """one element per element of `axis` (appended in a generic loop)"""
    def __init__(self, axis, val): self.axis, self.val = axis, val

class Choice(object):
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def __repr__(self): return 'Choice(%r, %r)' % (self.a, self.b)

class Top(object):
    def __init__(self, why): self.why = why
    def __repr__(self): return 'Top(%s)' % self.why

class _Missing(object):
    def __repr__(self): return 'MISSING'
MISSING = _Missing()

class ClassVal(object):
    def __init__(self, name, bases, module): self.name, self.bases, self.module = name, bases, module; self.d = {}; self.mro_ = None
    def mro(self):
        if self.mro_ is None:
            seqs = [list(b.mro()) for b in self.bases if isinstance(b, ClassVal)] + [[b for b in self.bases if isinstance(b, ClassVal)]]
            out = [self]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs): break
                else: raise Undecided('inconsistent MRO')
                out.append(cand)
                seqs = [[x for x in s if x is not cand] for s in seqs]
            self.mro_ = out
        return self.mro_
    def lookup(self, name):
        for k in self.mro():
            if name in k.d: return k.d[name]
        return MISSING
    def __repr__(self): return '<class %s>' % self.name

class FuncVal(object):
    def __init__(self, name, args, body, env, module, defaults, kwdefaults, node, cls=None):
        self.name, self.args, self.body, self.env, self.module = name, args, body, env, module
        self.defaults, self.kwdefaults, self.node, self.cls = defaults, kwdefaults, node, cls
    def __repr__(self): return '<function %s>' % self.name

class BoundM(object):
    def __init__(self, f, self_): self.f, self.self_ = f, self_
    def __eq__(self, o): return isinstance(o, BoundM) and o.f is self.f and o.self_ == self.self_
    def __hash__(self): return hash(id(self.f))

class StaticM(object):
    def __init__(self, f): self.f = f
class ClassM(object):
    def __init__(self, f): self.f = f
class PropertyM(object):
    def __init__(self, f, setter=None): self.f, self.setter = f, setter

class Builtin(object):
    def __init__(self, name, fn, lift=True): self.name, self.fn, self.lift = name, fn, lift
    def __repr__(self): return '<builtin %s>' % self.name

class TypeV(object):
    """a builtin type usable in type()/isinstance comparisons"""
    def __init__(self, name): self.name = name
    def __repr__(self): return '<type %s>' % self.name

class ModuleVal(object):
    def __init__(self, name, d=None): self.name, self.d = name, d if d is not None else {}; self.env = None; self.file = None
    def __repr__(self): return '<module %s>' % self.name

class SliceV(object):
    __slots__ = ('a', 'b', 's')
    def __init__(self, a, b, s): self.a, self.b, self.s = a, b, s
    def __eq__(self, o): return isinstance(o, SliceV) and (self.a, self.b, self.s) == (o.a, o.b, o.s)
    def __hash__(self): return 1

class RangeV(object):
    def __init__(self, a, b, s): self.a, self.b, self.s = a, b, s

class GenericIter(object):
    """iteration over all elements of an axis: item value is generic"""
    def __init__(self, axis, item): self.axis, self.item = axis, item

class HostObj(object):
    """An environment stub: `attr(I, name)` returns a value or MISSING."""
    def attr(self, I, name): return MISSING
    def setattr(self, I, name, v): raise Undecided('attribute %s set on an opaque object' % name)
    def truth(self): return True

class SuperV(object):
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj

class State(object):
    __slots__ = ('store', 'pc')
    def __init__(self, store, pc): self.store, self.pc = store, pc
    def fork(self, pc): return State(dict(self.store), pc)

def cshape(dims): return tuple(d if isinstance(d, int) else 1 for d in dims)
def prod(xs):
    r = 1
    for x in xs: r *= x
    return r
def indices(shape): return itertools.product(*[range(s) for s in shape])
def strides(shape):
    out, s = [], 1
    for d in reversed(shape): out.append(s); s *= d
    return tuple(reversed(out))
