"""Gated values: reduced ordered decision diagrams whose tests are boolean atoms
(sign tests of value numbers, opaque predicates, "some element satisfies m",
"element comes from part j") and whose leaves are value numbers or booleans.
Joins at control-flow merges build gates (gated SSA); there is no path
enumeration and no solver.
"""
import sys, time
from fractions import Fraction
from . import num as n
from .num import Num, const, FIN, PINF, NINF, NAN
from . import wit

sys.setrecursionlimit(20000)
LEAF = 1 << 60

class Node(object):
    __slots__ = ('var', 'hi', 'lo', 'val', 'id', 'imp', 'deps')
    def __repr__(self): return show(self)

class TooBig(Exception): pass

XDEP = frozenset(['X'])      # marks values that combine several rays
bdesc = {}
_uniq = {}; _leaf = {}; _memo = {}
vars_ = []           # descriptors
NSEL = 4096
_nsel = [NSEL]
def nvars(): return len(vars_) - _nsel[0]
_varkey = {}
_ids = [0]
TRUE = FALSE = None
LIMIT = 400000

def reset():
    global TRUE, FALSE
    _uniq.clear(); _leaf.clear(); _memo.clear(); vars_[:] = [None] * NSEL; _nsel[0] = NSEL; _varkey.clear()
    _signs.clear(); _feas.clear(); _pair.clear()
    n.reset(); wit.reset(); bdesc.clear()
    TRUE = leaf(True); FALSE = leaf(False)

class VarD(object):
    __slots__ = ('kind', 'a', 'b', 'imp', 'deps', 'name')
    def __init__(self, kind, a=None, b=None, imp=False, deps=n.NODEPS, name=''):
        self.kind, self.a, self.b, self.imp, self.deps, self.name = kind, a, b, imp, deps, name

def leaf(v):
    key = v if isinstance(v, bool) else id(v)
    x = _leaf.get(key)
    if x is None:
        x = Node(); x.var = LEAF; x.hi = x.lo = None; x.val = v
        _ids[0] += 1; x.id = _ids[0]
        if isinstance(v, Num): x.imp, x.deps = v.imp, v.deps
        else: x.imp, x.deps = False, n.NODEPS
        _leaf[key] = x
    return x

def c(v):
    """constant leaf"""
    return leaf(const(v))

def mk(var, hi, lo):
    if hi is lo: return hi
    d = vars_[var]
    if d.kind == 'lt' and hi.var == var + 1:      # lt and gt exclude each other
        hi = hi.lo
        if hi is lo: return hi
    key = (var, hi.id, lo.id)
    x = _uniq.get(key)
    if x is None:
        x = Node(); x.var = var; x.hi = hi; x.lo = lo; x.val = None
        _ids[0] += 1; x.id = _ids[0]
        x.imp = hi.imp or lo.imp or d.imp
        x.deps = hi.deps | lo.deps | d.deps
        _uniq[key] = x
        if len(_uniq) > LIMIT: raise TooBig()
    return x

def newvar(key, d):
    i = _varkey.get(key)
    if i is None:
        if d.kind == 'sel' and _nsel[0] > 0:       # tested first: keeps the parts of a concatenation apart
            _nsel[0] -= 1; i = _nsel[0]; vars_[i] = d
        else: i = len(vars_); vars_.append(d)
        _varkey[key] = i
    return mk(i, TRUE, FALSE)

def batom(name, imp=False, deps=n.NODEPS, desc=None):
    x = newvar(('atom', name), VarD('atom', imp=imp, deps=deps, name=name))
    if desc is not None: bdesc[x.var] = desc
    return x

_fr = [0]
def bfresh(name, imp=False, deps=n.NODEPS):
    _fr[0] += 1
    return batom('%s#%d' % (name, _fr[0]), imp, deps)

def exists(base, mask):
    """Some element of `base` satisfies mask."""
    if mask is FALSE: return FALSE
    k = ('exists', base.id, mask.id)
    return newvar(k, VarD('exists', base, mask, imp=mask.imp, deps=XDEP & mask.deps, name='exists(%s)' % base.name))

def is_leaf(x): return x.var == LEAF

def _cof(x, v):
    if x.var == v: return x.hi, x.lo
    return x, x

def ite(cd, a, b):
    if cd is TRUE: return a
    if cd is FALSE: return b
    if a is b: return a
    if a is TRUE and b is FALSE: return cd
    key = ('ite', cd.id, a.id, b.id)
    r = _memo.get(key)
    if r is None:
        v = min(cd.var, a.var, b.var)
        ch, cl = _cof(cd, v); ah, al = _cof(a, v); bh, bl = _cof(b, v)
        r = mk(v, ite(ch, ah, bh), ite(cl, al, bl))
        _memo[key] = r
    return r

def not_(a): return ite(a, FALSE, TRUE)
def and_(a, b): return ite(a, b, FALSE)
def or_(a, b): return ite(a, TRUE, b)
def xor_(a, b): return ite(a, not_(b), b)
def implies(a, b): return and_(a, not_(b)) is FALSE

def apply1(op, f, a):
    """f: leaf value -> Node"""
    key = (op, a.id)
    r = _memo.get(key)
    if r is None:
        if a.var == LEAF: r = f(a.val)
        else:
            h, l = apply1(op, f, a.hi), apply1(op, f, a.lo)
            t = mk(a.var, TRUE, FALSE)
            r = ite(t, h, l)
        _memo[key] = r
    return r

def apply2(op, f, a, b):
    key = (op, a.id, b.id)
    r = _memo.get(key)
    if r is None:
        if a.var == LEAF and b.var == LEAF: r = f(a.val, b.val)
        else:
            v = min(a.var, b.var)
            ah, al = _cof(a, v); bh, bl = _cof(b, v)
            h, l = apply2(op, f, ah, bh), apply2(op, f, al, bl)
            r = ite(mk(v, TRUE, FALSE), h, l)
        _memo[key] = r
    return r

def restrict(x, care):
    """Simplify x using don't-cares outside care (sibling substitution)."""
    if care is TRUE or x.var == LEAF: return x
    if care is FALSE: return x
    key = ('restrict', x.id, care.id)
    r = _memo.get(key)
    if r is not None: return r
    if care.var < x.var:
        r = restrict(x, or_(care.hi, care.lo)) if False else restrict(x, exists_q(care))
    else:
        ch, cl = _cof(care, x.var)
        if ch is FALSE: r = restrict(x.lo, cl)
        elif cl is FALSE: r = restrict(x.hi, ch)
        else:
            r = mk(x.var, restrict(x.hi, ch), restrict(x.lo, cl))
    _memo[key] = r
    return r

def exists_q(care):
    return or_(care.hi, care.lo)

def cofactor(x, var, val):
    if x.var > var: return x
    key = ('cof', x.id, var, val)
    r = _memo.get(key)
    if r is None:
        if x.var == var: r = x.hi if val else x.lo
        else: r = mk(x.var, cofactor(x.hi, var, val), cofactor(x.lo, var, val))
        _memo[key] = r
    return r

def support(x):
    key = ('supp', x.id)
    r = _memo.get(key)
    if r is None:
        if x.var == LEAF: r = frozenset()
        else: r = support(x.hi) | support(x.lo) | frozenset([x.var])
        _memo[key] = r
    return r

def leaves(x):
    key = ('leaves', x.id)
    r = _memo.get(key)
    if r is None:
        if x.var == LEAF: r = frozenset([x])
        else: r = leaves(x.hi) | leaves(x.lo)
        _memo[key] = r
    return r

# ---- numeric operations ----------------------------------------------------
def asnum(v):
    if v is True: return const(1)
    if v is False: return const(0)
    return v

def add(a, b): return apply2('+', lambda x, y: leaf(n.add(asnum(x), asnum(y))), a, b)
def sub(a, b): return apply2('-', lambda x, y: leaf(n.sub(asnum(x), asnum(y))), a, b)
def mul(a, b): return apply2('*', lambda x, y: leaf(n.mul(asnum(x), asnum(y))), a, b)
def div(a, b): return apply2('/', lambda x, y: leaf(n.div(asnum(x), asnum(y))), a, b)
def neg(a): return apply1('neg', lambda x: leaf(n.neg(asnum(x))), a)
def tonum(a): return apply1('tonum', lambda x: leaf(asnum(x)), a)

_signs = {}
def lt_gt(d):
    """(lt, gt) BDDs for the sign of finite leaf d."""
    s = n.sign(d)
    if s is not None and not d.imp:
        return (TRUE if s < 0 else FALSE), (TRUE if s > 0 else FALSE)
    if d.sq is not None and not d.imp:       # a square: >= 0
        l, g = lt_gt(d.sq)
        return FALSE, or_(l, g)
    for dq, sw in ((d, False), (n.neg(d), True)):
        ds = n.atoms.get(dq.fp)
        if ds is not None and ds[0] == 'len':
            ne = ds[1].nonempty()
            return (ne, FALSE) if sw else (FALSE, ne)
        if dq.fp in n.lensum:
            ne = FALSE
            for ax in n.lensum[dq.fp]: ne = or_(ne, ax.nonempty())
            return (ne, FALSE) if sw else (FALSE, ne)
    k = (n.projkey(d), d.imp) if any(x != (0, 0) for x in d.fp) else (d.fp, d.imp)
    ent = _signs.get(k)
    q = 1
    if ent is not None:
        q = n.ratio(d, vars_[ent].a)
        if q is None: ent = None; k = (d.fp, d.imp)
    if ent is None:
        i = len(vars_)
        vars_.append(VarD('lt', d, imp=d.imp, deps=d.deps, name='%s < 0' % d.show()))
        vars_.append(VarD('gt', d, imp=d.imp, deps=d.deps, name='%s > 0' % d.show()))
        _signs[k] = i; ent = i; q = 1
    L = mk(ent, TRUE, FALSE)
    G = mk(ent, FALSE, mk(ent + 1, TRUE, FALSE))
    if q < 0: L, G = G, L
    # sharpen with the interval
    if d.lo >= 0: L = FALSE
    if d.hi <= 0: G = FALSE
    return L, G

def _lt_leaf(x, y):
    x, y = asnum(x), asnum(y)
    if x.kind == NAN or y.kind == NAN: return FALSE
    if x.kind or y.kind:
        if x.kind == y.kind: return FALSE
        return TRUE if (x.kind == NINF or y.kind == PINF) else FALSE
    d = n.sub(x, y)
    return lt_gt(d)[0]
def _gt_leaf(x, y): return _lt_leaf(y, x)
def _le_leaf(x, y):
    x, y = asnum(x), asnum(y)
    if x.kind == NAN or y.kind == NAN: return FALSE
    if x is y: return TRUE
    return not_(_lt_leaf(y, x))
def _eq_leaf(x, y):
    x, y = asnum(x), asnum(y)
    if x.kind == NAN or y.kind == NAN: return FALSE
    if x is y and not x.uninit: return TRUE
    if x.kind or y.kind: return FALSE
    l, g = lt_gt(n.sub(x, y))
    return not_(or_(l, g))

def lt(a, b): return apply2('<', _lt_leaf, a, b)
def gt(a, b): return apply2('<', _lt_leaf, b, a)
def le(a, b): return apply2('<=', _le_leaf, a, b)
def ge(a, b): return apply2('<=', _le_leaf, b, a)
def eq(a, b): return apply2('==', _eq_leaf, a, b)
def ne(a, b): return not_(eq(a, b))

def abs_(a): return ite(lt(a, c(0)), neg(a), a)
def min_(a, b): return ite(lt(b, a), b, a)
def max_(a, b): return ite(lt(a, b), b, a)

def _sqrt_leaf(x):
    x = asnum(x)
    if x.kind == FIN and x.sq is not None and x.const is None:
        return abs_(leaf(x.sq))
    r = n.known_root(x)
    if r is not None: return abs_(leaf(r))
    return leaf(n.sqrt(x))
def sqrt(a): return apply1('sqrt', _sqrt_leaf, a)
def powi(a, k): return apply1('pow%d' % k, lambda x: leaf(n.powi(asnum(x), k)), a)
def sin(a): return apply1('sin', lambda x: leaf(n.sincos(asnum(x))[0]), a)
def cos(a): return apply1('cos', lambda x: leaf(n.sincos(asnum(x))[1]), a)

def isinf(a): return apply1('isinf', lambda x: TRUE if asnum(x).kind in (PINF, NINF) else FALSE, a)
def isnan(a): return apply1('isnan', lambda x: TRUE if asnum(x).kind == NAN else FALSE, a)

def truth(a):
    """nonzero"""
    def f(x):
        if isinstance(x, bool): return leaf(x)
        if x.kind: return TRUE
        return not_(_eq_leaf(x, const(0)))
    return apply1('truth', f, a)

def opaque(fn, *args, **kw):
    def rec(i, acc):
        if i == len(args): return leaf(n.opaque(fn, acc, **kw))
        return apply1(('opq', fn, tuple((x.fp, x.kind) for x in acc), i, tuple(a.id for a in args)), lambda x: rec(i + 1, acc + [asnum(x)]), args[i])
    return rec(0, [])

# ---- theory: feasibility of a set of literals ------------------------------
_feas = {}; _pair = {}

def _affine(d1, d2):
    """(q, k) with d1 = q*d2 + k, small rationals, or None"""
    key = (d1.fp, d2.fp)
    if key in _pair: return _pair[key]
    r = None
    dy = n.fsub(d2.fp[0], d2.fp[1])
    if dy != (0, 0):
        q = n.fmul(n.fsub(d1.fp[0], d1.fp[1]), n.finv(dy))
        if q[1] == 0:
            k = n.fsub(d1.fp[0], n.fmul(q, d2.fp[0]))
            if k[1] == 0:
                q = n.rat_reconstruct(q[0], 1 << 16)
                if q is not None and q != 0:
                    k2 = n.rat_reconstruct(k[0], 1 << 29)
                    if k2 is None: k2 = n.rat_reconstruct(k[0], 1 << 16, 1 << 43)
                    if k2 is not None: r = (q, k2)
    _pair[key] = r
    return r

def _rng(sg):
    # sign description: 'lt','gt','eq','ge','le','ne' -> set of signs
    return sg

def _signset(lits):
    """{var index of lt: set of possible signs}"""
    out = {}
    for v, val in lits.items():
        d = vars_[v]
        if d.kind == 'lt':
            s = out.setdefault(v, {-1, 0, 1})
            s &= ({-1} if val else {0, 1})
        elif d.kind == 'gt':
            s = out.setdefault(v - 1, {-1, 0, 1})
            s &= ({1} if val else {-1, 0})
    for v, s in out.items():
        d = vars_[v].a
        if d.lo >= 0: s.discard(-1)
        if d.hi <= 0: s.discard(1)
    return out

def _combine_empty(q1, s1, q2, s2, k, d2=None):
    """could q1*x + q2*y + k == 0 have a solution with sign sets s1 for x, s2 for y?"""
    lo1, hi1 = _bounds(q1, s1); lo2, hi2 = _bounds(q2, s2)
    return lo1, hi1, lo2, hi2

def _pos(s, q):
    """signs of q*x for sign set s"""
    return set(x if q > 0 else -x for x in s)

def _ex_implies(base, a, b):
    """mask a of an exists-atom implies mask b (modulo theory)"""
    key = ('eximp', base.id, a.id, b.id)
    r = _memo.get(key)
    if r is None:
        r = implies(a, b)
        if not r:
            _memo[key] = False
            try: r = sat(and_(and_(and_(a, base.care), not_(b)), base.implied()), 3000, base.witness) is None
            except TooBig: r = False
        _memo[key] = r
    return r

_elem = [n.NODEPS]      # index spaces a generic element of which is being talked about
def feasible(lits, newv=None):
    """could the literals hold together?  (newv: the rest is known to be feasible without it)"""
    ss = _signset(lits)
    if newv is not None:
        k = vars_[newv].kind
        nv = newv if k == 'lt' else newv - 1 if k == 'gt' else None
        if nv is not None and nv not in ss: nv = None
    for v, s in ss.items():
        if not s: return False
    vs = sorted(ss)
    if newv is None: pairs = [(v1, v2) for i, v1 in enumerate(vs) for v2 in vs[i + 1:]]
    elif nv is not None: pairs = [(nv, v2) for v2 in vs if v2 != nv]
    else: pairs = ()
    # pairs d1 = q*d2 + k
    for v1, v2 in pairs:
        r = _affine(vars_[v1].a, vars_[v2].a)
        if r is None: continue
        q, k = r
        a = _pos(ss[v2], q)           # signs of q*d2
        ok = False
        for x in ss[v1]:
            for y in a:               # x = y + k solvable?
                if k > 0 and not (y == 1 and x <= 0) and not (y == 0 and x <= 0): ok = True
                elif k < 0 and not (y == -1 and x >= 0) and not (y == 0 and x >= 0): ok = True
                elif k == 0 and x == y: ok = True
        if not ok: return False
    # triples +-d1 +-d2 +-d3 = const
    if len(vs) >= 3 and pairs:
        for v1, v2 in pairs:
            for v3 in vs:
                if v3 <= v2 or v3 == v1 or v1 == v2: continue
                t = _triple(v1, v2, v3)
                if t is None: continue
                sj, sl, k = t         # di + sj*dj + sl*dl = k
                S = [ss[v1], _pos(ss[v2], sj), _pos(ss[v3], sl)]
                mx = [max(s) for s in S]; mn = [min(s) for s in S]
                if max(mx) <= 0 and (k > 0 or (k == 0 and min(mx) < 0)): return False
                if min(mn) >= 0 and (k < 0 or (k == 0 and max(mn) > 0)): return False
    # existence atoms
    ex = [(v, val) for v, val in lits.items() if vars_[v].kind == 'exists']
    if not ex: return True
    nd = vars_[newv].deps if newv is not None else None
    for v, val in ex:
        if not val:
            m = vars_[v].b
            bid = vars_[v].a.id
            sup = support(m)
            if newv is not None and newv != v and bid not in nd and newv not in sup: continue
            for w in sup:
                if w != v and w in lits: m = cofactor(m, w, lits[w])
            if m is TRUE:
                if bid in _elem[0] or any(bid in vars_[w].deps for w in lits): return False
    if newv is None or vars_[newv].kind == 'exists':
        for v, val in ex:
            if not val: continue
            u = FALSE
            for w, wval in ex:
                if not wval and vars_[v].a is vars_[w].a: u = or_(u, vars_[w].b)
            if u is not FALSE and _ex_implies(vars_[v].a, vars_[v].b, u): return False
        # an element exists only if its parent does
        need = set()
        for v, val in ex:
            if val: need.add(vars_[v].a)
        for b in need:
            c = b.implied()
            if c is not TRUE:
                for w, wv in ex: c = cofactor(c, w, wv)
                if c is FALSE: return False
    # existence with global part: exists(m) true but m cofactored by global literals is false
    for v, val in ex:
        if val:
            m = vars_[v].b
            sup = support(m)
            if newv is not None and newv != v and newv not in sup: continue
            for w in sup:
                if w in lits and not vars_[w].deps and vars_[w].kind != 'exists': m = cofactor(m, w, lits[w])
            if m is FALSE: return False
    return True

def _cyclic(lits):
    """up to four of the inequalities on the path add up to a contradiction"""
    facts = []
    for v, s in _signset(lits).items():
        d = vars_[v].a
        if d.kind or s == {-1, 0, 1} or s == {-1, 1}: continue
        if -1 not in s: facts.append((d, 0 not in s))
        if 1 not in s: facts.append((n.neg(d), 0 not in s))
    if len(facts) < 4 or len(facts) > 60: return False
    def D(f): return n.fsub(f.fp[0], f.fp[1])
    sums = {}
    for i in range(len(facts)):
        for j in range(i + 1, len(facts)):
            k = n.fadd(D(facts[i][0]), D(facts[j][0]))
            if k == (0, 0): continue
            sums.setdefault(k, []).append((i, j))
    for k, lst in sums.items():
        other = sums.get(((-k[0]) % n.P, (-k[1]) % n.P))
        if not other: continue
        for i, j in lst[:6]:
            for p, q in other[:6]:
                if len({i, j, p, q}) < 4: continue
                t = n.add(n.add(facts[i][0], facts[j][0]), n.add(facts[p][0], facts[q][0]))
                if t.const is None: continue
                if t.const < 0 or (t.const == 0 and any(facts[z][1] for z in (i, j, p, q))): return True
    return False

DEADLINE = [float('inf')]      # wall-clock end of this check; what is left then is undecided
MISSES = 25                    # candidate mismatches without a witness after which an obligation is given up
_refcount = [0]
def _refute(lits):
    """products of inequalities on the path contradict another one (Positivstellensatz certificates
    of the form  f*(g + h) = -c*k  or  f*g = -c*k  with f, g, h, k >= 0 and one side strict)"""
    facts = {}
    def fact(d, strict):
        if d.kind or d.const is not None: return
        facts[d] = facts.get(d, False) or strict
    for v, s in _signset(lits).items():
        d = vars_[v].a
        if s == {-1, 0, 1} or s == {-1, 1}: continue
        if -1 not in s: fact(d, 0 not in s)
        if 1 not in s: fact(n.neg(d), 0 not in s)
    base = list(facts)
    if not base or len(base) > 60: return False
    deps = n.NODEPS
    for d in base: deps |= d.deps
    for d, strict in list(n.positives.items())[:40]:
        if d.deps <= deps: fact(d, strict or d.lo > 0)
    fl = list(facts.items())
    _refcount[0] += 1
    if _refcount[0] > 400: raise TooBig()
    # multipliers known to be nonnegative: facts, their pairwise products and (weighted) sums
    mult = {}
    def put(m, st): mult.setdefault(n.projkey(m), []).append((m, st))
    for i, (g, sg) in enumerate(fl):
        put(g, sg)
        for j in range(i, len(fl)):
            h, sh = fl[j]
            put(n.mul(g, h), sg and sh)
            if j != i and len(fl) <= 40:
                for w in (1, 2, Fraction(1, 2)): put(n.add(g, n.mul(n.const(w), h)), sg or sh)
    mono = [d for d, st in n.positives.items() if st and not d.deps][:6]
    mono = [n.const(1)] + mono + [n.inv(d) for d in mono]
    for i, x in enumerate(mono):
        for j in range(i, len(mono)):
            xy = n.mul(x, mono[j])
            for k in range(j, len(mono)):
                m = n.mul(xy, mono[k])
                if m.const is None: put(m, True)
    for f, sf in fl:
        fi = n.inv(f) if sf else None
        for k, sk in fl:
            if k is f: continue
            t = n.add(f, k)
            if t.const is not None:
                if t.const <= 0 and (t.const < 0 or sf or sk): return True
            elif sf or sk:
                t = n.neg(t)                     # f + k = -t with t >= 0
                if t.lo >= 0 or t.sq is not None: return True
                for d, st in mult.get(n.projkey(t), ()):
                    q = n.ratio(t, d)
                    if q is not None and q > 0: return True
            if fi is None: continue
            m = n.neg(n.mul(k, fi))              # k = -m*f, f > 0
            if m.const is not None:
                if m.const > 0: return True
                continue
            if m.lo > 0 or (m.lo >= 0 and sk): return True
            for mm, inverted in ((m, False), (n.inv(m), True)):
                for d, st in mult.get(n.projkey(mm), ()):
                    q = n.ratio(mm, d)
                    if q is not None and q > 0 and (st or (sk and not inverted)): return True
    return False

_trip = {}
def _triple(v1, v2, v3):
    key = (v1, v2, v3)
    if key in _trip and _trip[key][0] is vars_[v1]: return _trip[key][1]
    d1, d2, d3 = vars_[v1].a, vars_[v2].a, vars_[v3].a
    r = None
    for s2 in (1, -1):
        a = n.add(d1, d2) if s2 == 1 else n.sub(d1, d2)
        for s3 in (1, -1):
            b = n.add(a, d3) if s3 == 1 else n.sub(a, d3)
            if b.const is not None: r = (s2, s3, b.const)
    _trip[key] = (vars_[v1], r)
    return r

class Diff(object):
    def __init__(self, path, a, b, imp): self.path, self.a, self.b, self.imp = path, a, b, imp
    def text(self):
        s = ', '.join(('' if v else 'not ') + '[' + vars_[k].name + ']' for k, v in sorted(self.path.items()))
        return 'got %s, required %s%s' % (_ls(self.a), _ls(self.b), (' when ' + s) if s else '')

def _ls(v): return str(v) if isinstance(v, bool) else v.show()

def _leaf_same(x, y, path, boundary):
    if x is y: return not (isinstance(x, Num) and x.uninit)
    if isinstance(x, bool) or isinstance(y, bool):
        return asnum(x) is asnum(y)
    if x.kind != y.kind: return False
    if x.kind: return True
    if x.fp == y.fp: return True
    d = n.sub(x, y)
    if d.const == 0: return True
    ax, ay = n.atoms.get(x.fp), n.atoms.get(y.fp)
    if ax is not None and ay is not None and ax[0] == ay[0] and ax[0] in ('len', 'pos') and ax[1].base is ay[1].base:
        # the same index space up to a condition on the whole program state
        p, q = ax[1].mask, ay[1].mask
        for v, val in path.items():
            if not vars_[v].deps: p, q = cofactor(p, v, val), cofactor(q, v, val)
        if p is q: return True
    # equal modulo the equations on the path
    eqs = [vars_[v].a for v, val in path.items()
           if vars_[v].kind == 'lt' and val is False and path.get(v + 1) is False]
    for e in eqs:
        if n.ratio(d, e) is not None: return True
    for i, e in enumerate(eqs):
        for s in (n.add(d, e), n.sub(d, e)):
            for e2 in eqs[i + 1:]:
                if n.ratio(s, e2) is not None: return True
    return False

def _thin(v):
    """an equality met by chance only: not one of whole numbers, nor of the user's parameters"""
    return not v.a.isint and bool(v.deps)

def _neq_leaf(x, y): return FALSE if _leaf_same(x, y, {}, True) else TRUE

def differ(a, b, care=None, boundary=True, budget=60000, pathinit=None, elem=n.NODEPS, deep=True, report=False, misses=None):
    """None if a == b wherever care holds (modulo theory); else a Diff.  With
    boundary=False differences confined to an equality of two quantities are
    ignored.  A Diff with imp=True is not reportable."""
    if care is None: care = TRUE
    found = [None]; count = [0]; miss = [0]; maxmiss = MISSES if misses is None else misses
    seen = {}
    def rec(a, b, care, path):
        if a is b and not _has_uninit(a): return
        if care is FALSE: return
        count[0] += 1
        if count[0] > budget or (count[0] & 63 == 0 and time.time() > DEADLINE[0]): raise TooBig()
        v = min(a.var, b.var, care.var)
        if v == LEAF:
            if _leaf_same(a.val, b.val, path, boundary): return
            if time.time() > DEADLINE[0]: raise TooBig()
            if not feasible(path) or _cyclic(path): return
            imp = a.imp or b.imp or any(vars_[k].imp for k in path)
            if not imp and ('X' in a.deps or 'X' in b.deps or any('X' in vars_[k].deps for k in path)):
                # several rays at once: only a model with several rays settles it
                if not report or not deep: imp = True
                elif _refute(path): return
                elif not wit.xcheck(path, a.val, b.val):
                    miss[0] += 1
                    if miss[0] > maxmiss: raise TooBig()
                    imp = True
            elif deep and not imp:
                w = wit.check(path, a.val, b.val, _elem[0], True) if report else None
                if not w and _refute(path): return
                if report and w is False:
                    miss[0] += 1
                    if miss[0] > maxmiss: raise TooBig()
                    if wit.check(path, a.val, b.val, _elem[0], corners=boundary) is False: imp = True
            if found[0] is None or (found[0].imp and not imp):
                found[0] = Diff(dict(path), a.val, b.val, imp)
            return
        ah, al = _cof(a, v); bh, bl = _cof(b, v); ch, cl = _cof(care, v)
        for val, x, y, z in ((True, ah, bh, ch), (False, al, bl, cl)):
            if z is FALSE or (x is y and not _has_uninit(x)): continue
            path[v] = val
            if vars_[v].kind == 'lt' and val: path[v + 1] = False; setb = True
            else: setb = False
            ok = True
            if not boundary and val is False and ((vars_[v].kind == 'gt' and path.get(v - 1) is False) or
                    (vars_[v].kind == 'lt' and path.get(v + 1) is False)) and _thin(vars_[v]):
                ok = False
            if ok and feasible(path, v): rec(x, y, z, path)
            del path[v]
            if setb: del path[v + 1]
            if found[0] is not None and not found[0].imp: return
    if a is b and not _has_uninit(a): return None
    try: nq = and_(care, apply2('neq', _neq_leaf, a, b))
    except TooBig: nq = care
    if nq is FALSE: return None
    old = _elem[0]; _refcount[0] = 0
    _elem[0] = elem | a.deps | b.deps | care.deps
    try: rec(a, b, nq, dict(pathinit or {}))
    except TooBig:
        if not report: raise
        if found[0] is None or found[0].imp: found[0] = Diff({}, True, True, True)
    finally: _elem[0] = old
    if report and deep and found[0] is not None and found[0].imp and not pathinit and wit.BUDGET[0] > 0:
        t0 = time.time()
        w = wit.sweep(nq, a, b, elem)
        if w: found[0] = Diff(w[0], w[1], w[2], False)
        else: wit.BUDGET[0] -= time.time() - t0
    return found[0]

def _has_uninit(x):
    key = ('uninit', x.id)
    r = _memo.get(key)
    if r is None:
        if x.var == LEAF: r = isinstance(x.val, Num) and x.val.uninit
        else: r = _has_uninit(x.hi) or _has_uninit(x.lo)
        _memo[key] = r
    return r

def sat(cond, budget=60000, elem=n.NODEPS, deep=False, report=False, misses=None):
    """A feasible path making cond true, or None. Returns (path, imp)."""
    d = differ(cond, FALSE, budget=budget, elem=elem, deep=deep or report, report=report, misses=misses)
    return d

def show(x, depth=4):
    if x.var == LEAF: return _ls(x.val)
    if depth == 0: return '...'
    return '(%s ? %s : %s)' % (vars_[x.var].name, show(x.hi, depth - 1), show(x.lo, depth - 1))

reset()
