"""Value numbers: leaves of the value domain.

A numeric leaf is a *value number*: an element of GF(p^2)^K obtained by giving
every atom (input quantity) a random field element and interpreting +,-,*,/ and
sqrt in the field (global value numbering by random interpretation, Gulwani &
Necula, POPL 2004).  Two leaves with equal fingerprints denote the same
rational/algebraic function of the atoms (error probability < 2^-100); nothing
of the analysed program is executed on numbers.  Each leaf also carries a
rational constant (if any), an interval, the set of index spaces it varies
over, and an `imp` bit (imprecise: produced by something the analysis does not
model, so a mismatch involving it is never reported).
"""
import hashlib, math
from fractions import Fraction

P = (1 << 61) - 1
K = 2
SEED = 1

def fadd(x, y): return ((x[0] + y[0]) % P, (x[1] + y[1]) % P)
def fsub(x, y): return ((x[0] - y[0]) % P, (x[1] - y[1]) % P)
def fmul(x, y):
    a, b = x; c, d = y
    if not b and not d: return (a * c % P, 0)
    return ((a * c - b * d) % P, (a * d + b * c) % P)
def finv(x):
    a, b = x
    if not b: return (pow(a, -1, P) if a else 0, 0)
    n = pow((a * a + b * b) % P, -1, P)
    return (a * n % P, (-b) * n % P)
def fpow(x, n):
    r = (1, 0)
    while n:
        if n & 1: r = fmul(r, x)
        x = fmul(x, x); n >>= 1
    return r

def gsqrt(a):
    """sqrt in GF(p), p = 3 mod 4, or None"""
    r = pow(a, (P + 1) // 4, P)
    return r if r * r % P == a % P else None

def fsqrt(x):
    """A square root in GF(p^2) (i^2 = -1) or None."""
    a, b = x
    if not b:
        r = gsqrt(a)
        if r is not None: return (r, 0)
        r = gsqrt((-a) % P)
        return (0, r)
    # norm must be a square in GF(p)
    n = gsqrt((a * a + b * b) % P)
    if n is None: return None
    inv2 = (P + 1) // 2
    for s in (n, P - n):
        t = (a + s) * inv2 % P
        r = gsqrt(t)
        if r:
            return (r, b * inv2 % P * pow(r, P - 2, P) % P)
    return None

def hrand(name, k):
    h = hashlib.sha256(("%d|%d|%s" % (SEED, k, name)).encode()).digest()
    return int.from_bytes(h[:16], 'big') % P

def rat_reconstruct(a, bound=1 << 26, dbound=None):
    """a mod P -> small rational or None"""
    dbound = dbound or bound
    r0, r1, s0, s1 = P, a % P, 0, 1
    while r1 > bound:
        q = r0 // r1
        r0, r1 = r1, r0 - q * r1
        s0, s1 = s1, s0 - q * s1
    if s1 == 0 or abs(s1) > dbound: return None
    if s1 < 0: r1, s1 = -r1, -s1
    return Fraction(r1, s1)

INF = float('inf')
FIN, PINF, NINF, NAN = 0, 1, -1, 2

class Num(object):
    __slots__ = ('kind', 'fp', 'const', 'lo', 'hi', 'deps', 'imp', 'expr', 'sq', 'isint', 'uninit', 'ev', 'part', 'pk', '__weakref__')
    def __repr__(self):
        return self.show()
    def show(self):
        if self.kind == PINF: return 'inf'
        if self.kind == NINF: return '-inf'
        if self.kind == NAN: return 'nan'
        if self.const is not None:
            c = self.const
            return str(c) if abs(c.numerator) < 10**6 and c.denominator < 10**6 else repr(float(c))
        return self.expr or '#%x' % (self.fp[0][0] & 0xffffff)

_tab = {}
lensum = {}         # fp -> axes whose lengths are added up
atoms = {}          # fp -> descriptor tuple (for len/pos atoms etc.)
NODEPS = frozenset()

positives = {}      # quantities known to be nonnegative -> strictly?
def reset():
    _tab.clear(); atoms.clear(); lensum.clear(); _sqrt_reg.clear(); _trig.clear(); _trigtan.clear()
    _consts.clear(); positives.clear()

def _mk(kind, fp, const=None, lo=-INF, hi=INF, deps=NODEPS, imp=False, expr=None, isint=False, ev=None, part=False):
    key = (kind, fp, imp)
    n = _tab.get(key)
    if n is None:
        n = Num()
        n.kind, n.fp, n.const, n.lo, n.hi, n.deps, n.imp, n.expr, n.sq = kind, fp, const, lo, hi, deps, imp, expr, None
        n.isint = isint; n.uninit = False; n.ev = ev; n.part = part     # ev: one defining expression, (operator, operands)
        if const is not None:
            n.lo = n.hi = float(const); n.deps = NODEPS
        _tab[key] = n
    else:
        # bounds of a value reached through a partial operation (a root) hold only where that is defined
        if n.part and not part and n.const is None and not n.kind: n.part = False; n.lo, n.hi = lo, hi
        elif not part or n.part:
            if lo > n.lo: n.lo = lo
            if hi < n.hi: n.hi = hi
        if isint: n.isint = True
        if len(deps) < len(n.deps): n.deps = deps
    return n

def _inf():
    return _mk(PINF, (), lo=INF, hi=INF)

_consts = {}
def const(c):
    if isinstance(c, float):
        if c != c: return nan()
        if c == INF: return pinf()
        if c == -INF: return ninf()
        c = Fraction(repr(c))
    if not isinstance(c, Fraction): c = Fraction(c)
    n = _consts.get(c)
    if n is None:
        v = c.numerator % P * pow(c.denominator % P, P - 2, P) % P
        n = _mk(FIN, ((v, 0),) * K, const=c, isint=c.denominator == 1)
        _consts[c] = n
    return n
def pinf(): return _mk(PINF, (), lo=INF, hi=INF)
def ninf(): return _mk(NINF, (), lo=-INF, hi=-INF)
def nan(): return _mk(NAN, ())
def nanimp(): return _mk(NAN, (), imp=True)

def atom(name, lo=-INF, hi=INF, deps=NODEPS, imp=False, isint=False, desc=None, expr=None):
    fp = tuple((hrand(name, k), 0) for k in range(K))
    n = _mk(FIN, fp, None, lo, hi, deps, imp, expr or name, isint, ev=('atom', name))
    if desc is not None: atoms[fp] = desc
    elif lo >= 0 and not imp: positives[n] = lo > 0
    return n

_cnt = [0]
def fresh(name, **kw):
    _cnt[0] += 1
    return atom('%s#%d' % (name, _cnt[0]), **kw)

def from_fp(fp, lo=-INF, hi=INF, deps=NODEPS, imp=False, expr=None, ev=None, part=False):
    # is it a constant?
    c = None
    if all(x[1] == 0 for x in fp) and all(x == fp[0] for x in fp):
        c = rat_reconstruct(fp[0][0], 1 << 29)
        if c is not None: return const(c) if not imp else _mk(FIN, fp, c, imp=True)
    return _mk(FIN, fp, None, lo, hi, deps, imp, expr, ev=ev, part=part)

def _e(fmt, *ns):
    s = fmt % tuple(n.show() for n in ns)
    return s if len(s) <= 90 else None

def _b(x):
    return 0.0 if x != x else x

def add(a, b):
    if a.kind or b.kind:
        if a.kind == NAN or b.kind == NAN: return nanimp() if a.imp or b.imp else nan()
        if a.kind and b.kind: return a if a.kind == b.kind else nan()
        return a if a.kind else b
    if a.const is not None and b.const is not None and not (a.imp or b.imp): return const(a.const + b.const)
    if a.const == 0 and not a.imp: return b
    if b.const == 0 and not b.imp: return a
    r = from_fp(tuple(map(fadd, a.fp, b.fp)), a.lo + b.lo if not math.isnan(a.lo + b.lo) else -INF,
        a.hi + b.hi if not math.isnan(a.hi + b.hi) else INF, a.deps | b.deps, a.imp or b.imp, _e('(%s + %s)', a, b), ('+', a, b), a.part or b.part)
    if a.isint and b.isint: r.isint = True
    if a.lo >= 0 and b.lo >= 0 and a.isint and b.isint:
        x, y = lens(a), lens(b)
        if x and y: lensum.setdefault(r.fp, x + y)
    return r

def lens(a):
    d = atoms.get(a.fp)
    return (d[1],) if d is not None and d[0] == 'len' else lensum.get(a.fp)

def neg(a):
    if a.kind == NAN: return a
    if a.kind: return ninf() if a.kind == PINF else pinf()
    if a.const is not None and not a.imp: return const(-a.const)
    r = from_fp(tuple(((-x[0]) % P, (-x[1]) % P) for x in a.fp), -a.hi, -a.lo, a.deps, a.imp, _e('-%s', a), ('neg', a), a.part)
    if a.isint: r.isint = True
    return r

def sub(a, b):
    return add(a, neg(b))

def _imul(a, b):
    if a is b:
        if a.lo >= 0: return a.lo * a.lo, a.hi * a.hi
        if a.hi <= 0: return a.hi * a.hi, a.lo * a.lo
        return 0.0, max(a.lo * a.lo, a.hi * a.hi)
    v = []
    for x in (a.lo, a.hi):
        for y in (b.lo, b.hi):
            t = x * y
            if t != t: t = 0.0
            v.append(t)
    return min(v), max(v)

def mul(a, b):
    if a.kind or b.kind:
        if a.kind == NAN or b.kind == NAN: return nanimp() if a.imp or b.imp else nan()
        inf, o = (a, b) if a.kind else (b, a)
        if o.kind: return pinf() if o.kind == inf.kind else ninf()
        if o.lo > 0: return inf
        if o.hi < 0: return neg(inf)
        return nan()     # inf*unknown: not a finite coordinate
    if a.const is not None and b.const is not None and not (a.imp or b.imp): return const(a.const * b.const)
    for x, y in ((a, b), (b, a)):
        if x.const is not None and not x.imp:
            if x.const == 0: return x
            if x.const == 1: return y
            if x.const == -1: return neg(y)
    lo, hi = _imul(a, b)
    r = from_fp(tuple(map(fmul, a.fp, b.fp)), lo, hi, a.deps | b.deps, a.imp or b.imp,
        _e('%s^2', a) if a is b else _e('%s*%s', a, b), ('*', a, b), a.part or b.part)
    if a is b and r.const is None: r.sq = a
    if a.isint and b.isint: r.isint = True
    return r

def inv(a):
    if a.kind: return nan() if a.kind == NAN else const(0)
    if a.const is not None and not a.imp:
        if a.const == 0: return pinf()   # numpy: 1/0 -> inf
        return const(1 / a.const)
    if all(x == (0, 0) for x in a.fp): return nan()
    if a.lo > 0: lo, hi = (1 / a.hi if a.hi != INF else 0.0), 1 / a.lo
    elif a.hi < 0: lo, hi = 1 / a.hi, (1 / a.lo if a.lo != -INF else 0.0)
    elif a.lo == 0: lo, hi = 0.0, INF
    elif a.hi == 0: lo, hi = -INF, 0.0
    else: lo, hi = -INF, INF
    return from_fp(tuple(map(finv, a.fp)), lo, hi, a.deps, a.imp, _e('1/(%s)', a), ('inv', a), a.part)

def div(a, b):
    if a.kind == FIN and a.const == 0 and not a.imp and b.kind == FIN and b.const == 0: return nan()
    if b.kind == FIN and b.const == 0 and not b.imp:
        if a.kind == FIN and a.const is not None: return pinf() if a.const > 0 else ninf()
        if a.kind == FIN and a.lo > 0: return pinf()
        if a.kind == FIN and a.hi < 0: return ninf()
        return nan()
    r = mul(a, inv(b))
    if r.expr is None or r.expr.startswith('1/') or '*1/' in r.expr:
        e = _e('%s/(%s)', a, b)
        if e and r.const is None: r.expr = e
    return r

def powi(a, n):
    if n < 0: return inv(powi(a, -n))
    if n == 0: return const(1)
    if n == 2: return mul(a, a)
    r = a
    for _ in range(n - 1): r = mul(r, a)
    if n % 2 == 0 and r.kind == FIN and r.lo < 0 and not a.part: r.lo = 0.0
    return r

# ---- square roots -------------------------------------------------------
_sqrt_reg = {}      # projective key -> list of (Num square, Num root)

def projkey(a):
    """Invariant of a under scaling by a rational."""
    try: return a.pk
    except AttributeError:
        a.pk = fmul(a.fp[0], finv(a.fp[1]))
        return a.pk

def ratio(a, b):
    """rational q with a = q*b, or None"""
    if a.kind or b.kind: return None
    if all(x == (0, 0) for x in b.fp): return None
    q = [fmul(x, finv(y)) for x, y in zip(a.fp, b.fp)]
    if any(x != q[0] for x in q) or q[0][1]: return None
    return rat_reconstruct(q[0][0])

def isqrt_frac(q):
    if q < 0: return None
    n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if n * n == q.numerator and d * d == q.denominator: return Fraction(n, d)
    return None

def register_root(root):
    """root is known nonnegative: sqrt(root^2) = root."""
    s = mul(root, root)
    _sqrt_reg.setdefault(projkey(s), []).append((s, root))

def sqrt(a):
    """leaf sqrt for a >= 0 (callers split signs of squares)."""
    if a.kind: return a if a.kind != NINF else nan()
    if a.const is not None and not a.imp:
        if a.const < 0: return nan()
        r = isqrt_frac(a.const)
        if r is not None: return const(r)
        # squarefree normalisation: sqrt(n/d) = sqrt(n*d)/d
        n, d = a.const.numerator * a.const.denominator, a.const.denominator
        sf, k = n, 1
        f = 2
        while f * f <= sf and f < 2000:
            while sf % (f * f) == 0: sf //= f * f; k *= f
            f += 1
        root = _sqrt_atom(const(sf))
        return mul(root, const(Fraction(k, d)))
    if a.hi < 0: return nan()
    if a.sq is not None and a.sq.lo >= 0: return a.sq
    if a.sq is not None and a.sq.hi <= 0: return neg(a.sq)
    return _sqrt_atom(a)

def known_root(a):
    """a quantity already present whose square is a (its sign may be unknown), or None"""
    if a.kind or a.const is not None or a.imp: return None
    roots = [fsqrt(x) for x in a.fp]
    if any(r is None for r in roots): return None
    ng = lambda r: ((-r[0]) % P, (-r[1]) % P)
    for r0 in (roots[0], ng(roots[0])):
        for r1 in (roots[1], ng(roots[1])):
            k = _tab.get((FIN, (r0, r1), False))
            if k is not None: return k
    return None

def _sqrt_atom(a):
    k = projkey(a)
    for s, r in _sqrt_reg.get(k, ()):
        q = ratio(a, s)
        if q is not None:
            t = isqrt_frac(q)
            if t is not None: return mul(const(t), r)
            if q > 0:
                return mul(sqrt(const(q)), r)
    if a.const is None or not all(x[1] == 0 for x in a.fp):
        # quotient/product of registered squares with irrational factors: try pairs
        for lst in list(_sqrt_reg.values()):
            for s, r in lst:
                if s.const is not None or s.imp: continue
                q = div(a, s)
                if q.const is None and q.kind == FIN:
                    for s2, r2 in _sqrt_reg.get(projkey(q), ()):
                        t = ratio(q, s2)
                        if t is not None and isqrt_frac(t) is not None:
                            return mul(mul(r, r2), const(isqrt_frac(t)))
                    if len(_sqrt_reg) < 40:
                        qi = inv(q)
                        for s2, r2 in _sqrt_reg.get(projkey(qi), ()):
                            t = ratio(qi, s2)
                            if t is not None and isqrt_frac(t):
                                return div(r, mul(r2, const(isqrt_frac(t))))
    roots = [fsqrt(x) for x in a.fp]
    lo = math.sqrt(a.lo) if 0 < a.lo < INF else (INF if a.lo == INF else 0.0)
    hi = math.sqrt(a.hi) if 0 <= a.hi < INF else INF
    e = _e('sqrt(%s)', a)
    if any(r is None for r in roots):
        n = atom('sqrt:%r' % (a.fp,), lo, hi, a.deps, a.imp, expr=e)
        if n.ev[0] == 'atom': n.ev = ('sqrt', a); n.part = a.part or a.lo < 0
    else:
        n = _mk(FIN, tuple(roots), None, lo, hi, a.deps, a.imp, e, ev=('sqrt', a), part=a.part or a.lo < 0)
        if not a.imp: positives[n] = lo > 0
    _sqrt_reg.setdefault(k, []).append((a, n))
    return n

# ---- trigonometry ---------------------------------------------------------
_trig = {}      # fp -> (sin, cos)
_trigtan = {}
def pi_():
    return atom('pi', math.pi, math.pi)

def set_trig(ang, s, c):
    _trig[ang.fp] = (s, c)

_q3 = None
def _pi_mult(q):
    """(sin, cos) of q*pi for a few rational q"""
    q = q % 2
    if q >= 1:
        r = _pi_mult(q - 1)
        return None if r is None else (neg(r[0]), neg(r[1]))
    if q > Fraction(1, 2):
        r = _pi_mult(1 - q)
        return None if r is None else (r[0], neg(r[1]))
    h = Fraction(1, 2)
    z, o = const(0), const(1)
    if q == 0: return z, o
    if q == h: return o, z
    if q == Fraction(1, 4):
        r = mul(sqrt(const(2)), const(h)); return r, r
    if q == Fraction(1, 6): return const(h), mul(sqrt(const(3)), const(h))
    if q == Fraction(1, 3): return mul(sqrt(const(3)), const(h)), const(h)
    return None

def sincos(a):
    if a.kind: return nan(), nan()
    t = _trig.get(a.fp)
    if t: return t
    if a.const == 0: return const(0), const(1)
    na = neg(a)
    t = _trig.get(na.fp)
    if t:
        r = (neg(t[0]), t[1]); _trig[a.fp] = r; return r
    q = ratio(a, pi_())
    if q is not None:
        r = _pi_mult(q)
        if r is not None:
            _trig[a.fp] = r; return r
    # a = +-known + k*pi/2 ?
    half = mul(pi_(), const(Fraction(1, 2)))
    for fp, (s, c) in list(_trig.items()):
        known = _tab.get((FIN, fp, False))
        if known is None or known.const == 0 or ratio(known, pi_()) is not None: continue
        for sg in (1, -1):
            d = sub(a, known if sg == 1 else neg(known))
            k = ratio(d, half)
            if k is not None and k.denominator == 1 and k != 0:
                ss, cc = (s, c) if sg == 1 else (neg(s), c)
                for _ in range(int(k) % 4): ss, cc = cc, neg(ss)
                _trig[a.fp] = (ss, cc); return ss, cc
    # half-angle parametrisation
    h = 'trig:%r' % (a.fp,)
    u = atom(h, deps=a.deps, imp=a.imp)
    if u.ev[0] == 'atom': u.ev = ('tanhalf', a)
    den = inv(add(const(1), mul(u, u)))
    s = mul(mul(const(2), u), den)
    c = mul(sub(const(1), mul(u, u)), den)
    if s.const is None: s.lo, s.hi = max(s.lo, -1.0), min(s.hi, 1.0); s.expr = _e('sin(%s)', a)
    if c.const is None: c.lo, c.hi = max(c.lo, -1.0), min(c.hi, 1.0); c.expr = _e('cos(%s)', a)
    if s.const is None:
        if a.lo >= 0 and a.hi <= 3.1415: s.lo = max(s.lo, 1e-30 if a.lo > 0 else 0.0)
        elif a.hi <= 0 and a.lo >= -3.1415: s.hi = min(s.hi, -1e-30 if a.hi < 0 else 0.0)
    if c.const is None and -1.5707 <= a.lo and a.hi <= 1.5707: c.lo = max(c.lo, 1e-30)
    _trig[a.fp] = (s, c)
    return s, c

def opaque(fn, args, lo=-INF, hi=INF, imp=False, isint=False):
    name = '%s(%s)' % (fn, ','.join('%d:%r:%d' % (a.kind, a.fp, a.imp) for a in args))
    deps = NODEPS
    for a in args:
        deps |= a.deps; imp = imp or a.imp
    e = fn + '(' + ', '.join(a.show() for a in args) + ')'
    r = atom(name, lo, hi, deps, imp, isint, expr=e if len(e) < 90 else None)
    if r.ev[0] == 'atom': r.ev = (fn,) + tuple(args)
    return r

def sign(a):
    """1, -1, 0, or None when unknown"""
    if a.kind == PINF: return 1
    if a.kind == NINF: return -1
    if a.kind == NAN: return None
    if a.const is not None: return (a.const > 0) - (a.const < 0)
    if a.lo > 0: return 1
    if a.hi < 0: return -1
    return None
