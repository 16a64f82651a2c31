"""Witness valuations: before a mismatch is reported, a valuation of the atoms by real
numbers is looked for under which every sign test on the path has the claimed outcome
and the two value numbers differ.  It is evaluated on the expressions recorded in the
abstract domain, never on the analysed program.  A mismatch without a witness is
demoted to 'undecided': this only makes the analysis quieter, never the reverse."""
import math, random, time
from . import num as n

STATS = dict(tried=0, confirmed=0, unconfirmed=0)
BUDGET = [60.0]          # seconds per run spent on searching in vain
NAN = float('nan')

def _fn(op):
    f = {'arccos': math.acos, 'arcsin': math.asin, 'arctan': math.atan, 'arctan2': math.atan2, 'exp': math.exp, 'log': math.log,
         'tan': math.tan, 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'int': math.trunc, 'float32': float,
         'pow': lambda a, b: a ** b, 'mod': lambda a, b: a - b * math.floor(a / b), 'sinh': math.sinh, 'cosh': math.cosh,
         'tanh': math.tanh, 'log10': math.log10, 'round': round, 'rint': round, 'hypot': math.hypot}.get(op)
    if f is None and op.startswith('wrap '): return lambda a: a - 256     # some number of rays too large for the type
    return f

def compile_(roots):
    """topological list of (num, code, operands)"""
    order, idx = [], {}
    stack = [(r, False) for r in roots]
    while stack:
        x, done = stack.pop()
        if x in idx: continue
        ev = x.ev
        if x.kind: code, args = 'const', ()
        elif x.const is not None: code, args = 'const', ()
        elif ev is None or ev[0] == 'atom': code, args = 'atom', ()
        else:
            code, args = ev[0], ev[1:]
            if code not in ('+', '*', 'neg', 'inv', 'sqrt', 'tanhalf') and _fn(code) is None: code, args = 'atom', ()
        if args and not done:
            stack.append((x, True))
            for a in args:
                if a not in idx: stack.append((a, False))
            continue
        idx[x] = len(order)
        order.append((x, code, tuple(idx[a] for a in args)))
    return order, idx

def sample(x, r):
    if x.fp in _pi: return math.pi
    lo, hi = x.lo, x.hi
    d = n.atoms.get(x.fp)
    if x.isint:
        a = 0 if lo < -1e8 else int(math.ceil(lo)); b = a + 9
        if hi < b: b = int(hi)
        if d is not None and d[0] == 'len': a = max(a, 1)
        return float(r.randint(a, max(a, b)))
    if lo > -1e8 and hi < 1e8:
        u = r.random()
        if r.random() < .15: u = r.choice((1e-4, 1 - 1e-4, .5))
        return lo + (hi - lo) * u
    if lo > -1e8: return lo + (math.exp(r.gauss(0, 1.2)) if r.random() < .85 else 10 ** r.uniform(-4, 3))
    if hi < 1e8: return hi - math.exp(r.gauss(0, 1.2))
    return r.gauss(0, 1) * r.choice((.1, .5, 1, 1, 2, 5))

_pi = set()

def run(order, vals):
    out = [0.0] * len(order)
    for i, (x, code, args) in enumerate(order):
        try:
            if code == 'const':
                v = float(x.const) if not x.kind else {n.PINF: n.INF, n.NINF: -n.INF}.get(x.kind, NAN)
            elif code == 'atom': v = vals[i]
            elif code == '+': v = out[args[0]] + out[args[1]]
            elif code == '*': v = out[args[0]] * out[args[1]]
            elif code == 'neg': v = -out[args[0]]
            elif code == 'inv': v = 1.0 / out[args[0]]
            elif code == 'sqrt':
                w = out[args[0]]
                v = math.sqrt(w) if w >= 0 else (0.0 if w > -1e-12 else NAN)
            elif code == 'tanhalf': v = math.tan(out[args[0]] / 2)
            else: v = float(_fn(code)(*[out[a] for a in args]))
        except (ValueError, ZeroDivisionError, OverflowError): v = NAN
        if isinstance(v, complex): v = NAN
        out[i] = v
    return out

_cache = {}
_full = set()
_ex = {}
_depth = [0]

def masks_of(path, elem):
    """existence tests denied on the path, for index spaces a generic element of which is talked about:
    the masks must be false at the witness.  None: an affirmed existence test has no witness itself."""
    from . import dd
    ex = [(v, val) for v, val in path.items() if dd.vars_[v].kind == 'exists']
    if not ex: return []
    seen = set(elem)
    for w in path:
        if dd.vars_[w].kind != 'exists': seen |= dd.vars_[w].deps
    out = [dd.vars_[v].b for v, val in ex if not val and dd.vars_[v].a.id in seen]
    if _depth[0] < 2:
        for v, val in ex:
            if not val: continue
            base = dd.vars_[v].a
            u = dd.FALSE
            for w, wval in ex:
                if not wval and dd.vars_[w].a is base: u = dd.or_(u, dd.vars_[w].b)
            if u is dd.FALSE: continue
            f = dd.and_(dd.and_(dd.vars_[v].b, base.care), dd.and_(dd.not_(u), base.implied()))
            k = (f.id, base.id, _depth[0])
            if k not in _ex:
                _depth[0] += 1
                try:
                    d = dd.sat(f, 20000, base.witness, report=True, misses=4)
                    _ex[k] = not (d is None or d.imp)
                finally: _depth[0] -= 1
            if not _ex[k]: return None
    return out

def check(path, a, b, elem=n.NODEPS, quick=False, corners=False):
    """True: witnessed; None: nothing to search; False: no witness found"""
    from . import dd
    _pi.clear(); _pi.add(n.pi_().fp)
    ss = dd._signset(path)
    lits = [(dd.vars_[v].a, frozenset(s)) for v, s in ss.items() if s != {-1, 0, 1} and s]
    cmpv = isinstance(a, n.Num) and isinstance(b, n.Num) and not a.kind and not b.kind and not a.uninit and not b.uninit and a is not b
    masks = masks_of(path, elem)
    if masks is None: return False
    if not lits and not masks and not cmpv: return None
    if len(lits) > 80: return None
    key = (tuple(sorted((id(d), tuple(sorted(s))) for d, s in lits)), (id(a), id(b)) if cmpv else None, tuple(m.id for m in masks))
    k = _cache.get(key)
    if k is not None and (k or quick): return k
    if k is not None and not k and key in _full: return k
    roots = [d for d, s in lits] + ([a, b] if cmpv else [])
    mv = set()
    for m in masks: mv |= dd.support(m)
    for v in mv:
        d = dd.vars_[v]
        if d.kind in ('lt', 'gt'): roots.append(d.a)
    order, idx = compile_(roots)
    if len(order) > 6000: return None
    STATS['tried'] += 1
    t0 = time.time()
    r = random.Random(n.SEED * 7919 + len(order))
    free = [i for i, (x, c, ar) in enumerate(order) if c == 'atom']
    L = [(idx[d], s) for d, s in lits if s != {0}]
    E = [idx[d] for d, s in lits if s == {0}]
    bools = [v for v in mv if v not in path and dd.vars_[v].kind not in ('lt', 'gt')]
    # pos < len of the same index space
    pl = []
    for i in free:
        d = n.atoms.get(order[i][0].fp)
        if d is not None and d[0] == 'pos':
            for j in free:
                e = n.atoms.get(order[j][0].fp)
                if e is not None and e[0] == 'len' and e[1].key == d[1].key: pl.append((i, j))
    # lengths of selections out of one index space
    ln = [(j, n.atoms[order[j][0].fp][1]) for j in free if n.atoms.get(order[j][0].fp, (None,))[0] == 'len']
    none = []
    for j, ax in ln:
        m = ax.nonempty()
        while m.var != dd.LEAF and m.var in path: m = m.hi if path[m.var] else m.lo
        if m is dd.FALSE: none.append(j)
    within, parted = [], []
    if len(ln) > 1:
        try:
            for j, x in ln:
                for k, y in ln:
                    if j == k or x.base is not y.base: continue
                    if dd.and_(x.mask, dd.not_(y.mask)) is dd.FALSE:
                        within.append((j, k))
                        for q, z in ln:
                            if q > j and q != k and z.base is x.base and dd.and_(z.mask, dd.not_(y.mask)) is dd.FALSE and dd.and_(x.mask, z.mask) is dd.FALSE:
                                parted.append((j, q, k, dd.and_(y.mask, dd.not_(dd.or_(x.mask, z.mask))) is dd.FALSE))
        except dd.TooBig: return None
    def fix(vals):
        for j in none: vals[j] = 0.0
        for j, k in within:
            if vals[j] > vals[k]: vals[j] = vals[k]
        for j, q, k, full in parted:
            if full: vals[k] = vals[j] + vals[q]
            elif vals[j] + vals[q] > vals[k]: vals[q] = max(vals[k] - vals[j], 0.0)
        for i, j in pl:
            if vals[i] >= vals[j]: vals[i] = float(int(vals[i]) % int(vals[j])) if vals[j] >= 1 else 0.0
    eps = 1e-9 if not E else 1e-6
    def ev(m, out, bv):
        while m.var != dd.LEAF:
            v = m.var
            d = dd.vars_[v]
            if v in path: t = path[v]
            elif d.kind == 'lt': t = out[idx[d.a]] < -eps
            elif d.kind == 'gt': t = out[idx[d.a]] > eps
            else: t = bv[v]
            m = m.hi if t else m.lo
        return m.val
    def cost(out):
        c = 0.0
        for i, s in L:
            v = out[i]
            if v != v: c += 3; continue
            ok = (v > eps and 1 in s) or (v < -eps and -1 in s) or (v == 0 and 0 in s and order[i][0].isint)
            if not ok: c += 1 + min(abs(v), 1e6) / (1 + min(abs(v), 1e6))
        for i in E:
            v = out[i]
            if v != v: c += 3; continue
            if abs(v) > 1e-10: c += .01 + min(abs(v), 1e6) / (1 + min(abs(v), 1e6))
        if c < 1e-15:
            for m in masks:
                for _ in range(4):
                    if not ev(m, out, {v: r.random() < .5 for v in bools}): break
                else: c += 1
        return c
    def differs(out):
        if not cmpv: return True
        x, y = out[idx[a]], out[idx[b]]
        if x != x or y != y: return (x != x) != (y != y)
        return abs(x - y) > 1e-7 * (1e-3 + abs(x) + abs(y)) * (100 if E else 1)
    real = [i for i in free if not order[i][0].isint and order[i][0].fp not in _pi]
    def newton(vals):
        """move onto the equations of the path"""
        vals = dict(vals)
        for _ in range(12):
            out = run(order, vals); nev[0] += 1
            F = [out[i] for i in E]
            if any(f != f for f in F): return None
            if max(abs(f) for f in F) < 1e-12: return vals, out
            J = []
            for k in real:
                h = 1e-7 * (1 + abs(vals[k]))
                v0 = vals[k]; vals[k] = v0 + h
                o2 = run(order, vals); nev[0] += 1
                vals[k] = v0
                J.append([(o2[i] - f) / h for i, f in zip(E, F)])
            m = len(E)
            A = [[sum(row[p] * row[q] for row in J) + (1e-14 if p == q else 0) for q in range(m)] + [F[p]] for p in range(m)]
            for p in range(m):
                q = max(range(p, m), key=lambda z: abs(A[z][p]))
                A[p], A[q] = A[q], A[p]
                if not abs(A[p][p]) > 1e-300: return None
                for z in range(m):
                    if z != p:
                        f = A[z][p] / A[p][p]
                        A[z] = [x - f * y for x, y in zip(A[z], A[p])]
            lam = [A[p][m] / A[p][p] for p in range(m)]
            for k, row in zip(real, J):
                x = order[k][0]
                vals[k] = min(max(vals[k] - sum(l * g for l, g in zip(lam, row)), x.lo), x.hi)
            if any(v != v for v in vals.values()): return None
        out = run(order, vals); nev[0] += 1
        if max(abs(out[i]) for i in E) < 1e-10: return vals, out
        return None
    def push(v2, out):
        """move one atom so that a violated sign test changes its outcome"""
        bad = [(i, s) for i, s in L if not ((out[i] > eps and 1 in s) or (out[i] < -eps and -1 in s))]
        if not bad or not real: return False
        i, s = r.choice(bad)
        f = out[i]
        if f != f: return False
        cand = [k for k in real if k in sup(i)]
        if not cand: return False
        k = r.choice(cand)
        h = 1e-6 * (1e-3 + abs(v2[k]))
        v0 = v2[k]; v2[k] = v0 + h
        o2 = run(order, v2); nev[0] += 1
        v2[k] = v0
        g = (o2[i] - f) / h
        if g != g or abs(g) < 1e-12: return False
        t = 10 ** r.uniform(-8.5, .5) * (1 if 1 in s and (-1 not in s or r.random() < .5) else -1)
        x = order[k][0]
        v2[k] = min(max(v0 + (t - f) / g, x.lo), x.hi)
        return True
    sups = {}
    def sup(i):
        w = sups.get(i)
        if w is None:
            w, st, seen = set(), [i], set()
            while st:
                j = st.pop()
                if j in seen: continue
                seen.add(j)
                if order[j][1] == 'atom': w.add(j)
                else: st.extend(order[j][2])
            sups[i] = w
        return w
    nev = [0]
    if corners and not quick and any(0 in s and len(s) == 2 for d, s in lits) and len(free) <= 40:
        # corner cases: small whole numbers and the ends of ranges, where sums and products are exact
        poly = []
        for i, (x, c, ar) in enumerate(order):
            poly.append(c == 'atom' or (c == 'const' and not x.kind and x.const.denominator & (x.const.denominator - 1) == 0) or (c in ('+', '*', 'neg') and all(poly[j] for j in ar)))
        def corner(x):
            if x.fp in _pi: return math.pi
            opt = [v for v in (0., 0., 1., -1., 2., 3.) if x.lo <= v <= x.hi]
            return r.choice(opt) if opt else sample(x, r)
        for _ in range(300):
            vals = {i: corner(order[i][0]) for i in free}
            fix(vals)
            out = run(order, vals)
            good = all((out[i] > eps and 1 in s) or (out[i] < -eps and -1 in s) or (out[i] == 0 and 0 in s and poly[i]) for i, s in L) and all(out[i] == 0 and poly[i] for i in E)
            if good and not masks and differs(out):
                STATS['confirmed'] += 1; _cache[key] = True; return True
    lim = 150 if quick else 2500 if BUDGET[0] > 0 else 300
    if E: lim *= 3
    tlim = .3 if quick else 4.0 if BUDGET[0] > 0 else .5
    found = False
    while nev[0] < lim and not found and time.time() - t0 < tlim:
        # random starts
        best, bv = None, None
        for _ in range(24 if not E else 6):
            vals = {i: sample(order[i][0], r) for i in free}
            fix(vals)
            out = run(order, vals); nev[0] += 1
            c = cost(out)
            if c == 0 and differs(out): found = True; break
            if E and real:
                w = newton(vals)
                if w is not None:
                    c = cost(w[1])
                    if c == 0 and differs(w[1]): found = True; break
                    vals = w[0]
            if best is None or c < best: best, bv = c, vals
        if found or not free: break
        # local improvement
        stall = 0
        bout = None
        while stall < 60 and nev[0] < lim and time.time() - t0 < tlim:
            v2 = dict(bv)
            if L and r.random() < .5:
                if bout is None: bout = run(order, bv); nev[0] += 1
                if not push(v2, bout): stall += 1; continue
            else:
              for i in r.sample(free, min(len(free), r.choice((1, 1, 1, 2, 3)))):
                x = order[i][0]
                if r.random() < .5 or x.isint: v2[i] = sample(x, r)
                else:
                    w = v2[i] * (1 + r.gauss(0, .3)) + r.gauss(0, .1) * r.choice((1, 1, 1e-3))
                    v2[i] = min(max(w, x.lo), x.hi)
            fix(v2)
            if E and real:
                w = newton(v2)
                if w is None: stall += 1; continue
                v2, out = w
            else:
                out = run(order, v2); nev[0] += 1
            c = cost(out)
            if c == 0 and differs(out): found = True; break
            if c < best or (c == best and r.random() < .3):
                if c < best: stall = 0
                best, bv, bout = c, v2, out
            stall += 1
    if found: STATS['confirmed'] += 1
    elif not quick:
        STATS['unconfirmed'] += 1; _full.add(key)
        BUDGET[0] -= time.time() - t0
    _cache[key] = found
    return found

def sweep(f, a, b, elem=n.NODEPS, secs=4.0):
    """walk the diagram f of possible differences under random valuations; returns a path to a difference that one of them takes"""
    from . import dd
    _pi.clear(); _pi.add(n.pi_().fp)
    sup = dd.support(f) | dd.support(a) | dd.support(b)
    # one ray alone: what exists among the rays is true of it
    ex = [v for v in sup if dd.vars_[v].kind == 'exists']
    while ex:
        v = ex.pop()
        base = dd.vars_[v].a
        if base.id not in elem | a.deps | b.deps or base.parts: return None
        new = (dd.support(dd.vars_[v].b) | dd.support(base.care)) - sup
        sup |= new; ex += [w for w in new if dd.vars_[w].kind == 'exists']
    if len({dd.vars_[v].a.id for v in sup if dd.vars_[v].kind == 'exists'}) > 1: return None
    if any(dd.vars_[v].imp or 'X' in dd.vars_[v].deps for v in sup): return None
    leaves = {x.val for x in dd.leaves(a)} | {x.val for x in dd.leaves(b)}
    if any(isinstance(x, n.Num) and (x.imp or x.uninit) for x in leaves): return None
    roots = [dd.vars_[v].a for v in sup if dd.vars_[v].kind in ('lt', 'gt')] + [x for x in leaves if isinstance(x, n.Num)]
    order, idx = compile_(roots)
    if len(order) > 6000: return None
    r = random.Random(n.SEED * 104729 + len(order))
    free = [i for i, (x, c, ar) in enumerate(order) if c == 'atom']
    if any(n.atoms.get(order[i][0].fp) is not None and n.atoms[order[i][0].fp][0] in ('pos', 'len') for i in free): return None
    t0 = time.time()
    def walk(m, out, path):
        while m.var != dd.LEAF:
            v = m.var
            d = dd.vars_[v]
            if v in path: t = path[v]
            elif d.kind in ('lt', 'gt'):
                x = out[idx[d.a]]
                if x != x or abs(x) < 1e-7: return None
                t = x < 0 if d.kind == 'lt' else x > 0
            elif d.kind == 'exists':
                t = walk(d.a.care, out, path)
                if t is None or t.val is not True: return None
                t = walk(d.b, out, path)
                if t is None: return None
                t = t.val
            else: t = r.random() < .5
            path[v] = t
            m = m.hi if t else m.lo
        return m
    vals = None
    while time.time() - t0 < secs:
        if vals is None or r.random() < .5: vals = {i: sample(order[i][0], r) for i in free}
        else:
            for i in r.sample(free, min(len(free), r.choice((1, 1, 2, 3)))): vals[i] = sample(order[i][0], r)
        out = run(order, vals)
        path = {}
        m = walk(f, out, path)
        if m is None or m.val is not True: continue
        x, y = walk(a, out, path), walk(b, out, path)
        if x is None or y is None or x is y or not dd.feasible(path) or dd._leaf_same(x.val, y.val, path, False) or dd._refute(path): continue
        x, y = x.val, y.val
        if isinstance(x, n.Num) and isinstance(y, n.Num) and not x.kind and not y.kind:
            u, w = out[idx[x]], out[idx[y]]
            if u != u or w != w or abs(u - w) < 1e-6 * (1e-3 + abs(u) + abs(w)): continue
        STATS['confirmed'] += 1
        return path, x, y
    return None

_xcache = {}
def xcheck(path, a, b):
    from . import xwit
    key = (tuple(sorted(path.items())), id(a), id(b))
    r = _xcache.get(key)
    if r is None:
        _pi.clear(); _pi.add(n.pi_().fp)
        t0 = time.time()
        r = xwit.check(path, a, b, BUDGET[0] <= 0, n.SEED)
        if not r: BUDGET[0] -= time.time() - t0
        STATS['tried'] += 1; STATS['confirmed' if r else 'unconfirmed'] += 1
        _xcache[key] = r
    return r

def reset(): _xcache.clear(); _cache.clear(); _full.clear(); _ex.clear()
