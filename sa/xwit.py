"""Witness valuations for verdicts that involve several rays at once (a reduction over the
rays, or the value at a fixed position): a model with a few rays, the generic one and
independently valued others, under which every test on the path has the claimed outcome and
the two value numbers differ.  As in wit.py it only confirms: without one, 'undecided'."""
import math, random, time
from . import num as n

class Unsup(Exception): pass
class Bad(Exception): pass

class Model(object):
    def __init__(self, r, nrays, path):
        from . import dd, wit
        self.dd, self.wit = dd, wit
        self.r, self.nr, self.path = r, nrays, path
        self.vals, self.order, self.bv = {}, {}, {}
        self.clear()
    def clear(self): self.mn, self.md, self.touched = {}, {}, set()
    def key(self, deps, env): return tuple((b, env.get(b, 0)) for b in sorted(x for x in deps if x != 'X'))
    def rays(self, ax, env):
        b = ax.base
        if b.len_node is not None: raise Unsup()
        out = []
        if b.parts:
            for j, p in enumerate(b.parts):
                for e in self.rays(p, env):
                    e = dict(e); e[b.id] = j
                    if self.node(ax.mask, e): out.append(e)
            return out
        if b.parent is not None:
            if b.parent.base.parts: raise Unsup()
            cand = self.rays(b.parent, env); pid = b.parent.base.id
            for e in cand: e[b.id] = e.get(pid, 0)
        else:
            o = self.order.get(b.id)
            if o is None:
                o = list(range(self.nr)); self.r.shuffle(o); self.order[b.id] = o
            cand = []
            for q in o:
                e = dict(env); e[b.id] = q; cand.append(e)
        return [e for e in cand if self.node(b.care, e) and self.node(ax.mask, e)]
    def desc(self, d, env):
        if d[0] == 'len': return float(len(self.rays(d[1], env)))
        if d[0] == 'pos':
            i = env.get(d[1].base.id, 0)
            for k, e in enumerate(self.rays(d[1], env)):
                if e.get(d[1].base.id, 0) == i: return float(k)
            raise Bad()
        if d[0] == 'red':
            vs = [self.val(d[2], e) for e in self.rays(d[3], env)]
            if not vs: raise Bad()
            if d[1] == 'sum': return sum(vs)
            if d[1] == 'prod':
                p = 1.0
                for v in vs: p *= v
                return p
            return min(vs) if d[1] == 'min' else max(vs)
        if d[0] == 'elem':
            es = self.rays(d[3], env); k = int(d[1])
            if not -len(es) <= k < len(es): raise Bad()
            return self.val(d[2], es[k])
        raise Unsup()
    def val(self, node, env):
        v = self.node(node, env)
        if not isinstance(v, n.Num): return float(v)
        if v.kind in (n.PINF, n.NINF): return n.INF * v.kind
        return self.num(v, env)
    def num(self, x, env):
        if x.kind: raise Bad()
        if x.const is not None: return float(x.const)
        if x.imp or x.uninit: raise Unsup()
        k = (x, self.key(x.deps, env))
        v = self.mn.get(k)
        if v is not None: return v
        d = n.atoms.get(x.fp)
        ev = x.ev
        wit = self.wit
        if d is not None: v = self.desc(d, env)
        elif ev is None or ev[0] == 'atom' or (ev[0] not in ('+', '*', 'neg', 'inv', 'sqrt', 'tanhalf') and wit._fn(ev[0]) is None):
            v = self.vals.get(k)
            if v is None: v = self.vals[k] = wit.sample(x, self.r)
            self.touched.add(k)
        else:
            a = [self.num(y, env) for y in ev[1:]]
            try:
                c = ev[0]
                if c == '+': v = a[0] + a[1]
                elif c == '*': v = a[0] * a[1]
                elif c == 'neg': v = -a[0]
                elif c == 'inv': v = 1.0 / a[0]
                elif c == 'sqrt':
                    if a[0] < -1e-12: raise Bad()
                    v = math.sqrt(max(a[0], 0.0))
                elif c == 'tanhalf': v = math.tan(a[0] / 2)
                else: v = float(wit._fn(c)(*a))
            except (ValueError, ZeroDivisionError, OverflowError, TypeError): raise Bad()
        if v != v or abs(v) == n.INF: raise Bad()
        self.mn[k] = v
        return v
    def truth(self, i, env, eps=1e-9):
        d = self.dd.vars_[i]
        if d.imp: raise Unsup()
        if d.kind == 'lt': return self.num(d.a, env) < -eps
        if d.kind == 'gt': return self.num(d.a, env) > eps
        if d.kind == 'exists':
            from .core import Axis
            return bool(self.rays(Axis(d.a, d.b), env))
        if d.kind == 'sel':
            if d.a.id in env: return env[d.a.id] == d.b
            if i in self.path: return self.path[i]
            raise Unsup()
        ds = self.dd.bdesc.get(i)
        if ds is not None: return self.desc(ds, env) != 0
        k = (i, self.key(d.deps, env))
        if i in self.path and all(q == 0 for b, q in k[1]): return self.path[i]
        v = self.bv.get(k)
        if v is None: v = self.bv[k] = self.r.random() < .5
        self.touched.add(k)
        return v
    def node(self, m, env):
        LEAF = self.dd.LEAF
        while m.var != LEAF: m = m.hi if self.truth(m.var, env) else m.lo
        return m.val

def check(path, a, b, quick=False, seed=1):
    """True: witnessed, False: not"""
    from . import dd
    r = random.Random(seed * 104729 + len(path))
    ss = dd._signset(path)
    lits = [(dd.vars_[v].a, frozenset(s)) for v, s in ss.items() if s != {-1, 0, 1} and s]
    other = [(v, val) for v, val in path.items() if dd.vars_[v].kind not in ('lt', 'gt', 'sel')]
    cmpv = isinstance(a, n.Num) and isinstance(b, n.Num) and not a.kind and not b.kind
    env = {}
    def cost(M):
        """(cost, violated sign tests)"""
        M.clear(); c, bad = 0.0, []
        for d, s in lits:
            v = M.num(d, env)
            ok = (v > 1e-9 and 1 in s) or (v < -1e-9 and -1 in s) or (abs(v) < 1e-10 and 0 in s)
            if not ok: c += 1 + min(abs(v), 1e6) / (1 + min(abs(v), 1e6)); bad.append((d, s, v))
        for v, val in other:
            if M.truth(v, env) != val: c += 1.5
        if c == 0 and cmpv:
            x, y = M.num(a, env), M.num(b, env)
            if not abs(x - y) > 1e-7 * (1e-3 + abs(x) + abs(y)): c += .5
        return c, bad
    t0 = time.time(); nev = 0
    lim, tlim = (200, .4) if quick else (2500, 5.0)
    try:
        while nev < lim and time.time() - t0 < tlim:
            best = None
            for _ in range(20):
                M = Model(r, r.choice((2, 2, 3)), path); nev += 1
                try: c, bad = cost(M)
                except Bad: continue
                if c == 0: return True
                if best is None or c < best[0]: best = (c, bad, M)
            if best is None: continue
            c0, bad, M = best
            stall = 0
            cost(M); keys = list(M.touched)
            while stall < 50 and keys and nev < lim and time.time() - t0 < tlim:
                sv, sb = dict(M.vals), dict(M.bv)
                done = False
                if bad and r.random() < .5:
                    d, s, f = r.choice(bad)
                    ks = [k for k in keys if isinstance(k[0], n.Num) and not k[0].isint and k in M.vals]
                    if ks:
                        k = r.choice(ks); v0 = M.vals[k]; h = 1e-6 * (1e-3 + abs(v0))
                        try:
                            M.vals[k] = v0 + h; M.clear(); nev += 1
                            g = (M.num(d, env) - f) / h
                        except Bad: g = 0
                        M.vals[k] = v0
                        if abs(g) > 1e-12:
                            t = 10 ** r.uniform(-6, .5) * (1 if 1 in s and (-1 not in s or r.random() < .5) else -1)
                            if s == {0}: t = 0.0
                            M.vals[k] = min(max(v0 + (t - f) / g, k[0].lo), k[0].hi); done = True
                if not done:
                    for k in r.sample(keys, min(len(keys), r.choice((1, 1, 2, 3)))):
                        if not isinstance(k[0], n.Num):
                            if k in M.bv: M.bv[k] = not M.bv[k]
                        elif r.random() < .5 or k[0].isint: M.vals[k] = M.wit.sample(k[0], r)
                        elif k in M.vals:
                            w = M.vals[k] * (1 + r.gauss(0, .3)) + r.gauss(0, .1)
                            M.vals[k] = min(max(w, k[0].lo), k[0].hi)
                nev += 1
                try: c, b2 = cost(M)
                except Bad: c = None
                if c == 0: return True
                if c is not None and c <= c0:
                    if c < c0: stall = 0
                    c0, bad = c, b2; keys = list(M.touched)
                else: M.vals, M.bv = sv, sb
                stall += 1
    except Unsup: return False
    return False
