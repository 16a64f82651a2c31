"""Random draws as terms.  A quantity drawn as documented is discharged when its value number is that of a uniform draw of its
own; otherwise the recorded term is integrated over a grid of draw values and reported only if it leaves its range or its
first moments are off by far more than the integration error.  The analysed program is not run."""
import random, math
from . import num as n, dd, wit

class Draws(object):
    def __init__(self, h, per=None):
        self.per = per       # index spaces each element of which must have a draw of its own
        self.h, self.I = h, h.I
        self.used = {}       # draw number -> what it decides
    def free(self):
        """no reset of the generator to a state known beforehand"""
        if self.I.seeds: self.h.viol('random generator', 'put in a state decided beforehand, so that separate calls draw the same numbers', self.I.seeds[0])
        else: self.h.ok('random generator')
    def all(self): return self.I.randoms
    def uniform(self, node):
        """number of the draw whose uniform [0,1] variate (or complement) has the value number of node"""
        if node.var != dd.LEAF: return None
        v = dd.asnum(node.val)
        for k, (val, u, x, y) in enumerate(self.all()):
            if u.val.fp == v.fp or n.sub(n.const(1), u.val).fp == v.fp: return k
            # a draw over another range, scaled back
        return None
    def angle(self, c, s):
        """number of the draw of a full turn whose cosine and sine are (c, s)"""
        if c.var != dd.LEAF or s.var != dd.LEAF: return None
        turn = n.mul(n.const(2), n.pi_())
        for k, (val, u, x, y) in enumerate(self.all()):
            if x.var != dd.LEAF or y.var != dd.LEAF or val.var != dd.LEAF: continue
            for a in (val.val, n.mul(u.val, turn)):
                if a is val.val and n.sub(y.val, x.val).fp != turn.fp: continue
                S, C = n.sincos(a)
                if C.fp == c.val.fp and S.fp == s.val.fp: return k
                if C.fp == s.val.fp and S.fp == c.val.fp: return k
                if C.fp == c.val.fp and n.neg(S).fp == s.val.fp: return k
        return None
    def generic(self, x, care):
        """leaves of x other than those confined to an equality of two quantities"""
        out = {}
        def rec(x, care, path):
            if care is dd.FALSE: return
            v = min(x.var, care.var)
            if v == dd.LEAF: out[x.id] = x; return
            xs, cs = dd._cof(x, v), dd._cof(care, v)
            for val, y, z in ((True, xs[0], cs[0]), (False, xs[1], cs[1])):
                if val is False and dd.vars_[v].kind == 'gt' and path.get(v - 1) is False: continue
                p = dict(path); p[v] = val
                if dd.feasible(p, v): rec(y, z, p)
        rec(x, care, {})
        return [out[k] for k in sorted(out)]
    def claim(self, name, k, loc=None):
        d = self.all()[k][1].deps
        if self.per and (not d or self.per != 'any' and not d & self.per): self.h.viol(name, 'one random number for all rays', loc); return False
        if k in self.used and self.used[k] != name:
            self.h.viol(name, 'decided by the same random number as %s' % self.used[k], loc); return False
        self.used[k] = name
        self.h.ok(name)
        return True
    def grid(self, nodes, seed=7, K=48):
        """yields the values of the terms over a midpoint grid of the draws they depend on; None: cannot be evaluated"""
        roots = []
        for x in nodes:
            if x.var != dd.LEAF: return None
            roots.append(dd.asnum(x.val))
        if any(r.kind or r.imp for r in roots): return None
        wit._pi.clear(); wit._pi.add(n.pi_().fp)
        lits = [(dd.vars_[v].a, sg) for v, sg in dd._signset(self.path).items() if sg and sg != {-1, 0, 1}]
        order, idx = wit.compile_(roots + [d for d, _ in lits])
        if len(order) > 4000: return None
        rfp = {u.val.fp for _, u, x, y in self.all()}
        rnd = [i for i, (x, code, a) in enumerate(order) if code == 'atom' and x.fp in rfp]
        oth = [i for i, (x, code, a) in enumerate(order) if code == 'atom' and x.fp not in rfp]
        if len(rnd) > 2: return None
        if any('X' in order[i][0].deps for i in oth): return None
        r = random.Random(seed)
        for t in range(400 if lits else 40):
            vals = {i: wit.sample(order[i][0], r) for i in oth}
            for i in rnd: vals[i] = .37
            o = wit.run(order, vals)
            if all(math.isfinite(o[idx[x]]) for x in roots) and all((o[idx[d]] > 0 and 1 in sg) or (o[idx[d]] < 0 and -1 in sg) for d, sg in lits): break
        else: return None
        pts = [(k + .5) / K for k in range(K)]
        out = []
        def rec(j):
            if j == len(rnd):
                o = wit.run(order, vals)
                out.append([o[idx[x]] for x in roots]); return
            for p in pts:
                vals[rnd[j]] = p
                rec(j + 1)
        rec(0)
        return out
    path = {}
    def split(self, nodes):
        """leaves of the nodes, case by case of the parameters: [(path, leaves)]"""
        out = []
        care = self.h.I.pc
        def rec(xs, care, path):
            if care is dd.FALSE or len(out) > 12: return
            v = min([x.var for x in xs] + [care.var])
            if v == dd.LEAF: out.append((path, xs)); return
            cs = [dd._cof(x, v) for x in xs]; cc = dd._cof(care, v)
            for val in (True, False):
                if val is False and dd.vars_[v].kind == 'gt' and path.get(v - 1) is False: continue
                p = dict(path); p[v] = val
                if dd.feasible(p, v): rec([c[0 if val else 1] for c in cs], cc[0 if val else 1], p)
        rec(list(nodes), care, {})
        return out
    def each(self, f, name, nodes, loc):
        L = self.split(nodes)
        if len(L) < 2 or len(L) > 12: return False
        old = self.path
        for path, xs in L:
            self.path = path
            try: f(name, *(xs + [loc]))
            finally: self.path = old
        return True
    def decide(self, name, node, loc=None):
        """node must be uniform on [0,1] and a draw of its own"""
        h = self.h
        if node.var != dd.LEAF and self.each(self.decide, name, [node], loc): return
        k = self.uniform(node)
        if k is not None: return self.claim(name, k, loc)
        g = self.grid([node])
        if not g: h.und(name, 'not a single draw'); return None
        for seed in range(7, 19):
            xs = [r[0] for r in g]
            if any(math.isnan(x) for x in xs): h.und(name, 'not evaluated'); return None
            if min(xs) < -1e-6 or max(xs) > 1 + 1e-6: h.viol(name, 'leaves its range: takes values from %.4g to %.4g of the limit' % (min(xs), max(xs)), loc); return False
            m, m2 = sum(xs) / len(xs), sum(x * x for x in xs) / len(xs)
            if abs(m - .5) > .03 or abs(m2 - 1 / 3.) > .03: h.viol(name, 'is not drawn evenly: mean %.3f (0.5 required), mean square %.3f (0.333 required) of the limit' % (m, m2), loc); return False
            g = self.grid([node], seed + 1) or g
        h.und(name, 'not a single draw'); return None
    def turn(self, name, c, s, loc=None):
        """(c, s) must be the cosine and sine of an angle drawn evenly over the full turn"""
        h = self.h
        if (c.var != dd.LEAF or s.var != dd.LEAF) and self.each(self.turn, name, [c, s], loc): return
        k = self.angle(c, s)
        if k is not None: return self.claim(name, k, loc)
        g = self.grid([c, s])
        if not g: h.und(name, 'not a single draw'); return None
        N_ = float(len(g))
        if any(math.isnan(x) or math.isnan(y) for x, y in g): h.und(name, 'not evaluated'); return None
        mc, ms, cc, cs = sum(x for x, y in g) / N_, sum(y for x, y in g) / N_, sum(x * x for x, y in g) / N_, sum(x * y for x, y in g) / N_
        if max(abs(mc), abs(ms), abs(cc - .5), abs(cs)) > .03:
            h.viol(name, 'not drawn evenly over the full turn: mean cosine %.3f, mean sine %.3f, mean square of the cosine %.3f' % (mc, ms, cc), loc); return False
        h.und(name, 'not a single draw'); return None
