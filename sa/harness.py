"""Obligations: how a property's harness talks to the abstract interpreter."""
import os, sys, time, traceback
from fractions import Fraction
from . import num as n, dd, core, interp
from .core import *
from .interp import Interp, AnchorMissing, DeadPath, Event
from . import npmodel as npm

REPO = os.environ.get('VERIF_REPO', '/repo')

LIMIT = [float('inf')]         # when the case under way is interrupted
EXPIRED = [False]
class OutOfTime(Undecided):
    def __init__(self, why='out of time'): Undecided.__init__(self, why)

class Ob(object):
    """one decided (or undecided) proof obligation"""
    def __init__(self, case, name, status, text='', loc=None, key=None):
        self.case, self.name, self.status, self.text, self.loc = case, name, status, text, loc
        self.key = key or '%s/%s' % (case, name)

class Report(object):
    def __init__(self, prop, tier='quick'):
        self.prop, self.tier = prop, tier
        self.obs = []
        self.functions = set(); self.files = set()
        self.steps = 0; self.atoms = 0; self.nodes = 0
        self.cases = []
        self.notes = []
        self.missing = []
        self.t0 = time.time()
        self.known = lambda key: False
    def case(self, name, fn, *args, **kw):
        """run one harness case in a fresh abstract world"""
        t0 = time.time()
        if t0 - self.t0 > 60 and any(o.status == 'viol' and not self.known(o.key) for o in self.obs):
            self.cases.append(dict(case=name, status='skipped: violation already found')); return
        core.reset()
        h = H(self, name)
        mark = len(self.obs)
        status = 'analysed'
        whole = dd.DEADLINE[0]
        dd.DEADLINE[0] = min(whole, t0 + (60 if self.tier == 'quick' else 900))
        EXPIRED[0] = False; LIMIT[0] = dd.DEADLINE[0] + 40
        try:
            fn(h, *args, **kw)
        except AnchorMissing as e:
            status = 'anchor missing: %s' % e
            self.missing.append(str(e)); h.und('anchor', status)
        except AbsRaise as e:
            # raised on every path of the case
            h.definite_raise(e)
            status = 'raises'
        except DeadPath:
            status = 'every path raises'
        except Undecided as e:
            status = 'undecided: %s' % e; h.und('case', status)
        except dd.TooBig:
            status = 'undecided: diagram too big'; h.und('case', status)
        except RecursionError:
            status = 'undecided: recursion'; h.und('case', status)
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            status = 'undecided: internal %s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
            h.und('case', status)
        dd.DEADLINE[0] = whole; LIMIT[0] = max(LIMIT[0], time.time() + 40)
        try:
            if h.watch and status != 'analysed': h.writes(h.watch)
            h.finish()
        except (dd.TooBig, Undecided): h.und('raises', 'undecided')
        LIMIT[0] = float('inf')
        if h.I is not None:
            self.functions |= h.I.analysed; self.files |= h.I.files
            self.steps += h.I.steps
        self.atoms += dd.nvars(); self.nodes += len(dd._uniq)
        got = self.obs[mark:]
        self.cases.append(dict(case=name, status=status, obligations=len(got),
            proved=sum(o.status == 'ok' for o in got), violated=sum(o.status == 'viol' for o in got),
            undecided=sum(o.status == 'und' for o in got), wall_s=round(time.time() - t0, 3)))

class H(object):
    """helpers for one case"""
    def __init__(self, rep, name):
        self.rep, self.name = rep, name
        self.I = None
        self.allow = []          # conditions under which a raise is legitimate
        self.expect = None
        self.handled = 0
        self.where = None; self.anchors = []
        self.rough = False       # unit vectors only roughly of length one
        self.watch = None        # name of the obligation on inputs to decide even if the case cannot be finished
        self.I = Interp(REPO)

    # ---- obligations ------------------------------------------------------
    def ok(self, name): self.rep.obs.append(Ob(self.name, name, 'ok'))
    def und(self, name, text): self.rep.obs.append(Ob(self.name, name, 'und', text))
    def at(self):
        """where a verdict without a location of its own belongs: the construct the case is about"""
        if self.I is None: return None
        if self.I.loc[0] != '?': return self.I.loc
        a = self.anchors
        for m, name in a:
            if m.startswith('tracer.models'): break
        else:
            if not a: return None
            m, name = a[0]
        try:
            mod = self.I.mod(m); v = self.I.module_attr(mod, name)
            f = v if hasattr(v, 'node') else v.d.get('__init__')
            return (os.path.relpath(mod.file, self.I.root), f.node.lineno, name)
        except Exception: return (m, 0, name)
    def viol(self, name, text, loc=None):
        if EXPIRED[0]: return self.und(name, 'interrupted')
        self.rep.obs.append(Ob(self.name, name, 'viol', text, loc or self.where or self.at()))

    def holds(self, name, cond, care=None, loc=None, why='', boundary=True):
        """cond is true wherever care holds"""
        return self.eq(name, cond, dd.TRUE, care, loc, boundary, why)

    def eq(self, name, got, want, care=None, loc=None, boundary=True, why=''):
        care = self.I.pc if care is None else care
        try: d = dd.differ(got, want, care, boundary, report=True)
        except dd.TooBig:
            self.und(name, 'diagram too big'); return None
        if d is None: self.ok(name); return True
        if d.imp: self.und(name, 'depends on something not modelled: ' + d.text()[:300]); return None
        self.viol(name, (why + ': ' if why else '') + d.text(), loc); return False

    # value alternatives
    def alts(self, v, pc=None):
        pc = self.I.pc if pc is None else pc
        if pc is dd.FALSE: return []
        if isinstance(v, Choice):
            return self.alts(v.a, dd.and_(pc, v.c)) + self.alts(v.b, dd.and_(pc, dd.not_(v.c)))
        return [(pc, v)]

    def feasible(self, pc):
        d = dd.sat(pc, report=True)
        return d

    def vloc(self, v):
        if isinstance(v, Arr):
            r = self.I.get(v.oid)
            return r.loc
        return None

    def same(self, name, got, want, care=None, loc=None, boundary=True, why=''):
        """abstract values equal under every valuation"""
        I = self.I
        care = I.pc if care is None else care
        A, B = self.alts(got, care), self.alts(want, care)
        if len(A) > 1 or len(B) > 1:
            k = 0
            for ca, a in A:
                for cb, b in B:
                    c = dd.and_(ca, cb)
                    if c is dd.FALSE or dd.sat(c) is None: continue
                    k += 1
                    if self.same(name if k == 1 else '%s.alt%d' % (name, k), a, b, c, loc, boundary, why) is False: return False
            return True
        if not A or not B: return True
        got, want = A[0][1], B[0][1]
        loc = loc or self.vloc(got)
        def bad(text):
            d = dd.sat(care, report=True)
            if d is None: self.ok(name); return True
            if d.imp: self.und(name, text); return None
            self.viol(name, (why + ': ' if why else '') + text, loc); return False
        if isinstance(got, Top) or isinstance(want, Top):
            self.und(name, 'value not modelled: %s' % (got if isinstance(got, Top) else want)); return None
        if isinstance(want, (tuple, ListRef)) or isinstance(got, (tuple, ListRef)):
            if isinstance(want, Arr) or isinstance(got, Arr):
                got = npm.toarr(I, got); want = npm.toarr(I, want)
            else:
                ga, wa = self.items(got), self.items(want)
                if ga is None or wa is None: self.und(name, 'list not modelled'); return None
                if len(ga) != len(wa): return bad('got %d elements, required %d' % (len(ga), len(wa)))
                r = True
                for i, ((g1, x), (g2, y)) in enumerate(zip(ga, wa)):
                    if isinstance(x, SymItem) or isinstance(y, SymItem): self.und(name, 'symbolic list'); return None
                    if g1 is not g2 and self.eq('%s[%d] present' % (name, i), g1, g2, care, loc) is False: return False
                    if self.same('%s[%d]' % (name, i), x, y, dd.and_(care, g1), loc, boundary, why) is False: r = False
                return r
        if got is None or want is None:
            if got is want: self.ok(name); return True
            return bad('got %r, required %r' % (got, want))
        if isinstance(got, (Arr, Sc, int, float, Fraction)) and isinstance(want, (Arr, Sc, int, float, Fraction)):
            return self.num_same(name, got, want, care, loc, boundary, why, bad)
        if got == want: self.ok(name); return True
        return bad('got %r, required %r' % (got, want))

    def items(self, v):
        if isinstance(v, tuple): return [(dd.TRUE, x) for x in v]
        if isinstance(v, ListRef): return list(self.I.get(v.oid).items)
        return None

    def num_same(self, name, got, want, care, loc, boundary, why, bad):
        I = self.I
        G, W = npm.toarr(I, got), npm.toarr(I, want)
        gd, wd = list(G.dims), list(W.dims)
        if len(gd) != len(wd):
            return bad('got an array of shape %s, required %s' % (self.shp(gd), self.shp(wd)))
        ge, we = I.elems(G), I.elems(W)
        pend = []
        for k, (x, y) in enumerate(zip(gd, wd)):
            if isinstance(x, int) and isinstance(y, int):
                if x != y: return bad('got an array of shape %s, required %s' % (self.shp(gd), self.shp(wd)))
                continue
            if isinstance(x, int) or isinstance(y, int):
                # a literal length against a symbolic one
                lx, ly = [dd.c(z) if isinstance(z, int) else z.len() for z in (x, y)]
                if 0 in (x, y):
                    z = y if isinstance(x, int) else x
                    e = dd.sat(dd.and_(care, z.nonempty()), report=True)
                    if e is None: self.ok(name); return True
                    if e.imp: self.und(name, 'length'); return None
                    return bad('got %s elements, required %s' % (dd.show(lx), dd.show(ly)))
                d = dd.differ(lx, ly, care, report=True)
                if d is None:
                    if x == 0 or y == 0: self.ok(name); return True
                    self.und(name, 'literal length'); return None
                if d.imp: self.und(name, 'length'); return None
                return bad('got %s elements, required %s' % (dd.show(lx), dd.show(ly)))
            if x is y: continue
            if x.mask is dd.FALSE and y.mask is dd.FALSE: self.ok(name); return True
            eqv = axis_equiv(x, y, care, True)
            if eqv is None: self.und(name, 'index space'); return None
            if eqv is False:
                return bad('element k does not belong to the required ray: got index space %s, required %s%s' % (x.name, y.name, self.axdiff(x, y, care)))
            pend.append((x, y))
        for x, y in pend: ge = [reindex(v, x, y) for v in ge]
        res = True
        cs = core.cshape(wd)
        for cond, el_, f in self.split(wd, care):
            for idx, a, b in zip(core.indices(cs), ge, we):
                a, b = f(a), f(b)
                if a is b and not dd._has_uninit(a): continue
                try: d = dd.differ(a, b, cond, boundary, elem=el_, report=True)
                except dd.TooBig:
                    self.und(name, 'diagram too big'); return None
                if d is None: continue
                if d.imp:
                    self.und(name, 'depends on something not modelled: ' + d.text()[:300]); res = None; continue
                self.viol(name, (why + ': ' if why else '') + 'component %s: %s' % (list(idx), d.text()), loc)
                return False
        if res: self.ok(name)
        return res

    def split(self, dims, care):
        """cases by part of concatenated index spaces: (condition, witnessed spaces, cofactor)"""
        out = [(care, frozenset(), lambda x: x)]
        for y in dims:
            if not isinstance(y, Axis): continue
            nxt = []
            for c, el, f in out:
                if not y.base.parts:
                    nxt.append((dd.and_(c, y.care), el | y.base.witness, f)); continue
                for j, b, m in flat_idx(y):
                    g = lambda x, f=f, j=j: part_val(f(x), y.base, j)
                    nxt.append((dd.and_(part_val(c, y.base, j), dd.and_(m, b.care)), el | b.witness, g))
            out = nxt
        return out

    def axdiff(self, x, y, care):
        fx, fy = flatten(x), flatten(y)
        s = []
        if len(fx) != len(fy): return ' (%d parts vs %d)' % (len(fx), len(fy))
        for (b, m), (b2, m2) in zip(fx, fy):
            if b is not b2: s.append('%s vs %s' % (b.name, b2.name)); continue
            d = dd.differ(m, m2, dd.and_(care, b.care), elem=b.witness, report=True)
            if d is not None: s.append('membership of %s: %s' % (b.name, d.text()))
        return ' (%s)' % '; '.join(s)[:500] if s else ''

    def shp(self, dims): return '(' + ', '.join(str(d) if isinstance(d, int) else 'n(%s)' % d.name for d in dims) + ')'

    # ---- raises -------------------------------------------------------------
    def raise_loc(self, loc): return loc
    def definite_raise(self, e):
        I = self.I
        d = None
        try: d = dd.sat(dd.and_(I.pc, self.assume_()), report=True)
        except dd.TooBig: pass
        if d is None or d.imp: self.und('no exception', 'raise on an unmodelled path: %s %s' % (e.exc, e.msg)); return
        self.viol('no exception', '%s: %s (at %s)' % (e.exc, e.msg, self.sloc(e.loc or I.loc)), e.loc or I.loc)
    def assume_(self):
        r = dd.TRUE
        for c in self.allow: r = dd.and_(r, dd.not_(c))
        return r
    def sloc(self, loc): return '%s:%s in %s' % (loc[0], loc[1], loc[2]) if loc else '?'
    def finish(self):
        I = self.I
        if I is None: return
        bad = 0
        for st, e, loc, tr in I.raises[self.handled:]:
            c = dd.and_(st.pc, self.assume_())
            d = dd.sat(c, report=True)
            if d is None: continue
            bad += 1
            if d.imp: self.und('no exception', '%s %s at %s' % (e.exc, e.msg, self.sloc(loc))); continue
            s = ', '.join(('' if v else 'not ') + '[' + dd.vars_[k].name + ']' for k, v in sorted(d.path.items()))
            self.viol('no exception', '%s: %s (at %s%s)' % (e.exc, e.msg, self.sloc(loc), ', when ' + s if s else ''), loc)
        self.handled = len(I.raises)
        if not bad: self.ok('no feasible exception (%d raise sites examined)' % len(I.raises))
    def writes(self, name='inputs not modified', kinds=('write',)):
        """obligation: no in-place modification of tagged arrays was recorded"""
        bad = 0
        for pc, kind, text, loc in self.I.anoms:
            if kind not in kinds: continue
            d = dd.sat(pc, report=True)
            if d is None: continue
            bad += 1
            if d.imp: self.und(name, text)
            else: self.viol(name, '%s at %s' % (text, self.sloc(loc)), loc)
        if not bad: self.ok(name)

    def attempt(self, fn):
        """run fn(); returns (value, ok) where raises inside are collected separately:
        -> (value or None, list of (state, exc, loc))"""
        I = self.I
        mark = len(I.raises)
        s0 = I.st.fork(I.pc)
        try:
            v = fn()
        except AbsRaise as e:
            I.record_raise(e); v = None; I.st = s0
        except DeadPath:
            v = None; I.st = s0
        r = I.raises[mark:]
        del I.raises[mark:]
        return v, r

    def under(self, cond, fn):
        """evaluate fn with the path condition strengthened by cond; state changes are dropped"""
        I = self.I
        s0 = I.st
        I.st = s0.fork(dd.and_(s0.pc, cond))
        try: return fn()
        finally: I.st = s0

    def fork(self, fn, depth=3):
        """fn(), case by case where it comes upon a choice it cannot take generically"""
        try: return fn()
        except Undecided as e:
            v = e.args[1] if len(e.args) > 1 else None
            if not isinstance(v, int) or not depth: raise
        x = dd.mk(v, dd.TRUE, dd.FALSE)
        for c in (x, dd.not_(x)):
            try: d = dd.sat(dd.and_(self.I.pc, c))
            except dd.TooBig: raise Undecided('case split')
            if d is not None: self.under(c, lambda: self.fork(fn, depth - 1))

    # ---- abstract inputs ------------------------------------------------------
    def axis(self, name, **kw): return Axis(Base(name, **kw))
    def sc(self, name, lo=-n.INF, hi=n.INF, **kw):
        return Sc(dd.leaf(n.atom(name, lo=lo, hi=hi, **kw)), 'i' if kw.get('isint') else 'f')
    def node(self, name, *axes, **kw):
        deps = frozenset(a.base.id for a in axes)
        return dd.leaf(n.atom(name, deps=deps, **kw))
    def arr(self, name, *dims, **kw):
        tag = kw.pop('tag', None); dt = kw.pop('dt', 'f')
        deps = frozenset(a.base.id for a in dims if isinstance(a, Axis))
        el = []
        for idx in core.indices(core.cshape(dims)):
            nm = name + ''.join('[%d]' % i for i, d in zip(idx, dims) if isinstance(d, int))
            for a in dims:
                if isinstance(a, Axis): nm += '@' + a.base.name
            if dt == 'b': el.append(dd.batom(nm, deps=deps))
            else: el.append(dd.leaf(n.atom(nm, deps=deps, **kw)))
        return self.I.new_arr(dims, el, dt, tag)
    def mk(self, dims, elems, dt='f', tag=None): return self.I.new_arr(dims, elems, dt, tag)
    def const_arr(self, rows): return npm.toarr(self.I, self.to_list(rows))
    def to_list(self, rows):
        if isinstance(rows, (list, tuple)): return self.I.new_list([self.to_list(r) for r in rows])
        return rows

    def unit(self, name, *axes, **kw):
        """a generic unit vector (stereographic parameters): 3 nodes"""
        deps = frozenset(a.base.id for a in axes)
        sfx = ''.join('@' + a.base.name for a in axes)
        p = n.atom(name + '.p' + sfx, deps=deps); q = n.atom(name + '.q' + sfx, deps=deps)
        s = n.add(n.add(n.mul(p, p), n.mul(q, q)), n.const(1))
        i = n.inv(s)
        comps = [n.mul(n.mul(n.const(2), p), i), n.mul(n.mul(n.const(2), q), i), n.mul(n.sub(s, n.const(2)), i)]
        for cc, ax in zip(comps, 'xyz'):
            cc.lo, cc.hi = max(cc.lo, -1.0), min(cc.hi, 1.0); cc.expr = '%s.%s' % (name, ax)
        if self.rough:
            m = n.atom(name + '.len' + sfx, deps=deps, lo=0.5)
            n.register_root(m)
            comps = [n.mul(m, x) for x in comps]
        return [dd.leaf(x) for x in comps]
    def rotation(self, name):
        """generic proper rotation, quaternion parametrised: 3x3 nodes"""
        b, c_, d = [n.atom('%s.q%s' % (name, k)) for k in 'bcd']
        one = n.const(1)
        sq = lambda x: n.mul(x, x)
        s = n.inv(n.add(n.add(one, sq(b)), n.add(sq(c_), sq(d))))
        m2 = lambda x, y: n.mul(n.const(2), n.mul(x, y))
        def S(*t):
            r = n.const(0)
            for x in t: r = n.add(r, x)
            return n.mul(r, s)
        ng = n.neg
        R = [[S(one, sq(b), ng(sq(c_)), ng(sq(d))), S(m2(b, c_), ng(m2(one, d))), S(m2(b, d), m2(one, c_))],
             [S(m2(b, c_), m2(one, d)), S(one, ng(sq(b)), sq(c_), ng(sq(d))), S(m2(c_, d), ng(m2(one, b)))],
             [S(m2(b, d), ng(m2(one, c_))), S(m2(c_, d), m2(one, b)), S(one, ng(sq(b)), ng(sq(c_)), sq(d))]]
        for i in range(3):
            for j in range(3):
                x = R[i][j]; x.lo, x.hi = max(x.lo, -1.0), min(x.hi, 1.0); x.expr = '%s[%d,%d]' % (name, i, j)
        return [[dd.leaf(x) for x in r] for r in R]
    def frame(self, name, tag=None):
        """generic rigid 4x4 frame; returns (Arr, R rows, t)"""
        R = self.rotation(name)
        t = [dd.leaf(n.atom('%s.t%d' % (name, i))) for i in range(3)]
        el = []
        for i in range(3): el += R[i] + [t[i]]
        el += [dd.c(0), dd.c(0), dd.c(0), dd.c(1)]
        return self.I.new_arr((4, 4), el, 'f', tag), R, t
    def generic44(self, name, tag=None):
        """generic affine 4x4 (last row 0 0 0 1)"""
        el = [dd.leaf(n.atom('%s[%d,%d]' % (name, i, j))) for i in range(3) for j in range(4)]
        el += [dd.c(0), dd.c(0), dd.c(0), dd.c(1)]
        return self.I.new_arr((4, 4), el, 'f', tag)

    # vector algebra on lists of nodes
    def dot(self, a, b):
        r = dd.c(0)
        for x, y in zip(a, b): r = dd.add(r, dd.mul(x, y))
        return r
    def vadd(self, a, b): return [dd.add(x, y) for x, y in zip(a, b)]
    def vsub(self, a, b): return [dd.sub(x, y) for x, y in zip(a, b)]
    def smul(self, s, a): return [dd.mul(s, x) for x in a]
    def cross(self, a, b):
        m, s = dd.mul, dd.sub
        return [s(m(a[1], b[2]), m(a[2], b[1])), s(m(a[2], b[0]), m(a[0], b[2])), s(m(a[0], b[1]), m(a[1], b[0]))]
    def matvec(self, R, v): return [self.dot(r, v) for r in R]
    def tvec(self, R, v): return [self.dot([R[k][i] for k in range(3)], v) for i in range(3)]
    def matmul44(self, A, B):
        I = self.I
        a, b = I.elems(A), I.elems(B)
        el = [self.dot(a[4*i:4*i+4], [b[4*k+j] for k in range(4)]) for i in range(4) for j in range(4)]
        return I.new_arr((4, 4), el)

    # ---- calls -----------------------------------------------------------------
    def cls(self, dotted, name): return self.I.anchor(dotted, name)
    def new(self, dotted, name, *args, **kw):
        self.anchors.append((dotted, name)); return self.I.call(self.I.anchor(dotted, name), list(args), kw)
    def call(self, dotted, name, *args, **kw):
        self.anchors.append((dotted, name)); return self.I.call(self.I.anchor(dotted, name), list(args), kw)
    def m(self, o, name, *args, **kw): return self.I.meth(o, name, *args, **kw)
    def get(self, o, name): return self.I.getattr(o, name)
    def bundle(self, ax, tag=None, props=('energy', 'parents', 'ref_index'), name='', **extra):
        """a RayBundle of generic rays over axis ax"""
        I = self.I
        el = [self.node('%spos%s@%s' % (name, 'xyz'[i], ax.base.name), ax) for i in range(3)]
        V = I.new_arr((3, ax), el, 'f', tag and tag + ' vertices')
        D = I.new_arr((3, ax), self.unit(name + 'dir', ax), 'f', tag and tag + ' directions')
        kw = dict(vertices=V, directions=D)
        if 'energy' in props: kw['energy'] = self.arr(name + 'energy', ax, tag=tag and tag + ' energy', lo=0.0)
        if 'parents' in props: kw['parents'] = self.arr(name + 'parents', ax, tag=tag and tag + ' parents', lo=0.0, isint=True, dt='i')
        if 'ref_index' in props: kw['ref_index'] = self.arr(name + 'ref_index', ax, tag=tag and tag + ' ref_index', lo=1.0)
        kw.update(extra)
        b = self.I.call(self.I.anchor('tracer.ray_bundle', 'RayBundle'), [], kw)
        return b, kw
