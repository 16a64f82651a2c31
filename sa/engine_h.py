"""Environment model for the tracing engine: opaque surfaces and objects with a
recorded, typestate-checked protocol.  Used by C01-C05 (and parts of C06, C16)."""
from .harness import *
import ast

TOL = Fraction(1, 1000000)

def part_node(ax, f):
    """value over ax given f(base, mask) per leaf part"""
    b = ax.base
    if not b.parts: return f(b)
    r = None
    for j, bb, m in reversed(flat_idx(ax)):
        v = f(bb)
        r = v if r is None else dd.ite(b.part_cond[j], v, r)
    return r if r is not None else dd.FALSE

def res(I, v):
    while isinstance(v, Choice):
        c = I.simplify(v.c)
        if c is dd.TRUE: v = v.a
        elif c is dd.FALSE: v = v.b
        else: return v
    return v

class Stub(HostObj):
    kind = 'object'
    def attr(self, I, name):
        m = getattr(self, 'm_' + name, None)
        if m is None: return self.missing(I, name)
        return Builtin('%s.%s' % (self.name, name), lambda I, a, k: m(I, *a, **k), lift=False)
    def missing(self, I, name): raise Undecided('%s.%s of the environment' % (self.kind, name))
    # per-object abstract state, kept in the abstract store so that it is joined at merges
    def st(self, I): return I.get(self.oid).d
    def upd(self, I, **kw):
        d = dict(self.st(I)); d.update(kw); I.put(self.oid, DictRec(d))

class Surf(Stub):
    kind = 'surface'
    def __init__(self, w, k):
        self.w, self.k, self.name = w, k, 'surface%d' % k
        z = Sc(dd.c(0), 'i'); f = Sc(dd.FALSE, 'b')
        self.oid = w.I.alloc(DictRec(dict(reg=f, sel=f, taken=f, ndone=z, nreg=z, bund=None, selax=None)))
    def flag(self, I, k): return self.st(I)[k].node
    def m_register_incoming(self, I, b):
        w, h = self.w, self.w.h
        V = I.resolve(I.meth(b, 'get_vertices'))
        if isinstance(V, Choice) and npm.try_merge(I, V) is None: return I.over(b, lambda b: self.reg(I, b))
        return self.reg(I, b)
    def reg(self, I, b):
        w = self.w
        V = npm.toarr(I, I.meth(b, 'get_vertices'))
        ax = V.dims[1]
        it = self.st(I)['ndone']
        w.ev('register', self.k, I, it=it, bundle=b, axis=ax, vals=w.snap(b), was=self.flag(I, 'reg'))
        if not isinstance(ax, Axis):
            self.upd(I, reg=Sc(dd.TRUE, 'b'))
            return I.new_arr((ax,), [dd.c(n.INF)] * ax)
        p = w.param(self.k, ax)
        self.upd(I, reg=Sc(dd.TRUE, 'b'), bund=b, ax=ax)
        return I.new_arr((ax,), [p], 'f', w.tags is True and 'the surface\'s own parameters')
    def m_select_rays(self, I, idxs):
        return I.over(idxs, lambda x: self.sel(I, x))
    def sel(self, I, idxs):
        w = self.w
        A = npm.toarr(I, idxs)
        reg = res(I, self.st(I).get('ax'))
        w.ev('select', self.k, I, it=self.st(I)['ndone'], idx=A, elems=list(I.elems(A)), reg=self.flag(I, 'reg'), ax=reg)
        self.upd(I, sel=Sc(dd.TRUE, 'b'), selax=A)
    def m_get_outgoing(self, I):
        w = self.w
        A = res(I, self.st(I)['selax'])
        reg = res(I, self.st(I).get('ax'))
        if isinstance(A, Choice) or isinstance(reg, Choice): raise Undecided('several selections')
        w.ev('outgoing', self.k, I, it=self.st(I)['ndone'], sel=self.flag(I, 'sel'), taken=self.flag(I, 'taken'), idx=A)
        self.upd(I, taken=Sc(dd.TRUE, 'b'))
        if A is None or not isinstance(A.dims[0], Axis) or not isinstance(reg, Axis):
            raise Undecided('outgoing rays of an unmodelled selection')
        return w.make_out(I, self.k, A, reg)
    def m_done(self, I):
        w = self.w
        w.ev('done', self.k, I, it=self.st(I)['ndone'], sel=self.flag(I, 'sel'), taken=self.flag(I, 'taken'))
        f = Sc(dd.FALSE, 'b')
        self.upd(I, reg=f, sel=f, taken=f, selax=None, bund=None, ax=None, ndone=Sc(dd.add(self.st(I)['ndone'].node, dd.c(1)), 'i'))

class Obj(Stub):
    kind = 'object'
    def __init__(self, w, o, surfs): self.w, self.o, self.surfs, self.name = w, o, surfs, 'object%d' % o
    def m_get_surfaces(self, I): return I.new_list(list(self.surfs))
    def q(self, I, rays, sid, what):
        V = npm.toarr(I, I.meth(rays, 'get_vertices'))
        ax = V.dims[1]
        self.w.ev(what, self.o, I, axis=ax, sid=sid, vals=self.w.snap(rays))
        return ax
    def m_own_rays(self, I, rays, surface_id):
        V = I.resolve(I.meth(rays, 'get_vertices'))
        if isinstance(V, Choice) and npm.try_merge(I, V) is None: return I.over(rays, lambda r: self.own(I, r, surface_id))
        return self.own(I, rays, surface_id)
    def own(self, I, rays, sid):
        ax = self.q(I, rays, sid, 'own_rays')
        if not isinstance(ax, Axis): return I.new_arr((ax,), [dd.FALSE] * ax, 'b')
        return I.new_arr((ax,), [part_node(ax, lambda b: self.w.own(self.o, b))], 'b')
    def m_surfaces_for_next_iteration(self, I, rays, surface_id):
        V = I.resolve(I.meth(rays, 'get_vertices'))
        if isinstance(V, Choice) and npm.try_merge(I, V) is None: return I.over(rays, lambda r: self.rel(I, r, surface_id))
        return self.rel(I, rays, surface_id)
    def rel(self, I, rays, sid):
        ax = self.q(I, rays, sid, 'surfaces_for_next')
        ns = len(self.surfs)
        if not isinstance(ax, Axis): return I.new_arr((ns, ax), [dd.TRUE] * (ns * ax), 'b')
        return I.new_arr((ns, ax), [part_node(ax, lambda b, s=s: self.w.rel(s.k, b)) for s in self.surfs], 'b')

class Asm(Stub):
    kind = 'assembly'; name = 'assembly'
    def __init__(self, w): self.w = w
    def m_get_surfaces(self, I): return I.new_list(list(self.w.surfs))
    def m_get_objects(self, I): return I.new_list(list(self.w.objs))

class Ev(object):
    def __init__(self, kind, k, pc, loc, kw): self.kind, self.k, self.pc, self.loc = kind, k, pc, loc; self.__dict__.update(kw)

class World(object):
    """layout: list of surfaces per object, e.g. (2, 1)"""
    def __init__(self, h, layout=(2, 1), simple=False, tags=False, extra=False, always=(), pre='', bare=False):
        self.h, self.I, self.layout, self.pre = h, h.I, layout, pre
        self.tags, self.extra = tags, extra
        self.simple = simple          # objects never own rays and deem all surfaces relevant
        self.events = []
        self.outs = {}                # base id -> (surface, base, parent axis, registered axis)
        self.surfs, self.objs, self.obj_of, self.first = [], [], [], []
        k = 0
        for o, cnt in enumerate(layout):
            ss = [Surf(self, k + i) for i in range(cnt)]
            self.first.append(k); k += cnt
            self.obj_of += [o] * cnt
            self.surfs += ss
            self.objs.append(Obj(self, o, ss))
        self.ns = k
        self.S = h.axis(pre + 'S')
        kw = {}
        if extra: kw['wavelen'] = h.arr(pre + 'wl', self.S)
        self.src, self.srcvals = h.bundle(self.S, tag=pre + 'source' if tags else None, name=pre, props=('energy', 'ref_index') if bare else ('energy', 'parents', 'ref_index'), **kw)
        self.emin = h.sc('min_energy')
        self.asm = Asm(self)
    def again(self, pre='second.'):
        """the same surfaces and objects, with their record started anew, for a further trace of other rays"""
        w = World(self.h, self.layout, self.simple, self.tags, self.extra, pre=pre)
        z = Sc(dd.c(0), 'i'); f = Sc(dd.FALSE, 'b')
        for s in self.surfs:
            s.w = w
            s.upd(self.I, reg=f, sel=f, taken=f, ndone=z, nreg=z, bund=None, selax=None, ax=None)
        for o in self.objs: o.w = w
        w.surfs, w.objs, w.asm, w.emin = self.surfs, self.objs, self.asm, self.emin
        self.asm.w = w
        return w
    def props(self): return ('vertices', 'directions', 'energy', 'parents', 'ref_index') + (('wavelen',) if self.extra else ())
    def ev(self, kind, k, I, **kw): self.events.append(Ev(kind, k, I.pc, I.loc, kw))
    def snap(self, b):
        I = self.I
        out = {}
        for p in self.props():
            try: v = I.meth(b, 'get_' + p)
            except AbsRaise: continue
            if isinstance(v, Choice):
                try: v = npm.toarr(I, v)
                except Undecided: pass
            if isinstance(v, Arr): v = Arr(I.alloc(ArrRec(I.get(v.oid).elems, I.adt(v), None, I.get(v.oid).loc)), v.dims, v.pos)
            out[p] = v
        return out
    # atoms
    def hit(self, k, b): return dd.batom('hits%d@%s' % (k, b.name), deps=frozenset([b.id]))
    def T(self, k, b): return dd.leaf(n.atom('T%d@%s' % (k, b.name), lo=0.0, deps=frozenset([b.id])))
    def param1(self, k, b): return dd.ite(self.hit(k, b), self.T(k, b), dd.c(n.INF))
    def param(self, k, ax): return part_node(ax, lambda b: self.param1(k, b))
    def own(self, o, b): return dd.FALSE if self.simple else dd.batom('owned_by%d@%s' % (o, b.name), deps=frozenset([b.id]))
    def rel(self, k, b): return dd.TRUE if self.simple else dd.batom('relevant%d@%s' % (k, b.name), deps=frozenset([b.id]))
    def make_out(self, I, k, idx, reg):
        """rays produced by surface k for the rays selected by idx (positions in the registered bundle)"""
        sel = idx.dims[0]
        it = len([1 for v in self.outs.values() if v[0] == k])
        base = Base('%sout%d.%d' % (self.pre, k, it), parent=sel)
        ax = Axis(base)
        h = self.h
        kw = dict(vertices=I.new_arr((3, ax), [h.node('pos%s@%s' % (c_, base.name), ax) for c_ in 'xyz']),
            directions=I.new_arr((3, ax), h.unit('dir', ax)),
            energy=h.arr('energy', ax, lo=0.0),
            parents=I.new_arr((ax,), [I.elems(idx)[0]], 'i'),
            ref_index=h.arr('ref_index', ax, lo=1.0))
        if self.extra: kw['wavelen'] = h.arr('wl', ax)
        vals = {p: Arr(I.alloc(ArrRec(I.get(v.oid).elems, I.adt(v))), v.dims, v.pos) for p, v in kw.items()}
        self.outs[base.id] = (k, base, sel, reg, vals)
        return I.call(I.anchor('tracer.ray_bundle', 'RayBundle'), [], kw)
    # ---- specification ------------------------------------------------------
    def gen(self, b): return self.outs[b.id][0] if b.id in self.outs else None
    def tested(self, k, b):
        g = self.gen(b)
        if g is None: return dd.TRUE
        o = self.obj_of[g]
        own = self.own(o, b)
        if self.obj_of[k] == o: return self.rel(k, b)
        return dd.not_(own)
    def survives(self, b):
        """energy above the cut-off (source rays always)"""
        if b.id not in self.outs: return dd.TRUE
        e = self.I.elems(self.outs[b.id][4]['energy'])[0]
        return dd.gt(e, self.emin.node)
    def ahead(self, k, b): return dd.and_(self.tested(k, b), dd.and_(self.hit(k, b), dd.gt(self.T(k, b), dd.c(TOL))))
    def verdict(self, k, b):
        r = self.ahead(k, b)
        for j in range(self.ns):
            if j != k: r = dd.and_(r, dd.not_(dd.and_(self.ahead(j, b), dd.lt(self.T(j, b), self.T(k, b)))))
        return r
    def level(self, i):
        """bases of the rays propagated into iteration i"""
        if i == 0: return [self.S.base]
        return [v[1] for v in self.outs.values() if v[1].name.endswith('.%d' % (i - 1))]
    def gen_exist(self, i):
        """some ray is generated in iteration i"""
        r = dd.FALSE
        for b in self.level(i + 1): r = dd.or_(r, Axis(b).nonempty())
        return r
    def survivors_exist(self, i):
        r = dd.FALSE
        for b in self.level(i): r = dd.or_(r, Axis(b, self.survives(b)).nonempty())
        return r
    def runs(self, i):
        """iteration i runs (given at least i+1 repetitions)"""
        r = dd.TRUE
        for j in range(1, i + 1): r = dd.and_(r, self.survivors_exist(j))
        return r
    def iterations(self, reps):
        r = dd.c(0)
        for i in range(reps): r = dd.add(r, dd.ite(self.runs(i), dd.c(1), dd.c(0)))
        return r
    def evlevel(self, ax):
        """iteration an event belongs to, by the rays concerned"""
        if not isinstance(ax, Axis): return None
        lv = set()
        for b, m in flatten(ax): lv.add(0 if b.id not in self.outs else int(b.name.rsplit('.', 1)[1]) + 1)
        return lv.pop() if len(lv) == 1 else None
    def trace(self, reps, src=None, eng=None, **kw):
        I = self.I
        if eng is None: eng = I.call(I.anchor('tracer.tracer_engine', 'TracerEngine'), [self.asm], {})
        r = I.call(I.getattr(eng, 'ray_tracer'), [src or self.src, reps, self.emin], kw)
        return eng, r

    # ---- obligations ----------------------------------------------------------
    def live(self, ev): return ev.pc is not dd.FALSE and dd.sat(ev.pc) is not None

    def check_select(self):
        """C01: selected exactly the rays whose nearest hit ahead is this surface"""
        h, I = self.h, self.I
        per = {}
        for e in self.events:
            if e.kind != 'select' or not self.live(e): continue
            if not isinstance(e.ax, Axis):
                h.und('select', 'registered index space not modelled'); continue
            lv = self.evlevel(e.ax)
            nm = 'surface %d, iteration %s: selected rays' % (e.k, lv)
            v = part_node(e.ax, lambda b: self.verdict(e.k, b))
            want = I.new_arr((e.ax.sub(v),), [e.ax.pos()], 'i')
            got = I.new_arr(e.idx.dims, e.elems, 'i')
            h.same(nm, got, want, care=e.pc, loc=e.loc)
            per[(e.k, lv)] = dd.or_(per.get((e.k, lv), dd.FALSE), e.pc)
        return per

    def check_selected_iff(self, reps, per):
        h = self.h
        for i in range(reps):
            for k in range(self.ns):
                want = dd.FALSE
                for b in self.level(i): want = dd.or_(want, Axis(b, dd.and_(self.survives(b), self.verdict(k, b))).nonempty())
                want = dd.and_(self.runs(i), want)
                h.eq('surface %d, iteration %d: asked to act iff some ray must hit it' % (k, i), per.get((k, i), dd.FALSE), want, care=dd.TRUE)

    def check_register(self):
        """C03/C05: each surface is given exactly the rays to be tested against it"""
        h, I = self.h, self.I
        per = {}
        for e in self.events:
            if e.kind != 'register' or not self.live(e): continue
            if not isinstance(e.axis, Axis): h.und('register', 'index space'); continue
            lv = self.evlevel(e.axis)
            nm = 'surface %d, iteration %s: ' % (e.k, lv)
            exp = [(b, dd.and_(self.survives(b), self.tested(e.k, b))) for b in self.level(lv or 0)]
            self.rays(nm + 'tested rays', e.vals, exp, e.pc, e.loc)
            per[(e.k, lv)] = dd.or_(per.get((e.k, lv), dd.FALSE), e.pc)
        return per

    def check_registered_iff(self, reps, per):
        h = self.h
        for i in range(reps):
            for k in range(self.ns):
                want = dd.FALSE
                for b in self.level(i): want = dd.or_(want, Axis(b, dd.and_(self.survives(b), self.tested(k, b))).nonempty())
                want = dd.and_(self.runs(i), want)
                h.holds('surface %d, iteration %d: tested if some ray must be' % (k, i), dd.or_(per.get((k, i), dd.FALSE), dd.not_(want)), care=dd.TRUE)

    def vals_of(self, b):
        return self.outs[b.id][4] if b.id in self.outs else self.srcvals

    def rays(self, name, vals, exp, care, loc=None, props=('vertices', 'directions', 'energy', 'ref_index'), strict=True):
        """a bundle (dict of property arrays) holds exactly the rays exp = [(base, mask)], each once,
        with the values its producer gave it; order of parts is free"""
        h, I = self.h, self.I
        ok = True
        for p in props:
            if p not in vals: h.viol(name, 'property %s is not set' % p, loc); return False
            v = vals[p]
            for c, a in h.alts(v, care):
                if c is dd.FALSE or dd.sat(c) is None: continue
                if not isinstance(a, Arr): h.und(name, 'value'); continue
                ax = a.dims[-1]
                if isinstance(ax, int):
                    if ax != 0: h.und(name, 'literal count'); continue
                    ex = dd.FALSE
                    for b, m in exp: ex = dd.or_(ex, Axis(b, m).nonempty())
                    h.eq('%s (%s): none' % (name, p), dd.and_(c, ex), dd.FALSE, care=dd.TRUE, loc=loc)
                    continue
                want = {b.id: (b, m) for b, m in exp}
                seen = {}
                for j, b, m in flat_idx(ax):
                    cc = c if j is None else part_val(c, ax.base, j)
                    if b.id not in want:
                        d = dd.sat(dd.and_(cc, dd.and_(m, b.care)), elem=b.witness, report=True)
                        if d is None: continue
                        if d.imp: h.und(name, 'extra rays'); ok = None; continue
                        h.viol(name, 'contains rays of %s, which do not belong here' % b.name, loc); return False
                    o = seen.get(b.id, dd.FALSE)
                    if h.eq('%s (%s): each ray once [%s]' % (name, p, b.name), dd.and_(o, m), dd.FALSE, care=dd.and_(cc, b.care), loc=loc) is False: return False
                    seen[b.id] = dd.or_(o, m)
                    ref = I.elems(self.vals_of(b)[p])
                    got = I.elems(a)
                    for q, (x, y) in enumerate(zip(got, ref)):
                        if j is not None: x = part_val(x, ax.base, j)
                        if h.eq('%s (%s[%d]): value of the ray it belongs to [%s]' % (name, p, q, b.name), x, y, care=dd.and_(cc, dd.and_(m, b.care)), loc=loc or h.vloc(a)) is False: return False
                for b, m in exp:
                    g = seen.get(b.id, dd.FALSE)
                    cc = c
                    d = dd.differ(g, m, dd.and_(cc, b.care), elem=b.witness, report=True)
                    nm = '%s (%s): complete [%s]' % (name, p, b.name)
                    if d is None: h.ok(nm)
                    elif d.imp: h.und(nm, d.text()[:200])
                    else: h.viol(nm, 'rays of %s present: %s' % (b.name, d.text()), loc); return False
        return ok

    def check_protocol(self, reps):
        h, I = self.h, self.I
        for e in self.events:
            if not self.live(e): continue
            nm = 'surface %s: %s at %s' % (e.k, e.kind, e.loc[2])
            if e.kind == 'register':
                h.eq(nm + ' only after release', e.was, dd.FALSE, care=e.pc, loc=e.loc)
                lv = self.evlevel(e.axis)
                if lv is not None: h.eq(nm + ' once per iteration', e.it.node, dd.c(lv), care=e.pc, loc=e.loc)
            elif e.kind == 'select':
                h.eq(nm + ' only after registering', e.reg, dd.TRUE, care=e.pc, loc=e.loc)
            elif e.kind == 'outgoing':
                h.eq(nm + ' only after selection', e.sel, dd.TRUE, care=e.pc, loc=e.loc)
                h.eq(nm + ' at most once', e.taken, dd.FALSE, care=e.pc, loc=e.loc)
            elif e.kind == 'done':
                h.eq(nm + ' after outgoing rays were taken', dd.and_(e.sel, dd.not_(e.taken)), dd.FALSE, care=e.pc, loc=e.loc)
        for s in self.surfs:
            h.eq('surface %d released once per iteration' % s.k, s.st(I)['ndone'].node, self.iterations(reps))
            h.eq('surface %d released at the end' % s.k, s.flag(I, 'reg'), dd.FALSE)

    def check_objects(self):
        """C03: objects are asked about the surviving rays of their own surface"""
        h, I = self.h, self.I
        per = {}
        for e in self.events:
            if e.kind not in ('own_rays', 'surfaces_for_next') or not self.live(e): continue
            if not isinstance(e.axis, Axis):
                continue
            fl = flatten(e.axis)
            if len(fl) != 1 or fl[0][0].id not in self.outs: h.und(e.kind, 'rays of several surfaces'); continue
            b = fl[0][0]
            k = self.outs[b.id][0]
            nm = '%s for %s' % (e.kind, b.name)
            if e.k != self.obj_of[k]:
                h.viol(nm, 'object %d was asked about rays leaving surface %d of object %d' % (e.k, k, self.obj_of[k]), e.loc); continue
            h.same(nm + ': position of the surface in its object', e.sid, k - self.first[self.obj_of[k]], care=e.pc, loc=e.loc)
            self.rays(nm + ': surviving rays', e.vals, [(b, self.survives(b))], e.pc, e.loc)
            per[(e.kind, b.id)] = dd.or_(per.get((e.kind, b.id), dd.FALSE), e.pc)
        return per

    def check_return(self, reps, ret):
        h, I = self.h, self.I
        ret = I.resolve(ret)
        if not isinstance(ret, tuple) or len(ret) != 2: h.und('return', 'not a pair'); return
        for i in range(1, reps + 1):
            cond = self.runs(i - 1)
            if i < reps: cond = dd.and_(cond, dd.not_(self.survivors_exist(i)))
            exp = [(b, self.survives(b)) for b in self.level(i)]
            self.rays('returned rays when iteration %d is the last' % (i - 1), dict(vertices=ret[0], directions=ret[1]), exp, dd.and_(I.pc, cond), props=('vertices', 'directions'))

    def tree_bundle(self, eng, i):
        I = self.I
        return I.getitem(I.getattr(eng, 'tree'), i)

    def check_tree(self, eng, reps):
        h, I = self.h, self.I
        tree = I.getattr(eng, 'tree')
        cnt = dd.c(1)
        for i in range(reps):
            g = dd.and_(self.runs(i), self.gen_exist(i))
            cnt = dd.add(cnt, dd.ite(g, dd.c(1), dd.c(0)))
        h.eq('number of tree levels', npm.toarr(I, I.meth(tree, 'num_bunds')) and I.scalar(I.meth(tree, 'num_bunds')).node, cnt)
        prev = None
        for i in range(reps + 1):
            cond = dd.TRUE if i == 0 else dd.and_(self.runs(i - 1), self.gen_exist(i - 1))
            if dd.sat(dd.and_(I.pc, cond)) is None: continue
            def chk(prev=prev):
                b = I.getitem(tree, i)
                vals = {}
                for p in self.props():
                    v = res(I, I.meth(b, 'get_' + p))
                    if isinstance(v, Choice):
                        try: v = npm.toarr(I, v)
                        except Undecided: pass
                    vals[p] = v
                exp = [(x, dd.TRUE) for x in self.level(i)]
                pr = ('vertices', 'directions', 'energy', 'ref_index') + (('wavelen',) if self.extra else ())
                r = self.rays('tree level %d' % i, vals, exp, I.pc, props=pr)
                if i and r: self.parents('tree level %d parents' % i, vals['parents'], vals['vertices'], prev)
                V = vals['vertices']
                return V.dims[1] if isinstance(V, Arr) and isinstance(V.dims[1], Axis) else V
            prev = h.under(cond, chk)

    def parents(self, name, P, V, prev):
        h, I = self.h, self.I
        if not isinstance(P, Arr) or not isinstance(P.dims[0], Axis) or not isinstance(prev, Axis): h.und(name, 'index space'); return
        ax = P.dims[0]
        vax = V.dims[1] if isinstance(V, Arr) else None
        if isinstance(vax, Axis):
            e = axis_equiv(ax, vax, I.pc, True)
            if e is False: h.viol(name, 'parent indices are ordered differently from the rays', h.vloc(P)); return
        pp = prev.pos_parts()
        for j, b, m in flat_idx(ax):
            sel = self.outs[b.id][2]
            def f(pb):
                v = None
                for cnd, base, mask, val in pp:
                    if base is not pb: continue
                    v = dd.leaf(val) if v is None else dd.ite(mask, dd.leaf(val), v)
                return v if v is not None else dd.c(-1)
            want = part_node(sel, f)
            got = I.elems(P)[0]
            if j is not None: got = part_val(got, ax.base, j)
            care = I.pc if j is None else part_val(I.pc, ax.base, j)
            h.eq('%s [%s]' % (name, b.name), got, want, care=dd.and_(care, dd.and_(m, b.care)), loc=h.vloc(P))
