"""Abstract interpreter over the Python syntax tree of /repo.

One abstract state per program point; at merges states are joined with gated
values.  Calls are analysed in context.  Nothing of the repository is imported
or executed.
"""
import time, ast, os, sys
from fractions import Fraction
from . import num as n, dd
from .core import *

_nonloc = object()

class Frame(object):
    def __init__(self, func, env, module):
        self.func, self.env, self.module = func, env, module
        self.returns = []; self.loops = []; self.globals_ = set(); self.nonlocals = set()

class Event(object):
    def __init__(self, pc, name, args, loc): self.pc, self.name, self.args, self.loc = pc, name, args, loc
    def __repr__(self): return 'Event(%s)' % self.name

def parse_file(path):
    src = open(path, encoding='utf-8', errors='replace').read()
    try:
        return ast.parse(src, path)
    except SyntaxError:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            from lib2to3 import refactor
            fx = refactor.get_fixers_from_package('lib2to3.fixes')
            rt = refactor.RefactoringTool(fx)
            return ast.parse(str(rt.refactor_string(src + '\n', path)), path)

class Interp(object):
    MAXDEPTH = 60
    def __init__(self, root='/repo', pkg='tracer'):
        self.root, self.pkg = root, pkg
        self.st = State({}, dd.TRUE)
        self.noid = 0
        self.modules = {}
        self.frames = []
        self.raises = []       # (state, AbsRaise, loc)
        self.anoms = []        # (pc, kind, text, loc)
        self.events = []
        self.loc = ('?', 0, '?')
        self.steps = 0
        self.analysed = set()  # functions entered
        self.files = set()
        self.notes = []
        self.generic = []      # stack of axes of generic loops
        from . import npmodel, pymodel
        self.np = npmodel
        self.ext = {}
        pymodel.install(self); npmodel.install(self)

    # ---- store ------------------------------------------------------------
    def alloc(self, rec):
        self.noid += 1
        self.st.store[self.noid] = rec
        return self.noid
    def get(self, oid): return self.st.store[oid]
    def put(self, oid, rec): self.st.store[oid] = rec
    @property
    def pc(self): return self.st.pc

    def new_arr(self, dims, elems, dt='f', tag=None):
        elems = tuple(elems)
        oid = self.alloc(ArrRec(elems, dt, tag, self.loc))
        return Arr(oid, dims, range(len(elems)))
    def elems(self, a):
        r = self.get(a.oid).elems
        return [r[p] for p in a.pos]
    def adt(self, a): return self.get(a.oid).dt
    def new_list(self, vals): return ListRef(self.alloc(ListRec([(dd.TRUE, v) for v in vals])))
    def new_dict(self, d, kind='dict'): return DictRef(self.alloc(DictRec(dict(d), kind)))
    def new_obj(self, cls, d=None): return ObjRef(self.alloc(ObjRec(dict(d or {}))), cls)

    def write(self, a, newelems, what='write'):
        """write elements through view a"""
        rec = self.get(a.oid)
        e = list(rec.elems)
        for p, v in zip(a.pos, newelems): e[p] = self.cast(v, rec.dt)
        if rec.tag is not None:
            changed = dd.FALSE
            for o, w in zip(rec.elems, e):
                if o is not w: changed = dd.TRUE
            if changed is dd.TRUE and dd_differ_any(rec.elems, e, self.pc):
                self.anoms.append((self.pc, 'write', 'modifies %s in place' % rec.tag, self.loc))
        self.put(a.oid, ArrRec(e, rec.dt, rec.tag, self.loc))

    def cast(self, node, dt):
        if dt == 'b': return dd.truth(node) if any(not isinstance(l.val, bool) for l in dd.leaves(node)) else node
        node = dd.tonum(node)
        if dt == 'i':
            def f(x):
                if x.kind: return dd.leaf(n.opaque('int', [x], imp=True) if x.kind == n.NAN else n.opaque('int', [], imp=True))
                if x.isint: return dd.leaf(x)
                if x.const is not None: return dd.c(int(x.const))
                return dd.leaf(n.opaque('trunc', [x], isint=True))
            node = dd.apply1('toint', f, node)
            if isinstance(dt, str) and type(dt) is not str:     # a narrow integer type
                def g(x):
                    if x.kind or x.imp: return dd.leaf(x)
                    if x.const is not None: return dd.c((int(x.const) - dt.lo) % (dt.hi - dt.lo + 1) + dt.lo)
                    if x.lo >= dt.lo and x.hi <= dt.hi: return dd.leaf(x)
                    return dd.leaf(n.opaque('wrap ' + dt.nm, [x], isint=True))
                node = dd.apply1('to' + dt.nm, g, node)
            return node
        if dt == 'f32':
            return dd.apply1('tof32', lambda x: dd.leaf(x if x.const is not None or x.kind else n.opaque('float32', [x])), node)
        return node

    # ---- forks and joins --------------------------------------------------
    def merge(self, c, a, b):
        if a is b: return a
        if c is dd.TRUE: return a
        if c is dd.FALSE: return b
        na, nb = self.scalar(a), self.scalar(b)
        if na is not None and nb is not None:
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)) and type(a) is type(b) and a == b: return a
            dt = na.dt if na.dt == nb.dt else ('f' if 'f' in (na.dt, nb.dt) else 'i')
            if na.node is nb.node and na.dt == nb.dt: return na
            x, y = na.node, nb.node
            if dt != 'b': x, y = dd.tonum(x), dd.tonum(y)
            return Sc(dd.ite(c, x, y), dt)
        if type(a) is type(b):
            if isinstance(a, Ref) and a == b: return a
            if isinstance(a, Arr) and a.oid == b.oid and a.dims == b.dims and a.pos == b.pos: return a
            if isinstance(a, tuple) and len(a) == len(b):
                return tuple(self.merge(c, x, y) for x, y in zip(a, b))
            if isinstance(a, (str, bytes)) and a == b: return a
            if isinstance(a, BoundM) and a == b: return a
            if isinstance(a, SliceV) and a == b: return a
        return Choice(c, a, b)

    def merge_rec(self, c, a, b):
        if a is b: return a
        if type(a) is not type(b): raise Undecided('join of different kinds')
        if isinstance(a, ArrRec):
            if len(a.elems) != len(b.elems): raise Undecided('join of arrays')
            dt = a.dt if a.dt == b.dt else 'f'
            el = [x if x is y else dd.ite(c, x, y) if (dt == 'b') else dd.ite(c, dd.tonum(x), dd.tonum(y)) for x, y in zip(a.elems, b.elems)]
            return ArrRec(el, dt, a.tag or b.tag, a.loc if a.loc == b.loc else (b.loc if b.loc and a.elems == b.elems else a.loc))
        if isinstance(a, ListRec):
            out = []
            k = 0
            while k < len(a.items) and k < len(b.items):
                (g1, v1), (g2, v2) = a.items[k], b.items[k]
                if g1 is g2 and (v1 is v2 or (not isinstance(v1, SymItem) and not isinstance(v2, SymItem) and g1 is dd.TRUE)):
                    out.append((g1, v1 if v1 is v2 else self.merge(c, v1, v2))); k += 1
                else: break
            for g, v in a.items[k:]: out.append((dd.and_(c, g), v))
            for g, v in b.items[k:]: out.append((dd.and_(dd.not_(c), g), v))
            return ListRec(out)
        if isinstance(a, DictRec):
            return DictRec(self.merge_dict(c, a.d, b.d), a.kind)
        if isinstance(a, ObjRec):
            return ObjRec(self.merge_dict(c, a.d, b.d))
        if isinstance(a, dict):
            return self.merge_dict(c, a, b)
        raise Undecided('join of %s' % type(a))

    def merge_dict(self, c, a, b):
        out = {}
        for k in a:
            if k in b: out[k] = a[k] if a[k] is b[k] else self.merge(c, a[k], b[k])
            else: out[k] = self.merge(c, a[k], MISSING)
        for k in b:
            if k not in a: out[k] = self.merge(c, MISSING, b[k])
        return out

    def join(self, s1, s2):
        """-> (state, discriminator)"""
        if s1 is None: return s2, dd.FALSE
        if s2 is None: return s1, dd.TRUE
        pc = dd.or_(s1.pc, s2.pc)
        c = dd.restrict(s1.pc, pc)
        store = dict(s2.store)
        for k, r1 in s1.store.items():
            r2 = s2.store.get(k)
            if r2 is None: store[k] = r1
            elif r1 is not r2: store[k] = self.merge_rec(c, r1, r2)
        return State(store, pc), c

    def record_raise(self, e):
        self.raises.append((self.st, e, self.loc, [f.func.name if f.func else '?' for f in self.frames]))

    def fork(self, c, f, g):
        """expression-level fork; returns merged value"""
        c = self.simplify(c)
        if c is dd.TRUE: return f()
        if c is dd.FALSE: return g()
        s0 = self.st
        pc1, pc2 = dd.and_(s0.pc, c), dd.and_(s0.pc, dd.not_(c))
        if pc2 is dd.FALSE: return f()
        if pc1 is dd.FALSE: return g()
        v = [None, None]; ss = [None, None]; err = None
        for i, (pc, fn) in enumerate(((pc1, f), (pc2, g))):
            self.st = s0.fork(pc)
            try:
                v[i] = fn(); ss[i] = self.st
            except AbsRaise as e:
                self.record_raise(e); err = e
        if ss[0] is None and ss[1] is None:
            # both already recorded; signal dead state
            self.st = s0
            raise DeadPath()
        if ss[0] is None: self.st = ss[1]; return v[1]
        if ss[1] is None: self.st = ss[0]; return v[0]
        self.st, cc = self.join(ss[0], ss[1])
        return self.merge(cc, v[0], v[1])

    def simplify(self, c):
        r = dd.restrict(c, self.pc)
        if r.var != dd.LEAF and len(dd.support(r)) <= 14:
            # decide with the theory
            try:
                if dd.differ(c, dd.TRUE, self.pc, budget=3000) is None: return dd.TRUE
                if dd.differ(c, dd.FALSE, self.pc, budget=3000) is None: return dd.FALSE
            except dd.TooBig: pass
        return r

    def resolve(self, v):
        """simplify a Choice under the current path condition"""
        while isinstance(v, Choice):
            c = dd.restrict(v.c, self.pc)
            if c is dd.TRUE: v = v.a
            elif c is dd.FALSE: v = v.b
            else:
                if dd.and_(self.pc, v.c) is dd.FALSE: v = v.b; continue
                if dd.and_(self.pc, dd.not_(v.c)) is dd.FALSE: v = v.a; continue
                return Choice(c, v.a, v.b)
        return v

    def over(self, v, f):
        """apply f to v, forking on choices"""
        v = self.resolve(v)
        if isinstance(v, Choice):
            return self.fork(v.c, lambda: self.over(v.a, f), lambda: self.over(v.b, f))
        return f(v)

    def branch(self, c, f, g):
        """statement-level; f, g return liveness"""
        c = self.simplify(c)
        if c is dd.TRUE: return f()
        if c is dd.FALSE: return g()
        s0 = self.st
        ss = [None, None]
        for i, (pc, fn) in enumerate(((dd.and_(s0.pc, c), f), (dd.and_(s0.pc, dd.not_(c)), g))):
            if pc is dd.FALSE: continue
            self.st = s0.fork(pc)
            try:
                if fn(): ss[i] = self.st
            except AbsRaise as e: self.record_raise(e)
            except DeadPath: pass
        if ss[0] is None and ss[1] is None:
            self.st = s0
            return False
        self.st, _ = self.join(ss[0], ss[1])
        return True

    # ---- scalars ----------------------------------------------------------
    def scalar(self, v):
        """Sc for numeric python/abstract scalars, else None"""
        if isinstance(v, Sc): return v
        if v is True: return Sc(dd.TRUE, 'b')
        if v is False: return Sc(dd.FALSE, 'b')
        if isinstance(v, int): return Sc(dd.c(v), 'i')
        if isinstance(v, (float, Fraction)): return Sc(dd.c(v), 'f')
        if isinstance(v, Arr) and len(v.pos) == 1 and len(v.dims) == 0:
            return Sc(self.elems(v)[0], self.adt(v))
        return None

    def as_int(self, v):
        """python int if v is a known integer constant, else None"""
        if isinstance(v, bool): return int(v)
        if isinstance(v, int): return v
        s = self.scalar(v)
        if s is None and isinstance(v, Arr) and len(v.pos) == 1 and all(isinstance(d, int) for d in v.dims):
            s = Sc(self.elems(v)[0], self.adt(v))
        if s is not None:
            nd = dd.tonum(dd.restrict(s.node, self.pc))
            if nd.var == dd.LEAF and nd.val.kind == 0 and nd.val.const is not None and nd.val.const.denominator == 1:
                return int(nd.val.const)
        return None

    def truth(self, v):
        """BDD node"""
        v = self.resolve(v)
        if isinstance(v, Choice):
            return dd.ite(v.c, self.truth(v.a), self.truth(v.b))
        if v is None or v is MISSING: return dd.FALSE
        s = self.scalar(v)
        if s is not None:
            return dd.truth(s.node) if s.dt != 'b' else s.node
        if isinstance(v, (str, bytes, tuple)): return dd.TRUE if len(v) else dd.FALSE
        if isinstance(v, ListRef):
            r = dd.FALSE
            for g, x in self.get(v.oid).items:
                r = dd.or_(r, dd.and_(g, x.axis.nonempty()) if isinstance(x, SymItem) else g)
            return r
        if isinstance(v, DictRef):
            r = dd.FALSE
            for x in self.get(v.oid).d.values(): r = dd.or_(r, self.present(x))
            return r
        if isinstance(v, Arr):
            if len(v.pos) == 1 and all(isinstance(d, int) for d in v.dims):
                return dd.truth(self.elems(v)[0])
            if any(d == 0 for d in v.dims): return dd.FALSE
            raise AbsRaise('ValueError', 'truth value of an array with more than one element is ambiguous')
        if isinstance(v, Top): return dd.bfresh('unknown truth (%s)' % v.why, imp=True)
        if isinstance(v, ObjRef):
            m = v.cls.lookup('__len__')
            if m is not MISSING: return self.truth(self.call(BoundM(m, v), [], {}))
            m = v.cls.lookup('__nonzero__') if v.cls.lookup('__nonzero__') is not MISSING else v.cls.lookup('__bool__')
            if m is not MISSING: return self.truth(self.call(BoundM(m, v), [], {}))
            return dd.TRUE
        return dd.TRUE

    def present(self, v):
        """condition under which v is not MISSING"""
        if v is MISSING: return dd.FALSE
        if isinstance(v, Choice): return dd.ite(v.c, self.present(v.a), self.present(v.b))
        return dd.TRUE

    def boolv(self, node):
        if node is dd.TRUE: return True
        if node is dd.FALSE: return False
        return Sc(node, 'b')

    # ---- modules ----------------------------------------------------------
    def load_module(self, dotted):
        """import package module by dotted name below self.root"""
        if dotted in self.modules: return self.modules[dotted]
        if dotted in self.ext: return self.ext[dotted]
        p = os.path.join(self.root, *dotted.split('.'))
        if os.path.isdir(p): path = os.path.join(p, '__init__.py'); ispkg = True
        else: path = p + '.py'; ispkg = False
        if not os.path.exists(path):
            return None
        m = ModuleVal(dotted); m.file = path; m.ispkg = ispkg
        self.modules[dotted] = m
        tree = parse_file(path)
        self.files.add(os.path.relpath(path, self.root))
        m.env = self.alloc({'__name__': dotted, '__file__': path, '__doc__': None})
        fr = Frame(None, m.env, m); fr.module_level = True
        loc = self.loc
        self.frames.append(fr)
        st_pc = self.st.pc
        try:
            for s in tree.body:
                if isinstance(s, ast.If) and self.is_main_guard(s.test): continue
                self.exec_stmt(s)
        finally:
            self.frames.pop(); self.loc = loc
        return m

    @staticmethod
    def is_main_guard(t):
        return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == '__name__'

    def module_attr(self, m, name):
        if m.env is not None:
            d = self.get(m.env)
            if name in d: return d[name]
            if getattr(m, 'partial', False): raise Undecided('%s.%s is not modelled' % (m.name, name))
            sub = self.load_module(m.name + '.' + name)
            if sub is not None: return sub
            return MISSING
        if name in m.d: return m.d[name]
        sub = self.ext.get(m.name + '.' + name)
        if sub is not None: return sub
        if getattr(m, 'partial', False): raise Undecided('%s.%s is not modelled' % (m.name, name))
        if getattr(m, 'opaque', False): return Top('%s.%s' % (m.name, name))
        if getattr(m, 'strict', False):
            def und(I, a, k): raise Undecided('%s.%s is not modelled' % (m.name, name))
            return Builtin('%s.%s' % (m.name, name), und)
        return MISSING

    def import_module(self, dotted, cur):
        """py2 (implicit relative) or absolute import"""
        base = cur.name if getattr(cur, 'ispkg', False) else cur.name.rpartition('.')[0]
        if base:
            m = self.load_module(base + '.' + dotted) if os.path.exists(os.path.join(self.root, *(base + '.' + dotted).split('.')) + '.py') or os.path.isdir(os.path.join(self.root, *(base + '.' + dotted).split('.'))) else None
            if m is not None: return m
        if dotted.split('.')[0] == self.pkg:
            m = self.load_module(dotted)
            if m is not None: return m
        if dotted in self.ext: return self.ext[dotted]
        m = ModuleVal(dotted); m.opaque = True
        return m

    # ---- statements -------------------------------------------------------
    def exec_block(self, body):
        for s in body:
            if not self.exec_stmt(s): return False
        return True

    def exec_stmt(self, s):
        self.steps += 1
        if self.steps > 400000: raise Undecided('too many steps')
        if not self.steps & 63 and time.time() > dd.DEADLINE[0]: raise Undecided('out of time')
        fr = self.frames[-1]
        self.loc = (os.path.relpath(fr.module.file, self.root) if fr.module.file else '?', s.lineno, fr.func.name if fr.func else '<module>')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None: raise Undecided('statement %s' % type(s).__name__)
        try:
            r = m(s)
        except DeadPath:
            return False
        return True if r is None else r

    def s_Expr(self, s): self.eval(s.value)
    def s_Pass(self, s): pass
    def s_Global(self, s): self.frames[-1].globals_.update(s.names)
    def s_Nonlocal(self, s): self.frames[-1].nonlocals.update(s.names)

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets: self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None: self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            r = self.inplace(cur, s.op, self.eval(s.value))
            self.assign(t, r)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr(o, t.attr)
            r = self.inplace(cur, s.op, self.eval(s.value))
            self.setattr(o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value); k = self.eval_index(t.slice)
            cur = self.getitem(o, k)
            r = self.inplace(cur, s.op, self.eval(s.value))
            self.setitem(o, k, r)
        else: raise Undecided('augassign')

    def inplace(self, cur, op, val):
        cur = self.resolve(cur)
        if isinstance(cur, Choice):
            return self.fork(cur.c, lambda: self.inplace(cur.a, op, val), lambda: self.inplace(cur.b, op, val))
        if isinstance(cur, Arr) and len(cur.dims) > 0:
            r = self.binop(op, cur, val)
            rv = self.resolve(r)
            if not isinstance(rv, Arr): raise Undecided('in-place array operation')
            if len(rv.dims) != len(cur.dims): raise AbsRaise('ValueError', 'in-place operation changes shape')
            if isinstance(op, (ast.Div, ast.Pow)) and self.adt(cur) in 'ib' and self.adt(rv) == 'f':
                raise AbsRaise('TypeError', 'in-place true division of an integer array')
            if self.adt(cur) in 'ib' and self.adt(rv) == 'f':
                raise AbsRaise('TypeError', 'in-place float operation on an integer array')
            self.np.set_all(self, cur, rv)
            return cur
        if isinstance(cur, ListRef) and isinstance(op, ast.Add):
            items = [(g, x) for g, x in self.get(cur.oid).items] + list(self.guarded_items(val))
            self.put(cur.oid, ListRec(items))
            return cur
        return self.binop(op, cur, val)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                d = dict(self.get(self.frames[-1].env)); d.pop(t.id, None); self.put(self.frames[-1].env, d)
            elif isinstance(t, ast.Attribute):
                self.over(self.eval(t.value), lambda o: self.delattr(o, t.attr))
            elif isinstance(t, ast.Subscript):
                k = self.eval_index(t.slice)
                def f(o):
                    if isinstance(o, DictRef):
                        d = dict(self.get(o.oid).d)
                        if self.dkey(k) not in d: raise AbsRaise('KeyError', repr(k))
                        del d[self.dkey(k)]; self.put(o.oid, DictRec(d, self.get(o.oid).kind))
                    elif isinstance(o, InstDict): self.delattr(o.obj, k)
                    elif isinstance(o, ListRef):
                        i = self.as_int(k); it = list(self.get(o.oid).items)
                        if isinstance(k, SliceV):
                            lo, hi, stp = self.slice_idx(k, len(it)); del it[lo:hi:stp]
                        elif i is None: raise Undecided('del list item')
                        else: del it[i]
                        self.put(o.oid, ListRec(it))
                    else: raise Undecided('del item')
                self.over(self.eval(t.value), f)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts: self.s_Delete(ast.Delete(targets=[e]))
            else: raise Undecided('del')

    def delattr(self, o, name):
        if not isinstance(o, ObjRef): raise Undecided('del attribute of %r' % (o,))
        d = dict(self.get(o.oid).d)
        cur = self.resolve(d.get(name, MISSING))
        pr = self.simplify(self.present(cur))
        if pr is dd.FALSE: raise AbsRaise('AttributeError', name)
        if pr is not dd.TRUE:
            s0 = self.st
            self.st = s0.fork(dd.and_(s0.pc, dd.not_(pr)))
            self.record_raise(AbsRaise('AttributeError', "deleting attribute '%s' that is not set" % name))
            self.st = s0.fork(dd.and_(s0.pc, pr))
            d = dict(self.get(o.oid).d)
        d[name] = MISSING
        self.put(o.oid, ObjRec(d))

    def s_If(self, s):
        c = self.truth(self.eval(s.test))
        return self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else None
        self.frames[-1].returns.append((self.st, v))
        return False

    def s_Raise(self, s):
        exc, msg = 'Exception', ''
        if s.exc is not None:
            v = s.exc
            if isinstance(v, ast.Call):
                exc = ast.unparse(v.func)
                for a in v.args:
                    try: self.eval(a)
                    except Undecided: pass
            else: exc = ast.unparse(v)
        raise AbsRaise(exc, 'raised explicitly')

    def s_Assert(self, s):
        c = self.simplify(self.truth(self.eval(s.test)))
        if c is dd.TRUE: return True
        if c is dd.FALSE: raise AbsRaise('AssertionError', '')
        return self.branch(c, lambda: True, self._raiser('AssertionError'))

    def _raiser(self, exc):
        def f(): raise AbsRaise(exc, 'assert')
        return f

    def s_Break(self, s):
        self.frames[-1].loops[-1][0].append(self.st); return False
    def s_Continue(self, s):
        self.frames[-1].loops[-1][1].append(self.st); return False

    def s_While(self, s):
        fr = self.frames[-1]
        brk, cnt = [], []
        fr.loops.append((brk, cnt))
        exits = []
        k = 0
        live = True
        try:
            while live:
                k += 1
                if k > 200: raise Undecided('while loop bound')
                c = self.simplify(self.truth(self.eval(s.test)))
                if c is dd.FALSE: exits.append(self.st); break
                if c is not dd.TRUE:
                    if k > 12: raise Undecided('while loop over a symbolic bound')
                    s0 = self.st
                    exits.append(s0.fork(dd.and_(s0.pc, dd.not_(c))))
                    self.st = s0.fork(dd.and_(s0.pc, c))
                try: live = self.exec_block(s.body)
                except AbsRaise as e: self.record_raise(e); live = False
                sts = ([self.st] if live else []) + cnt
                del cnt[:]
                live = bool(sts)
                if sts: self.st = self.join_all(sts)
        finally: fr.loops.pop()
        if exits:
            self.st = self.join_all(exits)
            ok = self.exec_block(s.orelse) if s.orelse else True
            sts = ([self.st] if ok else []) + brk
        else: sts = brk
        if not sts: return False
        self.st = self.join_all(sts)
        return True

    def join_all(self, sts):
        cur = sts[0]
        for x in sts[1:]: cur, _ = self.join(x, cur)
        return cur

    def s_For(self, s):
        it = self.iterate(self.eval(s.iter))
        fr = self.frames[-1]
        brk, cnt = [], []
        fr.loops.append((brk, cnt))
        alive = True
        try:
            for g, item in it:
                if isinstance(item, SymItem) or isinstance(item, GenericIter):
                    if g is not dd.TRUE:
                        item = GenericIter(item.axis.sub(g), item.val if isinstance(item, SymItem) else item.item)
                    elif isinstance(item, SymItem): item = GenericIter(item.axis, item.val)
                    if not self.generic_body(s, item): alive = False; break
                    if brk or cnt:
                        # continue inside a generic loop: rejoin
                        if brk: raise Undecided('break in a loop over rays')
                    continue
                def body(item=item):
                    self.assign(s.target, item)
                    return self.exec_block(s.body)
                if g is dd.TRUE:
                    try: live = body()
                    except AbsRaise as e:
                        self.record_raise(e); live = False
                    except DeadPath: live = False
                else:
                    live = self.branch(g, body, lambda: True)
                sts = ([self.st] if live else []) + cnt
                del cnt[:]
                if not sts: alive = False; break
                self.st = self.join_all(sts)
        finally: fr.loops.pop()
        sts = []
        if alive:
            ok = self.exec_block(s.orelse) if s.orelse else True
            if ok: sts.append(self.st)
        sts += brk
        if not sts: return False
        self.st = self.join_all(sts)
        return True

    def generic_body(self, s, item):
        """execute a loop body once for a generic element of item.axis"""
        ax = item.axis
        # loop-carried variables are unknown
        stored, carried = loop_vars(s)
        for name in carried:
            try: cur = self.lookup(name)
            except AbsRaise: continue
            cur = self.resolve(cur)
            if isinstance(cur, (Arr, ListRef, DictRef, ObjRef)): continue
            self.setvar(name, self.havoc(cur, name))
        s0 = self.st
        fr = self.frames[-1]
        self.st = s0.fork(dd.and_(s0.pc, ax.care))
        self.generic.append(ax)
        before = dict(s0.store)
        try:
            self.assign(s.target, item.item)
            live = self.exec_block(s.body)
            cnt = fr.loops[-1][1]
            sts = ([self.st] if live else []) + cnt
            del cnt[:]
        finally: self.generic.pop()
        if not sts:
            self.st = s0; return False
        self.st = self.join_all(sts)
        self.close_generic(before, ax)
        self.st.pc = s0.pc
        for name in stored:
            try: self.setvar(name, self.havoc(self.lookup(name), name))
            except AbsRaise: pass
        return True

    def close_generic(self, before, ax):
        """lists appended inside the body become one element per ray"""
        for oid, rec in list(self.st.store.items()):
            old = before.get(oid)
            if old is None or old is rec: continue
            if isinstance(rec, ListRec):
                k = 0
                items = []
                for g, v in rec.items:
                    if k < len(old.items) and v is old.items[k][1]: items.append((g, v)); k += 1
                    elif isinstance(v, SymItem): items.append((g, v))
                    else: items.append((dd.TRUE, SymItem(ax.sub(dd.restrict(g, ax.care)), v)))
                if len(items) - k > 1: raise Undecided('several appends per ray')
                self.st.store[oid] = ListRec(items)
            elif isinstance(rec, ArrRec) and isinstance(old, ArrRec):
                pass

    def havoc(self, v, name):
        v = self.resolve(v)
        if isinstance(v, Choice): return Top('loop variable ' + name)
        s = self.scalar(v)
        if s is not None:
            if s.dt == 'b': return Sc(dd.bfresh('loop ' + name, imp=True), 'b')
            return Sc(dd.leaf(n.fresh('loop ' + name, imp=True)), s.dt)
        if isinstance(v, Arr) and False: return v
        return v

    def s_Try(self, s):
        mark = len(self.raises)
        s0 = self.st.fork(self.st.pc)
        live = False
        try:
            live = self.exec_block(s.body)
            if live and s.orelse: live = self.exec_block(s.orelse)
        except AbsRaise as e:
            self.record_raise(e)
        sts = [self.st] if live else []
        caught = self.raises[mark:]
        del self.raises[mark:]
        for (st, e, loc, tr) in caught:
            h = None
            for hd in s.handlers:
                names = []
                if hd.type is None: h = hd; break
                for t in (hd.type.elts if isinstance(hd.type, ast.Tuple) else [hd.type]): names.append(ast.unparse(t).split('.')[-1])
                if e.exc.split('.')[-1] in names or 'Exception' in names or 'BaseException' in names or \
                   (e.exc in ('IndexError', 'KeyError') and 'LookupError' in names) or (e.exc == 'FloatingPointError' and 'ArithmeticError' in names):
                    h = hd; break
            if h is None: self.raises.append((st, e, loc, tr)); continue
            self.st = st
            if h.name: self.setvar(h.name, Top('exception'))
            if self.exec_block(h.body): sts.append(self.st)
        if s.finalbody:
            # returns/breaks inside try with finally: run finally on the live state only
            if sts:
                self.st = self.join_all(sts)
                return self.exec_block(s.finalbody)
            fr = self.frames[-1]
            if fr.returns:
                st, v = fr.returns.pop()
                self.st = st
                if self.exec_block(s.finalbody): fr.returns.append((self.st, v))
            return False
        if not sts: return False
        self.st = self.join_all(sts)
        return True
    s_TryStar = s_Try

    def s_With(self, s):
        for it in s.items:
            v = self.eval(it.context_expr)
            if isinstance(v, Top): raise Undecided('with %s' % v.why)
            if it.optional_vars is not None: self.assign(it.optional_vars, v)
        return self.exec_block(s.body)

    def s_FunctionDef(self, s):
        f = self.make_func(s.name, s.args, s.body, s)
        for dec in reversed(s.decorator_list):
            nm = ast.unparse(dec)
            if nm == 'staticmethod': f = StaticM(f)
            elif nm == 'classmethod': f = ClassM(f)
            elif nm == 'property': f = PropertyM(f)
            elif nm.endswith('.setter'):
                p = self.lookup(nm.split('.')[0])
                f = PropertyM(p.f, f)
            else:
                f = self.call(self.eval(dec), [f], {})
        self.setvar(s.name, f)

    def make_func(self, name, args, body, node):
        defaults = [self.eval(d) for d in args.defaults]
        kwd = {a.arg: self.eval(d) for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None}
        fr = self.frames[-1]
        env = fr.env
        return FuncVal(name, args, body, None if getattr(fr, 'module_level', False) else (fr.closure_env if getattr(fr, 'class_level', False) else fr), fr.module, defaults, kwd, node)

    def s_ClassDef(self, s):
        bases = [self.eval(b) for b in s.bases]
        cls = ClassVal(s.name, [b for b in bases if isinstance(b, ClassVal)], self.frames[-1].module)
        cls.opaque_bases = [b for b in bases if not isinstance(b, ClassVal) and not (isinstance(b, (TypeV, Builtin)) and b.name == 'object')]
        fr = Frame(self.frames[-1].func, self.alloc({}), self.frames[-1].module)
        outer = self.frames[-1]
        if getattr(outer, 'module_level', False): fr.module_level = True
        fr.class_level = True; fr.closure_env = None if getattr(outer, 'module_level', False) else outer
        fr.outer = outer
        self.frames.append(fr)
        try: self.exec_block(s.body)
        finally: self.frames.pop()
        cls.d = dict(self.get(fr.env))
        for k, v in cls.d.items():
            f = v.f if isinstance(v, (StaticM, ClassM, PropertyM)) else v
            if isinstance(f, FuncVal):
                f.cls = cls
                if fr.closure_env is None: f.env = None
        self.setvar(s.name, cls)

    def s_Import(self, s):
        for a in s.names:
            m = self.import_module(a.name, self.frames[-1].module)
            if a.asname: self.setvar(a.asname, m)
            else:
                top = a.name.split('.')[0]
                self.setvar(top, self.import_module(top, self.frames[-1].module))

    def s_ImportFrom(self, s):
        cur = self.frames[-1].module
        if s.level:
            parts = cur.name.split('.')
            if not getattr(cur, 'ispkg', False): parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            m = self.load_module('.'.join(parts + ([s.module] if s.module else [])))
            if m is None: raise Undecided('import %s' % s.module)
        else:
            if s.module == '__future__': return
            m = self.import_module(s.module, cur)
        for a in s.names:
            if a.name == '*':
                if m.env is not None:
                    for k, v in self.get(m.env).items():
                        if not k.startswith('_'): self.setvar(k, v)
                else:
                    for k, v in m.d.items(): self.setvar(k, v)
                continue
            v = self.module_attr(m, a.name)
            if v is MISSING:
                if getattr(m, 'opaque', False) or m.env is None: v = Top('%s.%s' % (m.name, a.name))
                else: raise AbsRaise('ImportError', '%s from %s' % (a.name, m.name))
            self.setvar(a.asname or a.name, v)

    # ---- names ------------------------------------------------------------
    def setvar(self, name, v):
        fr = self.frames[-1]
        if name in fr.globals_: env = fr.module.env
        elif name in fr.nonlocals:
            f = fr.func.env
            while f is not None and name not in self.get(f.env): f = f.func.env if f.func else None
            env = f.env
        else: env = fr.env
        d = dict(self.get(env)); d[name] = v; self.put(env, d)

    def lookup(self, name):
        fr = self.frames[-1]
        v = MISSING
        if name not in fr.globals_:
            d = self.get(fr.env)
            if name in d: v = d[name]
            else:
                if getattr(fr, 'class_level', False): f = fr.closure_env
                else: f = fr.func.env if fr.func else None
                if getattr(fr, 'comp_parent', None) is not None: f = fr.comp_parent
                while f is not None:
                    d = self.get(f.env) if f.env in self.st.store else {}
                    if name in d and not getattr(f, 'class_level', False): v = d[name]; break
                    if getattr(f, 'comp_parent', None) is not None: f = f.comp_parent
                    else: f = f.func.env if f.func else None
        if v is MISSING:
            d = self.get(fr.module.env)
            if name in d: v = d[name]
        if v is MISSING and name in self.builtins: v = self.builtins[name]
        v = self.resolve(v)
        if v is MISSING: raise AbsRaise('NameError', name)
        pr = self.present(v)
        if pr is not dd.TRUE: v = self.need(v, 'NameError', name)
        return v

    def need(self, v, exc, what):
        """drop MISSING alternatives, recording the error"""
        v = self.resolve(v)
        if not isinstance(v, Choice): 
            if v is MISSING: raise AbsRaise(exc, what)
            return v
        pr = self.simplify(self.present(v))
        if pr is dd.FALSE: raise AbsRaise(exc, what)
        if pr is not dd.TRUE:
            s0 = self.st
            self.st = s0.fork(dd.and_(s0.pc, dd.not_(pr)))
            self.record_raise(AbsRaise(exc, what))
            s0.pc = dd.and_(s0.pc, pr)
            self.st = s0
        return self.strip_missing(v)

    def strip_missing(self, v):
        if isinstance(v, Choice):
            a, b = self.strip_missing(v.a), self.strip_missing(v.b)
            if a is MISSING: return b
            if b is MISSING: return a
            return self.merge(v.c, a, b)
        return v

    def assign(self, t, v):
        if isinstance(t, ast.Name): self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None))
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value); k = self.eval_index(t.slice)
            self.setitem(o, k, v)
        else: raise Undecided('assignment target')

    def unpack(self, v, cnt, star=None):
        v = self.resolve(v)
        if isinstance(v, Choice):
            a = None
            def f(x): return tuple(self.unpack(x, cnt, star))
            r = self.fork(v.c, lambda: f(v.a), lambda: f(v.b))
            r = self.resolve(r)
            if isinstance(r, tuple): return list(r)
            raise Undecided('unpacking alternatives')
        items = self.iterate(v)
        if any(g is not dd.TRUE or isinstance(x, (SymItem, GenericIter)) for g, x in items):
            if cnt == 1 and len(items) == 1 and isinstance(items[0][1], GenericIter): raise Undecided('unpack axis')
            raise AbsRaise('ValueError', 'unpacking along the ray axis') if any(isinstance(x, GenericIter) for g, x in items) else Undecided('unpacking guarded list')
        vals = [x for g, x in items]
        if star is not None:
            k = len(vals) - (cnt - 1)
            return vals[:star] + [self.new_list(vals[star:star + k])] + vals[star + k:]
        if len(vals) != cnt: raise AbsRaise('ValueError', 'unpack %d values into %d' % (len(vals), cnt))
        return vals

    def guarded_items(self, v): return self.iterate(v)

    def iterate(self, v):
        """list of (guard, value)"""
        v = self.resolve(v)
        if isinstance(v, Choice):
            a, b = self.iterate(v.a), self.iterate(v.b)
            k = 0
            out = []
            while k < len(a) and k < len(b) and a[k][0] is b[k][0] and not isinstance(a[k][1], (SymItem, GenericIter)) and not isinstance(b[k][1], (SymItem, GenericIter)):
                out.append((a[k][0], self.merge(v.c, a[k][1], b[k][1]))); k += 1
            for g, x in a[k:]: out.append((dd.and_(g, v.c), x))
            for g, x in b[k:]: out.append((dd.and_(g, dd.not_(v.c)), x))
            return out
        if isinstance(v, tuple): return [(dd.TRUE, x) for x in v]
        if isinstance(v, str): return [(dd.TRUE, x) for x in v]
        if isinstance(v, ListRef): return list(self.get(v.oid).items)
        if isinstance(v, DictRef):
            d = self.get(v.oid)
            out = []
            for k, x in d.d.items():
                p = self.present(self.resolve(x))
                if p is not dd.FALSE: out.append((p, self.unkey(k)))
            return out
        if isinstance(v, RangeV):
            a, b, s = self.as_int(v.a), self.as_int(v.b), self.as_int(v.s)
            if a is not None and b is not None and s is not None: return [(dd.TRUE, i) for i in range(a, b, s)]
            bn = self.scalar(v.b)
            if s == 1 and bn is not None:
                ax = self.np.axis_of_len(self, bn.node)
                if ax is not None and a == 0:
                    return [(dd.TRUE, GenericIter(ax, Sc(ax.pos(), 'i')))]
            raise Undecided('range over symbolic bounds')
        if isinstance(v, GenericIter): return [(dd.TRUE, v)]
        if isinstance(v, Arr):
            if not v.dims: raise AbsRaise('TypeError', 'iteration over a 0-d array')
            if isinstance(v.dims[0], int):
                return [(dd.TRUE, self.np.getitem(self, v, (i,))) for i in range(v.dims[0])]
            ax = v.dims[0]
            return [(dd.TRUE, GenericIter(ax, self.np.getitem(self, v, (Sc(ax.pos(), 'i'),))))]
        if isinstance(v, ObjRef):
            m = v.cls.lookup('__iter__')
            if m is not MISSING: return self.iterate(self.call(BoundM(m, v), [], {}))
            m = v.cls.lookup('__getitem__')
            if m is not MISSING and v.cls.lookup('__len__') is not MISSING:
                k = self.as_int(self.call(BoundM(v.cls.lookup('__len__'), v), [], {}))
                if k is not None: return [(dd.TRUE, self.call(BoundM(m, v), [i], {})) for i in range(k)]
        if isinstance(v, Top): raise Undecided('iteration over %s' % v.why)
        if v is None: raise AbsRaise('TypeError', 'None is not iterable')
        if isinstance(v, HostObj) and hasattr(v, 'iterate'): return v.iterate(self)
        raise Undecided('iteration over %r' % (v,))

    # ---- attributes -------------------------------------------------------
    def getattr(self, o, name, default=_nonloc):
        o = self.resolve(o)
        if isinstance(o, Choice):
            return self.fork(o.c, lambda: self.getattr(o.a, name, default), lambda: self.getattr(o.b, name, default))
        v = self.rawattr(o, name)
        v = self.resolve(v)
        if v is MISSING or (isinstance(v, Choice) and self.present(v) is not dd.TRUE):
            if default is not _nonloc:
                return self.map_missing(v, default)
            return self.need(v, 'AttributeError', "%s has no attribute '%s'" % (self.typename(o), name))
        return v

    def map_missing(self, v, d):
        if v is MISSING: return d
        if isinstance(v, Choice): return self.merge(v.c, self.map_missing(v.a, d), self.map_missing(v.b, d))
        return v

    def typename(self, o):
        if isinstance(o, ObjRef): return o.cls.name
        if isinstance(o, ModuleVal): return 'module ' + o.name
        return type(o).__name__

    def rawattr(self, o, name):
        if isinstance(o, ObjRef):
            if name == '__dict__': return InstDict(o)
            if name == '__class__': return o.cls
            v = self.get(o.oid).d.get(name, MISSING)
            if v is MISSING: return self.class_attr(o.cls, name, o)
            if isinstance(v, Choice) and self.present(v) is not dd.TRUE:
                k = self.class_attr(o.cls, name, o)
                if k is not MISSING: return self.map_missing(v, k)
            return v
        if isinstance(o, ClassVal):
            if name == '__name__': return o.name
            if name == '__mro__': return tuple(o.mro())
            v = o.lookup(name)
            if isinstance(v, StaticM): return v.f
            if isinstance(v, ClassM): return BoundM(v.f, o)
            if v is MISSING and name == '__init__': return Builtin('object.__init__', lambda I, a, k: None)
            return v
        if isinstance(o, ModuleVal): return self.module_attr(o, name)
        if isinstance(o, SuperV):
            mro = o.obj.cls.mro() if isinstance(o.obj, ObjRef) else o.obj.mro()
            i = mro.index(o.cls)
            for k in mro[i + 1:]:
                if name in k.d: return self.bind(k.d[name], o.obj)
            if name == '__init__': return Builtin('object.__init__', lambda I, a, k: None)
            return MISSING
        if isinstance(o, HostObj): return o.attr(self, name)
        if isinstance(o, FuncVal):
            if name in ('__name__', 'func_name'): return o.name
            if name == '__doc__': return ''
            return MISSING
        if isinstance(o, BoundM):
            if name in ('__func__', 'im_func'): return o.f
            if name in ('__self__', 'im_self'): return o.self_
            if name == '__name__': return o.f.name
            return MISSING
        if isinstance(o, Top): return Top(o.why + '.' + name)
        if isinstance(o, Builtin):
            return getattr(o, 'attrs', {}).get(name, MISSING)
        return self.np.method(self, o, name)

    def class_attr(self, cls, name, obj):
        v = cls.lookup(name)
        if v is MISSING:
            if any(getattr(k, 'opaque_bases', None) for k in cls.mro()): return Top('%s.%s' % (cls.name, name))
            if not name.startswith('_') and any(getattr(k, 'partial', None) for k in cls.mro()): raise Undecided('%s.%s is not modelled' % (cls.name, name))
            if name == '__init__': return Builtin('object.__init__', lambda I, a, k: None)
            return MISSING
        return self.bind(v, obj)

    def bind(self, v, obj):
        if isinstance(v, FuncVal): return BoundM(v, obj) if not isinstance(obj, ClassVal) else v
        if isinstance(v, StaticM): return v.f
        if isinstance(v, ClassM): return BoundM(v.f, obj.cls if isinstance(obj, ObjRef) else obj)
        if isinstance(v, PropertyM): return self.call(v.f, [obj], {})
        return v

    def setattr(self, o, name, v):
        o = self.resolve(o)
        if isinstance(o, Choice):
            def f(x): self.setattr(x, name, v)
            self.fork(o.c, lambda: f(o.a), lambda: f(o.b)); return
        if isinstance(o, ObjRef):
            p = o.cls.lookup(name)
            if isinstance(p, PropertyM):
                if p.setter is None: raise AbsRaise('AttributeError', 'cannot set ' + name)
                self.call(p.setter, [o, v], {}); return
            d = dict(self.get(o.oid).d); d[name] = v; self.put(o.oid, ObjRec(d))
            return
        if isinstance(o, ClassVal):
            o.d[name] = v; return
        if isinstance(o, HostObj): return o.setattr(self, name, v)
        if isinstance(o, Arr) and name == 'shape':
            raise Undecided('shape assignment')
        if isinstance(o, Top): return
        raise Undecided('setting attribute %s on %r' % (name, o))

    # ---- items ------------------------------------------------------------
    def dkey(self, k):
        k = self.resolve(k)
        if isinstance(k, Sc):
            i = self.as_int(k)
            if i is None: raise Undecided('symbolic dict key')
            return i
        if isinstance(k, (str, int, bool, type(None), tuple, float)): return k
        if isinstance(k, (Ref, ClassVal, HostObj)): return k
        raise Undecided('dict key %r' % (k,))
    def unkey(self, k): return k

    def slice_idx(self, s, ln):
        def g(x, d):
            if x is None: return d
            i = self.as_int(x)
            if i is None: raise Undecided('symbolic slice of a list')
            return i
        st = g(s.s, None)
        return slice(g(s.a, None), g(s.b, None), st).indices(ln)

    def getitem(self, o, k):
        o = self.resolve(o)
        if isinstance(o, Choice):
            return self.fork(o.c, lambda: self.getitem(o.a, k), lambda: self.getitem(o.b, k))
        k = self.resolve(k)
        if isinstance(k, Choice):
            return self.fork(k.c, lambda: self.getitem(o, k.a), lambda: self.getitem(o, k.b))
        if isinstance(k, tuple) and any(isinstance(self.resolve(x), Choice) for x in k) and isinstance(o, Arr):
            i = next(i for i, x in enumerate(k) if isinstance(self.resolve(x), Choice))
            x = self.resolve(k[i])
            return self.fork(x.c, lambda: self.getitem(o, k[:i] + (x.a,) + k[i + 1:]), lambda: self.getitem(o, k[:i] + (x.b,) + k[i + 1:]))
        if isinstance(o, Arr): return self.np.getitem(self, o, k if isinstance(k, tuple) else (k,))
        if isinstance(o, (tuple, str)):
            if isinstance(k, SliceV):
                a, b, s = self.slice_idx(k, len(o)); return o[a:b:s] if s > 0 or b >= 0 else o[a::s]
            i = self.as_int(k)
            if i is None: return self.pick([(dd.TRUE, x) for x in o], k)
            if not -len(o) <= i < len(o): raise AbsRaise('IndexError', 'tuple index out of range')
            return o[i]
        if isinstance(o, ListRef):
            items = self.get(o.oid).items
            if isinstance(k, SliceV):
                if all(g is dd.TRUE and not isinstance(x, SymItem) for g, x in items):
                    a, b, s = self.slice_idx(k, len(items))
                    idx = range(a, b, s)
                    return ListRef(self.alloc(ListRec([items[i] for i in idx])))
                if k.s in (None, 1) and k.a is None and k.b is None: return ListRef(self.alloc(ListRec(items)))
                if self.as_int(k.a) == 1 and k.b is None and k.s is None and items and items[0][0] is dd.TRUE:
                    return ListRef(self.alloc(ListRec(items[1:])))
                if k.a is None and k.b is None and self.as_int(k.s) == -1 and not any(isinstance(x, SymItem) for g, x in items):
                    return ListRef(self.alloc(ListRec(items[::-1])))
                if (k.s is None or self.as_int(k.s) == 1) and not any(isinstance(x, SymItem) for g, x in items):
                    def ok(v): return v is None or self.as_int(v) is not None
                    if ok(k.a) and ok(k.b):
                        lo = None if k.a is None else self.as_int(k.a); hi = None if k.b is None else self.as_int(k.b)
                        before, out = self.counts(items), []
                        after = self.counts(items[::-1])[::-1]
                        for q, (g, x) in enumerate(items):
                            # the item's place is the number of items present before it, or counted from the end after it
                            if lo is not None and lo != 0: g = dd.and_(g, self.least(before[q], lo) if lo > 0 else dd.not_(self.least(after[q], -lo)))
                            if hi is not None: g = dd.and_(g, dd.not_(self.least(before[q], hi)) if hi >= 0 else self.least(after[q], -hi))
                            if g is not dd.FALSE: out.append((g, x))
                        return ListRef(self.alloc(ListRec(out)))
                raise Undecided('slice of a conditional list')
            if any(isinstance(x, SymItem) for g, x in items):
                s = self.scalar(k)
                if len(items) == 1 and s is not None:
                    nd = s.node
                    si = items[0][1]
                    if nd.var == dd.LEAF and n.atoms.get(nd.val.fp, (None,))[0] == 'pos' and axis_equiv(n.atoms[nd.val.fp][1], si.axis, self.pc): return si.val
                raise Undecided('indexing a per-ray list')
            i = self.as_int(k)
            if i is None: return self.pick(items, k)
            return self.list_at(items, i)
        if isinstance(o, DictRef):
            d = self.get(o.oid).d
            key = self.dkey(k)
            v = self.resolve(d.get(key, MISSING))
            if v is MISSING: raise AbsRaise('KeyError', repr(key))
            if isinstance(v, Choice) and self.present(v) is not dd.TRUE: return self.need(v, 'KeyError', repr(key))
            return v
        if isinstance(o, InstDict):
            v = self.resolve(self.get(o.obj.oid).d.get(k, MISSING))
            return self.need(v, 'KeyError', str(k)) if v is MISSING or isinstance(v, Choice) else v
        if isinstance(o, ObjRef):
            m = o.cls.lookup('__getitem__')
            if m is not MISSING: return self.call(BoundM(m, o), [k], {})
            raise AbsRaise('TypeError', '%s is not subscriptable' % o.cls.name)
        if isinstance(o, HostObj) and hasattr(o, 'getitem'): return o.getitem(self, k)
        if isinstance(o, Top): return Top(o.why + '[]')
        if isinstance(o, RangeV):
            it = self.iterate(o)
            i = self.as_int(k)
            if i is not None and all(g is dd.TRUE and not isinstance(x, GenericIter) for g, x in it): return it[i][1]
        if o is None: raise AbsRaise('TypeError', 'None is not subscriptable')
        if isinstance(o, Sc): raise AbsRaise('IndexError', 'invalid index to scalar variable')
        raise Undecided('subscript of %r' % (o,))

    def pick(self, items, k):
        s = self.scalar(k)
        if s is None: raise AbsRaise('TypeError', 'list index')
        if not items or any(g is not dd.TRUE for g, x in items):
            # as many cases as whole numbers the index can be
            nd = dd.restrict(dd.tonum(s.node), self.pc)
            lv = list(dd.leaves(nd))
            if not items or len(lv) > 6 or any(dd.asnum(l.val).kind or dd.asnum(l.val).const is None or dd.asnum(l.val).const.denominator != 1 for l in lv): raise Undecided('symbolic list index')
            def go(todo):
                v = dd.asnum(todo[0].val)
                if len(todo) == 1: return self.list_at(items, int(v.const))
                return self.fork(dd.eq(nd, dd.leaf(v)), lambda: self.list_at(items, int(v.const)), lambda: go(todo[1:]))
            return go(lv)
        if s.node.imp: return Top('item at unknown index')
        hit = dd.FALSE
        for i in range(len(items)): hit = dd.or_(hit, dd.eq(dd.tonum(s.node), dd.c(i)))
        if self.simplify(hit) is not dd.TRUE: raise Undecided('symbolic list index')
        r = items[-1][1]
        for i in range(len(items) - 2, -1, -1): r = self.merge(dd.eq(dd.tonum(s.node), dd.c(i)), items[i][1], r)
        return r

    def counts(self, items):
        """for each item, the conditions that 0, 1, 2, ... items are present before it"""
        cur, out = [dd.TRUE], []
        for g, x in items:
            out.append(cur)
            nxt = [dd.and_(c, dd.not_(g)) for c in cur] + [dd.FALSE]
            for i, c in enumerate(cur): nxt[i + 1] = dd.or_(nxt[i + 1], dd.and_(c, g))
            cur = nxt
        return out
    def least(self, cnt, k):
        r = dd.FALSE
        for c in cnt[k:]: r = dd.or_(r, c)
        return r
    def list_at(self, items, i):
        """i-th present element of a guarded list"""
        items = [(dd.restrict(g, self.pc), v) for g, v in items]
        items = [(g, v) for g, v in items if g is not dd.FALSE]
        if all(g is dd.TRUE for g, v in items):
            if not -len(items) <= i < len(items): raise AbsRaise('IndexError', 'list index out of range')
            return items[i][1]
        if i < 0:
            seq, want = list(reversed(items)), -i - 1
        else: seq, want = items, i
        def rec(j, want):
            if j == len(seq): return MISSING
            g, v = seq[j]
            if want == 0: return self.merge(g, v, rec(j + 1, 0)) if g is not dd.TRUE else v
            return self.merge(g, rec(j + 1, want - 1), rec(j + 1, want))
        return self.need(rec(0, want), 'IndexError', 'list index out of range')

    def setitem(self, o, k, v):
        o = self.resolve(o); k = self.resolve(k)
        if isinstance(o, Choice):
            def f(x): self.setitem(x, k, v)
            self.fork(o.c, lambda: f(o.a), lambda: f(o.b)); return
        if isinstance(k, Choice):
            def f(x): self.setitem(o, x, v)
            self.fork(k.c, lambda: f(k.a), lambda: f(k.b)); return
        if isinstance(o, Arr):
            if isinstance(k, tuple) and any(isinstance(self.resolve(x), Choice) for x in k):
                i = next(i for i, x in enumerate(k) if isinstance(self.resolve(x), Choice))
                x = self.resolve(k[i])
                def f(y): self.setitem(o, k[:i] + (y,) + k[i + 1:], v)
                self.fork(x.c, lambda: f(x.a), lambda: f(x.b)); return
            rv = self.resolve(v)
            if isinstance(rv, Choice):
                def f(y): self.setitem(o, k, y)
                self.fork(rv.c, lambda: f(rv.a), lambda: f(rv.b)); return
            return self.np.setitem(self, o, k if isinstance(k, tuple) else (k,), rv)
        if isinstance(o, ListRef):
            items = list(self.get(o.oid).items)
            if isinstance(k, SliceV):
                if all(g is dd.TRUE for g, x in items):
                    a, b, s = self.slice_idx(k, len(items))
                    if s == 1:
                        items[a:b] = self.iterate(v); self.put(o.oid, ListRec(items)); return
                raise Undecided('list slice assignment')
            i = self.as_int(k)
            if i is None or any(g is not dd.TRUE for g, x in items): raise Undecided('list item assignment')
            if not -len(items) <= i < len(items): raise AbsRaise('IndexError', 'list assignment')
            items[i] = (dd.TRUE, v); self.put(o.oid, ListRec(items)); return
        if isinstance(o, DictRef):
            r = self.get(o.oid); d = dict(r.d); d[self.dkey(k)] = v; self.put(o.oid, DictRec(d, r.kind)); return
        if isinstance(o, InstDict):
            d = dict(self.get(o.obj.oid).d); d[k] = v; self.put(o.obj.oid, ObjRec(d)); return
        if isinstance(o, ObjRef):
            m = o.cls.lookup('__setitem__')
            if m is not MISSING: self.call(BoundM(m, o), [k, v], {}); return
        if isinstance(o, HostObj) and hasattr(o, 'setitem'): return o.setitem(self, k, v)
        if isinstance(o, Top): return
        if isinstance(o, tuple): raise AbsRaise('TypeError', 'tuple does not support item assignment')
        raise Undecided('item assignment on %r' % (o,))

    # ---- expressions ------------------------------------------------------
    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Undecided('expression %s' % type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float): return Sc(dd.c(v), 'f')
        if v is Ellipsis: return Ellipsis
        if isinstance(v, complex): raise Undecided('complex constant')
        return v
    def e_Name(self, e): return self.lookup(e.id)
    def e_Tuple(self, e): return tuple(self.seq(e.elts))
    def e_List(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred): out += self.iterate(self.eval(x.value))
            else: out.append((dd.TRUE, self.eval(x)))
        return ListRef(self.alloc(ListRec(out)))
    def seq(self, elts, maybe=False):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                for g, v in self.iterate(self.eval(x.value)):
                    if isinstance(v, (SymItem, GenericIter)): raise Undecided('starred per-ray list')
                    g = dd.restrict(g, self.pc)
                    if g is dd.FALSE: continue
                    if g is not dd.TRUE:
                        if not maybe: raise Undecided('starred conditional list')
                        v = Maybe(g, v)
                    out.append(v)
            else: out.append(self.eval(x))
        return out
    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                for kk, vv in self.get(self.resolve(self.eval(v)).oid).d.items(): d[kk] = vv
            else: d[self.dkey(self.eval(k))] = self.eval(v)
        return self.new_dict(d)
    def e_Set(self, e):
        return self.new_dict({self.dkey(x): True for x in self.seq(e.elts)}, 'set')
    def e_JoinedStr(self, e):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant): out.append(v.value); continue
            x = self.strval(self.eval(v.value))
            if x is _nonloc or v.format_spec is not None or v.conversion != -1: return '<fstring>'
            out.append(str(x))
        return ''.join(out)
    def strval(self, x):
        """the Python string or integer x is known to be, or _nonloc"""
        x = self.resolve(x)
        if type(x) in (str, int): return x
        if isinstance(x, Sc) and x.dt == 'i' and x.node.var == dd.LEAF:
            v = dd.asnum(x.node.val)
            if v.const is not None and not v.imp and v.const.denominator == 1: return int(v.const)
        return _nonloc
    def e_FormattedValue(self, e): return '<fmt>'
    def e_Starred(self, e): raise Undecided('starred')
    def e_Lambda(self, e):
        return self.make_func('<lambda>', e.args, [ast.copy_location(ast.Return(value=e.body), e.body)], e)
    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        return self.fork(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))
    def e_NamedExpr(self, e):
        v = self.eval(e.value); self.assign(e.target, v); return v
    def e_Attribute(self, e): return self.getattr(self.eval(e.value), e.attr)
    def e_Subscript(self, e):
        o = self.eval(e.value)
        return self.getitem(o, self.eval_index(e.slice))
    def eval_index(self, s):
        if isinstance(s, ast.Tuple): return tuple(self.eval_index(x) for x in s.elts)
        if isinstance(s, ast.Slice): return self.e_Slice(s)
        if isinstance(s, getattr(ast, 'Index', ())): return self.eval_index(s.value)
        if isinstance(s, getattr(ast, 'ExtSlice', ())): return tuple(self.eval_index(x) for x in s.dims)
        return self.eval(s)
    def e_Slice(self, s):
        return SliceV(*[self.eval(x) if x is not None else None for x in (s.lower, s.upper, s.step)])

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        def rec(i):
            v = self.eval(e.values[i])
            if i == len(e.values) - 1: return v
            c = self.truth(v)
            if isand: return self.fork(c, lambda: rec(i + 1), lambda: v)
            return self.fork(c, lambda: v, lambda: rec(i + 1))
        return rec(0)

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not): return self.boolv(dd.not_(self.truth(v)))
        return self.unary(e.op, v)

    def unary(self, op, v):
        v = self.resolve(v)
        if isinstance(v, Choice) :
            return self.fork(v.c, lambda: self.unary(op, v.a), lambda: self.unary(op, v.b))
        if isinstance(v, (int, bool)) and not isinstance(op, ast.Invert):
            return -v if isinstance(op, ast.USub) else +v
        return self.np.unary(self, op, v)

    def e_BinOp(self, e):
        return self.binop(e.op, self.eval(e.left), self.eval(e.right))

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        for x in (a, b):
            if isinstance(x, Choice):
                r = self.np.try_merge(self, x)
                if r is not None:
                    if x is a: return self.binop(op, r, b)
                    return self.binop(op, a, r)
        if isinstance(a, Choice): return self.fork(a.c, lambda: self.binop(op, a.a, b), lambda: self.binop(op, a.b, b))
        if isinstance(b, Choice): return self.fork(b.c, lambda: self.binop(op, a, b.a), lambda: self.binop(op, a, b.b))
        if type(a) in (int, bool) and type(b) in (int, bool):
            if isinstance(op, ast.Add): return a + b
            if isinstance(op, ast.Sub): return a - b
            if isinstance(op, ast.Mult): return a * b
            if isinstance(op, ast.FloorDiv) and b: return a // b
            if isinstance(op, ast.Mod) and b: return a % b
            if isinstance(op, ast.BitAnd): return a & b
            if isinstance(op, ast.BitOr): return a | b
            if isinstance(op, ast.BitXor): return a ^ b
            if isinstance(op, ast.Pow) and b >= 0: return a ** b
        if isinstance(op, ast.Mod) and isinstance(a, str):
            x = [self.strval(v) for v in (b if isinstance(b, tuple) else (b,))]
            if not any(v is _nonloc for v in x):
                try: return a % tuple(x)
                except (TypeError, ValueError): pass
            return '<formatted>'
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(op, ast.Add):
                if isinstance(a, str) and isinstance(b, str): return a + b
                if isinstance(a, Top) or isinstance(b, Top): return Top('string')
                raise AbsRaise('TypeError', 'string concatenation')
            if isinstance(op, ast.Mult) and isinstance(b, int): return a * b
        if isinstance(op, ast.Add):
            if isinstance(a, tuple) and isinstance(b, tuple): return a + b
            if isinstance(a, ListRef) and isinstance(b, ListRef):
                return ListRef(self.alloc(ListRec(tuple(self.get(a.oid).items) + tuple(self.get(b.oid).items))))
            if isinstance(a, ListRef) and isinstance(b, tuple) or isinstance(a, tuple) and isinstance(b, ListRef):
                raise AbsRaise('TypeError', 'list + tuple')
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                k = self.as_int(y) if not isinstance(y, Arr) else None
                if isinstance(x, tuple) and k is not None: return x * k
                if isinstance(x, ListRef) and k is not None: return ListRef(self.alloc(ListRec(tuple(self.get(x.oid).items) * k)))
        for x, y, nm in ((a, b, '__%s__'), (b, a, '__r%s__')):
            if isinstance(x, ObjRef):
                on = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.Mod: 'mod', ast.BitAnd: 'and', ast.BitOr: 'or'}.get(type(op))
                if on:
                    m = x.cls.lookup(nm % on)
                    if m is not MISSING: return self.call(BoundM(m, x), [y], {})
        if isinstance(a, HostObj) or isinstance(b, HostObj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, HostObj) and hasattr(x, 'binop'): return x.binop(self, op, y, x is a)
        if isinstance(a, Top) or isinstance(b, Top): return Top('operation on ' + (a.why if isinstance(a, Top) else b.why))
        if a is None or b is None or isinstance(a, ObjRef) or isinstance(b, ObjRef):
            raise AbsRaise('TypeError', 'unsupported operand types')
        if isinstance(a, DictRef) and isinstance(b, DictRef) and self.get(a.oid).kind == 'set':
            da, db = self.get(a.oid).d, self.get(b.oid).d
            if isinstance(op, ast.Sub): return self.new_dict({k: v for k, v in da.items() if k not in db}, 'set')
            if isinstance(op, ast.BitOr): return self.new_dict(dict(da, **db) if False else {**da, **db}, 'set')
            if isinstance(op, ast.BitAnd): return self.new_dict({k: v for k, v in da.items() if k in db}, 'set')
        return self.np.binop(self, op, a, b)

    def e_Compare(self, e):
        left = self.eval(e.left)
        def rec(i, left):
            right = self.eval(e.comparators[i])
            r = self.compare(e.ops[i], left, right)
            if i == len(e.ops) - 1: return r
            c = self.truth(r)
            return self.fork(c, lambda: rec(i + 1, right), lambda: r)
        return rec(0, left)

    def compare(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return self.boolv(r if isinstance(op, ast.Is) else dd.not_(r))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return self.boolv(r if isinstance(op, ast.In) else dd.not_(r))
        for x in (a, b):
            if isinstance(x, Choice):
                r = self.np.try_merge(self, x)
                if r is not None:
                    return self.compare(op, r, b) if x is a else self.compare(op, a, r)
        if isinstance(a, Choice): return self.fork(a.c, lambda: self.compare(op, a.a, b), lambda: self.compare(op, a.b, b))
        if isinstance(b, Choice): return self.fork(b.c, lambda: self.compare(op, a, b.a), lambda: self.compare(op, a, b.b))
        if isinstance(a, Top) or isinstance(b, Top): return Top('comparison with ' + (a.why if isinstance(a, Top) else b.why))
        iseq = isinstance(op, (ast.Eq, ast.NotEq))
        if iseq and not (self.np.isnumeric(self, a) and self.np.isnumeric(self, b)) and not isinstance(a, Arr) and not isinstance(b, Arr):
            r = self.pyeq(a, b)
            return self.boolv(r if isinstance(op, ast.Eq) else dd.not_(r))
        if type(a) in (int, bool) and type(b) in (int, bool):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b, ast.Eq: a == b, ast.NotEq: a != b}[type(op)]
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if isinstance(a, tuple) and isinstance(b, tuple) and not iseq: raise Undecided('tuple ordering')
        return self.np.compare(self, op, a, b)

    def pyeq(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Choice): return dd.ite(a.c, self.pyeq(a.a, b), self.pyeq(a.b, b))
        if isinstance(b, Choice): return dd.ite(b.c, self.pyeq(a, b.a), self.pyeq(a, b.b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return dd.FALSE
            r = dd.TRUE
            for x, y in zip(a, b):
                # shapes: compare axis lengths and ints
                r = dd.and_(r, self.truth(self.compare(ast.Eq(), x, y)))
            return r
        if isinstance(a, ListRef) and isinstance(b, ListRef):
            ia, ib = self.get(a.oid).items, self.get(b.oid).items
            if any(g is not dd.TRUE for g, _ in ia + ib): raise Undecided('list comparison')
            if len(ia) != len(ib): return dd.FALSE
            r = dd.TRUE
            for (_, x), (_, y) in zip(ia, ib): r = dd.and_(r, self.truth(self.compare(ast.Eq(), x, y)))
            return r
        if isinstance(a, Ref) or isinstance(b, Ref):
            if isinstance(a, ObjRef) and a.cls.lookup('__eq__') is not MISSING:
                return self.truth(self.call(BoundM(a.cls.lookup('__eq__'), a), [b], {}))
            return dd.TRUE if a == b else dd.FALSE
        if isinstance(a, Top) or isinstance(b, Top): return dd.bfresh('unknown equality', imp=True)
        sa, sb = self.scalar(a), self.scalar(b)
        if sa is not None and sb is not None: return dd.eq(dd.tonum(sa.node), dd.tonum(sb.node))
        if isinstance(a, Arr) or isinstance(b, Arr): return self.truth(self.np.compare(self, ast.Eq(), a, b))
        try: return dd.TRUE if a == b else dd.FALSE
        except Exception: return dd.FALSE

    def is_(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Choice): return dd.ite(a.c, self.is_(a.a, b), self.is_(a.b, b))
        if isinstance(b, Choice): return dd.ite(b.c, self.is_(a, b.a), self.is_(a, b.b))
        if isinstance(a, Top) or isinstance(b, Top): return dd.bfresh('unknown identity', imp=True)
        if isinstance(a, Ref) and isinstance(b, Ref): return dd.TRUE if a == b else dd.FALSE
        if isinstance(a, Arr) and isinstance(b, Arr): return dd.TRUE if a.oid == b.oid and a.pos == b.pos and a.dims == b.dims else dd.FALSE
        if a is b: return dd.TRUE
        if isinstance(a, Sc) and a.dt == 'b' and isinstance(b, bool): return a.node if b else dd.not_(a.node)
        if isinstance(a, (int, str)) and type(a) is type(b): return dd.TRUE if a == b else dd.FALSE
        if isinstance(a, TypeV) and isinstance(b, TypeV): return dd.TRUE if a.name == b.name else dd.FALSE
        return dd.FALSE

    def contains(self, cont, x):
        cont = self.resolve(cont)
        if isinstance(cont, Choice): return dd.ite(cont.c, self.contains(cont.a, x), self.contains(cont.b, x))
        if isinstance(cont, str): return dd.TRUE if isinstance(x, str) and x in cont else dd.FALSE
        if isinstance(cont, DictRef):
            d = self.get(cont.oid).d
            return self.present(self.resolve(d.get(self.dkey(x), MISSING)))
        if isinstance(cont, InstDict):
            return self.present(self.resolve(self.get(cont.obj.oid).d.get(x, MISSING)))
        r = dd.FALSE
        for g, v in self.iterate(cont):
            if isinstance(v, (SymItem, GenericIter)): raise Undecided('membership in per-ray list')
            r = dd.or_(r, dd.and_(g, self.pyeq(v, x)))
        return r

    # ---- comprehensions -----------------------------------------------------
    def comp(self, e, emit):
        fr0 = self.frames[-1]
        def rec(i, guard):
            if i == len(e.generators): emit(guard); return
            gen = e.generators[i]
            it = self.iterate(self.eval(gen.iter))
            for g, item in it:
                if isinstance(item, SymItem): item = GenericIter(item.axis, item.val)
                if isinstance(item, GenericIter):
                    ax = item.axis.sub(g) if g is not dd.TRUE else item.axis
                    s0 = self.st
                    self.st = s0.fork(dd.and_(s0.pc, ax.care))
                    self.generic.append(ax)
                    self.assign(gen.target, item.item)
                    gg = dd.TRUE
                    for cnd in gen.ifs: gg = dd.and_(gg, self.truth(self.eval(cnd)))
                    ax2 = ax.sub(gg)
                    emit.axes.append(ax2)
                    rec(i + 1, guard)
                    emit.axes.pop(); self.generic.pop()
                    self.st.pc = s0.pc
                    continue
                gg = dd.and_(guard, g)
                def body(item=item):
                    self.assign(gen.target, item)
                    c = dd.TRUE
                    for cnd in gen.ifs:
                        c = dd.and_(c, self.truth(self.eval(cnd)))
                        if c is dd.FALSE: return True
                    c = self.simplify(c)
                    if c is dd.TRUE: rec(i + 1, gg)
                    elif c is not dd.FALSE:
                        self.branch(c, lambda: (rec(i + 1, dd.and_(gg, c)), True)[1], lambda: True)
                    return True
                if g is dd.TRUE: body()
                else: self.branch(g, body, lambda: True)
        fr = Frame(fr0.func, self.alloc({}), fr0.module)
        fr.comp_parent = fr0
        self.frames.append(fr)
        try: rec(0, dd.TRUE)
        finally: self.frames.pop()

    def e_ListComp(self, e):
        out = []
        def emit(g):
            v = self.eval(e.elt)
            if emit.axes:
                if len(emit.axes) > 1: raise Undecided('nested per-ray comprehension')
                out.append((g, SymItem(emit.axes[0], v)))
            else: out.append((g, v))
        emit.axes = []
        self.comp(e, emit)
        return ListRef(self.alloc(ListRec(out)))
    e_GeneratorExp = e_ListComp
    def e_SetComp(self, e):
        l = self.e_ListComp(e)
        return self.new_dict({self.dkey(v): True for g, v in self.get(l.oid).items}, 'set')
    def e_DictComp(self, e):
        out = {}
        def emit(g):
            if emit.axes: raise Undecided('per-ray dict')
            k, v = self.dkey(self.eval(e.key)), self.eval(e.value)
            out[k] = v if g is dd.TRUE else self.merge(g, v, out.get(k, MISSING))
        emit.axes = []
        self.comp(e, emit)
        return self.new_dict(out)

    # ---- calls ------------------------------------------------------------
    def e_Call(self, e):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            fr = self.frames[-1]
            while getattr(fr, 'comp_parent', None) is not None: fr = fr.comp_parent
            first = fr.func.args.args[0].arg
            return SuperV(fr.func.cls, self.resolve(self.lookup(first)))
        f = self.eval(e.func)
        args = self.seq(e.args, True)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.resolve(self.eval(k.value))
                if not isinstance(d, DictRef): raise Undecided('** of non-dict')
                for kk, vv in self.get(d.oid).d.items():
                    vv = self.resolve(vv)
                    if isinstance(vv, Choice) and self.present(vv) is not dd.TRUE: raise Undecided('conditional keyword')
                    if vv is not MISSING: kw[kk] = vv
            else: kw[k.arg] = self.eval(k.value)
        loc = self.loc
        self.loc = (loc[0], e.lineno, loc[2])
        if any(isinstance(a, Maybe) for a in args):
            if isinstance(f, Builtin) and f.name == 'zip' and len(e.args) == 1: r = self.zip_maybe(f, args)
            elif sum(isinstance(a, Maybe) for a in args) > 4: raise Undecided('starred conditional list')
            else: r = self.call_maybe(f, args, kw)
        else: r = self.call(f, args, kw)
        self.loc = loc
        return r

    def call_maybe(self, f, args, kw):
        i = next((i for i, a in enumerate(args) if isinstance(a, Maybe)), None)
        if i is None: return self.call(f, args, kw)
        return self.fork(args[i].g, lambda: self.call_maybe(f, args[:i] + [args[i].v] + args[i + 1:], kw), lambda: self.call_maybe(f, args[:i] + args[i + 1:], kw))

    def zip_maybe(self, f, args):
        """zip(*rows) of rows that may be absent: columns with the same items absent"""
        gs = [a.g if isinstance(a, Maybe) else dd.TRUE for a in args]
        vs = [self.resolve(a.v if isinstance(a, Maybe) else a) for a in args]
        if not all(isinstance(v, tuple) and len(v) == len(vs[0]) for v in vs): return self.call_maybe(f, args, {})
        some = dd.FALSE
        for g in gs: some = dd.or_(some, g)
        def go(): return self.new_list([ListRef(self.alloc(ListRec([(g, v[k]) for g, v in zip(gs, vs)]))) for k in range(len(vs[0]))])
        return self.fork(some, go, lambda: self.new_list([]))

    def call(self, f, args, kw):
        f = self.resolve(f)
        if isinstance(f, Choice):
            return self.fork(f.c, lambda: self.call(f.a, args, kw), lambda: self.call(f.b, args, kw))
        if isinstance(f, BoundM): return self.call(f.f, [f.self_] + list(args), kw)
        if isinstance(f, FuncVal): return self.call_func(f, list(args), dict(kw))
        if isinstance(f, ClassVal): return self.instantiate(f, args, kw)
        if isinstance(f, Builtin):
            if f.lift: return self.np.lifted(self, f, list(args), dict(kw))
            return f.fn(self, list(args), dict(kw))
        if isinstance(f, TypeV): return self.np.lifted(self, self.typecalls[f.name], list(args), dict(kw))
        if isinstance(f, ObjRef):
            m = f.cls.lookup('__call__')
            if m is MISSING: raise AbsRaise('TypeError', '%s is not callable' % f.cls.name)
            return self.call(BoundM(m, f), args, kw)
        if isinstance(f, HostObj) and hasattr(f, 'call'): return f.call(self, args, kw)
        if isinstance(f, (StaticM,)): return self.call(f.f, args, kw)
        if isinstance(f, Top):
            self.notes.append('opaque call %s' % f.why)
            return Top(f.why + '()')
        if f is None or isinstance(f, (Sc, int, Arr, tuple, str, ListRef, DictRef)): raise AbsRaise('TypeError', 'object is not callable')
        raise Undecided('call of %r' % (f,))

    def instantiate(self, cls, args, kw):
        o = self.new_obj(cls)
        init = cls.lookup('__init__')
        if init is not MISSING: self.call(BoundM(init, o), args, kw)
        elif any(getattr(k, 'opaque_bases', None) for k in cls.mro()): pass
        elif args or kw: raise AbsRaise('TypeError', '%s() takes no arguments' % cls.name)
        return o

    def bind_args(self, f, args, kw):
        a = f.args
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        env = {}
        if len(args) > len(names):
            if a.vararg is None: raise AbsRaise('TypeError', '%s() takes %d arguments, got %d' % (f.name, len(names), len(args)))
            env[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None: env[a.vararg.arg] = ()
        for nm, v in zip(names, args): env[nm] = v
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in env: raise AbsRaise('TypeError', '%s() got multiple values for %s' % (f.name, k))
                env[k] = v
            elif a.kwarg is not None: extra[k] = v
            else: raise AbsRaise('TypeError', '%s() got an unexpected keyword argument %s' % (f.name, k))
        if a.kwarg is not None: env[a.kwarg.arg] = self.new_dict(extra)
        nd = len(f.defaults)
        for i, nm in enumerate(names):
            if nm not in env:
                j = i - (len(names) - nd)
                if j < 0: raise AbsRaise('TypeError', '%s() missing argument %s' % (f.name, nm))
                env[nm] = f.defaults[j]
        for nm in kwonly:
            if nm not in env:
                if nm not in f.kwdefaults: raise AbsRaise('TypeError', '%s() missing argument %s' % (f.name, nm))
                env[nm] = f.kwdefaults[nm]
        return env

    def call_func(self, f, args, kw):
        if len(self.frames) > self.MAXDEPTH: raise Undecided('recursion depth')
        if is_generator(f.node): raise Undecided('generator function %s' % f.name)
        env = self.bind_args(f, args, kw)
        fr = Frame(f, self.alloc(env), f.module)
        self.analysed.add((os.path.relpath(f.module.file, self.root) if f.module.file else '?', (f.cls.name + '.' if f.cls else '') + f.name))
        loc = self.loc
        self.frames.append(fr)
        try:
            live = self.exec_block(f.body)
            rets = list(fr.returns)
            if live: rets.append((self.st, None))
            if not rets: raise DeadPath()
            st, v = rets[0]
            for s2, v2 in rets[1:]:
                nst, c = self.join(s2, st)
                self.st = nst
                v = self.merge(c, v2, v)
                st = nst
            self.st = st
            return v
        except AbsRaise as e:
            if e.loc is None: e.loc = self.loc
            raise
        finally:
            self.frames.pop()
            self.loc = loc

    # ---- convenience for harnesses -----------------------------------------
    def mod(self, dotted):
        m = self.load_module(dotted)
        if m is None: raise AnchorMissing(dotted)
        return m
    def anchor(self, dotted, name):
        v = self.module_attr(self.mod(dotted), name)
        if v is MISSING: raise AnchorMissing('%s.%s' % (dotted, name))
        return v
    def meth(self, o, name, *args, **kw):
        return self.call(self.getattr(o, name), list(args), kw)

class AnchorMissing(Exception): pass
class Maybe(object):
    """a value that is present where g holds"""
    def __init__(self, g, v): self.g, self.v = g, v

class DeadPath(Exception):
    """every continuation of the current state raised"""

class InstDict(object):
    def __init__(self, obj): self.obj = obj
    def __eq__(self, o): return isinstance(o, InstDict) and o.obj == self.obj
    def __hash__(self): return hash(self.obj)

def dd_differ_any(a, b, pc):
    for x, y in zip(a, b):
        if x is y: continue
        try:
            d = dd.differ(x, y, pc)
        except dd.TooBig: return False
        if d is not None and not d.imp: return True
    return False

_gen = {}
def is_generator(node):
    r = _gen.get(id(node))
    if r is None:
        r = False
        stack = list(getattr(node, 'body', [])) if not isinstance(node, ast.Lambda) else [node.body]
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)): r = True; break
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
            stack.extend(ast.iter_child_nodes(x))
        _gen[id(node)] = r
    return r

def loop_vars(s):
    """(names stored in the body, those possibly read before being stored)"""
    stored, carried, seen = set(), set(), set()
    targets = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
    def stores(nd):
        return {x.id for x in ast.walk(nd) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    allst = set()
    for st in s.body: allst |= stores(st)
    def visit(stmts, done):
        for st in stmts:
            if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id not in done: carried.add(st.target.id)
            heads = []
            if isinstance(st, (ast.If, ast.While)): heads = [st.test]
            elif isinstance(st, ast.For): heads = [st.iter]
            elif isinstance(st, (ast.With, ast.Try)): heads = []
            else: heads = [st]
            for h in heads:
                for x in ast.walk(h):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in allst and x.id not in done: carried.add(x.id)
            if isinstance(st, ast.If):
                d1, d2 = set(done), set(done)
                visit(st.body, d1); visit(st.orelse, d2)
                done |= (d1 & d2)
            elif isinstance(st, (ast.For, ast.While)):
                visit(st.body, set(done) | (stores(st.target) if isinstance(st, ast.For) else set()))
            elif isinstance(st, (ast.With, ast.Try)):
                visit(st.body, done)
            else: done |= stores(st)
    visit(s.body, set(targets))
    return allst - targets, carried
