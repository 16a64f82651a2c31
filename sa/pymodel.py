"""Abstract semantics of the Python builtins and standard modules used."""
import ast
from fractions import Fraction
from . import num as n, dd
from .core import *

def _len(I, args, kw):
    v = args[0]
    if isinstance(v, (tuple, str)): return len(v)
    if isinstance(v, ListRef):
        items = I.get(v.oid).items
        if all(g is dd.TRUE and not isinstance(x, SymItem) for g, x in items): return len(items)
        r = dd.c(0)
        for g, x in items:
            k = x.axis.len() if isinstance(x, SymItem) else dd.c(1)
            r = dd.add(r, dd.ite(g, k, dd.c(0)))
        return Sc(r, 'i')
    if isinstance(v, DictRef):
        r = dd.c(0)
        for x in I.get(v.oid).d.values(): r = dd.add(r, dd.ite(I.present(I.resolve(x)), dd.c(1), dd.c(0)))
        k = I.as_int(Sc(r, 'i'))
        return k if k is not None else Sc(r, 'i')
    if isinstance(v, Arr):
        if not v.dims: raise AbsRaise('TypeError', 'len() of unsized object')
        return I.np.dimlen(v.dims[0])
    if isinstance(v, ObjRef):
        m = v.cls.lookup('__len__')
        if m is not MISSING: return I.call(BoundM(m, v), [], {})
        raise AbsRaise('TypeError', 'object of type %s has no len()' % v.cls.name)
    if isinstance(v, RangeV):
        it = I.iterate(v)
        return len(it)
    if isinstance(v, Sc) or v is None or isinstance(v, int): raise AbsRaise('TypeError', 'object has no len()')
    if isinstance(v, Top): return Top('len')
    raise Undecided('len of %r' % (v,))

def _range(I, args, kw):
    for x in args:
        s = I.scalar(x)
        if s is not None and s.dt == 'f': raise AbsRaise('TypeError', 'range() of a float')
    if len(args) == 1: return RangeV(0, args[0], 1)
    if len(args) == 2: return RangeV(args[0], args[1], 1)
    return RangeV(*args)

def _enumerate(I, args, kw):
    items = I.iterate(args[0])
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    if len(items) == 1 and isinstance(items[0][1], (GenericIter, SymItem)) and items[0][0] is dd.TRUE and start == 0:
        it = items[0][1]
        val = it.item if isinstance(it, GenericIter) else it.val
        return GenericIter(it.axis, (Sc(it.axis.pos(), 'i'), val))
    out, k = [], start
    kn = None
    for g, x in items:
        if isinstance(x, (GenericIter, SymItem)): raise Undecided('enumerate over rays and more')
        if kn is None and g is dd.TRUE: out.append((g, (k, x))); k += 1
        else:
            if kn is None: kn = dd.c(k)
            idx = Sc(kn, 'i')
            out.append((g, (idx, x)))
            kn = dd.add(kn, dd.ite(g, dd.c(1), dd.c(0)))
    return ListRef(I.alloc(ListRec(out)))

def _zip(I, args, kw):
    cols = [I.iterate(a) for a in args]
    if not cols: return I.new_list([])
    if any(len(c) == 1 and isinstance(c[0][1], (GenericIter, SymItem)) for c in cols):
        if all(len(c) == 1 and isinstance(c[0][1], (GenericIter, SymItem)) and c[0][0] is dd.TRUE for c in cols):
            ax = cols[0][0][1].axis
            for c in cols[1:]:
                e = axis_equiv(ax, c[0][1].axis, I.pc)
                if e is not True: raise Undecided('zip over different ray sets')
            return GenericIter(ax, tuple(c[0][1].item if isinstance(c[0][1], GenericIter) else c[0][1].val for c in cols))
        raise Undecided('zip of rays with others')
    if all(g is dd.TRUE for c in cols for g, _ in c):
        return I.new_list(list(zip(*[[x for _, x in c] for c in cols])))
    if all(len(c) == len(cols[0]) for c in cols) and all(all(c[i][0] is cols[0][i][0] for c in cols) for i in range(len(cols[0]))):
        return ListRef(I.alloc(ListRec([(cols[0][i][0], tuple(c[i][1] for c in cols)) for i in range(len(cols[0]))])))
    raise Undecided('zip of conditional lists')

def _anyall(isany):
    def f(I, args, kw):
        v = args[0]
        if isinstance(v, Arr):
            if len(v.dims) != 1:
                raise AbsRaise('ValueError', 'truth value of an array is ambiguous')
            return I.np.reduce_bool(I, v, isany, None)
        r = dd.FALSE if isany else dd.TRUE
        for g, x in I.iterate(v):
            if isinstance(x, (SymItem, GenericIter)):
                t = I.truth(x.val if isinstance(x, SymItem) else x.item)
                ax = x.axis.sub(g)
                t = ax.exists(t) if isany else dd.not_(ax.exists(dd.not_(t)))
                r = dd.or_(r, t) if isany else dd.and_(r, t)
                continue
            t = I.truth(x)
            r = dd.or_(r, dd.and_(g, t)) if isany else dd.and_(r, dd.or_(dd.not_(g), t))
        return I.boolv(r)
    return f

def _sum(I, args, kw):
    v = args[0]
    if isinstance(v, Arr): return I.np.reduce(I, 'sum', v, 0)
    acc = args[1] if len(args) > 1 else kw.get('start', 0)
    for g, x in I.iterate(v):
        if isinstance(x, (SymItem, GenericIter)): raise Undecided('sum over rays')
        if g is dd.TRUE: acc = I.binop(ast.Add(), acc, x)
        else: acc = I.merge(g, I.binop(ast.Add(), acc, x), acc)
    return acc

def _minmax(ismin):
    def f(I, args, kw):
        if kw: raise Undecided('min/max with key')
        if len(args) == 1:
            if isinstance(args[0], Arr): return I.np.reduce(I, 'min' if ismin else 'max', args[0], None)
            items = I.iterate(args[0])
            if any(g is not dd.TRUE or isinstance(x, (SymItem, GenericIter)) for g, x in items): raise Undecided('min of conditional list')
            args = [x for _, x in items]
        if not args: raise AbsRaise('ValueError', 'min/max of empty sequence')
        if all(type(x) is int for x in args): return (min if ismin else max)(args)
        acc = I.scalar(args[0])
        if acc is None: raise Undecided('min/max')
        for x in args[1:]:
            y = I.scalar(x)
            if y is None: raise Undecided('min/max')
            dt = 'f' if 'f' in (acc.dt, y.dt) else 'i'
            acc = Sc((dd.min_ if ismin else dd.max_)(dd.tonum(acc.node), dd.tonum(y.node)), dt)
        return acc
    return f

def _hasattr(I, args, kw):
    v = args[0]
    if isinstance(v, Top): return Top('hasattr')
    if isinstance(v, Choice):
        return I.fork(v.c, lambda: _hasattr(I, [v.a, args[1]], kw), lambda: _hasattr(I, [v.b, args[1]], kw))
    r = I.rawattr(v, args[1])
    return I.boolv(I.present(I.resolve(r)))

def _getattr(I, args, kw):
    if len(args) > 2: return I.getattr(args[0], args[1], args[2])
    return I.getattr(args[0], args[1])

def _setattr(I, args, kw): I.setattr(args[0], args[1], args[2])

def typeof(I, v):
    if isinstance(v, ObjRef): return v.cls
    if isinstance(v, Arr): return TypeV('ndarray')
    if isinstance(v, ListRef): return TypeV('list')
    if isinstance(v, DictRef): return TypeV(I.get(v.oid).kind)
    if isinstance(v, tuple): return TypeV('tuple')
    if isinstance(v, str): return TypeV('str')
    if isinstance(v, bool): return TypeV('bool')
    if isinstance(v, int): return TypeV('int')
    if isinstance(v, Sc): return TypeV({'b': 'bool', 'i': 'int'}.get(v.dt, 'float'))
    if v is None: return TypeV('NoneType')
    if isinstance(v, SliceV): return TypeV('slice')
    if isinstance(v, (FuncVal, Builtin)): return TypeV('function')
    if isinstance(v, BoundM): return TypeV('method')
    if isinstance(v, (ClassVal, TypeV)): return TypeV('type')
    return Top('type')

def _isinstance(I, args, kw):
    v, t = args
    ts = [x for _, x in I.iterate(t)] if isinstance(t, (tuple,)) else [t]
    ty = typeof(I, v)
    if isinstance(ty, Top): return Top('isinstance')
    for k in ts:
        if isinstance(k, Top): return Top('isinstance')
        if isinstance(k, ClassVal):
            if isinstance(ty, ClassVal) and k in ty.mro(): return True
        elif isinstance(k, TypeV):
            if k.name == 'object': return True
            if isinstance(ty, TypeV):
                nm = ty.name
                if nm == k.name: return True
                if k.name in ('float', 'float64', 'floating') and nm == 'float': return True
                if k.name in ('int', 'integer', 'long', 'int64', 'int_') and nm in ('int', 'bool' if k.name == 'int' else 'int'): return True
                if k.name in ('Number', 'Real', 'number') and nm in ('int', 'float', 'bool'): return True
                if k.name in ('basestring', 'unicode') and nm == 'str': return True
    return False

def _super(I, args, kw): return SuperV(args[0], I.resolve(args[1]))

def _list(I, args, kw):
    if not args: return I.new_list([])
    items = I.iterate(args[0])
    out = []
    for g, x in items:
        if isinstance(x, GenericIter): x = SymItem(x.axis, x.item)
        out.append((g, x))
    return ListRef(I.alloc(ListRec(out)))

def _tuple(I, args, kw):
    if not args: return ()
    items = I.iterate(args[0])
    if any(g is not dd.TRUE or isinstance(x, (SymItem, GenericIter)) for g, x in items): raise Undecided('tuple of conditional list')
    return tuple(x for _, x in items)

def _dict(I, args, kw):
    d = {}
    if args:
        a = args[0]
        if isinstance(a, DictRef): d.update(I.get(a.oid).d)
        else:
            for g, x in I.iterate(a):
                k, v = I.unpack(x, 2)
                k = I.dkey(k)
                d[k] = v if g is dd.TRUE else I.merge(g, v, d.get(k, MISSING))
    d.update(kw)
    return I.new_dict(d)

def _set(I, args, kw):
    d = {}
    if args:
        for g, x in I.iterate(args[0]):
            if g is not dd.TRUE or isinstance(x, (SymItem, GenericIter)): raise Undecided('set')
            d[I.dkey(x)] = True
    return I.new_dict(d, 'set')

def _float(I, args, kw):
    if not args: return Sc(dd.c(0), 'f')
    v = args[0]
    if isinstance(v, str):
        return Sc(dd.c(float(v)), 'f')
    s = I.scalar(v)
    if s is None and isinstance(v, Arr):
        if len(v.pos) == 1 and all(isinstance(d, int) for d in v.dims): s = Sc(I.elems(v)[0], I.adt(v))
        else: raise AbsRaise('TypeError', 'only size-1 arrays can be converted to scalars')
    if s is None:
        if isinstance(v, Top): return v
        raise AbsRaise('TypeError', 'float() argument')
    return Sc(dd.tonum(s.node), 'f')

def _int(I, args, kw):
    v = args[0] if args else 0
    s = I.scalar(v)
    if s is None and isinstance(v, Arr):
        if len(v.pos) == 1 and all(isinstance(d, int) for d in v.dims): s = Sc(I.elems(v)[0], I.adt(v))
        else: raise AbsRaise('TypeError', 'only size-1 arrays can be converted to scalars')
    if s is None:
        if isinstance(v, Top): return v
        raise Undecided('int()')
    r = Sc(I.cast(s.node, 'i'), 'i')
    k = I.as_int(r)
    return k if k is not None else r

def _bool(I, args, kw): return I.boolv(I.truth(args[0])) if args else False

def _reduce(I, args, kw):
    f = args[0]
    items = I.iterate(args[1])
    if any(isinstance(x, (SymItem, GenericIter)) for g, x in items): raise Undecided('reduce over rays')
    if any(g is not dd.TRUE for g, x in items): raise Undecided('reduce of conditional list')
    vals = [x for _, x in items]
    if len(args) > 2: acc = args[2]
    else:
        if not vals: raise AbsRaise('TypeError', 'reduce() of empty sequence')
        acc, vals = vals[0], vals[1:]
    for v in vals: acc = I.call(f, [acc, v], {})
    return acc

def _map(I, args, kw):
    cols = args[1] if len(args) == 2 else _zip(I, args[1:], {})
    out = []
    for g, x in I.iterate(cols):
        a = lambda v: [v] if len(args) == 2 else list(v)
        if isinstance(x, (SymItem, GenericIter)):
            val = x.val if isinstance(x, SymItem) else x.item
            s0 = I.st; I.st = s0.fork(dd.and_(s0.pc, x.axis.care))
            I.generic.append(x.axis)
            r = I.call(args[0], a(val), {})
            I.generic.pop(); I.st.pc = s0.pc
            out.append((g, SymItem(x.axis, r)))
        elif g is dd.TRUE: out.append((g, I.call(args[0], a(x), {})))
        else:
            box = []
            def f(x=x): box.append(I.call(args[0], a(x), {})); return True
            I.branch(g, f, lambda: True)
            out.append((g, box[0]))
    return ListRef(I.alloc(ListRec(out)))

def _filter(I, args, kw):
    out = []
    for g, x in I.iterate(args[1]):
        if isinstance(x, (SymItem, GenericIter)): raise Undecided('filter over rays')
        t = I.truth(x if args[0] is None else I.call(args[0], [x], {}))
        t = I.simplify(t)
        if t is not dd.FALSE: out.append((dd.and_(g, t), x))
    return ListRef(I.alloc(ListRec(out)))

def _sorted(I, args, kw):
    items = I.iterate(args[0])
    sc = [I.scalar(x) if not isinstance(x, (SymItem, GenericIter, str)) else None for g, x in items]
    if not kw and 1 < len(items) < 5 and all(g is dd.TRUE for g, _ in items) and all(isinstance(x, Sc) for x in sc) and not all(type(x) is int for _, x in items):
        l, lo, hi = [x for _, x in items], _minmax(True), _minmax(False)
        for k in range(len(l)):
            for j in range(len(l) - 1 - k): l[j:j + 2] = [lo(I, l[j:j + 2], {}), hi(I, l[j:j + 2], {})]
        return I.new_list(l)
    if kw or any(g is not dd.TRUE or not isinstance(x, (int, str)) for g, x in items): raise Undecided('sorted')
    return I.new_list(sorted(x for _, x in items))

def _reversed(I, args, kw):
    items = I.iterate(args[0])
    if any(isinstance(x, (SymItem, GenericIter)) for g, x in items): raise Undecided('reversed rays')
    return ListRef(I.alloc(ListRec(list(reversed(items)))))

def _abs(I, args, kw): return I.np.ufunc1(I, 'abs', args[0])

def _pow(I, args, kw): return I.binop(ast.Pow(), args[0], args[1])
def _round(I, args, kw):
    v = args[0]
    if isinstance(v, int): return v
    s = I.scalar(v)
    if s is None: raise Undecided('round')
    return Sc(dd.opaque('round', dd.tonum(s.node), isint=True), 'i')
def _divmod(I, args, kw): return (I.binop(ast.FloorDiv(), args[0], args[1]), I.binop(ast.Mod(), args[0], args[1]))
def _id(I, args, kw):
    v = args[0]
    if isinstance(v, (Ref, Arr)): return v.oid
    return id(v)
def _callable(I, args, kw):
    v = args[0]
    if isinstance(v, (FuncVal, BoundM, Builtin, ClassVal, TypeV)): return True
    if isinstance(v, ObjRef): return v.cls.lookup('__call__') is not MISSING
    if isinstance(v, HostObj): return hasattr(v, 'call')
    return False
def _str(I, args, kw):
    if not args: return ''
    v = I.resolve(args[0])
    return v if isinstance(v, str) else str(v) if type(v) is int else '<str>'
def _next(I, args, kw):
    items = I.iterate(args[0])
    if any(isinstance(x, (SymItem, GenericIter)) for g, x in items): raise Undecided('next over rays')
    if not items:
        if len(args) > 1: return args[1]
        raise AbsRaise('StopIteration', '')
    if len(args) > 1:
        r = args[1]
        for g, x in reversed(items): r = I.merge(g, x, r)
        return r
    return I.list_at(items, 0)
def _iter(I, args, kw): return args[0]
def _slice(I, args, kw):
    if len(args) == 1: return SliceV(None, args[0], None)
    if len(args) == 2: return SliceV(args[0], args[1], None)
    return SliceV(*args)

def _methodtype(I, args, kw):
    f, obj = args[0], args[1]
    if isinstance(f, (FuncVal, Builtin)): return BoundM(f, obj)
    raise Undecided('MethodType')

def _partial(I, args, kw):
    f, a0, k0 = args[0], args[1:], dict(kw)
    def g(I, args, kw):
        k = dict(k0); k.update(kw)
        return I.call(f, list(a0) + list(args), k)
    return Builtin('partial', g, lift=False)

def _property(I, args, kw):
    return PropertyM(args[0] if args else kw.get('fget'), args[1] if len(args) > 1 else kw.get('fset'))

def install(I):
    B = {}
    def add(name, fn, lift=True): B[name] = Builtin(name, fn, lift)
    add('len', _len); add('range', _range); add('xrange', _range)
    add('enumerate', _enumerate); add('zip', _zip)
    add('any', _anyall(True)); add('all', _anyall(False))
    add('sum', _sum); add('min', _minmax(True)); add('max', _minmax(False)); add('abs', _abs)
    add('hasattr', _hasattr); add('getattr', _getattr); add('setattr', _setattr)
    add('isinstance', _isinstance); add('super', _super)
    add('issubclass', lambda I, a, k: isinstance(a[0], ClassVal) and isinstance(a[1], ClassVal) and a[1] in a[0].mro())
    add('reduce', _reduce); add('map', _map); add('filter', _filter)
    add('sorted', _sorted); add('reversed', _reversed); add('pow', _pow); add('round', _round); add('divmod', _divmod)
    add('id', _id); add('callable', _callable); add('print', lambda I, a, k: None); add('repr', _str); add('next', _next); add('iter', _iter)
    add('slice', _slice); add('property', _property); add('vars', lambda I, a, k: I.rawattr(a[0], '__dict__'))
    add('staticmethod', lambda I, a, k: StaticM(a[0])); add('classmethod', lambda I, a, k: ClassM(a[0]))
    add('delattr', lambda I, a, k: I.delattr(a[0], a[1]))
    add('type1', lambda I, a, k: typeof(I, a[0]))
    B['type'] = B.pop('type1')
    I.typecalls = {}
    def ty(name, fn):
        B[name] = TypeV(name); I.typecalls[name] = Builtin(name, fn)
    ty('float', _float); ty('int', _int); ty('bool', _bool); ty('str', _str); ty('list', _list); ty('tuple', _tuple)
    ty('dict', _dict); ty('set', _set); ty('frozenset', _set); ty('long', _int)
    ty('object', lambda I, a, k: Top('object()'))
    B['unicode'] = B['basestring'] = TypeV('str')
    for e in ('Exception ValueError TypeError KeyError IndexError AttributeError NotImplementedError RuntimeError ZeroDivisionError '
              'StopIteration AssertionError LookupError ArithmeticError FloatingPointError ImportError NameError Warning DeprecationWarning').split():
        B[e] = Builtin(e, (lambda e: lambda I, a, k: Top(e))(e))
    B['None'] = None; B['True'] = True; B['False'] = False
    B['NotImplemented'] = Top('NotImplemented'); B['Ellipsis'] = Ellipsis; B['__debug__'] = True
    I.builtins = B
    def mod(name, d):
        m = ModuleVal(name, d); I.ext[name] = m; return m
    mod('types', {'MethodType': Builtin('MethodType', _methodtype), 'FunctionType': TypeV('function'),
                  'ListType': TypeV('list'), 'TupleType': TypeV('tuple')})
    mod('functools', {'reduce': B['reduce'], 'partial': Builtin('partial', _partial, lift=False),
                      'wraps': Builtin('wraps', lambda I, a, k: Builtin('wraps1', lambda I, a2, k2: a2[0]))})
    def op2(op): return Builtin('op', lambda I, a, k: I.binop(op, a[0], a[1]))
    mod('operator', {'add': op2(ast.Add()), 'mul': op2(ast.Mult()), 'sub': op2(ast.Sub()), 'and_': op2(ast.BitAnd()), 'or_': op2(ast.BitOr()),
        'truediv': op2(ast.Div()),
        'itemgetter': Builtin('itemgetter', lambda I, a, k: Builtin('ig', lambda I, b, k2: I.getitem(b[0], a[0]))),
        'attrgetter': Builtin('attrgetter', lambda I, a, k: Builtin('ag', lambda I, b, k2: I.getattr(b[0], a[0])))})
    def chain(I, args, kw):
        out = []
        for a in args: out += I.iterate(a)
        return _list(I, [ListRef(I.alloc(ListRec(out)))], {})
    def chain_it(I, args, kw):
        out = []
        for g, x in I.iterate(args[0]):
            for g2, y in I.iterate(x): out.append((dd.and_(g, g2), y))
        return _list(I, [ListRef(I.alloc(ListRec(out)))], {})
    ch = Builtin('chain', chain); ch.attrs = {'from_iterable': Builtin('from_iterable', chain_it)}
    def product(I, args, kw):
        import itertools
        cols = [I.iterate(a) for a in args]
        if any(g is not dd.TRUE or isinstance(x, (SymItem, GenericIter)) for c in cols for g, x in c): raise Undecided('product')
        return I.new_list(list(itertools.product(*[[x for _, x in c] for c in cols])))
    mod('itertools', {'izip': B['zip'], 'imap': B['map'], 'chain': ch, 'product': Builtin('product', product)})
    mod('logging', {}).opaque = True
    mod('warnings', {}).opaque = True
    mod('copy', {'copy': Builtin('copy', _copy), 'deepcopy': Builtin('deepcopy', _deepcopy)})

def _copy(I, args, kw):
    v = args[0]
    if isinstance(v, Arr): return I.np.copy(I, v)
    if isinstance(v, ListRef): return ListRef(I.alloc(I.get(v.oid)))
    if isinstance(v, DictRef): return DictRef(I.alloc(I.get(v.oid)))
    if isinstance(v, ObjRef): return ObjRef(I.alloc(I.get(v.oid)), v.cls)
    return v

def _deepcopy(I, args, kw):
    memo = {}
    def rec(v):
        v = I.resolve(v)
        if isinstance(v, Choice): return Choice(v.c, rec(v.a), rec(v.b))
        if isinstance(v, Arr): return I.np.copy(I, v)
        if isinstance(v, tuple): return tuple(rec(x) for x in v)
        if isinstance(v, (ListRef, DictRef, ObjRef)):
            if v.oid in memo: return memo[v.oid]
            o = I.alloc(I.get(v.oid))
            r = ObjRef(o, v.cls) if isinstance(v, ObjRef) else type(v)(o)
            memo[v.oid] = r
            rec_ = I.get(v.oid)
            if isinstance(v, ListRef): I.put(o, ListRec([(g, rec(x)) for g, x in rec_.items]))
            elif isinstance(v, DictRef): I.put(o, DictRec({k: rec(x) for k, x in rec_.d.items()}, rec_.kind))
            else: I.put(o, ObjRec({k: rec(x) for k, x in rec_.d.items()}))
            return r
        if isinstance(v, BoundM): return BoundM(v.f, rec(v.self_))
        return v
    return rec(args[0])
