"""The assembly tree widget lists every part once, in order, and renames only the part edited."""
from ..harness import *
from ..frame_h import NoGeom
from .c24 import T
import ast

RULE = ('Abstract interpretation of AssemblyTree over assemblies of several shapes and tag patterns, with a stand-in for the Qt tree widgets (its items, item texts, flags and change signal) interpreted '
        'by the same analyser: the items, their captions and their nesting must be those of the assembly; every item is edited in turn and the tags of all parts compared, also after the assembly was '
        'set again or replaced.')

QT = '''
class Signal(object):
    def __init__(self):
        self.slots = []
    def connect(self, f):
        self.slots.append(f)
    def disconnect(self, f=None):
        if f is None:
            self.slots = []
        else:
            self.slots.remove(f)
    def emit(self, item, column):
        for f in list(self.slots):
            call_slot(f, item, column)

class QTreeWidgetItem(object):
    def __init__(self, *args):
        self.qt_texts = []
        self.qt_children = []
        self.qt_flags = 61
        self.qt_tree = None
        self.qt_parent = None
        args = list(args)
        owner = None
        if len(args) > 0 and isinstance(args[0], (QTreeWidgetItem, QTreeWidget)):
            owner = args[0]
            args = args[1:]
        if len(args) > 0 and isinstance(args[0], (list, tuple)):
            for c in args[0]:
                self.qt_texts.append(c)
        if isinstance(owner, QTreeWidgetItem):
            owner.addChild(self)
        elif owner is not None:
            owner.addTopLevelItem(self)
    def qt_attach(self, tree):
        self.qt_tree = tree
        for c in self.qt_children:
            c.qt_attach(tree)
    def addChild(self, c):
        self.insertChild(len(self.qt_children), c)
    def addChildren(self, cs):
        for c in cs:
            self.addChild(c)
    def insertChild(self, i, c):
        if c.qt_parent is not None:
            return
        c.qt_parent = self
        self.qt_children.insert(i, c)
        c.qt_attach(self.qt_tree)
    def child(self, i):
        return self.qt_children[i]
    def childCount(self):
        return len(self.qt_children)
    def parent(self):
        return self.qt_parent
    def text(self, column):
        if column >= len(self.qt_texts):
            return ''
        return self.qt_texts[column]
    def setText(self, column, text):
        if column < len(self.qt_texts) and self.qt_texts[column] == text:
            return
        while column >= len(self.qt_texts):
            self.qt_texts.append('')
        self.qt_texts[column] = text
        if self.qt_tree is not None:
            self.qt_tree.qt_changed(self, column)
    def flags(self):
        return self.qt_flags
    def setFlags(self, flags):
        self.qt_flags = flags
        if self.qt_tree is not None:
            self.qt_tree.qt_changed(self, 0)
    def treeWidget(self):
        return self.qt_tree
    def indexOfChild(self, c):
        for i in range(len(self.qt_children)):
            if self.qt_children[i] is c:
                return i
        return -1
    def setExpanded(self, e):
        pass

class QTreeWidget(object):
    def __init__(self, parent=None):
        self.qt_top = []
        self.itemChanged = Signal()
        self.qt_blocked = False
    def blockSignals(self, b):
        was = self.qt_blocked
        self.qt_blocked = b
        return was
    def signalsBlocked(self):
        return self.qt_blocked
    def qt_changed(self, item, column):
        if not self.qt_blocked:
            self.itemChanged.emit(item, column)
    def clear(self):
        for i in self.qt_top:
            i.qt_attach(None)
        self.qt_top = []
    def addTopLevelItem(self, i):
        self.qt_top.append(i)
        i.qt_attach(self)
    def addTopLevelItems(self, items):
        for i in items:
            self.addTopLevelItem(i)
    def insertTopLevelItem(self, k, i):
        self.qt_top.insert(k, i)
        i.qt_attach(self)
    def topLevelItem(self, k):
        return self.qt_top[k]
    def topLevelItemCount(self):
        return len(self.qt_top)
    def expandItem(self, i):
        pass
    def expandAll(self):
        pass
'''

def nargs(f):
    self = 0
    if isinstance(f, BoundM): f, self = f.f, 1
    if isinstance(f, FuncVal):
        if f.args.vararg: return 2
        return len(f.args.args) - self
    return 2

def load(I, name, text, env):
    m = ModuleVal(name); m.file = '<%s>' % name; m.ispkg = True
    d = {'__name__': name, '__doc__': None}; d.update(env)
    m.env = I.alloc(d)
    from ..interp import Frame
    fr = Frame(None, m.env, m); fr.module_level = True
    I.frames.append(fr)
    try:
        for s in ast.parse(text).body: I.exec_stmt(s)
    finally: I.frames.pop()
    return m

def qt(h):
    I = h.I
    def call_slot(I, a, k):
        f, item, col = a
        return I.call(f, [item, col][:max(0, min(2, nargs(f)))], {})
    gui = load(I, 'PyQt4.QtGui', QT, {'call_slot': Builtin('call_slot', call_slot)})
    gui.env_name = 'qt'; gui.partial = True
    for k in I.get(gui.env).values():
        if isinstance(k, ClassVal): k.partial = True
    qtns = ModuleVal('Qt', {'ItemIsEditable': 2, 'ItemIsSelectable': 1, 'ItemIsEnabled': 32, 'ItemIsUserCheckable': 16, 'ItemIsDragEnabled': 4, 'ItemIsDropEnabled': 8})
    core_ = ModuleVal('PyQt4.QtCore', {'Qt': qtns})
    qtns.partial = core_.partial = True
    I.ext['PyQt4.QtGui'] = gui; I.ext['PyQt4.QtCore'] = core_
    I.ext['PyQt4'] = ModuleVal('PyQt4', {'QtGui': gui, 'QtCore': core_})

class Tree(object):
    """what the widget shows, read through Qt's own accessors"""
    def __init__(self, h, item):
        self.item = item
        self.text = h.I.resolve(h.m(item, 'text', 0))
        self.flags = h.I.resolve(h.m(item, 'flags'))
        k = h.I.resolve(h.m(item, 'childCount'))
        if not isinstance(k, int): raise Undecided('number of items')
        self.kids = [Tree(h, h.I.resolve(h.m(item, 'child', i))) for i in range(k)]
    def all(self):
        r = [self]
        for k in self.kids: r += k.all()
        return r

class Lab(object):
    def __init__(self, h):
        self.h = h; qt(h)
        self.t = T(h)
        self.w = h.new('tracer.qt.assembly_tree', 'AssemblyTree')
        f = h.cls('tracer.qt.assembly_tree', 'AssemblyTree').lookup('set_assembly')
        h.where = ('tracer/qt/assembly_tree.py', f.node.lineno, 'AssemblyTree.set_assembly')
        self.caps = {}           # part -> caption it must have (None: default to be given)
        self.names = {}
    def tag(self, part):
        h = self.h
        v = h.I.resolve(h.m(self.w, 'get_tag', part, 'caption'))
        return v
    def expect(self, a):
        """(caption, part, children) as required; fills in default captions"""
        t = self.t
        def cap(p, d):
            if self.caps.get(p) is None: self.caps[p] = d
            return self.caps[p]
        objs, subs = t.kids[a]
        out = []
        if subs: out.append(('Subassemblies', None, [(cap(s, 'Assembly %d' % i), s, self.expect(s)) for i, s in enumerate(subs)]))
        if objs: out.append(('Optical objects', None, [(cap(o, 'Object %d' % i), o, [(cap(s, 'Surface %d' % j), s, []) for j, s in enumerate(t.surfs[o])]) for i, o in enumerate(objs)]))
        return out
    def parts(self, a):
        t = self.t
        r = [a]
        for o in t.kids[a][0]: r += [o] + t.surfs[o]
        for s in t.kids[a][1]: r += self.parts(s)
        return r
    def show(self, a, step):
        """set the assembly and compare; returns [(item, part)]"""
        h = self.h
        h.m(self.w, 'set_assembly', a)
        return self.compare(a, step)
    def compare(self, a, step):
        h = self.h
        k = h.I.resolve(h.m(self.w, 'topLevelItemCount'))
        if k != 1: h.viol(step + ': one top item', '%s top items' % k); return None
        h.ok(step + ': one top item')
        top = Tree(h, h.m(self.w, 'topLevelItem', 0))
        pairs = [(top, a)]
        bad = [0]
        def cmp(path, item, want):
            if len(item.kids) != len(want):
                h.viol('%s: items under %s' % (step, path), '%d items (%s), required %d (%s)' % (len(item.kids), ', '.join(str(x.text) for x in item.kids), len(want), ', '.join(w[0] for w in want))); bad[0] = 1; return
            for j, (x, (c_, p, sub)) in enumerate(zip(item.kids, want)):
                nm = '%s: item %d under %s' % (step, j, path)
                if not isinstance(x.text, str) or '<' in x.text: h.und(nm, 'caption not decided'); bad[0] = 1
                elif x.text != c_: h.viol(nm, 'shown as %r, required %r' % (x.text, c_)); bad[0] = 1
                else: h.ok(nm)
                if p is not None:
                    pairs.append((x, p))
                    if isinstance(x.flags, int):
                        if x.flags & 2: h.ok(nm + ' can be edited')
                        else: h.viol(nm + ' can be edited', 'flags %s' % x.flags)
                cmp('%s/%s' % (path, c_), x, sub)
        cmp('top', top, self.expect(a))
        g = h.I.resolve(h.m(self.w, 'get_assembly'))
        if g == a: h.ok(step + ': get_assembly()')
        else: h.viol(step + ': get_assembly()', 'not the assembly set')
        if not isinstance(top.flags, int) or top.flags & 2: h.ok(step + ': top item can be edited')
        else: h.viol(step + ': top item can be edited', 'flags')
        return None if bad[0] else pairs
    def tags(self, parts, step, top=None):
        h = self.h
        for i, p in enumerate(parts):
            if p is top: continue
            v = self.tag(p); w = self.caps.get(p)
            nm = '%s: caption of part %d' % (step, i)
            if v is not None and (not isinstance(v, str) or '<' in v): h.und(nm, 'not decided')
            elif v == w: h.ok(nm)
            else: h.viol(nm, 'is %r, required %r' % (v, w))
    def edit(self, pairs, parts, step, top):
        h = self.h
        for i, (x, p) in enumerate(pairs):
            h.where = ('tracer/qt/assembly_tree.py', None, 'AssemblyTreeItem.update_caption')
            new = 'edited %d %s' % (i, step)
            h.m(x.item, 'setText', 0, new)
            self.caps[p] = new
            self.tags(parts, '%s, item %d edited' % (step, i), None if p is top else top)

def build(lab, shape):
    t = lab.t
    o = lambda k: t.obj(k)
    if shape == 'empty': return t.asm([], [])
    if shape == 'one object': return t.asm([o(1)], [])
    if shape == 'objects': return t.asm([o(2), o(0), o(3)], [])
    if shape == 'subassemblies': return t.asm([], [t.asm([o(1)], []), t.asm([], [])])
    if shape == 'nested': return t.asm([o(1), o(2)], [t.asm([o(2)], [t.asm([o(1), o(1)], [])]), t.asm([o(1)], [])])
    if shape == 'deep': return t.asm([], [t.asm([], [t.asm([], [t.asm([o(2)], [])])]), t.asm([o(1)], [t.asm([o(1)], [])])])

SHAPES = ['empty', 'one object', 'objects', 'subassemblies', 'nested', 'deep']

def pattern(lab, parts, pat, by='set_tag'):
    h = lab.h
    for i, p in enumerate(parts[1:]):
        if pat == 'none' or (pat == 'odd' and i % 2 == 0) or (pat == 'even' and i % 2) or (pat == 'third' and i % 3): continue
        c_ = 'given %d' % i if pat != 'even' or i else ''
        if pat == 'third': c_ = 'same'
        if by == 'set_tag': h.m(lab.w, 'set_tag', p, 'caption', c_)
        elif by == 'other': h.m(lab.w, 'set_tag', p, 'colour', 'red'); continue
        else: h.I.setattr(p, '_tree_tags', h.I.new_dict({'caption': c_}))
        lab.caps[p] = c_

def case(h, shape, pat, by):
    lab = Lab(h)
    a = build(lab, shape)
    parts = lab.parts(a)
    pattern(lab, parts, pat, by)
    pairs = lab.show(a, 'set')
    if pairs is None: return
    lab.tags(parts, 'set', a)
    lab.edit(pairs, parts, 'set', a)
    # set again: edited captions stay
    pairs = lab.show(a, 'set again')
    if pairs is None: return
    lab.edit(pairs, parts, 'set again', a)
    if by == 'other':
        for i, p in enumerate(parts[1:]):
            if pat == 'odd' and i % 2 == 0: continue
            v = h.I.resolve(h.m(lab.w, 'get_tag', p, 'colour'))
            if v == 'red': h.ok('other tag kept')
            elif v is None or isinstance(v, str): h.viol('other tag kept', 'is %r' % (v,))

def retagged(h, shape):
    """captions changed through the tags while the tree is shown, then an item edited to what another one shows"""
    lab = Lab(h)
    a = build(lab, shape)
    parts = lab.parts(a)
    pairs = lab.show(a, 'set')
    if pairs is None: return
    for i, p in enumerate(parts[1:]):
        lab.caps[p] = 'retagged %d' % i
        h.m(lab.w, 'set_tag', p, 'caption', lab.caps[p])
    lab.tags(parts, 'retagged', a)
    texts = [x.text for x, p in pairs]
    for i, (x, p) in enumerate(pairs):
        if p == a: continue
        new = texts[(i + 1) % len(pairs)]
        if new == x.text: continue
        h.m(x.item, 'setText', 0, new); lab.caps[p] = new
        lab.tags(parts, 'retagged, item %d edited' % i, a)

def replaced(h, s1, s2):
    lab = Lab(h)
    a, b = build(lab, s1), build(lab, s2)
    pa, pb = lab.parts(a), lab.parts(b)
    p1 = lab.show(a, 'first')
    p2 = p1 and lab.show(b, 'second')
    if not p2: return
    lab.edit(p2, pa[1:] + pb[1:], 'second shown', b)
    p1 = lab.show(a, 'first again')
    if p1: lab.edit(p1, pa[1:] + pb[1:], 'first shown again', a)

def grown(h, shape):
    """parts added after the tree was shown"""
    lab = Lab(h)
    a = build(lab, shape)
    if lab.show(a, 'set') is None: return
    lab.t.add_obj(a, lab.t.obj(2)); lab.t.add_asm(a, lab.t.asm([lab.t.obj(1)], []))
    for o in lab.t.kids[a][0][:1]: lab.t.add_surf(o)
    pairs = lab.show(a, 'set after additions')
    if pairs: lab.edit(pairs, lab.parts(a), 'after additions', a)

def run(rep):
    for s in SHAPES:
        for pat in ('none', 'odd', 'even', 'third', 'all'):
            rep.case('%s, tags %s' % (s, pat), case, s, pat, 'set_tag')
        rep.case('%s, tags by attribute' % s, case, s, 'odd', 'attribute')
        rep.case('%s, other tags' % s, case, s, 'odd', 'other')
        rep.case('%s, grown' % s, grown, s)
        rep.case('%s, captions changed while shown' % s, retagged, s)
        for s2 in SHAPES: rep.case('%s replaced by %s' % (s, s2), replaced, s, s2)
