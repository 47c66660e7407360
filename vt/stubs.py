"""Stand-ins for the GUI packages that are not installed, recording what is drawn."""
import sys
import types
from unittest import mock
from vt.pbt import Violation


class Lines(object):
    """What scalar_scatter made, later given its line connectivity."""
    def __init__(self, scene, points):
        self.scene, self.points = scene, points
        self.mlab_source = types.SimpleNamespace(dataset=types.SimpleNamespace(lines=None, points=points))
        self.removed = False

    def remove(self):
        self.removed = True
        self.scene.lines = [x for x in self.scene.lines if x is not self]


class Mesh(object):
    def __init__(self, scene, xyz, kw):
        self.scene, self.xyz, self.kw, self.cleared = scene, xyz, kw, False

    def remove(self):
        if not any(m is self for m in self.scene.meshes) and not self.cleared:
            raise Violation('a mesh was removed that is not on the scene')
        self.scene.meshes = [x for x in self.scene.meshes if x is not self]


class Pipeline(object):
    def __init__(self, scene):
        self.scene = scene

    def scalar_scatter(self, x, y, z, *a, **kw):
        return Lines(self.scene, (x, y, z))

    def surface(self, src, *a, **kw):
        if not any(src is l for l in self.scene.lines):
            self.scene.lines.append(src)
        return src

    def __getattr__(self, name):
        return lambda src, *a, **kw: src        # filters in between


class Scene(object):
    """A stand-in for an mlab scene."""
    made = []

    def __init__(self, *a, **kw):
        Scene.made.append(self)
        self.lines, self.meshes = [], []
        self.mlab = types.SimpleNamespace(pipeline=Pipeline(self), mesh=self._mesh, clf=self._clf)
        self.disable_render = False

    def _mesh(self, x, y, z, **kw):
        m = Mesh(self, (x, y, z), kw)
        self.meshes.append(m)
        return m

    def _clf(self):
        self.lines = []
        for m in self.meshes:
            m.cleared = True
        self.meshes = []


def install():
    """Make `import traits.api` etc. give stand-ins."""
    if 'mayavi.tools.mlab_scene_model' in sys.modules:
        return
    for name in ['traits', 'traits.api', 'traitsui', 'traitsui.api', 'mayavi', 'mayavi.mlab', 'mayavi.tools', 'mayavi.tools.mlab_scene_model',
                 'tvtk', 'tvtk.pyface', 'tvtk.pyface.scene_editor', 'mayavi.core', 'mayavi.core.api', 'mayavi.core.ui',
                 'mayavi.core.ui.mayavi_scene']:
        m = mock.MagicMock(name=name)
        m.__path__ = []
        sys.modules[name] = m
        if '.' in name:
            parent, child = name.rsplit('.', 1)
            setattr(sys.modules[parent], child, m)

    class Instance(object):
        """A trait: a new instance of the class for each owner."""
        def __init__(self, cls, args=None, *a, **kw):
            self.cls = cls

        def __set_name__(self, owner, name):
            self.key = '__trait_' + name

        def __get__(self, obj, owner=None):
            if obj is None:
                return self
            if self.key not in obj.__dict__:
                obj.__dict__[self.key] = self.cls()
            return obj.__dict__[self.key]

        def __set__(self, obj, v):
            obj.__dict__[self.key] = v

    class HasTraits(object):
        def __init__(self, *a, **kw):
            for c in type(self).__mro__:
                for k, x in list(vars(c).items()):
                    if isinstance(x, Instance):
                        getattr(self, k)
    api = sys.modules['traits.api']
    api.HasTraits, api.Instance = HasTraits, Instance
    sys.modules['mayavi.tools.mlab_scene_model'].MlabSceneModel = Scene


# ---------------------------------------------------------------- Qt
class Signal(object):
    def __init__(self):
        self.slots = []

    def connect(self, f):
        self.slots.append(f)

    def disconnect(self, f=None):
        self.slots = [] if f is None else [x for x in self.slots if x != f]

    def emit(self, *a):
        for f in list(self.slots):
            f(*a)


class Item(object):
    """A QTreeWidgetItem."""
    def __init__(self, *a):
        # QTreeWidgetItem([captions]), (parent), (parent, [captions]); the parent an item or the tree
        self._t, self._kids, self._tree, self._parent, self._flags = [], [], None, None, 1
        for x in a:
            if isinstance(x, (list, tuple)):
                self._t = list(x)
            elif isinstance(x, Item):
                x.addChild(self)
            elif isinstance(x, Tree):
                x.addTopLevelItem(self)

    def text(self, col):
        return self._t[col] if col < len(self._t) else ''

    def insertChild(self, i, c):
        c._parent = self
        self._kids.insert(i, c)

    def insertChildren(self, i, cs):
        for k, c in enumerate(cs):
            self.insertChild(i + k, c)

    def takeChildren(self):
        k, self._kids = self._kids, []
        for c in k:
            c._parent = None
        return k

    def data(self, col, role):
        return self.text(col)

    def setData(self, col, role, s):
        self.setText(col, s)

    def setText(self, col, s):
        while len(self._t) <= col:
            self._t.append('')
        self._t[col] = s
        t = self.treeWidget()
        if t is not None:
            t.itemChanged.emit(self, col)

    def treeWidget(self):
        return self._tree if self._parent is None else self._parent.treeWidget()

    def addChild(self, c):
        c._parent = self
        self._kids.append(c)

    def addChildren(self, cs):
        for c in cs:
            self.addChild(c)

    def child(self, i):
        return self._kids[i]

    def childCount(self):
        return len(self._kids)

    def parent(self):
        return self._parent

    def flags(self):
        return self._flags

    def setFlags(self, f):
        self._flags = f

    def setExpanded(self, x):
        pass


class Tree(object):
    """A QTreeWidget."""
    def __init__(self, *a):
        self._top = []
        self.itemChanged = Slots(self)

    def clear(self):
        for t in self._top:
            t._tree = None
        self._top = []

    def addTopLevelItem(self, i):
        i._tree = self
        self._top.append(i)

    def addTopLevelItems(self, xs):
        for i in xs:
            self.addTopLevelItem(i)

    def insertTopLevelItem(self, k, i):
        i._tree = self
        self._top.insert(k, i)

    def takeTopLevelItem(self, k):
        i = self._top.pop(k)
        i._tree = None
        return i

    def blockSignals(self, x):
        old, self.itemChanged.blocked = self.itemChanged.blocked, x
        return old

    def setHeaderHidden(self, x):
        pass

    def setHeaderLabel(self, x):
        pass

    def topLevelItem(self, i):
        return self._top[i]

    def topLevelItemCount(self):
        return len(self._top)

    def expandItem(self, i):
        pass

    def expandAll(self):
        pass


class Slots(Signal):
    """itemChanged, whose slots may take the item only or the column as well, as in PyQt."""
    def __init__(self, tree):
        Signal.__init__(self)
        self.blocked = False

    def emit(self, item, col):
        import inspect
        if self.blocked:
            return
        for f in list(self.slots):
            try:
                n = len([p for p in inspect.signature(f).parameters.values() if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)])
            except (TypeError, ValueError):
                n = 1
            f(*(item, col)[:n])


def install_qt():
    if 'PyQt4' in sys.modules:
        return
    q, core, gui = mock.MagicMock(name='PyQt4'), types.ModuleType('PyQt4.QtCore'), mock.MagicMock(name='PyQt4.QtGui')
    q.__path__ = []
    core.Qt = types.SimpleNamespace(ItemIsEditable=2, ItemIsEnabled=32, ItemIsSelectable=1)
    gui.QTreeWidgetItem, gui.QTreeWidget = Item, Tree
    q.QtCore, q.QtGui = core, gui
    sys.modules.update({'PyQt4': q, 'PyQt4.QtCore': core, 'PyQt4.QtGui': gui})
