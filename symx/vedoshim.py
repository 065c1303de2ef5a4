"""Stand-in for vedo, vtk and PyQt5 (none is installed): what is drawn is recorded, nothing is displayed."""
import types


class Bar(object):
    visible = True

    def VisibilityOn(self):
        self.visible = True

    def VisibilityOff(self):
        self.visible = False


class Actor(object):
    def __init__(self):
        self.visible = True
        self.colours = None
        self.scalarbar = None
        self.style = {}

    def on(self):
        self.visible = True
        return self

    def off(self):
        self.visible = False
        return self

    def cmap(self, scheme=None, values=None, **kw):
        self.colours = None if values is None else list(values)
        return self

    def addScalarBar(self, *a, **kw):
        self.scalarbar = Bar()
        return self

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)

        def set(*a, **kw):
            self.style[k] = a
            return self
        return set


def point(p):
    p = tuple(p)
    return p if len(p) == 3 else p + (0,) * (3 - len(p))


class Points(Actor):
    def __init__(self, pts=(), r=4, c=None, **kw):
        Actor.__init__(self)
        self.points = [point(p) for p in pts]


class Lines(Actor):
    def __init__(self, start, end=None, c="k", **kw):
        Actor.__init__(self)
        if end is not None:
            start = list(zip(start, end))
        self.segments = [(point(a), point(b)) for a, b in start]


class Line(Lines):
    def __init__(self, p0, p1=None, **kw):
        Lines.__init__(self, [(p0, p1)] if p1 is not None else list(zip(p0[:-1], p0[1:])))


class Mesh(Actor):
    def __init__(self, data=None, c=None, **kw):
        Actor.__init__(self)
        v, f = data if data is not None else ([], [])
        self.vertices = [point(p) for p in v]
        self.faces = [tuple(x) for x in f]


class Arrows(Actor):
    def __init__(self, start, end=None, s=None, res=12, **kw):
        Actor.__init__(self)
        if end is not None:
            start = list(zip(start, end))
        self.arrows = [(point(a), point(b)) for a, b in start]


class Cone(Actor):
    def __init__(self, pos=(0, 0, 0), r=1, height=3, axis=(0, 0, 1), c="green3", res=48, **kw):
        Actor.__init__(self)
        self.pos, self.r, self.height, self.axis, self.c = point(pos), r, height, tuple(axis), c


class Text2D(Actor):
    def __init__(self, txt="", **kw):
        Actor.__init__(self)
        self.txt = txt


class Button(object):
    def __init__(self, fnc, states):
        self.fnc, self.states, self.i = fnc, list(states), 0

    def status(self, s=None):
        if s is not None:
            self.i = self.states.index(s) if isinstance(s, str) else s
        return self.states[self.i]

    def switch(self):
        self.i = (self.i + 1) % len(self.states)
        return self


class Slider(object):
    def __init__(self, fnc):
        self.fnc, self.v = fnc, None

    def GetRepresentation(self):
        return self

    def GetValue(self):
        return self.v

    def slide(self, v):
        self.v = v
        self.fnc(self, "event")


class Plotter(object):
    def __init__(self, *a, **kw):
        self.buttons, self.sliders, self.shown, self.actors = [], [], [], []
        self.camera = None

    def addButton(self, fnc, states=("On", "Off"), **kw):
        b = Button(fnc, states)
        self.buttons.append(b)
        return b

    def addSlider2D(self, fnc, xmin=0, xmax=1, value=None, **kw):
        s = Slider(fnc)
        self.sliders.append(s)
        return s

    def addCallback(self, *a, **kw):
        return 1

    def show(self, *a, **kw):
        out = []
        for x in a:
            out.extend(x if isinstance(x, (list, tuple)) else [x])
        self.shown = [x for x in out if x is not None]
        if kw.get("camera") is not None:
            self.camera = kw["camera"]
        return self

    def remove(self, *a, **kw):
        return self

    def add(self, *a, **kw):
        return self

    def interactive(self):
        return self

    def close(self):
        return self

    def render(self):
        return self


TOP = ("vedo", "vtk", "vtkmodules", "PyQt5")


def make(name):
    m = types.ModuleType(name)
    m.__path__ = []
    top = name.split(".")[0]
    if top == "vedo":
        m.__dict__.update(Points=Points, Line=Line, Lines=Lines, Mesh=Mesh, Arrows=Arrows, Cone=Cone, Text2D=Text2D, Plotter=Plotter,
                          printc=lambda *a, **kw: None, histogram=lambda *a, **kw: Actor())
    elif top == "PyQt5":
        class Widget(object):
            def __init__(self, *a, **kw):
                pass
        q = m if name != "PyQt5" else types.ModuleType("PyQt5.Qt")
        for k in "QMainWindow QFrame QGridLayout QPushButton QApplication QWidget QVBoxLayout".split():
            setattr(q, k, Widget)
        q.pyqtSlot = lambda *a, **kw: lambda f: f
        if name == "PyQt5":
            for k in ("Qt", "QtWidgets", "QtCore", "QtGui"):
                setattr(m, k, q)
    else:
        m.QVTKRenderWindowInteractor = object
    return m


def get(world, name):
    for i in range(1, name.count(".") + 2):
        n = ".".join(name.split(".")[:i])
        if n not in world:
            world[n] = make(n)
            if i > 1:
                setattr(world[n.rpartition(".")[0]], n.rpartition(".")[2], world[n])
    return world[name]


def install(modules):
    for n in ("vedo", "vedo.pyplot", "PyQt5", "PyQt5.Qt", "PyQt5.QtWidgets", "PyQt5.QtCore", "PyQt5.QtGui", "vtk", "vtk.qt", "vtk.qt.QVTKRenderWindowInteractor"):
        get(modules, n)
