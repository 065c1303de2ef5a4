"""Stand-in for ezdxf: a drawing is a list of entities with layers, saved and read as one file."""
import copy
import types


class DXFError(Exception):
    pass


class DXFStructureError(DXFError):
    pass


class DXFAttributeError(AttributeError, DXFError):
    pass


class Vec3(object):
    __slots__ = ("x", "y", "z")
    __hash__ = None

    def __init__(self, *a):
        if len(a) == 1:
            a = tuple(a[0])
        if len(a) == 2:
            a = a + (0.0,)
        if len(a) != 3:
            raise TypeError("invalid arguments")
        for v in a:
            if isinstance(v, (str, bytes, list, tuple)) or v is None:
                raise TypeError("must be real number, not %s" % type(v).__name__)
        self.x, self.y, self.z = a

    @property
    def xyz(self):
        return self.x, self.y, self.z

    def __iter__(self):
        return iter(self.xyz)

    def __len__(self):
        return 3

    def __getitem__(self, i):
        return self.xyz[i]

    def __eq__(self, o):
        o = Vec3(o)
        return bool(self.x == o.x) and bool(self.y == o.y) and bool(self.z == o.z)

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        return Vec3(*[a + b for a, b in zip(self, Vec3(o))])

    def __sub__(self, o):
        return Vec3(*[a - b for a, b in zip(self, Vec3(o))])

    def __mul__(self, k):
        return Vec3(*[a * k for a in self])
    __rmul__ = __mul__

    def __truediv__(self, k):
        return Vec3(*[a / k for a in self])

    def __neg__(self):
        return self * -1


POINTS = ("start", "end", "location", "center", "insert", "vtx0", "vtx1", "vtx2", "vtx3")


class NS(object):
    def __init__(self, **kw):
        self.__dict__["_d"] = {"layer": "0"}
        for k, v in kw.items():
            setattr(self, k, v)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        try:
            return self._d[k]
        except KeyError:
            raise DXFAttributeError(k)

    def __setattr__(self, k, v):
        self._d[k] = Vec3(v) if k in POINTS else v

    def __deepcopy__(self, memo):
        n = NS()
        n._d.update(self._d)
        return n

    def get(self, k, default=None):
        return self._d.get(k, default)

    def set(self, k, v):
        setattr(self, k, v)

    def hasattr(self, k):
        return k in self._d


class Entity(object):
    def __init__(self, kind, dxfattribs, **kw):
        self.kind = kind
        self.dxf = NS(**dict(dxfattribs or {}, **kw))

    def dxftype(self):
        return self.kind


class Layout(object):
    def __init__(self):
        self.es = []

    def _add(self, kind, dxfattribs, **kw):
        e = Entity(kind, dxfattribs, **kw)
        self.es.append(e)
        return e

    def add_line(self, start, end, dxfattribs=None):
        return self._add("LINE", dxfattribs, start=start, end=end)

    def add_point(self, location, dxfattribs=None):
        return self._add("POINT", dxfattribs, location=location)

    def add_circle(self, center, radius, dxfattribs=None):
        return self._add("CIRCLE", dxfattribs, center=center, radius=radius)

    def add_text(self, text, dxfattribs=None, **kw):
        return self._add("TEXT", dxfattribs, text=text, insert=(0, 0, 0))

    def add_3dface(self, points, dxfattribs=None):
        p = [Vec3(v) for v in points]
        if len(p) not in (3, 4):
            raise DXFError("3 or 4 points")
        return self._add("3DFACE", dxfattribs, vtx0=p[0], vtx1=p[1], vtx2=p[2], vtx3=p[-1])

    def delete_entity(self, e):
        self.es.remove(e)

    def query(self, q="*"):
        q = q.split()
        return [e for e in self.es if "*" in q or e.kind in q]

    def __iter__(self):
        return iter(list(self.es))

    def __len__(self):
        return len(self.es)

    def __getitem__(self, i):
        return self.es[i]


class Table(object):
    def __init__(self):
        self.names = ["0", "Defpoints"]

    def add(self, name, **kw):
        self.names.append(name)
    new = add

    def __contains__(self, n):
        return n in self.names


class Drawing(object):
    def __init__(self, fs, filename=None):
        self.fs = fs
        self.filename = filename
        self.layers = Table()
        self._m = Layout()
        self.units = 0
        self.header = {}

    def modelspace(self):
        return self._m

    def saveas(self, filename, **kw):
        p = self.fs.ab(filename)
        self.fs.open(filename, "w").close()
        self.fs.files[p] = [("dxf", copy.deepcopy(self._m))]
        self.filename = filename

    def save(self, **kw):
        self.saveas(self.filename)


def get(world, name):
    m = types.ModuleType(name)
    fs = world.fs
    m.DXFError, m.DXFStructureError = DXFError, DXFStructureError

    def readfile(filename, **kw):
        p = fs.ab(filename)
        fs.open(filename, "r").close()
        c = fs.files[p]
        if not (isinstance(c, list) and c and c[0][0] == "dxf"):
            raise DXFStructureError("not a DXF file")
        d = Drawing(fs, filename)
        d._m = copy.deepcopy(c[0][1])
        return d
    m.readfile = readfile
    m.new = lambda dxfversion="R2013", setup=False, units=6: Drawing(fs)
    m.Vec3 = Vec3
    return m
