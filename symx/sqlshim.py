"""Stand-in for sqlalchemy's declarative mapping and session over one database: rows are plain objects, a filter is evaluated on every row
(a symbolic condition forks), flush checks keys and not-null columns, commit and rollback work on snapshots, a database with a path is a file."""
import types


class SQLError(Exception):
    pass


class IntegrityError(SQLError):
    pass


class InvalidRequestError(SQLError):
    pass


class _Type(object):
    def __init__(self, *a, **kw):
        pass


def _lit(v):
    return v if isinstance(v, Expr) else Lit(v)


class Expr(object):
    __array_priority__ = 1e6
    __hash__ = object.__hash__

    def _b(f):
        return (lambda s, o: Op(f, s, _lit(o))), (lambda s, o: Op(f, _lit(o), s))
    __add__, __radd__ = _b(lambda a, b: a + b)
    __sub__, __rsub__ = _b(lambda a, b: a - b)
    __mul__, __rmul__ = _b(lambda a, b: a * b)
    __truediv__, __rtruediv__ = _b(lambda a, b: a / b)
    __lt__, __gt__ = _b(lambda a, b: a < b)[0], _b(lambda a, b: a > b)[0]
    __le__, __ge__ = _b(lambda a, b: a <= b)[0], _b(lambda a, b: a >= b)[0]
    __eq__, __ne__ = _b(lambda a, b: a == b)[0], _b(lambda a, b: a != b)[0]

    def __neg__(self):
        return Op(lambda a: -a, self)

    def __and__(self, o):
        return And([self, o])

    def __or__(self, o):
        return Or([self, o])

    def between(self, a, b):
        return And([self >= a, self <= b])

    def is_(self, v):
        return Op(lambda a: a is v, self)

    isnot = is_not = lambda self, v: Op(lambda a: a is not v, self)

    def in_(self, vs):
        vs = list(vs)
        return Op(lambda a: a in vs, self)

    def desc(self):
        return Order(self, True)

    def asc(self):
        return Order(self, False)

    def __bool__(self):
        raise TypeError("Boolean value of this clause is not defined")


class Order(object):
    def __init__(self, e, down):
        self.e, self.down = e, down


class Lit(Expr):
    def __init__(self, v):
        self.v = v

    def on(self, row):
        return self.v


class Attr(Expr):
    """a column of a class, used in a query"""

    def __init__(self, cls, key):
        self.cls, self.key = cls, key

    def on(self, row):
        return row.__dict__["_cols"].get(self.key)


class Op(Expr):
    def __init__(self, f, *args):
        self.f, self.args = f, args

    def on(self, row):
        v = [a.on(row) for a in self.args]
        if any(x is None for x in v):
            return None              # NULL
        return self.f(*v)


class And(Expr):
    def __init__(self, parts):
        self.parts = parts

    def on(self, row):
        for p in self.parts:
            if not _truth(p.on(row)):
                return False
        return True


class Or(Expr):
    def __init__(self, parts):
        self.parts = parts

    def on(self, row):
        return any(_truth(p.on(row)) for p in self.parts)


def _truth(v):
    return False if v is None else bool(v)


class ForeignKey(object):
    def __init__(self, target, *a, **kw):
        self.table, _, self.col = target.rpartition(".")


class Column(object):
    def __init__(self, *a, **kw):
        a = list(a)
        self.name = a.pop(0) if a and isinstance(a[0], str) else None
        self.fk = next((x for x in a if isinstance(x, ForeignKey)), None)
        self.pk = kw.get("primary_key", False)
        self.nullable = kw.get("nullable", not self.pk)
        self.default = kw.get("default")
        self.key = None

    def __set_name__(self, owner, key):
        self.key = key
        if self.name is None:
            self.name = key

    def __get__(self, obj, cls):
        if obj is None:
            return Attr(cls, self.key)
        return obj.__dict__["_cols"].get(self.key)

    def __set__(self, obj, v):
        obj.__dict__["_cols"][self.key] = v


class Backref(object):
    def __init__(self, name, **kw):
        self.name, self.kw = name, kw


class Relationship(object):
    def __init__(self, target, backref=None, uselist=None, foreign_keys=None, back_populates=None, cascade="", **kw):
        self.cascade = [c.strip() for c in cascade.split(",")]
        self.target, self.uselist, self.fks = target, uselist, foreign_keys
        self.ref = Backref(backref) if isinstance(backref, str) else backref
        self.owner = self.key = None
        self.reverse = False

    def __set_name__(self, owner, key):
        self.owner, self.key = owner, key

    def ends(self):
        """(class with the foreign key, its column, the class referred to, that class's column)"""
        reg = self.owner._reg
        t = reg.cls(self.target)
        pairs = [(self.owner, t), (t, self.owner)] if self.fks else [(t, self.owner), (self.owner, t)]
        for a, b in pairs:
            for c in a._columns.values():
                if c.fk is not None and c.fk.table == b.__tablename__ and (not self.fks or any(c is f for f in self.fks)):
                    return a, c, b, next(d for d in b._columns.values() if d.name == c.fk.col)
        raise InvalidRequestError("could not determine join condition of %s.%s" % (self.owner.__name__, self.key))

    def __get__(self, obj, cls):
        if obj is None:
            return self
        pend = obj.__dict__["_rel"].get(self.key)
        s = obj.__dict__.get("_session")
        a, c, b, d = self.ends()
        if isinstance(obj, a):
            if s is None:
                return pend
            v = obj.__dict__["_cols"].get(c.key)
            s._autoflush()
            r = [x for x in s._rows(b) if v is not None and x.__dict__["_cols"].get(d.key) == v]
            return r[0] if r else None
        if s is None:
            return pend if pend is not None else ([] if self.uselist is not False else None)
        v = obj.__dict__["_cols"].get(d.key)
        s._autoflush()
        r = [x for x in s._rows(a) if x.__dict__["_cols"].get(c.key) == v]
        if self.uselist is False:
            return r[0] if r else None
        return r

    def __set__(self, obj, v):
        a, c, b, d = self.ends()
        if isinstance(obj, a):
            obj.__dict__["_rel"][self.key] = v
            obj.__dict__["_cols"][c.key] = None if v is None else v.__dict__["_cols"].get(d.key)
            return
        obj.__dict__["_rel"][self.key] = v
        for x in (v if isinstance(v, (list, tuple)) else [v]):
            if x is not None:
                x.__dict__["_cols"][c.key] = obj.__dict__["_cols"].get(d.key)
                s = obj.__dict__.get("_session")
                if s is not None:
                    s.add(x)


class MetaData(object):
    def create_all(self, engine, *a, **kw):
        engine.create()

    def drop_all(self, engine, *a, **kw):
        engine.store([])


class Registry(object):
    def __init__(self):
        self.classes = {}
        self.metadata = MetaData()

    def cls(self, name):
        return self.classes[name] if isinstance(name, str) else name


def declarative_base(*a, **kw):
    reg = Registry()

    class Meta(type):
        def __init__(cls, name, bases, ns):
            super().__init__(name, bases, ns)
            if "__tablename__" not in ns:
                return
            cls._reg = reg
            cls._columns = {k: v for k, v in ns.items() if isinstance(v, Column)}
            if not any(c.pk for c in cls._columns.values()):
                raise SQLError("Mapper could not assemble any primary key columns for mapped table '%s'" % cls.__tablename__)
            reg.classes[name] = cls
            for r in [v for v in ns.values() if isinstance(v, Relationship)]:
                cls._rels = getattr(cls, "_rels", []) + [r]

    class Base(object, metaclass=Meta):
        metadata = reg.metadata

        def __new__(cls, *a, **kw):
            if not getattr(reg, "ready", None) == len(reg.classes):
                configure(reg)
            o = object.__new__(cls)
            o.__dict__.update(_cols={}, _rel={}, _session=None)
            return o

        def __init__(self, **kw):
            for k, v in kw.items():
                if not hasattr(type(self), k):
                    raise TypeError("%r is an invalid keyword argument for %s" % (k, type(self).__name__))
                setattr(self, k, v)
    return Base


def configure(reg):
    reg.ready = len(reg.classes)
    for c in list(reg.classes.values()):
        for r in [v for v in vars(c).values() if isinstance(v, Relationship) and not v.reverse]:
            if r.target in reg.classes or not isinstance(r.target, str):
                r.ends()
                if r.ref is not None:
                    t = reg.cls(r.target)
                    b = Relationship(c.__name__, uselist=r.ref.kw.get("uselist"), foreign_keys=r.fks)
                    b.reverse = True
                    setattr(t, r.ref.name, b)
                    b.__set_name__(t, r.ref.name)
            else:
                raise InvalidRequestError("expression %r failed to locate a name" % r.target)


class Engine(object):
    def __init__(self, world, url):
        self.world, self.url = world, url
        self.path = url.split("///", 1)[1] if "///" in url and not url.endswith(":memory:") else None
        self.mem = []
        self.sessions = []

    def create(self):
        if self.path is not None and not self.world.fs.exists(self.path):
            self.store([])

    def store(self, rows):
        if self.path is None:
            self.mem = rows
        else:
            self.world.fs.files[self.world.fs.ab(self.path)] = ("database", rows)

    def load(self):
        if self.path is None:
            return self.mem
        p = self.world.fs.ab(self.path)
        c = self.world.fs.files.get(p)
        if c is None:
            return []
        if not (isinstance(c, tuple) and c[0] == "database"):
            raise SQLError("file is not a database")
        return c[1]

    def dispose(self):
        pass


class Session(object):
    def __init__(self, engine, autoflush=True):
        self.engine = engine
        self.open = None             # rows of the transaction, in order of insertion
        self.new, self.gone = [], []
        self.dead = False
        self.auto = autoflush
        self.known = {}

    # -- transaction
    def _begin(self):
        if self.dead:
            raise InvalidRequestError("This Session's transaction has been rolled back due to a previous exception during flush.")
        if self.open is None:
            self.open = []
            for k, (cls, cols) in enumerate(self.engine.load()):
                o = None
                for x in self.known.get(cls, []):
                    if all(x.__dict__["_key"].get(c.key) == cols.get(c.key) for c in cls._columns.values() if c.pk):
                        o = x
                        break
                if o is None:
                    o = cls.__new__(cls)
                    self.known.setdefault(cls, []).append(o)
                o.__dict__["_cols"] = dict(cols)
                o.__dict__["_session"] = self
                o.__dict__["_key"] = dict(cols)
                self.open.append(o)

    def _rows(self, cls):
        self._begin()
        return [o for o in self.open if isinstance(o, cls)]

    def _autoflush(self):
        self._begin()
        if self.auto:
            self.flush()

    def flush(self, *a):
        self._begin()
        try:
            for o in self.new:
                for c in o._columns.values():
                    if o.__dict__["_cols"].get(c.key) is None and c.default is not None:
                        o.__dict__["_cols"][c.key] = c.default() if callable(c.default) else c.default
            gone = list(self.gone)
            for o in gone:               # grows
                for r in [v for v in vars(type(o)).values() if isinstance(v, Relationship)]:
                    a, c, b, d = r.ends()
                    if isinstance(o, b) and not isinstance(o, a):
                        for x in self.open + self.new:
                            if isinstance(x, a) and not any(x is g for g in gone) and \
                                    x.__dict__["_cols"].get(c.key) == o.__dict__["_cols"].get(d.key):
                                if "all" in r.cascade or "delete" in r.cascade:
                                    gone.append(x)
                                    continue
                                if c.pk:
                                    raise AssertionError("Dependency rule on column '%s' tried to blank-out primary key column" % d.name)
                                x.__dict__["_cols"][c.key] = None
            rows = [o for o in self.open + self.new if not any(o is g for g in gone)]
            seen = {}
            for o in rows:
                cols = o.__dict__["_cols"]
                for c in o._columns.values():
                    if not c.nullable and cols.get(c.key) is None:
                        raise IntegrityError("NOT NULL constraint failed: %s.%s" % (o.__tablename__, c.name))
                k = tuple(cols.get(c.key) for c in o._columns.values() if c.pk)
                if k in seen.setdefault(type(o), set()):
                    raise IntegrityError("UNIQUE constraint failed: %s" % o.__tablename__)
                seen[type(o)].add(k)
        except BaseException:
            self._undo()
            self.dead = True
            raise
        self.open = rows
        for o in self.new:
            o.__dict__["_session"] = self
        self.new, self.gone = [], []

    def _undo(self):
        for o in self.new + (self.open or []):
            if "_key" not in o.__dict__:
                o.__dict__["_session"] = None
        self.open = None
        self.new, self.gone = [], []

    def commit(self):
        self.flush()
        self.engine.store([(type(o), dict(o.__dict__["_cols"])) for o in self.open])
        for o in self.open:
            if "_key" not in o.__dict__:
                self.known.setdefault(type(o), []).append(o)
            o.__dict__["_key"] = dict(o.__dict__["_cols"])
        self.open = None

    def rollback(self):
        self.dead = False
        self._undo()
        self._begin()

    def close(self):
        self.dead = False
        self._undo()
        self.known = {}

    def expire_all(self):
        pass

    # -- objects
    def add(self, o):
        if not hasattr(type(o), "_columns"):
            raise InvalidRequestError("Class '%s' is not mapped" % type(o).__name__)
        self._begin()
        if not any(o is x for x in self.open + self.new):
            self.new.append(o)
        self.gone = [g for g in self.gone if g is not o]

    def add_all(self, os):
        for o in os:
            self.add(o)

    def delete(self, o):
        if not hasattr(type(o), "_columns"):
            raise InvalidRequestError("Class '%s' is not mapped" % type(o).__name__)
        self._begin()
        if not any(o is x for x in self.open):
            raise InvalidRequestError("Instance is not persisted")
        if not any(o is x for x in self.gone):
            self.gone.append(o)

    def query(self, *what):
        return Query(self, what)

    def get(self, cls, key):
        return Query(self, (cls,)).get(key)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Query(object):
    def __init__(self, s, what, conds=(), order=(), lim=None):
        self.s, self.what, self.conds, self.order, self.lim = s, what, tuple(conds), tuple(order), lim
        for w in what:
            if not hasattr(w, "_columns") and not isinstance(w, Expr):
                raise SQLError("Column expression expected, got %r" % (w,))

    def _entity(self):
        w = self.what[0]
        return w if hasattr(w, "_columns") else w.cls

    def filter_by(self, **kw):
        c = self._entity()
        for k in kw:
            if k not in c._columns:
                raise InvalidRequestError('Entity namespace for "%s" has no property "%s"' % (c.__tablename__, k))
        return Query(self.s, self.what, self.conds + tuple(Attr(c, k) == v if v is not None else Attr(c, k).is_(None) for k, v in kw.items()),
                     self.order, self.lim)

    def filter(self, *conds):
        return Query(self.s, self.what, self.conds + tuple(_lit(c) for c in conds), self.order, self.lim)

    where = filter

    def order_by(self, *cols):
        return Query(self.s, self.what, self.conds, self.order + tuple(c if isinstance(c, Order) else Order(c, False) for c in cols), self.lim)

    def limit(self, n):
        return Query(self.s, self.what, self.conds, self.order, n)

    def _less(self, a, b):
        for o in self.order:
            x, y = o.e.on(a), o.e.on(b)
            if x is None or y is None:
                if x is None and y is None:
                    continue
                return (x is None) != o.down
            if bool(x < y):
                return not o.down
            if bool(y < x):
                return o.down
        return False

    def _run(self, first=False):
        self.s._autoflush()
        out = []
        for r in self.s._rows(self._entity()):
            if all(_truth(c.on(r)) for c in self.conds):
                out.append(r)
                if first and not self.order:
                    break
        if self.order:
            done = []
            for r in out:
                k = len(done)
                while k and self._less(r, done[k - 1]):
                    k -= 1
                done.insert(k, r)
            out = done
        if self.lim is not None:
            out = out[:self.lim]
        if hasattr(self.what[0], "_columns") and len(self.what) == 1:
            return out
        return [tuple(r if hasattr(w, "_columns") else w.on(r) for w in self.what) for r in out]

    def all(self):
        return self._run()

    def __iter__(self):
        return iter(self._run())

    def first(self):
        r = self._run(True)
        return r[0] if r else None

    def one(self):
        r = self._run()
        if len(r) != 1:
            raise InvalidRequestError("one() found %d rows" % len(r))
        return r[0]

    def one_or_none(self):
        r = self._run()
        if len(r) > 1:
            raise InvalidRequestError("Multiple rows were found")
        return r[0] if r else None

    def count(self):
        return len(self._run())

    def get(self, key):
        c = self._entity()
        ks = [d.key for d in c._columns.values() if d.pk]
        return self.filter_by(**dict(zip(ks, key if isinstance(key, tuple) else (key,)))).first()

    def delete(self, *a, **kw):
        n = 0
        for r in self._run():
            self.s.delete(r)
            n += 1
        self.s.flush()
        return n

    def update(self, values, *a, **kw):
        n = 0
        for r in self._run():
            for k, v in values.items():
                setattr(r, k.key if isinstance(k, Attr) else k, v)
            n += 1
        return n


def _maker(bind=None, autoflush=True, **kw):
    def make(bind=bind, **k):
        return Session(bind, k.get("autoflush", autoflush))
    return make


def get(world, name):
    m = world.shims.get(name)
    if m is not None:
        return m
    m = world.shims[name] = types.ModuleType(name)
    m.__path__ = []
    common = dict(and_=lambda *c: And([_lit(x) for x in c]), or_=lambda *c: Or([_lit(x) for x in c]),
                  not_=lambda c: Op(lambda v: not v, c), Column=Column, ForeignKey=ForeignKey, relationship=Relationship, backref=Backref,
                  declarative_base=declarative_base, sessionmaker=_maker, Session=Session, create_engine=lambda url, *a, **kw: Engine(world, url),
                  desc=lambda e: Order(e, True), asc=lambda e: Order(e, False), IntegrityError=IntegrityError, SQLAlchemyError=SQLError)
    for t in "Integer Float String Boolean Text DateTime Numeric BigInteger Date LargeBinary PickleType Enum".split():
        common[t] = _Type
    m.__dict__.update(common)
    if "." not in name:
        for sub in ("orm", "sql", "ext", "exc"):
            m.__dict__[sub] = get(world, name + "." + sub)
    elif name == "sqlalchemy.ext":
        m.declarative = get(world, name + ".declarative")
    return m
