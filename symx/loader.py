"""Loads the code under analysis from its current source with floats replaced
by exact reals, and with the environment (numpy, scipy, files) replaced by the
stand-ins of this package."""
import ast
import builtins
import os
import re
import sys
import types
import warnings
from fractions import Fraction

from . import engine as E
from . import npshim as N
from .engine import Sym, SymBool, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
_CODE = {}


def _fmt(text, args):
    """text % args, also where a number among the arguments is symbolic (a message)"""
    t = args if isinstance(args, tuple) else (args,)
    if any(isinstance(a, E.Sym) and not a.is_const() for a in t) and "*" not in text and "%(" not in text:
        it = iter(t)

        def spec(m):
            if m.group().endswith("%"):
                return m.group()
            a = next(it, None)
            return "%s" if isinstance(a, E.Sym) and not a.is_const() else m.group()
        text = re.sub(r"%[-+ #0]*\d*(?:\.\d+)?[hlL]?[a-zA-Z%]", spec, text)
    return text % args


class _T(ast.NodeTransformer):
    def visit_Constant(self, n):
        if type(n.value) is float:
            return ast.copy_location(ast.Call(ast.Name("__sx_c__", ast.Load()),
                                              [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_JoinedStr(self, n):
        return self.generic_visit(n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        f = {ast.Div: "__sx_div__", ast.Pow: "__sx_pow__"}.get(type(n.op))
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            f = "__sx_fmt__"
        if f:
            return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        f = {ast.Div: "__sx_idiv__", ast.Pow: "__sx_ipow__"}.get(type(n.op))
        if f:
            import copy
            load = copy.deepcopy(n.target)
            for x in ast.walk(load):
                if hasattr(x, "ctx") and x is load:
                    x.ctx = ast.Load()
            return ast.copy_location(ast.Assign([n.target], ast.Call(ast.Name(f, ast.Load()), [load, n.value], [])), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "astype":
            return ast.copy_location(ast.Call(ast.Name("__sx_astype__", ast.Load()),
                                              [n.func.value] + n.args, n.keywords), n)
        return n

    # patterns and annotations keep their literals
    def visit_Match(self, n):
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n


def _tolerant(n):
    """module-level computer algebra (used only to generate the kernels' source,
    never at run time) is not evaluated"""
    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.If)):
        return n
    names = sorted({x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
    h = [ast.Assign([ast.Name(k, ast.Store())], ast.Call(ast.Name("__sx_quiet__", ast.Load()), [], [])) for k in names]
    t = ast.Try([n], [ast.ExceptHandler(ast.Name("Exception", ast.Load()), None, h or [ast.Pass()])], [], [])
    return ast.copy_location(t, n)


def compiled(path, algebra=False):
    """code of the file; with algebra, None unless the file computes with sympy"""
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size, algebra)
    if key not in _CODE:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src, path)
        sym = any(isinstance(n, (ast.Import, ast.ImportFrom)) and
                  any(x.split(".")[0] == "sympy" for x in [a.name for a in n.names] + [getattr(n, "module", None) or ""])
                  for n in tree.body)
        if algebra and not sym:
            _CODE[key] = None
            return None
        if sym and not algebra:
            tree.body = [_tolerant(n) for n in tree.body]
        tree = _T().visit(tree)
        ast.fix_missing_locations(tree)
        _CODE[key] = compile(tree, path, "exec")
    return _CODE[key]


def _const(s):
    f = float(s)
    if f != f or f in (float("inf"), float("-inf")):
        return f
    return Sym.const(Fraction(s))


def _algebra():
    """the same literals and operations on expressions: exact numbers"""
    import operator
    import sympy

    def div(a, b):
        if isinstance(a, (int, Fraction)) and isinstance(b, int) and not isinstance(a, bool):
            return sympy.Rational(a, b)
        return operator.truediv(a, b)

    def ipow(a, b):
        a **= b
        return a

    def idiv(a, b):
        if isinstance(a, int):
            return div(a, b)
        a /= b
        return a
    return dict(__sx_c__=sympy.Rational, __sx_div__=div, __sx_pow__=operator.pow, __sx_idiv__=idiv, __sx_ipow__=ipow,
                __sx_astype__=lambda a, *x, **kw: a.astype(*x, **kw), __sx_fmt__=operator.mod)


def _idiv(a, b):
    import numpy as np
    r = N.divide(a, b)
    if isinstance(a, np.ndarray) and isinstance(r, np.ndarray) and r.shape == a.shape:
        if a.dtype != object:
            raise TypeError("Cannot cast ufunc 'divide' output from dtype('float64') to dtype('%s')" % a.dtype)
        a[...] = r
        return a
    return r


def _ipow(a, b):
    import numpy as np
    r = N.power(a, b)
    if isinstance(a, np.ndarray) and isinstance(r, np.ndarray) and r.shape == a.shape and a.dtype == object:
        a[...] = r
        return a
    return r


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Sym, float))

    def __subclasscheck__(cls, c):
        return c is Sym or c is cls or (isinstance(c, type) and type.__subclasscheck__(float, c))

    def __call__(cls, x=0, *a):
        if isinstance(x, str):
            return _const(x) if x.strip().lower().lstrip("+-") not in ("nan", "inf", "infinity") else float(x)
        import numpy as np
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
            x = x.reshape(-1)[0]
        if isinstance(x, (Sym, SymBool)):
            return N.lift(x)
        if x is None or isinstance(x, (list, tuple, dict)):
            raise TypeError("float() argument must be a string or a real number, not '%s'" % type(x).__name__)
        return N.lift(x)

    def __eq__(cls, o):
        return o is cls or o is float or o is Sym

    def __hash__(cls):
        return hash(float)


class FloatStandIn(metaclass=_FloatMeta):
    _sx_float = True
    __name__ = "float"

    @staticmethod
    def fromhex(s):
        return float.fromhex(s)


def _type(*a):
    if len(a) == 1:
        if isinstance(a[0], Sym):
            return FloatStandIn
        if isinstance(a[0], SymBool):
            return bool
        return type(a[0])
    return type(*a)


class _TypeMeta(type):
    def __call__(cls, *a, **kw):
        return _type(*a, **kw)

    def __instancecheck__(cls, x):
        return isinstance(x, type)


def _ext(which):
    def g(*a, **kw):
        xs = a[0] if len(a) == 1 else a
        xs = list(xs.flat if hasattr(xs, "flat") else xs)
        if any(isinstance(x, Sym) for x in xs) and not kw and xs and all(N.is_num(x) for x in xs):
            far = float("inf" if which == "max" else "-inf")
            if any(not isinstance(x, Sym) and x == far for x in xs):
                return far
            xs = [x for x in xs if isinstance(x, Sym) or x != -far]
            if all(isinstance(x, Sym) and x.is_const() or isinstance(x, int) for x in xs):
                return (max if which == "max" else min)(xs, key=lambda v: N.lift(v).value())
            return E._extremum([N.lift(x) for x in xs], which)
        return (max if which == "max" else min)(xs, **kw)
    return g


def _sum(xs, start=0):
    s = start
    for x in xs:
        s = s + x
    return s


def _round(x, n=None):
    return round(x, n) if n is not None else round(x)


class QuietUse(Exception):
    """a statement needs the value of something computer-algebra only"""


class _Quiet(object):
    """logging, plotting, ...: calls do nothing"""

    def __init__(self, name="quiet"):
        self.__dict__["_name"] = name

    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        return _Quiet(self._name + "." + k)

    def __call__(self, *a, **kw):
        return _Quiet(self._name + "()")

    def __iter__(self):
        if self._name.startswith("sympy"):
            raise QuietUse()
        return iter(())

    def __getitem__(self, k):
        return _Quiet(self._name)

    def __setitem__(self, k, v):
        pass

    def __setattr__(self, k, v):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __bool__(self):
        return True

    def __mro_entries__(self, bases):
        return (object,)

    def _arith(self, *a):
        return _Quiet(self._name)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _arith
    __pow__ = __rpow__ = __neg__ = __matmul__ = __rmatmul__ = __iadd__ = __imul__ = __itruediv__ = _arith


class _QuietModule(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        return _Quiet(self.__name__ + "." + k)


QUIET = {"matplotlib", "sympy", "pylab", "tkinter", "PIL", "mpl_toolkits", "Cython"}
PASS = {"typing", "types", "enum", "abc", "functools", "itertools", "collections", "numbers", "re", "json", "string",
        "warnings", "sys", "operator", "dataclasses", "contextlib", "datetime", "inspect", "traceback", "keyword",
        "__future__", "token", "textwrap", "bisect", "heapq", "weakref", "threading", "decimal", "fractions", "csv",
        "codecs", "struct", "hashlib", "copyreg", "builtins", "queue", "struct", "statistics_", "io_", "platform",
        "unicodedata", "locale", "ast", "gc", "argparse", "atexit", "typing_extensions", "secrets", "base64",
        "reprlib", "pprint", "concurrent", "array_"}


class World(object):
    """one fresh copy of the program"""

    def __init__(self, cx, extra_quiet=()):
        from . import fs as FSM
        self.cx = cx
        self.fs = FSM.FS()
        self.modules = {}
        self.shims = {}
        self.nfresh = {}
        self.events = []
        self.float_cls = FloatStandIn
        self.nuuid = 0
        self.loaded_files = set()
        self.kernels_used = set()
        self.overrides = {}
        self.algebra = False      # evaluate computer algebra for real

    # -- services for the stand-ins
    def fresh(self, tag, positive=False, ev=None):
        k = self.nfresh.get(tag, 0)
        self.nfresh[tag] = k + 1
        a, _ = E.new_atom("%s_%d" % (tag, k), "fresh", ("fresh", tag, k))
        a.ev = ev
        if positive:
            self.cx.add(a.z > 0)
            self.cx.positive_atoms.add(a.i)
        return Sym(E.Poly.atom(a.i))

    def axiom_zero(self, s):
        if s.n.is_zero():
            return
        E.note_atoms(s)
        self.cx.add(E.pz3(s.n) == 0)

    def assume(self, c):
        if c is True:
            return
        self.cx.add(E.zb(c))

    def log_event(self, *a):
        self.events.append(a)

    # -- imports
    def shim(self, name):
        if name in self.shims:
            return self.shims[name]
        m = self._make(name)
        self.shims[name] = m
        if m is not None and "." in name:
            par = self.shims.get(name.rpartition(".")[0])
            if par is not None:
                par.__dict__.setdefault(name.rpartition(".")[2], m)
        return m

    def _make(self, name):
        from . import fs as FSM, spshim as S
        if name in self.overrides:
            return self.overrides[name]
        if name == "numpy":
            return N.make_numpy(self)
        if name == "numpy.linalg":
            return self.shim("numpy").linalg
        if name == "scipy.sparse":
            return S.make_sparse(self)
        if name == "scipy.sparse.linalg":
            return self.shim("scipy.sparse").linalg
        if name == "scipy.linalg":
            return S.make_splin(self)
        if name in ("scipy.spatial",):
            m = N._Never(name)
            m.__dict__["__path__"] = []
            m.__dict__["transform"] = self.shim("scipy.spatial.transform")
            return m
        if name == "scipy.spatial.transform":
            m = N._Never(name)
            m.__dict__["Rotation"] = S.Rotation
            return m
        if name == "scipy":
            return S.make_scipy(self)
        if name == "scipy.signal":
            m = N._Never(name)
            m.__dict__["convolve"] = N.convolve
            return m
        if name in ("scipy.fftpack", "scipy.fft", "numpy.fft"):
            m = N._Never(name)
            for k in ("fft", "ifft", "rfft", "irfft", "fftfreq", "rfftfreq", "fftshift"):
                m.__dict__[k] = N.never(name + "." + k)
            return m
        if name == "quadpy":
            from . import quad
            return quad.make_quadpy(self)
        if name == "math":
            return make_math(self)
        if name == "os":
            self.shims["os"], self.shims["os.path"] = FSM.make_os(self.fs)
            return self.shims["os"]
        if name in ("os.path", "posixpath"):
            self.shim("os")
            return self.shims["os.path"]
        if name in ("pickle", "cPickle", "dill"):
            m = types.ModuleType("pickle")
            m.dump, m.load = self.fs.dump, self.fs.pload
            m.dumps = lambda o, *a, **kw: FSM.Blob(o)
            import copy
            m.loads = lambda b, *a, **kw: copy.deepcopy(b.obj)
            import pickle
            m.HIGHEST_PROTOCOL, m.DEFAULT_PROTOCOL = pickle.HIGHEST_PROTOCOL, pickle.DEFAULT_PROTOCOL
            m.PickleError, m.PicklingError, m.UnpicklingError = (pickle.PickleError, pickle.PicklingError,
                                                                 pickle.UnpicklingError)
            return m
        if name == "shutil":
            m = N._Never("shutil")
            m.__dict__.update(rmtree=self.fs.rmtree, copyfile=self.fs.copyfile, copy=self.fs.copyfile,
                              copy2=self.fs.copyfile, move=self.fs.rename)
            return m
        if name == "glob":
            m = types.ModuleType("glob")
            m.glob = self.fs.glob
            m.iglob = lambda p, **kw: iter(self.fs.glob(p))
            return m
        if name == "logging":
            return _QuietModule("logging")
        if name == "time":
            m = types.ModuleType("time")
            m.time = m.perf_counter = m.monotonic = m.process_time = lambda: Sym.const(0)
            m.sleep = lambda s: None
            m.ctime = lambda *a: "now"
            m.strftime = lambda *a: "now"
            return m
        if name == "uuid":
            m = types.ModuleType("uuid")

            def uid(*a):
                self.nuuid += 1
                return "uuid-%d" % self.nuuid
            m.uuid1 = m.uuid4 = uid
            return m
        if name == "copy":
            import copy
            return copy
        if name == "random":
            m = N._Never("random")
            for k in ("uniform", "random", "randint", "choice", "gauss"):
                m.__dict__[k] = N.never("random." + k)
            return m
        if name.split(".")[0] in QUIET:
            m = _QuietModule(name)
            m.__path__ = []
            if name == "sympy":
                def symbols(names, **kw):
                    ns = names.replace(",", " ").split()
                    return _Quiet("sympy." + ns[0]) if len(ns) == 1 else tuple(_Quiet("sympy." + n) for n in ns)
                m.symbols = m.var = symbols
            return m
        if name.startswith("scipy") or name.startswith("numpy"):
            m = N._Never(name)
            m.__dict__["__path__"] = []
            return m
        return None

    def mod(self, name):
        if name in self.modules:
            return self.modules[name]
        if name.split(".")[0] in ("scipy", "numpy", "quadpy"):
            return self.shim(name)
        par, _, leaf = name.rpartition(".")
        if par:
            self.mod(par)
        base = os.path.join(REPO, *name.split("."))
        pkg = False
        if os.path.isfile(os.path.join(base, "__init__.py")):
            path, pkg = os.path.join(base, "__init__.py"), True
        elif os.path.isfile(base + ".py"):
            path = base + ".py"
        elif os.path.isdir(base):
            path, pkg = None, True
        else:
            raise ModuleNotFoundError("No module named '%s'" % name)
        return self._exec(name, path, pkg, [base] if pkg else None)

    def hlib(self):
        if "hlib" not in self.modules:
            self._exec("hlib", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                                            "harness", "hlib.py"), False, None)
        return self.modules["hlib"]

    def load_file(self, name, path):
        return self._exec(name, path, False, None)

    def _exec(self, name, path, pkg, pkgpath):
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = pkgpath
        m.__dict__["__builtins__"] = self.builtins()
        m.__dict__.update(__sx_c__=_const, __sx_div__=N.divide, __sx_pow__=N.power, __sx_idiv__=_idiv, __sx_ipow__=_ipow,
                          __sx_astype__=N.astype, __sx_fmt__=_fmt, __sx_quiet__=lambda: _Quiet("sympy"))
        self.modules[name] = m
        if path:
            self.loaded_files.add(path)
            try:
                code = compiled(path, True) if self.algebra else None
                if code is None:
                    code = compiled(path)
                else:
                    import builtins as B
                    d = dict(B.__dict__, __import__=self._algebra_import)
                    d["print"] = lambda *a, **kw: None
                    m.__dict__.update(_algebra(), __builtins__=d)
                exec(code, m.__dict__)
            except BaseException:
                self.modules.pop(name, None)
                raise
        par, _, leaf = name.rpartition(".")
        if par and par in self.modules:
            setattr(self.modules[par], leaf, m)
        return m

    def _algebra_import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if not level and name.split(".")[0] in ("sympy", "numpy"):
            return builtins.__import__(name, globals, locals, fromlist, 0)
        return self._import(name, globals, locals, fromlist, level)

    def builtins(self):
        if hasattr(self, "_bi"):
            return self._bi
        d = dict(builtins.__dict__)
        d["__import__"] = self._import
        d["float"] = FloatStandIn
        d["type"] = _TypeStandIn
        d["max"], d["min"], d["sum"] = _ext("max"), _ext("min"), _sum
        d["open"] = self.fs.open
        d["print"] = lambda *a, **kw: None
        d["input"] = lambda *a: ""
        d["round"] = _round
        d["pow"] = lambda a, b, *m: N.power(a, b) if not m else pow(a, b, *m)
        self._bi = d
        return d

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        top = name.split(".")[0]
        if top == "hlib":
            return self.hlib()
        if os.path.isdir(os.path.join(REPO, top)) and top == "hyperstatic":
            m = self.mod(name)
            if not fromlist:
                return self.modules[top]
            for f in fromlist:
                if f != "*" and not hasattr(m, f) and hasattr(m, "__path__"):
                    try:
                        self.mod(name + "." + f)
                    except ModuleNotFoundError:
                        pass
                if f == "*" and hasattr(m, "__all__"):
                    for g in m.__all__:
                        if not hasattr(m, g):
                            self.mod(name + "." + g)
            return m
        if top.startswith("meta"):
            from . import ckernel
            k = ckernel.find(top)
            if k is not None:
                m = self.shims.get(top)
                if m is None:
                    m = self.shims[top] = ckernel.module(self, top, k)
                self.kernels_used.add(k)
                return m
        if top in PASS:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        if name in ("sqlalchemy",) or name.startswith("sqlalchemy."):
            from . import sqlshim
            m = sqlshim.get(self, name)
            return m if fromlist else sqlshim.get(self, "sqlalchemy")
        if top in ("vedo", "vtk", "vtkmodules", "PyQt5"):
            from . import vedoshim
            m = vedoshim.get(self.shims, name)
            return m if fromlist else self.shims[top]
        if top == "ezdxf":
            from . import dxfshim
            m = self.shims.get(top)
            if m is None:
                m = self.shims[top] = dxfshim.get(self, top)
            return m
        m = self.shim(name)
        if m is None:
            if top in ("pypardiso", "sksparse", "numba", "cupy", "pandas", "Rhino", "System", "quadprog"):
                raise ModuleNotFoundError("No module named '%s'" % name)
            raise Unsupported("import of %s" % name)
        if fromlist:
            for f in fromlist:
                if f != "*" and (name + "." + f) in ("scipy.sparse", "scipy.linalg", "scipy.spatial", "numpy.linalg",
                                                     "scipy.sparse.linalg", "scipy.spatial.transform", "os.path"):
                    m.__dict__.setdefault(f, self.shim(name + "." + f))
            return m
        parts = name.split(".")
        for k in range(1, len(parts)):
            p, c = self.shim(".".join(parts[:k])), self.shim(".".join(parts[:k + 1]))
            if not isinstance(p, _Quiet):
                p.__dict__.setdefault(parts[k], c)
        return self.shim(top)


class _TypeStandIn(type, metaclass=_TypeMeta):
    pass


def make_math(world):
    import math
    m = types.ModuleType("math")
    f1 = dict(sqrt=E.sx_sqrt, sin=E.sx_sin, cos=E.sx_cos, tan=lambda x: E.sx_sin(x) / E.sx_cos(x),
              fabs=E.sx_abs, radians=lambda x: x * E.pi_sym() / 180, degrees=lambda x: x * 180 / E.pi_sym())
    for k, f in f1.items():
        m.__dict__[k] = lambda x, f=f: f(N.lift(x))
    for k, n in dict(tanh="tanh", exp="exp", log="log", acos="arccos", asin="arcsin", atan="arctan").items():
        m.__dict__[k] = lambda x, n=n: E.sx_fn(n, N.lift(x))
    m.pi = E.pi_sym()
    m.copysign = N.copysign
    m.hypot = lambda *a: N.norm(list(a))
    m.pow = lambda a, b: N.lift(a) ** N.lift(b)
    m.floor = lambda x: math.floor(N.lift(x))
    m.ceil = lambda x: math.ceil(N.lift(x))
    m.isclose = lambda a, b, *, rel_tol=1e-9, abs_tol=0.0: bool(E.compare(
        E.sx_abs(N.lift(a) - N.lift(b)),
        E.sx_max([N.lift(rel_tol) * E.sx_max([E.sx_abs(N.lift(a)), E.sx_abs(N.lift(b))]), N.lift(abs_tol)]), "<="))
    m.isnan = m.isinf = lambda x: False
    m.isfinite = lambda x: True
    m.inf, m.nan = math.inf, math.nan
    m.fsum = lambda xs: N.sum_syms(xs)
    m.dist = lambda a, b: N.norm([x - y for x, y in zip(a, b)])
    m.prod = math.prod
    m.factorial, m.gcd, m.comb = math.factorial, math.gcd, math.comb
    return m
