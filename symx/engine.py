"""Symbolic scalars, path exploration and solver queries.

Semantics: a float of the program is an exact real number.  A symbolic real is
a quotient of polynomials over atoms (inputs, square roots, ...).  Branches on
symbolic conditions fork the path (by re-execution); every branch direction and
every claim is decided by Z3 under the path condition.
"""
import math
import numbers
import os
import random
import threading
import time
from fractions import Fraction

import z3

from .poly import Poly, ZERO, ONE, RULES, TooLarge


class Unsupported(BaseException):
    """the code did something the encoding does not cover: no answer"""


class PathEnd(BaseException):
    """this path is infeasible or cut"""


class Budget(BaseException):
    """exploration budget exhausted: no answer"""


class FloatFault(ArithmeticError):
    """the real code would produce inf/nan here"""


# ---------------------------------------------------------------- atoms ----

def run_check(s, ms):
    """solver check with a limit that is enforced"""
    s.set("timeout", int(ms))
    tm = threading.Timer(ms / 1000.0 * 1.3 + 0.5, z3.main_ctx().interrupt)
    tm.daemon = True
    tm.start()
    try:
        return s.check()
    except z3.Z3Exception:
        return z3.unknown
    finally:
        tm.cancel()


class Atom(object):
    __slots__ = ("i", "name", "kind", "z", "defs", "ev", "key")

    def __init__(self, i, name, kind, defs=(), ev=None, key=None):
        self.i = i
        self.name = name
        self.kind = kind
        self.z = z3.Real(name)
        self.defs = list(defs)
        self.ev = ev
        self.key = key


ATOMS = []
_BYKEY = {}


def new_atom(name, kind, key=None, ev=None):
    if key is not None and key in _BYKEY:
        return _BYKEY[key], False
    a = Atom(len(ATOMS), name + "!%d" % len(ATOMS) if kind != "input" else name, kind, ev=ev, key=key)
    ATOMS.append(a)
    if key is not None:
        _BYKEY[key] = a
    return a, True


def pz3(p):
    """polynomial -> z3 term"""
    if p._z is not None:
        return p._z
    if p.is_const():
        z = _q(p.const_value())
    else:
        terms = []
        for m in sorted(p.t):
            c = p.t[m]
            fs = []
            if c != 1 or not m:
                fs.append(_q(c))
            for a, e in m:
                v = ATOMS[a].z
                if e == 1:
                    fs.append(v)
                else:
                    fs.extend([v] * e)
            terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
        z = terms[0] if len(terms) == 1 else z3.Sum(*terms)
    p._z = z
    return z


def _q(c):
    c = Fraction(c)
    return z3.RealVal("%d/%d" % (c.numerator, c.denominator))


def to_frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, numbers.Integral):
        return Fraction(int(x))
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        raise FloatFault("non-finite value %r" % x)
    return Fraction(repr(x))


# ----------------------------------------------------------------- Sym -----

class Sym(object):
    """a real number: num / prod(den factor ** exponent)"""
    __slots__ = ("n", "d")
    __array_priority__ = -1.0

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}

    # -- construction
    @staticmethod
    def const(c):
        return Sym(Poly.const(to_frac(c)))

    def is_const(self):
        return not self.d and self.n.is_const()

    def value(self):
        return Fraction(self.n.const_value())

    # -- arithmetic
    @staticmethod
    def lift(o):
        if isinstance(o, Sym):
            return o
        if isinstance(o, SymBool):
            return o.as_sym()
        if isinstance(o, (int, float, Fraction)) or isinstance(o, numbers.Real):
            return Sym(Poly.const(to_frac(o)))
        import numpy as np
        if isinstance(o, np.bool_):
            return Sym(Poly.const(int(o)))
        if isinstance(o, np.ndarray) and o.ndim == 0:
            return Sym.lift(o.item())
        return None

    def _denpoly(self, but=None):
        r = ONE
        for f, e in self.d.items():
            k = e - (but.get(f, 0) if but else 0)
            for _ in range(k):
                r = r.mul(f)
        return r

    def __add__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        if o.n.is_zero():
            return self
        if self.n.is_zero():
            return o
        if self.d == o.d:
            return _mk(self.n.add(o.n), self.d)
        lcm = dict(self.d)
        for f, e in o.d.items():
            if lcm.get(f, 0) < e:
                lcm[f] = e
        a = self.n
        b = o.n
        for f, e in lcm.items():
            for _ in range(e - self.d.get(f, 0)):
                a = a.mul(f)
            for _ in range(e - o.d.get(f, 0)):
                b = b.mul(f)
        return _mk(a.add(b), lcm)

    __radd__ = __add__

    def __neg__(self):
        return Sym(self.n.neg(), self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        if self.n.is_zero() or o.n.is_zero():
            return Sym(ZERO)
        if not self.d and not o.d:
            return Sym(self.n.mul(o.n))
        d = dict(self.d)
        for f, e in o.d.items():
            d[f] = d.get(f, 0) + e
        # cancel whole numerators against factors of the other side first
        a, b = self.n, o.n
        a, d = _cancel_whole(a, d)
        b, d = _cancel_whole(b, d)
        return _mk(a.mul(b), d)

    __rmul__ = __mul__

    def inverse(self):
        """1/self; the caller has dealt with self == 0"""
        if self.n.is_const():
            return _mk(self._denpoly(), {}).scale(Fraction(1) / self.n.const_value())
        num = self._denpoly()
        n, lc = self.n.monic()
        num = num.scale(Fraction(1) / lc)
        d = {}
        mc = n.mono_content()
        if mc:
            n = n.div_mono(mc)
            for a, e in mc:
                if a in RULES:           # 1/r = r / r**2
                    for _ in range(e):
                        num = num.mul(Poly.atom(a))
                        r, c = RULES[a].monic()
                        num = num.scale(Fraction(1) / c)
                        rc = r.mono_content()
                        if rc:
                            r = r.div_mono(rc)
                            for b, k in rc:
                                f = Poly.atom(b)
                                d[f] = d.get(f, 0) + k
                        if r != ONE:
                            d[r] = d.get(r, 0) + 1
                else:
                    f = Poly.atom(a)
                    d[f] = d.get(f, 0) + e
        if not n.is_const():
            n, c = n.monic()
            num = num.scale(Fraction(1) / c)
            d[n] = d.get(n, 0) + 1
        else:
            num = num.scale(Fraction(1) / n.const_value())
        return _mk(num, d)

    def scale(self, c):
        return Sym(self.n.scale(c), self.d)

    def __truediv__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        return _div(self, o)

    def __rtruediv__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        return _div(o, self)

    def __floordiv__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        q = _div(self, o)
        return sx_floor(q)

    def __rfloordiv__(self, o):
        return Sym.lift(o).__floordiv__(self)

    def __mod__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        return self - o * (self // o)

    def __rmod__(self, o):
        return Sym.lift(o).__mod__(self)

    def __pow__(self, o, mod=None):
        e = Sym.lift(o)
        if e is None:
            return NotImplemented
        return sx_pow_sym(self, e)

    def __rpow__(self, o):
        b = Sym.lift(o)
        if b is None:
            return NotImplemented
        return sx_pow_sym(b, self)

    def __abs__(self):
        return sx_abs(self)

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, float) and o in (math.inf, -math.inf):
            return (o > 0) == (op in ("<", "<="))
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        return compare(self, o, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        try:
            l = Sym.lift(o)
        except FloatFault:
            return False
        if l is None:
            return NotImplemented
        return compare(self, l, "==")

    def __ne__(self, o):
        try:
            l = Sym.lift(o)
        except FloatFault:
            return True
        if l is None:
            return NotImplemented
        return compare(self, l, "!=")

    def __hash__(self):
        if self.is_const():
            return hash(self.value())
        return hash((self.n, frozenset(self.d.items())))

    def __bool__(self):
        return bool(compare(self, Sym(ZERO), "!="))

    # -- conversions
    def __float__(self):
        if self.is_const():
            return float(self.value())
        raise Unsupported("a symbolic real is needed as a machine float")

    def __int__(self):
        if self.is_const():
            return int(self.value())
        raise Unsupported("a symbolic real is needed as an integer")

    __trunc__ = __int__

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __round__(self, n=None):
        if self.is_const():
            r = round(self.value(), n) if n else round(self.value())
            return Sym.const(r) if n is not None else int(r)
        return sx_round(self, n or 0)

    def __floor__(self):
        return math.floor(self.value()) if self.is_const() else sx_floor(self)

    def __ceil__(self):
        return math.ceil(self.value()) if self.is_const() else -sx_floor(-self)

    def __format__(self, spec):
        if self.is_const():
            try:
                return format(float(self.value()), spec)
            except Exception:
                return str(float(self.value()))
        return "<symbolic>"

    def __repr__(self):
        if self.is_const():
            return repr(float(self.value()))
        return "<sym %s>" % sym_str(self)

    __str__ = __repr__

    # -- what numpy's object ufuncs call
    def sqrt(self):
        return sx_sqrt(self)

    def sin(self):
        return sx_sin(self)

    def cos(self):
        return sx_cos(self)

    def tan(self):
        return sx_sin(self) / sx_cos(self)

    def tanh(self):
        return sx_fn("tanh", self)

    def exp(self):
        return sx_fn("exp", self)

    def log(self):
        return sx_fn("log", self)

    def arccos(self):
        return sx_fn("arccos", self)

    def arcsin(self):
        return sx_fn("arcsin", self)

    def arctan(self):
        return sx_fn("arctan", self)

    def conjugate(self):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def is_integer(self):
        return self.is_const() and self.value().denominator == 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def T(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def fabs(self):
        return sx_abs(self)

    def square(self):
        return self * self


numbers.Real.register(Sym)


def sym_str(s, limit=6):
    def ps(p):
        out = []
        for k, (m, c) in enumerate(p.t.items()):
            if k >= limit:
                out.append("...")
                break
            out.append("%s%s" % (c, "".join("*%s%s" % (ATOMS[a].name, "" if e == 1 else "^%d" % e) for a, e in m)))
        return "(" + " + ".join(out or ["0"]) + ")"
    t = ps(s.n)
    for f, e in s.d.items():
        t += "/" + ps(f) + ("^%d" % e if e > 1 else "")
    return t


def _cancel_whole(n, d):
    """if the numerator is a multiple of a denominator factor, cancel it"""
    if not d or len(n.t) < 2:
        return n, d
    for f in list(d):
        if len(f.t) > 1 and len(f.t) <= len(n.t) <= 4 * len(f.t):
            q = n.exact_div(f)
            if q is not None:
                d = dict(d)
                d[f] -= 1
                if not d[f]:
                    del d[f]
                n = q
    return n, d


def _mk(n, d):
    """normalise n/d a little: cancel monomials and whole factors"""
    if n.is_zero():
        return Sym(ZERO)
    if not d:
        return Sym(n)
    mono = {f: e for f, e in d.items() if len(f.t) == 1 and [e for m in f.t for _, e in m] == [1]}
    if mono:
        mc = dict(n.mono_content())
        if mc:
            cut = {}
            nd = dict(d)
            for f in mono:
                (m,) = f.t
                a = m[0][0]
                k = min(mc.get(a, 0), nd[f])
                if k:
                    cut[a] = k
                    nd[f] -= k
                    if not nd[f]:
                        del nd[f]
            if cut:
                n = n.div_mono(tuple(sorted(cut.items())))
                d = nd
    changed = True
    while changed and d:
        changed = False
        for f in list(d):
            if len(f.t) > 1 and len(n.t) >= len(f.t):
                q = n.exact_div(f)
                if q is not None:
                    d = dict(d)
                    d[f] -= 1
                    if not d[f]:
                        del d[f]
                    n = q
                    changed = True
    return Sym(n, d)


def _div(a, b):
    if b.is_const():
        v = b.value()
        if v == 0:
            raise FloatFault("division by zero")
        return a.scale(Fraction(1) / v)
    if not known_nonzero(b):
        cx = ctx()
        if cx is not None and bool(compare(b, Sym(ZERO), "==")):
            raise FloatFault("division by zero")
        if cx is not None:
            cx.nonzero.add(b.n)
    return a * b.inverse()


def known_nonzero(b):
    cx = ctx()
    if cx is None:
        return True
    return b.n in cx.nonzero or b.n.neg() in cx.nonzero


# -------------------------------------------------------------- SymBool ----

class SymBool(object):
    """a condition: a Z3 term and, for choosing witnesses, a numeric evaluator"""
    __slots__ = ("z", "f", "diff")
    __array_priority__ = -1.0

    def __init__(self, z, f=None, diff=None):
        self.z = z
        self.f = f
        self.diff = diff          # (difference, its sign where the condition holds)

    def __bool__(self):
        return decide(self)

    def __and__(self, o):
        return sb_and(self, o)

    __rand__ = __and__
    __mul__ = __and__
    __rmul__ = __and__

    def __or__(self, o):
        return sb_or(self, o)

    __ror__ = __or__
    __add__ = __or__
    __radd__ = __or__

    def __invert__(self):
        return sb_not(self)

    def logical_not(self):
        return sb_not(self)

    def __xor__(self, o):
        return sb_not(sb_iff(self, o))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)) or type(o).__name__ in ("bool_", "bool"):
            return sb_iff(self, o)
        if isinstance(o, Sym):
            return self.as_sym() == o
        if isinstance(o, int):
            return sb_iff(self, o == 1) if o in (0, 1) else False
        return False

    def __ne__(self, o):
        return sb_not(self.__eq__(o))

    def __hash__(self):
        return hash(self.z)

    def as_sym(self):
        return Sym.const(1 if decide(self) else 0)

    def __int__(self):
        return 1 if decide(self) else 0

    __index__ = __int__

    def __float__(self):
        return 1.0 if decide(self) else 0.0

    def item(self):
        return self

    def copy(self):
        return self

    def all(self):
        return self

    def any(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<bool %s>" % str(self.z)[:60]


def zb(x):
    if isinstance(x, SymBool):
        return x.z
    return z3.BoolVal(bool(x))


def fb(x):
    """numeric evaluator of a condition (True/False, or None when too close to call)"""
    if isinstance(x, SymBool):
        return x.f if x.f is not None else _nof
    v = bool(x)
    return lambda ev: v


def _nof(ev):
    return None


def mk_bool(z, f=None, diff=None):
    if not (z3.is_true(z) or z3.is_false(z)):
        z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z, f, diff)


def sb_and(*xs):
    if any(x is False for x in xs):
        return False
    xs = [x for x in xs if x is not True]
    if len(xs) == 1:
        return xs[0]
    fs = [fb(x) for x in xs]

    def f(ev):
        r = True
        for g in fs:
            v = g(ev)
            if v is False:
                return False
            if v is None:
                r = None
        return r
    return mk_bool(z3.And(*[zb(x) for x in xs]), f)


def sb_or(*xs):
    if any(x is True for x in xs):
        return True
    xs = [x for x in xs if x is not False]
    if len(xs) == 1:
        return xs[0]
    fs = [fb(x) for x in xs]

    def f(ev):
        r = False
        for g in fs:
            v = g(ev)
            if v is True:
                return True
            if v is None:
                r = None
        return r
    return mk_bool(z3.Or(*[zb(x) for x in xs]), f)


def sb_not(x):
    if isinstance(x, SymBool):
        g = fb(x)

        def f(ev):
            v = g(ev)
            return None if v is None else not v
        return mk_bool(z3.Not(x.z), f, x.diff and (x.diff[0], -x.diff[1]))
    return not x


def sb_iff(a, b):
    fa, f2 = fb(a), fb(b)

    def f(ev):
        x, y = fa(ev), f2(ev)
        return None if x is None or y is None else x == y
    return mk_bool(zb(a) == zb(b), f)


def sb_implies(a, b):
    return sb_or(sb_not(a), b)


def _odd_den(d):
    r = ONE
    for f, e in d.items():
        if e % 2:
            r = r.mul(f)
    return r


def compare(a, b, op):
    """a op b as a bool or a SymBool (denominators are nonzero on this path)"""
    diff = a - b
    if diff.n.is_const() and not diff.d:
        v = diff.value()
        return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[op]
    note_atoms(diff)
    n = diff.n
    f = _cmp_eval(diff, op)
    if op in ("==", "!="):
        z = pz3(n) == 0
        return mk_bool(z if op == "==" else z3.Not(z), f)
    if diff.d:
        for fac, e in diff.d.items():
            if e % 2:
                s = sign_of(fac)
                if s == 1:
                    continue
                if s == -1:
                    n = n.neg()
                    continue
                n = n.mul(fac)
    n = _drop_positive(n)
    z = pz3(n)
    return mk_bool({"<": z < 0, "<=": z <= 0, ">": z > 0, ">=": z >= 0}[op], f, (diff, -1 if op[0] == "<" else 1))


def _cmp_eval(diff, op):
    def f(ev):
        try:
            v, mag = ev.sym_mag(diff)
        except (KeyError, ZeroDivisionError, OverflowError, ValueError):
            return None
        if abs(v) <= 1e-10 * mag:
            return None if op not in ("==", "!=") or mag > 0 and abs(v) > 1e-13 * mag else op == "=="
        return {"<": v < 0, "<=": v < 0, ">": v > 0, ">=": v > 0, "==": False, "!=": True}[op]
    return f


def _drop_positive(n):
    """divide out common atoms known to be positive"""
    cx = ctx()
    if cx is None or n.is_zero():
        return n
    mc = [(a, e) for a, e in n.mono_content() if a in cx.positive_atoms]
    if mc:
        n = n.div_mono(tuple(mc))
    return n


def sign_of(p):
    """1/-1 if the polynomial has that sign on the whole path, 0 if not known"""
    cx = ctx()
    if p.is_const():
        return 1 if p.const_value() > 0 else -1
    if cx is None:
        return 0
    if len(p.t) == 1:
        (m,), (c,) = p.t.keys(), p.t.values()
        if all(a in cx.positive_atoms or e % 2 == 0 for a, e in m):
            return 1 if c > 0 else -1
    if p in cx.signs:
        return cx.signs[p]
    s = 0
    if all(c > 0 and all(a in cx.positive_atoms or e % 2 == 0 for a, e in m) for m, c in p.t.items()):
        # nonnegative; as a path denominator it is nonzero
        s = 1
        if p not in cx.nonzero and not any(all(a in cx.positive_atoms for a, e in m) for m in p.t):
            s = 0
    if s == 0:
        z = pz3(p)
        note_poly(p)
        if cx.check(z <= 0, quick=True) == z3.unsat:
            s = 1
        elif cx.check(z >= 0, quick=True) == z3.unsat:
            s = -1
    cx.signs[p] = s
    return s


# -------------------------------------------------------- context / paths --

_CTX = [None]


def ctx():
    return _CTX[0]


def note_poly(p):
    cx = ctx()
    if cx is not None:
        for a in p.atoms():
            cx.use(a)


def note_atoms(s):
    cx = ctx()
    if cx is None:
        return
    for a in s.n.atoms():
        cx.use(a)
    for f in s.d:
        for a in f.atoms():
            cx.use(a)


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.discharged = 0
        self.cuts = 0
        self.unknown = 0
        self.obl_log = []
        self.raised = []
        self.forks = 0


class Violation(object):
    def __init__(self, harness, what, values, detail=""):
        self.harness = harness
        self.what = what
        self.values = values
        self.detail = detail


class PathCtx(object):
    """one path of one harness"""
    concrete = False

    def __init__(self, prefix, stats, opts):
        self.prefix = prefix
        self.trace = []
        self.stats = stats
        self.opts = opts
        self.used = set()
        self.pc = []
        self.nonzero = set()
        self.signs = {}
        self.positive_atoms = set()
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("branch_ms", 4000))
        self.solver.set("random_seed", opts.get("seed", 0))
        self.inputs = {}          # name -> (kind, payload, lo, hi)
        self.order = []
        self.fs = {}
        self.zero_cut = opts.get("generic_zero", False)
        self.claims = 0
        self.eq_forks = 0         # coincidences branched on so far
        self.thin = tuple(prefix) in opts.get("thin", ())
        self.nominal = {}         # input name -> (kind, lo, hi): where witnesses are looked for
        self.hard = {}
        self.nonneg_cache = set()
        rng = random.Random(opts.get("seed", 0))
        self.alive = [Ev(rng=random.Random(rng.random()), cx=self, special=k % 4 == 3)
                      for k in range(opts.get("samples", 24))]
        self.conds = []
        self.seeks = 0
        w = opts.get("wit", {}).pop(tuple(prefix), None)
        if w is not None:
            self.alive.append(Ev(w, rng=random.Random(rng.random()), cx=self))

    # -- bookkeeping
    def use(self, i):
        if i in self.used:
            return
        self.used.add(i)
        a = ATOMS[i]
        for dep_def in a.defs:
            z = dep_def(self) if callable(dep_def) else dep_def
            if z is not None:
                self.solver.add(z)
                self.pc.append(z)
        if i in RULES:
            for k in RULES[i].atoms():
                self.use(k)

    def add(self, z):
        self.pc.append(z)
        self.solver.add(z)

    def witnesses(self, sb):
        f = fb(sb)
        t, n = [], []
        for ev in self.alive:
            v = f(ev)
            if v is True:
                t.append(ev)
            elif v is False:
                n.append(ev)
        return t, n

    def take(self, sb, v):
        """the path continues where the condition has value v"""
        self.conds.append((fb(sb), v))
        t, n = self.witnesses(sb)
        self.alive = t if v else n
        self.add(sb.z if v else z3.Not(sb.z))

    def seek(self, sb, want):
        """a sample of this path on a side of an inequality that none is on yet"""
        if sb.diff is None or not self.alive or self.seeks > 400:
            return None
        d, s = sb.diff
        s = s if want else -s
        f = fb(sb)
        rng = random.Random(self.seeks)
        self.seeks += 1
        end = time.time() + 0.5

        def probe(ev, i, x):
            e = Ev({a: v for a, v in ev.v.items() if ATOMS[a].kind == "input"}, rng=ev.rng, cx=self)
            e.v[i] = x
            try:
                return e, s * e.sym(d)
            except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                return e, None

        def fits(e):
            return f(e) is want and all(g(e) is v for g, v in self.conds)
        for ev in self.alive[:3]:
            ins = [i for i in ev.v if ATOMS[i].kind == "input" and self.nominal.get(ATOMS[i].name, ("",))[0] == "real"]
            base = probe(ev, -1, 0)[1]
            rng.shuffle(ins)
            for i in ins:
                if time.time() > end:
                    return None
                v = ev.v[i]
                y = probe(ev, i, v * 1.01 + 0.01)[1]
                if base is None or y is None or y == base:
                    continue
                kind, lo, hi = self.nominal[ATOMS[i].name]
                hl, hh, nz = self.hard.get(ATOMS[i].name, (None, None, False))
                xs = [lo + (hi - lo) * k / 8 for k in range(9)] + [v * 10.0 ** k for k in (-6, -3, -1, 1, 3, 6)]
                if nz != "pos" and (hl is None or hl < 0):
                    xs += [0.0, -v]
                lo, hi = (float(hl) if hl is not None else 1e-9 if nz == "pos" else None), float(hh) if hh is not None else None
                xs = sorted(set(x for x in xs + [v] if (lo is None or x >= lo) and (hi is None or x <= hi)))
                best = [(p[1], x, p[0]) for x in xs for p in [probe(ev, i, x)] if p[1] is not None]
                if not best:
                    continue
                k = max(range(len(best)), key=lambda k: best[k][0])
                if best[k][0] <= 0:
                    # narrow down around the best
                    a, b = best[max(k - 1, 0)][1], best[min(k + 1, len(best) - 1)][1]
                    for _ in range(50):
                        u, w = a + (b - a) * 0.382, a + (b - a) * 0.618
                        pu, pw = probe(ev, i, u), probe(ev, i, w)
                        if pu[1] is None or pw[1] is None:
                            break
                        if max(pu[1], pw[1]) > 0:
                            best.append((pu[1], u, pu[0]) if pu[1] > 0 else (pw[1], w, pw[0]))
                            break
                        a, b = (a, w) if pu[1] > pw[1] else (u, b)
                for y, x, e in best:
                    if y > 0 and fits(e):
                        return e
        return None

    def check(self, *extra, quick=False, side=None):
        """satisfiability of the path with extra facts"""
        t = time.time()
        if extra:
            # facts over the query's own variables often settle it
            want = set()
            for e in extra:
                want |= zvars(e)
            near = [p for p in self.pc if zvars(p) <= want]
            s = z3.Solver()
            s.add(*near)
            s.add(*extra)
            r = run_check(s, 700)
            self.stats.queries += 1
            if r == z3.unsat or len(near) == len(self.pc) and r == z3.sat:
                self.stats.solver_s += time.time() - t
                if r == z3.sat and side is not None:
                    ev = self.seek(*side)
                    if ev is not None:
                        self.alive.append(ev)
                return r
            if side is not None:
                ev = self.seek(*side)
                if ev is not None:
                    self.alive.append(ev)
                    return z3.sat
        self.solver.push()
        try:
            for e in extra:
                self.solver.add(e)
            r = run_check(self.solver, self.opts.get("quick_ms", 1000) if quick else self.opts.get("branch_ms", 2500))
        finally:
            self.solver.pop()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unknown and not quick:
            # the incremental solver gives up on nonlinear problems early; ask nlsat
            t = time.time()
            s = z3.Tactic("qfnra-nlsat").solver()
            s.add(*self.pc)
            s.add(*extra)
            r = run_check(s, self.opts.get("branch_ms", 2500))
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t
        return r


_VARS = {}


def zvars(z):
    """names of the variables of a term"""
    k = z.get_id()
    if k in _VARS and _VARS[k][0].eq(z):
        return _VARS[k][1]
    out = set()
    seen = set()
    st = [z]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        st.extend(x.children())
    _VARS[k] = (z, out)
    return out


def decide(sb):
    cx = ctx()
    if cx is None:
        raise Unsupported("symbolic branch outside a path")
    z = sb.z
    k = len(cx.trace)
    if k < len(cx.prefix):
        c = cx.prefix[k]
        v = bool(c & 1)
        cx.eq_forks += c > 1
        cx.trace.append(c)
        cx.take(sb, v)
        return v
    if time.time() > cx.opts["deadline"]:
        raise Budget("time")
    wt, wf = cx.witnesses(sb)
    # an equality that may hold only by coincidence: both sides, but not for
    # ever more of them on one path (code that looks for zeros entry by entry)
    fine = _thin(z, False)
    eq = fine or _thin(z, True)
    spent = eq and (cx.zero_cut or cx.eq_forks >= cx.opts.get("eq_forks", 7))
    if spent and (wf if fine else wt):
        v = not fine
        cx.stats.cuts += 1
        cx.trace.append(v)
        cx.take(sb, v)
        return v
    can_t = z3.sat if wt else cx.check(z, side=(sb, True))
    if can_t == z3.unsat:
        # the path so far is feasible, so the other side is
        can_f = z3.sat
        if not cx.alive and cx.check() == z3.unsat:
            raise PathEnd("infeasible")
    else:
        can_f = z3.sat if wf else cx.check(z3.Not(z), side=(sb, False))
    if can_t == z3.unsat:
        v = False
    elif can_f == z3.unsat:
        v = True
    elif spent:
        v = not fine
        cx.stats.cuts += 1
    else:
        # follow the side most witnesses take first
        v = len(wt) >= len(wf)
        code = 2 if eq else 0
        other = cx.trace + [code + (not v)]
        cx.opts["todo"].append(other)
        if cx.thin or eq and v != fine:
            cx.opts["thin"].add(tuple(other))
        wt, wf = cx.witnesses(sb)
        wo = wf if v else wt
        if wo:
            cx.opts.setdefault("wit", {})[tuple(other)] = \
                {a: x for a, x in wo[0].v.items() if ATOMS[a].kind == "input"}
        cx.stats.forks += 1
        cx.eq_forks += eq
        cx.thin = cx.thin or eq and v == fine
        cx.trace.append(code + v)
        cx.take(sb, v)
        return v
    cx.trace.append(v)
    cx.take(sb, v)
    return v


def _thin(z, neg):
    """the term (or its negation) holds only where some equation does"""
    if z3.is_not(z):
        return _thin(z.arg(0), not neg)
    if z3.is_and(z) or z3.is_or(z):
        f = any if z3.is_and(z) != neg else all
        return f(_thin(c, neg) for c in z.children())
    if neg:
        return z3.is_distinct(z)
    return z3.is_eq(z) and z3.is_arith(z.arg(0))


# ------------------------------------------------------------- functions ---

def sx_abs(x):
    x = Sym.lift(x)
    if x.is_const():
        return Sym.const(abs(x.value()))
    s = sign_of(x.n) if len(x.n.t) == 1 else _cheap_sign(x.n)
    sd = 1
    unk = {}
    for f, e in x.d.items():
        if e % 2:
            t = sign_of(f)
            if t == 0:
                unk[f] = e
            else:
                sd *= t
    if s and not unk:
        return x if s * sd > 0 else -x
    if unk:
        # |n/d| : absorb the unknown-sign factors into the numerator
        q = x.n
        den = dict(x.d)
        for f, e in unk.items():
            q = q.mul(f)
            den[f] = e + 1
        return (_abs_poly(q) * Sym(ONE, den)).scale(sd)
    return (_abs_poly(x.n) * Sym(ONE, x.d)).scale(sd)


def _cheap_sign(p):
    cx = ctx()
    if cx is None:
        return 0
    if p in cx.signs:
        return cx.signs[p]
    if all(all(a in cx.positive_atoms or e % 2 == 0 for a, e in m) for m in p.t):
        if all(c > 0 for c in p.t.values()):
            return 1
        if all(c < 0 for c in p.t.values()):
            return -1
    return 0


def _abs_poly(p):
    if p.is_const():
        return Sym.const(abs(Fraction(p.const_value())))
    p1, c = p.monic()
    # take positive monomial content out
    cx = ctx()
    out = Sym.const(abs(Fraction(c)))
    if cx is not None:
        mc = tuple((a, e) for a, e in p1.mono_content() if a in cx.positive_atoms)
        if mc:
            p1 = p1.div_mono(mc)
            out = out * Sym(Poly({mc: 1}))
    a, new = new_atom("abs", "abs", ("abs", p1), ev=lambda ev, p1=p1: abs(ev(p1)))
    if new:
        sq = p1.mul(p1)
        RULES[a.i] = sq
        a.defs = [lambda c, p1=p1: (note_poly(p1), None)[1],
                  z3.And(a.z >= 0, z3.Or(a.z == pz3(p1), a.z == -pz3(p1)))]
    return out * Sym(Poly.atom(a.i))


def _isqrt_frac(v):
    if v < 0:
        return None
    a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
    if a * a == v.numerator and b * b == v.denominator:
        return Fraction(a, b)
    return None


_SQF = {}


def _sqf(p):
    """p = c * prod f_i**e_i  (square-free decomposition via sympy)"""
    if p in _SQF:
        return _SQF[p]
    import sympy
    atoms = sorted(p.atoms())
    gens = [sympy.Symbol("a%d" % a) for a in atoms]
    idx = {a: k for k, a in enumerate(atoms)}
    d = {}
    for m, c in p.t.items():
        e = [0] * len(atoms)
        for a, k in m:
            e[idx[a]] = k
        d[tuple(e)] = sympy.Rational(Fraction(c).numerator, Fraction(c).denominator)
    P = sympy.Poly.from_dict(d, *gens)
    c, fs = P.sqf_list()
    out = []
    for f, e in fs:
        t = {}
        for mon, co in f.terms():
            t[tuple((atoms[k], x) for k, x in enumerate(mon) if x)] = _nf(Fraction(int(co.p), int(co.q)))
        out.append((Poly(t), e))
    r = (Fraction(int(c.p), int(c.q)), out)
    _SQF[p] = r
    return r


def _nf(c):
    return c.numerator if c.denominator == 1 else c


def sx_sqrt(x):
    x = Sym.lift(x)
    if x is None:
        raise Unsupported("sqrt of a non-number")
    if x.is_const():
        v = x.value()
        if v < 0:
            raise FloatFault("sqrt of a negative number")
        q = _isqrt_frac(v)
        if q is not None:
            return Sym.const(q)
        return _sqrt_const(v)
    cx = ctx()
    # sign
    cs = _cheap_sign(x.n)
    if cx is not None and not (cs == 1 and all(sign_of(f) == 1 or e % 2 == 0 for f, e in x.d.items())):
        if x not in cx.nonneg_cache:
            if bool(compare(x, Sym(ZERO), "<")):
                raise FloatFault("sqrt of a negative number")
            cx.nonneg_cache.add(x)
    # move odd denominator factors up:  sqrt(n/f) = sqrt(n*f)/|f|
    n = x.n
    out = Sym(ONE)
    for f, e in x.d.items():
        if e % 2:
            n = n.mul(f)
        h = (e + 1) // 2
        af = sx_abs(Sym(f))
        for _ in range(h):
            out = out * af.inverse()
    return out * _sqrt_poly(n)


def _sqrt_const(v):
    """sqrt of a positive rational as q * (algebraic atom sqrt(squarefree integer))"""
    n, d = v.numerator, v.denominator
    m = n * d
    sq = 1
    k = 2
    mm = m
    while k * k <= mm and k < 2000:
        while mm % (k * k) == 0:
            mm //= k * k
            sq *= k
        k += 1
    r = math.isqrt(mm)
    if r * r == mm:
        return Sym.const(Fraction(sq * r, d))
    a, new = new_atom("sqrt", "sqrt", ("sqrt", mm), ev=lambda ev, mm=mm: math.sqrt(mm))
    if new:
        RULES[a.i] = Poly.const(mm)
        a.defs = [z3.And(a.z > 0, a.z * a.z == mm)]
    if ctx() is not None:
        ctx().positive_atoms.add(a.i)
    return Sym(Poly.atom(a.i)).scale(Fraction(sq, d))


def _sqrt_poly(p):
    if p.is_zero():
        return Sym(ZERO)
    if p.is_const():
        return sx_sqrt(Sym(p))
    out = Sym(ONE)
    try:
        c, fs = _sqf(p)
    except (TooLarge, Unsupported):
        raise
    except Exception:
        c, fs = Fraction(1), [(p, 1)]
    rest = ONE
    for f, e in fs:
        if e // 2:
            af = sx_abs(Sym(f))
            for _ in range(e // 2):
                out = out * af
        if e % 2:
            rest = rest.mul(f)
    if rest.is_const():
        return out * sx_sqrt(Sym.const(c * Fraction(rest.const_value())))
    rest, lc = rest.monic()
    c = c * Fraction(lc)
    if c < 0:
        rest = rest.neg()
        c = -c
    # monomial factors become their own roots
    mc = rest.mono_content()
    if mc:
        cx = ctx()
        pos = tuple((a, e) for a, e in mc if cx is not None and a in cx.positive_atoms)
        if pos:
            rest = rest.div_mono(pos)
            for a, e in pos:
                out = out * _root_atom(Poly.atom(a))
    out = out * sx_sqrt(Sym.const(c))
    if rest.is_const():
        return out * sx_sqrt(Sym.const(Fraction(rest.const_value())))
    return out * _root_atom(rest)


def _root_atom(p):
    a, new = new_atom("sqrt", "sqrt", ("sqrt", p), ev=lambda ev, p=p: math.sqrt(max(0.0, ev(p))))
    if new:
        RULES[a.i] = p
        a.defs = [lambda c, p=p: (note_poly(p), None)[1], z3.And(a.z >= 0, a.z * a.z == pz3(p))]
    return Sym(Poly.atom(a.i))


def sx_pow_sym(b, e):
    if e.is_const():
        v = e.value()
        if v.denominator == 1:
            n = int(v)
            if n >= 0:
                return _ipow(b, n)
            return _div(Sym(ONE), _ipow(b, -n))
        if v.denominator == 2 and abs(v.numerator) < 40:
            r = sx_sqrt(b)
            return sx_pow_sym(r, Sym.const(v.numerator))
    if b.is_const():
        v = b.value()
        if v == 1:
            return Sym(ONE)
        if v == 0 and e.is_const():
            return Sym(ZERO) if e.value() > 0 else _div(Sym(ONE), Sym(ZERO))
    return _pow_atom(b, e)


def _ipow(b, n):
    r = Sym(ONE)
    while n:
        if n & 1:
            r = r * b
        n >>= 1
        if n:
            b = b * b
    return r


EXPO = []


def _primes(n):
    out, p = {}, 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _pow_split(b, e):
    """b**e as a product over the prime numbers and positive variables of b, or None"""
    cx = ctx()
    if cx is None or len(b.n.t) != 1 or any(len(f.t) != 1 for f in b.d):
        return None
    parts = {}
    num, den = Fraction(1), Fraction(1)
    for poly, k in [(b.n, 1)] + [(f, -x) for f, x in b.d.items()]:
        (m, c), = poly.t.items()
        c = Fraction(c)
        if c <= 0:
            return None
        num = num * c ** k if k > 0 else num / c ** (-k)
        for a, x in m:
            if a not in cx.positive_atoms:
                return None
            parts[a] = parts.get(a, 0) + k * x
    if max(num.numerator, num.denominator) > 10 ** 8:
        return None
    prod = [(Sym.const(q), k) for q, k in _primes(num.numerator).items()]
    prod += [(Sym.const(q), -k) for q, k in _primes(num.denominator).items()]
    prod += [(Sym(Poly.atom(a)), k) for a, k in sorted(parts.items()) if k]
    if len(prod) == 1 and prod[0][1] == 1:
        return None
    r = Sym(ONE)
    for q, k in prod:
        w = _pow_atom(q, e)
        r = r * _ipow(w, k) if k > 0 else _div(r, _ipow(w, -k))
    return r


def _pow_atom(b, e):
    note_atoms(b)
    note_atoms(e)
    if bool(compare(b, Sym(ZERO), "<=")):
        raise FloatFault("power of a nonpositive base")
    for x in EXPO:
        if x is e or _same(x, e):
            e = x
            break
    else:
        EXPO.append(e)
    r = _pow_split(b, e)
    if r is not None:
        return r
    kb = (b.n, frozenset(b.d.items()))
    ke = (e.n, frozenset(e.d.items()))
    a, new = new_atom("pow", "fn", ("pow", kb, ke),
                      ev=lambda ev, b=b, e=e: ev.sym(b) ** ev.sym(e))
    if new:
        def axioms(c, a=a, b=b, e=e):
            note_atoms(b)
            note_atoms(e)
            zb1, ze = szd(b), szd(e)
            (bn, bd), (en, ed) = zb1, ze
            # sign-aware: b>0.  b<1,b=1,b>1  versus  e<0,e=0,e>0
            lt1 = zlt(b, Sym(ONE))
            gt1 = zlt(Sym(ONE), b)
            pos = zlt(Sym(ZERO), e)
            neg = zlt(e, Sym(ZERO))
            return z3.And(a.z > 0,
                          z3.Implies(z3.Or(z3.And(gt1, pos), z3.And(lt1, neg)), a.z > 1),
                          z3.Implies(z3.Or(z3.And(gt1, neg), z3.And(lt1, pos)), a.z < 1),
                          z3.Implies(z3.And(z3.Not(gt1), z3.Not(lt1)), a.z == 1),
                          z3.Implies(z3.And(z3.Not(pos), z3.Not(neg)), a.z == 1))
        a.defs = [axioms]
    cx = ctx()
    if cx is not None:
        cx.use(a.i)
        cx.positive_atoms.add(a.i)
        # monotone in the base for the same exponent
        for o in cx.__dict__.setdefault("pows", []):
            ob, oe, oa = o
            if oa is a:
                break
            if oe == ke and len(cx.pows) < 24:
                lt = zlt(b, ob)
                gt = zlt(ob, b)
                pos = zlt(Sym(ZERO), e)
                neg = zlt(e, Sym(ZERO))
                cx.add(z3.And(z3.Implies(z3.And(lt, pos), a.z < oa.z), z3.Implies(z3.And(gt, pos), a.z > oa.z),
                              z3.Implies(z3.And(lt, neg), a.z > oa.z), z3.Implies(z3.And(gt, neg), a.z < oa.z),
                              z3.Implies(z3.And(z3.Not(lt), z3.Not(gt)), a.z == oa.z)))
        else:
            cx.pows.append((b, ke, a))
    return Sym(Poly.atom(a.i))


def szd(s):
    d = ONE
    for f, e in s.d.items():
        for _ in range(e):
            d = d.mul(f)
    return pz3(s.n), pz3(d)


def zlt(a, b):
    r = compare(a, b, "<")
    return zb(r)


# trig: angles are  q0*pi + sum q_k * theta_k ; each angle atom carries a unit
ANGLES = {}      # atom index -> (unit divisor, c atom, s atom)
PI = [None]


def pi_sym():
    if PI[0] is None:
        a, _ = new_atom("pi", "const", ("pi",), ev=lambda ev: math.pi)
        a.defs = [z3.And(a.z > _q(Fraction("3.14159265358979")), a.z < _q(Fraction("3.14159265358980")))]
        PI[0] = a
    if ctx() is not None:
        ctx().positive_atoms.add(PI[0].i)
    return Sym(Poly.atom(PI[0].i))


def _angle_parts(x):
    """split into (pi multiple, {angle atom: rational}, ok)"""
    if x.d:
        return None
    pi = Fraction(0)
    parts = {}
    for m, c in x.n.t.items():
        if len(m) != 1 or m[0][1] != 1:
            return None
        a = m[0][0]
        if PI[0] is not None and a == PI[0].i:
            pi += Fraction(c)
        elif a in ANGLES:
            parts[a] = Fraction(c)
        elif ATOMS[a].kind == "input":
            make_angle(a, 2)
            parts[a] = Fraction(c)
        else:
            return None
    return pi, parts


def make_angle(i, unit):
    """register input atom i as an angle; trig of i/unit are fresh atoms (c,s)"""
    if i in ANGLES:
        return
    nm = ATOMS[i].name
    c, newc = new_atom("cos_%s_%d" % (nm, unit), "trig", ("cos", i, unit),
                       ev=lambda ev, i=i, u=unit: math.cos(ev.atom(i) / u))
    s, news = new_atom("sin_%s_%d" % (nm, unit), "trig", ("sin", i, unit),
                       ev=lambda ev, i=i, u=unit: math.sin(ev.atom(i) / u))
    if news:
        RULES[s.i] = ONE.sub(Poly.atom(c.i).mul(Poly.atom(c.i)))
        ax = z3.And(c.z * c.z + s.z * s.z == 1)
        s.defs = [ax]
        c.defs = [ax]
    ANGLES[i] = (unit, c.i, s.i)


_EXACT = None


def _exact_trig(q):
    """(cos, sin) of q*pi for denominators dividing 12"""
    q = q % 2
    k = q * 12
    if k.denominator != 1:
        return None
    k = int(k)           # angle = k * 15 degrees
    s2, s3 = sx_sqrt(Sym.const(2)), sx_sqrt(Sym.const(3))
    h = Sym.const(Fraction(1, 2))
    q4 = Sym.const(Fraction(1, 4))
    tab = {0: (Sym.const(1), Sym.const(0)),
           1: (q4 * (s2 * s3 + s2), q4 * (s2 * s3 - s2)),
           2: (h * s3, h), 3: (h * s2, h * s2)}

    def first(k):     # 0..6
        if k <= 3:
            return tab[k]
        c, s = tab[6 - k]
        return s, c
    quad, r = divmod(k, 6)
    c, s = first(r)
    for _ in range(quad % 4):
        c, s = -s, c
    return c, s


def sx_trig(x):
    """(cos x, sin x)"""
    x = Sym.lift(x)
    if x.is_const() and x.value() == 0:
        return Sym.const(1), Sym.const(0)
    p = _angle_parts(x)
    if p is not None:
        pi, parts = p
        C, S = Sym(ONE), Sym(ZERO)
        ex = _exact_trig(pi)
        ok = ex is not None
        if ok:
            C, S = ex
            for a, q in parts.items():
                unit, ci, si = ANGLES[a]
                k = q * unit
                if k.denominator != 1:
                    ok = False
                    break
                k = int(k)
                c1, s1 = Sym(Poly.atom(ci)), Sym(Poly.atom(si))
                if k < 0:
                    s1, k = -s1, -k
                c, s = Sym(ONE), Sym(ZERO)
                for _ in range(k):
                    c, s = c * c1 - s * s1, s * c1 + c * s1
                C, S = C * c - S * s, S * c + C * s
        if ok:
            note_atoms(C)
            note_atoms(S)
            return C, S
    # opaque angle: a fresh (cos, sin) pair on the unit circle
    key = (x.n, frozenset(x.d.items()))
    c, newc = new_atom("cosx", "fn", ("cosx", key), ev=lambda ev, x=x: math.cos(ev.sym(x)))
    s, news = new_atom("sinx", "fn", ("sinx", key), ev=lambda ev, x=x: math.sin(ev.sym(x)))
    if newc:
        RULES[s.i] = ONE.sub(Poly.atom(c.i).mul(Poly.atom(c.i)))
        ax = c.z * c.z + s.z * s.z == 1
        c.defs = [ax]
        s.defs = [ax]
    return Sym(Poly.atom(c.i)), Sym(Poly.atom(s.i))


def sx_cos(x):
    return sx_trig(x)[0]


def sx_sin(x):
    return sx_trig(x)[1]


TANH = []


def _ratio(q):
    """bounds of a quotient of numbers and powers of pi"""
    if q.is_const():
        return q.value(), q.value()
    at = {i for p in (q.n, *q.d) for m in p.t for i, _ in m}
    if any(ATOMS[i].key != ("pi",) for i in at):
        return None
    v = Fraction(Ev().sym(q))
    return v * (1 - Fraction(1, 10 ** 12)), v * (1 + Fraction(1, 10 ** 12))


def sx_fn(name, x):
    x = Sym.lift(x)
    if name == "tanh" and x.is_const() and x.value() == 0:
        return Sym(ZERO)
    if name == "exp" and x.is_const() and x.value() == 0:
        return Sym(ONE)
    if name == "log" and x.is_const() and x.value() == 1:
        return Sym(ZERO)
    key = (x.n, frozenset(x.d.items()))
    f = {"tanh": math.tanh, "exp": math.exp, "log": math.log, "arccos": math.acos, "arcsin": math.asin,
         "arctan": math.atan, "arctan2": math.atan}[name]
    a, new = new_atom(name, "fn", (name, key), ev=lambda ev, x=x, f=f: f(ev.sym(x)))
    if new:
        def ax(c, a=a, x=x):
            note_atoms(x)
            pos, neg = zlt(Sym(ZERO), x), zlt(x, Sym(ZERO))
            A = Sym(Poly.atom(a.i))
            if name == "tanh":
                # |tanh x| < min(1, |x|), odd; nearly equal arguments give nearly equal values
                near = []
                for b, y in TANH:
                    if b is a or b.i not in c.used:
                        continue
                    q = _ratio(x / y)
                    if q and q[0] > 0:
                        # tanh(k t) lies between k tanh(t) and tanh(t) for 0 < k < 1
                        k = min(q[0], 1 / q[1])
                        if k > Fraction(99, 100):
                            more = [] if q[0] != q[1] else [b.z <= a.z if q[0] > 1 else a.z <= b.z]
                            near += [z3.Implies(pos, z3.And(_q(k) * a.z <= b.z, _q(k) * b.z <= a.z, *more)),
                                     z3.Implies(neg, z3.And(_q(k) * a.z >= b.z, _q(k) * b.z >= a.z))]
                TANH.append((a, x))
                return z3.And(*near, a.z < 1, a.z > -1,
                              z3.Implies(pos, z3.And(a.z > 0, zlt(A, x))),
                              z3.Implies(neg, z3.And(a.z < 0, zlt(x, A))),
                              z3.Implies(z3.And(z3.Not(pos), z3.Not(neg)), a.z == 0))
            if name == "exp":
                return z3.And(a.z > 0, z3.Implies(pos, a.z > 1), z3.Implies(neg, a.z < 1))
            return z3.BoolVal(True)
        a.defs = [ax]
    note_atoms(Sym(Poly.atom(a.i)))
    return Sym(Poly.atom(a.i))


def sx_floor(x):
    """the whole number below x (as a real between x-1 and x, which every such number is)"""
    x = Sym.lift(x)
    if x.is_const():
        return Sym.const(math.floor(x.value()))
    return _whole("floor", x, math.floor, lambda a: [compare(a, x, "<="), compare(x, a + 1, "<")])


def sx_trunc(x):
    x = Sym.lift(x)
    if x.is_const():
        return Sym.const(int(x.value()))
    return sx_floor(x) if bool(compare(x, Sym(ZERO), ">=")) else -sx_floor(-x)


def sx_round(x, n=0):
    """x to n decimals"""
    x = Sym.lift(x)
    if x.is_const():
        return Sym.const(round(x.value(), n))
    p = Fraction(10) ** n
    y = x.scale(p)
    h = Fraction(1, 2)
    return _whole("round", y, round, lambda a: [compare(a, y + h, "<="), compare(y - h, a, "<=")]).scale(1 / p)


def _whole(name, x, f, bounds):
    a, new = new_atom(name, "fn", (name, x.n, frozenset(x.d.items())), ev=lambda ev: float(f(ev.sym(x))))
    A = Sym(Poly.atom(a.i))
    if new:
        def ax(c):
            note_atoms(x)
            c.used.add(a.i)
            z = bounds(A)
            for k in (-1, 0, 1, 2):
                # no whole number lies between k and k+1
                z.append(sb_or(compare(A, Sym.const(k), "<="), compare(A, Sym.const(k + 1), ">=")))
            return z3.And(*[zb(t) for t in z])
        a.defs = [ax]
    note_atoms(A)
    return A


def sx_max(xs):
    xs = [Sym.lift(x) for x in xs]
    return _extremum(xs, "max")


def sx_min(xs):
    xs = [Sym.lift(x) for x in xs]
    return _extremum(xs, "min")


def _extremum(xs, which):
    uniq = []
    cst = None
    for x in xs:
        if x.is_const():
            v = x.value()
            cst = v if cst is None else (max(cst, v) if which == "max" else min(cst, v))
        elif not any(_same(x, u) for u in uniq):
            uniq.append(x)
    if cst is not None:
        uniq.append(Sym.const(cst))
    if len(uniq) == 1:
        return uniq[0]
    c = _content(uniq)
    if c is not None:
        return c * _extremum([u / c for u in uniq], which)
    key = (which, frozenset((u.n, frozenset(u.d.items())) for u in uniq))
    a, new = new_atom(which, "fn", key,
                      ev=lambda ev, uniq=uniq: (max if which == "max" else min)(ev.sym(u) for u in uniq))
    if new:
        def ax(c, a=a, uniq=uniq):
            for u in uniq:
                note_atoms(u)
            A = Sym(Poly.atom(a.i))
            c.used.add(a.i)
            z = [z3.Or(*[zb(compare(A, u, "==")) for u in uniq])]
            for u in uniq:
                z.append(zb(compare(A, u, ">=" if which == "max" else "<=")))
            if which == "max" and len(uniq) <= 6 and all(_is_abs(u) for u in uniq):
                # max of magnitudes against the sum of squares (often a known norm)
                sq = Sym(ZERO)
                for u in uniq:
                    sq = sq + u * u
                if len(sq.n.t) <= 12:
                    note_atoms(sq)
                    z.append(zb(compare(A * A * len(uniq), sq, ">=")))
            return z3.And(*z)
        a.defs = [ax]
    return Sym(Poly.atom(a.i))


def _content(us):
    """a common factor that is never negative, or None"""
    cx = ctx()
    pos = cx.positive_atoms if cx is not None else ()
    g, num, den = None, 0, 1
    for u in us:
        if u.n.is_zero():
            continue
        m = dict(u.n.mono_content())
        g = m if g is None else {a: min(e, m[a]) for a, e in g.items() if a in m}
        for k in u.n.t.values():
            k = Fraction(k)
            num, den = math.gcd(num, k.numerator), den * k.denominator // math.gcd(den, k.denominator)
    g = {a: e for a, e in (g or {}).items() if a in pos or ATOMS[a].kind == "sqrt"}
    if not g and num == den:
        return None
    c = Sym.const(Fraction(num, den))
    for a, e in sorted(g.items()):
        c = c * _ipow(Sym(Poly.atom(a)), e)
    return c


def _is_abs(u):
    """visibly not negative: positive coefficients over magnitudes, positive inputs and even powers"""
    c = ctx()
    pos = c.positive_atoms if c is not None else ()
    if u.d:
        return False
    for m, k in u.n.t.items():
        if k < 0:
            return False
        for i, e in m:
            if e % 2 and i not in pos and ATOMS[i].kind not in ("abs", "sqrt"):
                return False
    return True


def _same(a, b):
    d = a - b
    return d.n.is_zero()


# ------------------------------------------------------------- evaluation --

class Ev(object):
    """numeric evaluation of atoms and polynomials from input values"""

    def __init__(self, values=None, rng=None, cx=None, special=False):
        self.v = dict(values or {})      # atom index -> float
        self.special = special
        self.rng = rng
        self.cx = cx
        self.memo = {}

    def atom(self, i):
        if i not in self.v:
            a = ATOMS[i]
            if a.kind == "input" and self.rng is not None and self.cx is not None:
                kind, lo, hi = self.cx.nominal.get(a.name, ("real", -3, 3))
                v = round(self.rng.uniform(float(lo), float(hi)), 3)
                if self.special:
                    # small integers reach ties and zeros
                    hl, hh, nz = self.cx.hard.get(a.name, (None, None, False))
                    v = self.rng.choice([0, 0, 1, 1, -1, 2])
                    v = abs(v) or 1 if nz == "pos" else v or 1 if nz else v
                    v = v if hl is None or v >= hl else float(hl)
                    v = v if hh is None or v <= hh else float(hh)
                self.v[i] = v
            elif a.ev is None:
                raise KeyError(a.name)
            else:
                self.v[i] = a.ev(self)
        return self.v[i]

    def __call__(self, p):
        return self.mag(p)[0]

    def mag(self, p):
        s = 0.0
        g = 0.0
        for m, c in p.t.items():
            t = float(c)
            for a, e in m:
                t *= self.atom(a) ** e
            s += t
            g += abs(t)
        return s, g

    def sym(self, s):
        return self.sym_mag(s)[0]

    def sym_mag(self, s):
        d = 1.0
        for f, e in s.d.items():
            d *= self(f) ** e
        v, g = self.mag(s.n)
        return v / d, g / abs(d)
