"""Stand-in for numpy: real arrays of machine floats become object arrays of
symbolic reals; everything else is numpy itself."""
import types
from fractions import Fraction

import numpy as _np

from . import engine as E
from .engine import Sym, SymBool, Unsupported, FloatFault


def is_num(x):
    return isinstance(x, (Sym, SymBool, int, float, Fraction, _np.number, _np.bool_))


def lift(x):
    """a machine real (or boolean) as a symbolic real"""
    if isinstance(x, Sym):
        return x
    r = Sym.lift(x)
    if r is None:
        raise TypeError("not a number: %r" % (type(x),))
    return r


def soft_lift(x):
    """floats become symbolic constants; anything else stays"""
    if isinstance(x, (float, _np.floating)) and not isinstance(x, Sym):
        return lift(x)
    return x


def is_smat(x):
    return getattr(x, "_is_smat", False)


def obj(a):
    """as an object array; floats become symbolic reals"""
    if isinstance(a, _np.ndarray):
        if a.dtype == object:
            return a
        if a.dtype.kind == "f":
            o = _np.empty(a.shape, dtype=object)
            for i in _np.ndindex(a.shape):
                o[i] = lift(float(a[i]))
            return o
        return a.astype(object)
    if is_smat(a):
        o = _np.empty((), dtype=object)
        o[()] = a
        return o
    r = _np.array(a, dtype=object)
    return map_el(soft_lift, r)


def map_el(f, a):
    a = _np.asarray(a, dtype=object) if not isinstance(a, _np.ndarray) else a
    o = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(a.shape):
        o[i] = f(a[i])
    return o


def reals(a):
    return map_el(lift, obj(a))


def fill(shape, v):
    o = _np.empty(shape, dtype=object)
    o.fill(v)
    return o


def want_real(dtype):
    """dtypes that hold machine reals"""
    if dtype is None:
        return True
    if isinstance(dtype, type) and issubclass(dtype, (int, bool, str)) and not getattr(dtype, "_sx_float", False):
        return False
    if getattr(dtype, "_sx_float", False):
        return True
    if dtype is object:
        return False
    try:
        k = _np.dtype(dtype).kind
    except TypeError:
        return True
    if k == "c":
        raise Unsupported("complex arrays")
    return k == "f"


def real_dtype(dtype):
    """map the float stand-in to something numpy accepts"""
    if getattr(dtype, "_sx_float", False):
        return object
    return dtype


ZERO_S = Sym(E.ZERO)
ONE_S = Sym(E.ONE)


def settle(a):
    """the value of an operation whose arrays may hold python ints or floats"""
    if isinstance(a, _np.ndarray) and a.dtype.kind == "f":
        return obj(a)
    if isinstance(a, (float, _np.floating)) and not isinstance(a, Sym):
        return lift(a)
    return a


def divide(a, b):
    if is_smat(a) or is_smat(b):
        return a / b
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (_np.ndarray, Sym)):
            return a / b
        a = obj(a)
    if isinstance(b, (list, tuple)):
        b = obj(b)
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        A, B = obj(a) if isinstance(a, _np.ndarray) else a, obj(b) if isinstance(b, _np.ndarray) else b
        if isinstance(A, _np.ndarray) and isinstance(B, _np.ndarray):
            A, B = _np.broadcast_arrays(A, B)
            o = _np.empty(A.shape, dtype=object)
            for i in _np.ndindex(A.shape):
                o[i] = div1(A[i], B[i])
            return o
        if isinstance(A, _np.ndarray):
            return map_el(lambda x: div1(x, B), A)
        return map_el(lambda x: div1(A, x), B)
    if is_num(a) and is_num(b):
        return div1(a, b)
    return a / b


def div1(a, b):
    if not (is_num(a) and is_num(b)):
        return a / b
    return lift(a) / lift(b)


def power(a, b):
    if is_smat(a):
        return a ** b
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        if isinstance(b, _np.ndarray):
            A, B = _np.broadcast_arrays(obj(a) if isinstance(a, _np.ndarray) else obj([a])[0:1].reshape(()), obj(b))
            o = _np.empty(A.shape, dtype=object)
            for i in _np.ndindex(A.shape):
                o[i] = pow1(A[i], B[i])
            return o
        if a.dtype.kind in "iu" and isinstance(b, int) and b >= 0:
            return a ** b
        return map_el(lambda x: pow1(x, b), obj(a))
    if is_num(a) and is_num(b):
        return pow1(a, b)
    return a ** b


def pow1(a, b):
    if isinstance(a, int) and isinstance(b, int) and b >= 0:
        return a ** b
    return lift(a) ** lift(b)


def elementwise(f):
    def g(x, *args, out=None, **kw):
        if is_smat(x):
            return x._map(f)
        if isinstance(x, (list, tuple)):
            x = obj(x)
        if isinstance(x, _np.ndarray):
            r = map_el(lambda v: f(lift(v)), obj(x))
            if out is not None:
                out[...] = r
                return out
            return r
        return f(lift(x))
    return g


def sum_syms(xs):
    s = ZERO_S
    for x in xs:
        s = s + x
    return s


def dotv(a, b):
    s = ZERO_S
    for x, y in zip(a, b):
        s = s + lift(x) * lift(y)
    return s


def det(a):
    a = reals(a)
    n = a.shape[-1]
    if a.ndim != 2 or a.shape[0] != n:
        raise _np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    return _det(a, tuple(range(n)), tuple(range(n)), {})


def _det(a, rows, cols, memo):
    if not rows:
        return ONE_S
    key = (rows, cols)
    if key in memo:
        return memo[key]
    # expand along the first row
    s = ZERO_S
    i = rows[0]
    for k, j in enumerate(cols):
        v = a[i, j]
        if v.n.is_zero():
            continue
        m = _det(a, rows[1:], cols[:k] + cols[k + 1:], memo)
        t = v * m
        s = s + t if k % 2 == 0 else s - t
    memo[key] = s
    return s


def solve(a, b):
    """Gaussian elimination; pivots are decided on the path"""
    a = reals(a).copy()
    b = reals(b).copy()
    n = a.shape[0]
    if a.ndim != 2 or a.shape[1] != n:
        raise _np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    vec = b.ndim == 1
    if vec:
        b = b.reshape(n, 1)
    for k in range(n):
        p = None
        order = sorted(range(k, n), key=lambda i: (not a[i, k].is_const(), len(a[i, k].n.t)))
        for i in order:
            v = a[i, k]
            if v.n.is_zero():
                continue
            if v.is_const() or bool(v != 0):
                p = i
                break
        if p is None:
            raise _np.linalg.LinAlgError("Singular matrix")
        if p != k:
            a[[k, p]] = a[[p, k]]
            b[[k, p]] = b[[p, k]]
        inv = ONE_S / a[k, k]
        for j in range(k, n):
            a[k, j] = a[k, j] * inv
        for j in range(b.shape[1]):
            b[k, j] = b[k, j] * inv
        for i in range(n):
            if i != k and not a[i, k].n.is_zero():
                f = a[i, k]
                for j in range(k, n):
                    a[i, j] = a[i, j] - f * a[k, j]
                for j in range(b.shape[1]):
                    b[i, j] = b[i, j] - f * b[k, j]
    return b.reshape(n) if vec else b


def norm(x, ord=None, axis=None, keepdims=False):
    if is_smat(x):
        x = x.toarray()
    x = reals(x)
    if axis is not None:
        if x.ndim == 1:
            return norm(x, ord)
        if isinstance(axis, tuple):
            raise Unsupported("matrix norm over axes")
        r = _np.apply_along_axis
        x2 = _np.moveaxis(x, axis, -1)
        o = _np.empty(x2.shape[:-1], dtype=object)
        for i in _np.ndindex(o.shape):
            o[i] = norm(x2[i], ord)
        return _np.expand_dims(o, axis) if keepdims else o
    flat = list(x.flat)
    if ord is None or (ord == 2 and x.ndim == 1) or ord == "fro":
        q = sum_syms([v * v for v in flat])
        if E.ctx() is not None:
            E.ctx().nonneg_cache.add(q)        # a sum of squares
        return E.sx_sqrt(q)
    if x.ndim == 1:
        if ord == 1:
            return sum_syms([E.sx_abs(v) for v in flat])
        if ord == _np.inf:
            return E.sx_max([E.sx_abs(v) for v in flat])
        if ord == -_np.inf:
            return E.sx_min([E.sx_abs(v) for v in flat])
    raise Unsupported("norm of order %r" % (ord,))


def _reduce(which):
    def g(a, axis=None, out=None, **kw):
        if is_smat(a):
            a = a.toarray()
        b = obj(a)
        if not isinstance(a, _np.ndarray) or a.dtype == object or a.dtype.kind == "f":
            if axis is None:
                xs = list(b.flat)
                if not xs:
                    raise ValueError("zero-size array to reduction operation")
                if all(isinstance(x, (int, _np.integer)) for x in xs):
                    return (max if which == "max" else min)(xs)
                return E._extremum([lift(x) for x in xs], which)
            m = _np.moveaxis(b, axis, -1)
            o = _np.empty(m.shape[:-1], dtype=object)
            for i in _np.ndindex(o.shape):
                o[i] = g(m[i])
            return o
        return getattr(_np, which)(a, axis=axis, **kw)
    return g


def _isclose1(a, b, rtol, atol):
    a, b = lift(a), lift(b)
    return E.compare(E.sx_abs(a - b), lift(atol) + lift(rtol) * E.sx_abs(b), "<=")


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if is_num(a) and is_num(b):
        return _isclose1(a, b, rtol, atol)
    r = _closes(a, b, rtol, atol)
    out = _np.empty(r.shape, dtype=bool)
    for i in _np.ndindex(r.shape):
        out[i] = bool(r[i])
    return out


def _closes(a, b, rtol, atol):
    A, B = _np.broadcast_arrays(obj(a), obj(b))
    o = _np.empty(A.shape, dtype=object)
    for i in _np.ndindex(A.shape):
        o[i] = _isclose1(A[i], B[i], rtol, atol)
    return o


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = _closes(a if not is_num(a) else [a], b if not is_num(b) else [b], rtol, atol)
    r = E.sb_and(*list(r.flat)) if r.size else True
    return bool(r)


def arange(*a, **kw):
    dtype = kw.pop("dtype", None)
    a = list(a)
    for k in ("start", "stop", "step"):
        if k in kw:
            raise Unsupported("arange keywords")
    if all(isinstance(x, (int, _np.integer)) for x in a):
        r = _np.arange(*a)
        return r if not (dtype is not None and want_real(dtype)) else reals(r)
    if len(a) == 1:
        start, stop, step = ZERO_S, lift(a[0]), ONE_S
    else:
        start, stop = lift(a[0]), lift(a[1])
        step = lift(a[2]) if len(a) > 2 else ONE_S
    cnt = (stop - start) / step
    if not cnt.is_const():
        raise Unsupported("arange with a symbolic count")
    v = cnt.value()
    n = max(0, -((-v.numerator) // v.denominator))
    o = _np.empty(n, dtype=object)
    for i in range(n):
        o[i] = start + step * i
    return o


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    start, stop = lift(start), lift(stop)
    num = int(num)
    div = (num - 1) if endpoint else num
    o = _np.empty(num, dtype=object)
    step = (stop - start) / div if div > 0 else ZERO_S
    for i in range(num):
        o[i] = start + step * i
    return (o, step) if retstep else o


def convolve(a, v, mode="full", method="auto"):
    a, v = list(reals(a)), list(reals(v))
    n, k = len(a), len(v)
    o = _np.empty(n + k - 1, dtype=object)
    for i in range(n + k - 1):
        t = ZERO_S
        for j in range(max(0, i - k + 1), min(n, i + 1)):
            t = t + a[j] * v[i - j]
        o[i] = t
    if mode == "full":
        return o
    if mode == "valid":
        return o[min(n, k) - 1:max(n, k)]
    if mode == "same":
        s = (k - 1) // 2
        return o[s:s + n]
    raise Unsupported("convolve mode")


def never(name):
    def f(*a, **kw):
        raise Unsupported(name)
    return f


def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("interp with a period")
    xp, fp = list(reals(xp)), list(reals(fp))

    def one(v):
        v = lift(v)
        if v <= xp[0]:
            return fp[0] if left is None or v == xp[0] else lift(left)
        for k in range(1, len(xp)):
            if v <= xp[k]:
                return fp[k - 1] + (fp[k] - fp[k - 1]) * (v - xp[k - 1]) / (xp[k] - xp[k - 1])
        return fp[-1] if right is None else lift(right)
    if isinstance(x, (list, tuple, _np.ndarray)):
        return map_el(one, obj(x))
    return one(x)


def where(c, *ab):
    if not ab:
        if isinstance(c, _np.ndarray) and c.dtype == object:
            c = _np.array([bool(v) for v in c.flat]).reshape(c.shape)
        return _np.where(c)
    a, b = ab
    if not isinstance(c, _np.ndarray) and not isinstance(c, (list, tuple)):
        c = obj([c])[0:1].reshape(())
    C, A, B = _np.broadcast_arrays(obj(c), obj(a) if not is_num(a) else obj([a]).reshape(()),
                                   obj(b) if not is_num(b) else obj([b]).reshape(()))
    o = _np.empty(C.shape, dtype=object)
    for i in _np.ndindex(C.shape):
        o[i] = A[i] if bool(C[i]) else B[i]
    return o if o.shape else o[()]


def sign1(x):
    x = lift(x)
    if x > 0:
        return ONE_S
    if x < 0:
        return -ONE_S
    return ZERO_S


def make_numpy(world):
    m = _NP("numpy")
    m.__dict__["_world"] = world
    d = m.__dict__
    d["__path__"] = []

    def zeros(shape, dtype=None, order=None, **kw):
        return fill(shape, ZERO_S) if want_real(dtype) else _np.zeros(shape, dtype=real_dtype(dtype))

    def ones(shape, dtype=None, order=None, **kw):
        return fill(shape, ONE_S) if want_real(dtype) else _np.ones(shape, dtype=real_dtype(dtype))

    def empty(shape, dtype=None, order=None, **kw):
        # uninitialised memory: an arbitrary real each
        if not want_real(dtype):
            return _np.empty(shape, dtype=real_dtype(dtype))
        o = _np.empty(shape, dtype=object)
        for i in _np.ndindex(o.shape):
            o[i] = world.fresh("empty")
        return o

    def fromiter(it, dtype=None, count=-1, **kw):
        l = list(it) if count < 0 else [x for x, _ in zip(it, range(count))]
        return reals(l) if want_real(dtype) else _np.array(l, dtype=real_dtype(dtype))
    d["fromiter"] = fromiter

    def full(shape, v, dtype=None, **kw):
        if dtype is None and not isinstance(v, (Sym, float)):
            return _np.full(shape, v)
        return fill(shape, lift(v)) if want_real(dtype) else _np.full(shape, v, dtype=real_dtype(dtype))

    def like(mk):
        def g(a, dtype=None, **kw):
            if is_smat(a):
                raise Unsupported("like of a sparse matrix")
            a = a if isinstance(a, _np.ndarray) else array(a)
            if dtype is None and a.dtype.kind in "iub":
                dtype = a.dtype
            return mk(a.shape, dtype)
        return g

    def eye(n, M=None, k=0, dtype=None, **kw):
        r = _np.eye(int(n), M, k)
        return obj(r) if want_real(dtype) else r.astype(real_dtype(dtype))

    def array(x, dtype=None, copy=True, ndmin=0, subok=False, **kw):
        if is_smat(x):
            return obj(x)
        if isinstance(x, _np.ndarray):
            if dtype is None:
                r = x.copy() if copy else x
                r = settle(r)
            elif want_real(dtype):
                r = reals(x)
            else:
                r = to_dtype(x, dtype)
        else:
            if dtype is not None and dtype is not object and want_real(dtype):
                r = reals(_np.array(_plain(x), dtype=object) if not is_num(x) else _np.array(x, dtype=object))
            elif dtype is not None:
                r = _np.array(_plain(x), dtype=object)
                r = to_dtype(r, dtype)
            else:
                r = _np.array(_plain(x))
                if r.dtype == object:
                    r = map_el(soft_lift, r)
                r = settle(r)
                if r.dtype == object and r.size and all(isinstance(v, bool) or isinstance(v, SymBool) for v in r.flat):
                    pass
                elif r.dtype == object and r.size and any(isinstance(v, Sym) for v in r.flat) \
                        and all(is_num(v) for v in r.flat):
                    r = reals(r)
        while r.ndim < ndmin:
            r = r[None]
        return r

    def asarray(x, dtype=None, **kw):
        if isinstance(x, _np.ndarray) and (dtype is None or (x.dtype == object and want_real(dtype))):
            return settle(x)
        return array(x, dtype)

    d.update(zeros=zeros, ones=ones, empty=empty, full=full, eye=eye, array=array, asarray=asarray,
             asanyarray=asarray, ascontiguousarray=asarray,
             zeros_like=like(zeros), ones_like=like(ones), empty_like=like(zeros),
             full_like=lambda a, v, dtype=None, **kw: full(_np.shape(a), v, dtype))
    d["identity"] = eye
    d["arange"] = arange
    d["linspace"] = linspace
    d["convolve"] = convolve
    d["interp"] = interp
    d["isclose"] = isclose
    d["allclose"] = allclose
    d["where"] = where
    d["sqrt"] = elementwise(E.sx_sqrt)
    d["sin"] = elementwise(E.sx_sin)
    d["cos"] = elementwise(E.sx_cos)
    d["tan"] = elementwise(lambda x: E.sx_sin(x) / E.sx_cos(x))
    for f in ("tanh", "exp", "log", "arccos", "arcsin", "arctan"):
        d[f] = elementwise(lambda x, f=f: E.sx_fn(f, x))
    d["log10"] = elementwise(lambda x: E.sx_fn("log", x) / E.sx_fn("log", lift(10)))
    d["abs"] = d["absolute"] = d["fabs"] = elementwise_abs
    d["square"] = elementwise(lambda x: x * x)
    d["sign"] = elementwise(sign1)
    d["floor"] = elementwise(E.sx_floor)
    d["ceil"] = elementwise(lambda x: -E.sx_floor(-x))
    d["trunc"] = d["fix"] = elementwise(E.sx_trunc)
    d["rint"] = elementwise(E.sx_round)
    d["round"] = d["around"] = d["round_"] = lambda x, decimals=0, out=None: \
        elementwise(lambda v: E.sx_round(v, decimals))(x, out=out)
    d["mod"] = d["remainder"] = two(lambda a, b: a % b, _np.mod)
    d["floor_divide"] = two(lambda a, b: a // b, _np.floor_divide)
    d["fmod"] = two(lambda a, b: a - b * E.sx_trunc(a / b), _np.fmod)
    d["deg2rad"] = d["radians"] = elementwise(lambda x: x * E.pi_sym() / 180)
    d["rad2deg"] = d["degrees"] = elementwise(lambda x: x * 180 / E.pi_sym())
    d["hypot"] = lambda a, b: E.sx_sqrt(lift(a) * lift(a) + lift(b) * lift(b)) if is_num(a) and is_num(b) else \
        elementwise(E.sx_sqrt)(obj(a) * obj(a) + obj(b) * obj(b))
    d["max"] = d["amax"] = _reduce("max")
    d["min"] = d["amin"] = _reduce("min")
    d["maximum"] = two(lambda a, b: E.sx_max([a, b]), _np.maximum)
    d["minimum"] = two(lambda a, b: E.sx_min([a, b]), _np.minimum)
    for k in ("maximum", "minimum"):
        d[k].reduce = lambda a, axis=0, red=_reduce(k[:3]), **kw: red(a, axis=axis)
    d["copysign"] = two(copysign)

    def bincount(x, weights=None, minlength=0):
        if weights is None:
            return _np.bincount(x, minlength=minlength)
        x, w = _np.asarray(x, int), reals(weights)
        o = fill(max(minlength, int(x.max()) + 1 if x.size else 0), ZERO_S)
        for i, v in zip(x, w):
            o[i] = o[i] + v
        return o
    d["bincount"] = bincount
    d["fmax"], d["fmin"] = d["maximum"], d["minimum"]
    d["clip"] = lambda x, lo, hi, **kw: d["minimum"](d["maximum"](x, lo), hi)
    d["divide"] = d["true_divide"] = lambda a, b, **kw: divide(a if is_num(a) else asarray(a),
                                                              b if is_num(b) else asarray(b))
    d["power"] = d["float_power"] = lambda a, b, **kw: power(a if is_num(a) else asarray(a), b)
    d["isnan"] = d["isinf"] = const_flag(False)
    d["isfinite"] = const_flag(True)
    d["mean"] = lambda a, axis=None, **kw: divide(_np.sum(obj(a), axis=axis),
                                                  obj(a).size if axis is None else obj(a).shape[axis])
    d["average"] = lambda a, axis=None, weights=None, **kw: d["mean"](a, axis) if weights is None else divide(
        _np.sum(obj(a) * obj(weights), axis=axis), _np.sum(obj(weights)))
    d["float64"] = d["float32"] = d["double"] = d["floating"] = world.float_cls
    d["ndarray"] = _np.ndarray
    d["nan_to_num"] = lambda x, **kw: x
    d["vectorize"] = lambda f, **kw: (lambda x: map_el(f, obj(x)))
    for nm in ("random", "fft", "testing", "ctypeslib"):
        d[nm] = _Never("numpy." + nm)
    d["linalg"] = make_linalg(world)
    d["trapezoid"] = d["trapz"] = trapz
    d["cross"] = cross
    d["dot"] = lambda a, b, out=None: dot(a, b)
    d["matmul"] = lambda a, b, **kw: dot(a, b)
    d["save"] = lambda f, a, allow_pickle=True, **kw: world.fs.np_save(f, a, allow_pickle)
    d["load"] = lambda f, mmap_mode=None, allow_pickle=False, **kw: world.fs.np_load(f, allow_pickle)
    for nm in ("savez", "savetxt", "loadtxt", "genfromtxt", "fromfile", "memmap"):
        d[nm] = _Never("numpy." + nm)
    return m


def const_flag(v):
    def g(x, *a, **kw):
        if isinstance(x, (list, tuple, _np.ndarray)):
            return _np.full(_np.shape(obj(x)), v)
        return v
    return g


def elementwise_abs(x, *a, **kw):
    if is_smat(x):
        return x._map(E.sx_abs)
    if isinstance(x, _np.ndarray):
        if x.dtype.kind in "iu":
            return _np.abs(x)
        return map_el(lambda v: E.sx_abs(lift(v)), obj(x))
    if isinstance(x, (list, tuple)):
        return map_el(lambda v: E.sx_abs(lift(v)), obj(x))
    if isinstance(x, int):
        return abs(x)
    return E.sx_abs(lift(x))


def _whole(x):
    return isinstance(x, (int, _np.integer)) or isinstance(x, _np.ndarray) and x.dtype.kind in "iu"


def copysign(a, b):
    a, b = lift(a), lift(b)
    return abs(a) if b >= 0 else -abs(a)


def two(f, real=None):
    def g(a, b, **kw):
        if real is not None and _whole(a) and _whole(b):
            return real(a, b)
        if is_num(a) and is_num(b):
            return f(lift(a), lift(b))
        A, B = _np.broadcast_arrays(obj(a) if not is_num(a) else obj([a]).reshape(()),
                                    obj(b) if not is_num(b) else obj([b]).reshape(()))
        o = _np.empty(A.shape, dtype=object)
        for i in _np.ndindex(A.shape):
            o[i] = f(lift(A[i]), lift(B[i]))
        return o
    return g


def dot(a, b):
    if is_smat(a):
        return a.dot(b)
    if is_smat(b):
        if isinstance(a, _np.ndarray) and a.ndim:
            return b.__rmatmul__(a)
        return a * b
    if is_num(a) or is_num(b):
        return a * b
    a = a if isinstance(a, _np.ndarray) else obj(a)
    b = b if isinstance(b, _np.ndarray) else obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return obj(a) * obj(b) if a.ndim or b.ndim else a[()] * b[()]
    if a.dtype.kind in "iub" and b.dtype.kind in "iub":
        return _np.dot(a, b)
    r = _np.dot(obj(a), obj(b))
    return r


def cross(a, b, axis=-1, **kw):
    a, b = obj(a), obj(b)
    if a.shape[-1] == 3 and b.shape[-1] == 3:
        a, b = _np.broadcast_arrays(a, b)
        o = _np.empty(a.shape, dtype=object)
        for i in _np.ndindex(a.shape[:-1]):
            x, y = a[i], b[i]
            o[i + (0,)] = x[1] * y[2] - x[2] * y[1]
            o[i + (1,)] = x[2] * y[0] - x[0] * y[2]
            o[i + (2,)] = x[0] * y[1] - x[1] * y[0]
        return o
    raise ValueError("Both input arrays must be (arrays of) 3-dimensional vectors")


def trapz(y, x=None, dx=1.0, axis=-1):
    y = list(obj(y))
    s = ZERO_S
    for i in range(1, len(y)):
        w = lift(dx) if x is None else lift(x[i]) - lift(x[i - 1])
        s = s + (lift(y[i]) + lift(y[i - 1])) * w / 2
    return s


def _plain(x):
    """nested sequences with 0-d arrays unwrapped"""
    if isinstance(x, (list, tuple)):
        r = [_plain(v) for v in x]
        return tuple(r) if type(x) is tuple else r
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return x[()]
    if isinstance(x, (range, map, zip, filter)) or hasattr(x, "__next__"):
        return list(x) if isinstance(x, range) else x
    return x


def to_dtype(a, dtype):
    if want_real(dtype):
        return reals(a)
    if dtype is object:
        return obj(a)
    if is_smat(a):
        return a
    kind = _np.dtype(dtype).kind
    a = obj(a)
    if kind == "b":
        out = _np.empty(a.shape, dtype=bool)
        for i in _np.ndindex(a.shape):
            out[i] = bool(a[i])
        return out
    if kind in "iu":
        if any(isinstance(v, Sym) and not v.is_const() for v in a.flat):
            return map_el(lambda v: E.sx_trunc(lift(v)), a)
        out = _np.empty(a.shape, dtype=dtype)
        for i in _np.ndindex(a.shape):
            out[i] = int(a[i])
        return out
    return a.astype(dtype)


def astype(o, *args, **kw):
    dtype = args[0] if args else kw.get("dtype")
    if isinstance(o, (Sym, SymBool)):
        if want_real(dtype):
            return lift(o)
        return bool(o) if dtype is bool else int(o)
    if isinstance(o, _np.ndarray):
        return to_dtype(o, dtype)
    return o.astype(*args, **kw)


class _Never(types.ModuleType):
    """a part of the environment the encoding does not model"""

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("%s.%s" % (self.__name__, k))


class _NP(types.ModuleType):
    def __getattr__(self, k):
        if k == "pi":
            return E.pi_sym()
        if k == "e":
            return E.sx_fn("exp", Sym(E.ONE))
        v = getattr(_np, k)
        if isinstance(v, _np.ufunc) or callable(v) and not isinstance(v, type):
            def g(*a, **kw):
                if kw.get("dtype") is not None:
                    if want_real(kw["dtype"]):
                        kw = dict(kw)
                        kw.pop("dtype")
                a = [x.toarray() if is_smat(x) else x for x in a]
                return settle(v(*a, **kw))
            for sub in ("reduce", "outer", "accumulate", "at"):
                if hasattr(v, sub):
                    setattr(g, sub, getattr(v, sub))
            return g
        return v


def make_linalg(world):
    m = _LA("numpy.linalg")
    d = m.__dict__

    def inv(a):
        a = reals(a)
        n = a.shape[0]
        return solve(a, obj(_np.eye(n)))
    def nsolve(a, b):
        a, b = reals(a), reals(b)
        if a.ndim == 2 and a.shape[0] == a.shape[1] and len(a) > 4 and not all(v.is_const() for v in a.flat):
            # large symbolic systems by the contract of the direct solver
            from . import spshim
            if b.ndim == 1:
                return spshim.contract_solve(world, a, b)
            return _np.stack([spshim.contract_solve(world, a, b[:, j]) for j in range(b.shape[1])], axis=1)
        return solve(a, b)
    d.update(norm=norm, det=det, solve=nsolve, inv=inv, LinAlgError=_np.linalg.LinAlgError, cross=cross,
             outer=lambda a, b: world.shim("numpy").outer(a, b))
    return m


class _LA(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k == "multi_dot":
            def md(xs):
                r = xs[0]
                for x in xs[1:]:
                    r = dot(r, x)
                return r
            return md
        if k == "matrix_power":
            return lambda a, n: _np.linalg.matrix_power(obj(a), n)
        f = getattr(_np.linalg, k)
        if not callable(f) or isinstance(f, type):
            return f

        def g(*a, **kw):
            # on numbers alone
            b = [x.toarray() if is_smat(x) else x for x in a]
            if any(isinstance(v, Sym) and not v.is_const() for x in b if not isinstance(x, (str, bytes)) for v in obj(x).flat):
                raise Unsupported("numpy.linalg.%s" % k)
            r = f(*[x if isinstance(x, str) or x is None else _np.array(obj(x).tolist(), float) for x in b], **kw)
            return type(r)(*map(settle, r)) if isinstance(r, tuple) and hasattr(r, "_fields") else tuple(map(settle, r)) if isinstance(r, tuple) else settle(r)
        return g
