"""Stand-in for scipy.sparse, scipy.sparse.linalg, scipy.spatial.transform,
scipy.linalg: sparse matrices over symbolic reals (kept dense inside), and the
linear solvers by their contract."""
import types

import numpy as _np

from . import engine as E
from . import npshim as N
from .engine import Sym, SymBool, Unsupported
from .npshim import lift, obj, reals, is_num, ZERO_S, ONE_S

_INT = (int, _np.integer)


class SMat(object):
    """a sparse matrix; `fmt` only decides what the real class would allow"""
    _is_smat = True
    __array_ufunc__ = None
    __array_priority__ = 100
    _is_array = False          # sparse *array* semantics of '*'

    def __init__(self, a, fmt, mask=None):
        self.a = a                    # dense object array
        self.fmt = fmt
        if mask is None:
            mask = _np.empty(a.shape, dtype=bool)
            for i in _np.ndindex(a.shape):
                v = a[i]
                mask[i] = not (v.n.is_zero() if isinstance(v, Sym) else v == 0)
        self.m = mask                 # stored entries
        self._trip = None

    # -- structure
    @property
    def shape(self):
        return self.a.shape

    @property
    def ndim(self):
        return 2

    @property
    def dtype(self):
        return _np.dtype(float)

    @property
    def format(self):
        return self.fmt

    def getformat(self):
        return self.fmt

    @property
    def nnz(self):
        return int(self.m.sum())

    def getnnz(self, axis=None):
        return self.nnz if axis is None else self.m.sum(axis=axis)

    def count_nonzero(self):
        return self.nnz

    def _triples(self):
        if self._trip is None:
            if self.fmt == "csc":
                c, r = _np.nonzero(self.m.T)
            else:
                r, c = _np.nonzero(self.m)
            d = _np.empty(len(r), dtype=object)
            for k in range(len(r)):
                d[k] = self.a[r[k], c[k]]
            self._trip = [r.astype(_np.int32), c.astype(_np.int32), d]
        return self._trip

    def _need(self, *fmts):
        if self.fmt not in fmts:
            raise AttributeError("'%s_matrix' object has no such attribute" % self.fmt)

    @property
    def row(self):
        self._need("coo")
        return self._triples()[0]

    @property
    def col(self):
        self._need("coo")
        return self._triples()[1]

    @property
    def coords(self):
        self._need("coo")
        return tuple(self._triples()[:2])

    @property
    def data(self):
        if self.fmt not in ("coo", "csr", "csc"):
            raise Unsupported("data of a %s matrix" % self.fmt)
        return self._triples()[2]

    @data.setter
    def data(self, v):
        r, c, _ = self._triples()
        for k in range(len(r)):
            self.a[r[k], c[k]] = v[k]
        self._trip = None

    @property
    def indices(self):
        self._need("csr", "csc")
        return self._triples()[1 if self.fmt == "csr" else 0]

    @property
    def indptr(self):
        self._need("csr", "csc")
        k = self.m.sum(axis=1 if self.fmt == "csr" else 0)
        return _np.concatenate([[0], _np.cumsum(k)]).astype(_np.int32)

    def _sync(self):
        """take back entries changed through .data/.row/.col"""
        if self._trip is None:
            return
        r, c, d = self._trip
        if self.fmt == "coo":
            a = N.fill(self.a.shape, ZERO_S)
            m = _np.zeros(self.a.shape, dtype=bool)
            for k in range(len(r)):
                i, j = int(r[k]), int(c[k])
                a[i, j] = lift(d[k]) if not m[i, j] else a[i, j] + lift(d[k])
                m[i, j] = True
            self.a, self.m = a, m
        else:
            r0, c0 = _np.nonzero(self.m) if self.fmt != "csc" else _np.nonzero(self.m.T)[::-1]
            for k in range(len(r0)):
                self.a[r0[k], c0[k]] = lift(d[k])

    # -- conversions
    def _as(self, fmt, copy=False):
        self._sync()
        return type(self)(self.a.copy(), fmt, self.m.copy())

    def tocoo(self, copy=True):
        return self if self.fmt == "coo" and not copy else self._as("coo")

    def tocsr(self, copy=False):
        return self if self.fmt == "csr" and not copy else self._as("csr")

    def tocsc(self, copy=False):
        return self if self.fmt == "csc" and not copy else self._as("csc")

    def tolil(self, copy=False):
        return self._as("lil")

    def todok(self, copy=False):
        return self._as("dok")

    def todia(self, copy=False):
        return self._as("dia")

    def tobsr(self, **kw):
        return self._as("bsr")

    def asformat(self, f, copy=False):
        return self._as(f) if f else self

    def toarray(self, *a, **kw):
        self._sync()
        return self.a.copy()

    def todense(self, *a, **kw):
        self._sync()
        return self.a.copy().view(_Mat) if False else _Dense(self.a.copy())

    @property
    def A(self):
        return self.toarray()

    def copy(self):
        return self._as(self.fmt)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, **kw):
        return self.copy()

    def transpose(self, axes=None, copy=False):
        self._sync()
        f = {"csr": "csc", "csc": "csr"}.get(self.fmt, self.fmt)
        return type(self)(self.a.T.copy(), f, self.m.T.copy())

    @property
    def T(self):
        return self.transpose()

    def conj(self, *a, **kw):
        return self.copy()

    conjugate = conj

    def getH(self):
        return self.transpose()

    @property
    def H(self):
        return self.transpose()

    def reshape(self, *shape, **kw):
        self._sync()
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return type(self)(self.a.reshape(shape).copy(), self.fmt, self.m.reshape(shape).copy())

    def diagonal(self, k=0):
        self._sync()
        return _np.diagonal(self.a, k).copy()

    def setdiag(self, v, k=0):
        self._sync()
        n = min(self.shape)
        for i in range(n):
            self.a[i, i] = lift(v if is_num(v) else v[i])
            self.m[i, i] = True
        self._trip = None

    def trace(self, offset=0):
        return N.sum_syms(self.diagonal(offset))

    def sum(self, axis=None, **kw):
        self._sync()
        if axis is None:
            return N.sum_syms(self.a.flat)
        r = _np.sum(self.a, axis=axis)
        return _Dense(r.reshape(1, -1) if axis in (0, -2) else r.reshape(-1, 1))

    def max(self, *a, **kw):
        self._sync()
        return E.sx_max(list(self.a.flat))

    def min(self, *a, **kw):
        self._sync()
        return E.sx_min(list(self.a.flat))

    def getrow(self, i):
        return self[i, :]

    def getcol(self, j):
        return self[:, j]

    def nonzero(self):
        self._sync()
        return _np.nonzero(self.m)

    def eliminate_zeros(self):
        pass

    def sum_duplicates(self):
        self._sync()
        self._trip = None

    def sort_indices(self):
        pass

    # -- elementwise
    def _map(self, f):
        self._sync()
        a = self.a.copy()
        for i in _np.ndindex(a.shape):
            if self.m[i]:
                a[i] = f(a[i])
        return type(self)(a, self.fmt if self.fmt != "coo" else "csr", self.m.copy())

    def __abs__(self):
        return self._map(E.sx_abs)

    def __neg__(self):
        return self._map(lambda x: -x)

    def power(self, n, dtype=None):
        return self._map(lambda x: x ** lift(n))

    def _scale(self, f):
        r = self._map(f)
        r.fmt = self.fmt
        return r

    def multiply(self, o):
        self._sync()
        if is_num(o):
            return self._scale(lambda x: x * lift(o))
        b = o.toarray() if N.is_smat(o) else reals(o)
        a, b = _np.broadcast_arrays(self.a, b)
        return type(self)(a * b, "csr")

    def maximum(self, o):
        raise Unsupported("sparse maximum")

    # -- products
    def _matmul(self, o):
        self._sync()
        if N.is_smat(o):
            o._sync()
            if self.shape[1] != o.shape[0]:
                raise ValueError("matmul: dimension mismatch with signature (n,k=%d),(k=%d,m)->(n,m)" % (
                    self.shape[1], o.shape[0]))
            return type(self)(_mm(self.a, self.m, o.a, o.m), "csr" if self.fmt != "csc" or o.fmt != "csc" else "csc")
        b = o if isinstance(o, _np.ndarray) else obj(o)
        if b.ndim == 0:
            raise ValueError("Scalar operands are not allowed, use '*' instead")
        if b.shape[0] != self.shape[1]:
            raise ValueError("matmul: dimension mismatch: %r %r" % (self.shape, b.shape))
        B = reals(b)
        if b.ndim == 1:
            return _mm(self.a, self.m, B.reshape(-1, 1), None).reshape(-1)
        r = _mm(self.a, self.m, B, None)
        return _Dense(r) if isinstance(o, _Dense) else r

    def dot(self, o):
        if is_num(o):
            return self._scale(lambda x: x * lift(o))
        return self._matmul(o)

    def __matmul__(self, o):
        return self._matmul(o)

    def __rmatmul__(self, o):
        self._sync()
        b = reals(o)
        if b.ndim == 1:
            return _mm(b.reshape(1, -1), None, self.a, self.m).reshape(-1)
        return _mm(b, None, self.a, self.m)

    def __mul__(self, o):
        if is_num(o):
            return self._scale(lambda x: x * lift(o))
        if isinstance(o, _np.ndarray) and o.ndim == 0:
            return self * o[()]
        if self._is_array:
            return self.multiply(o)
        return self._matmul(o)

    def __rmul__(self, o):
        if is_num(o):
            return self._scale(lambda x: lift(o) * x)
        if isinstance(o, _np.ndarray) and o.ndim == 0:
            return o[()] * self
        if self._is_array:
            return self.multiply(o)
        return self.__rmatmul__(o)

    def __truediv__(self, o):
        if is_num(o):
            o = lift(o)
            if self.nnz == 0:
                return self.copy()
            return self._scale(lambda x: x / o)
        if isinstance(o, _np.ndarray) and o.ndim == 0:
            return self / o[()]
        if N.is_smat(o):
            return _Dense(N.divide(self.toarray(), o.toarray()))
        self._sync()
        return type(self)(N.divide(self.a, _np.broadcast_to(reals(o), self.shape)), "coo")

    def __rtruediv__(self, o):
        return NotImplemented

    def __add__(self, o):
        self._sync()
        if N.is_smat(o):
            o._sync()
            if self.shape != o.shape:
                raise ValueError("inconsistent shapes")
            return type(self)(self.a + o.a, self.fmt if self.fmt in ("csr", "csc") else "csr", self.m | o.m)
        if is_num(o):
            if isinstance(lift(o), Sym) and lift(o).n.is_zero():
                return self.copy()
            raise NotImplementedError("adding a nonzero scalar to a sparse array is not supported")
        b = reals(o)
        return _Dense(self.a + b)

    __radd__ = __add__

    def __sub__(self, o):
        self._sync()
        if N.is_smat(o):
            o._sync()
            if self.shape != o.shape:
                raise ValueError("inconsistent shapes")
            return type(self)(self.a - o.a, self.fmt if self.fmt in ("csr", "csc") else "csr", self.m | o.m)
        if is_num(o):
            if lift(o).n.is_zero():
                return self.copy()
            raise NotImplementedError("subtracting a nonzero scalar from a sparse array is not supported")
        return _Dense(self.a - reals(o))

    def __rsub__(self, o):
        if is_num(o):
            return -self
        return _Dense(reals(o) - self.toarray())

    def __pow__(self, n):
        if self._is_array:
            return self.power(n)
        r = identity(self.shape[0])
        for _ in range(int(n)):
            r = r * self
        return r

    # -- indexing
    def __getitem__(self, k):
        if self.fmt in ("coo", "dia", "bsr"):
            raise TypeError("'%s_matrix' object is not subscriptable" % self.fmt)
        self._sync()
        r, c = k if isinstance(k, tuple) else (k, slice(None))
        r, c = _ix(r), _ix(c)
        if isinstance(r, _INT) and isinstance(c, _INT):
            return self.a[r, c]
        if isinstance(r, _INT):
            r = slice(r, r + 1) if r != -1 else slice(-1, None)
        if isinstance(c, _INT):
            c = slice(c, c + 1) if c != -1 else slice(-1, None)
        if isinstance(r, _np.ndarray) and isinstance(c, _np.ndarray):
            a, m = self.a[r, c], self.m[r, c]
            if a.ndim == 1:
                a, m = a.reshape(1, -1), m.reshape(1, -1)
        else:
            a, m = self.a[r, c], self.m[r, c]
        return type(self)(a.copy(), self.fmt, m.copy())

    def __setitem__(self, k, v):
        if self.fmt in ("coo", "dia", "bsr"):
            raise TypeError("'%s_matrix' object does not support item assignment" % self.fmt)
        self._sync()
        r, c = k if isinstance(k, tuple) else (k, slice(None))
        r, c = _ix(r), _ix(c)
        if N.is_smat(v):
            v = v.toarray()
        if is_num(v):
            v = lift(v)
        else:
            v = reals(v)
            tgt = self.a[r, c]
            if isinstance(tgt, _np.ndarray):
                v = _np.broadcast_to(v.reshape(tgt.shape) if v.size == tgt.size else v, tgt.shape)
            else:
                v = v.reshape(-1)[0]
        self.a[r, c] = v
        self.m[r, c] = True
        self._trip = None

    def __len__(self):
        raise TypeError("sparse matrix length is ambiguous; use getnnz() or shape[0]")

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i, :]

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def _cmp(self, o, op):
        self._sync()
        b = o.toarray() if N.is_smat(o) else o
        a, b = _np.broadcast_arrays(self.a, reals(b) if not is_num(b) else obj([lift(b)]))
        out = N.fill(a.shape, ZERO_S)
        for i in _np.ndindex(a.shape):
            if bool(E.compare(a[i], b[i], op)):
                out[i] = ONE_S
        return type(self)(out, "csr")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    __hash__ = object.__hash__

    def __repr__(self):
        return "<%dx%d sparse matrix>" % self.shape


class SArr(SMat):
    _is_array = True


class _Mat(object):
    pass


class _Dense(_np.ndarray):
    """numpy.matrix: '*' is the matrix product and slices stay two-dimensional"""

    def __new__(cls, a):
        return _np.asarray(a, dtype=object).view(cls)

    def __mul__(self, o):
        if is_num(o):
            return _Dense(_np.ndarray.__mul__(self.view(_np.ndarray), o))
        return _Dense(N.dot(self.view(_np.ndarray), o))

    def __rmul__(self, o):
        if is_num(o):
            return _Dense(_np.ndarray.__mul__(self.view(_np.ndarray), o))
        return _Dense(N.dot(o, self.view(_np.ndarray)))

    def __getitem__(self, k):
        r = self.view(_np.ndarray)[k]
        if isinstance(r, _np.ndarray):
            if r.ndim == 1:
                col = isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], _INT)
                r = r.reshape(-1, 1) if col else r.reshape(1, -1)
            return r.view(_Dense)
        return r

    @property
    def A(self):
        return self.view(_np.ndarray)

    @property
    def A1(self):
        return self.view(_np.ndarray).reshape(-1)


def _ix(k):
    if isinstance(k, _INT) or isinstance(k, slice):
        return k
    if isinstance(k, _np.ndarray) and k.ndim == 0:
        return int(k)
    if isinstance(k, (list, tuple, range)):
        k = _np.array(list(k))
        if k.size == 0:
            k = k.astype(int)
    if isinstance(k, _np.ndarray):
        if k.dtype == object:
            if all(isinstance(v, (bool, SymBool)) for v in k.flat):
                return N.to_dtype(k, bool)
            raise IndexError("Index dimension must be 1 or 2")
        return k
    if isinstance(k, (Sym,)):
        raise IndexError("invalid index")
    raise Unsupported("sparse index %r" % (type(k),))


def _mm(a, ma, b, mb):
    n, k = a.shape
    p = b.shape[1]
    o = N.fill((n, p), ZERO_S)

    def nz(x, m):
        r = []
        for i in range(x.shape[0]):
            r.append([j for j in range(x.shape[1]) if (m is None or m[i, j])
                      and not (isinstance(x[i, j], Sym) and x[i, j].n.is_zero())])
        return r
    na = nz(a, ma)
    nb = nz(b, mb)
    for i in range(n):
        acc = {}
        for q in na[i]:
            x = lift(a[i, q])
            for j in nb[q]:
                t = x * lift(b[q, j])
                acc[j] = acc[j] + t if j in acc else t
        for j, v in acc.items():
            o[i, j] = v
    return o


def _from(arg, shape, fmt, cls, dtype=None):
    if N.is_smat(arg):
        r = arg._as(fmt)
        r.__class__ = cls
        return r
    if isinstance(arg, tuple) and len(arg) == 2 and all(isinstance(x, _INT) for x in arg):
        return cls(N.fill((int(arg[0]), int(arg[1])), ZERO_S), fmt)
    if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], (tuple, list)) and len(arg[1]) == 2:
        data, (row, col) = arg
        data = list(data)
        row, col = [int(i) for i in row], [int(j) for j in col]
        if not (len(data) == len(row) == len(col)):
            raise ValueError("row, column, and data array must all be the same length")
        if shape is None:
            if not row:
                raise ValueError("cannot infer dimensions from zero sized index arrays")
            shape = (max(row) + 1, max(col) + 1)
        shape = (int(shape[0]), int(shape[1]))
        if row:
            if max(row) >= shape[0] or max(col) >= shape[1]:
                raise ValueError("axis index %d exceeds matrix dimension %d" % (max(row), shape[0]))
            if min(row) < 0 or min(col) < 0:
                raise ValueError("negative axis index")
        a = N.fill(shape, ZERO_S)
        m = _np.zeros(shape, dtype=bool)
        for v, i, j in zip(data, row, col):
            v = lift(v)
            a[i, j] = a[i, j] + v if m[i, j] else v
            m[i, j] = True
        r = cls(a, fmt, m)
        if fmt == "coo":
            d = _np.empty(len(data), dtype=object)
            for k, v in enumerate(data):
                d[k] = lift(v)
            r._trip = [_np.array(row, dtype=_np.int32).reshape(-1), _np.array(col, dtype=_np.int32).reshape(-1), d]
        return r
    if isinstance(arg, tuple) and len(arg) == 3:
        data, indices, indptr = arg
        row, col, n = [], [], len(indptr) - 1
        for i in range(n):
            for k in range(int(indptr[i]), int(indptr[i + 1])):
                row.append(i)
                col.append(int(indices[k]))
        if fmt == "csc":
            row, col = col, row
        return _from((list(data), (row, col)), shape, fmt, cls)
    a = reals(arg)
    if a.ndim == 1:
        a = a.reshape(1, -1)
    elif a.ndim == 0:
        a = a.reshape(1, 1)
    return cls(a.copy(), fmt)


class _Maker(type):
    def __instancecheck__(cls, x):
        if not N.is_smat(x):
            return False
        return cls.fmt in ("any", x.fmt)

    def __call__(cls, arg1, shape=None, dtype=None, copy=False, **kw):
        if cls.fmt == "dia" and isinstance(arg1, tuple) and len(arg1) == 2 and not N.is_smat(arg1[0]) \
                and not all(isinstance(x, _INT) for x in arg1):
            return diags(list(_np.atleast_2d(obj(arg1[0]))), list(_np.atleast_1d(arg1[1])), shape=shape)
        return _from(arg1, shape, cls.fmt if cls.fmt != "any" else "csr", cls.base)


def _maker(name, fmt, base=SMat):
    return _Maker(name, (), {"fmt": fmt, "base": base})


def identity(n, dtype=None, format=None):
    return eye(n, format=format)


def eye(m, n=None, k=0, dtype=None, format=None, cls=SMat):
    a = obj(_np.eye(int(m), int(n) if n is not None else None, int(k)))
    return cls(reals(a), format or "dia")


def diags(diagonals, offsets=0, shape=None, format=None, dtype=None, cls=SMat):
    if N.is_smat(diagonals):
        diagonals = diagonals.toarray()
    if isinstance(offsets, _INT):
        if isinstance(diagonals, _np.ndarray) and diagonals.ndim == 2 or \
                isinstance(diagonals, (list, tuple)) and len(diagonals) and not is_num(diagonals[0]):
            if len(diagonals) != 1:
                raise ValueError("Different number of diagonals and offsets.")
            diagonals = [diagonals[0]]
        else:
            diagonals = [diagonals]
        offsets = [offsets]
    ds = [[lift(v) for v in (_np.atleast_1d(obj(d)))] for d in diagonals]
    offsets = [int(o) for o in offsets]
    if len(ds) != len(offsets):
        raise ValueError("Different number of diagonals and offsets.")
    if shape is None:
        n = len(ds[0]) + abs(offsets[0])
        shape = (n, n)
    a = N.fill(shape, ZERO_S)
    m, n = shape
    for d, o in zip(ds, offsets):
        L = min(m + min(o, 0), n - max(o, 0))
        if len(d) not in (L, 1):
            raise ValueError("Diagonal length (index 0: %d at offset %d) does not agree with array size (%d, %d)." % (
                len(d), o, m, n))
        for k in range(L):
            a[k - min(o, 0), k + max(o, 0)] = d[k] if len(d) > 1 or L == 1 else d[0]
    # scipy keeps stored zeros in dia and drops them when converting
    return cls(a, format or "dia")


def _dense(x):
    return x.toarray() if N.is_smat(x) else reals(x)


def bmat(blocks, format=None, dtype=None):
    rows = [[None if b is None else _dense(b) for b in r] for r in blocks]
    hs = [next(b.shape[0] for b in r if b is not None) for r in rows]
    ws = [next(rows[i][j].shape[1] for i in range(len(rows)) if rows[i][j] is not None) for j in range(len(rows[0]))]
    a = N.fill((sum(hs), sum(ws)), ZERO_S)
    y = 0
    for i, r in enumerate(rows):
        x = 0
        for j, b in enumerate(r):
            if b is not None:
                a[y:y + hs[i], x:x + ws[j]] = b
            x += ws[j]
        y += hs[i]
    return SMat(a, format or "coo")


def block_diag(mats, format=None, dtype=None):
    n = len(mats)
    return bmat([[mats[i] if i == j else
                  SMat(N.fill((_dense(mats[i]).shape[0], _dense(mats[j]).shape[1]), ZERO_S), "csr")
                  for j in range(n)] for i in range(n)], format)


def kron(a, b, format=None):
    return SMat(_np.kron(_dense(a), _dense(b)), format or "csr")


def make_sparse(world):
    m = N._Never("scipy.sparse")
    d = m.__dict__
    d["__path__"] = []
    for f in ("coo", "csr", "csc", "lil", "dok", "dia", "bsr"):
        d[f + "_matrix"] = _maker(f + "_matrix", f)
        d[f + "_array"] = _maker(f + "_array", f, SArr)
    d["spmatrix"] = _maker("spmatrix", "any")
    d["sparray"] = _maker("sparray", "any", SArr)
    d["issparse"] = d["isspmatrix"] = N.is_smat
    for f in ("coo", "csr", "csc"):
        d["isspmatrix_" + f] = lambda x, f=f: N.is_smat(x) and x.fmt == f
    d["eye"], d["identity"], d["diags"] = eye, identity, diags
    d["eye_array"] = lambda m, n=None, *, k=0, dtype=None, format=None: eye(m, n, k, dtype, format, SArr)
    d["diags_array"] = lambda diagonals, *, offsets=0, shape=None, format=None, dtype=None: diags(
        diagonals, offsets, shape, format, dtype, SArr)
    d["bmat"], d["block_diag"], d["kron"] = bmat, block_diag, kron
    d["block_array"] = bmat
    d["hstack"] = lambda b, format=None, dtype=None: bmat([list(b)], format)
    d["vstack"] = lambda b, format=None, dtype=None: bmat([[x] for x in b], format)
    d["triu"] = lambda a, k=0, format=None: SMat(_np.triu(_dense(a), k) + N.fill(a.shape, ZERO_S), format or "coo")
    d["tril"] = lambda a, k=0, format=None: SMat(_np.tril(_dense(a), k) + N.fill(a.shape, ZERO_S), format or "coo")
    def find(a):
        c = a.tocsr().tocoo() if N.is_smat(a) else SMat(a, "coo")
        keep = [i for i, v in enumerate(c.data) if v != 0]
        return c.row[keep], c.col[keep], c.data[keep]
    d["find"] = find
    d["linalg"] = make_splinalg(world)
    d["save_npz"] = N._Never("scipy.sparse").__getattr__ if False else (lambda f, a, **kw: world.fs.npz_save(f, a))
    d["load_npz"] = lambda f: world.fs.npz_load(f)

    class SparseEfficiencyWarning(Warning):
        pass
    d["SparseEfficiencyWarning"] = SparseEfficiencyWarning
    return m


def contract_solve(world, A, b):
    """x with A x = b: the direct solver by its contract (A nonsingular)"""
    A = _dense(A)
    B = _dense(b)
    n = A.shape[0]
    if A.ndim != 2 or A.shape[1] != n:
        raise ValueError("matrix must be square (has shape %s)" % (A.shape,))
    col = B.ndim == 2 and B.shape[1] == 1
    if B.ndim == 2 and not col:
        return _np.stack([contract_solve(world, A, B[:, j]) for j in range(B.shape[1])], axis=1)
    B = B.reshape(-1)
    if len(B) != n:
        raise ValueError("matrix - rhs dimension mismatch (%s - %s)" % (A.shape, B.shape))
    x = _np.empty(n, dtype=object)
    sid = ("solve", len(world.events))

    def numeric(ev, i):
        if sid not in ev.memo:
            M = _np.array([[ev.sym(lift(v)) for v in r] for r in A], dtype=float).reshape(n, n)
            r = _np.array([ev.sym(lift(v)) for v in B], dtype=float)
            try:
                ev.memo[sid] = _np.linalg.solve(M, r)
            except _np.linalg.LinAlgError:
                raise ValueError("singular")
        return float(ev.memo[sid][i])
    for i in range(n):
        x[i] = world.fresh("x", ev=lambda ev, i=i: numeric(ev, i))
    for i in range(n):
        s = N.dotv(A[i], x) - B[i]
        world.axiom_zero(s)
    world.log_event("solve", A, B, x)
    return x


def contract_eigen(world, Ad, Md, k, side):
    """k eigenpairs of Ad v = w Md v (Ad symmetric, Md positive definite), normalised v'Mv = 1, ascending; side: the lowest or the highest ones"""
    n = Ad.shape[0]
    sid = ("eigen", len(world.events))

    def numeric(ev, i, j):
        if sid not in ev.memo:
            import scipy.linalg
            A, B = [_np.array([[ev.sym(lift(v)) for v in r] for r in X], dtype=float).reshape(n, n) for X in (Ad, Md)]
            try:
                w, v = scipy.linalg.eigh((A + A.T) / 2, (B + B.T) / 2)
            except _np.linalg.LinAlgError:
                raise ValueError("not a definite pair")
            ev.memo[sid] = (w[:k], v[:, :k]) if side != "high" else (w[n - k:], v[:, n - k:])
        w, v = ev.memo[sid]
        return float(w[j] if i is None else v[i, j])
    w = _np.empty(k, dtype=object)
    v = _np.empty((n, k), dtype=object)
    for j in range(k):
        w[j] = world.fresh("w2", positive=True, ev=lambda ev, j=j: numeric(ev, None, j))
        for i in range(n):
            v[i, j] = world.fresh("phi", ev=lambda ev, i=i, j=j: numeric(ev, i, j))
    for j in range(k):
        if j:
            world.assume(E.compare(w[j - 1], w[j], "<="))
        for i in range(n):
            world.axiom_zero(N.dotv(Ad[i], v[:, j]) - w[j] * N.dotv(Md[i], v[:, j]))
        world.axiom_zero(N.dotv(v[:, j], N.dot(Md, v[:, j])) - 1)
    for i in range(n):
        # Rayleigh: the lowest is not above, the highest not below, any quotient
        if side in ("low", "all"):
            world.assume(E.compare(w[0] * Md[i, i], Ad[i, i], "<="))
        if side in ("high", "all"):
            world.assume(E.compare(Ad[i, i], w[k - 1] * Md[i, i], "<="))
    world.log_event("eigen", Ad, Md, w, v)
    return w, v


def make_splinalg(world):
    m = N._Never("scipy.sparse.linalg")
    d = m.__dict__

    def spsolve(A, b, *a, **kw):
        return contract_solve(world, A, b)

    def cg(A, b, x0=None, *, rtol=1e-5, atol=0.0, maxiter=None, M=None, callback=None):
        if isinstance(atol, str):
            raise ValueError("atol")
        return contract_solve(world, A, b), 0

    def bicgstab(A, b, x0=None, *, rtol=1e-5, atol=0.0, maxiter=None, M=None, callback=None):
        return contract_solve(world, A, b), 0

    def eigsh(A, k=6, M=None, sigma=None, which="LM", v0=None, ncv=None, maxiter=None, tol=0, return_eigenvectors=True, Minv=None,
              OPinv=None, mode="normal", rng=None):
        Ad = _dense(A)
        n = Ad.shape[0]
        k = int(k)
        if k <= 0:
            raise ValueError("k=%d must be greater than 0." % k)
        if k >= n:
            raise TypeError("Cannot use scipy.linalg.eigh for sparse A with k >= N.")
        if mode != "normal" or not return_eigenvectors:
            raise Unsupported("eigsh mode")
        Md = _dense(M) if M is not None else reals(obj(_np.eye(n)))
        side = None
        if sigma is None:
            side = {"LM": "high", "LA": "high", "SM": "low", "SA": "low"}.get(which)
        elif lift(sigma).is_const() and lift(sigma).value() == 0:
            side = {"LM": "low", "LA": "low", "SM": "high", "SA": "high"}.get(which)
        return contract_eigen(world, Ad, Md, k, side)

    def splu(A, *a, **kw):
        return types.SimpleNamespace(solve=lambda b, *a: contract_solve(world, A, b))
    d.update(spsolve=spsolve, cg=cg, bicgstab=bicgstab, gmres=cg, minres=cg, eigsh=eigsh, splu=splu,
             factorized=lambda A: (lambda b: contract_solve(world, A, b)),
             norm=lambda x, *a, **kw: N.norm(x.toarray()),
             inv=lambda A: SMat(N.solve(_dense(A), obj(_np.eye(A.shape[0]))), "csc"))
    return m


def make_scipy(world):
    m = N._Never("scipy")
    d = m.__dict__
    d["__path__"] = []
    d["sparse"] = world.shim("scipy.sparse")
    d["linalg"] = world.shim("scipy.linalg")
    d["spatial"] = world.shim("scipy.spatial")
    d["interpolate"] = world.shim("scipy.interpolate")
    return m


def make_splin(world):
    m = N._Never("scipy.linalg")
    npl = world.shim("numpy").linalg

    def eigh(a, b=None, *x, **kw):
        if x or any(kw[t] is not None for t in kw if t not in ("check_finite", "overwrite_a", "overwrite_b", "driver", "lower")):
            raise Unsupported("eigh with options")
        A = _dense(a)
        if A.ndim != 2 or A.shape[0] != A.shape[1]:
            raise ValueError("expected square matrix")
        B = reals(obj(_np.eye(len(A)))) if b is None else _dense(b)
        return contract_eigen(world, A, B, len(A), "all")
    m.__dict__.update(norm=npl.norm, det=npl.det, inv=npl.inv,
                      solve=lambda a, b, *x, **kw: contract_solve(world, a, b),
                      block_diag=lambda *b: block_diag(list(b)).toarray(), eigh=eigh,
                      LinAlgError=_np.linalg.LinAlgError,
                      lu_factor=lambda a, *x, **kw: (_np.array(a, dtype=object), None),
                      lu_solve=lambda f, b, *x, **kw: contract_solve(world, f[0], b),
                      cho_factor=lambda a, *x, **kw: (_np.array(a, dtype=object), False),
                      cho_solve=lambda f, b, *x, **kw: contract_solve(world, f[0], b))
    return m


# ------------------------------------------------ rotations ----------------

class Rotation(object):
    """scipy.spatial.transform.Rotation by quaternions (x, y, z, w)"""

    def __init__(self, q):
        self.q = q

    @classmethod
    def from_quat(cls, q, **kw):
        q = [lift(v) for v in (list(q) if not isinstance(q, _np.ndarray) else list(q.flat))]
        if len(q) != 4:
            raise ValueError("Expected `quat` to have shape (4,)")
        if kw.get("scalar_first"):
            q = q[1:] + q[:1]
        n2 = N.sum_syms([v * v for v in q])
        if n2.is_const() and n2.value() == 0:
            raise ValueError("Found zero norm quaternions in `quat`.")
        if not (n2.is_const() and n2.value() == 1):
            n = E.sx_sqrt(n2)
            if not n.is_const() and not E._same(n2, ONE_S) and bool(n2 == 0):
                raise ValueError("Found zero norm quaternions in `quat`.")
            q = [v / n for v in q]
        return cls(q)

    @classmethod
    def from_rotvec(cls, v, degrees=False):
        v = [lift(x) for x in (list(v) if not isinstance(v, _np.ndarray) else list(v.flat))]
        nz = [x for x in v if not x.n.is_zero()]
        if not nz:
            return cls([ZERO_S, ZERO_S, ZERO_S, ONE_S])
        # v = theta * unit axis: look for the angle factor that makes the axis algebraic
        th = ax = None
        if len(nz) == 1:
            th = nz[0]
        else:
            for cand in _angle_factors(nz):
                cax = [x * cand.inverse() for x in v]     # the factor cancels, zero or not
                n2 = N.sum_syms([x * x for x in cax])
                if n2.is_const() and n2.value() == 1:
                    th, ax = cand, cax
                    break
        if th is None:
            th = N.norm(_np.array(v, dtype=object))
            if bool(th == 0):
                return cls([ZERO_S, ZERO_S, ZERO_S, ONE_S])
        ax = (ax if ax else [x / th for x in v]) if len(nz) > 1 else [ONE_S if not x.n.is_zero() else ZERO_S for x in v]
        if degrees:
            th = th * E.pi_sym() / 180
        c, s = E.sx_trig(th / 2)
        return cls([ax[0] * s, ax[1] * s, ax[2] * s, c])

    @classmethod
    def from_euler(cls, seq, angles, degrees=False):
        a = [lift(x) for x in ([angles] if is_num(angles) else list(obj(angles).flat))]
        r = cls([ZERO_S, ZERO_S, ZERO_S, ONE_S])
        intr = seq.isupper()
        for ch, t in zip(seq.lower(), a):
            v = [ZERO_S] * 3
            v["xyz".index(ch)] = t
            k = cls.from_rotvec(v, degrees)
            r = r * k if intr else k * r
        return r

    @classmethod
    def from_matrix(cls, m):
        r = cls(None)
        r.m = reals(m)
        return r

    @classmethod
    def identity(cls):
        return cls([ZERO_S, ZERO_S, ZERO_S, ONE_S])

    def as_quat(self, **kw):
        return _np.array(self.q, dtype=object)

    def as_matrix(self):
        if self.q is None:
            return self.m.copy()
        x, y, z, w = self.q
        x2, y2, z2, w2 = x * x, y * y, z * z, w * w
        m = N.fill((3, 3), ZERO_S)
        m[0, 0] = x2 - y2 - z2 + w2
        m[1, 0] = (x * y + z * w) * 2
        m[2, 0] = (x * z - y * w) * 2
        m[0, 1] = (x * y - z * w) * 2
        m[1, 1] = -x2 + y2 - z2 + w2
        m[2, 1] = (y * z + x * w) * 2
        m[0, 2] = (x * z + y * w) * 2
        m[1, 2] = (y * z - x * w) * 2
        m[2, 2] = -x2 - y2 + z2 + w2
        return m

    as_dcm = as_matrix

    def apply(self, vectors, inverse=False):
        v = reals(vectors)
        m = self.as_matrix()
        if inverse:
            m = m.T
        if v.ndim == 1:
            return N.dot(m, v)
        return N.dot(v, m.T)

    def inv(self):
        if self.q is None:
            return Rotation.from_matrix(self.m.T)
        x, y, z, w = self.q
        return Rotation([-x, -y, -z, w])

    def __mul__(self, o):
        if self.q is None or o.q is None:
            return Rotation.from_matrix(N.dot(self.as_matrix(), o.as_matrix()))
        x1, y1, z1, w1 = self.q
        x2, y2, z2, w2 = o.q
        return Rotation([w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2,
                         w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2,
                         w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2,
                         w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2])


def _angle_factors(vals):
    """polynomial factors that look like an angle common to all components"""
    out = []
    for a in sorted(set.intersection(*[set(v.n.atoms()) for v in vals])):
        if E.ATOMS[a].kind == "input":
            out.append(Sym(E.Poly.atom(a)))
    return out
