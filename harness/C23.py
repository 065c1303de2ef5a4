"""C23 the element kernels compute their derivations"""
import numpy as np
from hlib import harness

META = dict(
    functions=["interpolate.Lagrange.N1D/N2D", "interpolate.Hermite.N1D/N2D", "jacobi.J2D", "operator.operator_dot/L2/L3", "isotropy.sig", "membranes.T9", "membranes.GQ12", "plates.metaDKT", "plates.metaDKQ", "plates.TMQ (the symbolic derivations)",
               "metaT9/metaGQ12/metaDKT/metaDKQ/metaTMQb/metaTMQs.autofunc_c (C source)"],
    bounds="T9: every triangle; DKT: every triangle with a side along x and one of general position at any scale; GQ12: every quadrilateral with a "
           "side along x; DKQ and TMQ: every rectangle, a kite and (not TMQ bending in the quick tier) an irregular quadrilateral at any scale; at every point, for every E > 0, "
           "Poisson ratio in [0, 0.49] and thickness; interpolation functions at every point of [-2, 2] and every l; J2D for 1, 3, 5 biquadratic functions; "
           "operators on every quadratic field",
    outside="rounding (a literal within 2e-16 of a fraction with a denominator up to 1000 is that fraction); the code generator itself; "
            "the bar and beam derivation (its module cannot be imported: the C macro I clashes with its argument)",
)
T = "hyperstatic.core.fe_model.meta."
KERNELS = {
    "T9": ("membranes.T9", "BDB", 3),
    "DKT": ("plates.metaDKT", "BDB", 3),
    "DKQ": ("plates.metaDKQ", "BDB", 4),
    "GQ12": ("membranes.GQ12", "BDB_", 4),
    "TMQ bending": ("plates.TMQ", "BDBb", 4),
    "TMQ shear": ("plates.TMQ", "BCBs", 4),
}


def corners(cx, name, n):
    a, c = cx.real("a", pos=True), cx.real("c", pos=True)
    r = lambda k: cx.real(k, lo=-10, hi=10)
    if name == "any":
        return [(r("x%d" % (i + 1)), r("y%d" % (i + 1))) for i in range(n)]
    if name == "base":
        return [(0, 0), (a, 0)] + [(r("x%d" % i), r("y%d" % i)) for i in range(3, n + 1)]
    if n == 3:
        return [(0, 0), (4 * a, a), (a, 3 * a)]
    if name == "rectangle":
        return [(0, 0), (a, 0), (a, c), (0, c)]
    if name == "kite":
        return [(0, 0), (2 * a, -a), (3 * a, 3 * a), (-a, 2 * a)]
    return [(0, 0), (4 * a, a), (5 * a, 4 * a), (a, 2 * a)]


SHAPES = {"T9": ["any"], "DKT": ["base", "irregular"], "GQ12": ["base"], "DKQ": ["rectangle", "kite", "irregular"],
          "TMQ bending": ["rectangle", "kite"], "TMQ shear": ["rectangle", "kite", "irregular"]}


@harness(cases=[(k, s) for k in KERNELS for s in SHAPES[k]], thorough=[("TMQ bending", "irregular"), ("GQ12", "irregular"), ("GQ12", "kite"), ("T9", "base")], seconds=150,
         weight=3)
def kernel(cx):
    """the compiled function is its derivation, for any argument"""
    k, shape = cx.case
    mod, expr, n = KERNELS[k]
    P = corners(cx, shape, n)
    E, mu, t = cx.real("E", pos=True), cx.real("mu", lo=0, hi=cx.q(49, 100), nom=(0, 0.49)), cx.real("t", pos=True)
    s, e = cx.real("xi", lo=-1, hi=1), cx.real("eta", lo=-1, hi=1)
    v = dict(E=E, mu=mu, t=t, xi=s, eta=e)
    for i, (x, y) in enumerate(P):
        v["x%d" % (i + 1)], v["y%d" % (i + 1)] = x, y
    if n == 3:
        cx.assume_nonzero((P[1][0] - P[0][0]) * (P[2][1] - P[0][1]) - (P[1][1] - P[0][1]) * (P[2][0] - P[0][0]))
    else:
        XI, ETA = ((1, 1, -1, -1), (-1, 1, 1, -1)) if k == "GQ12" else ((-1, 1, 1, -1), (-1, -1, 1, 1))
        d = [sum(a[i] * (1 + b[i] * w) * P[i][c] for i in range(4)) / 4 for a, b, w in ((XI, ETA, e), (ETA, XI, s)) for c in (0, 1)]
        cx.assume_nonzero(d[0] * d[3] - d[1] * d[2])
    m = cx.derivation(T + mod)
    f = m.get_binary_BDB()
    f = f if callable(f) else f[k == "TMQ shear"]
    order = ("E mu t" if k == "T9" else "E mu t xi eta").split() + ["%s%d" % (c, i + 1) for i in range(n) for c in "xy"]
    ref = cx.value(getattr(m, expr), **v)
    cx.eq("kernel", f(*[v[q] for q in order]), ref)
    cx.eq("symmetric", ref, ref.T)


def unit_square(cx):
    return cx.real("xi", lo=-2, hi=2), cx.real("eta", lo=-2, hi=2)


@harness()
def lagrange(cx):
    """linear functions on [-1, 1], each one at its own node"""
    m = cx.derivation(T + "interpolate.Lagrange")
    s, e = unit_square(cx)
    line, square = cx.value(m.N1D(), xi=s), cx.value(m.N2D(), xi=s, eta=e)
    cx.eq("on a line", line, [(1 - s) / 2, (1 + s) / 2])
    cx.eq("on a square", square, [(1 + a * s) * (1 + b * e) / 4 for a in (-1, 1) for b in (-1, 1)])
    cx.eq("together they are one", [sum(line), sum(square)], [1, 1])


@harness()
def hermite(cx):
    """cubics on [0, l] from values and slopes at the ends"""
    m = cx.derivation(T + "interpolate.Hermite")
    s, e = unit_square(cx)
    l = cx.real("l", pos=True)
    f = lambda x: [(1 - x) ** 2 * (1 + 2 * x), l * x * (1 - x) ** 2, x * x * (3 - 2 * x), l * x * x * (x - 1)]
    A, B = f(s), f(e)
    cx.eq("on a line", cx.value(m.N1D(), xi=s, l=l), A)
    cx.eq("on a square", cx.value(m.N2D(), xi=s, eta=e, l=l),
          [A[i + p] * B[j + q] for p, q in ((0, 0), (1, 0), (0, 1), (1, 1)) for j in (0, 2) for i in (0, 2)])


@harness()
def jacobi(cx):
    """derivatives of the mapped coordinates"""
    m = cx.derivation(T + "jacobi")
    sp, npy = cx.algebra()
    s, e = unit_square(cx)
    a = [[cx.real("c%d%d%d" % (n, i, j), lo=-10, hi=10) for i in range(3) for j in range(3)] for n in range(5)]
    P = [(cx.real("x%d" % n, lo=-10, hi=10), cx.real("y%d" % n, lo=-10, hi=10)) for n in range(5)]
    c = [[sp.Symbol("c%d_%d" % (n, k)) for k in range(9)] for n in range(5)]
    x, y = sp.symbols("xi eta")
    X = [[sp.Symbol("X%d" % n), sp.Symbol("Y%d" % n)] for n in range(5)]
    v = dict(xi=s, eta=e)
    for n in range(5):
        v.update({"c%d_%d" % (n, k): a[n][k] for k in range(9)})
        v["X%d" % n], v["Y%d" % n] = P[n]
    for n in (1, 3, 5):
        N = [sum(c[i][3 * p + q] * x ** p * y ** q for p in range(3) for q in range(3)) for i in range(n)]
        J = cx.value(m.J2D(N, npy.array(X[:n])), **v)
        ds = [a[i][3] + a[i][4] * e + a[i][5] * e * e + 2 * s * (a[i][6] + a[i][7] * e + a[i][8] * e * e) for i in range(n)]
        de = [a[i][1] + a[i][4] * s + a[i][7] * s * s + 2 * e * (a[i][2] + a[i][5] * s + a[i][8] * s * s) for i in range(n)]
        cx.eq("%d functions" % n, J, [[sum(d[i] * P[i][k] for i in range(n)) for k in (0, 1)] for d in (ds, de)])


@harness()
def operators(cx):
    """strain operators on any quadratic displacement field, and products of operators and numbers with functions"""
    m = cx.derivation(T + "operator")
    sp, npy = cx.algebra()
    s = sp.symbols("x y z")
    p = [cx.real(k, lo=-10, hi=10) for k in "xyz"]
    mono = [(i, j, k) for i in range(3) for j in range(3 - i) for k in range(3 - i - j)]
    c = [[cx.real("u%d_%d" % (n, k), lo=-10, hi=10) for k in range(len(mono))] for n in range(3)]
    v = dict(zip("xyz", p))
    for n in range(3):
        v.update({"u%d_%d" % (n, k): c[n][k] for k in range(len(mono))})
    u = [sum(sp.Symbol("u%d_%d" % (n, k)) * s[0] ** e[0] * s[1] ** e[1] * s[2] ** e[2] for k, e in enumerate(mono)) for n in range(3)]

    def d(n, a):
        """derivative of component n along axis a"""
        r = 0
        for k, e in enumerate(mono):
            if e[a]:
                f = list(e)
                f[a] -= 1
                t = c[n][k] * e[a]
                for q in range(3):
                    for _ in range(f[q]):
                        t = t * p[q]
                r = r + t
        return r
    col = lambda q: [[x] for x in q]
    cx.eq("strains in space", cx.value(m.operator_dot(m.L3, sp.Matrix(u)), **v),
          col([d(0, 0), d(1, 1), d(2, 2), d(0, 1) + d(1, 0), d(1, 2) + d(2, 1), d(0, 2) + d(2, 0)]))
    cx.eq("strains in the plane", cx.value(m.operator_dot(m.L2(s[0], s[1]), sp.Matrix(u[:2])), **v),
          col([d(0, 0), d(1, 1), d(0, 1) + d(1, 0)]))
    cx.eq("strains in another plane", cx.value(m.operator_dot(m.L2(s[2], s[1]), sp.Matrix([u[2], u[1]])), **v),
          col([d(2, 2), d(1, 1), d(2, 1) + d(1, 2)]))
    two = sp.Matrix([[u[0], u[2]], [u[1], u[0]]])
    A = npy.array([[m.ddx, 3], [0, m.ddz], [sp.Symbol("k"), -2]])
    k = cx.real("k", lo=-10, hi=10)
    U = [cx.value(w, **v) for w in u]
    cx.eq("operators, numbers and several columns", cx.value(m.operator_dot(A, two), k=k, **v),
          [[d(0, 0) + 3 * U[1], d(2, 0) + 3 * U[0]], [d(1, 2), d(0, 2)], [k * U[0] - 2 * U[1], k * U[2] - 2 * U[0]]])
    cx.rejects("operator and function do not fit", lambda: m.operator_dot(m.L3, sp.Matrix(u[:2])))


@harness()
def isotropy(cx):
    """Hooke's law, stress by strain"""
    m = cx.derivation(T + "isotropy")
    E, nu = cx.real("E", pos=True), cx.real("nu", lo=0, hi=cx.q(49, 100), nom=(0, 0.49))
    names = [q.name for q in (m.exx, m.eyy, m.ezz, m.gxy, m.gyz, m.gzx)]
    e = [cx.real("e%d" % i, lo=-1, hi=1) for i in range(6)]
    S = cx.value(m.sig, **dict(zip(names, e), E=E, nu=nu))
    G = E / (2 * (1 + nu))
    lam = E * nu / ((1 + nu) * (1 - 2 * nu))
    tr = lam * (e[0] + e[1] + e[2])
    cx.eq("stress", S, [[2 * G * e[0] + tr, G * e[3], G * e[5]], [G * e[3], 2 * G * e[1] + tr, G * e[4]], [G * e[5], G * e[4], 2 * G * e[2] + tr]])
    cx.eq("shear modulus and Lame constant", [cx.value(m.G, E=E, nu=nu), cx.value(m.lamda, E=E, nu=nu)], [G, lam])
