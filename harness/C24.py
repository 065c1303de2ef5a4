"""C24 the thick-plate quadrilateral"""
import numpy as np
from hlib import harness, elastic, node

META = dict(
    functions=["TMQ.integrate_K", "metaTMQb.autofunc_c (C source)", "metaTMQs.autofunc_c (C source)", "Quad.__init__"],
    bounds="the integrand at every point of every rectangle, parallelogram and right trapezium, a kite and an irregular quadrilateral at any "
           "scale (parallelogram and trapezium in the thorough tier); the element on rectangles and squares in three planes, and on the fixed shapes; every E > 0, Poisson ratio in [0, 0.49], thickness",
    outside="rounding; the accuracy of the quadrature rule the element asks for; the transformation matrix of the element (it has three unknowns per "
            "node, of which one is a deflection)",
)
XI, ETA = (-1, 1, 1, -1), (-1, -1, 1, 1)


def shape(cx, name):
    a, c = cx.real("a", pos=True), cx.real("c", pos=True)
    if name == "rectangle":
        return [(0, 0), (a, 0), (a, c), (0, c)]
    if name == "parallelogram":
        b = cx.real("b", lo=-10, hi=10)
        return [(0, 0), (a, 0), (a + b, c), (b, c)]
    if name == "trapezium":
        return [(0, 0), (2 * c, 0), (a, c), (0, c)]
    if name == "kite":
        return [(0, 0), (2 * a, -a), (3 * a, 3 * a), (-a, 2 * a)]
    return [(0, 0), (4 * a, a), (5 * a, 4 * a), (a, 2 * a)]


def modes(X):
    """deflection and its slopes: three rigid motions, three uniform curvatures"""
    f = [lambda x, y: (1, 0, 0), lambda x, y: (x, 1, 0), lambda x, y: (y, 0, 1),
         lambda x, y: (x * x / 2, x, 0), lambda x, y: (y * y / 2, 0, y), lambda x, y: (x * y, y, x)]
    return np.array([[v for p in X for v in g(*p)] for g in f]).T


def constants(cx):
    E, mu, t = cx.real("E", pos=True), cx.real("mu", lo=0, hi=cx.q(49, 100), nom=(0, 0.49)), cx.real("t", pos=True)
    D = elastic(E, mu) * (t * t * t / 12)
    k = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 2]])
    return E, mu, t, k.dot(D).dot(k)


@harness(cases=["rectangle", "kite", "irregular"], thorough=["parallelogram", "trapezium"], seconds=150)
def integrand(cx):
    X = shape(cx, cx.case)
    E, mu, t, M = constants(cx)
    s, e = cx.real("xi", lo=-1, hi=1), cx.real("eta", lo=-1, hi=1)
    d = [sum(a[i] * (1 + b[i] * w) * X[i][c] for i in range(4)) / 4 for a, b, w in ((XI, ETA, e), (ETA, XI, s)) for c in (0, 1)]
    det = d[0] * d[3] - d[1] * d[2]
    cx.assume_nonzero(det)
    b, q = cx.mod("hyperstatic.core.fe_model.meta.plates.TMQ").get_binary_BDB()
    v = [E, mu, t, s, e] + [c for p in X for c in p]
    U = modes(X)
    for name, f in (("bending", b), ("shear", q)):
        K = f(*v)
        cx.eq(name + " is symmetric", K, K.T)
        R = K.dot(U)
        cx.eq("no force in %s under rigid motion" % name, R[:, :3], np.zeros((12, 3)))
        if name == "shear":
            cx.eq("no shear force under uniform curvature", R[:, 3:], np.zeros((12, 3)))
        else:
            cx.eq("moments under uniform curvature", U[:, 3:].T.dot(R[:, 3:]), M * det)


PLANES = {"up": ((1, 0, 0), (0, 1, 0)), "wall": ((0, 1, 0), (0, 0, 1)), "down": ((0, 1, 0), (1, 0, 0))}


@harness(cases=[("rectangle", w) for w in PLANES] + [("kite", "up"), ("irregular", "wall")], seconds=150)
def element(cx):
    name, w = cx.case
    xy = shape(cx, name)
    E, mu, t, M = constants(cx)
    O = np.array([cx.real("O" + k, lo=-10, hi=10) for k in "xyz"])
    u, v = [np.array(k) for k in PLANES[w]]
    P = [O + x * u + y * v for x, y in xy]
    N = [node(cx, k, p) for k, p in zip("ijkl", P)]
    mat = cx.mod("hyperstatic.core.fe_model.material.isotropy").IsotropicMaterial("m", cx.real("rho", pos=True), E, mu, 1)
    sec = cx.mod("hyperstatic.core.fe_model.section.shell_section").ShellSection("s", mat, t, "plate")
    el = cx.mod("hyperstatic.core.fe_model.element.quad.TMQ").TMQ("e", sec, *N)
    K = el.integrate_K().toarray()
    T = el.local_csys.transform_matrix
    X = [tuple(T.dot(p - O)[:2]) for p in P]
    U = modes(X)
    cx.eq("size", list(K.shape), [12, 12])
    cx.eq("symmetric", K, K.T)
    cx.eq("no force under rigid motion", K.dot(U[:, :3]), np.zeros((12, 3)))
    A = sum(xy[i][0] * xy[(i + 1) % 4][1] - xy[(i + 1) % 4][0] * xy[i][1] for i in range(4)) / 2
    cx.eq("moments under uniform curvature", U[:, 3:].T.dot(K).dot(U[:, 3:]), M * A)
    b, g = cx.mod("hyperstatic.core.fe_model.meta.plates.TMQ").get_binary_BDB()
    pts = [c for p in X for c in p]
    q = cx.mod("quadpy").c2

    def integral(f, degree):
        return q.get_good_scheme(degree).integrate(
            lambda x: np.stack([f(E, mu, t, r, s, *pts) for r, s in zip(x[0], x[1])], axis=2), q.rectangle_points([-1, 1], [-1, 1]))
    ref = integral(b, 2) + integral(g, 2)
    if name == "rectangle" and not cx.same(K, ref):
        # a finer rule is as good
        for i, j in ((4, 2), (4, 4)):
            r = integral(b, i) + integral(g, j)
            if cx.same(K, r):
                ref = r
                break
    if name == "rectangle":
        cx.eq("stiffness is the integral of bending and shear", K, ref)
