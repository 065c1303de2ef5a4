"""C17 quadrilateral shells"""
import numpy as np
from hlib import harness, node, PLACES, spot, shell_model, elastic, part, rigid_motions, shell_axes

META = dict(
    functions=["Model.add_shell", "Model.get_shell_K", "Model.get_shell_transform_matrix", "Quad.__init__", "Quad.area", "DKGQ.integrate_K",
               "DKGQ.transform_matrix", "metaGQ12.autofunc_c (C source)", "metaDKQ.autofunc_c (C source)", "Cartesian.create_by_normal"],
    bounds="every rectangle, parallelogram and right trapezium (any side lengths, corner at any point) in the planes listed, both ways round; fixed "
           "irregular quadrilaterals at any scale; every E > 0, Poisson ratio in [0, 0.49], thickness; the membrane kernel at every point of "
           "every quadrilateral",
    outside="rounding; the accuracy of the quadrature rule the element asks for (the stand-in's rule is applied to the reference too); warped "
            "quadrilaterals",
)
XI, ETA = (-1, 1, 1, -1), (-1, -1, 1, 1)


def shape(cx, name):
    a, c = cx.real("a", pos=True), cx.real("c", pos=True)
    if name == "rectangle":
        return [(0, 0), (a, 0), (a, c), (0, c)]
    if name == "parallelogram":
        b = cx.real("b", lo=-10, hi=10)
        return [(0, 0), (a, 0), (a + b, c), (b, c)]
    if name == "trapezium":
        return [(0, 0), (2 * c, 0), (a, c), (0, c)]
    if name == "kite":
        return [(0, 0), (2 * a, -a), (3 * a, 3 * a), (-a, 2 * a)]
    return [(0, 0), (4 * a, a), (5 * a, 4 * a), (a, 2 * a)]


def jacobian(X, s, t):
    """x_s, y_s, x_t, y_t"""
    ds = [sum(XI[i] * (1 + ETA[i] * t) * X[i][c] for i in range(4)) / 4 for c in (0, 1)]
    dt = [sum(ETA[i] * (1 + XI[i] * s) * X[i][c] for i in range(4)) / 4 for c in (0, 1)]
    return ds[0], ds[1], dt[0], dt[1]


def gq12(X, D, t, s, e, listed=False):
    """membrane with drilling rotations, at a point; per node u, v, rotation.  corner numbering of the element starts at (1, -1)"""
    xi, eta = (1, 1, -1, -1), (-1, 1, 1, -1)
    S = lambda f, c: sum(f[i] * X[i][c] for i in range(4)) / 4
    m = [xi[i] * eta[i] for i in range(4)]
    a1, a2, a3, b1, b2, b3 = S(xi, 0), S(eta, 0), S(m, 0), S(xi, 1), S(eta, 1), S(m, 1)
    xs, ys, xe, ye = a1 + a3 * e, b1 + b3 * e, a2 + a3 * s, b2 + b3 * s
    det = xs * ye - ys * xe
    B = np.zeros((3, 12), dtype=object)
    for i in range(4):
        p, q = 1 + xi[i] * s, 1 + eta[i] * e
        ns, ne = xi[i] * q / 4, eta[i] * p / 4
        k, dk = (s, 1) if listed else (xi[i], 0)
        f, fs = k * (1 - s * s), dk * (1 - s * s) - 2 * s * k
        g, ge = eta[i] * (1 - e * e), -2 * e * eta[i]
        cu, du = b1 + b3 * eta[i], b2 + b3 * xi[i]
        cv, dv = a1 + a3 * eta[i], a2 + a3 * xi[i]
        us = (fs * cu * q + g * du * xi[i]) / 8
        ue = (f * cu * eta[i] + ge * du * p) / 8
        vs = -(fs * cv * q + g * dv * xi[i]) / 8
        ve = -(f * cv * eta[i] + ge * dv * p) / 8
        dx = lambda h, l: ye * h - ys * l
        dy = lambda h, l: xs * l - xe * h
        B[0, 3 * i], B[1, 3 * i + 1], B[2, 3 * i], B[2, 3 * i + 1] = dx(ns, ne), dy(ns, ne), dy(ns, ne), dx(ns, ne)
        B[0, 3 * i + 2], B[1, 3 * i + 2] = dx(us, ue), dy(vs, ve)
        B[2, 3 * i + 2] = dy(us, ue) + dx(vs, ve)
    return t * B.T.dot(D).dot(B) / det


def dkq(X, Db, s, e, listed=False):
    """discrete Kirchhoff quadrilateral at a point; per node: w, rotation about x, rotation about y"""
    H = np.zeros((8, 2, 12), dtype=object)
    for i in range(4):
        H[i, 0, 3 * i + 2] = 1
        H[i, 1, 3 * i + 1] = -1
    for k in range(4):
        i, j = k, (k + 1) % 4
        d = [X[j][0] - X[i][0], X[j][1] - X[i][1]]
        c = H[i] + H[j]
        dw = np.zeros(12, dtype=object)
        dw[3 * j], dw[3 * i] = 1, -1
        r = (-6 * dw - 3 * (d[0] * c[0] + d[1] * c[1])) / (4 * (d[0] * d[0] + d[1] * d[1]))
        H[4 + k] = c / 2 + np.array([d[0] * r, d[1] * r])
    N = []
    for i in range(4):
        p, q = 1 + XI[i] * s, 1 + ETA[i] * e
        N.append((XI[i] * q * (2 * XI[i] * s + ETA[i] * e) / 4, ETA[i] * p * (XI[i] * s + 2 * ETA[i] * e) / 4))
    N += [(-s * (1 - e), -(1 - s * s) / 2), ((1 - e * e) / 2, -e * (1 + s)), (-s * (1 + e), (1 - s * s) / 2), (-(1 - e * e) / 2, -e * (1 - s))]
    Hs = sum(N[n][0] * H[n] for n in range(8))
    He = sum(N[n][1] * H[n] for n in range(8))
    xs, ys, xe, ye = jacobian(X, s, e)
    det = xs * ye - ys * xe
    if listed:
        j11, j12, j21, j22 = xs, -ys, -xe, ye
    else:
        j11, j12, j21, j22 = ye, -ys, -xe, xs
    B = np.zeros((3, 12), dtype=object)
    B[0] = j11 * Hs[0] + j12 * He[0]
    B[1] = j21 * Hs[1] + j22 * He[1]
    B[2] = j11 * Hs[1] + j12 * He[1] + j21 * Hs[0] + j22 * He[0]
    return B.T.dot(Db).dot(B) / det


def integral(cx, f, degree):
    q = cx.mod("quadpy").c2
    return q.get_good_scheme(degree).integrate(lambda x: np.stack([f(s, e) for s, e in zip(x[0], x[1])], axis=2),
                                               q.rectangle_points([-1, 1], [-1, 1]))


def matching(cx, K, right, listed, note):
    """the reference, by the rule the element uses, and a note if the listed formula is the one in use"""
    for degree in (2, 4):
        r = integral(cx, right, degree)
        if cx.same(K, r):
            return r, ""
        if cx.same(K, integral(cx, listed, degree)):
            return r, note
    return integral(cx, right, 2), ""


def check(cx, xy, where, typ="shell", sign=1):
    O = np.array([cx.real("O" + k, lo=-10, hi=10) for k in "xyz"])
    P, n = spot(cx, xy, where, O)
    m, E, mu, t = shell_model(cx, P, None if typ == "shell" else typ)
    T, X = shell_axes(cx, m, P, sign * n)
    K = m.get_shell_K("e").toarray()
    cx.eq("stiffness is symmetric", K, K.T)
    pl, me = part(4, (2, 3, 4)), part(4, (0, 1, 5))
    cx.eq("bending and membrane action are separate", K[np.ix_(pl, me)], np.zeros((12, 12)))
    D = elastic(E, mu)
    b, M = K[np.ix_(pl, pl)], K[np.ix_(me, me)]
    G = T.T.dot(K).dot(T)
    r = G.dot(rigid_motions([p - O for p in P]))
    cx.eq("no force under translation", r[:, :3], np.zeros((24, 3)))
    w = r[:, 3:].dot(np.array([T[0, :3], T[1, :3], T[2, :3]]).T)
    cx.eq("no force under rotation about an axis in the plane", w[:, :2], np.zeros((24, 2)))
    if typ == "membrane":
        cx.eq("a membrane has no bending stiffness", b, np.zeros((12, 12)))
    else:
        Db = D * (t * t * t / 12)
        ref, tag = matching(cx, b, lambda s, e: dkq(X, Db, s, e), lambda s, e: dkq(X, Db, s, e, True), " (inverse Jacobian diagonal exchanged)")
        cx.eq("bending stiffness is the discrete Kirchhoff quadrilateral's" + tag, b, ref)
    if typ == "plate":
        cx.eq("a plate has no membrane stiffness", M, np.zeros((12, 12)))
    else:
        ref, tag = matching(cx, M, lambda s, e: gq12(X, D, t, s, e), lambda s, e: gq12(X, D, t, s, e, True), " (xi for the corner's xi)")
        cx.eq("no force under rotation in the plane" + tag, w[:, 2], np.zeros(24))
        s = np.zeros((12, 3), dtype=object)
        for i, (x, y) in enumerate(X):
            s[3 * i, 0], s[3 * i + 1, 1], s[3 * i, 2], s[3 * i + 1, 2] = x, y, y / 2, x / 2
        f = M.dot(s)
        # forces of a uniform stress on the sides, half to each end
        N, ux = D * t, np.zeros((8, 3), dtype=object)
        for i in range(4):
            (x0, y0), (x1, y1) = X[(i + 3) % 4], X[(i + 1) % 4]
            nx, ny = (y1 - y0) / 2, (x0 - x1) / 2
            ux[2 * i] = nx * N[0] + ny * N[2]
            ux[2 * i + 1] = ny * N[1] + nx * N[2]
        cx.eq("uniform membrane strain", f[[3 * i + k for i in range(4) for k in (0, 1)]], ux)
        cx.eq("membrane stiffness" + tag, M, ref)


@harness(cases=[("rectangle", w) for w in sorted(PLACES)] + [(s, w) for s in ("parallelogram", "trapezium", "kite", "fixed") for w in ("up", "roof")],
         seconds=150)
def placed(cx):
    s, w = cx.case
    check(cx, shape(cx, s), w)


@harness(cases=[(t, w) for t in ("membrane", "plate") for w in ("up", "roof")], seconds=120)
def by_type(cx):
    """membranes do not bend, plates do not stretch"""
    check(cx, shape(cx, "rectangle"), cx.case[1], cx.case[0])


@harness(cases=[1, 2, 3, "back"], seconds=120)
def corner_order(cx):
    """first corner elsewhere, or the other way round"""
    xy = shape(cx, "trapezium" if cx.case == "back" else "rectangle")
    xy = xy[::-1] if cx.case == "back" else xy[cx.case:] + xy[:cx.case]
    check(cx, xy, "up", sign=-1 if cx.case == "back" else 1)


@harness(cases=["up", "down", "wall y", "roof"], seconds=60)
def area(cx):
    """any quadrilateral with its fourth corner within the strip over the third side's foot"""
    a, c, b, d = [cx.real(k, pos=True) for k in "acbd"]
    xy = [(0, 0), (a, -b), (a, c), (0, d)]
    P, n = spot(cx, xy, cx.case, np.array([cx.real("O" + k, lo=-10, hi=10) for k in "xyz"]))
    N = [node(cx, k, p) for k, p in zip("ijkl", P)]
    e = cx.mod("hyperstatic.core.fe_model.element.quad.DKGQ").DKGQ("e", None, *N)
    cx.eq("area", e.area, a * (b + c + d) / 2)


@harness(tier="thorough", cases=["rectangle", "parallelogram"], seconds=200)
def any_direction(cx):
    """the first side in any direction of the plane"""
    t = cx.angle("turn", unit=1)
    c, s = cx.cos(t), cx.sin(t)
    check(cx, [(c * x - s * y, s * x + c * y) for x, y in shape(cx, cx.case)], "up")


@harness(cases=["x", "y"], seconds=150)
def tilted(cx):
    """a plane at any angle to the horizontal about the x or y axis"""
    t = cx.angle("tilt", unit=1)
    c, s = cx.cos(t), cx.sin(t)
    axes = (np.array([1, 0, 0]), np.array([0, c, s])) if cx.case == "x" else (np.array([0, 1, 0]), np.array([-c, 0, s]))
    check(cx, shape(cx, "rectangle"), axes)


@harness(cases=["quadrilateral"], seconds=150)
def membrane_kernel(cx):
    """the membrane integrand at every point of every quadrilateral with a corner at the origin and a side along x"""
    a = cx.real("a", pos=True)
    X = [(0, 0), (a, 0)] + [(cx.real("x%d" % i, lo=-10, hi=10), cx.real("y%d" % i, lo=-10, hi=10)) for i in (2, 3)]
    E, mu, t = cx.real("E", pos=True), cx.real("mu", lo=0, hi=cx.q(49, 100), nom=(0, 0.49)), cx.real("t", pos=True)
    s, e = cx.real("xi", lo=-1, hi=1), cx.real("eta", lo=-1, hi=1)
    xs, ys, xe, ye = jacobian(X[3:] + X[:3], s, e)          # the kernel starts at (1, -1)
    cx.assume_nonzero(xs * ye - ys * xe)
    f = cx.mod("hyperstatic.core.fe_model.meta.membranes.GQ12").get_binary_BDB()
    K = f(E, mu, t, s, e, *[c for p in X for c in p])
    D = elastic(E, mu)
    right, listed = gq12(X, D, t, s, e), gq12(X, D, t, s, e, True)
    tag = " (xi for the corner's xi)" if cx.same(K, listed) else ""
    uv = [3 * i + k for i in range(4) for k in (0, 1)]
    cx.eq("bilinear part", K[np.ix_(uv, uv)], right[np.ix_(uv, uv)])
    cx.eq("membrane integrand" + tag, K, right)
