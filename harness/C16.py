"""C16 triangular shells"""
import numpy as np
from hlib import harness, cross, node, PLACES, spot, shell_model, elastic, part, rigid_motions, shell_axes

META = dict(
    functions=["Model.add_shell", "Model.get_shell_K", "Model.get_shell_transform_matrix", "Tria.__init__", "Tria.area", "DKT.integrate_K",
               "DKT.transform_matrix", "metaDKT.autofunc_c (C source)", "metaT9.autofunc_c (C source)", "Cartesian.create_by_normal"],
    bounds="every triangle (corner at any point, first side along a fixed in-plane direction, any side length, any apex) in twelve planes and "
           "in-plane directions, both ways round; every E > 0, Poisson ratio in [0, 0.49], thickness; a plane at any tilt about x or y; thorough: the first side in any direction of three planes",
    outside="rounding; planes other than those listed (the element's axes are checked to be right-handed and orthonormal with z along the normal "
            "in each); the accuracy of the quadrature rule (the stand-in integrates its polynomial exactly)",
)
def triangle(cx):
    a, c = cx.real("a", pos=True), cx.real("c", pos=True)
    return [(0, 0), (a, 0), (cx.real("b", lo=-10, hi=10), c)], a * c / 2


def areas(X):
    """twice the area and the gradients of the area coordinates, times it"""
    A2 = (X[1][0] - X[0][0]) * (X[2][1] - X[0][1]) - (X[2][0] - X[0][0]) * (X[1][1] - X[0][1])
    g = [(X[(i + 1) % 3][1] - X[(i + 2) % 3][1], X[(i + 2) % 3][0] - X[(i + 1) % 3][0]) for i in range(3)]
    return A2, g


def dkt(X, Db):
    """discrete Kirchhoff triangle from its definition; per node: w, rotation about x, rotation about y"""
    A2, g = areas(X)
    B = np.zeros((6, 2, 9), dtype=object)          # rotations at three corners and three midsides
    for i in range(3):
        B[i, 0, 3 * i + 2] = 1
        B[i, 1, 3 * i + 1] = -1
    for e, (i, j) in enumerate(((0, 1), (1, 2), (2, 0))):
        d = np.array([X[j][0] - X[i][0], X[j][1] - X[i][1]])
        s = B[i] + B[j]
        dw = np.zeros(9, dtype=object)
        dw[3 * j], dw[3 * i] = 1, -1
        r = (-6 * dw - 3 * (d[0] * s[0] + d[1] * s[1])) / (4 * (d[0] * d[0] + d[1] * d[1]))
        B[3 + e] = s / 2 + np.array([d[0] * r, d[1] * r])
    K = np.zeros((9, 9), dtype=object)
    for m in ((1, 1, 0), (0, 1, 1), (1, 0, 1)):   # midpoints of the sides, area coordinates times 2
        k = np.zeros((3, 9), dtype=object)
        for n in range(6):
            if n < 3:
                c = [(2 * m[n] - 1) * v for v in g[n]]
            else:
                i, j = ((0, 1), (1, 2), (2, 0))[n - 3]
                c = [2 * (m[i] * g[j][q] + m[j] * g[i][q]) for q in (0, 1)]
            k[0] = k[0] + c[0] * B[n, 0]
            k[1] = k[1] + c[1] * B[n, 1]
            k[2] = k[2] + c[1] * B[n, 0] + c[0] * B[n, 1]
        K = K + k.T.dot(Db).dot(k) / (6 * A2)
    return K


def cst(X, D):
    A2, g = areas(X)
    B = np.zeros((3, 6), dtype=object)
    for i, (b, c) in enumerate(g):
        B[0, 2 * i], B[1, 2 * i + 1], B[2, 2 * i], B[2, 2 * i + 1] = b, c, c, b
    return B.T.dot(D).dot(B) / (2 * A2)


def check(cx, xy, where, typ="shell", sign=1):
    O = np.array([cx.real("O" + k, lo=-10, hi=10) for k in "xyz"])
    P, n = spot(cx, xy, where, O)
    n = sign * n
    m, E, mu, t = shell_model(cx, P, None if typ == "shell" else typ)
    T, X = shell_axes(cx, m, P, n)
    K = m.get_shell_K("e").toarray()
    cx.eq("stiffness is symmetric", K, K.T)
    pl, me, dr = part(3, (2, 3, 4)), part(3, (0, 1)), part(3, (5,))
    cx.eq("bending and membrane action are separate", K[np.ix_(pl, me)], np.zeros((9, 6)))
    cx.eq("no drilling stiffness", K[dr], np.zeros((3, 18)))
    D = elastic(E, mu)
    bend = dkt(X, D * (t * t * t / 12)) if typ != "membrane" else np.zeros((9, 9))
    cx.eq("bending stiffness is the discrete Kirchhoff triangle's", K[np.ix_(pl, pl)], bend)
    if typ == "plate":
        cx.eq("a plate has no membrane stiffness", K[np.ix_(me, me)], np.zeros((6, 6)))
    G = T.T.dot(K).dot(T)
    r = G.dot(rigid_motions([p - O for p in P]))
    cx.eq("no force under translation", r[:, :3], np.zeros((18, 3)))
    w = r[:, 3:].dot(np.array([T[0, :3], T[1, :3], T[2, :3]]).T)
    cx.eq("no force under rotation about an axis in the plane", w[:, :2], np.zeros((18, 2)))
    M = K[np.ix_(me, me)]
    tag = as_listed(cx, M, X, D, t)
    cx.eq("no force under rotation in the plane" + tag, w[:, 2], np.zeros(18))
    if typ != "plate":
        ref = t * cst(X, D)
        # uniform strains: displacements at the corners
        s = np.zeros((6, 3), dtype=object)
        for i, (x, y) in enumerate(X):
            s[2 * i, 0], s[2 * i + 1, 1], s[2 * i, 2], s[2 * i + 1, 2] = x, y, y / 2, x / 2
        cx.eq("uniform membrane strain" + tag, M.dot(s), ref.dot(s))
        cx.eq("membrane stiffness" + tag, M, ref)


def as_listed(cx, M, X, D, t):
    """the listed finding: derivatives along x in place of those along y, twice the thickness"""
    A2, g = areas(X)
    B = np.zeros((3, 6), dtype=object)
    for i, (b, c) in enumerate(g):
        B[0, 2 * i], B[1, 2 * i + 1], B[2, 2 * i], B[2, 2 * i + 1] = b, b, b, b
    return " (x-derivatives for y)" if cx.same(M, t * B.T.dot(D).dot(B) / A2) else ""


@harness(cases=sorted(PLACES), seconds=120)
def placed(cx):
    xy, area = triangle(cx)
    check(cx, xy, cx.case)


@harness(cases=[(t, w) for t in ("membrane", "plate") for w in ("up", "roof")], seconds=120)
def by_type(cx):
    """membranes do not bend, plates do not stretch"""
    xy, area = triangle(cx)
    check(cx, xy, cx.case[1], cx.case[0])


@harness(cases=[1, 2, "back"], seconds=120)
def corner_order(cx):
    """first corner elsewhere, or the other way round"""
    xy, area = triangle(cx)
    xy = xy[::-1] if cx.case == "back" else xy[cx.case:] + xy[:cx.case]
    check(cx, xy, "up", sign=-1 if cx.case == "back" else 1)


@harness(cases=["x", "y"], seconds=120)
def tilted(cx):
    """a plane at any angle to the horizontal about the x or y axis"""
    t = cx.angle("tilt", unit=1)
    c, s = cx.cos(t), cx.sin(t)
    xy, area = triangle(cx)
    axes = (np.array([1, 0, 0]), np.array([0, c, s])) if cx.case == "x" else (np.array([0, 1, 0]), np.array([-c, 0, s]))
    check(cx, xy, axes)


@harness(cases=["up", "down", "wall y", "roof"], seconds=60)
def area(cx):
    xy, ref = triangle(cx)
    P, n = spot(cx, xy, cx.case, np.array([cx.real("O" + k, lo=-10, hi=10) for k in "xyz"]))
    N = [node(cx, k, p) for k, p in zip("ijk", P)]
    e = cx.mod("hyperstatic.core.fe_model.element.tria.DKT").DKT("e", None, *N)
    cx.eq("area", e.area, ref)


@harness(tier="thorough", cases=["up", "wall x", "roof"], seconds=200)
def any_direction(cx):
    """the first side in any direction of the plane"""
    t = cx.angle("turn", unit=1)
    c, s = cx.cos(t), cx.sin(t)
    xy, area = triangle(cx)
    check(cx, [(c * x - s * y, s * x + c * y) for x, y in xy], cx.case)


@harness(tier="thorough", seconds=200)
def any_plane(cx):
    """a plane in any position: azimuth and tilt free"""
    z, t = cx.angle("azimuth", unit=1), cx.angle("tilt", unit=1)
    (p, q), (c, s) = (cx.cos(z), cx.sin(z)), (cx.cos(t), cx.sin(t))
    xy, area = triangle(cx)
    check(cx, xy, (np.array([p, q, 0]), np.array([-q * c, p * c, s])))
