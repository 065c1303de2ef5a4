"""C01 coordinate systems"""
import numpy as np
from hlib import harness, direction, rx, ry, rz, vec, cross, dot3, frame, rodrigues, right_handed

META = dict(
    functions=["hyperstatic.common.csys.Cartesian.*"],
    bounds="origin, points, normals, guides and angles: all reals; degenerate triples excluded by max|OA x OB| >= 0.001 "
           "(resp. |guide x normal|); sequences of two rotations; starting orientation any",
    outside="triples closer to collinear than 0.001 but not collinear; longer rotation sequences",
    warm="hyperstatic.common.csys",
)


def make(cx, T, O=(0, 0, 0)):
    C = cx.mod("hyperstatic.common.csys").Cartesian
    O = np.array(O)
    return C(O, O + T[0], O + T[1])


@harness(cases=["init", "set"])
def three_points(cx):
    C = cx.mod("hyperstatic.common.csys").Cartesian
    O, F, t = vec(cx, "O"), frame(cx, "f"), cx.angle("t", nom=(0.2, 2.9), unit=1)
    a, b = cx.real("a", lo=cx.q(1, 100), hi=1000, nom=(1, 3)), 2
    cx.assume(cx.sin(t) >= cx.q(1, 1000))
    # every non-degenerate triple is O, O + a F0, O + b (cos t F0 + sin t F1)
    A, B = O + a * F[0], O + b * (cx.cos(t) * F[0] + cx.sin(t) * F[1])
    if cx.case == "init":
        s = C(tuple(O), tuple(A), tuple(B), "n")
        cx.eq("name", s.name, "n")
    else:
        s = C((0, 0, 0), (1, 0, 0), (0, 1, 0))
        s.set_by_3pts(tuple(O), tuple(A), tuple(B))
    T = np.array(s.transform_matrix)
    cx.eq("x along OA, z along OA x OB, y on the side of B", T, F)
    cx.eq("x, y, z are the rows of the matrix", np.array([s.x, s.y, s.z]), T)
    cx.eq("origin", list(s.origin), list(O))


@harness()
def raw_points(cx):
    C = cx.mod("hyperstatic.common.csys").Cartesian
    A, B = vec(cx, "A"), vec(cx, "B")
    c = cross(A, B)
    cx.assume(cx.max_abs(c) >= cx.q(1, 1000))
    s = C((0, 0, 0), tuple(A), tuple(B))
    T = np.array(s.transform_matrix)
    right_handed(cx, "three points", T)
    cx.eq("x along OA", cross(T[0], A), [0, 0, 0])
    cx.lt("x towards A", 0, dot3(T[0], A))
    cx.eq("z normal to OA", dot3(T[2], A), 0)
    cx.eq("z normal to OB", dot3(T[2], B), 0)
    cx.lt("z along OA x OB", 0, dot3(T[2], c))
    cx.lt("B on the positive y side", 0, dot3(T[1], B))


@harness()
def collinear(cx):
    C = cx.mod("hyperstatic.common.csys").Cartesian
    O, u = vec(cx, "O"), vec(cx, "u")
    k, m = cx.real("k"), cx.real("m")
    # exactly collinear (or coincident) points on a small grid, so that floats agree
    cx.rejects("collinear points are refused", lambda: C((0, 0, 0), tuple(k * u), tuple(m * u)))
    cx.rejects("coincident points are refused", lambda: C(tuple(O), tuple(O), tuple(u)))


@harness(cases=["default guide", "guide"])
def by_normal(cx):
    C = cx.mod("hyperstatic.common.csys").Cartesian
    O = vec(cx, "O")
    k = cx.real("k", lo=cx.q(1, 1000), hi=1000, nom=(1, 3))
    if cx.case == "default guide":
        n = vec(cx, "n")
        g = np.array([0, 0, 1])
        cx.assume(cx.max_abs(cross(g, n)) >= cx.q(1, 1000))
        cx.assume(cx.max_abs(n) <= 1000)
        s = C.create_by_normal(tuple(O), tuple(n))
    else:
        F, t = frame(cx, "f"), cx.angle("t", nom=(0.2, 2.9), unit=1)
        cx.assume(cx.sin(t) >= cx.q(1, 1000))
        n, g = k * F[2], cx.real("m", lo=cx.q(1, 1000), hi=1000, nom=(1, 3)) * (cx.cos(t) * F[2] + cx.sin(t) * F[1])
        s = C.create_by_normal(tuple(O), tuple(n), tuple(g))
        cx.eq("z is the normal, y the guide's side", np.array(s.transform_matrix), F)
        cx.eq("origin", list(s.origin), list(O))
        return
    T = np.array(s.transform_matrix)
    right_handed(cx, "by normal", T)
    cx.eq("z along the normal", cross(T[2], n), [0, 0, 0])
    cx.lt("z towards the normal", 0, dot3(T[2], n))
    cx.eq("x normal to the guide", dot3(T[0], g), 0)
    cx.lt("x along guide x normal", 0, dot3(T[0], cross(g, n)))
    cx.eq("origin", list(s.origin), list(O))


@harness()
def normal_parallel(cx):
    C = cx.mod("hyperstatic.common.csys").Cartesian
    k = cx.real("k", nonzero=True)
    cx.rejects("a normal parallel to the guide is refused", lambda: C.create_by_normal((0, 0, 0), (0, 0, k)))


@harness(cases=["x", "y", "z"])
def local_rotation(cx):
    T0 = frame(cx, "f")
    t = cx.angle("t")
    s = make(cx, T0)
    {"x": s.rotate_about_x, "y": s.rotate_about_y, "z": s.rotate_about_z}[cx.case](t)
    c, n = cx.cos(t), cx.sin(t)
    L = {"x": [[1, 0, 0], [0, c, n], [0, -n, c]], "y": [[c, 0, -n], [0, 1, 0], [n, 0, c]],
         "z": [[c, n, 0], [-n, c, 0], [0, 0, 1]]}[cx.case]
    cx.eq("rotation about the own %s axis" % cx.case, np.array(s.transform_matrix), np.array(L).dot(T0))
    cx.eq("origin stays", list(s.origin), [0, 0, 0])


@harness(cases=["x", "y", "z"])
def global_rotation(cx):
    T0 = frame(cx, "f")
    t = cx.angle("t")
    s = make(cx, T0)
    {"x": s.rotate_about_external_x, "y": s.rotate_about_external_y, "z": s.rotate_about_external_z}[cx.case](t)
    R = {"x": rx, "y": ry, "z": rz}[cx.case](cx, t)
    cx.eq("rotation about the global %s axis" % cx.case, np.array(s.transform_matrix), T0.dot(R.T))
    cx.eq("origin stays", list(s.origin), [0, 0, 0])


@harness()
def vector_rotation(cx):
    a, t = cx.angle("a", unit=1), cx.angle("t")
    T0 = rz(cx, a).T
    v = vec(cx, "v")
    cx.assume(cx.max_abs(v) >= cx.q(1, 100))
    s = make(cx, T0)
    s.rotate_about_vec(v[0], v[1], v[2], t)
    l = cx.sqrt(dot3(v, v))
    R = rodrigues(cx, v / l, t)
    cx.eq("rotation about a vector", np.array(s.transform_matrix), T0.dot(R.T))


@harness(cases=["xy", "yz", "zx", "xx", "Xy", "vz"])
def two_rotations(cx):
    a = cx.angle("a", unit=1)
    s = make(cx, rz(cx, a).T)
    T = rz(cx, a).T
    for k, m in enumerate(cx.case):
        t = cx.angle("t%d" % k)
        if m == "v":
            s.rotate_about_vec(cx.q(2), cx.q(-1), cx.q(2), t)
            T = T.dot(rodrigues(cx, np.array([2, -1, 2]) / cx.q(3), t).T)
        elif m == "X":
            s.rotate_about_external_x(t)
            T = T.dot(rx(cx, t).T)
        else:
            {"x": s.rotate_about_x, "y": s.rotate_about_y, "z": s.rotate_about_z}[m](t)
            T = {"x": rx, "y": ry, "z": rz}[m](cx, t).T.dot(T)
    cx.eq("two rotations compose", np.array(s.transform_matrix), T)
    right_handed(cx, "after two rotations", np.array(s.transform_matrix))
    s.align_with_global()
    cx.eq("align_with_global resets", np.array(s.transform_matrix), np.eye(3))
    s.rotate_about_z(cx.angle("t0"))
    cx.eq("rotates again from the global axes", np.array(s.transform_matrix), rz(cx, cx.angle("t0")).T)


@harness()
def move_origin(cx):
    s = make(cx, frame(cx, "f"))
    T = np.array(s.transform_matrix)
    O = vec(cx, "O")
    s.origin = tuple(O)
    cx.eq("the origin can be moved", list(s.origin), list(O))
    cx.eq("moving the origin keeps the axes", np.array(s.transform_matrix), T)
