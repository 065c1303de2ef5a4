"""C02 member and node axes"""
import numpy as np
from hlib import harness, rx, ry, rz, vec, cross, dot3, frame, direction, right_handed, beam_section, node

META = dict(
    functions=["Node.*", "Line.*", "Beam.rotation", "Cartesian.*"],
    bounds="node positions: all reals (member length 0.01 to 1000); inclined, vertical and nearly vertical members; "
           "rotation angles: all reals; up to two successive rotations",
    outside="members shorter than 0.01; rounding",
)


def ends(cx, kind):
    """the two end positions and the expected length"""
    O = vec(cx, "O")
    if kind == "inclined":
        a = cx.angle("a", unit=1)
        b = cx.angle("b", unit=1, nom=(-1.4, 1.4))
        L = cx.real("L", lo=cx.q(1, 100), hi=1000, nom=(1, 3))
        cx.assume(cx.cos(b) >= cx.q(1, 10000))
        d = np.array([cx.cos(a) * cx.cos(b), cx.sin(a) * cx.cos(b), cx.sin(b)])
        return O, O + L * d, L, d
    if kind in ("up", "down"):
        L = cx.real("L", lo=cx.q(1, 100), hi=1000, nom=(1, 3))
        d = np.array([0, 0, 1 if kind == "up" else -1])
        return O, O + L * d, L, d


def make(cx, cls, A, B):
    i, j = node(cx, "i", A), node(cx, "j", B)
    if cls == "SimpleBeam":
        return cx.mod("hyperstatic.core.fe_model.element.line.simple_beam").SimpleBeam("b", i, j, 2, cx.q(3, 10), 1, 1, 1, 1, 1)
    return cx.mod("hyperstatic.core.fe_model.element.line.beam").Beam("b", i, j, beam_section(cx))


def blocks(cx, tag, T, V):
    n = T.shape[0] // 3
    E = np.zeros((3 * n, 3 * n), dtype=object)
    for k in range(n):
        E[3 * k:3 * k + 3, 3 * k:3 * k + 3] = V
    cx.eq(tag + ": block diagonal of the axes", T, E)


@harness(cases=[(k, c) for k in ("inclined", "up", "down") for c in ("Beam", "SimpleBeam")])
def member_axes(cx):
    kind, cls = cx.case
    A, B, L, d = ends(cx, kind)
    b = make(cx, cls, A, B)
    V = np.array(b.local_csys.transform_matrix)
    right_handed(cx, "member", V)
    cx.eq("local x runs from end i to end j", V[0], d)
    if kind == "inclined":
        # local y is horizontal, z completes it: the x-z plane is vertical
        cx.eq("local z is horizontal", V[2][2], 0)
        cx.lt("local y points upwards", 0, V[1][2])
    else:
        cx.eq("local y of a vertical member is global x", V[1], [1, 0, 0])
    cx.eq("length", b.length, L)
    cx.eq("end positions", [list(b.start), list(b.end)], [list(A), list(B)])
    blocks(cx, "member transform", b.transform_matrix.toarray(), V)


@harness()
def near_vertical(cx):
    """a small plan offset, down to zero, never leaves a member without axes"""
    dx = cx.real("dx", lo=0, hi=cx.q(1, 1000), nom=(0, 0.001))
    b = make(cx, "SimpleBeam", np.array([0, 0, 0]), np.array([dx, 0, 3]))
    V = np.array(b.local_csys.transform_matrix)
    cx.eq("local x runs along the member", V[0] * cx.sqrt(dx * dx + 9), [dx, 0, 3])
    right_handed(cx, "member", V)


@harness()
def coincident(cx):
    P = vec(cx, "P")
    cx.rejects("coincident ends are refused", lambda: make(cx, "SimpleBeam", P, P))


@harness(cases=[(c, k) for c in ("Beam", "SimpleBeam") for k in (1, 2, 3)])
def member_rotation(cx):
    cls, turns = cx.case
    a = cx.angle("a", unit=1)
    b = make(cx, cls, np.array([0, 0, 0]), np.array([2 * cx.cos(a), 2 * cx.sin(a), 0]))
    V = np.array(b.local_csys.transform_matrix)
    for k in range(turns):
        t = cx.angle("t%d" % k)
        b.rotation = t
        cx.eq("the rotation is kept", b.rotation, t)
    cx.eq("the rotation turns the section about the member axis", np.array(b.local_csys.transform_matrix), rx(cx, t).T.dot(V))
    blocks(cx, "rotated member transform", b.transform_matrix.toarray(), np.array(b.local_csys.transform_matrix))


@harness(cases=["", "1", "2", "3", "12", "31", "23"])
def node_axes(cx):
    P = vec(cx, "P")
    n = node(cx, "n", P)
    V = np.eye(3)
    for k, c in enumerate(cx.case):
        t = cx.angle("t%d" % k)
        {"1": n.rotate_about_1axis, "2": n.rotate_about_2axis, "3": n.rotate_about_3axis}[c](t)
        V = {"1": rx, "2": ry, "3": rz}[c](cx, t).T.dot(V)
    cx.eq("position", [n.x, n.y, n.z], P)
    cx.eq("location", list(n.loc), P)
    cx.eq("name", n.name, "n")
    cx.eq("axes", np.array(n.local_csys.transform_matrix), V)
    blocks(cx, "node transform", np.array(n.transform_matrix), V)
    n.initialize_csys()
    blocks(cx, "reset node transform", np.array(n.transform_matrix), np.eye(3))
    cx.eq("position after a reset", [n.x, n.y, n.z], P)
    cx.eq("location after a reset", list(n.loc), P)
    cx.eq("name after a reset", n.name, "n")
    cx.eq("a node starts without mass", list(n.mass), [0] * 6)
    m = [cx.real("m%d" % k) for k in range(6)]
    n.mass = np.array(m)
    cx.eq("mass matrix", n.integrate_M().toarray(), np.diag(np.array(m, dtype=object)))
