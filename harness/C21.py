"""C21 interpolation along a member"""
import numpy as np
from hlib import harness, line, length

META = dict(
    functions=["Beam.interpolate", "Beam.interpolate1", "Beam.get_shape_function", "SimpleBeam.*", "Model.get_beam_interpolate*"],
    bounds="every station in [0, 1], every length, every linear axial/torsional and cubic transverse field",
    outside="rounding. Sign convention taken from the code: the second transverse group is the deflection along -z, "
            "whose slope is the rotation about y",
)


def field(cx, deg, tag):
    c = [cx.real("%s%d" % (tag, k)) for k in range(deg + 1)]
    return (lambda x: sum(c[k] * x ** k for k in range(deg + 1))), (lambda x: sum(k * c[k] * x ** (k - 1) for k in range(1, deg + 1)))


def reproduce(cx, tag, N, N1, L, xi):
    x = xi * L
    u, du = field(cx, 1, "a")
    t, dt = field(cx, 1, "t")
    v, dv = field(cx, 3, "v")
    w, dw = field(cx, 3, "w")
    cx.eq(tag + ": axial", N[0] * u(0) + N[1] * u(L), u(x))
    cx.eq(tag + ": twist", N[10] * t(0) + N[11] * t(L), t(x))
    d3 = [v(0), dv(0), v(L), dv(L)]
    d2 = [w(0), -dw(0), w(L), -dw(L)]
    cx.eq(tag + ": deflection along y", sum(a * b for a, b in zip(N[2:6], d3)), v(x))
    cx.eq(tag + ": deflection along -z", sum(a * b for a, b in zip(N[6:10], d2)), -w(x))
    if N1 is not None:
        cx.eq(tag + ": axial strain", N1[0] * u(0) + N1[1] * u(L), du(x))
        cx.eq(tag + ": rate of twist", N1[10] * t(0) + N1[11] * t(L), dt(x))
        cx.eq(tag + ": slope of y", sum(a * b for a, b in zip(N1[2:6], d3)), dv(x))
        cx.eq(tag + ": slope of -z", sum(a * b for a, b in zip(N1[6:10], d2)), -dw(x))


@harness(cases=["Beam", "SimpleBeam"])
def fields(cx):
    L = length(cx)
    b, p = line(cx, cx.case, L)
    xi = cx.real("xi", lo=0, hi=1, nom=(0, 1))
    reproduce(cx, "values", b.interpolate(xi), b.interpolate1(xi), L, xi)
    reproduce(cx, "shape functions", [f(xi) for f in b.get_shape_function()], None, L, xi)


@harness(cases=["Beam", "SimpleBeam"])
def ends(cx):
    L = length(cx)
    b, p = line(cx, cx.case, L)
    u = [cx.real("u%d" % k) for k in range(12)]
    for xi, o in ((0, 0), (1, 6)):
        N, N1 = b.interpolate(xi), b.interpolate1(xi)
        cx.eq("axial end value", N[0] * u[0] + N[1] * u[6], u[o])
        cx.eq("twist end value", N[10] * u[3] + N[11] * u[9], u[3 + o])
        cx.eq("end deflection along y", N[2] * u[1] + N[3] * u[5] + N[4] * u[7] + N[5] * u[11], u[1 + o])
        cx.eq("end deflection along -z", N[6] * u[2] + N[7] * u[4] + N[8] * u[8] + N[9] * u[10], -u[2 + o])
        cx.eq("end slope about z", N1[2] * u[1] + N1[3] * u[5] + N1[4] * u[7] + N1[5] * u[11], u[5 + o])
        cx.eq("end slope about y", N1[6] * u[2] + N1[7] * u[4] + N1[8] * u[8] + N1[9] * u[10], u[4 + o])


@harness()
def through_the_model(cx):
    M = cx.mod("hyperstatic.core.fe_model.model").Model()
    L = length(cx)
    M.add_node("1", 0, 0, 0)
    M.add_node("2", L, 0, 0)
    M.add_node("3", 0, 2 * L, 0)
    M.add_simple_beam("c", "1", "3", 1, 0, 1, 1, 1, 1, 1)
    M.add_simple_beam("b", "1", "2", 1, 0, 1, 1, 1, 1, 1)
    xi = cx.real("xi", lo=0, hi=1, nom=(0, 1))
    reproduce(cx, "model query", M.get_beam_interpolate("b", xi), M.get_beam_interpolate1("b", xi), L, xi)
    reproduce(cx, "model shape functions", [f(xi) for f in M.get_beam_shape_function("b")], None, L, xi)
