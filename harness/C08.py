"""C08 section properties"""
import numpy as np
from hlib import harness

META = dict(
    functions=["BeamSection.*", "RectangleSection", "BoxSection", "PipeSection", "CircleSection", "ISection", "ShellSection.*",
               "app.general.property.frame_section: Rectangle, Circle, Pipe, HollowBox, ISection, ISection2"],
    bounds="all admissible dimensions of each shape (solid part positive); constants compared to a relative 1e-5, because the program "
           "works with pi = 3.14159",
    outside="the truncation error of the membrane-analogy series for the torsion constant (30 and 15 terms are compared with the same series)",
)
PI = (31415926536, 10000000000)


def mat(cx):
    M = cx.mod("hyperstatic.core.fe_model.material.isotropy").IsotropicMaterial
    return M("m", cx.real("rho", pos=True), cx.real("E", pos=True), cx.real("mu", lo=0, hi=cx.q(49, 100), nom=(0, 0.49)), 1)


def sec(cx, name, *dims):
    return getattr(cx.mod("hyperstatic.core.fe_model.section.beam_section"), name)("s", mat(cx), *dims)


def props(cx, s, A, I22, I33, b, h):
    cx.eq("area", s.A, A, tol=1e-5)
    cx.eq("inertia about 2-2", s.I22, I22, tol=1e-5)
    cx.eq("inertia about 3-3", s.I33, I33, tol=1e-5)
    cx.eq("modulus about 2-2", s.W22 * b / 2, s.I22)
    cx.eq("modulus about 3-3", s.W33 * h / 2, s.I33)
    cx.eq("radius of gyration about 2-2", s.i22 ** 2 * s.A, s.I22)
    cx.eq("radius of gyration about 3-3", s.i33 ** 2 * s.A, s.I33)
    cx.eq("mass per length", s.lamda, s.rho * s.A)
    for n in ("A", "As2", "As3", "I22", "I33", "W22", "W33"):
        cx.lt(n + " is positive", 0, getattr(s, n))
    cx.le("shear areas are parts of the area", s.As2, s.A)
    cx.eq("name", s.name, "s")


def rect_J(cx, h, b, n):
    """membrane analogy, h b^3 (1/3 - 64 b/(pi^5 h) sum tanh(m pi h/2b)/m^5)"""
    pi = cx.q(*PI)
    S = sum(cx.tanh(m * pi * h / 2 / b) / m ** 5 for m in range(1, n, 2))
    return h * b ** 3 * (cx.q(1, 3) - 64 * b / (pi ** 5 * h) * S)


@harness()
def rectangle(cx):
    h, b = cx.real("h", pos=True), cx.real("b", pos=True)
    s = sec(cx, "RectangleSection", h, b)
    props(cx, s, b * h, h * b ** 3 / 12, b * h ** 3 / 12, b, h)
    cx.eq("shear areas", [s.As2, s.As3], [b * h * 5 / 6] * 2)
    cx.eq("shape and sizes", [s.shape, list(s.sizes)], ["R", [h, b]])


@harness()
def rectangle_torsion(cx):
    r = cx.real("r", lo=cx.q(1, 20), hi=20, nom=(0.2, 5))
    s = sec(cx, "RectangleSection", r, cx.q(1))
    cx.eq("torsion coefficient", s.J / r, rect_J(cx, r, cx.q(1), 60) / r, tol=0, atol=2e-6)


@harness()
def rectangle_torsion_scale(cx):
    """similar rectangles: the torsion constant grows with the fourth power"""
    h, b, k = cx.real("h", pos=True), cx.real("b", pos=True), cx.real("k", pos=True)
    s, t = sec(cx, "RectangleSection", h, b), sec(cx, "RectangleSection", k * h, k * b)
    cx.eq("torsion constant of a scaled rectangle", t.J, k ** 4 * s.J)


@harness()
def box(cx):
    tw, tf = cx.real("tw", pos=True), cx.real("tf", pos=True)
    bi, hi = cx.real("bi", pos=True), cx.real("hi", pos=True)
    b, h = bi + 2 * tw, hi + 2 * tf
    s = sec(cx, "BoxSection", h, b, tw, tf)
    props(cx, s, b * h - bi * hi, (h * b ** 3 - hi * bi ** 3) / 12, (b * h ** 3 - bi * hi ** 3) / 12, b, h)
    Am = (bi + tw) * (hi + tf)
    cx.eq("torsion constant (Bredt)", s.J * (2 * (bi + tw) / tf + 2 * (hi + tf) / tw), 4 * Am ** 2)
    cx.eq("shear areas", [s.As2, s.As3], [2 * tw * h, 2 * tf * b])
    cx.eq("shape and sizes", [s.shape, list(s.sizes)], ["box", [h, b, tw, tf]])


@harness()
def pipe(cx):
    t, di = cx.real("t", pos=True), cx.real("di", pos=True)
    d, pi = di + 2 * t, cx.q(*PI)
    s = sec(cx, "PipeSection", d, t)
    I = pi * (d ** 4 - di ** 4) / 64
    props(cx, s, pi * (d ** 2 - di ** 2) / 4, I, I, d, d)
    cx.eq("torsion constant", s.J, 2 * I, tol=1e-5)
    cx.eq("shear areas", [s.As2, s.As3], [pi * (d ** 2 - di ** 2) / 8] * 2, tol=1e-5)
    cx.eq("shape and sizes", [s.shape, list(s.sizes)], ["pipe", [d, t]])


@harness()
def circle(cx):
    d, pi = cx.real("d", pos=True), cx.q(*PI)
    s = sec(cx, "CircleSection", d)
    I = pi * d ** 4 / 64
    props(cx, s, pi * d ** 2 / 4, I, I, d, d)
    cx.eq("torsion constant", s.J, 2 * I, tol=1e-5)
    cx.eq("shear areas", [s.As2, s.As3], [pi * d ** 2 / 4 * cx.q(9, 10)] * 2, tol=1e-5)
    cx.eq("shape and sizes", [s.shape, list(s.sizes)], ["circle", [d]])


@harness()
def hollow_limit(cx):
    """a pipe without hole is the solid circle, a box without hole the solid rectangle"""
    d = cx.real("d", pos=True)
    a, b = sec(cx, "PipeSection", d, d / 2), sec(cx, "CircleSection", d)
    for n in ("A", "J", "I22", "I33", "W22", "W33"):
        cx.eq("pipe without hole: " + n, getattr(a, n), getattr(b, n))
    h, w = cx.real("h", pos=True), cx.real("w", pos=True)
    c, r = sec(cx, "BoxSection", h, w, w / 2, h / 2), sec(cx, "RectangleSection", h, w)
    for n in ("A", "I22", "I33", "W22", "W33"):
        cx.eq("box without hole: " + n, getattr(c, n), getattr(r, n))


@harness()
def I_section(cx):
    tw, tf, hw, o = [cx.real(k, pos=True) for k in ("tw", "tf", "hw", "o")]
    b, h = tw + o, hw + 2 * tf
    s = sec(cx, "ISection", h, b, tw, tf)
    props(cx, s, 2 * b * tf + hw * tw, (2 * tf * b ** 3 + hw * tw ** 3) / 12, (b * h ** 3 - o * hw ** 3) / 12, b, h)
    cx.eq("shear areas", [s.As2, s.As3], [tw * h, cx.q(5, 3) * tf * b])
    cx.eq("shape and sizes", [s.shape, list(s.sizes)], ["I", [h, b, tw, tf]])


@harness()
def I_torsion(cx):
    """torsion constant: the sum over two flanges and the web"""
    r, q = cx.real("r", lo=cx.q(1, 20), hi=1, nom=(0.1, 1)), cx.real("q", lo=cx.q(1, 20), hi=1, nom=(0.1, 1))
    hw = cx.q(1)
    tf, b, tw = r, cx.q(1), q
    s = sec(cx, "ISection", hw + 2 * tf, b, tw, tf)
    cx.eq("torsion constant", s.J, 2 * rect_J(cx, tf, b, 30) + rect_J(cx, tw, hw, 30), tol=0, atol=1e-4)


@harness()
def general(cx):
    v = [cx.real(k, pos=True) for k in ("A", "As2", "As3", "J", "I22", "I33", "W22", "W33")]
    s = cx.mod("hyperstatic.core.fe_model.section.beam_section").BeamSection("s", mat(cx), "general", [], *v)
    cx.eq("given properties", [s.A, s.As2, s.As3, s.J, s.I22, s.I33, s.W22, s.W33], v)
    cx.eq("radius of gyration about 2-2", s.i22 ** 2 * s.A, s.I22)
    cx.eq("radius of gyration about 3-3", s.i33 ** 2 * s.A, s.I33)
    cx.eq("shape", s.shape, "general")


def app(cx, name, *dims):
    return getattr(cx.mod("hyperstatic.app.general.property.frame_section"), name)("m", *dims, name="s")


def app_props(cx, s, A, I22, I33, b, h):
    cx.eq("area", s.A, A, tol=1e-5)
    cx.eq("inertia about 2-2", s.I22, I22, tol=1e-5)
    cx.eq("inertia about 3-3", s.I33, I33, tol=1e-5)
    cx.eq("modulus about 2-2", s.W22 * b / 2, s.I22)
    cx.eq("modulus about 3-3", s.W33 * h / 2, s.I33)
    cx.eq("radius of gyration about 2-2", s.i22 ** 2 * s.A, s.I22)
    cx.eq("radius of gyration about 3-3", s.i33 ** 2 * s.A, s.I33)
    for n in ("A", "J", "I22", "I33", "W22", "W33") if cx.case != "Rectangle" else ("A", "I22", "I33", "W22", "W33"):
        cx.lt(n + " is positive", 0, getattr(s, n))
    cx.eq("name and material", [s.name, s.material], ["s", "m"])


@harness(cases=["Rectangle", "Circle", "Pipe", "HollowBox", "ISection", "ISection2"])
def application(cx):
    """the sections of the application layer"""
    pi = cx.q(*PI)
    k = cx.case
    a, b, c, d = [cx.real(n, pos=True) for n in "abcd"]
    if k == "Rectangle":
        app_props(cx, app(cx, k, a, b), a * b, a * b ** 3 / 12, b * a ** 3 / 12, b, a)
    elif k == "Circle":
        s = app(cx, k, a)
        app_props(cx, s, pi * a ** 2 / 4, pi * a ** 4 / 64, pi * a ** 4 / 64, a, a)
        cx.eq("torsion constant", s.J, pi * a ** 4 / 32, tol=1e-5)
    elif k == "Pipe":
        D = a + 2 * b
        I = pi * (D ** 4 - a ** 4) / 64
        s = app(cx, k, D, b)
        app_props(cx, s, pi * (D ** 2 - a ** 2) / 4, I, I, D, D)
        cx.eq("torsion constant", s.J, 2 * I, tol=1e-5)
    elif k == "HollowBox":
        B, H = a + 2 * c, b + 2 * d
        s = app(cx, k, H, B, c, d)
        app_props(cx, s, B * H - a * b, (H * B ** 3 - b * a ** 3) / 12, (B * H ** 3 - a * b ** 3) / 12, B, H)
        cx.eq("torsion constant (Bredt)", s.J * (2 * (a + c) / d + 2 * (b + d) / c), 4 * ((a + c) * (b + d)) ** 2)
    elif k == "ISection":
        B, H = a + c, b + 2 * d
        s = app(cx, k, H, B, c, d)
        app_props(cx, s, 2 * B * d + b * c, (2 * d * B ** 3 + b * c ** 3) / 12, (B * H ** 3 - a * b ** 3) / 12, B, H)
        cx.eq("torsion constant", s.J * 3, 2 * B * d ** 3 + (H - d) * c ** 3)
    else:
        e, f = cx.real("e", pos=True), cx.real("f", pos=True)
        B1, B2, hw, tw, t1, t2 = a, b, c, d, e, f
        H = hw + t1 + t2
        s = app(cx, k, H, B1, t1, tw, B2, t2)
        parts = [(B1, t1, t2 + hw + t1 / 2), (tw, hw, t2 + hw / 2), (B2, t2, t2 / 2)]
        A = sum(x * y for x, y, z in parts)
        y0 = sum(x * y * z for x, y, z in parts) / A
        cx.eq("area", s.A, A)
        cx.eq("centroid", s.y0, y0)
        cx.eq("inertia about 3-3", s.I33, sum(x * y ** 3 / 12 + x * y * (z - y0) ** 2 for x, y, z in parts))
        cx.eq("inertia about 2-2", s.I22, sum(y * x ** 3 for x, y, z in parts) / 12)
        far = y0 if y0 > H - y0 else H - y0
        cx.eq("modulus about 3-3", s.W33 * far, s.I33)
        wide = B1 if B1 > B2 else B2
        cx.eq("modulus about 2-2", s.W22 * wide / 2, s.I22)
        cx.eq("torsion constant", s.J * 3, B1 * t1 ** 3 + B2 * t2 ** 3 + (hw + t1 / 2 + t2 / 2) * tw ** 3)
        for n in ("A", "J", "I22", "I33", "W22", "W33"):
            cx.lt(n + " is positive", 0, getattr(s, n))


@harness()
def application_rectangle_torsion(cx):
    r = cx.real("r", lo=cx.q(1, 20), hi=20, nom=(0.2, 5))
    cx.eq("torsion coefficient", app(cx, "Rectangle", r, cx.q(1)).J / r, rect_J(cx, r, cx.q(1), 60) / r, tol=0, atol=2e-6)


@harness()
def application_rectangle_scale(cx):
    h, b, k = cx.real("h", pos=True), cx.real("b", pos=True), cx.real("k", pos=True)
    cx.eq("torsion constant of a scaled rectangle", app(cx, "Rectangle", k * h, k * b).J, k ** 4 * app(cx, "Rectangle", h, b).J)
