"""shared pieces of the harnesses"""
import numpy as np


def harness(**opts):
    def deco(f):
        f._h = opts
        return f
    return deco


def rx(cx, t):
    c, s = cx.cos(t), cx.sin(t)
    return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])


def ry(cx, t):
    c, s = cx.cos(t), cx.sin(t)
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def rz(cx, t):
    c, s = cx.cos(t), cx.sin(t)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def vec(cx, name, **kw):
    return np.array([cx.real(name + k, **kw) for k in "xyz"])


def cross(a, b):
    return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def dot3(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def frame(cx, name):
    """rows: any right-handed orthonormal triple (three angles)"""
    a, b, c = [cx.angle(name + k, unit=1) for k in "abc"]
    return rz(cx, a).dot(ry(cx, b)).dot(rx(cx, c)).T


def direction(cx, name):
    """any unit vector, by two angles"""
    a, b = cx.angle(name + "a", unit=1), cx.angle(name + "b", unit=1)
    return np.array([cx.cos(a) * cx.cos(b), cx.sin(a) * cx.cos(b), cx.sin(b)])


def rodrigues(cx, k, t):
    """rotation matrix about the unit vector k by t"""
    c, s = cx.cos(t), cx.sin(t)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    I = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    return I + s * K + (1 - c) * K.dot(K)


def right_handed(cx, tag, T):
    cx.eq(tag + ": axes are orthonormal", T.dot(T.T), np.eye(3))
    cx.eq(tag + ": axes are right-handed", cross(T[0], T[1]), T[2])


def node(cx, name, P):
    return cx.mod("hyperstatic.core.fe_model.node").Node(name, P[0], P[1], P[2])


SEC = ("A", "As2", "As3", "J", "I22", "I33", "W22", "W33")


def material(cx, tag="", fixed=False):
    """an isotropic material with any rho, E > 0 and a Poisson ratio in [0, 0.49]"""
    M = cx.mod("hyperstatic.core.fe_model.material.isotropy").IsotropicMaterial
    if fixed:
        return M("m" + tag, 7, 5, cx.q(1, 4), cx.q(1, 100000))
    rho, E = cx.real("rho" + tag, pos=True), cx.real("E" + tag, pos=True)
    mu, a = cx.real("mu" + tag, lo=0, hi=cx.q(49, 100), nom=(0, 0.49)), cx.real("alpha" + tag, pos=True)
    m = M("m" + tag, rho, E, mu, a)
    m._sx = (rho, E, mu, a)
    return m


def beam_section(cx, tag="", fixed=False, mat=None):
    """a section with any positive properties; _sx: rho, E, mu, A, J, I22, I33"""
    m = mat if mat is not None else material(cx, tag, fixed)
    S = cx.mod("hyperstatic.core.fe_model.section.beam_section").BeamSection
    if fixed:
        v = [2, 1, 1, 3, 2, 5, 1, 1]
    else:
        v = [cx.real(k + tag, pos=True) for k in SEC]
    return S("s" + tag, m, "g", [], *v)


def line(cx, cls, L, tag="", direction=None, O=None, sec=None, releases=None):
    """a member of length L; b._p: dict of rho, E, G, A, J, I2, I3"""
    d = np.array([1, 0, 0]) if direction is None else direction
    O = np.array([0, 0, 0]) if O is None else O
    i, j = node(cx, "i" + tag, O), node(cx, "j" + tag, O + L * d)
    rho, E, mu = cx.real("rho" + tag, pos=True), cx.real("E" + tag, pos=True), cx.real("mu" + tag, lo=0, hi=cx.q(49, 100), nom=(0, 0.49))
    p = {k: cx.real(k + tag, pos=True) for k in ("A", "J", "I2", "I3")}
    if cls == "SimpleBeam":
        b = cx.mod("hyperstatic.core.fe_model.element.line.simple_beam").SimpleBeam(
            "b" + tag, i, j, E, mu, p["A"], p["I2"], p["I3"], p["J"], rho)
    else:
        m = cx.mod("hyperstatic.core.fe_model.material.isotropy").IsotropicMaterial("m", rho, E, mu, 1)
        w = [cx.real(k + tag, pos=True) for k in ("As2", "As3", "W2", "W3")]
        s = cx.mod("hyperstatic.core.fe_model.section.beam_section").BeamSection(
            "s", m, "g", [], p["A"], w[0], w[1], p["J"], p["I2"], p["I3"], w[2], w[3])
        b = cx.mod("hyperstatic.core.fe_model.element.line.beam").Beam("b" + tag, i, j, s)
    p.update(rho=rho, E=E, G=E / (2 * (1 + mu)), L=L)
    return b, p


# plane name -> (dofs, sign of the rotation against the slope)
PLANES = {"3": ((1, 5, 7, 11), 1), "2": ((2, 4, 8, 10), -1)}


def beam_K(p):
    """Euler-Bernoulli stiffness from the strain energy, as a reference"""
    E, G, A, J, I2, I3, L = [p[k] for k in ("E", "G", "A", "J", "I2", "I3", "L")]
    K = np.zeros((12, 12), dtype=object)
    for (a, b), k in (((0, 6), E * A / L), ((3, 9), G * J / L)):
        K[a, a] = K[b, b] = k
        K[a, b] = K[b, a] = -k
    for (dofs, s), I in ((PLANES["3"], I3), (PLANES["2"], I2)):
        # chord slope psi = (v2 - v1)/L; U = EI/L (2 a^2 + 2 a b + 2 b^2), a = t1 - psi, b = t2 - psi
        a = [1 / L, s, -1 / L, 0]
        b = [1 / L, 0, -1 / L, s]
        k = E * I / L
        for i in range(4):
            for j in range(4):
                K[dofs[i], dofs[j]] = k * (4 * a[i] * a[j] + 2 * a[i] * b[j] + 2 * b[i] * a[j] + 4 * b[i] * b[j])
    return K


def length(cx, name="L"):
    return cx.real(name, lo=cx.q(1, 100), hi=1000, nom=(1, 4))


DIST = ["pi", "pj", "qi2", "qj2", "qi3", "qj3", "ti", "tj"]
CONC = ["F1", "F2", "F3", "M1", "M2", "M3"]


def dist_ref(q, l):
    """integral of shape functions times load"""
    r = np.zeros(12, dtype=object)
    lin = lambda a, b: (l * (2 * a + b) / 6, l * (a + 2 * b) / 6)
    r[0], r[6] = lin(q["pi"], q["pj"])
    r[3], r[9] = lin(q["ti"], q["tj"])
    for d, a, b, s in (((1, 5, 7, 11), q["qi2"], q["qj2"], 1), ((2, 4, 8, 10), q["qi3"], q["qj3"], -1)):
        r[d[0]] = l * (7 * a + 3 * b) / 20
        r[d[1]] = s * l * l * (3 * a + 2 * b) / 60
        r[d[2]] = l * (3 * a + 7 * b) / 20
        r[d[3]] = -s * l * l * (2 * a + 3 * b) / 60
    return r


def conc_ref(F, x, l):
    """virtual work of the load through the fixed-fixed shape functions at x"""
    r = np.zeros(12, dtype=object)
    z = x / l
    r[0], r[6] = F["F1"] * (1 - z), F["F1"] * z
    r[3], r[9] = F["M1"] * (1 - z), F["M1"] * z
    N = [1 - 3 * z ** 2 + 2 * z ** 3, l * (z - 2 * z ** 2 + z ** 3), 3 * z ** 2 - 2 * z ** 3, l * (z ** 3 - z ** 2)]
    D = [(-6 * z + 6 * z ** 2) / l, 1 - 4 * z + 3 * z ** 2, (6 * z - 6 * z ** 2) / l, 3 * z ** 2 - 2 * z]
    for d, f, m, s in (((1, 5, 7, 11), F["F2"], F["M3"], 1), ((2, 4, 8, 10), F["F3"], F["M2"], -1)):
        for k in range(4):
            t = s if k % 2 else 1
            r[d[k]] = t * (f * N[k] + s * m * D[k])
    return r


# unit directions with a rational horizontal projection, as numerators over a denominator
DIRS = {"x": ((1, 0, 0), 1), "y": ((0, 1, 0), 1), "up": ((0, 0, 1), 1), "down": ((0, 0, -1), 1), "-x": ((-1, 0, 0), 1),
        "h": ((3, -4, 0), 5), "s": ((12, 16, 15), 25), "t": ((-16, 12, -15), 25)}


def axes(cx, d):
    """documented member axes: x along, z horizontal, y upwards (global x for a vertical member)"""
    (a, b, c), n = DIRS[d]
    if a == 0 and b == 0:
        return np.array([[0, 0, c], [1, 0, 0], [0, c, 0]])
    h = int(round((a * a + b * b) ** .5))
    x = np.array([cx.q(v, n) for v in (a, b, c)])
    z = np.array([cx.q(b, h), cx.q(-a, h), cx.q(0)])
    y = np.array([z[1] * x[2] - z[2] * x[1], z[2] * x[0] - z[0] * x[2], z[0] * x[1] - z[1] * x[0]])
    return np.array([x, y, z])


def T12(R, n=4):
    T = np.zeros((3 * n, 3 * n), dtype=object)
    for k in range(n):
        T[3 * k:3 * k + 3, 3 * k:3 * k + 3] = R
    return T


class Frame(object):
    """nodes are placed by walking along the edges: edge = (name, from, to, direction)"""

    def __init__(self, cx, edges, order=None, node_order=None, simple=(), same_length=(), model=None):
        self.cx = cx
        m = self.m = cx.mod("hyperstatic.core.fe_model.model").Model() if model is None else model
        self.at, self.L, self.p, self.d, self.ends = {}, {}, {}, {}, {}
        first = edges[0][1]
        self.at[first] = np.array([0, 0, 0])
        for name, i, j, d in edges:
            v, n = DIRS[d]
            if i in self.at and j in self.at:
                L = self.L[same_length[name]] if name in same_length else None
                assert L is not None
            else:
                L = length(cx, "L" + name)
                u = np.array([cx.q(c, n) for c in v])
                if i in self.at:
                    self.at[j] = self.at[i] + L * u
                else:
                    self.at[i] = self.at[j] - L * u
            self.L[name], self.d[name], self.ends[name] = L, d, (i, j)
        names = list(self.at) if node_order is None else node_order
        for k in names:
            P = self.at[k]
            m.add_node(k, P[0], P[1], P[2])
        for name, i, j, d in ([edges[k] for k in order] if order is not None else edges):
            p = {k: cx.real(k + name, pos=True) for k in ("E", "A", "J", "I2", "I3", "rho")}
            mu = cx.real("mu" + name, lo=0, hi=cx.q(49, 100), nom=(0, 0.49))
            p["G"] = p["E"] / (2 * (1 + mu))
            p["L"] = self.L[name]
            if name in simple:
                m.add_simple_beam(name, i, j, p["E"], mu, p["A"], p["I2"], p["I3"], p["J"], p["rho"])
            else:
                m.add_isotropic_material("m" + name, p["rho"], p["E"], mu, 1)
                m.add_beam_section_general("s" + name, "m" + name, p["A"], 1, 1, p["I2"], p["I3"], p["J"], 1, 1)
                m.add_beam(name, i, j, "s" + name)
            self.p[name] = p
        self.idx = {k: n for n, k in enumerate(names)}
        self.n = len(names)

    def dofs(self, name):
        i, j = self.ends[name]
        a, b = self.idx[i] * 6, self.idx[j] * 6
        return list(range(a, a + 6)) + list(range(b, b + 6))

    def T(self, name):
        return T12(axes(self.cx, self.d[name]))

    def scatter(self, K, name, k):
        T, D = self.T(name), self.dofs(name)
        g = T.T.dot(k).dot(T)
        for a in range(12):
            for b in range(12):
                K[D[a], D[b]] = K[D[a], D[b]] + g[a, b]

    def K(self):
        K = np.zeros((6 * self.n, 6 * self.n), dtype=object)
        for name in self.p:
            self.scatter(K, name, beam_K(self.p[name]))
        return K

    def rigid(self):
        R = np.zeros((6 * self.n, 6), dtype=object)
        for k, n in self.idx.items():
            x, y, z = self.at[k]
            for c in range(6):
                R[6 * n + c, c] = 1
            R[6 * n + 0, 4], R[6 * n + 0, 5] = z, -y
            R[6 * n + 1, 5], R[6 * n + 1, 3] = x, -z
            R[6 * n + 2, 3], R[6 * n + 2, 4] = y, -x
        return R


def assembly(cx, m, cases=()):
    return cx.mod("hyperstatic.core.fe_model.assembly").Assembly(m, list(cases))


def eliminate(K, f, rel):
    """exact elimination, one released component after another, skipping those already free"""
    K = np.array(K, dtype=object)
    f = np.array(f, dtype=object)
    for n in rel:
        row = K[n].copy()
        f = f - row * (f[n] / row[n])
        K = K - np.outer(K[:, n], row) / row[n]
    return K, f


# ---- shells
# orthonormal frames (rows: in-plane u, v and normal), as numerators over a denominator
PLACES = {
    "up": (((1, 0, 0), (0, 1, 0)), 1), "down": (((1, 0, 0), (0, -1, 0)), 1), "up turned": (((3, 4, 0), (-4, 3, 0)), 5),
    "down turned": (((4, 3, 0), (3, -4, 0)), 5), "wall x": (((1, 0, 0), (0, 0, 1)), 1), "wall y": (((0, 1, 0), (0, 0, 1)), 1),
    "wall -x": (((-1, 0, 0), (0, 0, 1)), 1), "wall y hung": (((0, 0, -1), (0, -1, 0)), 1), "wall turned": (((0, 3, 4), (0, -4, 3)), 5),
    "roof": (((3, 4, 0), (-16, 12, 15)), (5, 25)), "roof back": (((12, 16, 15), (4, -3, 0)), (25, 5)), "roof 3": (((1, 2, 2), (2, 1, -2)), 3),
}


def place(cx, name):
    (u, v), n = PLACES[name]
    n, k = n if isinstance(n, tuple) else (n, n)
    u, v = np.array([cx.q(c, n) for c in u]), np.array([cx.q(c, k) for c in v])
    return u, v, cross(u, v)


def shell_model(cx, P, typ=None):
    m = cx.mod("hyperstatic.core.fe_model.model").Model()
    for n, p in zip("ijkl", P):
        m.add_node(n, p[0], p[1], p[2])
    E, mu, t = cx.real("E", pos=True), cx.real("mu", lo=0, hi=cx.q(49, 100), nom=(0, 0.49)), cx.real("t", pos=True)
    m.add_isotropic_material("m", 1, E, mu, 1)
    if typ is None:
        m.add_shell_section("s", "m", t)
    else:
        m.add_shell_section("s", "m", t, typ)
    m.add_shell("e", "s", *"ijkl"[:len(P)])
    return m, E, mu, t


def spot(cx, xy, where, O):
    u, v, n = place(cx, where) if isinstance(where, str) else where + (cross(*where),)
    return [O + x * u + y * v for x, y in xy], n


def elastic(E, mu):
    D = np.zeros((3, 3), dtype=object)
    D[0, 0] = D[1, 1] = E / (1 - mu * mu)
    D[0, 1] = D[1, 0] = mu * E / (1 - mu * mu)
    D[2, 2] = E / (2 * (1 + mu))
    return D


def part(n, c):
    return [6 * i + k for i in range(n) for k in c]


def rigid_motions(P):
    R = np.zeros((6 * len(P), 6), dtype=object)
    for n, (x, y, z) in enumerate(P):
        for c in range(6):
            R[6 * n + c, c] = 1
        R[6 * n, 4], R[6 * n, 5] = z, -y
        R[6 * n + 1, 5], R[6 * n + 1, 3] = x, -z
        R[6 * n + 2, 3], R[6 * n + 2, 4] = y, -x
    return R


def shell_axes(cx, m, P, n):
    """checks the element's axes, returns them and the corners' local coordinates"""
    T = m.get_shell_transform_matrix("e").toarray()
    A = T[:3, :3]
    right_handed(cx, "local", A)
    cx.eq("local z is the normal", A[2], n)
    B = np.zeros(T.shape, dtype=object)
    for k in range(2 * len(P)):
        B[3 * k:3 * k + 3, 3 * k:3 * k + 3] = A
    cx.eq("every node turns with the element's axes", T, B)
    return B, [A.dot(p - P[0])[:2] for p in P]
