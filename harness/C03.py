"""C03 member stiffness"""
import numpy as np
from hlib import harness, line, length, PLANES, beam_K, direction, node, rx

META = dict(
    functions=["Beam.integrate_K", "SimpleBeam.integrate_K", "BeamSection.*", "IsotropicMaterial.G", "Line.length"],
    bounds="every positive E, A, J, I22, I33, length; Poisson ratio 0 to 0.49; one member",
    outside="rounding; zero or negative section properties",
)
CLS = ["Beam", "SimpleBeam"]


@harness(cases=CLS)
def symmetry_and_rigid(cx):
    L = length(cx)
    b, p = line(cx, cx.case, L)
    K = b.integrate_K().toarray()
    cx.eq("symmetric", K, K.T)
    R = np.zeros((12, 6), dtype=object)
    for k in range(6):
        R[k, k] = R[k + 6, k] = 1
    R[8, 4] = -L          # turning about y lowers the far end
    R[7, 5] = L           # turning about z lifts it
    cx.eq("no force under rigid motion", K.dot(R), np.zeros((12, 6)))
    u = np.array([cx.real("u%d" % k) for k in range(12)])
    f = K.dot(u)
    cx.eq("end forces balance", R.T.dot(f), np.zeros(6))


@harness(cases=CLS)
def flexibility(cx):
    L = length(cx)
    b, p = line(cx, cx.case, L)
    K = b.integrate_K().toarray()
    E, G, A, J, I2, I3 = [p[k] for k in ("E", "G", "A", "J", "I2", "I3")]
    F = np.zeros((6, 6), dtype=object)
    F[0, 0], F[3, 3] = L / (E * A), L / (G * J)
    F[1, 1], F[5, 5], F[1, 5] = L ** 3 / (3 * E * I3), L / (E * I3), L ** 2 / (2 * E * I3)
    F[2, 2], F[4, 4], F[2, 4] = L ** 3 / (3 * E * I2), L / (E * I2), -L ** 2 / (2 * E * I2)
    F[5, 1], F[4, 2] = F[1, 5], F[2, 4]
    cx.eq("cantilever fixed at the start", K[6:, 6:].dot(F), np.eye(6))
    S = np.diag([1, -1, -1, 1, -1, -1])
    S = np.diag([1, 1, 1, 1, -1, -1])
    cx.eq("cantilever fixed at the end", K[:6, :6].dot(S.dot(F).dot(S)), np.eye(6))


@harness(cases=CLS)
def energy(cx):
    """u K u is a sum of squares: never negative"""
    L = length(cx)
    b, p = line(cx, cx.case, L)
    K = b.integrate_K().toarray()
    u = np.array([cx.real("u%d" % k) for k in range(12)])
    E, G, A, J, I2, I3 = [p[k] for k in ("E", "G", "A", "J", "I2", "I3")]
    U = E * A / L * (u[6] - u[0]) ** 2 + G * J / L * (u[9] - u[3]) ** 2
    for (d, s), I in ((PLANES["3"], I3), (PLANES["2"], I2)):
        psi = (u[d[2]] - u[d[0]]) / L
        t1, t2 = s * u[d[1]] - psi, s * u[d[3]] - psi
        U = U + E * I / L * ((t1 + t2) ** 2 * 3 + (t1 - t2) ** 2)
    cx.eq("strain energy", u.dot(K).dot(u), U)
    cx.eq("stiffness", K, beam_K(p))


@harness()
def same_matrix(cx):
    L = length(cx)
    a, _ = line(cx, "Beam", L)
    b, _ = line(cx, "SimpleBeam", L)
    cx.eq("both member classes agree", a.integrate_K().toarray(), b.integrate_K().toarray())


@harness(cases=CLS)
def placement(cx):
    """the local matrix does not depend on where the member lies or how it is turned"""
    L = cx.real("L", lo=cx.q(1, 100), hi=1000, nom=(1, 3))
    a = cx.angle("a", unit=1)
    b = cx.angle("b", unit=1, nom=(-1.4, 1.4))
    cx.assume(cx.cos(b) >= cx.q(1, 10000))
    d = np.array([cx.cos(a) * cx.cos(b), cx.sin(a) * cx.cos(b), cx.sin(b)])
    O = np.array([cx.real("O" + k) for k in "xyz"])
    m, p = line(cx, cx.case, L, direction=d, O=O)
    m.rotation = cx.angle("t")
    cx.eq("local stiffness", m.integrate_K().toarray(), beam_K(p))
