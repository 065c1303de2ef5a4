"""C04 member mass"""
import numpy as np
from hlib import harness, line, length, PLANES

META = dict(
    functions=["Beam.integrate_M", "SimpleBeam.integrate_M", "Node.integrate_M"],
    bounds="every positive density, area, J, inertia and length; one member",
    outside="rounding; the 1e-12 placeholder rotary inertia of the lumped matrix is accepted up to 1e-9",
)
CASES = [(c, k) for c in ("Beam", "SimpleBeam") for k in ("lumped", "consistent")]


def matrix(cx):
    cls, kind = cx.case
    L = length(cx)
    b, p = line(cx, cls, L)
    M = b.integrate_M(consistent=True) if kind == "consistent" else b.integrate_M()
    return M.toarray(), p, L, kind


@harness(cases=CASES)
def translation(cx):
    M, p, L, kind = matrix(cx)
    m = p["rho"] * p["A"] * L
    cx.eq("symmetric", M, M.T)
    R = np.zeros((12, 3), dtype=object)
    for k in range(3):
        R[k, k] = R[k + 6, k] = 1
    P = M.dot(R)
    cx.eq("total mass", R.T.dot(P), m * np.eye(3))
    if kind == "lumped":
        D = np.zeros((12, 12), dtype=object)
        for k in (0, 1, 2, 6, 7, 8):
            D[k, k] = m / 2
        rot = [3, 4, 5, 9, 10, 11]
        cx.eq("half of the mass at each end", M[np.ix_([0, 1, 2, 6, 7, 8], range(12))], D[np.ix_([0, 1, 2, 6, 7, 8], range(12))])
        cx.eq("no rotary inertia", M[np.ix_(rot, rot)], np.zeros((6, 6)), atol=1e-9)
        for k in rot:
            cx.lt("rotary placeholder keeps the matrix regular", 0, M[k, k])


@harness(cases=[(c, "consistent") for c in ("Beam", "SimpleBeam")])
def consistent(cx):
    M, p, L, kind = matrix(cx)
    m = p["rho"] * p["A"] * L
    W = np.zeros((12, 6), dtype=object)
    for k in range(6):
        W[k, k] = W[k + 6, k] = 1
    W[8, 4], W[7, 5] = -L, L
    E = np.zeros((6, 6), dtype=object)
    E[0, 0] = E[1, 1] = E[2, 2] = m
    E[3, 3] = p["rho"] * p["J"] * L
    E[4, 4] = E[5, 5] = m * L * L / 3
    E[2, 4] = E[4, 2] = -m * L / 2
    E[1, 5] = E[5, 1] = m * L / 2
    cx.eq("rigid motion has the kinetic energy of the bar", W.T.dot(M).dot(W), E)
    # N^T N integrated along the bar
    F = np.zeros((12, 12), dtype=object)
    for (a, b), t in (((0, 6), m), ((3, 9), p["rho"] * p["J"] * L)):
        F[a, a] = F[b, b] = t / 3
        F[a, b] = F[b, a] = t / 6
    N = [[1, 0, -3, 2], [0, 1, -2, 1], [0, 0, 3, -2], [0, 0, -1, 1]]
    for d, s in PLANES.values():
        sc = [1, s * L, 1, s * L]
        for i in range(4):
            for j in range(4):
                v = sum(cx.q(N[i][a] * N[j][b], a + b + 1) for a in range(4) for b in range(4))
                F[d[i], d[j]] = m * v * sc[i] * sc[j]
    cx.eq("consistent mass", M, F)
    v = np.array([cx.real("v%d" % k) for k in (0, 1)])
    for a, b in ((0, 6), (3, 9)):
        t = M[a, a] * v[0] * v[0] + (M[a, b] + M[b, a]) * v[0] * v[1] + M[b, b] * v[1] * v[1]
        cx.le("kinetic energy is not negative", 0, t)


@harness()
def same_matrix(cx):
    L = length(cx)
    for k in (False, True):
        a, _ = line(cx, "Beam", L)
        b, _ = line(cx, "SimpleBeam", L)
        cx.eq("both member classes agree", a.integrate_M(k).toarray(), b.integrate_M(k).toarray())
