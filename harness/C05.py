"""C05 end releases"""
import itertools
import numpy as np
from hlib import harness, line, length, PLANES, beam_K

META = dict(
    functions=["Beam.static_condensate", "Beam.static_condensate_f", "Beam.releases", "SimpleBeam.*", "Model.set_beam_releases",
               "Model.get_beam_K", "Model.get_beam_condensated_f"],
    bounds="every release set of the 12 components that leaves the member stable (all 900), "
           "in the thorough tier also all 4096 sets for the released rows, every positive member, every fixed-end load vector",
    outside="release sets that make the member a mechanism; rounding",
)
# stable release sets of one bending plane (positions among shear i, moment i, shear j, moment j)
BEND = [()] + [(k,) for k in range(4)] + [c for c in itertools.combinations(range(4), 2) if c != (0, 2)]
AXIAL = [(), (0,), (1,)]


def inverse(B):
    n = len(B)
    if n == 0:
        return []
    if n == 1:
        return [[1 / B[0][0]]]
    d = B[0][0] * B[1][1] - B[0][1] * B[1][0]
    return [[B[1][1] / d, -B[0][1] / d], [-B[1][0] / d, B[0][0] / d]]


def reference(K, f, groups):
    """K and f with the released displacements eliminated; groups: (dofs, released dofs) uncoupled from each other"""
    Kc, fc = K.copy(), f.copy()
    for dofs, S in groups:
        inv = inverse([[K[a, b] for b in S] for a in S])
        W = {(a, m): sum(K[a, s] * inv[i][m] for i, s in enumerate(S)) for a in dofs for m in range(len(S))}
        for a in dofs:
            for b in dofs:
                Kc[a, b] = K[a, b] - sum(W[a, m] * K[t, b] for m, t in enumerate(S))
            fc[a] = f[a] - sum(W[a, m] * f[t] for m, t in enumerate(S))
    return Kc, fc


def sets(part):
    n = 0
    for i, b3 in enumerate(BEND):
        for j, b2 in enumerate(BEND):
            for k, (a, t) in enumerate(itertools.product(AXIAL, AXIAL)):
                n += 1
                if n % part[1] == part[0]:
                    yield a, t, b3, b2


CASES = [(c, k) for c in ("Beam", "SimpleBeam") for k in range(4)]


@harness(cases=CASES)
def release_sets(cx):
    cls, part = cx.case
    b, p = line(cx, cls, length(cx))
    K0 = beam_K(p)
    f = np.array([cx.real("f%d" % k) for k in range(12)])
    for a, t, b3, b2 in sets((part, 4)):
        g = [((0, 6), [(0, 6)[k] for k in a]), ((3, 9), [(3, 9)[k] for k in t]),
             (PLANES["3"][0], [PLANES["3"][0][k] for k in b3]), (PLANES["2"][0], [PLANES["2"][0][k] for k in b2])]
        rel = [False] * 12
        for _, S in g:
            for s in S:
                rel[s] = True
        b.releases = rel
        K = b.integrate_K()
        Kr, fr = reference(K0, f, g)
        cx.eq("condensed stiffness", b.static_condensate(K).toarray(), Kr, floor=1e-7)
        cx.eq("condensed load", b.static_condensate_f(f.copy(), K), fr, floor=1e-7)
        cx.eq("the element matrix itself is untouched", K.toarray(), K0)
        S = [k for k in range(12) if rel[k]]
        Kc = b.static_condensate(K).toarray()
        if S:
            cx.eq("no force through a released component", Kc[S, :], np.zeros((len(S), 12)), floor=1e-7, atol=1e-6)


@harness(tier="thorough", cases=[(c, k) for c in ("Beam", "SimpleBeam") for k in range(16)])
def any_set(cx):
    """mechanisms too: whatever is released carries nothing"""
    cls, part = cx.case
    b, p = line(cx, cls, length(cx))
    for bits in range(part, 4096, 16):
        rel = [bool(bits >> k & 1) for k in range(12)]
        S = [k for k in range(12) if rel[k]]
        b.releases = rel
        K = b.static_condensate(b.integrate_K()).toarray()
        if S:
            cx.eq("no force through a released component", K[S, :], np.zeros((len(S), 12)), floor=1e-7, atol=1e-6)
        cx.eq("symmetric", K, K.T, floor=1e-7)


NAMES = ["u1i", "u2i", "u3i", "r1i", "r2i", "r3i", "u1j", "u2j", "u3j", "r1j", "r2j", "r3j"]


@harness(cases=[(5,), (11,), (5, 11), (4, 10), (3,), (0,), (4, 5, 10, 11), (3, 4, 5), (1,), (8,)])
def through_the_model(cx):
    """the model's setter and queries use the same releases"""
    M = cx.mod("hyperstatic.core.fe_model.model").Model()
    L = length(cx)
    M.add_node("1", 0, 0, 0)
    M.add_node("2", L, 0, 0)
    E, mu = cx.real("E", pos=True), cx.real("mu", lo=0, hi=cx.q(49, 100))
    v = {k: cx.real(k, pos=True) for k in ("A", "J", "I2", "I3")}
    p = dict(v, E=E, G=E / (2 * (1 + mu)), L=L)
    M.add_simple_beam("b", "1", "2", E, mu, v["A"], v["I2"], v["I3"], v["J"], 1)
    M.add_simple_beam("c", "1", "2", E, mu, v["A"], v["I2"], v["I3"], v["J"], 1)
    M.set_beam_releases("b", **{NAMES[k]: True for k in cx.case})
    K0 = beam_K(p)
    f = np.array([cx.real("f%d" % k) for k in range(12)])
    g = [(d, [k for k in d if k in cx.case]) for d in ((0, 6), (3, 9), PLANES["3"][0], PLANES["2"][0])]
    Kr, fr = reference(K0, f, g)
    cx.eq("condensed stiffness", M.get_beam_K("b", condensate=True).toarray(), Kr, floor=1e-7)
    cx.eq("uncondensed stiffness", M.get_beam_K("b").toarray(), K0)
    cx.eq("condensed matrix query", M.get_beam_condensated_matrix("b", M.get_beam_K("b")).toarray(), Kr, floor=1e-7)
    cx.eq("condensed load query", M.get_beam_condensated_f("b", f.copy()), fr, floor=1e-7)
    cx.eq("the other member keeps its ends", M.get_beam_K("c", condensate=True).toarray(), K0)
    M.set_beam_releases("b")
    cx.eq("releases can be taken back", M.get_beam_K("b", condensate=True).toarray(), K0)
