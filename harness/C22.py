"""C22 isotropic material"""
import numpy as np
from hlib import harness

META = dict(
    functions=["IsotropicMaterial.*", "Material.*", "BeamSection.E/mu/G/rho", "ShellSection.E/mu/G/rho"],
    bounds="every E > 0, Poisson ratio in [0, 0.49], every strain state",
    outside="rounding; incompressible materials",
)


def material(cx):
    v = dict(rho=cx.real("rho", pos=True), E=cx.real("E", pos=True), mu=cx.real("mu", lo=0, hi=cx.q(49, 100), nom=(0, 0.49)),
             a=cx.real("a", pos=True))
    return cx.mod("hyperstatic.core.fe_model.material.isotropy").IsotropicMaterial("steel", v["rho"], v["E"], v["mu"], v["a"]), v


@harness()
def constants(cx):
    m, v = material(cx)
    E, mu = v["E"], v["mu"]
    cx.eq("name", m.name, "steel")
    cx.eq("given constants", [m.rho, m.E, m.mu, m.a], [v[k] for k in ("rho", "E", "mu", "a")])
    cx.eq("shear modulus", m.G * 2 * (1 + mu), E)
    cx.eq("first Lame constant", m.lamda * (1 + mu) * (1 - 2 * mu), E * mu)
    cx.eq("uniaxial modulus from the Lame constants", m.G * (3 * m.lamda + 2 * m.G), E * (m.lamda + m.G))


@harness()
def stress(cx):
    m, v = material(cx)
    E, mu = v["E"], v["mu"]
    e = [cx.real(k) for k in ("exx", "eyy", "ezz", "gxy", "gyz", "gzx")]
    S = np.array(m.D(*e))
    eps = np.array([[e[0], e[3] / 2, e[5] / 2], [e[3] / 2, e[1], e[4] / 2], [e[5] / 2, e[4] / 2, e[2]]])
    cx.eq("strain tensor", np.array(m.C(*e)), eps)
    tr = S[0, 0] + S[1, 1] + S[2, 2]
    cx.eq("the compliance gives the strain back", ((1 + mu) * S - mu * tr * np.eye(3)) / E, eps)
    cx.eq("stress is symmetric", S, S.T)


@harness()
def uniaxial(cx):
    m, v = material(cx)
    s = cx.real("s")
    S = np.array(m.D(s, -v["mu"] * s, -v["mu"] * s, 0, 0, 0))
    cx.eq("uniaxial stress", S, [[v["E"] * s, 0, 0], [0, 0, 0], [0, 0, 0]])


@harness()
def sections(cx):
    m, v = material(cx)
    s = cx.mod("hyperstatic.core.fe_model.section.beam_section").BeamSection("s", m, "g", [], 1, 2, 3, 4, 5, 6, 7, 8)
    h = cx.mod("hyperstatic.core.fe_model.section.shell_section").ShellSection("h", m, 3)
    for x in (s, h):
        cx.eq("the section reports its material's constants", [x.rho, x.E, x.mu, x.G * 2 * (1 + v["mu"])],
              [v["rho"], v["E"], v["mu"], v["E"]])
        cx.eq("the section names its material", x.material, "steel")
    cx.eq("shell thickness", h.t, 3)
    cx.eq("section names", [s.name, h.name], ["s", "h"])
