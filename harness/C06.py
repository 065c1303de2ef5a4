"""C06 equivalent nodal loads of member loads"""
import numpy as np
from hlib import harness, length, DIST, CONC, dist_ref, conc_ref

META = dict(
    functions=["LoadPattern.set_beam_load_dist", "LoadPattern.set_beam_load_conc", "LoadPattern.get_beam_f",
               "LoadPattern.get_beam_distributed", "LoadPattern.get_beam_concentrated"],
    bounds="every linearly varying axial, transverse and torsional load, every concentrated force and moment at every station in [0, 1], every length",
    outside="distributed moments and partial loads (the program does not offer them); rounding",
)


def pattern(cx):
    return cx.mod("hyperstatic.core.fe_model.load.pattern").LoadPattern("p")


def resultant(r, l):
    """force and moment about the start"""
    return [r[0] + r[6], r[1] + r[7], r[2] + r[8], r[3] + r[9], r[4] + r[10] - l * r[8], r[5] + r[11] + l * r[7]]


@harness()
def distributed(cx):
    p, l = pattern(cx), length(cx)
    q = {k: cx.real(k) for k in DIST}
    p.set_beam_load_dist("b", **q)
    r = p.get_beam_f("b", l)
    cx.eq("fixed-end loads of a trapezoidal load", r, dist_ref(q, l))
    cx.eq("resultant of the load", resultant(r, l), [
        (q["pi"] + q["pj"]) * l / 2, (q["qi2"] + q["qj2"]) * l / 2, (q["qi3"] + q["qj3"]) * l / 2, (q["ti"] + q["tj"]) * l / 2,
        -(q["qi3"] + 2 * q["qj3"]) * l * l / 6, (q["qi2"] + 2 * q["qj2"]) * l * l / 6])
    cx.eq("no load on another member", p.get_beam_f("c", l), [0] * 12)


@harness()
def concentrated(cx):
    p, l = pattern(cx), length(cx)
    F = {k: cx.real(k) for k in CONC}
    s = cx.real("r", lo=0, hi=1, nom=(0, 1))
    p.set_beam_load_conc("b", r=s, **F)
    r = p.get_beam_f("b", l)
    x = s * l
    cx.eq("fixed-end loads of a concentrated load", r, conc_ref(F, x, l))
    cx.eq("resultant of the load", resultant(r, l), [F["F1"], F["F2"], F["F3"], F["M1"], F["M2"] - x * F["F3"], F["M3"] + x * F["F2"]])
    cx.eq("no load on another member", p.get_beam_f("c", l), [0] * 12)


@harness()
def defaults(cx):
    """omitted components are zero, the station defaults to the middle"""
    l = length(cx)
    for k in DIST:
        p, v = pattern(cx), cx.real(k)
        p.set_beam_load_dist("b", **{k: v})
        cx.eq("one distributed component", p.get_beam_f("b", l), dist_ref(dict({n: 0 for n in DIST}, **{k: v}), l))
    for k in CONC:
        p, v = pattern(cx), cx.real(k)
        p.set_beam_load_conc("b", **{k: v})
        cx.eq("one concentrated component", p.get_beam_f("b", l), conc_ref(dict({n: 0 for n in CONC}, **{k: v}), l / 2, l))


@harness()
def together(cx):
    """both kinds on one member add up, two members stay apart, a second setting replaces the first"""
    p, l, l2 = pattern(cx), length(cx), length(cx, "L2")
    q = {k: cx.real(k) for k in DIST}
    F = {k: cx.real(k) for k in CONC}
    s = cx.real("r", lo=0, hi=1, nom=(0, 1))
    p.set_beam_load_dist("b", 9, 8, 7, 6, 5, 4, 3, 2)
    p.set_beam_load_conc("b", 1, 2, 3, 4, 5, 6, cx.q(1, 4))
    p.set_beam_load_dist("b", *[q[k] for k in DIST])
    p.set_beam_load_conc("b", *[F[k] for k in CONC], s)
    p.set_beam_load_conc("c", *[F[k] for k in reversed(CONC)], s)
    p.set_beam_load_dist("d", *[q[k] for k in reversed(DIST)])
    G = dict(zip(CONC, [F[k] for k in reversed(CONC)]))
    h = dict(zip(DIST, [q[k] for k in reversed(DIST)]))
    cx.eq("distributed plus concentrated", p.get_beam_f("b", l), dist_ref(q, l) + conc_ref(F, s * l, l))
    cx.eq("concentrated alone", p.get_beam_f("c", l2), conc_ref(G, s * l2, l2))
    cx.eq("distributed alone", p.get_beam_f("d", l2), dist_ref(h, l2))
    cx.eq("asking twice gives the same", p.get_beam_f("b", l), dist_ref(q, l) + conc_ref(F, s * l, l))
    z = 0
    cx.eq("stored distributed load", p.get_beam_distributed("b"),
          [q["pi"], q["qi2"], q["qi3"], q["ti"], z, z, q["pj"], q["qj2"], q["qj3"], q["tj"], z, z])
    cx.eq("stored concentrated load", p.get_beam_concentrated("b"), [F[k] for k in CONC] + [s])
    cx.eq("stored concentrated load of a member without distributed load", p.get_beam_concentrated("c"), [G[k] for k in CONC] + [s])
    cx.claim("no stored load", p.get_beam_concentrated("d") is None and p.get_beam_distributed("c") is None)
