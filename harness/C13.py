"""C13 result queries"""
import numpy as np
from hlib import harness, Frame, assembly, eliminate, beam_K, dist_ref, conc_ref, DIST, CONC

META = dict(
    functions=["NodeResultResolver.resolve_nodal_displacement", "NodeResultResolver.resolve_nodal_reaction", "BeamResultResolver.resolve_beam_end_force",
               "BeamResultResolver.resolve_beam_deformation", "ResultResolver.__init__", "Assembly.assemble_K", "Assembly.assemble_f",
               "Assembly.get_beam_condensated_K", "Assembly.get_beam_condensated_f", "Beam.interpolate", "Beam.interpolate1", "Api.result_get_*"],
    bounds="two-member frames in eight directions with nodes in every order of definition; every stored displacement row (one to five steps); any nodal, "
           "distributed and concentrated loads; listed releases and member rotations; any station",
    outside="resolve_structural_reaction and the structural queries of the interface (not implemented); deflection between the ends caused by the member's own "
            "load or by released ends (the query interpolates the joint displacements); rounding",
)
ALL = [True] * 6
PIN = [True, True, True, False, False, False]
COMP = ["u1i", "u2i", "u3i", "r1i", "r2i", "r3i", "u1j", "u2j", "u3j", "r1j", "r2j", "r3j"]
EDGES = {"bent": [("p", "a", "b", "x"), ("q", "b", "c", "up")], "slope": [("p", "a", "b", "s"), ("q", "c", "b", "h")],
         "down": [("p", "b", "a", "t"), ("q", "b", "c", "down")]}


def pattern(cx, name):
    return cx.mod("hyperstatic.core.fe_model.load.pattern").LoadPattern(name)


def static(cx, name):
    return cx.mod("hyperstatic.core.fe_model.load.loadcase").StaticCase(name)


def nodes(cx, w):
    return cx.mod("hyperstatic.core.fe_post.node").NodeResultResolver(w, "s.asb")


def beams(cx, w):
    return cx.mod("hyperstatic.core.fe_post.beam").BeamResultResolver(w, "s.asb")


def stored(cx, w, name, n, rows=1):
    d = np.array([[cx.real("d%s%d_%d" % (name, r, i)) for i in range(n)] for r in range(rows)])
    cx.mod("numpy").save(w + "/" + name + ".d", d)
    return d


@harness(cases=["abc", "cba", "bca"])
def displacement(cx):
    """any stored rows; each node's own six entries, at each step"""
    F = Frame(cx, EDGES["bent"], node_order=list(cx.case))
    w = cx.workdir()
    assembly(cx, F.m, [static(cx, "c"), static(cx, "e")]).save(w, "s.asb")
    d, e = stored(cx, w, "c", 18, 5), stored(cx, w, "e", 18, 1)
    R = nodes(cx, w)
    for s in "abc":
        k = 6 * F.idx[s]
        cx.eq("first step is the default", R.resolve_nodal_displacement(s, "c"), d[0][k:k + 6])
        cx.eq("first step", R.resolve_nodal_displacement(s, "c", 1), d[0][k:k + 6])
        for j in range(1, 5):
            cx.eq("step %d" % (j + 1), R.resolve_nodal_displacement(s, "c", j + 1), d[j][k:k + 6])
        cx.eq("another case", R.resolve_nodal_displacement(s, "e"), e[0][k:k + 6])


def loads(cx, F, kind, P, rel=()):
    """sets loads of that kind; returns the nodal load vector, element loads in local axes (condensed)"""
    f = np.zeros(6 * F.n, dtype=object)
    loc = {b: np.zeros(12, dtype=object) for b in F.p}
    if kind == "nodal":
        for s in F.idx:
            v = [cx.real("f%s%d" % (s, c), pos=True) for c in range(6)]
            P.set_nodal_load(s, *v)
            f[6 * F.idx[s]:6 * F.idx[s] + 6] = v
    for b in F.p if kind in ("dist", "conc") else ():
        if kind == "dist":
            v = {t: cx.real(t + b, pos=True) for t in DIST}
            P.set_beam_load_dist(b, **v)
            loc[b] = dist_ref(v, F.L[b])
        else:
            v = {t: cx.real(t + b, pos=True) for t in CONC}
            r = cx.real("r" + b, lo=0, hi=1, nom=(0.2, 0.8))
            P.set_beam_load_conc(b, r=r, **v)
            loc[b] = conc_ref(v, r * F.L[b], F.L[b])
    return f, loc


def condensed(F, loc, rel):
    K = {b: eliminate(beam_K(F.p[b]), loc[b], rel.get(b, ())) for b in F.p}
    return {b: K[b][0] for b in K}, {b: K[b][1] for b in K}


def total(cx, F, f, K, loc, factor):
    G = np.zeros((6 * F.n, 6 * F.n), dtype=object)
    f = factor * f
    for b in F.p:
        F.scatter(G, b, K[b])
        g = factor * F.T(b).T.dot(loc[b])
        cx.generic(g)
        for a, i in enumerate(F.dofs(b)):
            f[i] = f[i] + g[a]
    return G, f


KINDS = ["nodal", "dist", "conc"]


@harness(cases=[(e, k, o) for e in EDGES for k, o in zip(KINDS, ("abc", "cba", "bca"))],
         thorough=[(e, k, o) for e in EDGES for k in KINDS for o in ("cab", "bac", "acb")])
def reaction(cx):
    """any stored displacements: stiffness times displacement less load, at every node"""
    e, kind, order = cx.case
    F = Frame(cx, EDGES[e], node_order=list(order))
    P, c = pattern(cx, "P"), static(cx, "c")
    f, loc = loads(cx, F, kind, P)
    k = cx.real("k", pos=True)
    c.add_pattern(P, k)
    w = cx.workdir()
    assembly(cx, F.m, [c]).save(w, "s.asb")
    d = stored(cx, w, "c", 18)
    Kb, lb = condensed(F, loc, {})
    K, f = total(cx, F, f, Kb, lb, k)
    want = K.dot(d[0]) - f
    R = nodes(cx, w)
    got = {s: R.resolve_nodal_reaction(s, "c") for s in "abc"}
    for s in "abc":
        cx.eq("reaction", got[s], want[6 * F.idx[s]:6 * F.idx[s] + 6])
    r = np.concatenate([got[s] for s in F.idx])
    cx.eq("reactions balance the loads", F.rigid().T.dot(r + f), np.zeros(6))


@harness(cases=["bent", "slope"])
def solved_reaction(cx):
    """after a solve there is a reaction only where there is a support, and it balances the loads"""
    F = Frame(cx, EDGES[cx.case])
    F.m.set_nodal_restraint("a", *ALL)
    F.m.set_nodal_restraint("c", *PIN)
    P, c = pattern(cx, "P"), static(cx, "c")
    v = [cx.real("f%d" % i, pos=True) for i in range(6)]
    P.set_nodal_load("b", *v)
    c.add_pattern(P, 1)
    w = cx.workdir()
    assembly(cx, F.m, [c]).save(w, "s.asb")
    cx.mod("hyperstatic.core.fe_solver.static").StaticSolver(w, "s.asb").solve_linear("c")
    R = nodes(cx, w)
    r = {s: R.resolve_nodal_reaction(s, "c") for s in "abc"}
    cx.eq("no reaction at a free node", r["b"], np.zeros(6))
    cx.eq("no reaction at a free component", r["c"][3:], np.zeros(3))
    f = np.zeros(18, dtype=object)
    f[6 * F.idx["b"]:6 * F.idx["b"] + 6] = v
    cx.eq("reactions balance the loads", F.rigid().T.dot(np.concatenate([r[s] for s in F.idx]) + f), np.zeros(6))


RELS = {"none": (), "hinge": ("r3j",), "hinges": ("r2i", "r3j"), "shear": ("u2i",), "truss": ("r2i", "r3i", "r2j", "r3j")}


@harness(cases=[(e, k, r, o) for e, o in zip(EDGES, ("abc", "cba", "bca")) for k in KINDS for r in ("none", "hinges")] +
         [("bent", "dist", r, "cab") for r in RELS],
         thorough=[(e, k, r, o) for e, o in zip(EDGES, ("cba", "bca", "abc")) for k in KINDS for r in RELS])
def end_force(cx):
    """any stored displacements: condensed stiffness times local end displacements less the condensed fixed-end loads"""
    e, kind, rel, order = cx.case
    F = Frame(cx, EDGES[e], node_order=list(order))
    if RELS[rel]:
        F.m.set_beam_releases("q", **{t: True for t in RELS[rel]})
    P, c = pattern(cx, "P"), static(cx, "c")
    f, loc = loads(cx, F, kind, P)
    k = cx.real("k", pos=True)
    c.add_pattern(P, k)
    w = cx.workdir()
    assembly(cx, F.m, [c]).save(w, "s.asb")
    d = stored(cx, w, "c", 18)[0]
    Kb, lb = condensed(F, loc, {"q": [COMP.index(t) for t in RELS[rel]]})
    R = beams(cx, w)
    for b in F.p:
        got = R.resolve_beam_end_force(b, "c")
        u = F.T(b).dot(d[F.dofs(b)])
        cx.eq("end forces", got, Kb[b].dot(u) - k * lb[b])
        if b == "q":
            idx = [COMP.index(t) for t in RELS[rel]]
            cx.eq("no force in released components", got[idx], np.zeros(len(idx)))
        L = F.L[b]
        tot = got + k * loc[b]
        cx.eq("end forces and member load balance", [tot[0] + tot[6], tot[1] + tot[7], tot[2] + tot[8], tot[3] + tot[9],
                                                     tot[4] + tot[10] - L * tot[8], tot[5] + tot[11] + L * tot[7]], np.zeros(6))


def field_at(L, u, x, c, s):
    """cubic through the end values u = (v1, t1, v2, t2), v' = s t"""
    a0, a1 = u[0], s * u[1]
    D, T = u[2] - a0 - a1 * L, s * u[3] - a1
    a2, a3 = (3 * D - T * L) / L ** 2, (T * L - 2 * D) / L ** 3
    return a0 + a1 * x + a2 * x ** 2 + a3 * x ** 3, a1 + 2 * a2 * x + 3 * a3 * x ** 2


@harness(cases=[(e, o, s) for e in EDGES for o, s in zip(("abc", "cba", "bca"), ("", "q", "p"))])
def deformation(cx):
    """any stored displacements and station: the interpolation of the local end displacements, at each step"""
    e, order, simple = cx.case
    F = Frame(cx, EDGES[e], node_order=list(order), simple=tuple(simple))
    w = cx.workdir()
    assembly(cx, F.m, [static(cx, "c")]).save(w, "s.asb")
    d = stored(cx, w, "c", 18, 4)
    z = cx.real("z", lo=0, hi=1, nom=(0, 1))
    R = beams(cx, w)
    for b in F.p:
        L = F.L[b]
        for step in (1, 2, 3, 4):
            u = F.T(b).dot(d[step - 1][F.dofs(b)])
            v, dv = field_at(L, u[[1, 5, 7, 11]], z * L, cx, 1)
            s, ds = field_at(L, u[[2, 4, 8, 10]], z * L, cx, -1)
            got = R.resolve_beam_deformation(b, z, "c") if step == 1 else R.resolve_beam_deformation(b, z, "c", step)
            cx.eq("axial displacement", got[0], (1 - z) * u[0] + z * u[6])
            cx.eq("deflection along y", got[1], v)
            cx.eq("deflection along -z", got[2], -s)
            cx.eq("twist", got[3], (1 - z) * u[3] + z * u[9])
            cx.eq("slope of the deflection along y", got[4], dv)
            cx.eq("slope of the deflection along -z", got[5], -ds)


@harness(cases=[(e, o, n) for e, o, n in zip(EDGES, ("abc", "cba", "bca"), (4, 3, 4))])
def steps_of_a_history(cx):
    """every step of a time history: the stored row of that step and the load at that step"""
    e, order, n = cx.case
    F = Frame(cx, EDGES[e], node_order=list(order))
    P, Q = pattern(cx, "P"), pattern(cx, "Q")
    c = cx.mod("hyperstatic.core.fe_model.load.loadcase").TimeHistoryCase("c")
    f, _ = loads(cx, F, "nodal", P)
    _, loc = loads(cx, F, "dist", Q)
    C = cx.mod("hyperstatic.common.curve").Curve
    y = [[cx.real("y%d%d" % (i, t), pos=True) for t in range(n)] for i in (0, 1)]
    for i, p in enumerate((P, Q)):
        c.add_pattern(p, 1, C("y%d" % i, list(range(n)), y[i]).to_array())
    w = cx.workdir()
    assembly(cx, F.m, [c]).save(w, "s.asb")
    d = stored(cx, w, "c", 18, n)
    Kb, lb = condensed(F, loc, {})
    K, g = total(cx, F, np.zeros(18, dtype=object), Kb, lb, 1)
    N, R = nodes(cx, w), beams(cx, w)
    for t in range(n):
        want = K.dot(d[t]) - y[0][t] * f - y[1][t] * g
        for s in "abc":
            k = 6 * F.idx[s]
            cx.eq("displacement of that step", N.resolve_nodal_displacement(s, "c", t + 1), d[t][k:k + 6])
            cx.eq("stiffness times displacement less the load of that step", N.resolve_nodal_reaction(s, "c", t + 1), want[k:k + 6])
        for b in F.p:
            u = F.T(b).dot(d[t][F.dofs(b)])
            cx.eq("end forces of that step", R.resolve_beam_end_force(b, "c", t + 1), Kb[b].dot(u) - y[1][t] * lb[b])


@harness(cases=["p", "q"])
def rotated_member(cx):
    """the queries use the rotated axes of a member"""
    F = Frame(cx, EDGES["slope"])
    b = cx.case
    t = cx.angle("t")
    F.m.set_beam_rotation(b, t)
    w = cx.workdir()
    assembly(cx, F.m, [static(cx, "c")]).save(w, "s.asb")
    d = stored(cx, w, "c", 18)[0]
    co, si = cx.cos(t), cx.sin(t)
    T = F.T(b)
    for k in range(4):
        T[3 * k:3 * k + 3, 3 * k:3 * k + 3] = np.array([[1, 0, 0], [0, co, si], [0, -si, co]]).dot(T[3 * k:3 * k + 3, 3 * k:3 * k + 3])
    u = T.dot(d[F.dofs(b)])
    cx.eq("end forces", beams(cx, w).resolve_beam_end_force(b, "c"), beam_K(F.p[b]).dot(u))
    got = beams(cx, w).resolve_beam_deformation(b, cx.q(1, 4), "c")
    cx.eq("deflection along y", got[1], field_at(F.L[b], u[[1, 5, 7, 11]], F.L[b] / 4, cx, 1)[0])
    cx.eq("deflection along -z", got[2], -field_at(F.L[b], u[[2, 4, 8, 10]], F.L[b] / 4, cx, -1)[0])


@harness()
def by_interface(cx):
    """the interface answers with the same values"""
    w = cx.workdir()
    api = cx.mod("hyperstatic.core").Api(w)
    F = Frame(cx, EDGES["bent"], model=api, node_order=list("bca"))
    api.add_loadpattern("P")
    q = {t: cx.real(t, pos=True) for t in DIST}
    api.set_beam_load_distributed("P", "p", **q)
    api.add_static_case("c")
    api.add_case_pattern("c", "P", 1)
    api.add_static_case("e")
    cx.eq("assembled", api.assemble(), True)
    d, e = stored(cx, w, "c", 18)[0], stored(cx, w, "e", 18)[0]
    loc = dist_ref(q, F.L["p"])
    K, f = total(cx, F, np.zeros(18, dtype=object), {b: beam_K(F.p[b]) for b in F.p}, {"p": loc, "q": np.zeros(12)}, 1)
    for s in "abc":
        k = 6 * F.idx[s]
        cx.eq("displacement", api.result_get_nodal_displacement(s, "c"), d[k:k + 6])
        cx.eq("displacement of another case", api.result_get_nodal_displacement(s, "e"), e[k:k + 6])
        cx.eq("reaction", api.result_get_nodal_reaction(s, "c"), (K.dot(d) - f)[k:k + 6])
        cx.eq("reaction of another case", api.result_get_nodal_reaction(s, "e"), K.dot(e)[k:k + 6])
    r = api.result_get_all_nodal_displacement("e")
    cx.eq("all nodes", sorted(r), ["a", "b", "c"])
    for s in "abc":
        cx.eq("displacement", r[s], e[6 * F.idx[s]:6 * F.idx[s] + 6])
    for b in "pq":
        u = F.T(b).dot(d[F.dofs(b)])
        cx.eq("end forces", api.result_get_beam_end_force(b, "c"), beam_K(F.p[b]).dot(u) - (loc if b == "p" else 0))
        cx.eq("deformation", api.result_get_beam_deformation(b, cx.q(1, 3), "c")[1], field_at(F.L[b], u[[1, 5, 7, 11]], F.L[b] / 3, cx, 1)[0])
    cx.eq("unknown node", api.result_get_nodal_displacement("zz", "c") is None, True)
    cx.eq("unknown member", api.result_get_beam_end_force("zz", "c") is None, True)
    cx.eq("unsolved case", api.result_get_nodal_displacement("a", "zz") is None, True)
