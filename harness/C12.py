"""C12 modal results"""
import numpy as np
from hlib import harness, Frame, assembly, T12, axes

META = dict(
    functions=["ModalSolver.solve_eigen", "ModalSolver.solve", "Assembly.assemble_K", "Assembly.assemble_M", "Assembly.assemble_boundary", "Assembly.restraintDOF",
               "ModalCase.*", "StructureResultResolver.resolve_modal_frequency", "NodeResultResolver.resolve_nodal_displacement", "Api.add_modal_case",
               "Api.solve_modal"],
    bounds="frames of one or two members in four directions, any sections, materials, lengths and nodal masses; listed supports of the model or of the case, "
           "nodes in any order; one to three modes, or all of them",
    outside="the eigensolver itself (scipy's eigsh and eigh by their contract, replayed on the real ones); loads used as mass, Ritz vectors and response "
            "spectra (not implemented); a base case; rounding",
)
ALL = [True] * 6
U2 = [True, False, True, True, True, True]


def modal(cx, *a, **kw):
    return cx.mod("hyperstatic.core.fe_model.load.loadcase").ModalCase(*a, **kw)


def solver(cx, w):
    return cx.mod("hyperstatic.core.fe_solver.dynamic").ModalSolver(w, "s.asb")


def masses(cx, F, names):
    M = np.zeros((6 * F.n, 6 * F.n), dtype=object)
    for s in names:
        v = [cx.real("m%s%d" % (s, c), lo=cx.q(1, 10), hi=100, nom=(1, 3)) for c in range(6)]
        F.m.set_nodal_mass(s, *v)
        for c in range(6):
            M[6 * F.idx[s] + c, 6 * F.idx[s] + c] = v[c]
    return M


def member_mass(cx, F, M):
    for b in F.p:
        p = F.p[b]
        half = p["rho"] * p["A"] * p["L"] / 2
        F.scatter(M, b, np.diag([half] * 3 + [cx.q(1, 10 ** 12)] * 3 + [half] * 3 + [cx.q(1, 10 ** 12)] * 3))
    return M


def results(cx, w, name):
    np_ = cx.mod("numpy")
    return np_.load(w + "/" + name + ".d.npy"), np_.load(w + "/" + name + ".o.npy")


def eigenpairs(cx, tag, K, M, fix, modes, o, k):
    n = len(K)
    cx.eq(tag + ": size", [list(modes.shape), list(o.shape)], [[k, n], [k]])
    free = [i for i in range(n) if i not in fix]
    for j in range(k):
        v = modes[j]
        cx.eq(tag + ": supports do not move", v[fix], np.zeros(len(fix)))
        cx.eq(tag + ": K v = w2 M v", K.dot(v)[free] - o[j] * M.dot(v)[free], np.zeros(len(free)), atol=1e-5)
        z = v[free[0]] != 0
        for i in free[1:]:
            z = z | (v[i] != 0)
        cx.claim(tag + ": a mode is not zero", z)
    for i in free:
        cx.le(tag + ": the first mode is not above any Rayleigh quotient", o[0] * M[i, i], K[i, i])


def setup(cx, sup, by, order=None, edges=(("p", "a", "b", "x"), ("q", "b", "c", "up"))):
    F = Frame(cx, list(edges), node_order=order)
    M = member_mass(cx, F, masses(cx, F, F.idx))
    return F, M


def fixed(F, sup):
    return sorted(6 * F.idx[k] + c for k in sup for c in range(6) if sup[k][c])


def support(F, case, sup, by):
    for k in sup:
        (F.m if by == "model" else case).set_nodal_restraint(k, *sup[k])


@harness(cases=[(b, o, k) for b, o in (("model", "ab"), ("case", "ba")) for k in (1, 2, 3)] + [("model", "ba", 5), ("case", "ab", 4), ("model", "ba", 6), ("case", "ab", 6), ("case", "ba", 9)])
def cantilever(cx):
    """one member fixed at the start, whichever node came first"""
    by, order, k = cx.case
    F, M = setup(cx, None, by, list(order), [("p", "a", "b", "s")])
    c = modal(cx, "c", k)
    support(F, c, {"a": ALL}, by)
    w = cx.workdir()
    assembly(cx, F.m, [c]).save(w, "s.asb")
    cx.eq("solved", solver(cx, w).solve_eigen("c"), True)
    modes, o = results(cx, w, "c")
    eigenpairs(cx, "cantilever", F.K(), M, fixed(F, {"a": ALL}), modes, o, min(k, 6))


@harness(cases=[("model", "abc"), ("case", "cab"), ("case", "bca"), ("withdrawn", "bac")])
def two_members(cx):
    by, order = cx.case
    F, M = setup(cx, None, by, list(order))
    c = modal(cx, "c", 2)
    sup = {"a": ALL, "c": U2}
    if by == "withdrawn":
        F.m.set_nodal_restraint("b", *ALL)
    support(F, c, sup, by)
    w = cx.workdir()
    assembly(cx, F.m, [c]).save(w, "s.asb")
    cx.eq("solved", solver(cx, w).solve("c"), True)
    modes, o = results(cx, w, "c")
    eigenpairs(cx, "frame", F.K(), M, fixed(F, sup), modes, o, 2)
    R = cx.mod("hyperstatic.core.fe_post.node").NodeResultResolver(w, "s.asb")
    for s in "abc":
        for j in (0, 1):
            cx.eq("mode at a node", R.resolve_nodal_displacement(s, "c", j + 1) - modes[j][6 * F.idx[s]:6 * F.idx[s] + 6], np.zeros(6))


@harness()
def several_cases(cx):
    """cases with different supports and numbers of modes, solved in any order, and again after the mass changed"""
    F, M = setup(cx, None, "model", None, [("p", "a", "b", "t")])
    F.m.set_nodal_restraint("a", *ALL)
    c, e = modal(cx, "c", 2), modal(cx, "e", 1)
    e.set_nodal_restraint("b", *ALL)
    w = cx.workdir()
    assembly(cx, F.m, [c, e]).save(w, "s.asb")
    for n in cx.choice("order", ["ce", "ec"]):
        solver(cx, w).solve_eigen(n)
    K = F.K()
    eigenpairs(cx, "one", K, M, fixed(F, {"a": ALL}), *results(cx, w, "c"), 2)
    eigenpairs(cx, "other", K, M, fixed(F, {"b": ALL}), *results(cx, w, "e"), 1)
    v = [cx.real("n%d" % k, lo=cx.q(1, 10), hi=100, nom=(1, 3)) for k in range(6)]
    F.m.set_nodal_mass("b", *v)
    D = np.diag([M[6 + k, 6 + k] for k in range(6)])
    M2 = M.copy()
    for k in range(6):
        M2[6 + k, 6 + k] = 0
    half = F.p["p"]["rho"] * F.p["p"]["A"] * F.L["p"] / 2
    for k in range(6):
        M2[6 + k, 6 + k] = v[k] + (half if k < 3 else cx.q(1, 10 ** 12))
    assembly(cx, F.m, [c, e]).save(w, "s.asb")
    solver(cx, w).solve_eigen("c")
    eigenpairs(cx, "after a change", K, M2, fixed(F, {"a": ALL}), *results(cx, w, "c"), 2)


@harness(cases=[1, 3])
def frequencies(cx):
    """frequency, period and circular frequency of any stored result"""
    k = cx.case
    F = Frame(cx, [("p", "a", "b", "x")])
    w = cx.workdir()
    assembly(cx, F.m, [modal(cx, "c", k)]).save(w, "s.asb")
    o2 = [cx.real("o%d" % j, pos=True) for j in range(k)]
    cx.mod("numpy").save(w + "/c.o", np.array(o2))
    r = cx.mod("hyperstatic.core.fe_post.structure").StructureResultResolver(w, "s.asb").resolve_modal_frequency("c")
    cx.eq("quantities", sorted(r), ["T", "f", "omega"])
    for j in range(k):
        cx.eq("circular frequency", r["omega"][j] ** 2, o2[j])
        cx.lt("circular frequency is positive", 0, r["omega"][j])
        cx.eq("frequency", 2 * cx.pi * r["f"][j], r["omega"][j])
        cx.eq("period", r["T"][j] * r["omega"][j], 2 * cx.pi)


@harness()
def settings(cx):
    """the case keeps the number of modes it was given"""
    c = modal(cx, "c", 5)
    cx.eq("modes", [c.n_modes, c.get_settings()["n_modes"]], [5, 5])
    cx.eq("default", modal(cx, "d").get_settings()["n_modes"], 3)
    cx.eq("algorithm", c.get_settings()["algorithm"], "eigen")


@harness(cases=[1, 2])
def by_interface(cx):
    """the interface extracts the number of modes asked for"""
    w = cx.workdir()
    api = cx.mod("hyperstatic.core").Api(w)
    F = Frame(cx, [("p", "a", "b", "s")], model=api, node_order=["b", "a"])
    M = member_mass(cx, F, masses(cx, F, F.idx))
    api.set_nodal_restraint("a", *ALL)
    cx.eq("case", api.add_modal_case("c"), True)
    cx.eq("assembled", api.assemble(), True)
    cx.eq("solved", api.solve_modal("c", cx.case), True)
    modes, o = results(cx, w, "c")
    eigenpairs(cx, "interface", F.K(), M, fixed(F, {"a": ALL}), modes, o, cx.case)
    cx.eq("mode at a node", api.result_get_nodal_displacement("b", "c") - modes[0][6 * F.idx["b"]:6 * F.idx["b"] + 6], np.zeros(6))
    cx.eq("unknown case", api.solve_modal("zz", 1), False)
