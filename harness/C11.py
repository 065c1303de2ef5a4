"""C11 supports"""
import numpy as np
from hlib import harness, Frame, assembly

META = dict(
    functions=["Assembly.__init__", "Assembly.assemble_boundary", "Assembly.restraintDOF", "Assembly.DOF", "LoadCase.set_nodal_restraint",
               "Model.set_nodal_restraint", "StaticSolver.solve_linear"],
    bounds="two or three nodes; all 64 support patterns of any one node beside fixed patterns of the others; every 12 x 12 system matrix and load "
           "vector; supports given by the model, by the case, by both, or withdrawn by the case; solved cantilevers and chains",
    outside="rounding; imposed support displacements (stored with the load pattern, not used by any solver)",
)
U = ["u1", "u2", "u3", "r1", "r2", "r3"]
ALT = [True, False, True, False, False, True]
ALL = [True] * 6


def case(cx, name):
    return cx.mod("hyperstatic.core.fe_model.load.loadcase").StaticCase(name)


def system(cx, n, sparse=False):
    K = np.array([[cx.real("k%d_%d" % (i, j)) if not sparse or (i * 5 + j * 3) % 4 else 0 for j in range(n)] for i in range(n)])
    f = np.array([[cx.real("f%d" % i)] for i in range(n)])
    S = cx.mod("scipy.sparse")
    return K, f, S.coo_matrix(K), S.csr_matrix(f)


def model(cx, names="ab"):
    m = cx.mod("hyperstatic.core.fe_model.model").Model()
    for k, s in enumerate(names):
        m.add_node(s, k, 2 * k, 3)
    return m


def fixed(r, names="ab"):
    return sorted(6 * names.index(k) + c for k, v in r.items() for c in range(6) if v[c])


def reduced(cx, A, name, fix, sys, n):
    K, f, Ks, fs = sys
    free = [i for i in range(n) if i not in fix]
    K_, f_ = A.assemble_boundary(name, Ks), A.assemble_boundary(name, fs)
    cx.eq("remaining equations", K_.toarray(), K[np.ix_(free, free)])
    cx.eq("remaining loads", f_, f[free])
    cx.eq("the system itself is unchanged", Ks.toarray(), K)


WHO = ["model", "case", "both", "other node", "case after model", "nobody", "withdrawn"]


@harness(cases=[(w, k) for w in WHO for k in "ab"])
def removed(cx):
    """any support pattern of one node; ALT or nothing at the other"""
    who, at = cx.case
    other = "b" if at == "a" else "a"
    r = [cx.flag(u) for u in U]
    m, c, d = model(cx), case(cx, "c"), case(cx, "d")
    mod, own = {}, {}
    if who == "model":
        mod = {at: r}
    elif who == "case":
        own = {at: r, other: ALT}
    elif who == "both":
        mod, own = {other: ALT}, {at: r, other: [False] * 6}
    elif who == "other node":
        mod, own = {other: ALT}, {at: r}
    elif who == "case after model":
        mod, own = {at: ALT, other: ALL}, {at: r}
    elif who == "withdrawn":
        mod, own = {at: r}, {other: [False] * 6}
    for k, v in mod.items():
        cx.eq("supported", m.set_nodal_restraint(k, *v), True)
    for k, v in own.items():
        c.set_nodal_restraint(k, *v)
    A = assembly(cx, m, [c, d])
    sys = system(cx, 12, who == "case")
    fix = fixed(own) if own else fixed(mod)
    cx.eq("supported components", sorted(A.restraintDOF("c")), fix)
    cx.eq("supported components of the model", sorted(A.restraintDOF()), fixed(mod))
    cx.eq("degrees of freedom of the model", A.DOF, 12 - len(fixed(mod)))
    reduced(cx, A, "c", fix, sys, 12)
    if who in ("both", "case after model", "other node"):
        cx.eq("supported components of another case", sorted(A.restraintDOF("d")), fixed(mod))
        reduced(cx, A, "d", fixed(mod), sys, 12)


@harness()
def named(cx):
    """each component by its name; a later setting replaces an earlier one; unknown nodes are refused"""
    for i, u in enumerate(U):
        m, c = model(cx), case(cx, "c")
        m.set_nodal_restraint("a", True, True, True)
        m.set_nodal_restraint("a", **{u: True})
        c.set_nodal_restraint("b", **{u: True})
        A = assembly(cx, m, [c])
        cx.eq("one component of the model", A.restraintDOF(), [i])
        cx.eq("one component of the case", A.restraintDOF("c"), [6 + i])
        cx.eq("unknown node", m.set_nodal_restraint("z", True), False)
        cx.eq("nodes with supports", sorted(m.get_nodal_restraint_dict()), ["a"])


@harness(cases=["model", "case", "replaced", "instead"])
def three_nodes(cx):
    """supports set in any order act on their own nodes"""
    m, c = model(cx, "abc"), case(cx, "c")
    pats = [ALT, ALL, [False, True, False, False, False, False], [False] * 6]
    r = {k: cx.choice(k, pats) for k in "cab"}
    order = cx.choice("order", ["abc", "cba", "bca"])
    if cx.case == "instead":
        # the case holds fewer nodes than the model does
        for k in order:
            m.set_nodal_restraint(k, *ALL)
        r["b"] = r["c"] = [False] * 6
        order = "a"
    for k in order:
        if cx.case == "model":
            m.set_nodal_restraint(k, *r[k])
        else:
            if cx.case == "replaced":
                c.set_nodal_restraint(k, *pats[0])
            c.set_nodal_restraint(k, *r[k])
    A = assembly(cx, m, [c])
    fix = fixed(r, "abc")
    S = cx.mod("scipy.sparse")
    f = np.array([[cx.real("f%d" % i)] for i in range(18)])
    free = [i for i in range(18) if i not in fix]
    K = np.diag([cx.real("k%d" % i) for i in range(18)])
    K[3, 11], K[17, 0] = cx.real("p"), cx.real("q")
    if free:
        cx.eq("remaining loads", A.assemble_boundary("c", S.csr_matrix(f)), f[free])
        cx.eq("remaining equations", A.assemble_boundary("c", S.coo_matrix(K)).toarray(), K[np.ix_(free, free)])


@harness(cases=[(w, o) for w in ("model", "case", "withdrawn") for o in ("abc", "cba", "bca")])
def put_back(cx):
    """results return to their own degrees of freedom: a chain fixed at one end, any supports elsewhere"""
    who, order = cx.case
    F = Frame(cx, [("p", "a", "b", "x"), ("q", "b", "c", "up")], node_order=list(order))
    r = {"a": ALL, "b": [False, cx.flag("b1"), False, cx.flag("b3"), False, False],
         "c": [cx.flag("c0"), False, cx.flag("c2"), False, cx.flag("c4"), False]}
    c = case(cx, "c")
    if who == "withdrawn":
        F.m.set_nodal_restraint("b", *ALL)
    for k in "cab":
        if who == "model":
            F.m.set_nodal_restraint(k, *r[k])
        else:
            c.set_nodal_restraint(k, *r[k])
    P = cx.mod("hyperstatic.core.fe_model.load.pattern").LoadPattern("p")
    v = {k: [cx.real("f%s%d" % (k, i), pos=True) for i in range(6)] for k in "bc"}
    for k in v:
        P.set_nodal_load(k, *v[k])
    c.add_pattern(P, 1)
    w = cx.workdir()
    assembly(cx, F.m, [c]).save(w, "s.asb")
    cx.eq("solved", cx.mod("hyperstatic.core.fe_solver.static").StaticSolver(w, "s.asb").solve_linear("c"), True)
    d = cx.mod("numpy").load(w + "/c.d.npy")
    cx.eq("size", list(d.shape), [1, 18])
    d = d[0]
    fix = fixed(r, order)
    cx.eq("supported components do not move", d[fix], np.zeros(len(fix)))
    free = [i for i in range(18) if i not in fix]
    f = np.zeros(18, dtype=object)
    for k in v:
        f[6 * F.idx[k]:6 * F.idx[k] + 6] = v[k]
    cx.eq("equilibrium at every free component", F.K().dot(d)[free], f[free])
