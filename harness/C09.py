"""C09 assembly"""
import itertools
import numpy as np
from hlib import harness, DIST, CONC, dist_ref, conc_ref, beam_K, Frame, axes, assembly, eliminate, T12, length, rx

META = dict(
    functions=["Assembly.__init__", "Assembly.assemble_K", "Assembly.assemble_M", "Assembly.assemble_f", "Model.get_*", "Node.integrate_M",
               "Beam.integrate_K/M", "SimpleBeam.integrate_K/M", "DKGQ/DKT.integrate_K (with the C kernels)"],
    bounds="2 to 4 nodes, 1 to 4 members of any size and section in six directions, every connection listed in the cases, every order of "
           "three members and three nodes; one quadrilateral and one triangle; every nodal mass, load and factor",
    outside="rounding; more nodes and elements (each element is scattered by itself); loads used as mass",
)

TOPO = {
    "one": [("p", "a", "b", "s")],
    "vertical": [("p", "a", "b", "up")],
    "downwards": [("p", "a", "b", "down")],
    "chain": [("p", "a", "b", "x"), ("q", "b", "c", "h")],
    "meeting": [("p", "a", "c", "up"), ("q", "b", "c", "t")],
    "fork": [("p", "a", "b", "h"), ("q", "a", "c", "down"), ("r", "a", "d", "-x")],
    "parallel": [("p", "a", "b", "s"), ("q", "a", "b", "s")],
    "there and back": [("p", "a", "b", "x"), ("q", "b", "a", "-x")],
    "apart": [("p", "a", "b", "y"), ("q", "c", "b", "t")],
}
SAME = {"parallel": {"q": "p"}, "there and back": {"q": "p"}}
THOROUGH = {
    "portal": [("p", "a", "b", "up"), ("q", "b", "c", "h"), ("r", "c", "d", "down")],
    "star": [("p", "a", "b", "x"), ("q", "a", "c", "y"), ("r", "a", "d", "s"), ("s", "e", "a", "t")],
    "triple": [("p", "a", "b", "t"), ("q", "b", "a", "t"), ("r", "a", "b", "t")],
}


def stiffness_claims(cx, F):
    K = assembly(cx, F.m).assemble_K().toarray()
    cx.eq("size", list(K.shape), [6 * F.n, 6 * F.n])
    cx.eq("assembled stiffness", K, F.K())
    cx.eq("symmetric", K, K.T)
    if F.n <= 3:
        cx.eq("no force under rigid motion", K.dot(F.rigid()), np.zeros((6 * F.n, 6)))


@harness(cases=list(TOPO), thorough=list(THOROUGH))
def stiffness(cx):
    e = TOPO.get(cx.case) or THOROUGH[cx.case]
    if cx.case in ("there and back",):
        F = Frame(cx, e, same_length=SAME[cx.case])
    elif cx.case == "triple":
        F = Frame(cx, e[:1] + [("r", "a", "b", "t")], same_length={"r": "p"})
    else:
        F = Frame(cx, e, same_length=SAME.get(cx.case, {}), simple=("q",) if len(e) > 1 else ())
    stiffness_claims(cx, F)


ORD = list(itertools.permutations(range(3)))


@harness(cases=[(o, n) for o in ORD for n in ORD[::2]])
def any_order(cx):
    """nodes and members of a space frame defined in any order"""
    o, n = cx.case
    e = [("p", "a", "b", "up"), ("q", "b", "c", "s"), ("r", "b", "a", "down")]
    F = Frame(cx, e, order=o, node_order=["abc"[k] for k in n], same_length={"r": "p"}, simple=("r",))
    stiffness_claims(cx, F)


@harness(cases=["one", "vertical", "meeting", "fork"])
def mass(cx):
    F = Frame(cx, TOPO[cx.case], simple=("q",))
    nm = {}
    for k in list(F.idx)[:2]:
        v = nm[k] = [cx.real("m%s%d" % (k, c), lo=0, hi=1000, nom=(0, 3)) for c in range(6)]
        F.m.set_nodal_mass(k, *v)
    M = assembly(cx, F.m).assemble_M().toarray()
    ref = np.zeros((6 * F.n, 6 * F.n), dtype=object)
    for k, v in nm.items():
        for c in range(6):
            ref[6 * F.idx[k] + c, 6 * F.idx[k] + c] = v[c]
    for name, p in F.p.items():
        D = F.dofs(name)
        for c in (0, 1, 2, 6, 7, 8):
            ref[D[c], D[c]] = ref[D[c], D[c]] + p["rho"] * p["A"] * p["L"] / 2
    tr = [6 * n + c for n in range(F.n) for c in range(3)]
    ro = [6 * n + c for n in range(F.n) for c in range(3, 6)]
    cx.eq("translational mass", M[np.ix_(tr, tr)], ref[np.ix_(tr, tr)])
    cx.eq("no coupling", M[np.ix_(tr, ro)], ref[np.ix_(tr, ro)])
    cx.eq("rotational inertia", M[np.ix_(ro, ro)], ref[np.ix_(ro, ro)], atol=1e-6)
    total = sum(p["rho"] * p["A"] * p["L"] for p in F.p.values())
    R = F.rigid()
    for c in range(3):
        cx.eq("total mass", R[:, c].dot(M).dot(R[:, c]), total + sum(v[c] for v in nm.values()))


@harness(cases=[50], thorough=[400])
def many_nodes(cx):
    """a large model: members between distant nodes, all other rows empty"""
    n = cx.case
    m = cx.mod("hyperstatic.core.fe_model.model").Model()
    for k in range(n):
        m.add_node("n%d" % k, k, 0, 0)
    C = cx.mod("hyperstatic.core.fe_model.load.loadcase").StaticCase("c")
    P = cx.mod("hyperstatic.core.fe_model.load.pattern").LoadPattern("p")
    K, M, f = {}, {}, {}
    E = cx.real("E", pos=True)
    for s, i, j in (("p", 0, n - 1), ("q", n - 2, n - 7), ("r", n // 2, n - 2)):
        A, L = cx.real("A" + s, pos=True), abs(j - i)
        m.add_simple_beam(s, "n%d" % i, "n%d" % j, E, cx.q(1, 4), A, 1, 1, 1, 1)
        T = T12(axes(cx, "x" if j > i else "-x"))
        k = T.T.dot(beam_K(dict(E=E, G=E * cx.q(2, 5), A=A, J=1, I2=1, I3=1, L=L))).dot(T)
        q = cx.real("q" + s, pos=True)
        P.set_beam_load_dist(s, qi2=q, qj2=q)
        g = T.T.dot(dist_ref({d: q if d in ("qi2", "qj2") else 0 for d in DIST}, L))
        D = [6 * v + c for v in (i, j) for c in range(6)]
        for a in range(12):
            f[D[a]] = f.get(D[a], 0) + g[a]
            if a % 6 < 3:
                M[D[a], D[a]] = M.get((D[a], D[a]), 0) + A * L / 2
            for b in range(12):
                K[D[a], D[b]] = K.get((D[a], D[b]), 0) + k[a, b]
    C.add_pattern(P, 1)
    X = assembly(cx, m, [C])
    for what, got, ref, at in (("stiffness", X.assemble_K(), K, None), ("mass", X.assemble_M(), M, 3), ("load", X.assemble_f("c"), f, None)):
        got = got.tocoo()
        cx.eq("size of the " + what, list(got.shape), [6 * n, 1 if what == "load" else 6 * n])
        out = {}
        for i, j, v in zip(got.row, got.col, got.data):
            i, j = int(i), int(j)
            out[i if what == "load" else (i, j)] = out.get(i if what == "load" else (i, j), 0) + v
        keys = sorted(set(out) | set(ref), key=str)
        if at:
            keys = [k for k in keys if k[0] % 6 < 3 or k[1] % 6 < 3]
        cx.eq("assembled " + what, [out.get(k, 0) for k in keys], [ref.get(k, 0) for k in keys])


REL = [dict(r3i=True), dict(r2j=True, r3j=True), dict(r1i=True, r2i=True, r3i=True, r2j=True, r3j=True), dict(u1i=True), dict(u2j=True, r3j=True)]
NAMES = ["u1i", "u2i", "u3i", "r1i", "r2i", "r3i", "u1j", "u2j", "u3j", "r1j", "r2j", "r3j"]


@harness(cases=list(range(len(REL))))
def released(cx):
    """releases act on their own member; no mass is lost"""
    F = Frame(cx, TOPO["meeting"], simple=("q",))
    F.m.set_beam_releases("q", **REL[cx.case])
    rel = [NAMES.index(k) for k in REL[cx.case]]
    q = {k: cx.real(k) if k in ("qi2", "qj2", "pi") else 0 for k in DIST}
    L = cx.mod("hyperstatic.core.fe_model.load.pattern").LoadPattern("p")
    for b in "pq":
        L.set_beam_load_dist(b, **q)
    C = cx.mod("hyperstatic.core.fe_model.load.loadcase").StaticCase("c")
    C.add_pattern(L, 2)
    A = assembly(cx, F.m, [C])
    kq, fq = eliminate(beam_K(F.p["q"]), 2 * dist_ref(q, F.L["q"]), rel)
    cx.generic(F.T("p").T.dot(2 * dist_ref(q, F.L["p"])), F.T("q").T.dot(fq))
    ref = np.zeros((6 * F.n, 6 * F.n), dtype=object)
    F.scatter(ref, "p", beam_K(F.p["p"]))
    F.scatter(ref, "q", kq)
    cx.eq("assembled stiffness", A.assemble_K().toarray(), ref)
    f = np.zeros(6 * F.n, dtype=object)
    for b, fe in (("p", 2 * dist_ref(q, F.L["p"])), ("q", fq)):
        g = F.T(b).T.dot(fe)
        for k, d in enumerate(F.dofs(b)):
            f[d] = f[d] + g[k]
    cx.eq("assembled load", A.assemble_f("c").toarray()[:, 0], f)
    M = A.assemble_M().toarray()
    total = sum(p["rho"] * p["A"] * p["L"] for p in F.p.values())
    R = F.rigid()
    for c in range(3):
        cx.eq("total mass", R[:, c].dot(M).dot(R[:, c]), total)


@harness(cases=["same assembly", "new assembly", "longer", "turned"])
def changed(cx):
    """a member made anew counts as it is now, not as it was when it was assembled first"""
    F = Frame(cx, TOPO["one"])
    L = cx.mod("hyperstatic.core.fe_model.load.pattern").LoadPattern("p")
    C = cx.mod("hyperstatic.core.fe_model.load.loadcase").StaticCase("c")
    C.add_pattern(L, 2)
    A = assembly(cx, F.m, [C])
    T = F.T("p")
    for step, rel in (("first", dict(r3i=True)), ("then", dict(u2j=True, r2j=True))):
        if step == "then":
            p = F.p["p"] = dict((k, cx.real(k + "2", pos=True)) for k in ("E", "A", "J", "I2", "I3", "rho"))
            p["G"], p["L"] = p["E"] * cx.q(2, 5), F.L["p"]
            F.m.add_isotropic_material("m2", p["rho"], p["E"], cx.q(1, 4), 1)
            F.m.add_beam_section_general("s2", "m2", p["A"], 1, 1, p["I2"], p["I3"], p["J"], 1, 1)
            if cx.case == "longer":
                l = length(cx, "L2")
                at = F.at["b"] / F.L["p"] * l
                F.m.add_node("b", at[0], at[1], at[2])
                F.L["p"] = p["L"] = l
            F.m.add_beam("p", "a", "b", "s2")
            if cx.case == "turned":
                t = cx.angle("t")
                F.m.set_beam_rotation("p", t)
                T = T12(rx(cx, t).T.dot(axes(cx, "s")))
            if cx.case == "new assembly":
                A = assembly(cx, F.m, [C])
        F.m.set_beam_releases("p", **rel)
        q = {k: cx.real(k + step) if k in ("qi2", "qj3", "pi") else 0 for k in DIST}
        L.set_beam_load_dist("p", **q)
        k, f = eliminate(beam_K(F.p["p"]), 2 * dist_ref(q, F.L["p"]), [NAMES.index(r) for r in rel])
        cx.generic(T.T.dot(f))
        cx.eq(step + ": stiffness", A.assemble_K().toarray(), T.T.dot(k).dot(T))
        cx.eq(step + ": load", A.assemble_f("c").toarray()[:, 0], T.T.dot(f))
        M = A.assemble_M().toarray()
        cx.eq(step + ": mass", [sum(M[i, j] for i in (c, 6 + c) for j in (c, 6 + c)) for c in range(3)], [F.p["p"]["rho"] * F.p["p"]["A"] * F.L["p"]] * 3)


KINDS = {"nodes": (range(6), (), ()), "some nodes": ((1, 5), (), ()), "dist": ((), DIST, ()), "dist 2": ((), ("qi2", "qj2"), ()),
         "dist 3": ((0,), ("qj3",), ()), "conc": ((), (), CONC), "conc F2": ((2,), ("ti",), ("F2",)), "conc M": ((), ("pi", "pj"), ("M1", "M2", "M3"))}


@harness(cases=[(t, k) for t in ("meeting", "fork", "there and back") for k in KINDS])
def load(cx):
    """loads of one kind and of several kinds; the rest is exactly zero"""
    topo, kind = cx.case
    nod, dis, con = KINDS[kind]
    F = Frame(cx, TOPO[topo], same_length=SAME.get(topo, {}), simple=("q",))
    LP = cx.mod("hyperstatic.core.fe_model.load.pattern").LoadPattern
    SC = cx.mod("hyperstatic.core.fe_model.load.loadcase").StaticCase
    a, b = LP("a"), LP("b")
    fn = {k: [cx.real("f%s%d" % (k, c)) if c in nod else 0 for c in range(6)] for k in list(F.idx)[:2]}
    for k, v in fn.items():
        a.set_nodal_load(k, *v)
    q = {k: cx.real(k) if k in dis else 0 for k in DIST}
    P = {k: cx.real(k) if k in con else 0 for k in CONC}
    s = cx.real("s", lo=0, hi=1, nom=(0, 1))
    a.set_beam_load_dist("p", **q)
    b.set_beam_load_conc("q", r=s, **P)
    b.set_beam_load_dist("q", **q)
    k1, k2, k3 = cx.real("k1"), cx.real("k2"), cx.real("k3")
    c1, c2, c3 = SC("one"), SC("two"), SC("none")
    c1.add_pattern(a, k1)
    c1.add_pattern(b, k2)
    c2.add_pattern(a, k3)
    A = assembly(cx, F.m, [c1, c2, c3])
    N = 6 * F.n

    def ref(ka, kb):
        f = np.zeros(N, dtype=object)
        for k, v in fn.items():
            for c in range(6):
                f[6 * F.idx[k] + c] = f[6 * F.idx[k] + c] + ka * v[c]
                cx.generic(ka * v[c])
        fe = {"p": ka * dist_ref(q, F.L["p"]), "q": kb * (dist_ref(q, F.L["q"]) + conc_ref(P, s * F.L["q"], F.L["q"]))}
        for name, e in fe.items():
            g = F.T(name).T.dot(e)
            cx.generic(g)
            for k, d in enumerate(F.dofs(name)):
                f[d] = f[d] + g[k]
        return f
    r1, r2 = ref(k1, k2), ref(k3, 0)
    f1 = A.assemble_f("one").toarray()
    cx.eq("size", list(f1.shape), [N, 1])
    cx.eq("assembled load", f1[:, 0], r1)
    cx.eq("assembled load of another case", A.assemble_f("two").toarray()[:, 0], r2)
    cx.eq("no load", A.assemble_f("none").toarray()[:, 0], np.zeros(N))
    # the resultant is the applied load
    tot = F.rigid().T.dot(f1[:, 0])
    for c in range(3):
        e = sum(k1 * v[c] for v in fn.values())
        for name, ka, pq in (("p", k1, None), ("q", k2, P)):
            R = axes(cx, F.d[name])
            l = F.L[name]
            loc = [(q["pi"] + q["pj"]) * l / 2, (q["qi2"] + q["qj2"]) * l / 2, (q["qi3"] + q["qj3"]) * l / 2]
            if pq:
                loc = [x + pq["F%d" % (n + 1)] for n, x in enumerate(loc)]
            e = e + ka * sum(R[n][c] * loc[n] for n in range(3))
        cx.eq("total load", tot[c], e)


@harness()
def history(cx):
    """the load at a step: every pattern by its own curve, on nodes and members"""
    F = Frame(cx, TOPO["one"])
    LP = cx.mod("hyperstatic.core.fe_model.load.pattern").LoadPattern
    C = cx.mod("hyperstatic.core.fe_model.load.loadcase").TimeHistoryCase("h")
    a, b = LP("a"), LP("b")
    v = [cx.real("f%d" % c) for c in range(6)]
    q = {k: cx.real(k) for k in DIST}
    a.set_nodal_load("b", *v)
    b.set_beam_load_dist("p", **q)
    x, y = [[cx.real("%s%d" % (n, t)) for t in range(3)] for n in "xy"]
    k1, k2 = cx.real("k1"), cx.real("k2")
    C.add_pattern(a, k1, np.array([[0, 1, 2], x]))
    C.add_pattern(b, k2, np.array([[0, 1, 2], y]))
    A = assembly(cx, F.m, [C])
    g = F.T("p").T.dot(dist_ref(q, F.L["p"]))
    for t in range(3):
        f = np.zeros(12, dtype=object)
        for c in range(6):
            f[6 + c] = k1 * x[t] * v[c]
            cx.generic(f[6 + c])
        cx.generic(k2 * y[t] * g)
        cx.eq("load at a step", A.assemble_f("h", t).toarray()[:, 0], f + k2 * y[t] * g)


def shell_model(cx, tri, between=False):
    m = cx.mod("hyperstatic.core.fe_model.model").Model()
    E, t = cx.real("E", pos=True), cx.real("t", pos=True)
    m.add_isotropic_material("m", 1, E, cx.q(1, 4), 1)
    m.add_shell_section("s", "m", t)
    P = {"a": (0, 0, 0), "b": (3, 0, 0), "c": (4, 2, 0), "d": (0, 2, 0), "e": (7, 0, 0)}
    for k in "ecadb":
        m.add_node(k, *P[k])
    return m, {k: n for n, k in enumerate("ecadb")}


@harness(cases=["quad", "tria", "both"])
def shells(cx):
    """shells go to their own nodes in their own order"""
    m, idx = shell_model(cx, cx.case)
    el = []
    if cx.case != "tria":
        m.add_shell("q", "s", "a", "b", "c", "d")
        el.append(("q", "abcd"))
    if cx.case != "quad":
        m.add_shell("t", "s", "b", "e", "c")
        el.append(("t", "bec"))
    K = assembly(cx, m).assemble_K().toarray()
    ref = np.zeros((30, 30), dtype=object)
    for name, nodes in el:
        T, k = m.get_shell_transform_matrix(name), m.get_shell_K(name)
        cx.eq("nodes of the shell", m.get_shell_node_hids(name), [idx[n] for n in nodes])
        g = T.toarray().T.dot(k.toarray()).dot(T.toarray()) if hasattr(T, "toarray") else T.T.dot(k.toarray()).dot(T)
        D = [6 * idx[n] + c for n in nodes for c in range(6)]
        for a in range(len(D)):
            for b in range(len(D)):
                ref[D[a], D[b]] = ref[D[a], D[b]] + g[a, b]
    cx.eq("assembled stiffness", K, ref)


@harness(cases=["tria", "quad", "both", "same names"])
def any_shell(cx):
    """whatever the shells' own matrices are (stand-ins for their integration), every entry goes to its own place"""
    S = cx.mod("scipy.sparse")
    m, idx = shell_model(cx, "both")
    E = "hyperstatic.core.fe_model.element."
    T, Q = cx.mod(E + "tria.DKT").DKT, cx.mod(E + "quad.DKGQ").DKGQ
    kt = np.array([[cx.real("t%d_%d" % (i, j)) for j in range(18)] for i in range(18)])
    kq = np.array([[cx.real("q%d_%d" % (i, j)) for j in range(24)] for i in range(24)])
    el, bar = [], []
    q, t = ("a", "b") if cx.case == "same names" else ("q", "t")
    if cx.case == "same names":
        # members, shells and nodes are numbered independently
        E = cx.real("Eb", pos=True)
        for s, i, j in (("a", "a", "b"), ("b", "b", "e"), ("e", "a", "e")):
            m.add_simple_beam(s, i, j, E, cx.q(1, 4), 1, 1, 1, 1, 1)
            bar.append((s, i, j))
    if cx.case != "tria":
        m.add_shell(q, "s", "a", "b", "c", "d")
        el.append((q, "abcd", kq))
    if cx.case != "quad":
        m.add_shell(t, "s", "b", "e", "c")
        el.append((t, "bec", kt))
    old = T.integrate_K, Q.integrate_K
    T.integrate_K, Q.integrate_K = (lambda self: S.csr_matrix(kt)), (lambda self: S.csr_matrix(kq))
    try:
        K = assembly(cx, m).assemble_K().toarray()
        trans = {name: m.get_shell_transform_matrix(name) for name, nodes, k in el}
    finally:
        T.integrate_K, Q.integrate_K = old
    ref = np.zeros((30, 30), dtype=object)
    for name, nodes, k in el:
        t = trans[name].toarray()
        g = t.T.dot(k).dot(t)
        D = [6 * idx[n] + c for n in nodes for c in range(6)]
        for a in range(len(D)):
            for b in range(len(D)):
                ref[D[a], D[b]] = ref[D[a], D[b]] + g[a, b]
    for s, i, j in bar:
        L = 7 if (i, j) == ("a", "e") else 3 if i == "a" else 4
        k = beam_K(dict(E=E, G=E * cx.q(2, 5), A=1, J=1, I2=1, I3=1, L=L))
        g = T12(axes(cx, "x")).T.dot(k).dot(T12(axes(cx, "x")))
        D = [6 * idx[n] + c for n in (i, j) for c in range(6)]
        ref[np.ix_(D, D)] = ref[np.ix_(D, D)] + g
    cx.eq("assembled stiffness", K, ref)
