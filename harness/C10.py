"""C10 static solutions"""
import numpy as np
from hlib import harness, Frame, assembly, eliminate, beam_K, dist_ref, conc_ref, axes, T12, DIST, CONC

META = dict(
    functions=["StaticSolver.solve_linear", "Solver.__init__", "Assembly.assemble_K", "Assembly.assemble_f", "Assembly.assemble_boundary", "Assembly.save",
               "Assembly.restraintDOF", "Beam.static_condensate", "Beam.static_condensate_f", "LoadCase.get_nodal_f", "LoadCase.get_beam_f",
               "Api.assemble", "Api.solve_static", "Api.result_get_nodal_displacement", "NodeResultResolver.resolve_nodal_displacement"],
    bounds="frames of up to three members over four nodes in eight directions with any section, material and length; any nodal, distributed and concentrated "
           "loads in up to two patterns with any factors; listed supports and releases; a quadrilateral and a triangular shell and a member joined to one, in two planes, with nodal loads; histories of up to four solves, re-assemblies and model changes",
    outside="the factorisation itself (scipy's direct solver by its contract K d = f, checked by replaying on the real one); singular structures; member loads whose components cancel exactly in a global direction; the "
            "pardiso, cholmod and pcg solvers (libraries not installed); a base case; solve_2nd_order (raises with the installed scipy); rounding",
)
ALL = [True] * 6
PIN = [True, True, True, False, False, False]
ROLL = [False, True, True, True, False, False]

FRAMES = {
    "chain": ([("p", "a", "b", "x"), ("q", "b", "c", "up")], {"a": ALL}),
    "slope": ([("p", "a", "b", "s"), ("q", "c", "b", "h")], {"c": ALL}),
    "down": ([("p", "b", "a", "down"), ("q", "c", "b", "t")], {"a": ALL, "c": ROLL}),
    "portal": ([("p", "a", "b", "up"), ("q", "b", "c", "y"), ("r", "c", "d", "down")], {"a": ALL, "d": PIN}),
    "tree": ([("p", "a", "b", "up"), ("q", "b", "c", "h"), ("r", "b", "d", "s")], {"a": ALL}),
    "single": ([("p", "a", "b", "t")], {"b": ALL}),
    "tied": ([("p", "a", "b", "-x")], {"a": [True, True, True, True, False, True], "b": [False, True, True, False, False, False]}),
}


def pattern(cx, name):
    return cx.mod("hyperstatic.core.fe_model.load.pattern").LoadPattern(name)


def static(cx, name):
    return cx.mod("hyperstatic.core.fe_model.load.loadcase").StaticCase(name)


def solver(cx, w, f="s.asb"):
    return cx.mod("hyperstatic.core.fe_solver.static").StaticSolver(w, f)


def load(cx, w, name):
    return cx.mod("numpy").load(w + "/" + name + ".d.npy")


def nodal(cx, tag):
    return [cx.real("%s%d" % (tag, k), pos=True) for k in range(6)]


def fixed(F, sup):
    return sorted(6 * F.idx[k] + c for k in sup for c in range(6) if sup[k][c])


def put(F, f, node, v, s=1):
    for c in range(6):
        f[6 * F.idx[node] + c] = f[6 * F.idx[node] + c] + s * v[c]


def member(cx, F, f, name, r):
    g = F.T(name).T.dot(r)
    cx.generic(g)
    for a, i in enumerate(F.dofs(name)):
        f[i] = f[i] + g[a]


def holds(cx, tag, K, f, d, fix):
    n = len(f)
    cx.eq(tag + ": size", list(d.shape), [1, n])
    free = [i for i in range(n) if i not in fix]
    cx.eq(tag + ": supports do not move", d[0][fix], np.zeros(len(fix)))
    cx.eq(tag + ": equilibrium at every free component", K.dot(d[0])[free], f[free])


@harness(cases=[(k, w) for k in ("chain", "slope", "down", "single", "tied") for w in ("nodal", "dist", "conc")],
         thorough=[(k, w) for k in ("portal", "tree") for w in ("nodal", "dist", "conc")])
def equilibrium(cx):
    """one kind of load, everywhere it can act"""
    which, kind = cx.case
    edges, sup = FRAMES[which]
    F = Frame(cx, edges, simple=("q",))
    P, c = pattern(cx, "P"), static(cx, "c")
    f = np.zeros(6 * F.n, dtype=object)
    k = cx.real("factor", pos=True)
    if kind == "nodal":
        for s in F.idx:
            if not all(sup.get(s, [False])):
                v = nodal(cx, "f" + s)
                P.set_nodal_load(s, *v)
                put(F, f, s, v, k)
    else:
        for b in F.p:
            if kind == "dist":
                v = {t: cx.real(t + b, pos=True) for t in DIST}
                P.set_beam_load_dist(b, **v)
                member(cx, F, f, b, k * dist_ref(v, F.L[b]))
            else:
                v = {t: cx.real(t + b, pos=True) for t in CONC}
                r = cx.real("r" + b, lo=0, hi=1, nom=(0.2, 0.8))
                P.set_beam_load_conc(b, r=r, **v)
                member(cx, F, f, b, k * conc_ref(v, r * F.L[b], F.L[b]))
    c.add_pattern(P, k)
    for s in sup:
        F.m.set_nodal_restraint(s, *sup[s])
    w = cx.workdir()
    assembly(cx, F.m, [c]).save(w, "s.asb")
    cx.eq("solved", solver(cx, w).solve_linear("c"), True)
    holds(cx, which, F.K(), f, load(cx, w, "c"), fixed(F, sup))


REL = {"hinge at the end": ("r2j", "r3j"), "hinge at the start": ("r3i",), "shear": ("u2i",), "both ends": ("r3i", "r3j"), "torsion": ("r1j",)}
COMP = ["u1i", "u2i", "u3i", "r1i", "r2i", "r3i", "u1j", "u2j", "u3j", "r1j", "r2j", "r3j"]


@harness(cases=[(k, w) for k in REL for w in ("p", "q")])
def released(cx):
    """a released member under its own load in a frame held at both ends"""
    rel, b = cx.case
    F = Frame(cx, [("p", "a", "b", "x"), ("q", "b", "c", "up")])
    sup = {"a": ALL, "c": ALL}
    F.m.set_beam_releases(b, **{t: True for t in REL[rel]})
    P, c = pattern(cx, "P"), static(cx, "c")
    v = {t: cx.real(t, pos=True) for t in DIST}
    P.set_beam_load_dist(b, **v)
    n = nodal(cx, "f")
    P.set_nodal_load("b", *n)
    c.add_pattern(P, 1)
    f = np.zeros(18, dtype=object)
    K = np.zeros((18, 18), dtype=object)
    put(F, f, "b", n)
    for e in F.p:
        ke, fe = beam_K(F.p[e]), (dist_ref(v, F.L[e]) if e == b else np.zeros(12, dtype=object))
        if e == b:
            ke, fe = eliminate(ke, fe, [COMP.index(t) for t in REL[rel]])
        F.scatter(K, e, ke)
        member(cx, F, f, e, fe)
    for s in sup:
        F.m.set_nodal_restraint(s, *sup[s])
    w = cx.workdir()
    assembly(cx, F.m, [c]).save(w, "s.asb")
    solver(cx, w).solve_linear("c")
    holds(cx, rel, K, f, load(cx, w, "c"), fixed(F, sup))


class Two(object):
    """a chain with two patterns in three cases"""

    def __init__(self, cx):
        self.cx = cx
        self.F = F = Frame(cx, [("p", "a", "b", "x"), ("q", "b", "c", "up")])
        F.m.set_nodal_restraint("a", *ALL)
        self.P, self.Q = pattern(cx, "P"), pattern(cx, "Q")
        self.v, self.u = nodal(cx, "v"), nodal(cx, "u")
        self.P.set_nodal_load("b", *self.v)
        self.Q.set_nodal_load("c", *self.u)
        self.k = [cx.real("k%d" % i, pos=True) for i in range(4)]
        self.c1, self.c2, self.c3 = [static(cx, n) for n in ("one", "two", "three")]
        self.c1.add_pattern(self.P, self.k[0])
        self.c2.add_pattern(self.Q, self.k[1])
        self.c3.add_pattern(self.P, self.k[2])
        self.c3.add_pattern(self.Q, self.k[3])
        self.w = cx.workdir()
        self.fix = {"one": fixed(F, {"a": ALL}), "two": fixed(F, {"a": ALL}), "three": fixed(F, {"a": ALL})}

    def f(self, name):
        f = np.zeros(6 * self.F.n, dtype=object)
        k = self.k
        p, q = {"one": (k[0], 0), "two": (0, k[1]), "three": (k[2], k[3])}[name]
        put(self.F, f, "b", self.v, p)
        put(self.F, f, "c", self.u, q)
        return f

    def save(self, f="s.asb"):
        assembly(self.cx, self.F.m, [self.c1, self.c2, self.c3]).save(self.w, f)

    def check(self, tag, names, K=None):
        for n in names:
            holds(self.cx, tag + ": " + n, self.F.K() if K is None else K, self.f(n), load(self.cx, self.w, n), self.fix[n])


ORD = [("one", "two", "three"), ("three", "one", "two"), ("one", "one"), ("two", "three", "two"), ("three", "two", "one", "three")]


@harness(cases=[(o, s) for o in range(len(ORD)) for s in ("one solver", "a solver each")])
def order(cx):
    """the cases of one assembly solved in any order, repeatedly, by one solver object or several"""
    o, how = cx.case
    t = Two(cx)
    t.save()
    S = solver(cx, t.w)
    for n in ORD[o]:
        if how != "one solver":
            S = solver(cx, t.w)
        cx.eq("solved", S.solve_linear(n), True)
    t.check("order", set(ORD[o]))


@harness()
def own_supports(cx):
    """a case with supports of its own between cases with the model's"""
    t = Two(cx)
    t.c2.set_nodal_restraint("c", *ALL)
    t.c2.set_nodal_restraint("a", *PIN)
    t.fix["two"] = fixed(t.F, {"c": ALL, "a": PIN})
    t.save()
    seq = cx.choice("order", [("one", "two"), ("two", "one"), ("two", "one", "two")])
    S = solver(cx, t.w)
    for n in seq:
        S.solve_linear(n)
    t.check("supports", ("one", "two"))


SHELLS = {"quad": ([("q", "abcd")], []), "tria": ([("t", "bec")], []), "both": ([("q", "abcd"), ("t", "bec")], []),
          "with a member": ([("q", "abcd")], [("m", "b", "e")])}
PLANES = {"ground": lambda x, y: (x, y, 0), "wall": lambda x, y: (1, x, y)}


@harness(cases=[(k, p) for k in ("tria", "with a member") for p in PLANES], thorough=[("both", "ground"), ("quad", "wall")], weight=2, seconds=60)
def shells(cx):
    """plates, walls and a member joined to one"""
    which, plane = cx.case
    el, bars = SHELLS[which]
    m = cx.mod("hyperstatic.core.fe_model.model").Model()
    E, t = cx.real("E", pos=True), cx.real("t", pos=True)
    m.add_isotropic_material("m", 1, E, cx.q(1, 4), 1)
    m.add_shell_section("s", "m", t, "shell")
    P = {"e": (5, 0), "c": (3, 2), "a": (0, 0), "d": (0, 2), "b": (3, 0)}
    used = [k for k in P if any(k in n for _, n in el) or any(k in b for b in bars)]
    idx = {k: i for i, k in enumerate(used)}
    for k in used:
        m.add_node(k, *PLANES[plane](*P[k]))
    ends = {}
    for n, nodes in el:
        m.add_shell(n, "s", *nodes)
        ends[n] = nodes
    for n, i, j in bars:
        q = [cx.real(k, pos=True) for k in ("Eb", "Ab", "I2b", "I3b", "Jb")]
        m.add_simple_beam(n, i, j, q[0], cx.q(1, 4), q[1], q[2], q[3], q[4], 1)
        ends[n] = (i, j)
    sup = {k: ALL for k in used if k in ("ad" if which != "tria" else "bc")}
    if which in ("tria", "both"):
        sup["e"] = [False, False, False] + [True] * 3
    p, f = pattern(cx, "P"), np.zeros(6 * len(used), dtype=object)
    for k in used:
        if not all(sup.get(k, [False])):
            v = nodal(cx, "f" + k)
            p.set_nodal_load(k, *v)
            f[6 * idx[k]:6 * idx[k] + 6] = v
    c = static(cx, "c")
    c.add_pattern(p, 1)
    for k in sup:
        m.set_nodal_restraint(k, *sup[k])
    w = cx.workdir()
    assembly(cx, m, [c]).save(w, "s.asb")
    cx.eq("solved", solver(cx, w).solve_linear("c"), True)
    K = np.zeros((len(f), len(f)), dtype=object)
    for n, nodes in ends.items():
        k, T = (m.get_shell_K(n), m.get_shell_transform_matrix(n)) if n in dict(el) else (m.get_beam_K(n), m.get_beam_transform_matrix(n))
        k, T = k.toarray(), T.toarray()
        g = T.T.dot(k).dot(T)
        D = [6 * idx[s] + q for s in nodes for q in range(6)]
        for a, i in enumerate(D):
            for b, j in enumerate(D):
                K[i, j] = K[i, j] + g[a, b]
    holds(cx, which, K, f, load(cx, w, "c"), [6 * idx[s] + q for s in sup for q in range(6) if sup[s][q]])



CHANGES = ["load", "factor", "support", "release", "member", "rotation", "section"]


@harness(cases=[(c, f) for c in CHANGES for f in ("same file", "another file")])
def changed(cx):
    """the model or a case changes after a solve; assembled and solved again in the same working directory"""
    what, where = cx.case
    t = Two(cx)
    F = t.F
    t.save()
    solver(cx, t.w).solve_linear("one")
    solver(cx, t.w).solve_linear("two")
    K = None
    if what == "load":
        t.v = nodal(cx, "n")
        t.P.set_nodal_load("b", *t.v)
    elif what == "factor":
        t.k[0] = cx.real("kn", pos=True)
        t.c1.set_pattern_factor("P", t.k[0])
    elif what == "support":
        F.m.set_nodal_restraint("c", *PIN)
        for n in t.fix:
            t.fix[n] = fixed(F, {"a": ALL, "c": PIN})
    elif what == "release":
        F.m.set_beam_releases("p", r3i=True)
        F.m.set_nodal_restraint("c", *PIN)
        for n in t.fix:
            t.fix[n] = fixed(F, {"a": ALL, "c": PIN})
        K = np.zeros((18, 18), dtype=object)
        F.scatter(K, "q", beam_K(F.p["q"]))
        F.scatter(K, "p", eliminate(beam_K(F.p["p"]), np.zeros(12), [5])[0])
    elif what in ("member", "section"):
        p = {k: cx.real(k + "n", pos=True) for k in ("E", "A", "J", "I2", "I3", "rho")}
        mu = cx.real("mun", lo=0, hi=cx.q(49, 100), nom=(0, 0.49))
        p["G"], p["L"] = p["E"] / (2 * (1 + mu)), F.L["p"]
        if what == "member":
            F.m.add_simple_beam("n", "a", "b", p["E"], mu, p["A"], p["I2"], p["I3"], p["J"], p["rho"])
            F.ends["n"], F.d["n"], F.L["n"] = ("a", "b"), "x", F.L["p"]
            F.p["n"] = p
        else:
            F.m.add_isotropic_material("mn", p["rho"], p["E"], mu, 1)
            F.m.add_beam_section_general("sn", "mn", p["A"], 1, 1, p["I2"], p["I3"], p["J"], 1, 1)
            F.m.add_beam("p", "a", "b", "sn")
            F.p["p"] = p
    elif what == "rotation":
        a = cx.mod("hyperstatic.core.fe_model.node")
        F.m.add_node("d", 1, 2, 3)
        F.m.set_nodal_restraint("d", *ALL)
        F.idx["d"], F.n, F.at["d"] = 3, 4, [1, 2, 3]
        for n in t.fix:
            t.fix[n] = fixed(F, {"a": ALL, "d": ALL})
    f = "s.asb" if where == "same file" else "t.asb"
    t.save(f)
    S = solver(cx, t.w, f)
    S.solve_linear("one")
    S.solve_linear("three")
    t.check(what, ("one", "three"), K)


@harness()
def refused(cx):
    """a solver nobody knows is refused"""
    t = Two(cx)
    t.save()
    cx.rejects("unknown solver", lambda: solver(cx, t.w).solve_linear("one", use_solver="magic"))


@harness(cases=["chain", "slope", "single"])
def by_interface(cx):
    """the same through the programming interface, solved twice with a change between"""
    edges, sup = FRAMES[cx.case]
    w = cx.workdir()
    api = cx.mod("hyperstatic.core").Api(w)
    F = Frame(cx, edges, model=ByApi(api))
    for s in sup:
        api.set_nodal_restraint(s, *sup[s])
    api.add_loadpattern("P")
    f = np.zeros(6 * F.n, dtype=object)
    free = [s for s in F.idx if s not in sup]
    for s in free:
        v = nodal(cx, "f" + s)
        api.set_nodal_load("P", s, *v)
        put(F, f, s, v)
    api.add_static_case("c")
    api.add_case_pattern("c", "P", 1)
    cx.eq("assembled", api.assemble(), True)
    cx.eq("solved", api.solve_static("c"), True)
    fix = fixed(F, sup)
    d = np.concatenate([api.result_get_nodal_displacement(s, "c") for s in F.idx])
    holds(cx, "interface", F.K(), f, d.reshape(1, -1), fix)
    v = nodal(cx, "g")
    api.set_nodal_load("P", free[0], *v)
    f[6 * F.idx[free[0]]:6 * F.idx[free[0]] + 6] = v
    api.assemble()
    api.solve_static("c")
    r = api.result_get_all_nodal_displacement("c")
    cx.eq("nodes", sorted(r), sorted(F.idx))
    holds(cx, "again", F.K(), f, np.concatenate([r[s] for s in F.idx]).reshape(1, -1), fix)


class ByApi(object):
    def __init__(self, api):
        self.api = api

    def __getattr__(self, k):
        return getattr(self.api, k)
