"""C20 direct time integration"""
import numpy as np
from hlib import harness, Frame, assembly, axes, dist_ref, conc_ref, DIST, CONC

META = dict(
    functions=["TimeHistorySolver.solve", "TimeHistorySolver.solve_direct_time_integration", "TimeHistoryCase.*", "LoadCase.get_nodal_f", "LoadCase.get_beam_f",
               "LoadCase.get_max_min_step", "Assembly.assemble_K", "Assembly.assemble_M", "Assembly.assemble_f", "Assembly.assemble_boundary",
               "Assembly.restraintDOF", "Curve.*", "NodeResultResolver.resolve_nodal_displacement"],
    bounds="one or two members in several directions with any section, material and length, any nodal masses, any step size and damping ratio, one or two "
           "patterns of nodal or member loads with any factors and any curve values; one to five steps (the step map is the same at every step: each "
           "assertion is for arbitrary preceding states)",
    outside="the direct solver itself (scipy's spsolve by its contract, replayed on the real one); stability of the central-difference scheme; modal "
            "decomposition, Newmark and Wilson (not reachable); a base case; rounding",
)
ALL = [True] * 6
U2 = [True, False, True, True, True, True]


def history(cx, name):
    return cx.mod("hyperstatic.core.fe_model.load.loadcase").TimeHistoryCase(name)


def pattern(cx, name):
    return cx.mod("hyperstatic.core.fe_model.load.pattern").LoadPattern(name)


def solver(cx, w):
    return cx.mod("hyperstatic.core.fe_solver.dynamic").TimeHistorySolver(w, "s.asb")


def mass(cx, F):
    """nodal masses and half of each member at its ends"""
    M = np.zeros((6 * F.n, 6 * F.n), dtype=object)
    for s in F.idx:
        v = [cx.real("m%s%d" % (s, c), lo=cx.q(1, 10), hi=100, nom=(1, 3)) for c in range(6)]
        F.m.set_nodal_mass(s, *v)
        for c in range(6):
            M[6 * F.idx[s] + c, 6 * F.idx[s] + c] = v[c]
    for b in F.p:
        p = F.p[b]
        half = p["rho"] * p["A"] * p["L"] / 2
        F.scatter(M, b, np.diag(([half] * 3 + [cx.q(1, 10 ** 12)] * 3) * 2))
    return M


def curve(cx, tag, n):
    y = [cx.real("%s%d" % (tag, k), pos=True) for k in range(n)]
    C = cx.mod("hyperstatic.common.curve").Curve
    return C(tag, list(range(n)), y).to_array(), y


def fixed(F, sup):
    return sorted(6 * F.idx[k] + c for k in sup for c in range(6) if sup[k][c])


def damping(cx, xi, M, K):
    """Rayleigh damping with ratio xi at periods of 2 s and 1 s"""
    wi, wj = cx.pi, 2 * cx.pi
    return 2 * xi * wi * wj / (wi + wj) * M + 2 * xi / (wi + wj) * K


def motion(cx, tag, M, C, K, fs, u, fix, dt):
    """every step: central differences of M a + C v + K u = f, from rest"""
    n = len(K)
    cx.eq(tag + ": one state per step and the initial one", list(u.shape), [len(fs) + 1, n])
    free = [i for i in range(n) if i not in fix]
    cx.eq(tag + ": starts from rest", u[0], np.zeros(n))
    before = np.zeros(n, dtype=object)
    for t, f in enumerate(fs):
        cx.eq(tag + ": supports do not move", u[t + 1][fix], np.zeros(len(fix)))
        # times dt^2, to keep the step size out of the denominators
        a = M.dot(u[t + 1] - 2 * u[t] + before)
        v = C.dot(u[t + 1] - before) * dt / 2
        r = a + v + (K.dot(u[t]) - f) * dt * dt
        cx.eq(tag + ": equation of motion at step %d" % t, r[free], np.zeros(len(free)), atol=1e-6)
        before = u[t]


def result(cx, w, name):
    return cx.mod("numpy").load(w + "/" + name + ".d.npy")


def params(cx):
    return cx.real("dt", lo=cx.q(1, 1000), hi=1, nom=(0.05, 0.2)), cx.real("xi", lo=0, hi=1, nom=(0.01, 0.1))


CASES = [("model", "ab", 2), ("case", "ba", 3), ("case", "ab", 5), ("model", "ba", 1)]


@harness(cases=CASES, thorough=[("case", "ba", 4), ("model", "ab", 8)])
def cantilever(cx):
    by, order, n = cx.case
    F = Frame(cx, [("p", "a", "b", "s")], node_order=list(order))
    M, K = mass(cx, F), F.K()
    dt, xi = params(cx)
    c, P = history(cx, "c"), pattern(cx, "P")
    v = [cx.real("f%d" % k, pos=True) for k in range(6)]
    P.set_nodal_load("b", *v)
    arr, y = curve(cx, "y", n)
    k = cx.real("k", pos=True)
    c.add_pattern(P, k, arr)
    c.use_direct_time_integration(dt, xi)
    (F.m if by == "model" else c).set_nodal_restraint("a", *ALL)
    w = cx.workdir()
    assembly(cx, F.m, [c]).save(w, "s.asb")
    solver(cx, w).solve("c")
    fs = []
    for t in range(n):
        f = np.zeros(12, dtype=object)
        for i in range(6):
            f[6 * F.idx["b"] + i] = k * y[t] * v[i]
        fs.append(f)
    u = result(cx, w, "c")
    motion(cx, "cantilever", M, damping(cx, xi, M, K), K, fs, u, fixed(F, {"a": ALL}), dt)
    R = cx.mod("hyperstatic.core.fe_post.node").NodeResultResolver(w, "s.asb")
    for s in "ab":
        for j in range(n + 1):
            cx.eq("state at a node", R.resolve_nodal_displacement(s, "c", j + 1), u[j][6 * F.idx[s]:6 * F.idx[s] + 6])


@harness(cases=["abc", "cab", "bca"])
def two_members(cx):
    """two patterns with curves of different lengths: steps as long as both are defined; several free nodes"""
    F = Frame(cx, [("p", "a", "b", "x"), ("q", "b", "c", "up")], node_order=list(cx.case))
    M, K = mass(cx, F), F.K()
    dt, xi = params(cx)
    c, P, Q = history(cx, "c"), pattern(cx, "P"), pattern(cx, "Q")
    v = [cx.real("f%d" % k, pos=True) for k in range(6)]
    g = [cx.real("g%d" % k, pos=True) for k in range(6)]
    P.set_nodal_load("b", *v)
    Q.set_nodal_load("c", *g)
    ay, y = curve(cx, "y", 2)
    az, z = curve(cx, "z", 3)
    k, l = cx.real("k", pos=True), cx.real("l", pos=True)
    c.add_pattern(Q, l, az)
    c.add_pattern(P, k, ay)
    c.use_direct_time_integration(dt, xi)
    sup = {"a": ALL, "c": U2}
    for s in sup:
        c.set_nodal_restraint(s, *sup[s])
    w = cx.workdir()
    assembly(cx, F.m, [c]).save(w, "s.asb")
    solver(cx, w).solve("c")
    fs = []
    for t in range(2):
        f = np.zeros(18, dtype=object)
        for i in range(6):
            f[6 * F.idx["b"] + i] = k * y[t] * v[i]
            f[6 * F.idx["c"] + i] = l * z[t] * g[i]
        fs.append(f)
    motion(cx, "frame", M, damping(cx, xi, M, K), K, fs, result(cx, w, "c"), fixed(F, sup), dt)


@harness(cases=["dist", "conc"])
def member_loads(cx):
    """distributed and concentrated member loads follow their curve"""
    F = Frame(cx, [("p", "a", "b", "x")])
    M, K = mass(cx, F), F.K()
    dt, xi = params(cx)
    c, P = history(cx, "c"), pattern(cx, "P")
    L = F.L["p"]
    if cx.case == "dist":
        q = {k: cx.real(k, pos=True) for k in DIST}
        P.set_beam_load_dist("p", **q)
        r = dist_ref(q, L)
    else:
        q = {k: cx.real(k, pos=True) for k in CONC}
        s = cx.real("r", lo=cx.q(1, 4), hi=cx.q(1, 3))
        P.set_beam_load_conc("p", r=s, **q)
        r = conc_ref(q, s * L, L)
    g = F.T("p").T.dot(r)
    cx.generic(g)
    n = 3 if cx.case == "conc" else 2
    ay, y = curve(cx, "y", n)
    c.add_pattern(P, 1, ay)
    c.use_direct_time_integration(dt, xi)
    c.set_nodal_restraint("a", *ALL)
    w = cx.workdir()
    assembly(cx, F.m, [c]).save(w, "s.asb")
    solver(cx, w).solve("c")
    fs = [y[t] * g for t in range(n)]
    motion(cx, "member load", M, damping(cx, xi, M, K), K, fs, result(cx, w, "c"), fixed(F, {"a": ALL}), dt)


@harness()
def again(cx):
    """a history solved after another case, and again after the mass and the step changed, is that of a fresh solve"""
    F = Frame(cx, [("p", "a", "b", "t")])
    M, K = mass(cx, F), F.K()
    F.m.set_nodal_restraint("a", *ALL)
    cs, out = [], {}
    for n in "ce":
        c, P = history(cx, n), pattern(cx, "P" + n)
        v = [cx.real("%s%d" % (n, k), pos=True) for k in range(6)]
        P.set_nodal_load("b", *v)
        arr, y = curve(cx, "y" + n, 2)
        c.add_pattern(P, 1, arr)
        dt, xi = cx.real("dt" + n, lo=cx.q(1, 1000), hi=1, nom=(0.05, 0.2)), cx.real("xi" + n, lo=0, hi=1, nom=(0.01, 0.1))
        c.use_direct_time_integration(dt, xi)
        cs.append(c)
        fs = []
        for t in range(2):
            f = np.zeros(12, dtype=object)
            for i in range(6):
                f[6 + i] = y[t] * v[i]
            fs.append(f)
        out[n] = (dt, xi, fs)
    w = cx.workdir()
    assembly(cx, F.m, cs).save(w, "s.asb")
    fix = fixed(F, {"a": ALL})
    for n in "ce":
        solver(cx, w).solve(n)
    for n in "ce":
        dt, xi, fs = out[n]
        motion(cx, "case " + n, M, damping(cx, xi, M, K), K, fs, result(cx, w, n), fix, dt)
    v = [cx.real("n%d" % k, lo=cx.q(1, 10), hi=100, nom=(1, 3)) for k in range(6)]
    F.m.set_nodal_mass("b", *v)
    p = F.p["p"]
    half = p["rho"] * p["A"] * p["L"] / 2
    M2 = M.copy()
    for k in range(6):
        M2[6 + k, 6 + k] = v[k] + (half if k < 3 else cx.q(1, 10 ** 12))
    d2 = cx.real("dt2", lo=cx.q(1, 1000), hi=1, nom=(0.05, 0.2))
    cs[0].use_direct_time_integration(d2, out["c"][1])
    assembly(cx, F.m, cs).save(w, "s.asb")
    solver(cx, w).solve("c")
    motion(cx, "after a change", M2, damping(cx, out["c"][1], M2, K), K, out["c"][2], result(cx, w, "c"), fix, d2)


@harness(cases=[1, 3, 5])
def curves(cx):
    """load curves: as given, and sine and cosine at the asked steps"""
    n = cx.case
    C = cx.mod("hyperstatic.common.curve").Curve
    x, y = [cx.real("x%d" % k) for k in range(n)], [cx.real("y%d" % k) for k in range(n)]
    c = C("c", x, y)
    cx.eq("name", c.name, "c")
    cx.eq("abscissae", c.x, x)
    cx.eq("ordinates", c.y, y)
    cx.eq("array", c.to_array(), [x, y])
    A, w, p = cx.real("A"), cx.q(3, 2), cx.q(1, 3)
    dt = cx.q(1, 10)
    for mk, fn in ((C.sin, cx.sin), (C.cos, cx.cos)):
        s = mk("s", A, w, p, dt, n)
        cx.eq("times", s.x, [k * dt for k in range(n)])
        cx.eq("values", s.y, [A * fn(w * k * dt + p) for k in range(n)])
        cx.eq("name of a sine", s.name, "s")
