"""C07 load patterns and cases"""
import itertools
import numpy as np
from hlib import harness, length, DIST, CONC, dist_ref, conc_ref

META = dict(
    functions=["LoadPattern.*", "LoadCase.*", "StaticCase.*", "ModalCase.*", "ResponseSpectrumCase.*", "TimeHistoryCase.*", "Curve.to_array"],
    bounds="up to three patterns on two nodes and two members in every order of addition, every factor, load and curve value; curves of up to four steps",
    outside="rounding",
)
N6 = ["f1", "f2", "f3", "m1", "m2", "m3"]
D6 = ["u1", "u2", "u3", "r1", "r2", "r3"]


def six(cx, tag):
    return np.array([cx.real("%s%d" % (tag, k)) for k in range(6)])


def mods(cx):
    return cx.mod("hyperstatic.core.fe_model.load.pattern").LoadPattern, cx.mod("hyperstatic.core.fe_model.load.loadcase")


ORDERS = list(itertools.permutations(range(3)))


@harness(cases=[("static", o) for o in ORDERS] + [("history", o) for o in ORDERS])
def superpose(cx):
    """three patterns: node A in 0 and 1, node B in 1 and 2, member b in 0 and 2, member c in 1"""
    kind, order = cx.case
    P, C = mods(cx)
    l = length(cx)
    fac = [cx.real("k%d" % n) for n in range(3)]
    ps = [P("p%d" % n) for n in range(3)]
    load, disp = {}, {}
    for n, nodes in ((0, "A"), (1, "BA"), (2, "B")):
        for a in nodes:
            load[n, a] = six(cx, "f%d%s" % (n, a))
            disp[n, a] = six(cx, "d%d%s" % (n, a))
            ps[n].set_nodal_load(a, *load[n, a])
            ps[n].set_nodal_disp(a, *disp[n, a])
    q = {k: cx.real(k) for k in DIST}
    F = {k: cx.real(k) for k in CONC}
    s = cx.real("r", lo=0, hi=1, nom=(0, 1))
    ps[0].set_beam_load_dist("b", **q)
    ps[2].set_beam_load_conc("b", r=s, **F)
    ps[1].set_beam_load_dist("c", **q)
    ps[1].set_beam_load_conc("d", r=s, **F)
    ps[1].set_beam_load_dist("e", **q)
    ps[1].set_beam_load_conc("e", r=s, **F)
    curves = [np.array([[0, 1, 2, 3], [cx.real("c%d%d" % (n, t)) for t in range(4)]]) for n in range(3)]
    if kind == "static":
        case = C.StaticCase("case")
        for n in order:
            case.add_pattern(ps[n], fac[n])
    else:
        case = C.TimeHistoryCase("case")
        for n in order:
            case.add_pattern(ps[n], fac[n], curves[n])
    cx.eq("name", case.name, "case")
    zero = np.zeros(6)

    def total(d, a, w):
        return sum([w[n] * d[n, a] for n in range(3) if (n, a) in d], zero)
    if kind == "static":
        for a in "AB":
            cx.eq("nodal load of a case", case.get_nodal_f(a), total(load, a, fac))
        cx.eq("a node without load", case.get_nodal_f("Z"), zero)
    else:
        for t in range(4):
            w = [fac[n] * curves[n][1, t] for n in range(3)]
            for a in "AB":
                cx.eq("nodal load at a step", cx_load(case, a, t), total(load, a, w))
            cx.eq("a node without load", cx_load(case, "Z", t), zero)
        for a in "AB":
            H = np.array([total(load, a, [fac[n] * curves[n][1, t] for n in range(3)]) for t in range(4)])
            cx.eq("nodal load history", case.get_nodal_f_time_history(a), H)
        if order == (0, 1, 2):
            hd = super(type(case), case).get_nodal_f_time_history_dict()
            cx.eq("nodes with load histories", sorted(hd), ["A", "B"])
            cx.eq("load histories by node", hd["A"], case.get_nodal_f_time_history("A"))
        cx.eq("history of a node without load", case.get_nodal_f_time_history("Z"), np.zeros((4, 6)))
        cx.eq("longest and shortest curve", list(case.get_max_min_step()), [4, 4])
    d, u = case.get_nodal_f_dict(), case.get_nodal_d_dict()
    cx.eq("nodes with loads", sorted(d), ["A", "B"])
    cx.eq("nodes with imposed displacements", sorted(u), ["A", "B"])
    for a in "AB":
        cx.eq("nodal loads by node", d[a], total(load, a, fac))
        cx.eq("imposed displacements by node", u[a], total(disp, a, fac))
    fac0 = fac
    if kind == "history":
        fac = [fac[n] * curves[n][1, 0] for n in range(3)]
        for t in range(4):
            w = [fac0[n] * curves[n][1, t] for n in range(3)]
            cx.eq("member load at a step", case.get_beam_f("b", l, t), w[0] * dist_ref(q, l) + w[2] * conc_ref(F, s * l, l))
    cx.eq("member load of a case", case.get_beam_f("b", l), fac[0] * dist_ref(q, l) + fac[2] * conc_ref(F, s * l, l))
    cx.eq("member load of a case (one pattern)", case.get_beam_f("c", l), fac[1] * dist_ref(q, l))
    cx.eq("member load of a case (one pattern, concentrated)", case.get_beam_f("d", l), fac[1] * conc_ref(F, s * l, l))
    cx.eq("member load of a case (one pattern, of both kinds)", case.get_beam_f("e", l), fac[1] * (dist_ref(q, l) + conc_ref(F, s * l, l)))
    cx.eq("a member without load", case.get_beam_f("z", l), np.zeros(12))
    if kind == "static":
        at = {"b": l, "c": l + 1, "d": l + 2, "e": l + 3}
        bd = case.get_beam_f_dict(at)
        cx.eq("members with loads", sorted(bd), list("bcde"))
        want = {"b": fac[0] * dist_ref(q, l) + fac[2] * conc_ref(F, s * l, l), "c": fac[1] * dist_ref(q, l + 1), "d": fac[1] * conc_ref(F, s * (l + 2), l + 2),
                "e": fac[1] * (dist_ref(q, l + 3) + conc_ref(F, s * (l + 3), l + 3))}
        cx.eq("member loads by member", [list(bd[k]) for k in "bcde"], [list(want[k]) for k in "bcde"])
    # nothing was changed by asking
    for n, a in load:
        cx.eq("the pattern keeps its load", ps[n].get_nodal_f(a), load[n, a])
        cx.eq("the pattern keeps its displacement", ps[n].get_nodal_d(a), disp[n, a])
    cx.eq("asking again", case.get_beam_f("b", l), fac[0] * dist_ref(q, l) + fac[2] * conc_ref(F, s * l, l))
    if kind == "static":
        cx.eq("asking again for a node", case.get_nodal_f("A"), total(load, "A", fac))
    # a new factor
    g = cx.real("g")
    case.set_pattern_factor("p1", g)
    w = [fac0[0], g, fac0[2]]
    if kind == "history":
        g1 = g * curves[1][1, 0]
        w = [w[n] * curves[n][1, 2] for n in range(3)]
    cx.eq("after a new factor", cx_load(case, "A", 2) if kind == "history" else case.get_nodal_f("A"), total(load, "A", w))
    cx.eq("member load after a new factor", case.get_beam_f("c", l), (g1 if kind == "history" else g) * dist_ref(q, l))


def cx_load(case, a, t):
    from_base = super(type(case), case).get_nodal_f
    return from_base(a, t)


@harness()
def replaced(cx):
    """setting a load again replaces it; adding a pattern again replaces its factor and curve"""
    P, C = mods(cx)
    p = P("p")
    a, b = six(cx, "a"), six(cx, "b")
    p.set_nodal_load("A", *a)
    p.set_nodal_load("A", *b)
    p.set_nodal_disp("A", *b)
    p.set_nodal_disp("A", *a)
    c = C.StaticCase("c")
    k, m = cx.real("k"), cx.real("m")
    c.add_pattern(p, k)
    c.add_pattern(p, m)
    cx.eq("last load", p.get_nodal_f("A"), b)
    cx.eq("last displacement", p.get_nodal_d("A"), a)
    cx.eq("last factor", c.get_nodal_f("A"), m * b)
    cx.claim("nothing stored", p.get_nodal_f("B") is None and p.get_nodal_d("B") is None)
    e = C.StaticCase("e")
    e.add_pattern(p, k)
    cx.eq("two cases share a pattern", [list(c.get_nodal_f("A")), list(e.get_nodal_f("A"))], [list(m * b), list(k * b)])
    p.set_nodal_load("A", *a)
    cx.eq("a case sees later changes of its pattern", c.get_nodal_f("A"), m * a)


@harness()
def defaults(cx):
    P, C = mods(cx)
    for i, k in enumerate(N6):
        p, v = P("p"), cx.real(k)
        p.set_nodal_load("A", **{k: v})
        e = np.zeros(6, dtype=object)
        e[i] = v
        cx.eq("one load component", p.get_nodal_f("A"), e)
    for i, k in enumerate(D6):
        p, v = P("p"), cx.real(k)
        p.set_nodal_disp("A", **{k: v})
        e = np.zeros(6, dtype=object)
        e[i] = v
        cx.eq("one displacement component", p.get_nodal_d("A"), e)
    cx.eq("pattern name", P("q").name, "q")


@harness(cases=list(range(6)))
def whole_and_fractional(cx):
    """numbers given partly as integers"""
    P, C = mods(cx)
    i = cx.case
    l = length(cx)
    v = [2 if k == i else cx.real("v%d" % k) for k in range(6)]
    w = [-1 if k != i else cx.real("w") for k in range(6)]
    for g, tag in ((v, "one integer"), (w, "one fraction")):
        p, k = P("p"), cx.real("k")
        p.set_nodal_load("A", *g)
        p.set_nodal_disp("A", *g)
        q = dict(zip(DIST, g + g[::-1]))
        p.set_beam_load_dist("b", **q)
        F = dict(zip(CONC, g))
        p.set_beam_load_conc("c", r=cx.q(1, 3), **F)
        p.set_beam_load_conc("d", r=1, **F)
        cx.eq(tag + ": nodal load", p.get_nodal_f("A"), g)
        cx.eq(tag + ": displacement", p.get_nodal_d("A"), g)
        c, h = C.StaticCase("c"), C.TimeHistoryCase("h")
        c.add_pattern(p, k)
        h.add_pattern(p, k, np.array([[0, 1], [1, cx.real("y")]]))
        y = [1, cx.real("y")]
        cx.eq(tag + ": load of a case", c.get_nodal_f("A"), [k * x for x in g])
        cx.eq(tag + ": distributed", c.get_beam_f("b", l), k * dist_ref(q, l))
        cx.eq(tag + ": concentrated", c.get_beam_f("c", l), k * conc_ref(F, l / 3, l))
        cx.eq(tag + ": concentrated at the end", c.get_beam_f("d", l), k * conc_ref(F, l, l))
        for t in range(2):
            cx.eq(tag + ": at a step", cx_load(h, "A", t), [k * y[t] * x for x in g])


@harness()
def curve_lengths(cx):
    """curves of different lengths: a finished curve contributes nothing more"""
    P, C = mods(cx)
    a, b = six(cx, "a"), six(cx, "b")
    p, q = P("p"), P("q")
    p.set_nodal_load("A", *a)
    q.set_nodal_load("A", *b)
    x = [cx.real("x%d" % t) for t in range(2)]
    y = [cx.real("y%d" % t) for t in range(4)]
    c = C.TimeHistoryCase("c")
    c.add_pattern(p, 2, np.array([[0, 1], x]))
    c.add_pattern(q, 3, np.array([[0, 1, 2, 3], y]))
    cx.eq("longest and shortest curve", list(c.get_max_min_step()), [4, 2])
    cx.eq("nodal load history", c.get_nodal_f_time_history("A"),
          np.array([(2 * x[t] * a if t < 2 else 0 * a) + 3 * y[t] * b for t in range(4)]))


@harness(cases=["static", "modal", "spectrum", "history"])
def restraints_and_settings(cx):
    P, C = mods(cx)
    if cx.case == "static":
        o = cx.choice("order", [1, 2, 3])
        c = C.StaticCase("c", o, "base")
        cx.eq("order", c.order, o)
        cx.eq("settings", sorted(c.get_settings().items()), [("base_case", "base"), ("order", o)])
        c.order = 2
        cx.eq("new order", [c.order, c.get_settings()["order"]], [2, 2])
    elif cx.case == "modal":
        n = cx.choice("n", [1, 2, 5])
        c = C.ModalCase("c", n)
        cx.eq("number of modes", [c.n_modes, c.get_settings()["n_modes"]], [n, n])
        c.use_load_as_mass = True
        cx.claim("load as mass", c.use_load_as_mass is True and c.get_settings()["use_load_as_mass"] is True)
    elif cx.case == "spectrum":
        sp = np.array([[0, 1], [cx.real("a"), cx.real("b")]])
        c = C.ResponseSpectrumCase("c", "m", sp, "cqc", "srss")
        s = c.get_settings()
        cx.eq("settings", [s["modal_case"], s["mode_combo"], s["dir_combo"]], ["m", "cqc", "srss"])
        cx.eq("spectrum", s["spectrum"], sp)
    else:
        c = C.TimeHistoryCase("c")
        h, z = cx.real("h", pos=True), cx.real("z", pos=True)
        c.use_direct_time_integration(h, z)
        s = c.get_settings()
        cx.eq("algorithm", s["algorithm"], "direct_time_integration")
        cx.eq("parameters", [s["params"]["step_size"], s["params"]["damping_ratio"]], [h, z])
        c.use_modal_decomposition("m")
        cx.eq("modal decomposition", [c.get_settings()["algorithm"], c.get_settings()["params"]["modal_case"]], ["modal_decomposition", "m"])
    cx.eq("name", c.name, "c")
    cx.claim("no restraint at first", c.get_nodal_restraint_dict() == {})
    r = [cx.flag("r%d" % k) for k in range(6)]
    c.set_nodal_restraint("A", *r)
    c.set_nodal_restraint("B", True, False, True, False, True, False)
    d = c.get_nodal_restraint_dict()
    cx.eq("restrained nodes", sorted(d), ["A", "B"])
    cx.claim("restraint components", [bool(x) for x in d["A"]] == r)
    cx.claim("restraint components of the other node", [bool(x) for x in d["B"]] == [True, False, True, False, True, False])
    d["A"][:] = True
    cx.claim("the answer is a copy", [bool(x) for x in c.get_nodal_restraint_dict()["A"]] == r)


@harness()
def curves(cx):
    K = cx.mod("hyperstatic.common.curve").Curve
    x = [cx.real("x%d" % t) for t in range(3)]
    y = [cx.real("y%d" % t) for t in range(3)]
    k = K("k", x, y)
    cx.eq("name", k.name, "k")
    cx.eq("abscissa", list(k.x), x)
    cx.eq("ordinate", list(k.y), y)
    cx.eq("array", k.to_array(), [x, y])
