"""C14 the programming interface"""
import numpy as np
from hlib import harness, beam_K, dist_ref, conc_ref, axes, T12, eliminate, DIST, CONC

META = dict(
    functions=["Api.__init__", "Api.save", "Api.load", "Api.add_*", "Api.set_*", "Api.get_*", "Api.assemble", "Model.*", "Assembly.*", "LoadPattern.set_*",
               "LoadCase.add_pattern"],
    bounds="models of up to four nodes made through the interface with every argument symbolic or a free choice; every kind of section, load, release and "
           "support; calls naming objects that do not exist; what the assembled model answers is compared with the arguments given",
    outside="clear_workspace (deletes the working directory; it reports failure on every system where a directory cannot be removed as a file); the "
            "structural result queries (not implemented); result queries and solving (C10, C12, C13)",
)
ALL = [True] * 6
U = ["u1", "u2", "u3", "r1", "r2", "r3"]
COMP = [u + "i" for u in U] + [u + "j" for u in U]


def start(cx, w=None):
    w = cx.workdir() if w is None else w
    return cx.mod("hyperstatic.core").Api(w), w


def built(cx, api, w):
    """the assembled model, as the solvers and result queries read it"""
    cx.eq("assembled", api.assemble(), True)
    return cx.mod("hyperstatic.core.fe_post").ResultResolver(w, ".asb").assembly


def one_member(cx, api, d=(0, 3, 4)):
    cx.eq("done", [api.add_node("a", 0, 0, 0), api.add_node("b", *d)], [True, True])


def K_of(cx, p):
    """one member from a to b along (0, 3, 4)"""
    q = cx.q
    R = np.array([[0, q(3, 5), q(4, 5)], [0, q(-4, 5), q(3, 5)], [1, 0, 0]])
    T = T12(R)
    return T, T.T.dot(beam_K(p)).dot(T)


SECTIONS = {
    "general": ("add_beam_section_general", ["A", "As2", "As3", "I22", "I33", "J", "W22", "W33"], None),
    "rectangle": ("add_beam_section_rectangle", ["h", "b"], "RectangleSection"),
    "I": ("add_beam_section_I", ["h", "b", "tw", "tf"], "ISection"),
    "box": ("add_beam_section_box", ["h", "b", "tw", "tf"], "BoxSection"),
    "circle": ("add_beam_section_circle", ["d"], "CircleSection"),
    "pipe": ("add_beam_section_pipe", ["d", "t"], "PipeSection"),
}
HI = {"h": (3, 4), "b": (2, 3), "tw": (0.2, 0.4), "tf": (0.2, 0.4), "d": (3, 4), "t": (0.2, 0.4)}


@harness(cases=[(s, p) for s in SECTIONS for p in ("by name", "by position")])
def sections(cx):
    """a member with a section of each kind has the stiffness and mass of that section and material"""
    kind, how = cx.case
    fn, args, cls = SECTIONS[kind]
    api, w = start(cx)
    one_member(cx, api)
    rho, E, a = [cx.real(k, pos=True) for k in ("rho", "E", "a")]
    mu = cx.real("mu", lo=0, hi=cx.q(49, 100), nom=(0, 0.49))
    v = {}
    for k in args:
        lo, hi = HI.get(k, (1, 4))
        v[k] = cx.real(k, pos=True) if k not in HI else cx.real(k, lo=cx.q(int(lo * 10), 10), hi=cx.q(int(hi * 10), 10), nom=(lo, hi))
    if how == "by name":
        cx.eq("material", api.add_isotropic_material(name="m", rho=rho, E=E, mu=mu, a=a), True)
        cx.eq("another material", api.add_isotropic_material("n", 1, 2, 0, 3), True)
        cx.eq("section", getattr(api, fn)(name="s", material="m", **v), True)
        cx.eq("another section", api.add_beam_section_circle("t", "n", 2), True)
        cx.eq("member", api.add_beam(name="p", start="a", end="b", section="s"), True)
    else:
        cx.eq("material", api.add_isotropic_material("m", rho, E, mu, a), True)
        cx.eq("section", getattr(api, fn)("s", "m", *[v[k] for k in args]), True)
        cx.eq("member", api.add_beam("p", "a", "b", "s"), True)
    if cls is None:
        p = dict(A=v["A"], I2=v["I22"], I3=v["I33"], J=v["J"])
    else:
        mat = cx.mod("hyperstatic.core.fe_model.material.isotropy").IsotropicMaterial("m", rho, E, mu, a)
        s = getattr(cx.mod("hyperstatic.core.fe_model.section.beam_section"), cls)("s", mat, **v)
        p = dict(A=s.A, I2=s.I22, I3=s.I33, J=s.J)
    p.update(E=E, G=E / (2 * (1 + mu)), L=5)
    A = built(cx, api, w)
    cx.eq("stiffness", A.assemble_K().toarray(), K_of(cx, p)[1])
    half = rho * p["A"] * 5 / 2
    e = cx.q(1, 10 ** 12)
    cx.eq("mass", A.assemble_M().toarray(), np.diag([half] * 3 + [e] * 3 + [half] * 3 + [e] * 3))


@harness(cases=["by name", "by position"])
def simple(cx):
    api, w = start(cx)
    one_member(cx, api)
    v = {k: cx.real(k, pos=True) for k in ("E", "A", "I2", "I3", "J", "rho")}
    mu = cx.real("mu", lo=0, hi=cx.q(49, 100), nom=(0, 0.49))
    if cx.case == "by name":
        cx.eq("member", api.add_simple_beam(name="p", start="a", end="b", mu=mu, **v), True)
    else:
        cx.eq("member", api.add_simple_beam("p", "a", "b", v["E"], mu, v["A"], v["I2"], v["I3"], v["J"], v["rho"]), True)
    p = dict(v, G=v["E"] / (2 * (1 + mu)), L=5)
    A = built(cx, api, w)
    cx.eq("stiffness", A.assemble_K().toarray(), K_of(cx, p)[1])
    half = v["rho"] * v["A"] * 5 / 2
    e = cx.q(1, 10 ** 12)
    cx.eq("mass", A.assemble_M().toarray(), np.diag([half] * 3 + [e] * 3 + [half] * 3 + [e] * 3))
    cx.eq("members", api.get_beam_names(), ["p"])
    cx.eq("ends", list(api.get_beam_node_names("p")), ["a", "b"])
    cx.eq("end positions", np.array([list(x) for x in api.get_beam_location("p")]), np.array([[0, 0, 0], [0, 3, 4]]))


@harness(cases=[c for c in COMP] + ["position"])
def releases(cx):
    """each end component by its name or its position"""
    api, w = start(cx)
    one_member(cx, api)
    api.add_node("c", 0, 0, 9)
    v = [cx.real(k, pos=True) for k in ("A", "I2", "I3", "J")]
    for n, e in (("p", "b"), ("q", "c")):
        api.add_simple_beam(n, "a", e, 2, 0, *v, 1)
    p = dict(E=2, G=1, A=v[0], I2=v[1], I3=v[2], J=v[3], L=5)
    if cx.case == "position":
        r = [cx.flag(c) for c in ("u2i", "r2i", "r3j")]
        rel = [i for i, f in zip((1, 4, 11), r) if f]
        cx.eq("released", api.set_beam_release("p", *[i in rel for i in range(12)]), True)
    else:
        rel = [COMP.index(cx.case)]
        cx.eq("released", api.set_beam_release("p", **{cx.case: True}), True)
    A = built(cx, api, w)
    T, K = K_of(cx, p)
    k = eliminate(beam_K(p), np.zeros(12), rel)[0]
    K = T.T.dot(k).dot(T)
    p["L"] = 9
    T2 = T12(axes(cx, "up"))
    K2 = T2.T.dot(beam_K(p)).dot(T2)
    ref = np.zeros((18, 18), dtype=object)
    for g, D in ((K, list(range(12))), (K2, list(range(6)) + list(range(12, 18)))):
        for i in range(12):
            for j in range(12):
                ref[D[i], D[j]] = ref[D[i], D[j]] + g[i, j]
    cx.eq("stiffness", A.assemble_K().toarray(), ref)
    cx.eq("unknown member", api.set_beam_release("zz", True), False)


@harness()
def nodes(cx):
    """positions and masses"""
    api, w = start(cx)
    P = {k: [cx.real("%s%s" % (c, k)) for c in "xyz"] for k in "abc"}
    order = cx.choice("order", ["abc", "cab"])
    for k in order:
        cx.eq("added", api.add_node(k, *P[k]) if k != "b" else api.add_node(name=k, x=P[k][0], y=P[k][1], z=P[k][2]), True)
    cx.eq("names", api.get_node_names(), list(order))
    for k in "abc":
        cx.eq("position", np.array(list(api.get_node_location(k))), np.array(P[k]))
    at = cx.choice("node", ["a", "c"])
    m = {u: cx.real("m" + u) for u in U}
    cx.generic(np.array([m[u] for u in U]))
    cx.eq("mass", api.set_nodal_mass(at, *[m[u] for u in U]), True)
    cx.eq("mass by name", api.set_nodal_mass("b", u2=m["u1"], r3=m["r1"]), True)
    cx.eq("unknown node", [api.set_nodal_mass("zz", 1), api.get_node_location("zz") is None], [False, True])
    D = np.zeros(18, dtype=object)
    i, j = 6 * order.index(at), 6 * order.index("b")
    D[i:i + 6] = [m[u] for u in U]
    D[j + 1], D[j + 5] = m["u1"], m["r1"]
    A = built(cx, api, w)
    cx.eq("mass matrix", A.assemble_M().toarray(), np.diag(D))
    cx.eq("node numbers", [A.get_node_hid(k) for k in order], [0, 1, 2])


@harness(cases=[(t, n) for t in ("shell", "plate", "membrane") for n in (3, 4)])
def shells(cx):
    """a shell of each kind has the stiffness of its element class on its own nodes"""
    kind, n = cx.case
    api, w = start(cx)
    P = {"a": (0, 0, 0), "b": (3, 0, 0), "c": (4, 2, 0), "d": (0, 2, 0)}
    for k in "dbac":
        api.add_node(k, *P[k])
    E, t = cx.real("E", pos=True), cx.real("t", pos=True)
    mu = cx.q(1, 4)
    api.add_isotropic_material("m", 1, E, mu, 1)
    api.add_isotropic_material("n", 1, 1, mu, 1)
    cx.eq("section", api.add_shell_section("s", "m", t, kind) if kind != "shell" else api.add_shell_section("s", "m", t), True)
    api.add_shell_section("r", "n", 1, "membrane")
    c = "abcd" if n == 4 else "abc"
    corners = list(c) + [None] * (4 - n)
    cx.eq("shell", api.add_shell("e", *(corners + ["s"])), True)
    cx.eq("names", api.get_shell_names(), ["e"])
    cx.eq("corners", list(api.get_shell_node_names("e")), list(c))
    cx.eq("corner positions", np.array([list(x) for x in api.get_shell_location("e")]), np.array([P[k] for k in c]))
    N = cx.mod("hyperstatic.core.fe_model.node").Node
    mat = cx.mod("hyperstatic.core.fe_model.material.isotropy").IsotropicMaterial("m", 1, E, mu, 1)
    sec = cx.mod("hyperstatic.core.fe_model.section.shell_section").ShellSection("s", mat, t, kind)
    el = "hyperstatic.core.fe_model.element."
    cls = cx.mod(el + "quad.DKGQ").DKGQ if n == 4 else cx.mod(el + "tria.DKT").DKT
    e = cls("e", sec, *[N(k, *P[k]) for k in c])
    T = e.transform_matrix
    g = (T.T * e.integrate_K() * T).toarray()
    D = [6 * "dbac".index(k) + i for k in c for i in range(6)]
    ref = np.zeros((24, 24), dtype=object)
    for i in range(len(D)):
        for j in range(len(D)):
            ref[D[i], D[j]] = g[i, j]
    cx.eq("stiffness", built(cx, api, w).assemble_K().toarray(), ref)


def two_members(cx, api):
    for k, P in (("a", (0, 0, 0)), ("b", (5, 0, 0)), ("c", (5, 0, 7))):
        api.add_node(k, *P)
    api.add_simple_beam("p", "a", "b", 2, 0, 1, 1, 1, 1, 1)
    api.add_simple_beam("q", "b", "c", 2, 0, 1, 1, 1, 1, 1)
    return {"p": (T12(axes(cx, "x")), 5, list(range(12))), "q": (T12(axes(cx, "up")), 7, list(range(6, 18)))}


@harness(cases=["model", "case"])
def supports(cx):
    """every support pattern of a node, by position or by name"""
    api, w = start(cx)
    two_members(cx, api)
    api.add_static_case("c")
    api.add_static_case("e")
    r = [cx.flag(u) for u in U]
    at = "b"
    if cx.case == "model":
        cx.eq("set", api.set_nodal_restraint(at, *r), True)
        cx.eq("set", api.set_nodal_restraint("a", u2=True, r3=True), True)
        cx.eq("unknown node", api.set_nodal_restraint("zz", True), False)
        cx.eq("nodes with supports", sorted(api.get_node_restraints()), ["a", "b"])
        cx.eq("supports", [bool(x) for x in api.get_node_restraints()["b"]], r)
        cx.eq("no supports of its own", list(api.get_node_restraints("c")), [])
    else:
        cx.eq("set", api.set_loadcase_nodal_restraint("c", at, *r), True)
        cx.eq("set", api.set_loadcase_nodal_restraint("c", "a", u2=True, r3=True), True)
        cx.eq("unknown case", api.set_loadcase_nodal_restraint("zz", "a", True), False)
        cx.eq("supports", [bool(x) for x in api.get_node_restraints("c")["b"]], r)
        cx.eq("nodes with supports", sorted(api.get_node_restraints("c")), ["a", "b"])
        cx.eq("no supports of the model", list(api.get_node_restraints()), [])
    fix = [1, 5] + [6 + i for i in range(6) if r[i]]
    A = built(cx, api, w)
    cx.eq("supported components", sorted(A.restraintDOF("c")), fix)
    cx.eq("supported components of another case", sorted(A.restraintDOF("e")), fix if cx.case == "model" else [])


@harness(cases=[(k, h) for k in ("nodal", "dist", "conc") for h in ("by name", "by position")])
def loads(cx):
    """loads go to the named object in the named pattern, patterns to the named case with their factor"""
    kind, how = cx.case
    api, w = start(cx)
    mem = two_members(cx, api)
    cx.eq("patterns", [api.add_loadpattern("P"), api.add_loadpattern(name="Q")], [True, True])
    cx.eq("cases", [api.add_static_case("c"), api.add_static_case(name="e")], [True, True])
    names = {"nodal": ["f1", "f2", "f3", "m1", "m2", "m3"], "dist": DIST, "conc": CONC}[kind]
    v = {k: cx.real(k, pos=True) for k in names}
    u = {k: cx.real("u" + k, pos=True) for k in names}
    r = cx.real("r", lo=0, hi=1, nom=(0.2, 0.8))
    a, b = cx.real("fa", pos=True), cx.real("fb", pos=True)
    fn = getattr(api, {"nodal": "set_nodal_load", "dist": "set_beam_load_distributed", "conc": "set_beam_load_concentrated"}[kind])
    x, y = ("b", "c") if kind == "nodal" else ("p", "q")
    if how == "by name":
        kw = dict(r=r) if kind == "conc" else {}
        cx.eq("set", fn(pattern="P", **dict({"node" if kind == "nodal" else "beam": x}, **v), **kw), True)
    else:
        cx.eq("set", fn("P", x, *([v[k] for k in names] + ([r] if kind == "conc" else []))), True)
    cx.eq("set", fn("Q", y, **u), True)
    cx.eq("unknown pattern", fn("zz", x, **v), False)
    cx.eq("used", [api.add_case_pattern("c", "P", a), api.add_case_pattern(case="e", pattern="Q", factor=b)], [True, True])
    cx.eq("unknown", [api.add_case_pattern("zz", "P", 1), api.add_case_pattern("c", "zz", 1)], [False, False])
    if kind == "nodal":
        cx.eq("read back", list(api.get_nodal_load("P", "b")), [v[k] for k in names])
        d = api.get_all_nodal_load("P")
        cx.eq("read back all", [sorted(d), list(d["b"])], [["b"], [v[k] for k in names]])
        cx.eq("nothing there", [api.get_nodal_load("P", "c") is None, api.get_nodal_load("zz", "b") is None], [True, True])
    A = built(cx, api, w)
    for case, obj, val, f in (("c", x, v, a), ("e", y, u, b)):
        F = np.zeros(18, dtype=object)
        if kind == "nodal":
            i = 6 * "abc".index(obj)
            F[i:i + 6] = [f * val[k] for k in names]
        else:
            T, L, D = mem[obj]
            loc = dist_ref(val, L) if kind == "dist" else conc_ref(val, (r if case == "c" else cx.q(1, 2)) * L, L)
            F[D] = f * T.T.dot(loc)
        cx.generic(F)
        cx.eq("load vector of a case", A.assemble_f(case).toarray().reshape(-1), F)


@harness()
def refused(cx):
    """a call that names something unknown fails and changes nothing"""
    api, w = start(cx)
    one_member(cx, api)
    api.add_isotropic_material("m", 1, 2, 0, 1)
    api.add_beam_section_circle("s", "m", 2)
    api.add_shell_section("t", "m", 1)
    what = cx.choice("what", ["material", "section", "start", "end", "simple", "shell section", "shell node", "shell material"])
    got = {"material": lambda: api.add_beam_section_rectangle("x", "zz", 1, 1), "section": lambda: api.add_beam("x", "a", "b", "zz"),
           "start": lambda: api.add_beam("x", "zz", "b", "s"), "end": lambda: api.add_beam("x", "a", "zz", "s"),
           "simple": lambda: api.add_simple_beam("x", "a", "zz", 1, 0, 1, 1, 1, 1, 1), "shell section": lambda: api.add_shell("x", "a", "b", "a", "b", "zz"),
           "shell node": lambda: api.add_shell("x", "a", "b", "zz", "zz", "t"), "shell material": lambda: api.add_shell_section("x", "zz", 1)}[what]()
    cx.eq("reported", got, False)
    cx.eq("nothing added", [api.get_beam_names(), api.get_shell_names(), api.get_node_names()], [[], [], ["a", "b"]])
    cx.eq("unknown names", [api.get_beam_node_names("zz") is None, api.get_beam_location("zz") is None, api.get_shell_node_names("zz") is None,
                            api.get_shell_location("zz") is None, api.get_node_restraints("zz") is None], [True] * 5)


@harness()
def saved(cx):
    """an interface saved and loaded again is the same model, and saving changes nothing"""
    api, w = start(cx)
    mem = two_members(cx, api)
    v = [cx.real("f%d" % i, pos=True) for i in range(6)]
    api.add_loadpattern("P")
    api.set_nodal_load("P", "c", *v)
    api.add_static_case("c")
    api.add_case_pattern("c", "P", 2)
    api.set_nodal_restraint("a", *ALL)
    cx.eq("saved", api.save("x"), True)
    api.set_nodal_load("P", "c", 1)
    api.add_node("d", 1, 2, 3)
    b = cx.mod("hyperstatic.core").Api.load(w, "x")
    cx.eq("missing file", cx.mod("hyperstatic.core").Api.load(w, "zz") is None, True)
    cx.eq("nodes", [b.get_node_names(), b.get_beam_names()], [["a", "b", "c"], ["p", "q"]])
    cx.eq("load", list(b.get_nodal_load("P", "c")), v)
    A = built(cx, b, w)
    F = np.zeros(18, dtype=object)
    F[12:] = [2 * x for x in v]
    cx.eq("load vector", A.assemble_f("c").toarray().reshape(-1), F)
    cx.eq("supports", sorted(A.restraintDOF("c")), list(range(6)))
    cx.eq("the saved one went on", api.get_node_names(), ["a", "b", "c", "d"])


@harness()
def said_again(cx):
    """the last word counts: every call repeated for the same object with other arguments"""
    api, w = start(cx)
    r = {k: cx.real(k, pos=True) for k in ("E", "A", "I2", "I3", "J", "rho", "z")}
    api.add_node("b", 9, 9, 9)
    api.add_node("a", 1, 1, 1)
    one_member(cx, api)
    for n in range(2):
        api.add_isotropic_material("m", *((3, 3, 0, 3) if n == 0 else (r["rho"], r["E"], 0, 1)))
        api.add_beam_section_general("s", "m", *([4] * 8 if n == 0 else [r["A"], 1, 1, r["I2"], r["I3"], r["J"], 1, 1]))
    api.add_simple_beam("p", "a", "b", 5, 0, 1, 1, 1, 1, 1)
    cx.eq("another member of that name", api.add_beam("p", "a", "b", "s"), True)
    api.set_beam_release("p", r2i=True, r3i=True)
    cx.eq("other releases", api.set_beam_release("p", r3j=True), True)
    api.set_nodal_mass("a", 1, 2, 3, 4, 5, 6)
    cx.eq("another mass", api.set_nodal_mass("a", u2=r["z"]), True)
    api.set_nodal_restraint("a", *ALL)
    cx.eq("other supports", api.set_nodal_restraint("a", u1=True, r3=True), True)
    api.add_loadpattern("P")
    api.set_nodal_load("P", "a", *[1] * 6)
    api.set_beam_load_distributed("P", "p", 1, 1)
    api.add_loadpattern("P")
    cx.eq("nothing in a pattern begun again", api.get_nodal_load("P", "a") is None, True)
    v = [cx.real("f%d" % i, pos=True) for i in range(6)]
    api.set_nodal_load("P", "b", *[1] * 6)
    cx.eq("another load", api.set_nodal_load("P", "b", *v), True)
    q = [cx.real(k, pos=True) for k in CONC]
    api.set_beam_load_concentrated("P", "p", *[7] * 6, r=cx.q(1, 2))
    at = cx.choice("r", [0, 1])
    cx.eq("another load at an end", api.set_beam_load_concentrated("P", "p", *q, r=at), True)
    api.add_static_case("c")
    api.set_loadcase_nodal_restraint("c", "b", *ALL)
    api.add_case_pattern("c", "P", 9)
    api.add_static_case("c")
    cx.eq("nothing held in a case begun again", list(api.get_node_restraints("c")), [])
    api.add_case_pattern("c", "P", 9)
    k = cx.real("k", pos=True)
    cx.eq("another factor", api.add_case_pattern("c", "P", k), True)
    cx.eq("one of each", [api.get_node_names(), api.get_beam_names()], [["b", "a"], ["p"]])
    A = built(cx, api, w)
    T = K_of(cx, dict(E=1, G=1, A=1, I2=1, I3=1, J=1, L=5))[0]
    e = eliminate(beam_K(dict(E=r["E"], G=r["E"] / 2, A=r["A"], I2=r["I2"], I3=r["I3"], J=r["J"], L=5)), conc_ref(dict(zip(CONC, q)), 5 * at, 5), [11])
    D = list(range(6, 12)) + list(range(6))
    cx.eq("stiffness", A.assemble_K().toarray(), T.T.dot(e[0]).dot(T)[np.ix_(D, D)])
    f = T.T.dot(e[1])
    for i in range(6):
        f[6 + i] = f[6 + i] + v[i]
    cx.generic(f)
    cx.eq("load vector", A.assemble_f("c").toarray().reshape(-1), (k * f)[D])
    half = r["rho"] * r["A"] * 5 / 2
    M = A.assemble_M().toarray()
    cx.eq("mass of b", np.diag(M)[:3], [half] * 3)
    cx.eq("mass of a", np.diag(M)[6:9], [half, half + r["z"], half])
    cx.eq("supported components", sorted(A.restraintDOF("c")), [6, 11])


@harness(cases=list(range(6)))
def whole_and_fractional(cx):
    """arguments given partly as integers"""
    i = cx.case
    api, w = start(cx)
    one_member(cx, api)
    v = [2 if k == i else cx.real("v%d" % k, pos=True) for k in range(6)]
    u = [1 if k != i else cx.real("u", pos=True) for k in range(6)]
    api.add_node("c", 1, cx.real("y"), 2)
    cx.eq("position", list(api.get_node_location("c")), [1, cx.real("y"), 2])
    api.set_nodal_mass("a", *v)
    api.set_nodal_mass("b", *u)
    api.add_loadpattern("P")
    api.set_nodal_load("P", "a", *v)
    api.set_nodal_load("P", "c", *u)
    api.add_static_case("c")
    api.add_case_pattern("c", "P", 3)
    A = built(cx, api, w)
    cx.eq("masses", np.diag(A.assemble_M().toarray())[:12], v + u)
    cx.eq("loads", A.assemble_f("c").toarray().reshape(-1), [3 * x for x in v] + [0] * 6 + [3 * x for x in u])
