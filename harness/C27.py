"""C27 the viewers draw the model and its results"""
import numpy as np
from hlib import harness

META = dict(
    functions=["viz_core.ViewerBase", "model_basic.BasicViewer", "model_load.LoadViewer", "result_deformation.ResultViewer",
               "Api.load/get_node_names/get_node_location/get_node_restraints/get_beam_names/get_beam_node_names/get_shell_names/get_shell_node_names/get_all_nodal_load"],
    bounds="four nodes on a stretched grid at any place and of any size, three beams, two shells, any loads, any displacements, any drawing scale, any restraint flags of one node at a time; "
           "up to four presses of any buttons",
    outside="vedo, vtk and PyQt5 (not installed; a stand-in that records what is drawn); the picture itself, colours as seen; the older viewers viz_core_model and "
            "viz_core_result_deformation; where the displacements come from (C13, C14)",
)
V = "hyperstatic.app.viz.viz_core"
GRID = dict(a=(0, 0, 0), b=(2, 0, 1), c=(2, 3, 0), d=(0, 3, 1))
BEAMS = dict(p="ab", q="cb", r="dc")
SHELLS = dict(s="abcd", t="bcda")


def model(cx, beams=BEAMS, shells=SHELLS, nodes="abcd", where=None):
    w = cx.workdir()
    if where:
        cx.write(where + "/note", "")
        w = where
    api = cx.mod("hyperstatic.core").Api(w)
    o = [cx.real("o" + c, lo=-100, hi=100) for c in "xyz"]
    k = [cx.real("k" + c, lo=cx.q(1, 10), hi=50) for c in "xyz"]
    at = {}
    for n in nodes:
        at[n] = [o[i] + GRID[n][i] * k[i] for i in range(3)]
        api.add_node(n, *at[n])
    api.add_isotropic_material("m", 8000, 2e11, 0.3, 1e-5)
    api.add_beam_section_rectangle("R", "m", 0.4, 0.2)
    for b in beams:
        api.add_beam(b, beams[b][0], beams[b][1], "R")
    if shells:
        api.add_shell_section("S", "m", 0.1)
    for s in shells:
        api.add_shell(s, *shells[s], section="S")
    return api, at, w


def extent(at):
    return max([(max(v) - min(v)) / 2 for v in zip(*at.values())])


def drawn(v, kind):
    out = []
    for a in v.actors.values():
        for x in a if isinstance(a, (list, tuple)) else [a]:
            if type(x).__name__ == kind:
                out.append(x)
    return out


def shown(v, kind):
    return [a for a in v.plotter.shown if type(a).__name__ == kind and a.visible]


def button(v, word):
    return [b for b in v.plotter.buttons if any(word in s.lower() for s in b.states)][0]  # in the order they are made: nodes first


def press(v, word):
    button(v, word).fnc()


def mesh(cx, name, m, at, shells):
    cx.eq(name + " faces", len(m.faces), len(shells))
    for f, s in zip(m.faces, shells):
        for i, n in zip(f, shells[s]):
            cx.eq(name + " corner", m.vertices[i], at[n])


def lines(cx, name, l, at, beams):
    cx.eq(name + " number", len(l.segments), len(beams))
    for g, b in zip(l.segments, beams):
        for e, n in zip(g, beams[b]):
            cx.eq(name + " end", e, at[n])


def open_basic(cx, w):
    return cx.mod(V + ".model_basic").BasicViewer(w, "x")


@harness(cases=["all", "beams", "shells", "nodes", "here"])
def model_drawn(cx):
    """nodes, beams and shells are drawn where they are"""
    beams = {} if cx.case in ("shells", "nodes") else BEAMS
    shells = {} if cx.case in ("beams", "nodes") else SHELLS
    api, at, w = model(cx, beams, shells, where="run" if cx.case == "here" else None)
    api.save("x")
    v = open_basic(cx, w)
    v.run()
    p = drawn(v, "Points")
    cx.eq("points", len(p), 1)
    cx.eq("places", p[0].points, list(at.values()))
    cx.eq("nodes hidden", len(shown(v, "Points")), 0)
    if beams:
        l = shown(v, "Lines")
        cx.eq("one set of lines", len(l), 1)
        lines(cx, "line", l[0], at, beams)
    else:
        cx.eq("no lines", sum(len(l.segments) for l in drawn(v, "Lines")), 0)
    if shells:
        m = shown(v, "Mesh")
        cx.eq("one mesh", len(m), 1)
        mesh(cx, "shell", m[0], at, shells)
    else:
        cx.eq("no shells", len(drawn(v, "Mesh")), 0)


@harness(cases=["run", "show", "reset_view"])
def views(cx):
    """however it is shown, all of the model is, and the camera looks at its middle from outside"""
    api, at, w = model(cx)
    api.save("x")
    v = open_basic(cx, w)
    getattr(v, cx.case)()
    press(v, "node")
    getattr(v, cx.case)()
    for k in ("Points", "Lines", "Mesh"):
        cx.eq("one " + k, len(shown(v, k)), 1)
    c = v.plotter.camera
    far = extent(at)
    xyz = list(zip(*at.values()))
    cx.eq("middle", [c["focalPoint"][i] * 2 for i in range(3)], [max(xyz[i]) + min(xyz[i]) for i in range(3)])
    for i in range(3):
        cx.claim("from outside", abs(c["pos"][i] - c["focalPoint"][i]) > far)


@harness(cases=["no pattern", "no loads", "line loads"])
def no_nodal_loads(cx):
    """a model without nodal loads is drawn all the same"""
    api, at, w = model(cx)
    if cx.case != "no pattern":
        api.add_loadpattern("pat1")
    if cx.case == "line loads":
        api.set_beam_load_distributed("pat1", "p", 1, 2, 3, 4, 5, 6)
    api.save("x")
    v = cx.mod(V + ".model_load").LoadViewer(w, "x")
    press(v, "nodal")
    v.run()
    cx.eq("no arrows", sum(len(a.arrows) for a in drawn(v, "Arrows")), 0)
    cx.eq("nodes", drawn(v, "Points")[0].points, list(at.values()))
    lines(cx, "line", shown(v, "Lines")[0], at, BEAMS)
    mesh(cx, "shell", shown(v, "Mesh")[0], at, SHELLS)
    press(v, "nodal")
    press(v, "beam")
    cx.eq("beams hidden", len(shown(v, "Lines")), 0)


@harness(cases=list(range(6)))
def restraints(cx):
    """every restrained direction, and no other, is marked at its node"""
    api, at, w = model(cx, {}, {})
    flags = {"b": [i == cx.case or cx.flag("b%d" % i) if i in (cx.case, (cx.case + 1) % 6, (cx.case + 3) % 6) else False for i in range(6)],
             "d": [i == (cx.case + 4) % 6 for i in range(6)]}
    for n in flags:
        api.set_nodal_restraint(n, *flags[n])
    api.save("x")
    v = open_basic(cx, w)
    v.run()
    cx.eq("hidden", len(shown(v, "Cone")), 0)
    v.toggle_restraints(True)
    v.run()
    got = shown(v, "Cone")
    want = [(n, i) for n in flags for i in range(6) if flags[n][i]]
    cx.eq("number", len(got), len(want))
    size = extent(at)
    kinds = {0: set(), 1: set()}
    for c, (n, i) in zip(got, want):
        cx.eq("direction", [abs(x) for x in c.axis], [1 if j == i % 3 else 0 for j in range(3)])
        cx.eq("tip", [c.pos[j] + c.axis[j] * c.height / 2 for j in range(3)], at[n])
        cx.le("visible", 0, c.height)
        cx.le("small", c.height, size / 10)
        kinds[i // 3].add(str(c.c))
    cx.claim("told apart", not kinds[0] & kinds[1])
    v.toggle_restraints(False)
    cx.eq("hidden", len(shown(v, "Cone")), 0)


@harness(cases=["basic", "load"])
def buttons(cx):
    """a button shows or hides what it names and nothing else"""
    api, at, w = model(cx)
    words = {"node": "Points", "beam": "Lines", "shell": "Mesh"}
    if cx.case == "load":
        words = {"_node": "Points", "nodal_load": "Arrows", "beam": "Lines", "shell": "Mesh"}
        api.add_loadpattern("pat1")
        api.set_nodal_load("pat1", "b", 1, 2, 3)
    api.save("x")
    v = open_basic(cx, w) if cx.case == "basic" else cx.mod(V + ".model_load").LoadViewer(w, "x")
    find = {}
    for word, kind in words.items():
        find[word] = [b for b in v.plotter.buttons if word in b.states[0].lower()][0]
    vis = {"Points": False, "Arrows": False, "Lines": True, "Mesh": True}
    for step in range(3):
        for word, kind in words.items():
            a = drawn(v, kind)
            cx.eq("drawn " + kind, len(a), 1)
            cx.claim("visible " + kind, a[0].visible is vis[kind])
            cx.claim("label " + kind, find[word].status().startswith("hide" if vis[kind] else "show"))
        word = cx.choice("press%d" % step, list(words))
        find[word].fnc()
        vis[words[word]] = not vis[words[word]]


@harness(cases=[(k, v) for k in ("nothing", "beams", "shells") for v in ("basic", "load")])
def buttons_without(cx):
    """a button of what is not in the model does no harm"""
    k, viewer = cx.case
    api, at, w = model(cx, BEAMS if k == "beams" else {}, SHELLS if k == "shells" else {})
    api.add_loadpattern("pat1")
    api.set_nodal_load("pat1", "b", 1, 2, 3)
    api.save("x")
    v = open_basic(cx, w) if viewer == "basic" else cx.mod(V + ".model_load").LoadViewer(w, "x")
    for word in ("node", "beam", "shell", "beam"):
        press(v, word)
    cx.claim("nodes", drawn(v, "Points")[0].visible)
    cx.claim("beams", all(x.visible for x in drawn(v, "Lines")))
    cx.claim("shells", not any(x.visible for x in drawn(v, "Mesh")))


@harness(cases=["one", "two", "moments"], weight=2)
def loads(cx):
    """an arrow per loaded node, along its force, all to one scale"""
    api, at, w = model(cx, BEAMS, {})
    api.add_loadpattern("pat1")
    f = {n: [cx.real(n + c, lo=-10, hi=10) for c in ("f1", "f2", "f3", "m1", "m2", "m3")] for n in ("cb" if cx.case == "two" else "c")}
    for n in f:
        if cx.case == "moments":
            f[n][:3] = [0, 0, 0]
        else:
            cx.assume((f[n][0] > cx.q(1, 2)) | (f[n][2] < -cx.q(1, 2)))
        api.set_nodal_load("pat1", n, *f[n])
    api.save("x")
    v = cx.mod(V + ".model_load").LoadViewer(w, "x")
    cx.eq("hidden", len(shown(v, "Arrows")), 0)
    press(v, "nodal")
    v.run()
    a = shown(v, "Arrows")
    cx.eq("one set", len(a), 1)
    cx.claim("its scale too", a[0].scalarbar.visible is True)
    order = [n for n in at if n in f]
    cx.eq("number", len(a[0].arrows), len(order))
    size = {n: cx.sqrt(f[n][0] ** 2 + f[n][1] ** 2 + f[n][2] ** 2) for n in order} if cx.case != "moments" else {n: 0 for n in order}
    big = max(size.values())
    per = len(a[0].colours) // len(order)
    cx.eq("colours", len(a[0].colours), per * len(order))
    for i, n in enumerate(order):
        s, e = a[0].arrows[i]
        cx.eq("tip", e, at[n])
        if cx.case == "moments":
            cx.eq("no arrow", s, e)
        else:
            cx.eq("along the force", [(e[j] - s[j]) * big for j in range(3)], [f[n][j] * extent(at) / 5 for j in range(3)])
        cx.eq("colour", a[0].colours[i * per:(i + 1) * per], [size[n]] * per)
    press(v, "nodal")
    cx.claim("hidden again", not shown(v, "Arrows") and a[0].scalarbar.visible is False)


def displaced(cx, v, at, names="abcd"):
    u = {n: [cx.real("u%s%d" % (n, i), lo=-1, hi=1) for i in range(3)] for n in names}
    for n in GRID:
        u.setdefault(n, [0, 0, 0])
    u = {n: u[n] for n in at}
    seen = []

    def one(node, case, *a, **kw):
        seen.append(case)
        return np.array(u[node] + [0, 0, 0])
    v.api.result_get_nodal_displacement = one
    v.api.result_get_all_nodal_displacement = lambda case: {n: one(n, case) for n in at}
    return u, seen


def shape(cx, v, at, beams, shells, colour=None):
    l = shown(v, "Lines")
    cx.eq("one set of lines", len(l), 1)
    lines(cx, "line", l[0], at, beams)
    m = [x for x in shown(v, "Mesh") if x.faces]
    cx.eq("meshes", len(m), 1 if shells else 0)
    if shells:
        mesh(cx, "shell", m[0], at, shells)
    if colour is not None:
        cx.eq("colours of lines", l[0].colours, [colour[n] for b in beams for n in beams[b]])
        if shells:
            cx.eq("colours of shells", [m[0].colours[i] for f in m[0].faces for i in f], [colour[n] for s in shells for n in shells[s]])
    return l


@harness(cases=[(d, k) for d in "xyz" for k in ("all", "beams")], weight=3)
def deformation(cx):
    """the deformed model is the model with every node moved by so many times its displacement, coloured by the component asked for"""
    d, k = cx.case
    shells = SHELLS if k == "all" else {}
    nodes = "abcd" if k == "all" else "abc"
    beams = BEAMS if k == "all" else dict(p="ab", q="cb")
    api, at, w = model(cx, beams, shells, nodes)
    api.save("x")
    v = cx.mod(V + ".result_deformation").ResultViewer(w, "x")
    u, seen = displaced(cx, v, at, "bc" if k == "all" else "abc")
    s = cx.real("s", lo=0, hi=100)
    if cx.flag("slide"):
        v.plotter.sliders[0].slide(s)
    else:
        s = 0
    nodes = cx.flag("nodes")
    if nodes:
        press(v, "nodes")
    press(v, "deform" + d)
    cx.claim("the case asked for", set(seen) == {"case1"})
    new = {n: [at[n][i] + s * u[n][i] for i in range(3)] for n in at}
    i = "xyz".index(d)
    shape(cx, v, new, beams, shells, {n: u[n][i] for n in at})
    p = shown(v, "Points")
    cx.eq("nodes shown", len(p), 1 if nodes else 0)
    if nodes:
        cx.eq("nodes", p[0].points, list(new.values()))
        cx.eq("colours of nodes", p[0].colours, [u[n][i] for n in at])
    press(v, "deform" + d)
    shape(cx, v, at, beams, shells)
    p = shown(v, "Points")
    cx.eq("nodes shown again", len(p), 1 if nodes else 0)
    if nodes:
        cx.eq("nodes back", p[0].points, list(at.values()))
    press(v, "nodes")
    v.reset()
    cx.eq("the other way", len(shown(v, "Points")), 0 if nodes else 1)


@harness(cases=["xy", "zx", "yy", "xzz"], thorough=["xyz", "zyyx", "xyxz", "yxxzz"], weight=3)
def one_after_another(cx):
    """displacements do not add up: what is drawn depends on the last button only, and the labels say what a press does"""
    api, at, w = model(cx, dict(p="ab"), {}, "ab")
    api.save("x")
    v = cx.mod(V + ".result_deformation").ResultViewer(w, "x")
    u, seen = displaced(cx, v, at, "ab")
    s = cx.real("s", lo=0, hi=100)
    v.plotter.sliders[0].slide(s)
    on = None
    for d in cx.case:
        press(v, "deform" + d)
        on = None if on == d else d
        new = {n: [at[n][i] + s * u[n][i] for i in range(3)] for n in at} if on else at
        shape(cx, v, new, dict(p="ab"), {}, {n: u[n]["xyz".index(on)] for n in at} if on else None)
        for e in "xyz":
            cx.claim("label", button(v, "deform" + e).status() == ("reset" if e == on else "deform" + e.upper()))
    cx.eq("the model stays", [v.api.get_node_location(n) for n in at], list(at.values()))
