"""C15 the model's records"""
import numpy as np
from hlib import harness

META = dict(
    functions=["Model.add_node", "Model.add_beam", "Model.add_simple_beam", "Model.add_shell", "Model.set_nodal_mass", "Model.set_beam_rotation",
               "Model.set_beam_releases", "Model.get_*", "Element.get_node_names", "Tria.__init__", "Quad.__init__", "DKT.__init__", "DKGQ.__init__"],
    bounds="every sequence of up to four nodes, three members and two shells whose names are new or repeat earlier ones, at any coordinates, with or without "
           "duplicate recognition; duplicates at any distance below or above the tolerance",
    outside="Model.find (not reachable: it needs a numbering nodes do not have); Model.get_beam_reaction; removal (not offered)",
)


def model(cx):
    return cx.mod("hyperstatic.core.fe_model.model").Model()


def consistent(cx, m, tag):
    """indices of nodes, members and shells are dense and unique, and lookups by name agree with the lists"""
    for kind, names, hid in (("node", m.get_node_names(), m.get_node_hid), ("member", m.get_beam_names(), m.get_beam_hid),
                             ("shell", m.get_shell_names(), m.get_shell_hid)):
        cx.eq("%s: one record per %s name" % (tag, kind), len(names), len(set(names)))
        cx.eq("%s: %s indices are dense" % (tag, kind), sorted(hid(n) for n in names), list(range(len(names))))
    cx.eq(tag + ": number of nodes", m.node_count, len(m.get_node_names()))
    cx.eq(tag + ": number of members", m.beam_count, len(m.get_beam_names()))


@harness()
def nodes(cx):
    """four additions with any coincidence of names"""
    m = model(cx)
    want = {}
    for k in range(4):
        name = cx.choice("name%d" % k, ["a", "b", "c", "d"][:k + 1])
        P = [cx.real("%s%d" % (c, k)) for c in "xyz"]
        h = m.add_node(name, *P)
        old = want.get(name)
        want[name] = (P, len(want) if old is None else old[1])
        cx.eq("index returned", h, want[name][1])
        consistent(cx, m, "after each addition")
    cx.eq("names", sorted(m.get_node_names()), sorted(want))
    for n, (P, h) in want.items():
        cx.eq("position", np.array(list(m.get_node_location(n))), np.array(P))
        cx.eq("index", m.get_node_hid(n), h)


@harness(cases=[(b, k) for b in ("below", "above") for k in (0, 1, 2)])
def duplicate_nodes(cx):
    """with duplicate recognition a node within the tolerance of an earlier one is that node"""
    how, which = cx.case
    m = model(cx)
    base = [[cx.real(c, lo=-100, hi=100, nom=(-2, 2)) for c in "xyz"], [200, 0, 0], [0, 300, 0]]
    for k, P in enumerate(base):
        cx.eq("index", m.add_node("n%d" % k, *P, check_dup=True), k)
    if how == "below":
        e = [cx.real("e" + c, lo=cx.q(-57, 10 ** 11), hi=cx.q(57, 10 ** 11), nom=(-3e-10, 3e-10)) for c in "xyz"]
    else:
        e = [0, 0, 0]
        e[cx.choice("axis", [0, 1, 2])] = cx.choice("side", [1, -1]) * cx.real("e", lo=cx.q(101, 10 ** 11), hi=10, nom=(0.5, 2))
    P = [base[which][i] + e[i] for i in range(3)]
    if how == "below":
        cx.eq("index of the earlier node", m.add_node("new", *P, check_dup=True), which)
        cx.eq("names", m.get_node_names(), ["n0", "n1", "n2"])
    else:
        cx.eq("a new index", m.add_node("new", *P, check_dup=True), 3)
        cx.eq("names", m.get_node_names(), ["n0", "n1", "n2", "new"])
        cx.eq("position", np.array(list(m.get_node_location("new"))), np.array(P))
    for k, Q in enumerate(base):
        cx.eq("earlier positions", np.array(list(m.get_node_location("n%d" % k))), np.array(Q))
    consistent(cx, m, "duplicates")
    cx.eq("without recognition every node counts", m.add_node("again", *base[0]), len(m.get_node_names()) - 1)


def square(cx, m, L):
    at = {"a": (0, 0, 0), "b": (L, 0, 0), "c": (L, L, 0), "d": (0, L, 0)}
    for k in "abcd":
        m.add_node(k, *at[k])
    return at


def section(cx, m):
    m.add_isotropic_material("m", 1, 2, cx.q(1, 4), 1)
    m.add_beam_section_general("s", "m", 1, 1, 1, 1, 1, 1, 1, 1)
    m.add_shell_section("t", "m", 1)


def add(cx, m, kind, name, i, j, **kw):
    if kind == "simple":
        return m.add_simple_beam(name, i, j, 2, cx.q(1, 4), 1, 1, 1, 1, 1, **kw)
    return m.add_beam(name, i, j, "s", **kw)


ENDS = [("a", "b"), ("b", "a"), ("b", "c"), ("c", "d"), ("a", "c")]


@harness(cases=["general", "simple", "mixed"])
def members(cx):
    """three additions with any coincidence of names"""
    m = model(cx)
    L = cx.real("L", lo=cx.q(1, 100), hi=1000, nom=(1, 4))
    at = square(cx, m, L)
    section(cx, m)
    want = {}
    for k in range(3):
        name = cx.choice("name%d" % k, ["p", "q", "r"][:k + 1])
        ends = cx.choice("ends%d" % k, ENDS[:3])
        kind = ("simple" if k % 2 else "general") if cx.case == "mixed" else cx.case
        h = add(cx, m, kind, name, *ends)
        want[name] = (ends, len(want) if name not in want else want[name][1])
        cx.eq("index returned", h, want[name][1])
    consistent(cx, m, "members")
    for n, ((i, j), h) in want.items():
        cx.eq("index", m.get_beam_hid(n), h)
        cx.eq("ends", list(m.get_beam_connection(n)), [i, j])
        cx.eq("end positions", np.array([list(v) for v in m.get_beam_location(n)]), np.array([at[i], at[j]]))
        cx.eq("end indices", list(m.get_beam_node_hids(n)), [m.get_node_hid(i), m.get_node_hid(j)])


@harness(cases=["general", "simple"])
def duplicate_members(cx):
    """with duplicate recognition a member between the ends of an earlier one, in either direction, is that member"""
    m = model(cx)
    L = cx.real("L", lo=cx.q(1, 100), hi=1000, nom=(1, 4))
    square(cx, m, L)
    m.add_node("e", L, L, cx.q(1, 10 ** 10))
    section(cx, m)
    other = "simple" if cx.case == "general" else "general"
    add(cx, m, cx.case, "p", "a", "b", check_dup=True)
    add(cx, m, other, "q", "b", "c", check_dup=True)
    ends = cx.choice("ends", [("a", "b", 0), ("b", "a", 0), ("b", "c", 1), ("c", "b", 1), ("e", "b", 1), ("b", "e", 1), ("a", "c", None), ("c", "d", None),
                              ("d", "b", None), ("d", "a", None)])
    kind = cx.choice("kind", ["general", "simple"])
    h = add(cx, m, kind, "n", ends[0], ends[1], check_dup=True)
    if ends[2] is None:
        cx.eq("a new index", h, 2)
        cx.eq("names", m.get_beam_names(), ["p", "q", "n"])
        cx.eq("ends", list(m.get_beam_connection("n")), list(ends[:2]))
    else:
        cx.eq("index of the earlier member", h, ends[2])
        cx.eq("names", m.get_beam_names(), ["p", "q"])
    consistent(cx, m, "duplicates")
    cx.eq("without recognition every member counts", add(cx, m, kind, "again", "a", "b"), m.beam_count - 1)


@harness()
def shells(cx):
    """triangles and quadrilaterals, names new or repeated"""
    m = model(cx)
    at = square(cx, m, 2)
    section(cx, m)
    want = {}
    for k in range(3):
        name = cx.choice("name%d" % k, ["p", "q", "r"][:k + 1])
        c = cx.choice("corners%d" % k, [("a", "b", "c"), ("a", "b", "c", "d"), ("d", "c", "b"), ("d", "c", "b", "a")][k:k + 2])
        h = m.add_shell(name, "t", *c)
        want[name] = (c, len(want) if name not in want else want[name][1])
        cx.eq("index returned", h, want[name][1])
    consistent(cx, m, "shells")
    for n, (c, h) in want.items():
        cx.eq("index", m.get_shell_hid(n), h)
        cx.eq("corners", list(m.get_shell_connection(n)), list(c))
        cx.eq("corner positions", np.array([list(v) for v in m.get_shell_location(n)]), np.array([at[i] for i in c]))
        cx.eq("corner indices", list(m.get_shell_node_hids(n)), [m.get_node_hid(i) for i in c])


@harness()
def attributes(cx):
    """masses, releases and rotations belong to the object named"""
    m = model(cx)
    square(cx, m, 2)
    section(cx, m)
    add(cx, m, "general", "p", "a", "b")
    add(cx, m, "simple", "q", "a", "d")
    at = cx.choice("node", ["a", "b", "d"])
    v = [cx.real("m%d" % k) for k in range(6)]
    m.set_nodal_mass(at, *v)
    for n in "abcd":
        cx.eq("mass", np.array(list(m.get_nodal_mass(n))), np.array(v if n == at else [0] * 6))
    b = cx.choice("member", ["p", "q"])
    t = cx.angle("t")
    T0 = {k: m.get_beam_transform_matrix(k).toarray()[:3, :3] for k in "pq"}
    m.set_beam_rotation(b, cx.angle("s"))
    m.set_beam_rotation(b, t)
    c, s = cx.cos(t), cx.sin(t)
    for k in "pq":
        want = np.array([[1, 0, 0], [0, c, s], [0, -s, c]]).dot(T0[k]) if k == b else T0[k]
        cx.eq("rotation", m.get_beam_transform_matrix(k).toarray()[:3, :3], want)
