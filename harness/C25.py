"""C25 records of the application model"""
import numpy as np
from hlib import harness

META = dict(
    functions=["db.create/open/save/close", "project.set_*/get_*", "joint.add_joint/set_joint_restraint/set_joint_restraint_batch/delete_joint/get_joint_names", "frame.add_frame/add_frame_batch/"
               "set_frame_section/get_frame_*/delete_frame", "material.add_material/get_material_names/delete_material", "frame_section.add_frame_section/get_frame_section_names/delete_frame_section",
               "area_section.add_area_section/get_area_section_names/delete_area_section", "loadcase.add_loadcase/get_loadcase_names/delete_loadcase"],
    bounds="up to five joints and three frames with any coordinates in [-100, 100], any offset from an existing joint (1 % about the tolerance left open); "
           "every kind of object added twice, replaced, deleted, saved and reopened",
    outside="sqlalchemy and sqlite (a stand-in with their documented behaviour; every path is replayed on the real ones); areas (add_area fails on every call), "
            "merge_joints and set_*_name (not usable from the model); what was not saved before a refused call (it is rolled back with it)",
)
G = "hyperstatic.app.general."


def start(cx):
    cx.workdir()
    m = cx.mod(G + "model").Model()
    m.create("a.mdo")
    m.open("a.mdo")
    return m


def again(m):
    m.save()
    m.close()
    m.open("a.mdo")


def rows(cx, m, kind, **kw):
    return m.session.query(getattr(cx.mod(G + "orm"), kind)).filter_by(**kw).all()


def point(cx, name):
    return [cx.real(name + c, lo=-100, hi=100) for c in "xyz"]


def refused(cx, name, f):
    """a call that is refused says so by an exception or a false value"""
    try:
        r = f()
    except Exception:
        r = False
    cx.claim(name, r is False)


@harness(cases=[(w, b, a) for w in ("start", "end") for b in ("add_frame", "batch") for a in range(3)], weight=2)
def sharing(cx):
    """a new frame uses a joint already there if, and only if, it is within the tolerance"""
    w, by, axis = cx.case
    m = start(cx)
    sec = m.get_frame_section_names()[0]
    t = cx.real("t", lo=cx.q(1, 1000), hi=1)
    m.set_unit("N_m_C")
    m.set_tolerance(t)
    p, q, r = point(cx, "p"), point(cx, "q"), point(cx, "r")
    for a, b in ((p, q), (q, r), (p, r)):
        cx.assume((a[0] - b[0] > 5) | (b[0] - a[0] > 5))
    m.add_frame(p, q, sec, "F")
    m.save()
    d = cx.real("d", lo=-2, hi=2)
    cx.assume((d <= cx.q(99, 100)) | (d >= cx.q(101, 100)))
    cx.assume((d >= -cx.q(99, 100)) | (d <= -cx.q(101, 100)))
    o = list(p)
    o[axis] = o[axis] + d * t
    e = (o, r) if w == "start" else (r, o)
    if by == "batch":
        ok, (n,) = m.add_frame_batch([e], sec)
    else:
        n = m.add_frame(e[0], e[1], sec)
    inside = bool((d < 1) & (d > -1))
    cx.eq("joints", len(m.get_joint_names()), 3 if inside else 4)
    cx.eq("frames", sorted(m.get_frame_names()), sorted(["F", n]))
    a, b = m.get_frame_end_names("F"), m.get_frame_end_names(n)
    k = 0 if w == "start" else 1
    cx.claim("shared or not", (a[0] == b[k]) == inside)
    cx.claim("other ends apart", len({a[0], a[1], b[1 - k]}) == 3)
    at = p if inside else o
    got = m.get_frame_end_coors("F")
    new = m.get_frame_end_coors(n)
    if by == "batch" and inside:
        cx.eq("far end of the first frame", got[3:], q)
        cx.claim("common end in place", got[:3] == new[3 * k:3 * k + 3])
        for c in range(3):
            cx.le("within the tolerance", got[c] - p[c], t)
            cx.le("within the tolerance", p[c] - got[c], t)
    else:
        cx.eq("first frame stays", got, p + q)
        cx.eq("end at the joint", new[3 * k:3 * k + 3], at)
    cx.eq("other end", new[3 - 3 * k:6 - 3 * k], r)


@harness(cases=["triangle", "star", "double", "chain", "chain back"])
def topology(cx):
    """frames given at once share joints by place and keep their direction"""
    m = start(cx)
    sec = m.get_frame_section_names()[0]
    P = [point(cx, "p%d" % i) for i in range(4)]
    for i in range(4):
        for j in range(i):
            cx.assume((P[i][0] - P[j][0] > 1) | (P[j][0] - P[i][0] > 1))
    F = {"triangle": [(0, 1), (1, 2), (2, 0)], "star": [(0, 1), (0, 2), (3, 0)], "double": [(0, 1), (1, 0)], "chain": [(0, 1), (1, 2), (2, 3)],
         "chain back": [(3, 2), (2, 1), (1, 0)]}[cx.case]
    if cx.flag("batch"):
        ok, n = m.add_frame_batch([(P[i], P[j]) for i, j in F], sec)
        cx.claim("added", ok is True)
    else:
        n = [m.add_frame(P[i], P[j], sec) for i, j in F]
    if cx.flag("keep"):
        again(m)
    used = sorted({i for f in F for i in f})
    cx.eq("frames", len(set(n)), len(F))
    cx.eq("stored frames", sorted(m.get_frame_names()), sorted(n))
    cx.eq("joints", len(m.get_joint_names()), len(used))
    at = {}
    for (i, j), k in zip(F, n):
        cx.eq("ends", m.get_frame_end_coors(k), P[i] + P[j])
        a, b = m.get_frame_end_names(k)
        cx.claim("one joint per place", at.setdefault(i, a) == a and at.setdefault(j, b) == b)
        r = rows(cx, m, "Frame", name=k)
        cx.claim("section", len(r) == 1 and r[0].section_name == sec)
    cx.eq("as many joints", len(set(at.values())), len(used))


def add(cx, m, kind, n, v):
    if kind == "material":
        return m.add_material(n, v, "isotropic_elastic", E=v, mu=0.25)
    if kind == "frame section":
        return m.add_frame_section(n, "Q345", "o", [v])
    if kind == "area section":
        return m.add_area_section(n, "C35", "s", v)
    if kind == "load case":
        return m.add_loadcase(n, "static-linear", v)
    return m.add_frame((0, 0, v), (5, 0, v), "1-L-H400x200x14x20", n)


NAMES = {"material": "get_material_names", "frame section": "get_frame_section_names", "area section": "get_area_section_names", "load case": "get_loadcase_names",
         "frame": "get_frame_names"}
DEL = {"material": "delete_material", "frame section": "delete_frame_section", "area section": "delete_area_section", "load case": "delete_loadcase",
       "frame": "delete_frame"}
KIND = {"material": "Material", "frame section": "FrameSection", "area section": "AreaSection", "load case": "LoadCase", "frame": "Frame"}
FIRST = {"material": ["Q345", "C35"], "frame section": ["1-L-H400x200x14x20"], "area section": ["A-M120"], "load case": ["S"], "frame": []}


def data(cx, m, kind, n):
    r = rows(cx, m, KIND[kind], name=n)
    cx.eq("one record of " + n, len(r), 1)
    r = r[0]
    if kind == "material":
        return [r.rho, r.isotropic_elastic.E, r.isotropic_elastic.mu]
    if kind == "frame section":
        return [r.size_0, r.A * 4 / cx.pi]
    if kind == "area section":
        return [r.t]
    if kind == "load case":
        return [r.weight_factor]
    return m.get_frame_end_coors(n)


def want(cx, kind, v):
    return {"material": [v, v, cx.q(1, 4)], "frame section": [v, v * v], "area section": [v], "load case": [v], "frame": [0, 0, v, 5, 0, v]}[kind]


def otherwise(cx, m, kind, n, v):
    if kind == "material":
        return m.add_material(n, v, "something else")
    if kind == "frame section":
        return m.add_frame_section(n, "C35", "O", [v + 1, v / 4])
    if kind == "area section":
        return m.add_area_section(n, "Q345", "m", v)
    if kind == "load case":
        return m.add_loadcase(n, "modal", v)
    m.add_frame_section("T", "C35", "o", [v])
    m.save()
    return m.add_frame((7, 8, v), (9, 10, v), "T", n)


@harness(cases=list(NAMES))
def one_name(cx):
    """a name is given once; the object keeps its data whatever is refused"""
    kind = cx.case
    m = start(cx)
    v, w, z = cx.real("v", pos=True), cx.real("w", pos=True), cx.real("z", pos=True)
    cx.assume(w > v + 1)
    names = getattr(m, NAMES[kind])
    cx.eq("at first", sorted(names()), sorted(FIRST[kind]))
    cx.claim("added", add(cx, m, kind, "A", v) in (True, "A"))
    cx.claim("added", add(cx, m, kind, "B", w) in (True, "B"))
    if cx.flag("keep"):
        again(m)
    else:
        m.save()
    refused(cx, "taken name refused", lambda: add(cx, m, kind, cx.choice("again", ["A", "B"]), z))
    if cx.flag("otherwise"):
        refused(cx, "taken name refused, however different the object", lambda: otherwise(cx, m, kind, cx.choice("again", ["A", "B"]), z))
    if kind == "frame section":
        refused(cx, "unknown material refused", lambda: m.add_frame_section("C", "nothing", "o", [z]))
        refused(cx, "unknown type refused", lambda: m.add_frame_section("C", "Q345", "X", [z]))
        refused(cx, "wrong number of sizes refused", lambda: m.add_frame_section("C", "Q345", "I", [z, z]))
    if kind == "area section":
        refused(cx, "unknown type refused", lambda: m.add_area_section("C", "C35", "x", z))
        refused(cx, "unknown material refused", lambda: m.add_area_section("C", "nothing", "s", z))
    if kind == "frame":
        refused(cx, "unknown section refused", lambda: m.add_frame((0, 0, 0), (1, 0, 0), "nothing", "C"))
        refused(cx, "unknown section refused", lambda: m.add_frame_batch([((0, 0, 0), (1, 0, 0))], "nothing"))
    cx.eq("both", sorted(names()), sorted(FIRST[kind] + ["A", "B"]))
    cx.eq("first", data(cx, m, kind, "A"), want(cx, kind, v))
    cx.eq("second", data(cx, m, kind, "B"), want(cx, kind, w))


@harness(cases=list(NAMES))
def deleting(cx):
    """deleting removes that object and no other"""
    kind = cx.case
    m = start(cx)
    v, w = cx.real("v", pos=True), cx.real("w", pos=True)
    cx.assume(w > v + 1)
    add(cx, m, kind, "A", v)
    add(cx, m, kind, "B", w)
    if cx.flag("keep"):
        again(m)
    else:
        m.save()
    names = getattr(m, NAMES[kind])
    refused(cx, "nothing of that name", lambda: getattr(m, DEL[kind])("nothing"))
    x = cx.choice("which", ["A", "B"])
    y, u = ("B", w) if x == "A" else ("A", v)
    cx.claim("not refused", getattr(m, DEL[kind])(x) is not False)
    cx.eq("gone", sorted(names()), sorted(FIRST[kind] + [y]))
    again(m)
    cx.eq("gone for good", sorted(names()), sorted(FIRST[kind] + [y]))
    cx.eq("the other stays", data(cx, m, kind, y), want(cx, kind, u))
    cx.claim("the name is free", add(cx, m, kind, x, v) in (True, x))
    cx.eq("new record", data(cx, m, kind, x), want(cx, kind, v))


@harness(cases=["bare", "restrained", "loaded"])
def deleting_joints(cx):
    m = start(cx)
    j = [m.add_joint(*point(cx, "p%d" % i)) for i in range(3)]
    if cx.case == "restrained":
        m.set_joint_restraint(j[1], [True] * 6)
    if cx.case == "loaded":
        m.set_joint_load(j[1], "S", [1, 2, 3, 4, 5, 6])
    m.set_joint_restraint(j[0], [True, False] * 3)
    c = m.get_joint_coordinate(j[0])
    if cx.flag("keep"):
        again(m)
    else:
        m.save()
    refused(cx, "nothing of that name", lambda: m.delete_joint("nothing"))
    cx.claim("not refused", m.delete_joint(j[1]) is not False)
    cx.eq("gone", sorted(m.get_joint_names()), sorted([j[0], j[2]]))
    again(m)
    cx.eq("gone for good", sorted(m.get_joint_names()), sorted([j[0], j[2]]))
    cx.eq("place of another", m.get_joint_coordinate(j[0]), c)
    cx.claim("what is gone has no place", m.get_joint_coordinate(j[1]) is None)
    r = rows(cx, m, "JointRestraint")
    cx.eq("restraints left", [x.joint_name for x in r], [j[0]])
    cx.eq("loads left", len(rows(cx, m, "JointLoad")), 0)


@harness(cases=["first", "replace", "clear", "batch", "batch over"] + list(range(6)))
def restraints(cx):
    m = start(cx)
    j = [m.add_joint(0, 0, i) for i in range(3)]
    a = [cx.flag("a%d" % i) for i in range(2)]
    a = [a[0], a[1], True, a[1], a[0], not a[0]]
    b = [not a[0], True, a[1], False, a[4], cx.flag("b")]
    one = isinstance(cx.case, int)
    if one:
        a = [i == cx.case for i in range(6)]
    cx.claim("set", m.set_joint_restraint(j[2], b) is True)
    want = {j[2]: b}
    if one or cx.case in ("first", "replace", "clear", "batch over"):
        cx.claim("set", m.set_joint_restraint(j[0], b if cx.case != "first" else a) is True)
        want[j[0]] = a
    if cx.flag("keep"):
        again(m)
    if one or cx.case == "replace":
        cx.claim("set again", m.set_joint_restraint(j[0], a) is True)
    if cx.case == "clear":
        cx.claim("cleared", m.set_joint_restraint(j[0], [False] * 6) is True)
        want[j[0]] = [False] * 6
    if not one and cx.case.startswith("batch"):
        cx.claim("set", m.set_joint_restraint_batch(j[:2] + j[:1], a) is True)
        want[j[0]] = want[j[1]] = a
    again(m)
    r = rows(cx, m, "JointRestraint")
    got = {x.joint_name: [bool(v) for v in (x.u1, x.u2, x.u3, x.r1, x.r2, x.r3)] for x in r}
    cx.eq("one record each", len(r), len(got))
    for k in j:
        cx.claim("restraint", got.get(k, [False] * 6) == want.get(k, [False] * 6))
    refused(cx, "unknown joint refused", lambda: m.set_joint_restraint("nothing", a))
    refused(cx, "unknown joint refused", lambda: m.set_joint_restraint_batch([j[0], "nothing"], b))
    refused(cx, "six flags", lambda: m.set_joint_restraint(j[0], [True] * 3))
    refused(cx, "unknown joint refused", lambda: m.set_joint_load("nothing", "S", [0] * 6))
    refused(cx, "unknown joint refused", lambda: m.set_joint_coordinate("nothing", 0, 0, 0))
    cx.claim("no place for it", m.get_joint_coordinate("nothing") is None)
    r = rows(cx, m, "JointRestraint")
    cx.claim("as before", {x.joint_name: [bool(v) for v in (x.u1, x.u2, x.u3, x.r1, x.r2, x.r3)] for x in r} == got)


SETTING = {"static-linear": "LoadCaseStaticLinearSetting", "2nd": "LoadCase2ndSetting", "3rd": "LoadCase3ndSetting", "modal": "LoadCaseModalSetting",
           "response-spectrum": "LoadCaseResponseSpectrumSetting", "time-history": "LoadCaseTimeHistorySetting", "buckling": "LoadCaseBucklingSetting"}


@harness(cases=list(SETTING))
def load_cases(cx):
    m = start(cx)
    f = cx.real("f", lo=-10, hi=10)
    cx.eq("name returned", m.add_loadcase("L", cx.case, f), "L")
    again(m)
    cx.eq("names", sorted(m.get_loadcase_names()), ["L", "S"])
    r = rows(cx, m, "LoadCase", name="L")[0]
    cx.eq("kind", r.case_type, cx.case)
    cx.eq("factor of self weight", r.weight_factor, f)
    for k, s in SETTING.items():
        n = [x.loadcase_name for x in rows(cx, m, s)]
        cx.eq("settings of " + k, n, (["S"] if k == "static-linear" else []) + (["L"] if k == cx.case else []))


@harness()
def project(cx):
    """the project's own data are kept, and nothing that was not saved is"""
    m = start(cx)
    cx.eq("defaults", [m.get_unit(), m.get_tolerance()], ["N_m_C", cx.q(1, 1000000)])
    u = cx.choice("unit", ["N_m_C", "N_mm_C", "kN_m_C", "kN_mm_C"])
    cx.claim("set", m.set_project_name("one") is True and m.set_author("two") is True and m.set_description("three") is True and m.set_unit(u) is True)
    cx.eq("read", [m.get_project_name(), m.get_author(), m.get_description(), m.get_unit()], ["one", "two", "three", u])
    p, q = point(cx, "p"), point(cx, "q")
    j = m.add_joint(*p)
    here = m.get_joint_coordinate(j)
    again(m)
    cx.eq("kept", [m.get_project_name(), m.get_author(), m.get_description(), m.get_unit()], ["one", "two", "three", u])
    cx.eq("joint kept", m.get_joint_coordinate(j), here)
    r = rows(cx, m, "Joint", name=j)[0]
    cx.eq("in m as given", [r.x, r.y, r.z], p)
    refused(cx, "unknown unit", lambda: m.set_unit("lb_ft_F"))
    refused(cx, "no text", lambda: m.set_project_name(5))
    refused(cx, "long name", lambda: m.set_project_name("x" * 40))
    cx.eq("still", [m.get_project_name(), m.get_unit()], ["one", u])
    m.set_joint_coordinate(j, *q)
    m.add_joint(*q)
    m.set_author("nobody")
    m.close()
    m.open("a.mdo")
    cx.eq("not saved", m.get_author(), "two")
    cx.eq("joints as saved", m.get_joint_names(), [j])
    cx.eq("place as saved", m.get_joint_coordinate(j), here)
    m.close()
    m.open("new.mdo")
    cx.eq("a file that is not there is a new model", [m.get_joint_names(), sorted(m.get_material_names())], [[], ["C35", "Q345"]])


@harness()
def assigning(cx):
    """a section assigned to a frame is that frame's"""
    m = start(cx)
    m.add_frame_section("T", "Q345", "o", [1])
    s = m.get_frame_section_names()[0]
    m.add_frame((0, 0, 0), (5, 0, 0), s, "F")
    m.add_frame((0, 0, 0), (0, 5, 0), s, "G")
    x = cx.choice("frame", ["F", "G"])
    cx.claim("set", cx.mod(G + "object.frame").set_frame_section(m, x, "T") is True)
    again(m)
    refused(cx, "unknown frame refused", lambda: cx.mod(G + "object.frame").set_frame_section(m, "nothing", "T"))
    refused(cx, "unknown section refused", lambda: cx.mod(G + "object.frame").set_frame_section(m, x, "nothing"))
    r = {f.name: f.section_name for f in rows(cx, m, "Frame")}
    cx.claim("section", all(r[k] == ("T" if k == x else s) for k in "FG"))
    cx.eq("its frames", [f.name for f in rows(cx, m, "FrameSection", name="T")[0].frames], [x])


@harness(cases=["close", "crash"])
def not_saved(cx):
    """what was not saved is not there, however the model was left"""
    m = start(cx)
    sec = m.get_frame_section_names()[0]
    p, q, r = point(cx, "p"), point(cx, "q"), point(cx, "r")
    for a, b in ((p, q), (q, r), (p, r)):
        cx.assume((a[0] - b[0] > 5) | (b[0] - a[0] > 5))
    m.add_frame(p, q, sec, "F")
    m.save()
    what = cx.choice("what", ["batch", "frame", "joint", "delete", "section"])
    if what == "batch":
        m.add_frame_batch([(q, r), (r, p)], sec)
    if what == "frame":
        m.add_frame(q, r, sec, "G")
    if what == "joint":
        m.add_joint(*r)
    if what == "delete":
        m.delete_frame("F")
    if what == "section":
        m.add_frame_section("T", "Q345", "o", [1])
    if what != "batch" and cx.flag("commit"):
        m.session.commit()
    if cx.case == "close":
        m.close()
        n = m
    else:
        m.session.close()
        n = cx.mod(G + "model").Model()
    n.open("a.mdo")
    cx.eq("frames", n.get_frame_names(), ["F"])
    cx.eq("joints", len(n.get_joint_names()), 2)
    cx.eq("ends", list(n.get_frame_end_coors("F")), p + q)
    cx.eq("sections", n.get_frame_section_names(), [sec])


SETTINGS = ["JointLoad", "FrameLoadDistributed", "FrameLoadConcentrated", "FrameLoadStrain", "FrameLoadTemperature"]
RESULTS = {"ResultJointDisplacement": "joint_name", "ResultJointReaction": "joint_name", "ResultFrameForce": "frame_name", "ResultModalPeriod": None,
           "ResultModalDisplacement": "joint_name"}


@harness(cases=["frame", "load case", "joint", "frame section", "material"] + list(SETTING), weight=2)
def belongings(cx):
    """deleting removes what belongs to that object and nothing else"""
    m = start(cx)
    orm = cx.mod(G + "orm")
    fr = cx.mod(G + "object.frame")
    sec = m.get_frame_section_names()[0]
    kind = "load case" if cx.case in SETTING else cx.case
    m.add_material("M", 1, "isotropic_elastic", E=2, mu=0.25)
    m.add_frame_section("T", "C35", "o", [1])
    m.add_loadcase("L", cx.case if cx.case in SETTING else "static-linear", 1)
    m.add_frame((0, 0, 0), (5, 0, 0), sec, "F")
    m.add_frame((5, 0, 0), (5, 5, 0), sec, "G")
    alone = m.add_joint(9, 9, 9)
    j = list(m.get_frame_end_names("F")) + [m.get_frame_end_names("G")[1], alone]
    v = cx.real("v", lo=0, hi=1)
    for c in "SL":
        for x in j:
            m.set_joint_load(x, c, [v] * 6)
        for f in "FG":
            fr.set_frame_load_distributed(m, f, c, [v] * 12)
            fr.set_frame_load_concentrated(m, f, c, [v] * 6, v)
            fr.set_frame_load_strain(m, f, c, v)
            fr.set_frame_load_temperature(m, f, c, v)
        for k, by in RESULTS.items():
            for x in j if by == "joint_name" else "FG" if by else [None]:
                r = getattr(orm, k)()
                r.loadcase_name = c
                if by:
                    setattr(r, by, x)
                if k == "ResultFrameForce":
                    r.segment = 0
                if "Modal" in k:
                    r.order = 1
                m.session.add(r)
    for x in j:
        m.set_joint_restraint(x, [True] * 6)
    again(m)

    def state():
        out = {}
        for k in list(KIND.values()) + ["Joint"]:
            out[k] = sorted(r.name for r in rows(cx, m, k))
        for k in SETTINGS + list(RESULTS) + ["JointRestraint"]:
            by = "joint_name" if "Joint" in k or k == "ResultModalDisplacement" else "frame_name" if "Frame" in k else None
            out[k] = sorted((getattr(r, by) if by else "", "" if k == "JointRestraint" else r.loadcase_name) for r in rows(cx, m, k))
        for k in SETTING.values():
            out[k] = sorted(r.loadcase_name for r in rows(cx, m, k))
        out["IsotropicElastic"] = sorted(r.material_name for r in rows(cx, m, "IsotropicElastic"))
        return out
    was = state()
    cx.eq("all there", [len(was[k]) for k in SETTINGS + list(RESULTS)], [8, 4, 4, 4, 4, 8, 8, 4, 2, 8])
    x = {"frame": "F", "load case": "L", "joint": alone, "frame section": "T", "material": "M"}[kind]
    cx.claim("not refused", (m.delete_joint if kind == "joint" else getattr(m, DEL[kind]))(x) is not False)
    again(m)
    now = state()
    for k in was:
        left = []
        for r in was[k]:
            mine = r[1] == x if kind == "load case" and isinstance(r, tuple) else r[0] == x if isinstance(r, tuple) else r == x
            if not mine:
                left.append(r)
        cx.eq("left of " + k, now[k], left)
    cx.eq("places", [list(m.get_joint_coordinate(n)) for n in j[:3]], [[0, 0, 0], [5, 0, 0], [5, 5, 0]])
    if kind == "load case":
        cx.eq("added again", m.add_loadcase("L", cx.case if cx.case in SETTING else "static-linear", 1), "L")
        again(m)
        cx.eq("settings again", state()[SETTING[cx.case if cx.case in SETTING else "static-linear"]].count("L"), 1)
        cx.eq("no results", m.session.query(orm.ResultModalPeriod).filter_by(loadcase_name="L").count(), 0)
