"""C18 units of the application layer"""
import numpy as np
from hlib import harness

META = dict(
    functions=["Model.scale", "project.set_unit/get_unit/set_tolerance/get_tolerance", "db.create/open/save/close", "joint.add_joint/set_joint_coordinate/get_joint_coordinate/get_joint_name_by_coor/set_joint_load",
               "frame.add_frame/add_frame_batch/get_frame_end_coors/set_frame_load_*", "material.add_material/add_material_quick/set_material_isotropic_elastic", "frame_section.add_frame_section",
               "area_section.add_area_section", "result.get_result_*"],
    bounds="every real value, entered in each of the four unit systems and read in each of the four; up to three joints and two frames",
    outside="sqlalchemy and sqlite (a stand-in with their documented behaviour; every path is replayed on the real ones); areas (add_area fails on every call); "
            "rounding; masses and strains of joints (not stored)",
)
G = "hyperstatic.app.general."
UNITS = ["N_m_C", "N_mm_C", "kN_m_C", "kN_mm_C"]


def factor(u, F=0, L=0):
    """one unit of force^F length^L in N and m, as an exact pair"""
    return (1000 if u[0] == "k" else 1, 1000 if "_mm_" in u else 1, F, L)


def si(cx, v, u, F=0, L=0):
    kf, kl, F, L = factor(u, F, L)
    n, d = 1, 1
    for k, e in ((kf, F), (-kl, L)):
        up = e if k > 0 else -e
        for _ in range(abs(e)):
            if up > 0:
                n = n * abs(k)
            else:
                d = d * abs(k)
    return v * n / d


def start(cx):
    cx.workdir()
    m = cx.mod(G + "model").Model()
    m.create("a.mdo")
    m.open("a.mdo")
    return m


def rows(cx, m, kind, **kw):
    return m.session.query(getattr(cx.mod(G + "orm"), kind)).filter_by(**kw).all()


def frame(cx):
    return cx.mod(G + "object.frame")


def again(m):
    """keep the model, leave it and come back"""
    m.save()
    m.close()
    m.open("a.mdo")


def vec(cx, name, n, lo=-100, hi=100):
    return [cx.real("%s%d" % (name, i), lo=lo, hi=hi) for i in range(n)]


PAIRS = [(a, b) for a in UNITS for b in UNITS]


@harness(cases=PAIRS)
def coordinates(cx):
    a, b = cx.case
    m = start(cx)
    keep = cx.flag("keep")
    p = vec(cx, "p", 3)
    j = m.add_joint(0, 0, 0)
    cx.claim("unit set", m.set_unit(a) is True)
    cx.claim("unit read", m.get_unit() == a)
    cx.claim("set", m.set_joint_coordinate(j, *p) is True)
    cx.eq("same unit", m.get_joint_coordinate(j), p)
    if keep:
        again(m)
    cx.claim("unit set", m.set_unit(b) is True)
    r = rows(cx, m, "Joint", name=j)
    cx.eq("one joint", len(r), 1)
    cx.eq("stored in m", [r[0].x, r[0].y, r[0].z], [si(cx, v, a, L=1) for v in p])
    cx.eq("read back", [si(cx, v, b, L=1) for v in m.get_joint_coordinate(j)], [si(cx, v, a, L=1) for v in p])


@harness(cases=PAIRS)
def tolerance(cx):
    a, b = cx.case
    m = start(cx)
    t = cx.real("t", lo=0, hi=10)
    m.set_unit(a)
    cx.claim("set", m.set_tolerance(t) is True)
    cx.eq("same unit", m.get_tolerance(), t)
    m.set_unit(b)
    cx.eq("read back", si(cx, m.get_tolerance(), b, L=1), si(cx, t, a, L=1))


@harness(cases=[(u, k) for u in UNITS for k in ("x", "y", "z", "xyz")])
def lookup(cx):
    """a joint is found by its coordinates in the current unit, within the tolerance on both sides, and only then"""
    u, k = cx.case
    m = start(cx)
    m.set_unit(u)
    t = cx.real("t", lo=cx.q(1, 1000), hi=1)
    cx.claim("set", m.set_tolerance(t) is True)
    p = vec(cx, "p", 3)
    j = m.add_joint(0, 0, 0)
    m.set_joint_coordinate(j, *p)
    far = m.add_joint(0, 0, 0)
    m.set_joint_coordinate(far, *[v + 5 * t for v in p])
    m.save()
    d = [cx.real("d" + c, lo=-2, hi=2) if c in k else 0 for c in "xyz"]
    for v in d:
        cx.assume((v <= cx.q(99, 100)) | (v >= cx.q(101, 100)))
        cx.assume((v >= -cx.q(99, 100)) | (v <= -cx.q(101, 100)))
    got = m.get_joint_name_by_coor(**{c: v + t * e for c, v, e in zip("xyz", p, d) if c in k})
    inside = True
    for v in d:
        if v > 1 or v < -1:
            inside = False
    cx.claim("found within the tolerance", set(got or []) == ({j} if inside else set()))


@harness(cases=PAIRS, weight=2)
def frames(cx):
    a, b = cx.case
    m = start(cx)
    p, q, r = vec(cx, "p", 3), vec(cx, "q", 3), vec(cx, "r", 3)
    sec = m.get_frame_section_names()[0]
    m.set_unit(a)
    for v, w in ((p, q), (q, r), (p, r)):
        cx.assume((v[0] - w[0] > 1) | (w[0] - v[0] > 1))
    batch = cx.choice("by", ["one by one", "batch", "batch after one"])
    if batch == "batch":
        ok, n = m.add_frame_batch([(p, q), (q, r)], sec)
    elif batch == "batch after one":
        n = [m.add_frame(p, q, sec)]
        m.save()
        n = n + list(m.add_frame_batch([(r, q)], sec)[1])
    else:
        n = [m.add_frame(p, q, sec), m.add_frame(r, q, sec, "F")]
        cx.eq("name", n[1], "F")
    if cx.flag("keep"):
        again(m)
    m.set_unit(b)
    cx.eq("two frames", sorted(m.get_frame_names()), sorted(n))
    cx.eq("the joint in common is shared", len(m.get_joint_names()), 3)
    ends = [(p, q), (q, r) if batch == "batch" else (r, q)]
    for i in range(2):
        e = m.get_frame_end_coors(n[i])
        cx.eq("ends of frame %d" % (i + 1), [si(cx, v, b, L=1) for v in e], [si(cx, v, a, L=1) for k in ends[i] for v in k])
        s, t = m.get_frame_end_names(n[i])
        cx.eq("end joints of frame %d" % (i + 1), [si(cx, v, b, L=1) for k in (s, t) for v in m.get_joint_coordinate(k)],
              [si(cx, v, a, L=1) for k in ends[i] for v in k])


@harness(cases=UNITS)
def material(cx):
    u = cx.case
    m = start(cx)
    rho, E, mu = cx.real("rho", pos=True), cx.real("E", pos=True), cx.real("mu", lo=0, hi=cx.q(1, 2))
    E2, mu2 = cx.real("E2", pos=True), cx.real("mu2", lo=0, hi=cx.q(1, 2))
    m.set_unit(u)
    cx.claim("added", m.add_material("M", rho, "isotropic_elastic", E=E, mu=mu) is True)
    if cx.flag("keep"):
        again(m)
    r = rows(cx, m, "Material", name="M")
    cx.eq("one material", len(r), 1)
    cx.eq("density", r[0].rho, si(cx, rho, u, F=1, L=-4))
    cx.eq("elasticity", [r[0].isotropic_elastic.E, r[0].isotropic_elastic.mu], [si(cx, E, u, F=1, L=-2), mu])
    cx.claim("changed", m.set_material_isotropic_elastic("M", E2, mu2) is True)
    r = rows(cx, m, "IsotropicElastic", material_name="M")
    cx.eq("one record", len(r), 1)
    cx.eq("changed elasticity", [r[0].E, r[0].mu], [si(cx, E2, u, F=1, L=-2), mu2])


@harness(cases=UNITS)
def material_by_code(cx):
    """steel of a grade is the same steel whatever the unit of the model"""
    u = cx.case
    m = start(cx)
    m.set_unit(u)
    cx.claim("a name taken", not m.add_material_quick("Q345"))
    m.delete_material("Q345")
    cx.claim("added", m.add_material_quick("Q345") is True)
    if cx.flag("keep"):
        again(m)
    r = rows(cx, m, "Material", name="Q345")
    cx.eq("one material", len(r), 1)
    cx.eq("density", r[0].rho, 7850, tol=cx.q(1, 100))
    cx.eq("elasticity", [r[0].isotropic_elastic.E, r[0].isotropic_elastic.mu], [206 * 10 ** 9, cx.q(3, 10)], tol=cx.q(1, 20))
    cx.claim("a code nobody knows", not m.add_material_quick("steel"))
    cx.eq("not added", len(rows(cx, m, "Material", name="steel")), 0)


SHAPES = {"o": ["Circle", 1], "O": ["Pipe", 2], "I": ["ISection", 4], "B": ["HollowBox", 4]}


@harness(cases=[(u, k) for u in UNITS for k in SHAPES])
def frame_section(cx):
    u, k = cx.case
    m = start(cx)
    m.set_unit(u)
    if k in "oO":
        d = cx.real("d", pos=True)
        s = [d] + [cx.real("t", pos=True)] * (k == "O")
        if k == "O":
            cx.assume(2 * s[1] < d)
    else:
        s = [cx.real(c, pos=True) for c in ("h", "b", "tw", "tf")]
        cx.assume(2 * s[3] < s[0])
        cx.assume((2 * s[2] if k == "B" else s[2]) < s[1])
    cx.claim("added", m.add_frame_section("S", "Q345", k, s) is True)
    if cx.flag("keep"):
        again(m)
    r = rows(cx, m, "FrameSection", name="S")
    cx.eq("one section", len(r), 1)
    r = r[0]
    z = [si(cx, v, u, L=1) for v in s]
    cx.eq("sizes", [r.size_0, r.size_1, r.size_2, r.size_3], z + [None] * (4 - len(z)))
    cx.eq("material", r.material.name, "Q345")
    sec = getattr(cx.mod(G + "property.frame_section"), SHAPES[k][0])(None, *z)
    cx.eq("constants", [r.A, r.I2, r.I3, r.J], [sec.A, sec.I22, sec.I33, sec.J])


@harness(cases=[(u, k) for u in UNITS for k in "mps"])
def area_section(cx):
    u, k = cx.case
    m = start(cx)
    m.set_unit(u)
    t = cx.real("t", pos=True)
    cx.claim("added", m.add_area_section("S", "C35", k, t) is True)
    r = rows(cx, m, "AreaSection", name="S")
    cx.eq("one section", len(r), 1)
    cx.eq("thickness", r[0].t, si(cx, t, u, L=1))
    cx.claim("kind and material", r[0].type == k and r[0].material_name == "C35")


def structure(cx, m):
    """two joints and a frame between them"""
    n = m.add_frame((0, 0, 0), (5, 0, 0), m.get_frame_section_names()[0], "F")
    a, b = m.get_frame_end_names("F")
    return n, a, b


@harness(cases=UNITS)
def joint_load(cx):
    u = cx.case
    m = start(cx)
    f, a, b = structure(cx, m)
    m.add_loadcase("L", "static-linear")
    m.set_unit(u)
    p, q, r = vec(cx, "p", 6), vec(cx, "q", 6), vec(cx, "r", 6)
    cx.claim("set", m.set_joint_load(a, "S", p) is True)
    cx.claim("set", m.set_joint_load(a, "L", q) is True)
    cx.claim("set", m.set_joint_load(b, "L", q) is True)
    if cx.flag("keep"):
        again(m)
    if cx.flag("twice"):
        cx.claim("set again", m.set_joint_load(b, "L", r) is True)
    else:
        r = q
    for j, c, v in ((a, "S", p), (a, "L", q), (b, "L", r)):
        w = rows(cx, m, "JointLoad", joint_name=j, loadcase_name=c)
        cx.eq("one load", len(w), 1)
        w = w[0]
        cx.eq("force", [w.u1, w.u2, w.u3], [si(cx, x, u, F=1) for x in v[:3]])
        cx.eq("moment", [w.r1, w.r2, w.r3], [si(cx, x, u, F=1, L=1) for x in v[3:]])
    cx.eq("nothing else", len(rows(cx, m, "JointLoad")), 3)


@harness(cases=UNITS)
def distributed(cx):
    u = cx.case
    m = start(cx)
    f, a, b = structure(cx, m)
    m.set_unit(u)
    p = vec(cx, "p", 12)
    if cx.flag("twice"):
        frame(cx).set_frame_load_distributed(m, f, "S", vec(cx, "q", 12))
    cx.claim("set", frame(cx).set_frame_load_distributed(m, f, "S", p) is True)
    w = rows(cx, m, "FrameLoadDistributed", frame_name=f, loadcase_name="S")
    cx.eq("one load", len(w), 1)
    w = w[0]
    cx.eq("force per length", [w.p01, w.p02, w.p03, w.p11, w.p12, w.p13], [si(cx, x, u, F=1, L=-1) for x in p[:3] + p[6:9]])
    cx.eq("moment per length", [w.m01, w.m02, w.m03, w.m11, w.m12, w.m13], [si(cx, x, u, F=1) for x in p[3:6] + p[9:]])


@harness(cases=UNITS)
def concentrated(cx):
    u = cx.case
    m = start(cx)
    f, a, b = structure(cx, m)
    m.set_unit(u)
    p, loc = vec(cx, "p", 6), cx.real("loc", lo=0, hi=1)
    if cx.flag("twice"):
        frame(cx).set_frame_load_concentrated(m, f, "S", vec(cx, "q", 6), cx.q(1, 2))
    cx.claim("set", frame(cx).set_frame_load_concentrated(m, f, "S", p, loc) is True)
    w = rows(cx, m, "FrameLoadConcentrated", frame_name=f, loadcase_name="S")
    cx.eq("one load", len(w), 1)
    w = w[0]
    cx.eq("force", [w.p1, w.p2, w.p3], [si(cx, x, u, F=1) for x in p[:3]])
    cx.eq("moment", [w.m1, w.m2, w.m3], [si(cx, x, u, F=1, L=1) for x in p[3:]])
    cx.eq("place", w.loc, loc)


@harness(cases=UNITS)
def without_units(cx):
    """strain and temperature do not depend on the units"""
    m = start(cx)
    f, a, b = structure(cx, m)
    m.set_unit(cx.case)
    e, t = cx.real("e", lo=0, hi=1), cx.real("T", lo=-100, hi=100)
    cx.claim("set", frame(cx).set_frame_load_strain(m, f, "S", e) is True)
    cx.claim("set", frame(cx).set_frame_load_temperature(m, f, "S", t) is True)
    w, v = rows(cx, m, "FrameLoadStrain", frame_name=f), rows(cx, m, "FrameLoadTemperature", frame_name=f)
    cx.eq("one of each", [len(w), len(v)], [1, 1])
    cx.eq("stored", [w[0].strain, v[0].T], [e, t])


@harness(cases=UNITS)
def results(cx):
    """results are stored in N and m and read in the current unit, each for its own object and case"""
    u = cx.case
    m = start(cx)
    f, a, b = structure(cx, m)
    orm = cx.mod(G + "orm")
    want = {}
    for k, (j, c) in enumerate(((a, "S"), (b, "S"), (a, "T"))):
        d, r = vec(cx, "d%d" % k, 6), vec(cx, "r%d" % k, 6)
        o = orm.ResultJointDisplacement()
        o.joint_name, o.loadcase_name = j, c
        o.u1, o.u2, o.u3, o.r1, o.r2, o.r3 = d
        w = orm.ResultJointReaction()
        w.joint_name, w.loadcase_name = j, c
        w.p1, w.p2, w.p3, w.m1, w.m2, w.m3 = r
        m.session.add_all([o, w])
        want[j, c] = (d, r)
    ff = [vec(cx, "f%d_" % k, 12) for k in range(2)]
    for k in range(2):
        o = orm.ResultFrameForce()
        o.frame_name, o.loadcase_name, o.segment = f, "S", k
        o.p01, o.p02, o.p03, o.m01, o.m02, o.m03, o.p11, o.p12, o.p13, o.m11, o.m12, o.m13 = ff[k]
        m.session.add(o)
    T = vec(cx, "T", 2, lo=0)
    for k in range(2):
        o = orm.ResultModalPeriod()
        o.loadcase_name, o.order, o.period = "M", k + 1, T[k]
        m.session.add(o)
    m.session.commit()
    m.set_unit(u)
    for (j, c), (d, r) in want.items():
        g = m.get_result_joint_displacement(j, c)
        cx.eq("displacement", [si(cx, v, u, L=1) for v in g[:3]], d[:3])
        cx.eq("rotation", g[3:], d[3:])
        g = m.get_result_joint_reaction(j, c)
        cx.eq("reaction", [si(cx, v, u, F=1) for v in g[:3]], r[:3])
        cx.eq("reaction moment", [si(cx, v, u, F=1, L=1) for v in g[3:]], r[3:])
    g = m.get_result_frame_force(f, "S")
    cx.eq("segments", len(g), 2)
    for k in range(2):
        cx.eq("frame force", [si(cx, v, u, F=1) for v in g[k][:3] + g[k][6:9]], ff[k][:3] + ff[k][6:9])
        cx.eq("frame moment", [si(cx, v, u, F=1, L=1) for v in g[k][3:6] + g[k][9:]], ff[k][3:6] + ff[k][9:])
    cx.eq("periods", m.get_result_period("M"), T)
    cx.eq("second period", m.get_result_period("M", 2), T[1:])
    cx.claim("no result", m.get_result_joint_displacement(b, "T") is None and m.get_result_joint_reaction(b, "T") is None and m.get_result_frame_force(f, "T") is None)
