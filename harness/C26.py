"""C26 geometry exchanged by DXF"""
from hlib import harness

META = dict(
    functions=["io.dxf.import_dxf/export_dxf", "frame.add_frame/add_frame_batch/get_frame_end_coors/get_frame_names", "joint.add_joint", "Model.scale"],
    bounds="one to three lines with any ends in [-100, 100] (ends equal or more than 5 apart in x) on three layers, among other entities; four unit systems; models of up to three frames",
    outside="ezdxf itself (a stand-in that keeps entities, layers and points; every path is replayed on the real ezdxf and real files); 3DFACE entities (areas cannot be added to a model); "
            "layers given as something else than a list",
)
G = "hyperstatic.app.general."
UNITS = ["N_m_C", "N_mm_C", "kN_m_C", "kN_mm_C"]


def start(cx, name="a.mdo", unit=None):
    m = cx.mod(G + "model").Model()
    m.create(name)
    m.open(name)
    if unit:
        m.set_unit(unit)
    m.save()
    return m


def points(cx, n=3):
    ps = [[cx.real("%s%s" % (p, c), lo=-100, hi=100) for c in "xyz"] for p in "pqr"[:n]]
    for i in range(n):
        for j in range(i):
            a, b = ps[i][0], ps[j][0]
            cx.assume((a - b > 5) | (b - a > 5))
    return ps


def drawing(cx, lines, other=(), name="in.dxf"):
    z = cx.mod(G + "io.dxf").ezdxf
    d = z.new("R2010")
    s = d.modelspace()
    s.add_point((1, 2, 3), dxfattribs={"layer": "A"})
    for a, b, l in lines:
        s.add_line(tuple(a), tuple(b), dxfattribs={"layer": l})
        s.add_circle((0, 0, 0), 5, dxfattribs={"layer": l})
    for f in other:
        f(s)
    d.saveas(name)


def lines(cx, name):
    z = cx.mod(G + "io.dxf").ezdxf
    d = z.readfile(name)
    return [(list(e.dxf.start), list(e.dxf.end)) for e in d.modelspace() if e.dxftype() == "LINE"]


def size(cx, m):
    orm = cx.mod(G + "orm")
    return [len(m.session.query(k).all()) for k in (orm.Joint, orm.Frame, orm.Area)]


def far(p, q):
    return (p[0] - q[0] > 2) | (q[0] - p[0] > 2)


@harness(cases=UNITS)
def reading(cx):
    """every line becomes a frame of the same ends, in the units of the model"""
    cx.workdir()
    m = start(cx, unit=cx.case)
    p, q, r = points(cx)
    ls = [(p, q, "A"), (r, q, "B"), (p, r, "A")][:cx.choice("lines", [1, 2, 3])]
    drawing(cx, ls)
    m.add_frame_section("T", "Q345", "o", [1])
    own = cx.choice("section", [None, "T"])
    first = m.get_frame_section_names()[0]
    ok, res = m.import_dxf("in.dxf", types="f", frm_sec=own) if own else m.import_dxf("in.dxf")
    cx.claim("done", ok is True)
    cx.eq("kinds", list(res), ["frames"])
    cx.eq("number", len(res["frames"]), len(ls))
    cx.eq("names", sorted(res["frames"]), sorted(m.get_frame_names()))
    m.save()
    m.close()
    m.open("a.mdo")
    cx.eq("kept", sorted(res["frames"]), sorted(m.get_frame_names()))
    for n, (a, b, _) in zip(res["frames"], ls):
        cx.eq("ends", list(m.get_frame_end_coors(n)), a + b)
    k = 1 if cx.case in ("N_m_C", "kN_m_C") else cx.q(1, 1000)
    rows = m.session.query(cx.mod(G + "orm").Joint).all()
    cx.eq("one joint per point", len(rows), 2 if len(ls) == 1 else 3)
    for pt in rows:
        cx.claim("a joint is an end", any(abs(pt.x - v[0] * k) < k for v in (p, q, r)))
    for f in m.session.query(cx.mod(G + "orm").Frame).all():
        cx.eq("section", f.section_name, own or first)


@harness(cases=[[], ["A"], ["B"], ["A", "B"], ["B", "C", "A"], ["C"], ["0"], ["AB"]])
def layers(cx):
    """only what is on the layers asked for, and only what is asked for"""
    cx.workdir()
    m = start(cx)
    p, q, r = points(cx)
    la = [cx.choice("layer%d" % i, ["A", "B", "0", "AB"]) for i in range(2)]
    ls = list(zip((p, r), (q, q), la))
    drawing(cx, ls)
    want = [(a, b) for a, b, l in ls if not cx.case or l in cx.case]
    kinds = cx.choice("kinds", ["f", "fa", "a", ""])
    if "f" not in kinds:
        want = []
    before = size(cx, m)
    got = m.import_dxf("in.dxf", list(cx.case), kinds)
    cx.claim("done", got[0] is True)
    cx.eq("what", list(got[1]), ["frames"] if want else [])
    names = got[1].get("frames", [])
    cx.eq("number", len(names), len(want))
    for n, (a, b) in zip(names, want):
        cx.eq("ends", list(m.get_frame_end_coors(n)), a + b)
    if not want:
        cx.eq("nothing else", size(cx, m), before)
    cx.eq("the drawing stays", len(lines(cx, "in.dxf")), 2)


@harness(cases=["used", "apart"])
def onto(cx):
    """what is in the model stays, and a line that ends at a joint of the model ends there"""
    cx.workdir()
    m = start(cx)
    p, q, r = points(cx)
    first = m.get_frame_section_names()[0]
    f = m.add_frame(p, q, first, "F")
    m.save()
    joints = sorted(m.get_joint_names())
    drawing(cx, [(q, r, "A")] if cx.case == "used" else [(r, [r[0], r[1] + 5, r[2]], "A")])
    ok, res = m.import_dxf("in.dxf")
    cx.claim("done", ok is True)
    cx.eq("frames", sorted(m.get_frame_names()), sorted([f] + res["frames"]))
    cx.eq("old ends", list(m.get_frame_end_coors("F")), p + q)
    cx.claim("old joints", all(j in m.get_joint_names() for j in joints))
    cx.eq("joints", len(m.get_joint_names()), 3 if cx.case == "used" else 4)
    cx.eq("new ends", list(m.get_frame_end_coors(res["frames"][0])), q + r if cx.case == "used" else r + [r[0], r[1] + 5, r[2]])


@harness(cases=UNITS)
def writing(cx):
    """every frame becomes a line of the same ends, in the units of the model; nothing else does"""
    cx.workdir()
    m = start(cx, unit=cx.case)
    p, q, r = points(cx)
    sec = m.get_frame_section_names()[0]
    ls = [(p, q), (r, q), (p, r)][:cx.choice("frames", [0, 1, 2, 3])]
    for a, b in ls:
        m.add_frame(a, b, sec)
    m.add_joint(500, 500, 500)
    m.save()
    before = size(cx, m)
    cx.claim("done", m.export_dxf(".", "out.dxf") is True)
    want = [list(m.get_frame_end_coors(n)) for n in m.get_frame_names()]
    got = lines(cx, "out.dxf")
    cx.eq("number", len(got), len(ls))
    for (a, b), w in zip(got, want):
        cx.eq("line", a + b, w)
    for a, b in ls:
        cx.claim("there once", sum(1 for c, d in got if not far(c, a) and not far(d, b)) == 1)
    cx.eq("model", size(cx, m), before)


@harness(cases=UNITS)
def there_and_back(cx):
    """what is written and read again is the same"""
    cx.workdir()
    m = start(cx, unit=cx.case)
    p, q, r = points(cx)
    sec = m.get_frame_section_names()[0]
    for a, b in ((p, q), (r, q)):
        m.add_frame(a, b, sec)
    m.save()
    cx.claim("done", m.export_dxf(".", "out.dxf") is True)
    n = start(cx, "b.mdo", cx.choice("unit", UNITS))
    ok, res = n.import_dxf("out.dxf")
    cx.claim("done", ok is True)
    a = [list(m.get_frame_end_coors(f)) for f in m.get_frame_names()]
    b = [list(n.get_frame_end_coors(f)) for f in res["frames"]]
    cx.eq("the same", b, a)
    cx.eq("joints", len(n.get_joint_names()), len(m.get_joint_names()))


@harness(cases=[(k, w) for k in ("keep", "over", "new") for w in (".", "sub")])
def overwriting(cx):
    what, to = cx.case
    cx.workdir()
    cx.write("sub/note", "")
    m = start(cx)
    p, q, r = points(cx)
    m.add_frame(p, q, m.get_frame_section_names()[0])
    m.save()
    if what != "new":
        drawing(cx, [(r, p, "A"), (q, r, "A")], name=to + "/out.dxf")
    got = m.export_dxf(to, "out.dxf", True) if what == "over" else m.export_dxf(to, "out.dxf") if cx.flag("default") else m.export_dxf(to, "out.dxf", overwrite=False)
    cx.claim("answer", got is (what != "keep"))
    want = [(r, p), (q, r)] if what == "keep" else [(p, q)]
    l = lines(cx, to + "/out.dxf")
    cx.eq("number", len(l), len(want))
    for (a, b), (c, d) in zip(l, want):
        cx.eq("line", a + b, c + d)
    n = start(cx, "b.mdo")
    ok, res = n.import_dxf(to + "/out.dxf")
    cx.claim("read", ok is True and len(res["frames"]) == len(want))


@harness(cases=["import missing", "import name", "import not a drawing", "import section", "export name", "export path"])
def refusing(cx):
    """what cannot be done is answered False and changes nothing"""
    cx.workdir()
    m = start(cx)
    p, q, r = points(cx)
    m.add_frame(p, q, m.get_frame_section_names()[0])
    m.save()
    before = size(cx, m)
    drawing(cx, [(q, r, "A")])
    if cx.case == "import missing":
        got = m.import_dxf("nothing.dxf")
    if cx.case == "import name":
        drawing(cx, [(q, r, "A")], name="in.dwg")
        got = m.import_dxf("in.dwg")
    if cx.case == "import not a drawing":
        cx.write("text.dxf", "some text\n")
        got = m.import_dxf("text.dxf")
    if cx.case == "import section":
        got = m.import_dxf("in.dxf", frm_sec="no such section")
    if cx.case == "export name":
        got = m.export_dxf(".", "out.dwg")
    if cx.case == "export path":
        got = m.export_dxf("no_such_folder", "out.dxf")
    cx.claim("refused", got is False)
    cx.eq("model", size(cx, m), before)
    cx.eq("frame", list(m.get_frame_end_coors(m.get_frame_names()[0])), p + q)


@harness(cases=["plain", "crowded"], weight=2)
def crowded(cx):
    """ends within the tolerance meet, whatever lies between them"""
    cx.workdir()
    m = start(cx)
    t = cx.q(1, 1000000)
    p = [cx.real("p" + c, lo=-100, hi=100) for c in "xyz"]
    e = [cx.real("e" + c, lo=-1, hi=1) * t / 4 for c in "xyz"]
    near = [a + b for a, b in zip(p, e)]
    up = cx.real("up", lo=5, hi=10)
    other = [p[0] + (cx.real("ex", lo=-1, hi=1) * t / 4 if cx.case == "crowded" else 30), p[1] + up, p[2]]
    starts = [p, other, near]
    ls = [(s, [s[0] + 20 * (i + 2), s[1], s[2]], "A") for i, s in enumerate(starts)]
    drawing(cx, ls)
    ok, res = m.import_dxf("in.dxf")
    cx.claim("done", ok is True)
    cx.eq("frames", len(res["frames"]), 3)
    cx.eq("joints", len(m.get_joint_names()), 5)
    for n, (a, b, _) in zip(res["frames"], ls):
        for g, w in zip(m.get_frame_end_coors(n), a + b):
            cx.le("end", abs(g - w), t)


@harness(cases=["same", "reversed"])
def twice(cx):
    """a line drawn twice is two frames between the same joints, each in its own direction"""
    cx.workdir()
    m = start(cx)
    p, q, r = points(cx)
    ls = [(p, q, "A"), (q, r, "A"), (p, q, "A") if cx.case == "same" else (q, p, "A")]
    drawing(cx, ls)
    ok, res = m.import_dxf("in.dxf")
    cx.claim("done", ok is True)
    cx.eq("frames", len(m.get_frame_names()), 3)
    cx.eq("joints", len(m.get_joint_names()), 3)
    for n, (a, b, _) in zip(res["frames"], ls):
        cx.eq("ends", list(m.get_frame_end_coors(n)), a + b)
    cx.claim("done", m.export_dxf(".", "out.dxf") is True)
    cx.eq("lines", len(lines(cx, "out.dxf")), 3)
