#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the one table below"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "hyperstatic/"
CORE = H + "core/"
LINE = CORE + "fe_model/element/line/"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, level_note=None, na=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, level_note=level_note, na=na, technique=technique))


prop("C01", "Coordinate systems are right-handed, orthonormal and turn as told",
     "A coordinate system made from three non-collinear points, or from a normal and a guide, always has right-handed "
     "orthonormal axes with x along the first pair, z along the normal and y on the side of the third point. "
     "Rotating it about its own axes, the global axes or any vector turns every axis by exactly that angle about that line, "
     "and mapping it to another system or moving its origin does what the names say. Collinear input is refused.",
     ["inputs", "histories"], "every origin, point triple, normal, guide, axis vector and angle; sequences of rotations",
     "three fixed numeric systems are tested; orthonormality over all points and angles is a real-algebra claim",
     [H + "common/csys.py", H + "common/tolerance.py"], [("Cartesian", H + "common/csys.py")],
     ["Cartesian.transform_matrix", "Cartesian.x/y/z/origin"])
prop("C02", "Members and nodes carry the documented local axes",
     "Every member between two distinct nodes, inclined, vertical or nearly vertical, gets right-handed axes with local x from "
     "start to end, local z horizontal and local y upwards (global x for a vertical member), and its length and 12-dof transform "
     "follow from them. The member rotation angle turns the section about local x by exactly the last angle given; node axes "
     "start global and turn as rotated.",
     ["inputs", "histories"], "every pair of distinct end positions, every rotation angle and sequence of two settings",
     "the tests build a handful of members at fixed coordinates and never near the vertical threshold",
     [LINE + "__init__.py", LINE + "beam.py", LINE + "simple_beam.py", CORE + "fe_model/node.py"],
     [("Line.__init__", LINE + "__init__.py"), ("Beam.rotation", LINE + "beam.py"), ("Node", CORE + "fe_model/node.py")],
     ["Line.local_csys", "Line.transform_matrix", "Line.length", "Node.transform_matrix"])
prop("C03", "The beam stiffness matrix is the exact Euler-Bernoulli one",
     "For any positive section, material and length the member stiffness is symmetric, produces no force under any rigid-body "
     "motion, has end forces in equilibrium, and gives a cantilever exactly the tip flexibility of beam theory in both bending planes, "
     "axially and in torsion. Both member classes give the same matrix, which stays positive semi-definite.",
     ["inputs"], "every positive E, G, A, I22, I33, J and length, every rigid motion and displacement vector",
     "one numeric matrix is compared in the tests; a wrong coefficient sign or axis swap only shows for unequal inertias or other lengths",
     [LINE + "beam.py", LINE + "simple_beam.py"], [("Beam.integrate_K", LINE + "beam.py"), ("SimpleBeam.integrate_K", LINE + "simple_beam.py")],
     ["Beam.integrate_K", "SimpleBeam.integrate_K"])
prop("C04", "Member mass matrices conserve the member's mass",
     "For any section, material and length the lumped and the consistent mass matrix are symmetric and give every rigid "
     "translation exactly the kinetic energy of a mass density x area x length; the consistent matrix gives rigid rotations and "
     "twists the energy of the uniform bar, and neither matrix has negative kinetic energy.",
     ["inputs"], "every positive density, section and length; every rigid velocity field",
     "one numeric entry is compared in the tests",
     [LINE + "beam.py", LINE + "simple_beam.py", CORE + "fe_model/node.py"],
     [("Beam.integrate_M", LINE + "beam.py"), ("SimpleBeam.integrate_M", LINE + "simple_beam.py")], ["Beam.integrate_M", "SimpleBeam.integrate_M"])
prop("C05", "End releases condense the member exactly",
     "For every set of end releases that leaves the member stable, the condensed stiffness transmits no force through a released "
     "component and equals the exact elimination of the released displacements from the unreleased matrix, for all of them together; the "
     "fixed-end loads are condensed consistently, so that a released member under load has zero force in its released components. "
     "No release leaves the matrices unchanged, and release order does not matter.",
     ["inputs", "configurations"], "every release combination of the 12 end components that leaves a non-singular pivot, every positive member, every load vector",
     "no test sets a release; the combinations of several releases are where sequential elimination goes wrong",
     [LINE + "beam.py", LINE + "simple_beam.py", CORE + "fe_model/model.py"],
     [("static_condensate", LINE + "beam.py"), ("static_condensate_f", LINE + "beam.py"), ("set_beam_releases", CORE + "fe_model/model.py")],
     ["Beam.static_condensate", "Beam.static_condensate_f", "Model.get_beam_condensated_matrices", "Model.get_beam_K"])
prop("C06", "Equivalent nodal loads of member loads are exact",
     "For any linearly varying distributed load and any concentrated force or moment on a member, the fixed-end forces the program uses "
     "are in equilibrium with that load and equal the exact fixed-fixed beam solution in both bending planes, axially and in torsion. Loads at the ends and "
     "superposed loads are handled the same way.",
     ["inputs"], "every load intensity at both ends, every position along the member, every member length",
     "tests exercise a uniform load in one direction; the general trapezoid is a polynomial identity",
     [CORE + "fe_model/load/pattern.py", CORE + "fe_model/load/loadcase.py"], [("LoadPattern.get_beam_f", CORE + "fe_model/load/pattern.py")],
     ["LoadPattern.get_beam_f", "LoadCase.get_beam_f"])
prop("C07", "Load patterns and cases superpose linearly",
     "The load a case puts on a node or member is the sum over its patterns of factor times pattern load, and for time-history "
     "patterns that sum scaled by the pattern's curve at the step, for nodal and member loads alike; re-setting a load replaces it, and an "
     "object nobody loaded gets zero. Nothing depends on the order in which patterns were added or loads were set.",
     ["inputs", "histories"], "every sequence of up to three patterns with arbitrary factors, loads and curves",
     "tests build a single pattern with unit factor",
     [CORE + "fe_model/load/loadcase.py", CORE + "fe_model/load/pattern.py", H + "common/curve.py"],
     [("LoadCase", CORE + "fe_model/load/loadcase.py"), ("LoadPattern", CORE + "fe_model/load/pattern.py")],
     ["LoadCase.get_nodal_f", "LoadCase.get_nodal_d", "LoadCase.get_beam_f", "LoadCase.get_nodal_f_time_history"])
prop("C08", "Section properties follow from the section's geometry",
     "For all dimensions of a rectangular, box, pipe, circular and I section the area, shear areas, moments of inertia, section moduli and "
     "torsion constant equal the integrals (or the documented thin/thick-wall formulas) of that shape, are positive, and reduce to the solid or thin "
     "limit. A section reports the material constants it was made with.",
     ["inputs"], "all admissible dimensions of each shape",
     "no test computes section properties",
     [H + "app/general/property/frame_section.py", CORE + "fe_model/section/beam_section.py", CORE + "fe_model/section/shell_section.py"],
     [("BeamSection subclasses", CORE + "fe_model/section/beam_section.py")], ["BeamSection.A/As2/As3/J/I22/I33/W22/W33"])
prop("C09", "Assembly scatters every element into the global equations",
     "The assembled stiffness, mass and load are the sum over elements and nodes of the transformed element contributions at the degrees of "
     "freedom of their own nodes, for any topology and any order of definition. The assembled stiffness is symmetric and gives no force under a "
     "rigid motion of the whole structure, and total mass and total load are conserved.",
     ["inputs", "configurations"], "every small topology of members with symbolic geometry, stiffness and loads",
     "tests assemble one fixed structure and check nothing about the global matrices",
     [CORE + "fe_model/assembly.py", CORE + "fe_model/model.py"], [("Assembly", CORE + "fe_model/assembly.py")],
     ["Assembly.assemble_K", "Assembly.assemble_M", "Assembly.assemble_f"])
prop("C10", "A static solution satisfies equilibrium and the supports",
     "For any stable structure and load the nodal displacements of a linear static case satisfy K d = f at every free degree of freedom and vanish "
     "at the supported ones. Results of a case depend only on the model and that case: solving other cases first, solving twice, or solving "
     "after the model changed gives the same answer as a fresh solve.",
     ["inputs", "histories"], "symbolic member properties and loads; sequences of solves and model changes",
     "tests check a few displacements of fixed frames to a tolerance",
     [CORE + "fe_solver/static.py", CORE + "fe_model/assembly.py"], [("StaticSolver.solve_linear", CORE + "fe_solver/static.py")],
     ["displacement result files", "Api.result_get_nodal_displacement"])
prop("C11", "Supports and imposed restraints act where they were set",
     "A degree of freedom is removed from the equations if and only if its node is restrained there, by the model or by the load case being "
     "solved: a case with supports of its own uses those in place of the model's, any other case uses the model's. The remaining equations keep their order and "
     "the results are put back at their own degrees of freedom. A case never changes another case's supports.",
     ["inputs", "configurations", "histories"], "every restraint pattern of a small model and its cases",
     "tests use fully fixed or a few fixed patterns",
     [CORE + "fe_model/assembly.py", CORE + "fe_model/load/loadcase.py", CORE + "fe_solver/static.py"],
     [("Assembly.assemble_boundary", CORE + "fe_model/assembly.py")], ["Assembly.assemble_boundary", "displacement result files"])
prop("C12", "Modal results are eigenpairs of the supported structure",
     "Each mode reported by a modal case satisfies K v = w2 M v with the assembled stiffness and mass on the free degrees of freedom and is zero at the "
     "supports; as many modes as asked for are reported, up to the number of free degrees of freedom, starting with the lowest, with circular frequency, frequency and period those of w, and "
     "a node's mode is read from its own rows.",
     ["inputs"], "symbolic member and mass properties, any number of modes up to the bound",
     "the tests compare a few frequencies of one model",
     [CORE + "fe_solver/dynamic.py", CORE + "fe_model/assembly.py", CORE + "fe_post/node.py"], [("ModalSolver", CORE + "fe_solver/dynamic.py")], ["mode and frequency result files"])
prop("C13", "Result queries return the solved quantities of the object asked for",
     "Nodal displacement, reaction and load queries and member end-force and deformation queries return, for every node and member, the entries of the stored "
     "solution that belong to it. Reactions are the assembled stiffness times the displacements less the applied loads, zero at free nodes; a member's end forces are its "
     "condensed stiffness times its local end displacements less its condensed fixed-end loads; its deformation interpolates the end displacements in "
     "the member's own order.",
     ["inputs", "configurations"], "symbolic models and loads, every node and member of them",
     "tests read one node or member",
     [CORE + "fe_post/beam.py", CORE + "fe_post/node.py", CORE + "fe_post/structure.py", CORE + "__init__.py"], [("ResultResolver", CORE + "fe_post/")],
     ["Api.result_get_*"])
prop("C14", "The programming interface forwards every argument unchanged",
     "Each modelling call of the public interface has the effect its name and arguments say on the named object - materials, sections, nodes, members, "
     "shells, releases, restraints, loads, cases - reports success truthfully, and leaves everything else alone.",
     ["inputs", "histories"], "all argument values of each call",
     "tests call a small subset with fixed numbers and never read the values back",
     [CORE + "__init__.py"], [("Api", CORE + "__init__.py")], ["Api"])
prop("C15", "The model keeps one consistent record per node and element",
     "After any sequence of additions and repeated additions every name maps to exactly one node or element with its own index, indices are dense, duplicates "
     "are recognised by position or connectivity in either direction where asked for, re-adding a name keeps its index, and lookups return what was stored.",
     ["inputs", "histories"], "every sequence of up to four additions with arbitrary coordinates and name coincidences",
     "tests add distinct nodes and members only",
     [CORE + "fe_model/model.py"], [("Model.add_node", CORE + "fe_model/model.py")], ["Model.nodes", "Model.get_*"])
prop("C16", "The triangular shell element is objective and passes the patch test",
     "For every triangle in any plane and either way round the element's axes are right-handed with z along the normal, its stiffness is symmetric, produces no force under "
     "rigid-body motion, bends as the discrete Kirchhoff triangle and stretches as the constant-strain triangle of its thickness, the two independent of each other; a "
     "plate section has no membrane and a membrane section no bending stiffness, and the element's area is the triangle's.",
     ["inputs"], "all non-degenerate triangles and material constants in bounds",
     "tests evaluate a single triangle",
     [CORE + "fe_model/element/tria/", CORE + "fe_model/meta/"], [("Tria elements", CORE + "fe_model/element/tria/")], ["integrate_K", "transform_matrix"])
prop("C17", "The quadrilateral shell element is objective and passes the patch test",
     "For every convex flat quadrilateral in any plane and either way round the element's axes are right-handed with z along the normal, its stiffness is symmetric, produces no "
     "force under rigid-body motion, reproduces uniform membrane strain exactly, bends as the discrete Kirchhoff quadrilateral and stretches as the generalised conforming membrane with drilling "
     "rotations; a plate section has no membrane and a membrane section no bending stiffness, and the element's area is the quadrilateral's.",
     ["inputs"], "all convex quadrilaterals and material constants in bounds",
     "tests evaluate a single quadrilateral",
     [CORE + "fe_model/element/quad/", CORE + "fe_model/meta/"], [("Quad elements", CORE + "fe_model/element/quad/")], ["integrate_K", "transform_matrix"])
prop("C18", "Unit scaling of the application layer is consistent",
     "A quantity entered in any unit system and read back in any other is the same physical quantity, for every kind of quantity the application stores: joint coordinates and "
     "the tolerance, material constants, section sizes and constants, loads on joints and frames, results. The database holds N and m; joints are looked up in the current unit; "
     "strains, temperatures and periods do not change with the unit.",
     ["inputs", "configurations"], "every value and every pair of the four supported units",
     "no test reads a value back in another unit system",
     [H + "app/general/"], [("unit scales", H + "app/general/model.py"), ("accessors", H + "app/general/object/"), ("results", H + "app/general/result/")],
     ["Model accessors", "database records"])
prop("C19", "Design and response spectra follow the code's formula and Duhamel's integral",
     "The design response spectrum equals the code's formula at every tabulated period, is continuous across its branches and scales linearly with the maximum influence "
     "coefficient. The response spectrum of a wave is the peak, of either sign, of Duhamel's damped response, with pseudo velocity and acceleration consistent with "
     "it; a scaled wave has exactly the peak asked for, of either sign.",
     ["inputs"], "all periods, damping ratios, site periods, influence coefficients; every wave of up to four samples",
     "no test evaluates the spectra near branch points",
     [H + "app/design/GB/seismic/spectrum.py", H + "app/seismic/wave2spec.py"], [("GB50010", H + "app/design/GB/seismic/spectrum.py")], ["spectrum values"])
prop("C20", "Time-history integration reproduces the equations of motion",
     "Each step of the time-history solver satisfies the equation of motion in central differences for the assembled mass and stiffness, Rayleigh damping with the "
     "case's ratio at its two anchor periods, and the load at that step, from rest, with supports held; there are as many steps as the shortest load curve has points, results are put back at their own degrees "
     "of freedom, and sine and cosine curves have the points asked for.",
     ["inputs", "histories"], "symbolic model, curve values, step and damping ratio; the first steps",
     "the tests run one history and compare nothing",
     [CORE + "fe_solver/dynamic.py", H + "common/curve.py", CORE + "fe_model/assembly.py"], [("TimeHistorySolver", CORE + "fe_solver/dynamic.py")], ["time-history result files"])
prop("C21", "Member interpolation matches the end displacements",
     "The interpolation of a member returns the end displacements and slopes at its ends and reproduces rigid motions and constant curvature in between, and its derivative is the derivative of the interpolation.",
     ["inputs"], "every station in [0,1], every length and end displacement",
     "no test calls the interpolation",
     [LINE + "beam.py", CORE + "fe_post/beam.py"], [("Beam.interpolate", LINE + "beam.py")], ["Beam.interpolate", "Beam.interpolate1"])
prop("C22", "Isotropic material constants are mutually consistent",
     "For every modulus and Poisson ratio the shear modulus, Lame constants and constitutive matrix of an isotropic material are those of linear elasticity, and the elastic matrix inverts the compliance.",
     ["inputs"], "every E > 0, Poisson ratio in [0, 0.5)",
     "tests read G for one material",
     [CORE + "fe_model/material/isotropy.py"], [("IsotropicMaterial", CORE + "fe_model/material/isotropy.py")], ["IsotropicMaterial.G/lamda/D"])
prop("C23", "Element kernels compute their derivations, from correct building blocks",
     "Each compiled element kernel (T9, DKT, DKQ, GQ12, TMQ bending and shear) returns exactly the symmetric matrix its symbolic derivation in the repository "
     "describes, whatever the corners, the point, the material and the thickness. The linear and cubic interpolation functions take their values "
     "and slopes at their own ends only, J2D is the Jacobian of the mapping, operator_dot applies a matrix of operators and numbers to functions, L2 and L3 are the "
     "small-strain operators and the isotropic tensor is Hooke's law.",
     ["inputs"], "every corner position, point, E > 0, Poisson ratio and thickness of each kernel; every quadratic field and interpolation coordinate",
     "no test compares a generated kernel with the expression it was generated from, and none evaluates the interpolation functions or operators",
     [CORE + "fe_model/meta/"], [("interpolation functions, J2D, operators and derivations", CORE + "fe_model/meta/"),
                                 ("generated C", CORE + "fe_model/meta/plates/")],
     ["autofunc_c of each kernel", "BDB", "N1D", "N2D", "J2D", "operator_dot", "L2", "L3", "sig"])
prop("C24", "The thick-plate quadrilateral is objective and passes the patch test",
     "At every point of a convex flat quadrilateral the bending and shear integrands of the TMQ plate element are symmetric and give no force for any rigid motion; "
     "a uniform curvature produces exactly the moments of plate theory and no shear. Its stiffness is the sum of the two, integrated over the element, in any plane.",
     ["inputs"], "all points, sizes and material constants, for the shapes in bounds",
     "no test uses this element",
     [CORE + "fe_model/element/quad/TMQ.py", CORE + "fe_model/meta/plates/TMQ/"], [("TMQ", CORE + "fe_model/element/quad/TMQ.py"),
      ("metaTMQb, metaTMQs", CORE + "fe_model/meta/plates/TMQ/")], ["TMQ.integrate_K", "TMQ.get_binary_BDB"])

prop("C25", "The application model keeps one record per object",
     "Adding a material, section, load case, joint or frame stores one record under its name with the data given; taken names and unknown materials, sections or joints are refused "
     "and what was saved stays as it was. Frames share a joint if and only if it is within the tolerance, and keep their direction. Setting a restraint replaces the former one; "
     "deleting removes that object and what belongs to it only. A model saved and reopened is the same, and what was not saved is not there.",
     ["inputs", "histories"], "all coordinates and offsets; every kind of object added, added again, changed, deleted, saved and reopened",
     "no test uses the application model",
     [H + "app/general/"], [("accessors", H + "app/general/object/"), ("tables", H + "app/general/orm.py"), ("files", H + "app/general/db.py")],
     ["Model accessors", "database records"])
prop("C26", "Geometry exchanged by DXF is the same geometry",
     "Importing a drawing turns every line on the layers asked for (all of them when none is named) into a frame with exactly these ends in the unit of the model and the section asked for, "
     "joined where ends meet each other or joints already there, and leaves everything else as it was. Exporting writes one line per frame with its ends; written and read again the geometry is "
     "the same in any unit. A file that exists is overwritten only when told to; what cannot be read or written is answered False and changes nothing.",
     ["inputs", "histories"], "all end points, line counts, layer selections, units; models that are empty or not",
     "no test reads or writes a drawing",
     [H + "app/general/io/dxf.py", H + "app/general/object/frame.py"], [("import_dxf/export_dxf", H + "app/general/io/dxf.py"), ("add_frame_batch", H + "app/general/object/frame.py")],
     ["frames and joints of the model", "entities of the drawing"])
prop("C27", "The viewers draw the model and its results",
     "A viewer opened on a saved model draws every node where it is, every beam from its start to its end and every shell through its four corners, marks every restrained direction and no other "
     "at its node, and draws every nodal load as an arrow that ends at its node, points along the force and has the length of the force on one scale. The deformed model has every node "
     "moved by the scale times its displacement and is coloured by the component asked for, node by node; displacements do not add up, and resetting draws the model again. However it is shown, all of the model is and the camera looks at its middle. A button shows or hides what it names "
     "and nothing else, and its label says what the next press does.",
     ["inputs", "histories"], "all places, sizes, loads, displacements, scales and restraints; sequences of button presses",
     "no test opens a viewer",
     [H + "app/viz/viz_core/__init__.py", H + "app/viz/viz_core/model_basic.py", H + "app/viz/viz_core/model_load.py", H + "app/viz/viz_core/result_deformation.py"],
     [("ViewerBase", H + "app/viz/viz_core/__init__.py"), ("LoadViewer", H + "app/viz/viz_core/model_load.py"), ("ResultViewer", H + "app/viz/viz_core/result_deformation.py")],
     ["what is handed to the plotter"])


NOTE = ("Bounded symbolic execution: the real Python source (and the C element kernels) is re-encoded on every run and z3 decides each "
        "assertion for all values of the symbolic inputs on every path within the bounds in the evidence. Trusted: the encoder, the stand-ins for "
        "numpy/scipy and exact reals for floats; candidate counterexamples and one witness per path are replayed on the real code.")
TECH = "symbolic execution of the real source with z3 deciding each assertion over all real inputs"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=p["observe"], hook_needed=None)), ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "harness", i + ".py")) and not p["na"]:
            checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                           "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                           "evidence_file": "evidence/%s.json" % i, "technique": p["technique"] or TECH,
                           "level": "model_checking", "level_note": p["level_note"] or NOTE})
        else:
            na.append(dict(property=i, reason=p["na"] or "no check built yet"))
    json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
                   notes="All checks are solver-based (z3); no hooks in /repo."),
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)


main()
