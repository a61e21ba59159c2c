"""Writes properties.jsonl and MANIFEST.json from the list below (checks/<id>.py present = claimed)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                   why_tests_cant=why, anchors=a), technique, note))


E2E = "property-based testing of the real executable (Hypothesis; generated meshes and settings)"

prop("C01", "Magnetization keeps unit length, moves in its tangent plane, only where magnetic",
     "After every time step of every run the reduced magnetization of each node of a magnetic region "
     "is a unit vector, its velocity is orthogonal to the magnetization at the start of the step, and "
     "the new direction is the normalized sum of the old one and step times velocity. Nodes that "
     "belong to no magnetic region stay undefined (nan) in every saved configuration, whatever the "
     "initial magnetization says, and never make another node undefined. The local basis used at a "
     "node is orthonormal and orthogonal to the magnetization for every unit vector and every angle.",
     ["inputs", "histories"], "all unit vectors, rotation angles, velocities, steps; all generated "
     "problems and step sequences, with and without non-magnetic regions",
     "unit tests evaluate the node update on a few fixed vectors; whole runs are never checked node "
     "by node", ["src/node.h", "src/solver.cpp", "src/linear_algebra.cpp", "src/mesh.h"],
     [("node update and basis", "src/node.h"), ("mask of the non-magnetic unknowns", "src/solver.cpp"),
      ("initial distribution", "src/mesh.h")],
     "property-based testing: node-level algebraic oracle in process, plus whole runs checked node by "
     "node", "random vectors incl. near-axis ones; runs of a few steps on small meshes")

prop("C02", "Iterative linear solvers return solutions that satisfy the system, or say so",
     "Whenever one of the iterative solvers (symmetric or not, with or without prescribed values) "
     "reports convergence, the vector it returns solves the system on the free unknowns to the "
     "requested relative tolerance and holds the prescribed values exactly (the initial guess being "
     "zero on the prescribed unknowns, as all callers have it). When it does not report "
     "convergence it has said why, it never exceeds the iteration limit, never alters the matrix or "
     "the right-hand side, and always terminates. Well-conditioned systems do converge, to the "
     "solution of a direct dense solver.",
     ["inputs"], "all sparse systems: symmetric positive, non-symmetric, singular, zero or huge "
     "right-hand sides, any initial guess, any set of prescribed unknowns, any tolerance and limit",
     "unit tests solve a handful of fixed systems and compare a few digits",
     ["src/algebra/cg.h", "src/algebra/bicg.h", "src/algebra/iter.h", "src/algebra/algebra.h"],
     [("conjugate gradient", "src/algebra/cg.h"), ("BiCGSTAB", "src/algebra/bicg.h"),
      ("convergence monitor", "src/algebra/iter.h")],
     "property-based testing against dense linear algebra (residual and direct-solve oracle)",
     "systems up to 24 unknowns")

prop("C03", "Sparse matrix behaves as the dense matrix it represents",
     "For every sequence of accumulations, assignments, clears, reads and products within its declared "
     "shape, the sparse matrix gives the same entries and the same matrix-vector products as a dense "
     "matrix would; clearing keeps the shape and zeroes the values. The vector operations used with it (products, sums, norms, scaling) are "
     "those of plain arithmetic. Concurrent accumulation from "
     "several threads loses nothing. The diagonal preconditioner is the inverse of the diagonal.",
     ["histories", "schedules"], "all shapes, operation sequences and thread interleavings",
     "unit tests run one fixed short sequence, single-threaded",
     ["src/algebra/sparseMat.h", "src/algebra/algebra.h"],
     [("sparse matrix", "src/algebra/sparseMat.h")],
     "stateful model-based testing against a dense model, plus repeated parallel accumulation",
     "shapes up to 30 rows, sequences up to 60 operations, 8 threads")

prop("C04", "Finite element geometry, interpolation and quadrature are exact on linear data",
     "For every non-degenerate tetrahedron or triangle, in every vertex order, the quadrature weights "
     "are those of a rule exact on cubic polynomials and sum to the volume or area, interpolated "
     "values and gradients of affine fields are exact, and the triangle normal is the unit normal of "
     "its vertex order. Tetrahedron results do not depend on the vertex order; degenerate elements are "
     "reported instead of used. Element charges integrate to the divergence of the magnetization.",
     ["inputs"], "all vertex positions, orders, affine and cubic fields",
     "unit tests use two or three fixed elements",
     ["src/tetra.h", "src/tetra.cpp", "src/triangle.h", "src/triangle.cpp", "src/element.h"],
     [("tetrahedron", "src/tetra.h"), ("triangle", "src/triangle.h")],
     "property-based testing against exact polynomial integrals and affine fields",
     "single elements, coordinates over six orders of magnitude")

prop("C05", "The computed trajectory is the LLG tangent-plane scheme for the declared problem",
     "For every mesh, material, field and initial state, each time step computes the velocity and new "
     "magnetization that the discretized Landau-Lifshitz-Gilbert equation prescribes: exchange, "
     "uniaxial, cubic and surface anisotropy, demagnetizing and applied fields, damping, per-region "
     "parameters, and the second-order corrections of the scheme. This holds for one step and for any "
     "chain of steps, with several magnetic and non-magnetic regions, and whatever the node numbering "
     "and element orientation in the mesh file.",
     ["inputs", "histories", "configurations"], "all generated problems (mesh, regions, surfaces, "
     "materials, fields, textures), all step sizes for which the step is accepted, 1 to 4 steps",
     "unit tests compare single elements with a copy of old code; no test runs the assembled scheme",
     ["src/tetra.cpp", "src/triangle.cpp", "src/solver.cpp", "src/linear_algebra.cpp", "src/fem.h",
      "src/time_integration.cpp"],
     [("element contributions", "src/tetra.cpp"), ("surface anisotropy", "src/triangle.cpp"),
      ("assembly and solve", "src/solver.cpp")],
     "differential property-based testing of the executable against an independent dense reference",
     "meshes up to 24 tetrahedra, 1-4 steps; ScalFMM replaced by an exact direct sum")

prop("C06", "The applied field is the one the settings describe, at every time and place",
     "At every output time the reported applied field is the configured flux density divided by the "
     "vacuum permeability, evaluated at that time, and the dynamics and the Zeeman energy see that "
     "same field at every point. Constants, one expression per component, a function of time, and a "
     "product of a space function and a time function that describe the same field give the same run.",
     ["inputs", "configurations"], "all field expressions in all four forms, all times, meshes with "
     "magnetic and non-magnetic regions",
     "tests only parse expressions; no test drives a run with a time- or space-dependent field",
     ["src/settings.cpp", "src/settings.h", "src/mesh.cpp", "src/energy.cpp", "src/save.cpp",
      "src/time_integration.cpp"],
     [("field parsing", "src/settings.cpp"), ("space field cache", "src/mesh.cpp"),
      ("field columns", "src/save.cpp")],
     "property-based testing: reference field model and metamorphic equivalence of the forms",
     "polynomial and trigonometric fields, up to 3 steps")

prop("C07", "Reported energies are the integrals of the saved state, at the saved time",
     "In every row of the evolution file the exchange, anisotropy (volume and surface), demagnetizing "
     "and Zeeman energies equal the integrals of the corresponding energy densities for that row's "
     "magnetization, time, geometry and materials, and the total is their sum. Only magnetic regions "
     "contribute; the values do not depend on node numbering, element order or orientation, or on "
     "which surfaces are named.",
     ["inputs", "histories"], "all generated problems, at the initial time and after steps",
     "unit tests evaluate energies of single elements; nothing checks the sums over a mesh or the time",
     ["src/energy.cpp", "src/tetra.cpp", "src/triangle.cpp", "src/save.cpp", "src/fem.h"],
     [("energy sums", "src/energy.cpp"), ("densities", "src/tetra.cpp")],
     "differential property-based testing against exact integrals computed independently",
     "meshes up to 24 tetrahedra")

prop("C08", "Demagnetizing potential is the magnetostatic potential of the declared charges",
     "The saved potential at every magnetic node is the sum of the contributions of all volume charges "
     "and of all surface charges, computed exactly for the triangles that touch the node, where the "
     "surface charge on an interface is the jump of the magnetization and surfaces marked so carry no "
     "charge. The potential is linear in the magnetization, changes sign with it, and follows the body "
     "under translation and rescaling.",
     ["inputs"], "all generated meshes, several regions, interfaces, surface orientations, textures",
     "unit tests check charges of single elements; the assembly over a mesh, jumps and corrections are "
     "only checked on one fixed sphere-like mesh",
     ["src/fmm_demag.h", "src/triangle.cpp", "src/tetra.cpp", "src/mesh.cpp"],
     [("charges and potential", "src/fmm_demag.h"), ("analytic correction", "src/triangle.cpp"),
      ("jump of Ms", "src/mesh.cpp")],
     "differential property-based testing against direct summation and exact triangle integrals; "
     "metamorphic relations", "exact sum instead of ScalFMM: the accuracy of ScalFMM is not judged")

prop("C09", "Mesh import keeps every node, element and region of the file",
     "For every valid mesh file, in text or binary format 2.2 or text 4.1, the simulated body has "
     "exactly the file's nodes at the file's positions times the length unit, exactly the tetrahedra "
     "of the declared volume regions, and outputs list the nodes in file order. Total volume, region "
     "volumes and per-node output follow the file whatever the numbering, ordering, format or position "
     "of the body.",
     ["inputs"], "all generated meshes x formats x node orders x length units x positions",
     "unit tests read three fixed files", ["src/read.cpp", "src/mesh.cpp", "src/mesh.h",
                                          "src/save.cpp"],
     [("mesh reading", "src/read.cpp"), ("node sorting", "src/mesh.cpp")],
     "property-based testing: generated mesh files, oracle is the generator's own mesh",
     "meshes up to 60 tetrahedra")

prop("C10", "Mesh topology errors are detected; missing surfaces created, never wrong ones",
     "A mesh whose declared surfaces are duplicated, detached, internal to one region, or whose faces "
     "are shared by more than two tetrahedra is rejected with a message and a non-zero status; every "
     "other mesh is accepted. On an accepted mesh each free face and each interface between two "
     "regions carries exactly one surface element, created if the file has none, and the results are "
     "the same whether such faces are named in the file or not, in either orientation.",
     ["inputs"], "all generated meshes with every kind of injected topology fault, all subsets of "
     "named surfaces, both orientations",
     "unit tests cover six fixed small meshes",
     ["src/mesh.cpp"], [("topology control", "src/mesh.cpp")],
     "property-based testing with fault injection into valid meshes and metamorphic comparison",
     "meshes up to 24 tetrahedra, one fault per mesh")

prop("C11", "A saved configuration can be restored, and restarting continues the run",
     "Reading back a configuration file restores time, magnetization and node order exactly as "
     "printed, for every mesh, including bodies with non-magnetic regions and runs with spin "
     "accumulation. A file that does not match the mesh, is truncated or is not such a file is "
     "rejected with a message instead of being partly used. A restarted run is the run which starts "
     "at rest, at the saved time, from the saved magnetization.",
     ["inputs", "histories", "crash_points"], "all problems, all saved steps, all truncation points and "
     "single-field corruptions of the file",
     "no test reads or writes a configuration file",
     ["src/save.cpp", "src/read.cpp", "src/fem.h", "src/settings.cpp"],
     [("writing", "src/save.cpp"), ("reading", "src/read.cpp")],
     "round-trip property-based testing with the executable, plus truncation and corruption faults",
     "runs up to 4 steps; corruption of one field or one truncation point per case")

prop("C12", "Settings are layered and dumped faithfully",
     "The effective settings are the built-in defaults, overridden by the user's defaults file, "
     "overridden by the settings file, key by key, each value converted and normalized as documented. "
     "The settings printed by the verification mode are themselves a valid settings file that "
     "describes the same simulation (up to the six digits printed), so that dumping is idempotent, for "
     "every region name, file name, text and number.",
     ["inputs", "configurations"], "all settings documents over the documented keys, in one or two "
     "layers", "tests never print settings nor combine layers",
     ["src/settings.cpp", "src/settings.h", "src/default-settings.yml", "src/main.cpp"],
     [("reading", "src/settings.cpp"), ("dumping", "src/settings.cpp")],
     "model-based property testing: an independent model of the layered settings against the dump; "
     "dump round-trip", "one or two layers, up to three regions")

prop("C13", "Invalid input is rejected with a message, never a crash or a silent run",
     "Whatever the settings file, user defaults, mesh file or configuration file contain, the program "
     "terminates by itself with status 0 or with an error message and status 1: no memory error, "
     "uncaught exception or hang. Values documented as invalid (wrong types and shapes, unknown "
     "columns, regions absent from the mesh, non-positive length unit or time steps, both current and potential on a "
     "surface, ...) are rejected.",
     ["inputs", "fault_sequences"], "all byte-level and structure-level corruptions of valid inputs",
     "tests only feed valid input", ["src/settings.cpp", "src/read.cpp", "src/expression_parser.cpp",
                                    "src/save.cpp", "src/main.cpp", "src/meshUtils.h"],
     [("settings validation", "src/settings.cpp"), ("mesh validation", "src/read.cpp")],
     "structured mutation fuzzing of settings, mesh and configuration files through the executable",
     "oracle: exit status, signals, timeouts, and a documented table of invalid values")

prop("C14", "Expressions and functions in the settings evaluate as written mathematics",
     "Every expression over the documented variables and the mathematical functions made available "
     "(including shifted, hyperbolic and inverse hyperbolic ones) evaluates to the value of that "
     "mathematics, to at least seven significant digits, on the whole domain of each function. Evaluation is repeatable, "
     "independent of earlier evaluations, and a script error is reported as such.",
     ["inputs", "histories"], "all expression trees over the grammar, all arguments incl. tiny and huge "
     "ones, all evaluation histories", "unit tests evaluate a few fixed expressions",
     ["src/expression_parser.cpp", "src/expression_parser.h"],
     [("function library", "src/expression_parser.cpp")],
     "differential property-based testing against an independent evaluator",
     "expression trees up to depth 4; arguments from 1e-12 to 1e300")

prop("C15", "Initial magnetization is the given expression, normalized, at magnetic nodes",
     "The initial state of a run has, at every node of a magnetic region, the direction given by the "
     "configured constants, expressions or function of the position in metres, normalized to unit "
     "length, and undefined values elsewhere. A function that takes the list of regions receives "
     "exactly the names of the volume regions the node belongs to.",
     ["inputs"], "all expressions, functions and region layouts, all node numberings",
     "no test runs the initialization", ["src/mesh.h", "src/settings.h", "src/expression_parser.cpp"],
     [("initial distribution", "src/mesh.h")], E2E, "meshes up to 60 tetrahedra, up to 4 regions")

prop("C16", "Time stepping hits every output time, respects its limits, and ends",
     "Every run produces one row per output time, at exactly the initial time plus a whole number of "
     "output steps, and stops at the final time; no accepted step exceeds the maximum step or changes "
     "the magnetization by more than the configured limit. When the solver cannot converge or the "
     "change is too large the step is retried smaller from the same state, and only a step below the "
     "minimum aborts the run, with a non-zero status and message.",
     ["histories", "configurations", "fault_sequences"], "all output steps, durations, step limits, "
     "change limits, and solver failures", "no test runs the integration loop",
     ["src/time_integration.cpp", "src/time_integration.h"],
     [("step control", "src/time_integration.cpp")],
     E2E + ", with solver failures provoked by iteration limits; invariants over the step history",
     "runs up to some hundred steps")

prop("C17", "Averages and other reported observables are those of the saved state",
     "In every row of the evolution file, for the whole body and for each region named in a column, the "
     "averages of the magnetization and of its rate of change are volume averages over the magnetic "
     "material, the maximum angle is that between neighbouring nodes, the Thiele length is the ratio "
     "of twice the cross-section to the integral of the squared gradient along z, and time, step and "
     "iteration number are those of the row.",
     ["inputs", "histories"], "all generated problems, regions, and column lists",
     "one unit test computes the Thiele length of one mesh; averages are never checked",
     ["src/mesh.cpp", "src/mesh.h", "src/save.cpp"],
     [("averages", "src/mesh.cpp"), ("columns", "src/save.cpp")],
     "differential property-based testing against an independent computation from the saved nodal "
     "values", "meshes up to 60 tetrahedra, up to 4 regions")

prop("C18", "Electrostatic potential solves the conduction problem",
     "With a current density imposed on one surface and a potential on another, the computed potential "
     "has the imposed value on every node of the latter, satisfies current conservation in every "
     "region with its own conductivity, and carries the imposed total current. It is unaffected by the "
     "numbering, is affine along a uniform bar, scales with the current and shifts with the imposed "
     "potential; it is saved in the output directory. Anything but exactly one surface with a current "
     "density and its polarization and one with a potential is rejected.",
     ["inputs", "configurations"], "all meshes, conductivities, currents and potentials, all sets of "
     "boundary conditions", "no test solves an electrostatic problem",
     ["src/electrostatSolver.cpp", "src/electrostatSolver.h", "src/algebra/cg.h"],
     [("electrostatics", "src/electrostatSolver.cpp")],
     "differential property-based testing against a dense finite element solution; metamorphic "
     "relations", "meshes up to 36 tetrahedra")

prop("C19", "Spin accumulation solves the diffusion problem for the current magnetization",
     "With spin accumulation enabled, the saved accumulation at every step solves the spin diffusion "
     "equation for the magnetization of that step, with the configured diffusion, flip and precession "
     "lengths, polarization, currents and boundary values, and does not depend on earlier steps. Its "
     "torque enters the magnetization dynamics. Problems without exactly one imposed accumulation, or with "
     "unset or out of range transport parameters, are rejected before any step.",
     ["inputs", "histories"], "all meshes and material sets, several steps",
     "no test solves a spin diffusion problem", ["src/spinAccumulationSolver.cpp", "src/tetra.cpp",
                                                "src/fem.h"],
     [("spin diffusion", "src/spinAccumulationSolver.cpp"), ("torque", "src/tetra.cpp")],
     "differential property-based testing against a dense reference, step by step",
     "meshes up to 24 tetrahedra, up to 4 steps")

prop("C20", "Results do not depend on numbering, file format, seed, threads or frame",
     "Two descriptions of the same physical problem give the same rows and the same nodal values up to "
     "solver precision: renumbered nodes and elements, another mesh file format, another length unit, "
     "a translated body, another random seed, another number of threads. A body, its textures, axes "
     "and fields rotated together give rotated results (cubic anisotropies excepted: recorded finding).",
     ["inputs", "schedules", "configurations"], "all generated problems x transformations x seeds x "
     "thread counts", "no test compares two runs",
     ["src/mesh.cpp", "src/read.cpp", "src/linear_algebra.cpp", "src/solver.cpp", "src/fmm_demag.h"],
     [("node sorting", "src/mesh.cpp"), ("random basis", "src/linear_algebra.cpp"),
      ("parallel assembly", "src/solver.cpp")],
     "metamorphic property-based testing of the executable", "runs of up to 3 steps")

prop("C21", "Energy decays under damping; single-domain precession follows the analytic law",
     "In a constant applied field the total energy never increases from one row to the next, beyond "
     "the accuracy of the scheme, and an equilibrium stays an equilibrium. A uniformly magnetized body "
     "with charges suppressed follows the analytic Landau-Lifshitz-Gilbert solution: precession "
     "frequency, sense of rotation, and damping towards the field.",
     ["inputs", "histories"], "all materials, textures, fields and damping values, hundreds of steps",
     "only slow scripts outside the test suite compare one macrospin run",
     ["src/time_integration.cpp", "src/tetra.cpp", "src/energy.cpp", "src/config.h.in"],
     [("integration", "src/time_integration.cpp"), ("element terms", "src/tetra.cpp")],
     "property-based testing: invariant over the energy history, analytic solution as oracle",
     "runs of 20 to 200 steps on small meshes")

prop("C22", "Output files have the requested contents, in the requested places",
     "Every run writes an evolution file whose header lists exactly the requested columns and whose "
     "rows hold one number per column, and configuration files at exactly the requested multiples of "
     "the output step, named after the run and placed in the output directory, which is created if "
     "needed. Headers carry the user's metadata, the time, and the column names; numbers are printed "
     "with the promised precision.",
     ["inputs", "configurations"], "all column lists, periods, names, directories and metadata",
     "no test looks at an output file", ["src/save.cpp", "src/settings.cpp", "src/main.cpp",
                                        "src/time_integration.cpp"],
     [("columns and files", "src/save.cpp"), ("headers", "src/settings.cpp")], E2E,
     "runs of up to 12 output steps")

prop("C23", "Recentering acts along the configured direction, only past its threshold",
     "With recentering enabled, a run in which the average magnetization along the configured "
     "direction stays below the threshold is identical to a run without recentering. When the "
     "threshold is passed at the end of a step, the magnetization is translated along that direction, "
     "X, Y or Z alike, by the distance that brings a sharp wall back to the middle of the magnetic body: "
     "every magnetic node takes the value of the magnetic node nearest to its translated position, the "
     "values of the ends filling in. Magnetization stays of unit length, and rows, energies and later "
     "steps are those of the translated state, starting at rest. Without a wall (both ends magnetized "
     "alike) the run stops with a message.",
     ["inputs", "configurations", "histories"], "all directions, thresholds, wall positions, bodies",
     "no test enables recentering", ["src/recentering.cpp", "src/fem.h", "src/time_integration.cpp",
                                    "src/linear_algebra.h"],
     [("translation", "src/recentering.cpp"), ("trigger", "src/time_integration.cpp")],
     E2E + ": differential against the run without recentering, and wall-position oracle",
     "bodies of up to 6 cells, up to 3 steps")

prop("C24", "Run statistics are the statistics of the steps that were made",
     "The summary printed at the end of a run counts every accepted and every failed step exactly "
     "once, and gives the geometric mean and relative spread of the step sizes and magnetization "
     "changes of those steps and the largest angle met. The statistics of any sequence of positive "
     "samples match a two-pass computation, whatever their range and order.",
     ["inputs", "histories"], "all sample sequences; all runs with accepted, rejected and failed steps",
     "one unit test feeds one sequence", ["src/log-stats.h", "src/time_integration.cpp"],
     [("running statistics", "src/log-stats.h"), ("summary", "src/time_integration.cpp")],
     "property-based testing against a two-pass reference; runs compared with their verbose log",
     "up to 200 samples; runs up to 60 steps")

prop("C25", "Command line tools convert and summarise without losing or altering data",
     "The tools that merge, convert, archive, generate or summarise mesh and configuration files keep every "
     "node, value and time of their inputs. fg-merge-sol and fg-sol2vtk give the same nodal values on the same "
     "mesh, in the same order. A run archived by fg-sol2hdf5 and extracted by fg-h5extract gives back the "
     "evolution table, the mesh, the settings and every configuration with its columns, time and header, and "
     "a configuration that came back can start a simulation. fg-gensol writes, for every node of the mesh, the "
     "normalised magnetization of the formulas given, in a file the simulator accepts. fg-mesh-stat lists the "
     "regions of the mesh with their surfaces and volumes, and their numbers of elements in verbose mode. fg-plot draws "
     "one arrow for each of the nodes selected (all, those that satisfy the predicate, or the given percentage).",
     ["inputs"], "all meshes, settings and configurations produced by runs, with or without spin diffusion",
     "the tools have no tests", ["tools/fg-merge-sol", "tools/fg-sol2vtk", "tools/fg-mesh-stat",
                                "tools/fg-gensol", "tools/fg-sol2hdf5", "tools/fg-h5extract", "tools/fg-plot"],
     [("conversion tools", "tools/"), ("archiving", "tools/fg-sol2hdf5"), ("extraction", "tools/fg-h5extract")],
     "property-based testing of the tools on generated runs: round trips, and the source files as oracle",
     "meshes up to 60 tetrahedra; stand-ins for the vtk, h5py, meshio and matplotlib libraries")

prop("C26", "Python helpers produce files the simulator accepts and that say what was asked",
     "Meshes written by the Python mesh maker (ellipsoid, cylinder, tube, cuboid, icosahedron...) have the requested shape, "
     "dimensions, volume, region and surface names, with surfaces that are the closed skin of the body; sub-surfaces of "
     "a cuboid partition its skin. Settings written by the settings maker contain exactly the recorded values, "
     "and the simulator accepts both and uses those values. fg-configurator writes valid settings holding the "
     "identity entered, whatever its characters, and later runs write it in the headers of their files.",
     ["inputs"], "all requested shapes, sizes, names and parameters", "the modules have no tests",
     ["python-modules/meshMaker.py", "python-modules/settingsMaker.py", "python-modules/core.py", "tools/fg-configurator"],
     [("mesh maker", "python-modules/meshMaker.py"), ("settings maker",
                                                      "python-modules/settingsMaker.py"), ("configurator", "tools/fg-configurator")],
     "property-based testing of the modules, checked by reading back and by the executable",
     "small meshes")

prop("C27", "An interrupted run leaves complete, restartable output",
     "When a run receives a polite termination signal at any moment of the integration, it finishes "
     "the current step, writes a complete configuration file of its last accepted state and time if "
     "configuration output is enabled, leaves only complete rows in the evolution file, and ends as "
     "killed by that signal, after saying so. The file written can be used to restart. A signal which "
     "arrives during the very last step does not keep the run from completing.",
     ["crash_points", "schedules"], "all moments of arrival, both signals, with and without "
     "configuration output", "no test sends a signal", ["src/time_integration.cpp", "src/main.cpp",
                                                       "src/save.cpp"],
     [("signal handling", "src/time_integration.cpp")],
     "schedule exploration: signals at generated moments of generated runs, oracle on files and status",
     "delays from 0 to 300 ms")

prop("C28", "Command-line options behave as documented, alone and combined",
     "Help, version, printing of defaults or template, and verification print what they promise and "
     "exit without running, in any combination of options (which precede the settings file); printed defaults and "
     "template are settings files equal to the built-in defaults. Unknown options, missing or extra "
     "arguments give a message and a non-zero status; settings may come from standard input "
     "with the same effect; a fixed seed makes single-threaded runs repeatable.",
     ["inputs", "configurations"], "all option lists", "no test runs the program",
     ["src/main.cpp", "src/settings.cpp"], [("option parsing", "src/main.cpp")],
     "model-based property testing of generated command lines", "up to 5 options")


def main():
    claimed, na = [], []
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, tech, note in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
            i = p["id"]
            if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
                cmd = f"python3-vt lib/pbt.py {i} --tier "
                claimed.append({"property": i, "quick_cmd": cmd + "quick",
                                "thorough_cmd": cmd + "thorough", "technique": tech,
                                "level": "exploration", "level_note": note})
            else:
                na.append({"property": i, "reason": "no check built yet"})
    hooks = {"guard": "none", "enable": "no hooks: the checks build /repo's sources as they are, with "
             "stand-ins for ScalFMM and exit() that live in /verif", "source_commits": []}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3-vt lib/setup.py", "hooks": hooks,
                   "checks": claimed, "not_applicable": na}, f, indent=1)
        f.write("\n")


main()
