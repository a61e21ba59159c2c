"""C25: the tools convert without losing or altering data."""
import json
import os
import re
import shutil

import numpy as np
from hypothesis import strategies as st

import e2e
import fgbuild
import meshgen
import pytools
import sim
import spin
from pbt import Test, require

PROPERTY = "C25"
RULE = "a case is non-trivial when the tool produced its output from the files of a run and the output was compared with them"
ASSUMPTIONS = ["vtk, h5py, meshio, termcolor and matplotlib are not installed: stand-ins keep what the tools give them; gmsh is real",
               "the graphical tool fg-3D is not exercised"]
TARGETS = [(None, {"exe": fgbuild.EXE})]
NAMES = ["run", "my_run", "a b", "r1", "v1.2"]


@st.composite
def runs(draw, spins=True):
    with_spin = spins and draw(st.integers(0, 3)) == 0
    if with_spin:
        c = draw(spin.conductor(steps=(0, 2), max_cells=3))
        c["spin"] = True
    else:
        c = draw(sim.problem(max_cells=4, regions=2, nonmag=True, steps=(0, 3), kinds=("none", "const")))
    c["fmt"] = draw(st.sampled_from(["22a", "41a", "41e"]))
    c["name"] = draw(st.sampled_from(NAMES))
    c["digits"] = draw(st.sampled_from([7, 10, 17]))
    c["meta"] = draw(st.sampled_from([None, {"Author": "Ann"}, {"Note": "time: 3"}]))
    return c


def prepare(c, ctx):
    """runs the simulator; returns (directory, problem, configuration files) or None"""
    P = sim.Problem(c)
    cwd = ctx.fresh_dir()
    s = spin.settings(c, P) if c.get("spin") else P.settings()
    s["outputs"]["file_basename"] = c["name"]
    s["outputs"]["evol_columns"] = ["t", "<Mx>", "E_tot"] if not c.get("one") else ["t"]
    if c["meta"]:
        s["outputs"]["metadata"] = c["meta"]
    if c.get("mesh path"):
        os.makedirs(os.path.join(cwd, "x", "y"), exist_ok=True)
        s["mesh"]["filename"] = os.path.join(cwd, "m.msh") if c["mesh path"] == "abs" else "x/y/../../m.msh"
    s["finite_element_solver"] = {"tolerance": 1e-6, "max(iter)": 3000}
    r = P.run(ctx.artefacts["exe"], cwd, s)
    if r.rc == 1:
        ctx.label("solver failures")
        ctx.nontrivial = False
        return None
    sim.must_run(r)
    sols = sorted(f for f in os.listdir(cwd) if f.endswith(".sol"))
    if c.get("edited"):
        # .sol files may be post-treated: comments, other separators
        for f in sols:
            with open(os.path.join(cwd, f)) as h:
                lines = h.read().split("\n")
            k = max(i for i, q in enumerate(lines) if q.startswith("#"))
            lines = ["# first comment", *lines[:k], "# a comment", *lines[k:]]
            if c["edited"] == "spaces":
                lines = [q if q.startswith("#") else re.sub("\t", "   " if i % 2 else " \t ", q) for i, q in enumerate(lines)]
                lines = ["  " + q if q and not q.startswith("#") and i % 3 == 0 else q for i, q in enumerate(lines)]
            with open(os.path.join(cwd, f), "w") as h:
                h.write("\n".join(lines))
    return cwd, P, sols


def done(r, what, ctx):
    if pytools.unavailable(r):
        ctx.nontrivial = False
        ctx.label("not offered by a stand-in")
        return False
    require(r.rc == 0, "{} failed: {!r}", what, r)
    return True


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(((a == b) | (np.isnan(a) & np.isnan(b))).all())


@st.composite
def merges(draw):
    c = draw(runs())
    c["stdout"] = draw(st.booleans())
    c["order"] = draw(st.integers(0, 3))
    c["edited"] = draw(st.sampled_from([None, None, "comments"]))
    return c


def merged(c, ctx):
    x = prepare(c, ctx)
    if not x:
        return
    cwd, P, sols = x
    sol = sols[c["order"] % len(sols)]
    args = ["m.msh", sol] if c["stdout"] else ["-o", "out.tsv", "m.msh", sol]
    r = pytools.tool("fg-merge-sol", args, cwd)
    if not done(r, "fg-merge-sol", ctx):
        return
    if c["stdout"]:
        with open(os.path.join(cwd, "out.tsv"), "w") as f:
            f.write(r.out)
    h0, r0 = e2e.read_table(os.path.join(cwd, sol))
    h1, r1 = e2e.read_table(os.path.join(cwd, "out.tsv"))
    cols = e2e.header_value(h0, "## columns:").split("\t")
    require(e2e.header_value(h1, "## columns:").split("\t") == ["x", "y", "z", *cols[1:]], "columns {}", e2e.header_value(h1, "## columns:"))
    require([x for x in h0 if not x.startswith("## columns:")] == [x for x in h1 if not x.startswith("## columns:")], "headers {} and {}", h0, h1)
    require(len(r1) == len(P.mesh.nodes), "{} lines for {} nodes", len(r1), len(P.mesh.nodes))
    want = np.hstack([P.mesh.nodes, np.array([[float(y) for y in q[1:]] for q in r0])])
    require(same([[float(y) for y in q] for q in r1], want), "positions and values {} instead of {}", r1, want)


@st.composite
def conversions(draw):
    c = draw(runs())
    c["which"] = draw(st.integers(0, 3))
    c["cols"] = draw(st.one_of(st.just([]), st.lists(st.integers(0, 4), min_size=1, max_size=5)))
    c["out"] = draw(st.sampled_from([None, "grid", "d.e"]))
    c["label"] = draw(st.sampled_from([None, "mag"]))
    c["edited"] = draw(st.sampled_from([None, "comments", "spaces"]))
    c["far"] = draw(st.integers(0, 5)) == 0
    return c


def vtk(c, ctx):
    x = prepare(c, ctx)
    if not x:
        return
    cwd, P, sols = x
    sols = [f for f in sols if "_iter" in f]
    sol = sols[c["which"] % len(sols)]
    if c["far"]:
        # a column which does not exist
        n = len([q for q in open(os.path.join(cwd, sol)) if not q.startswith("#")][0].split())
        r = pytools.tool("fg-sol2vtk", ["m.msh", sol, "1", str(n + c["which"])], cwd)
        require(pytools.unavailable(r) or r.rc != 0, "column {} of {} accepted: {!r}", n + c["which"], n, r)
        require(not os.path.exists(os.path.join(cwd, sol[:-4] + ".vtu")), "a file with column {} of {}", n + c["which"], n)
        ctx.label("no such column")
        return
    r = pytools.tool("fg-sol2vtk", ["m.msh", sol, *map(str, c["cols"]), *(["-o", c["out"]] if c["out"] else []),
                                    *(["--name", c["label"]] if c["label"] else [])], cwd)
    if not done(r, "fg-sol2vtk", ctx):
        return
    path = os.path.join(cwd, (c["out"] or sol[:-4]) + ".vtu")
    require(os.path.exists(path), "no file {}", path)
    with open(path) as f:
        g = json.load(f)
    require(same(g["points"], P.mesh.nodes), "points {} instead of {}", g["points"], P.mesh.nodes)
    require(sorted(sorted(q[1]) for q in g["cells"]) == sorted(sorted(map(int, t)) for t in P.mesh.tets), "cells")
    require(all(q[0] == 10 for q in g["cells"]), "not tetrahedra")
    cols = c["cols"] or [1, 2, 3]
    require(len(g["data"]) == 1, "data {}", list(g["data"]))
    data = list(g["data"].values())[0]
    _, rows = e2e.read_table(os.path.join(cwd, sol))
    rows = ["\t".join(q).split() for q in rows]
    want = [[float(q[k]) for k in cols] for q in rows]
    require(data["n"] == len(cols) and same(data["values"], want), "values {} instead of {}", data["values"], want)
    require(data["name"] == c["label"], "name {}", data["name"])


@st.composite
def archives(draw):
    c = draw(runs())
    c["group"] = draw(st.sampled_from([None, "g1"]))
    c["listed"] = draw(st.booleans())
    c["what"] = draw(st.sampled_from(["all", "all", "evol", "mesh", "settings", "datasets", "one"]))
    c["one"] = draw(st.booleans())
    c["restart"] = draw(st.booleans())
    c["mesh path"] = draw(st.sampled_from([None, None, "abs", "dirs"]))
    c["before"] = draw(st.sampled_from([None, None, "other group", "same group"]))
    return c


def numbers(path):
    head, rows = e2e.read_table(path)
    return head, [[float(x) for x in re.split(r"\s+", " ".join(r).strip())] for r in rows]


def archived(c, ctx):
    """fg-sol2hdf5, then fg-h5extract: the same files come back"""
    x = prepare(c, ctx)
    if not x:
        return
    cwd, P, sols = x
    args = (["-a", c["group"]] if c["group"] else []) + ["arch.h5", "s.yml"] + (sols if c["listed"] else [])
    group = c["group"] or "results"
    first = None
    if c["before"]:
        # the archive exists
        first = "g0" if c["before"] == "other group" else group
        r = pytools.tool("fg-sol2hdf5", ["-a", first, "arch.h5", "s.yml", sols[0]], cwd)
        if not done(r, "fg-sol2hdf5", ctx):
            return
    r = pytools.tool("fg-sol2hdf5", args, cwd)
    if c["group"] and first == group:
        require(pytools.unavailable(r) or r.rc != 0, "the group {} was archived twice: {!r}", group, r)
        ctx.label("existing group")
        sols, first = sols[:1], None        # what was archived first must still be there
    elif not done(r, "fg-sol2hdf5", ctx):
        return
    ctx.label("before: %s" % c["before"])
    out = os.path.join(cwd, "back")
    os.mkdir(out)
    shutil.move(os.path.join(cwd, "arch.h5"), out)
    r = pytools.tool("fg-h5extract", ["--view", "arch.h5"], out)
    require(not pytools.unavailable(r) and group in r.out and "evolFile" in r.out, "contents: {!r}", r)
    if c["group"] and first:
        r = pytools.tool("fg-h5extract", ["-g", first, "-b", "f", "-w", "datasets", "arch.h5"], out)
        if not done(r, "fg-h5extract", ctx):
            return
        f = "fsolFile" + sols[0][sols[0].find("_"):]
        require(os.listdir(out).count(f) == 1, "the group {} is lost: {}", first, os.listdir(out))
        require(same(numbers(os.path.join(out, f))[1], numbers(os.path.join(cwd, sols[0]))[1]), "the group {} was altered", first)
        os.remove(os.path.join(out, f))
    tags = {f: f[f.find("_"):-4] for f in sols}
    what, extra = c["what"], []
    if what == "one":
        extra = ["-w", "solFile" + tags[sols[0]]]
    elif what != "all":
        extra = ["-w", what]
    r = pytools.tool("fg-h5extract", ["-g", group, "-b", "b", *extra, "arch.h5"], out)
    if not done(r, "fg-h5extract", ctx):
        return
    files = set(os.listdir(out)) - {"arch.h5", ".mods"}
    want = {}
    if what in ("all", "evol"):
        want["b.evol"] = c["name"] + ".evol"
    if what in ("all", "mesh"):
        want["b.msh"] = "m.msh"
    if what in ("all", "settings"):
        want["b.yml"] = "s.yml"
    if what in ("all", "datasets"):
        want.update({"bsolFile" + tags[f] + ".sol": f for f in sols})
    if what == "one":
        want["bsolFile" + tags[sols[0]] + ".sol"] = sols[0]
    require(files == set(want), "files {} instead of {}", files, set(want))
    for got, src in want.items():
        a, b = os.path.join(out, got), os.path.join(cwd, src)
        if got.endswith((".msh", ".yml")):
            with open(a) as f, open(b) as g:
                require(f.read() == g.read(), "{} is not {}", got, src)
            continue
        (h1, r1), (h0, r0) = numbers(a), numbers(b)
        require(len(r0) == len(r1) and same(r1, r0), "{}: values {} instead of {}", got, r1[:2], r0[:2])
        for tag in ("## columns:", "## time:", "## settings file:", "## feeLLGood version:"):
            v0, v1 = e2e.header_value(h0, tag), e2e.header_value(h1, tag)
            if tag == "## time:" and v0 is not None:
                require(v1 is not None and float(v0) == float(v1), "{}: {} {} instead of {}", got, tag, v1, v0)
            elif v0 is not None:
                require(v0 == v1, "{}: {} {!r} instead of {!r}", got, tag, v1, v0)
        for k, v in (c["meta"] or {}).items():
            line = f"## {k}: {v}"
            if line in h0:  # the electric potential files carry no metadata
                require(line in h1, "{}: no {} in {}", got, k, h1)
    mags = [f for f in want if "_iter" in f and f.endswith(".sol")]
    if c["restart"] and mags and not c.get("spin"):
        # a configuration which came back starts a simulation
        shutil.copy(os.path.join(cwd, "m.msh"), os.path.join(out, "m.msh"))
        s = P.settings()
        s["initial_magnetization"] = mags[-1]
        s["outputs"] = dict(s["outputs"], file_basename="again", final_time=0, evol_columns=["t"])
        s.pop("initial_time", None)
        e2e.write_yaml(s, os.path.join(out, "again.yml"))
        t0 = e2e.read_sol(os.path.join(cwd, want[mags[-1]]))
        s["outputs"]["final_time"] = float(t0[0])
        e2e.write_yaml(s, os.path.join(out, "again.yml"))
        r = e2e.run(ctx.artefacts["exe"], ["again.yml"], out)
        require(r.rc == 0, "the extracted configuration is not accepted: {!r}", r)
        t1 = e2e.read_sol(os.path.join(out, "again_iter0.sol"))
        require(sim.close(t0[0], t1[0], 1e-9, P.dt), "time {} instead of {}", t1[0], t0[0])
        require(np.nanmax(np.abs(t0[2][:, 1:4] - t1[2][:, 1:4])) < 1e-6, "magnetization {} instead of {}", t1[2], t0[2])
        ctx.label("restarted")
    ctx.label(what)


@st.composite
def generations(draw):
    c = {"mesh": draw(meshgen.mesh_case(max_n=3, max_cells=4, regions=3, sides=("x0", "if"), axis=True)), "fmt": draw(st.sampled_from(["22a", "41a"]))}
    c["f"] = {f"vol{i}": [[draw(st.integers(-3, 3)) for _ in range(4)] for _ in range(3)] for i in range(3)}
    c["first"] = draw(st.sampled_from(["none", "none", "missing", "one region"]))
    return c


def generated(c, ctx):
    """fg-gensol: first a template, then the configuration of the functions written in it; it starts a simulation"""
    cwd = ctx.fresh_dir()
    mesh = meshgen.build(c["mesh"])
    names = sorted(set(mesh.treg))
    L = np.ptp(mesh.nodes, axis=0).max()
    meshgen.write_msh(mesh, os.path.join(cwd, "m.msh"), c["fmt"])
    cfg = os.path.join(cwd, "init_cfg.py")

    def functions(which):
        rows = ["    %r: lambda x, y, z: [%s]," % (n, ", ".join("%d + (%d*x + %d*y + %d*z)/%r + 0.1" % (*q, float(L)) for q in c["f"][n])) for n in which]
        return "def define_region_functions():\n    return {\n%s\n    }\n" % "\n".join(rows)
    if c["first"] == "one region":
        with open(cfg, "w") as f:
            f.write(functions(names[:1]))
    if c["first"] != "missing" and not (c["first"] == "one region" and len(names) == 1):
        r = pytools.tool("fg-gensol", ["m.msh"], cwd)
        if not done(r, "fg-gensol", ctx):
            return
        require(os.path.exists(cfg), "no template")
        require(not os.path.exists(os.path.join(cwd, "sol.in")), "a configuration without complete functions")
        ns = {}
        exec(open(cfg).read(), ns)
        d = ns["define_region_functions"]()
        require(sorted(d) == names, "the template has the regions {} instead of {}", sorted(d), names)
        require(all(list(g(1.0, 2.0, 3.0)) == [0, 0, 1] for g in d.values()), "the template's functions")
    with open(cfg, "w") as f:
        f.write(functions(names))
    ns = {}
    exec(open(cfg).read(), ns)
    d = ns["define_region_functions"]()
    shutil.rmtree(os.path.join(cwd, "__pycache__"), ignore_errors=True)
    r = pytools.tool("fg-gensol", ["m.msh"], cwd)
    if not done(r, "fg-gensol", ctx):
        return
    path = os.path.join(cwd, "sol.in")
    require(os.path.exists(path), "no sol.in: {!r}", r)
    t, cols, a = e2e.read_sol(path)
    require(t == 0 and cols == ["idx", "mx", "my", "mz", "phi"], "header: {} {}", t, cols)
    require((a[:, 0] == np.arange(len(mesh.nodes))).all(), "indices {}", a[:, 0])
    n_lines = sum(1 for q in open(path) if not q.startswith("#"))
    require(f"{n_lines} data lines" in r.out, "message {!r}", r.out)
    for i, p in enumerate(mesh.nodes):
        near = {mesh.treg[k] for k in np.nonzero((mesh.tets == i).any(axis=1))[0]}
        cand = []
        for n in near:
            v = np.array(d[n](*p), float)
            if np.linalg.norm(v) < 1e-3:
                ctx.nontrivial = False      # no direction
                return
            cand.append(v / np.linalg.norm(v))
        require(min(np.abs(a[i, 1:4] - v).max() for v in cand) < 2e-7, "node {}: {} instead of {}", i, a[i, 1:4], cand)
    s = {"outputs": {"file_basename": "run", "evol_time_step": 1e-12, "final_time": 0, "mag_config_every": 1},
         "mesh": {"filename": "m.msh", "length_unit": 1e-9, "volume_regions": {n: {} for n in names},
                  "surface_regions": {n: {} for n in sorted(set(mesh.sreg))}},
         "initial_magnetization": "sol.in", "time_integration": {"max(dt)": 1e-12, "min(dt)": 1e-15}}
    e2e.write_yaml(s, os.path.join(cwd, "s.yml"))
    r = e2e.run(ctx.artefacts["exe"], ["s.yml"], cwd)
    require(r.rc == 0, "the simulator does not accept the configuration: {!r}", r)
    b = e2e.read_sol(os.path.join(cwd, "run_iter0.sol"))[2]
    require(np.abs(b[:, 1:4] - a[:, 1:4]).max() < 1e-6, "the simulation starts from {} instead of {}", b[:, 1:4], a[:, 1:4])
    ctx.label("regions %d" % len(names))


@st.composite
def meshes(draw):
    c = {"mesh": draw(meshgen.mesh_case(max_n=3, max_cells=6, regions=3, sides=("x0", "y1", "z1", "if"), axis=True)),
         "fmt": draw(st.sampled_from(["22a", "22b", "41a"]))}
    c["verbose"] = draw(st.booleans())
    return c


def summarised(c, ctx):
    """fg-mesh-stat: names, surfaces and volumes of the regions"""
    cwd = ctx.fresh_dir()
    mesh = meshgen.build(c["mesh"])
    meshgen.write_msh(mesh, os.path.join(cwd, "m.msh"), c["fmt"])
    r = pytools.tool("fg-mesh-stat", ["m.msh"] + (["-v"] if c["verbose"] else []), cwd)
    if not done(r, "fg-mesh-stat", ctx):
        return
    p = mesh.nodes
    size = {}
    count = {}
    for t, n in zip(mesh.tets, mesh.treg):
        size[n] = size.get(n, 0) + abs(meshgen.signed_vol(p, t))
        count[n] = count.get(n, 0) + 1
    for t, n in zip(mesh.tris, mesh.sreg):
        size[n] = size.get(n, 0) + np.linalg.norm(np.cross(p[t[1]] - p[t[0]], p[t[2]] - p[t[0]])) / 2
        count[n] = count.get(n, 0) + 1
    got = {n: (k, float(v)) for n, k, v in re.findall(r"physical group named (\S+), indexed \S+, (surface|volume)= ([-+.\deE]+)", r.out)}
    require(set(got) == set(size), "regions {} instead of {}: {!r}", set(got), set(size), r.out)
    for n, v in size.items():
        require(got[n][0] == ("volume" if n in mesh.treg else "surface") and sim.close(got[n][1], v, 1e-9, 0), "{}: {} instead of {}", n, got[n], v)
    k2, k3 = len(set(mesh.sreg)), len(set(mesh.treg))
    require(re.search(r"including %d 2D entities and %d 3D entities" % (k2, k3), r.out), "entities: {!r}", r.out)
    if c["verbose"]:
        n = [int(x) for x in re.findall(r"nodes and (\d+) elements", r.out)]
        require(sorted(n) == sorted(count.values()), "element counts {} instead of {}", n, count)


@st.composite
def plots(draw):
    c = draw(runs(spins=False))
    c["how"] = draw(st.sampled_from(["all", "filter", "filter", "mag", "plane", "percent"]))
    c["edited"] = draw(st.sampled_from([None, "comments"]))
    c["axis"] = draw(st.integers(0, 2))
    c["idx"] = [draw(st.integers(0, 5)) for _ in range(4)]
    return c


def plotted(c, ctx):
    """fg-plot: one arrow per selected node"""
    x = prepare(c, ctx)
    if not x:
        return
    cwd, P, sols = x
    p = P.mesh.nodes
    sol = sols[-1]
    u = e2e.read_sol(os.path.join(cwd, sol))[2][:, 1:4]
    args, keep = ["m.msh", sol], np.ones(len(p), bool)
    if c["how"] == "filter":
        mid = float(np.median(p[:, c["axis"]])) + 1e-3
        keep = p[:, c["axis"]] < mid
        args += ["-f", "%s < %r" % ("xyz"[c["axis"]], mid)]
    elif c["how"] == "mag":
        if np.isnan(u).any():
            ctx.nontrivial = False
            return
        keep = u[:, c["axis"]] < u[:, (c["axis"] + 1) % 3]
        args += ["-f", "%s < %s" % (("mx", "my", "mz")[c["axis"]], ("mx", "my", "mz")[(c["axis"] + 1) % 3])]
        if not keep.any():
            ctx.nontrivial = False
            return
    X = np.hstack([p, u])[keep].T
    want = [X[i] for i in range(6)]
    if c["how"] == "plane":
        args += ["-s", " ".join(map(str, c["idx"]))]
        want = [X[i] for i in c["idx"]]
    percent = (50, 25, 20, 10)[c["idx"][0] % 4]
    if c["how"] == "percent":
        args += ["-P", str(percent)]
    r = pytools.tool("fg-plot", args, cwd)
    if not done(r, "fg-plot", ctx):
        return
    with open(os.path.join(cwd, "quiver.json")) as f:
        got = json.load(f)
    if c["how"] == "percent":
        a, b = np.array(got, float).T, np.array(want, float).T
        require(abs(len(a) - len(b) * percent / 100) < 1, "{} arrows, {} nodes", len(a), len(b))
        where = [[k for k in range(len(b)) if same(q, b[k])] for q in a]
        require(all(where), "arrows {} which are none of {}", a, b)
        require(len({k[0] for k in where}) == len(a), "the same arrow several times: {}", a)
        ctx.label("percent")
        return
    require(same(got, want), "arrows {} instead of {}", got, want)
    ctx.label(c["how"])


TESTS = [Test("merged", merges(), merged, 60, 1000), Test("vtk", conversions(), vtk, 60, 1000), Test("archived", archives(), archived, 80, 1200),
         Test("generated", generations(), generated, 60, 1000), Test("summarised", meshes(), summarised, 60, 1000),
         Test("plotted", plots(), plotted, 40, 600)]
