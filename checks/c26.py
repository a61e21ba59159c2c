"""C26: the Python helpers produce files the simulator accepts and that say what was asked."""
import json
import math
import os
import re
import sys

import numpy as np
from hypothesis import strategies as st

import e2e
import fgbuild
import pytools
import sim
from pbt import Test, require

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(pytools.__file__)), "pystubs"))
import _msh  # noqa: E402

PROPERTY = "C26"
RULE = "a case is non-trivial when the helper produced a file that was read back and given to the simulator"
ASSUMPTIONS = ["gmsh 4.12 as installed generates the meshes; curved bodies are compared up to the deviation of a polyhedron with the "
               "requested element size", "the graphical parts (fg-3D, windows of fg-configurator) are not exercised"]
TARGETS = [(None, {"exe": fgbuild.EXE})]

MAKE = """
import json, sys
from feellgood import meshMaker
c = json.load(open("case.json"))
kw = c.get("kw", {})
x = getattr(meshMaker, c["shape"])(*c["args"], **kw)
if c.get("map"):
    m = c["map"]
    x.transformNodes(lambda p: [sum(m[i][j] * p[j] for j in range(3)) for i in range(3)])
for name, a, b in c.get("sub", []):
    x.add_sub_surface(name, lambda x, y, z: (x, y, z)[a] <= b + 1e-4)
if c["shape"] in ("Cuboid", "Ico"):
    x.make("m.msh", c["vol"], c["surf"])
else:
    x.make("m.msh")
"""

NAMES = st.sampled_from(["300", "vol", "bulk 1", "Permalloy", "a_b"])


@st.composite
def solids(draw):
    c = {"shape": draw(st.sampled_from(["Hexahedron", "Cylinder", "Tube", "Ellipsoid", "SolidOfRevolution"]))}
    c["vol"] = draw(NAMES)
    c["surf"] = "s" + draw(NAMES)
    kw = c["kw"] = {}
    fmt = draw(st.sampled_from([None, 4.1, 2.2]))
    if fmt:
        kw["fileFormat"] = fmt
    s = c["size"] = draw(st.integers(2, 5))
    if c["shape"] == "Hexahedron":
        lo = [draw(st.integers(-20, 20)) for _ in range(3)]
        c["args"] = [lo, [x + draw(st.integers(2, 12)) for x in lo]]
    elif c["shape"] == "Cylinder":
        c["args"] = [draw(st.integers(5, 10)), draw(st.integers(3, 12))]
    elif c["shape"] == "Tube":
        r = draw(st.integers(5, 7))
        c["args"] = [r, r + draw(st.integers(3, 5)), draw(st.integers(3, 10))]
    elif c["shape"] == "Ellipsoid":
        c["args"] = [draw(st.integers(6, 10)), draw(st.integers(6, 14))]
    else:
        z = draw(st.integers(-10, 10))
        pts = [[draw(st.integers(4, 8)), z]]
        for _ in range(draw(st.integers(1, 3))):
            z += draw(st.integers(3, 6))
            pts.append([draw(st.integers(4, 8)), z])
        c["args"] = [pts]
    c["args"] += [s, c["surf"], c["vol"]]
    if c["shape"] in ("Cylinder", "Tube", "SolidOfRevolution") and draw(st.booleans()):
        kw["partitionSurface"] = True
    return c


@st.composite
def boxes(draw):
    c = {"shape": draw(st.sampled_from(["Cuboid", "Cuboid", "Cuboid", "Ico"])), "vol": draw(NAMES), "surf": "s" + draw(NAMES), "args": []}
    if c["shape"] == "Cuboid":
        lo = [draw(st.integers(-20, 20)) for _ in range(3)]
        hi = [x + draw(st.integers(1, 12)) for x in lo]
        n = [draw(st.integers(1, 4)) for _ in range(3)]
        if draw(st.integers(0, 7)) == 0:
            n[draw(st.integers(0, 2))] = draw(st.integers(5, 12))
        c["args"] = [lo, hi, *n]
        if draw(st.booleans()):
            c["map"] = [[draw(st.integers(-2, 2)) + (5 if i == j else 0) for j in range(3)] for i in range(3)]
        c["sub"] = []
        for k in range(draw(st.integers(0, 3))):
            a = draw(st.integers(0, 2))
            c["sub"].append(["sub%d" % k, a, draw(st.integers(lo[a], hi[a]))])
    return c


def profile(c):
    """(function giving the distance to the body of each point, volume, extents, surface pieces by name)"""
    a, s = c["args"], c["surf"]
    whole = {s: lambda p: np.ones(len(p), bool)}
    part = c.get("kw", {}).get("partitionSurface")
    rad = lambda p: np.hypot(p[:, 0], p[:, 1])
    if c["shape"] in ("Hexahedron", "Cuboid"):
        lo, hi = np.array(a[0], float), np.array(a[1], float)
        M = np.array(c.get("map") or np.eye(3), float)
        inv = np.linalg.inv(M)
        return (lambda p: np.maximum(lo - p @ inv.T, p @ inv.T - hi).max(axis=1)), abs(np.linalg.det(M)) * np.prod(hi - lo), whole, 0.0
    if c["shape"] == "Cylinder":
        r, t = a[0], a[1]
        pieces = {s + "_side": lambda p: abs(rad(p) - r) < 1e-6, s + "_bottom": lambda p: abs(p[:, 2] + t / 2) < 1e-6,
                  s + "_top": lambda p: abs(p[:, 2] - t / 2) < 1e-6} if part else whole
        return (lambda p: np.maximum(rad(p) - r, abs(p[:, 2]) - t / 2)), math.pi * r * r * t, pieces, r
    if c["shape"] == "Tube":
        r, q, t = a[0], a[1], a[2]
        pieces = {s + "_inner": lambda p: abs(rad(p) - r) < 1e-6, s + "_outer": lambda p: abs(rad(p) - q) < 1e-6,
                  s + "_bottom": lambda p: abs(p[:, 2] + t / 2) < 1e-6, s + "_top": lambda p: abs(p[:, 2] - t / 2) < 1e-6} if part else whole
        return (lambda p: np.maximum(rad(p) - q, abs(p[:, 2]) - t / 2)), math.pi * (q * q - r * r) * t, pieces, r
    if c["shape"] == "Ellipsoid":
        r, q = a[0], a[1]
        return (lambda p: np.sqrt((rad(p) / r) ** 2 + (p[:, 2] / q) ** 2) - 1), 4 / 3 * math.pi * r * r * q, whole, min(r, q)
    if c["shape"] == "Ico":
        f = (1 + math.sqrt(5)) / 2
        return (lambda p: np.linalg.norm(p, axis=1) - math.hypot(1, f)), 5 / 12 * (3 + math.sqrt(5)) * 8, whole, 0.0
    pts = np.array(a[0], float)
    z = pts[:, 1]
    vol = sum(math.pi / 3 * (z1 - z0) * (r0 * r0 + r0 * r1 + r1 * r1) for (r0, z0), (r1, z1) in zip(pts, pts[1:]))
    pieces = {s + "_bottom": lambda p: abs(p[:, 2] - z[0]) < 1e-6, s + "_top": lambda p: abs(p[:, 2] - z[-1]) < 1e-6,
              s + "_side": lambda p: abs(rad(p) - np.interp(p[:, 2], z, pts[:, 0])) < 1e-6} if part else whole
    return (lambda p: np.maximum(rad(p) - np.interp(p[:, 2], z, pts[:, 0]), np.maximum(z[0] - p[:, 2], p[:, 2] - z[-1]))), vol, pieces, pts[:, 0].min()


def made(c, ctx):
    cwd = ctx.fresh_dir()
    with open(os.path.join(cwd, "case.json"), "w") as f:
        json.dump(c, f)
    r = pytools.code(MAKE, cwd)
    require(r.rc == 0, "the mesh was not made: {!r}", r)
    path = os.path.join(cwd, "m.msh")
    m = _msh.Msh(path)
    tags = [n[0] for n in m.nodes]
    require(sorted(tags) == list(range(1, len(tags) + 1)), "node numbers {}", sorted(tags)[:5])
    p = np.empty((len(tags), 3))
    for n in m.nodes:
        p[n[0] - 1] = n[1:4]
    tets = np.array([e[2] for e in m.elems if e[0] == 4]) - 1
    tris = [(tuple(sorted(v - 1 for v in e[2])), m.names.get((2, e[4]))) for e in m.elems if e[0] == 2]
    require({m.names.get((3, e[4])) for e in m.elems if e[0] == 4} == {c["vol"]}, "volume regions {}", m.names)
    used = np.unique(tets)
    said = {k: int(v) for v, k in re.findall(r"(\d+) (nodes|tetrahedra|triangles)", r.out.split("m.msh")[-1])}
    for k, v in (("nodes", len(used)), ("tetrahedra", len(tets)), ("triangles", len(tris))):
        require(said.get(k, v) == v, "the message says {} {}, there are {}", said.get(k), k, v)
    dist, vol, pieces, curve = profile(c)
    d = dist(p[used])
    require(d.max() < 1e-6, "a node is {} outside of the body", d.max())
    v = np.array([abs(np.dot(np.cross(p[t[1]] - p[t[0]], p[t[2]] - p[t[0]]), p[t[3]] - p[t[0]])) / 6 for t in tets])
    require(v.min() > 1e-12 * vol, "a flat tetrahedron")
    deficit = 1 - v.sum() / vol
    allowed = 0.6 * (c["size"] / curve) ** 2 if curve else 1e-9
    lower = -1e-9 if c["shape"] != "Tube" else -allowed         # a polygonal hole is smaller than a round one
    require(lower <= deficit <= allowed, "volume {} instead of {}", v.sum(), vol)
    # a valid subdivision: interior faces shared by two tetrahedra on either side, the others are the surface
    owner = {}
    for t in tets:
        for i in range(4):
            f = tuple(sorted(int(x) for j, x in enumerate(t) if j != i))
            owner.setdefault(f, []).append(int(t[i]))
    for f, o in owner.items():
        if len(o) == 2:
            n = np.cross(p[f[1]] - p[f[0]], p[f[2]] - p[f[0]])
            require(np.dot(n, p[o[0]] - p[f[0]]) * np.dot(n, p[o[1]] - p[f[0]]) < 0, "two tetrahedra overlap")
        require(len(o) <= 2, "a face of {} tetrahedra", len(o))
    outer = {f for f, o in owner.items() if len(o) == 1}
    sub = {n: (a, b) for n, a, b in c.get("sub", [])}
    got = [f for f, n in tris]
    require(len(set(got)) == len(got) and set(got) == outer, "the surface has {} triangles, {} in the mesh", len(outer), len(got))
    names = {n for _, n in tris if n not in sub}
    # each sub-surface takes its triangles from what the previous ones left
    left = set(outer)
    for n, a, b in c.get("sub", []):
        want = {f for f in left if (p[list(f), a] <= b + 1e-4).all()}
        have = {f for f, q in tris if q == n}
        require(have == want, "sub-surface {}: {} triangles instead of {}", n, len(have), len(want))
        left -= want
    require(names == (set(pieces) if left else set()), "surface regions {} instead of {}", names, set(pieces))
    for f, n in tris:
        if n not in sub:
            on = pieces[n](p[list(f)])
            require(on.all(), "a triangle of {} at {}", n, p[list(f)])
    # the simulator reads it
    surf = {n: {} for n in names} | {n: {} for n in sub if any(q == n for _, q in tris)}
    s = {"outputs": {"file_basename": "run", "evol_time_step": 1e-12, "final_time": 0, "mag_config_every": 1},
         "mesh": {"filename": "m.msh", "length_unit": 1e-9, "volume_regions": {c["vol"]: {}}, "surface_regions": surf},
         "initial_magnetization": [0, 0, 1], "Bext": [0, 0, 0], "time_integration": {"max(dt)": 1e-12, "min(dt)": 1e-15}}
    e2e.write_yaml(s, os.path.join(cwd, "s.yml"))
    r = e2e.run(ctx.artefacts["exe"], ["s.yml"], cwd)
    require(r.rc == 0, "the simulator does not accept the mesh: {!r}", r)
    u = e2e.read_sol(os.path.join(cwd, "run_iter0.sol"))[2]
    require(len(u) == len(p), "{} nodes in the simulation instead of {}", len(u), len(p))
    ctx.label(c["shape"] + (" parts" if c.get("kw", {}).get("partitionSurface") else ""))
    ctx.label("sub-surfaces", any(q in sub for _, q in tris))


VALUE = st.one_of(st.sampled_from([0.5, 1e-12, 8e5, True, False, "x y", "é", None]), st.integers(-5, 5), st.lists(st.integers(-3, 3), max_size=3))
KEYS = st.sampled_from(["300", "vol", "outputs", "Ae", "Ms", "mesh", "recentering", "uk"])


@st.composite
def scripts(draw):
    ops = []
    for _ in range(draw(st.integers(0, 10))):
        k = draw(st.sampled_from(["vol", "vol", "surf", "surf", "recentering", "set", "sub", "stt"]))
        if k in ("vol", "surf"):
            ops.append([k, draw(KEYS), draw(KEYS), draw(VALUE)])
        elif k == "recentering":
            ops.append([k, draw(st.sampled_from("XYZ")), draw(st.sampled_from([0.1, 0.5, 0, -0.2]))])
        elif k == "set":
            ops.append([k, draw(KEYS.filter(lambda x: x != "mesh")), draw(VALUE)])
        elif k == "sub":
            ops.append([k, draw(st.sampled_from(["finite_element_solver", "time_integration", "demagnetizing_field_solver"])), draw(KEYS),
                        draw(VALUE)])
        else:
            ops.append([k, draw(KEYS), draw(st.sampled_from([1e7, 3e6])), 1e47, 0.5, 1e-9, 2e-9, "in", draw(st.integers(0, 5)), "out",
                        draw(st.integers(0, 5))])
    return {"mesh": draw(st.sampled_from(["m.msh", "a b.msh", "d/é.msh"])), "ops": ops}


APPLY = """
import json
from feellgood.settingsMaker import Settings
c = json.load(open("case.json"))
s = Settings(c["mesh"])
for o in c["ops"]:
    if o[0] == "vol":
        s.createVolRegion(o[1])[o[2]] = o[3]
    elif o[0] == "surf":
        s.createSurfRegion(o[1])[o[2]] = o[3]
    elif o[0] == "recentering":
        s.recentering(o[1], o[2])
    elif o[0] == "set":
        s[o[1]] = o[2]
    elif o[0] == "sub":
        s[o[1]][o[2]] = o[3]
    else:
        s.createSTT(*o[1:])
s.write("s.json")
"""


def recorded(c, ctx):
    cwd = ctx.fresh_dir()
    with open(os.path.join(cwd, "case.json"), "w") as f:
        json.dump(c, f)
    want = {"outputs": {}, "mesh": {"filename": c["mesh"], "volume_regions": {}, "surface_regions": {}}, "finite_element_solver": {},
            "demagnetizing_field_solver": {}, "time_integration": {}}
    for o in c["ops"]:
        if o[0] in ("vol", "surf"):
            want["mesh"][{"vol": "volume_regions", "surf": "surface_regions"}[o[0]]].setdefault(o[1], {})[o[2]] = o[3]
        elif o[0] == "recentering":
            want["recentering"] = {"enable": True, "direction": o[1], "threshold": o[2]}
        elif o[0] == "set":
            want[o[1]] = o[2]
        elif o[0] == "sub":
            want[o[1]][o[2]] = o[3]
        else:
            want["spin_transfer_torque"] = {"enable": True, "volume_region_reference": o[1], "sigma": o[2], "dens_state": o[3], "beta": o[4],
                                            "l_J": o[5], "l_sf": o[6], "boundary_conditions": {o[7]: o[8], o[9]: o[10]}}
    r = pytools.code(APPLY, cwd)
    require(r.rc == 0, "the settings were not written: {!r}", r)
    with open(os.path.join(cwd, "s.json")) as f:
        got = json.load(f)
    require(got == want, "settings {} instead of {}", got, want)
    ctx.nontrivial = bool(c["ops"])


@st.composite
def simulations(draw):
    c = {"Ms": draw(st.sampled_from([8e5, 1e6])), "Ae": draw(st.sampled_from([1e-11, 0])), "K": draw(st.sampled_from([0, 1e5])),
            "ks": draw(st.sampled_from([0, 1e-4])), "steps": draw(st.integers(0, 2)), "m0": draw(sim.AXIS), "B": [draw(st.integers(-3, 3)) for _ in range(3)],
            "rec": draw(st.sampled_from([None, "X", "Z"])), "n": [draw(st.integers(1, 2)) for _ in range(3)]}
    if c["rec"]:
        c["steps"] = 0            # there is no wall to recenter
    return c


SCRIPT = """
import json
from feellgood.meshMaker import Cuboid
from feellgood.settingsMaker import Settings
c = json.load(open("case.json"))
x = Cuboid([0, 0, 0], [10, 20, 30], *c["n"])
x.make("m.msh", "vol", "surf")
s = Settings("m.msh")
s["outputs"]["file_basename"] = "run"
s["outputs"]["evol_time_step"] = 1e-14
s["outputs"]["final_time"] = c["steps"] * 1e-14
s["outputs"]["mag_config_every"] = 1
s["outputs"]["evol_columns"] = ["t", "E_zeeman", "E_aniso"]
s["mesh"]["length_unit"] = 1e-9
v = s.createVolRegion("vol")
v["Ms"], v["Ae"], v["K"] = c["Ms"], c["Ae"], c["K"]
s.createSurfRegion("surf")["Ks"] = c["ks"]
s["initial_magnetization"] = c["m0"]
s["Bext"] = c["B"]
if c["rec"]:
    s.recentering(c["rec"], 0.99999)
s.write("s.json")
"""


def simulated(c, ctx):
    """the usual script: a mesh, settings, a run"""
    cwd = ctx.fresh_dir()
    with open(os.path.join(cwd, "case.json"), "w") as f:
        json.dump(c, f)
    r = pytools.code(SCRIPT, cwd)
    require(r.rc == 0, "the script failed: {!r}", r)
    r = e2e.run(ctx.artefacts["exe"], ["--verify", "s.json"], cwd)
    require(r.rc == 0, "the simulator does not accept the settings: {!r}", r)
    import yaml
    ydoc = yaml.safe_load(r.out)
    reg = ydoc["mesh"]["volume_regions"]["vol"]
    require((float(reg["Ms"]), float(reg["Ae"]), float(reg["K"])) == (c["Ms"], c["Ae"], c["K"]), "volume region {}", reg)
    require(float(ydoc["mesh"]["surface_regions"]["surf"]["Ks"]) == c["ks"], "surface region {}", ydoc["mesh"]["surface_regions"])
    require([float(x) for x in ydoc["Bext"]] == [float(x) for x in c["B"]], "field {}", ydoc["Bext"])
    require(ydoc["recentering"]["enable"] == bool(c["rec"]), "recentering {}", ydoc["recentering"])
    if c["rec"]:
        require((ydoc["recentering"]["direction"], float(ydoc["recentering"]["threshold"])) == (c["rec"], 0.99999), "recentering {}", ydoc["recentering"])
    # and they are the values used: initial Zeeman and anisotropy energies of a uniform magnetization in the box
    r = e2e.run(ctx.artefacts["exe"], ["s.json"], cwd)
    require(r.rc == 0, "the run failed: {!r}", r)
    t, _, u = e2e.read_sol(os.path.join(cwd, "run_iter0.sol"))
    m = np.array(c["m0"], float) / np.linalg.norm(c["m0"])
    require(np.abs(u[:, 1:4] - m).max() < 1e-6, "initial magnetization {}", u[:2])
    head, rows = e2e.read_table(os.path.join(cwd, "run.evol"))
    cols = e2e.header_value(head, "## columns:").split()
    row = dict(zip(cols, map(float, rows[0])))
    V = 6000e-27
    z = -c["Ms"] * V * np.dot(m, c["B"])
    require(abs(row["E_zeeman"] - z) <= 1e-6 * c["Ms"] * V * np.linalg.norm(c["B"]), "E_zeeman {} instead of {}", row["E_zeeman"], z)

TEXT = st.one_of(st.sampled_from(["", "Jane Doe", "J. Doe: physicist", "a # b", "- x", "'q", '"quoted" name', "yes", "12", "{a}", "É. Dupont",
                                  "x: y: z", "*star", "&ref", "@home", "tab\tin", "back\\slash", "null", "[1, 2]", " lead", "%d"]),
                 st.text(alphabet="ab :#-'\"[]{}&*!|>%@`,?\\é", max_size=12))


@st.composite
def identities(draw):
    return {"author": draw(TEXT), "affiliation": draw(TEXT), "licence": draw(st.sampled_from(["0", "1", "2", "", "7", "x", "-1"])),
            "config": draw(st.sampled_from(["exists", "missing", "there"])), "verbose": draw(st.booleans())}


def configured(c, ctx):
    """what is typed in fg-configurator is found in the headers of the files of later runs"""
    cwd = ctx.fresh_dir()
    conf = os.path.join(cwd, "cfg")
    if c["config"] != "missing":
        os.mkdir(conf)
    if c["config"] == "there":
        os.mkdir(os.path.join(conf, "feellgood"))
        with open(os.path.join(conf, "feellgood", "default.yml"), "w") as f:
            f.write("outputs:\n  metadata:\n    Author: previous\n    Old: entry\n")
    r = pytools.tool("fg-configurator", ["-v"] if c["verbose"] else [], cwd, stdin="%s\n%s\n%s\n" % (c["author"], c["affiliation"], c["licence"]))
    require(r.rc == 0, "fg-configurator failed: {!r}", r)
    path = os.path.join(conf, "feellgood", "default.yml")
    require(os.path.exists(path), "no file {}", path)
    import yaml
    want = {}
    if c["author"]:
        want["Author"] = c["author"]
    if c["affiliation"]:
        want["Affiliation"] = c["affiliation"]
    if c["licence"] in ("1", "2"):
        want["Licence"] = ["CC BY", "CC BY-SA"][int(c["licence"]) - 1]
    with open(path, encoding="utf-8") as f:
        text = f.read()
    try:
        got = yaml.safe_load(text)
    except yaml.YAMLError as e:
        require(False, "not a settings file: {}\n{}", e, text)
    got = ((got or {}).get("outputs") or {}).get("metadata") or {}
    require({k: str(v) for k, v in got.items()} == want and all(isinstance(v, str) for v in got.values()), "metadata {} instead of {}", got, want)
    # a run with these defaults
    s = {"outputs": {"file_basename": "run", "evol_time_step": 1e-12, "final_time": 0, "mag_config_every": False},
         "mesh": {"filename": "m.msh", "length_unit": 1e-9, "volume_regions": {"vol0": {}}, "surface_regions": {}},
         "initial_magnetization": [0, 0, 1], "time_integration": {"max(dt)": 1e-12, "min(dt)": 1e-15}}
    import meshgen
    meshgen.write_msh(meshgen.build({"n": [1, 1, 1]}), os.path.join(cwd, "m.msh"))
    e2e.write_yaml(s, os.path.join(cwd, "s.yml"))
    r = e2e.run(ctx.artefacts["exe"], ["s.yml"], cwd)
    require(r.rc == 0, "the simulator does not accept the defaults: {!r}\n{}", r, text)
    head, _ = e2e.read_table(os.path.join(cwd, "run.evol"))
    for k, v in want.items():
        require(any(x == f"## {k}: {v}" for x in head), "no {} {!r} in the header {}", k, v, head)
    ctx.nontrivial = bool(want)
    ctx.label(c["config"])


TESTS = [Test("solids", solids(), made, 80, 1500), Test("boxes", boxes(), made, 80, 1500), Test("recorded", scripts(), recorded, 80, 1500),
         Test("simulated", simulations(), simulated, 24, 300), Test("configured", identities(), configured, 120, 2000)]
