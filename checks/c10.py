"""C10: mesh topology faults are rejected; surfaces missing in the file are created."""
import os
import re

import numpy as np
from hypothesis import strategies as st

import e2e
import fgbuild
import meshgen
import ref
import sim
from pbt import Test, require

PROPERTY = "C10"
RULE = ("a case is non-trivial when a fault was really injected (faults), or when two different sets "
        "of named surfaces of the same body are compared (surfaces)")
ASSUMPTIONS = ["one fault per mesh", "ScalFMM is replaced by an exact direct sum"]
TARGETS = [(None, {"exe": fgbuild.EXE})]
FAULTS = ["none", "duplicate", "duplicate-flipped", "duplicate-other-region", "detached", "internal",
          "three-tetrahedra", "three-tetrahedra-named", "same-tetrahedron", "missing-surface",
          "missing-volume", "undeclared-bad-triangle"]
SIDES = ("x0", "x1", "y0", "y1", "z0", "z1", "if")


@st.composite
def faulty(draw):
    return {"mesh": draw(meshgen.mesh_case(max_n=3, max_cells=4, regions=3, axis=True, flip=True,
                                           sides=SIDES)),
            "fault": draw(st.sampled_from(FAULTS)), "at": draw(st.integers(0, 10**6)),
            "fmt": draw(st.sampled_from(["22a", "22b", "41a"]))}


def settings(mesh, surfs=None, vols=None, prm=None):
    prm = prm or {}
    return {"outputs": {"file_basename": "run", "evol_time_step": 1e-14, "final_time": 1e-14,
                        "mag_config_every": 1, "evol_columns": sim.ALL_COLS},
            "mesh": {"filename": "m.msh", "length_unit": mesh.scale,
                     "volume_regions": {r: {"Ms": 8e5 - 1.5e5 * int(r[-1]), "Ae": 1e-12,
                                            "alpha_LLG": 0.1} for r in
                                        (vols or sorted(set(mesh.treg)))},
                     "surface_regions": {**({"__default__": prm["__default__"]} if "__default__" in prm
                                            else {}),
                                         **{r: prm.get(r, {}) for r in
                                            (surfs if surfs is not None
                                             else sorted(set(mesh.sreg)))}}},
            "initial_magnetization": ["1", "0.3 + x*2e7", "0.2 - z*3e7"],
            "demagnetizing_field_solver": {"nb_threads": 1},
            "finite_element_solver": {"tolerance": 1e-11, "max(iter)": 3000},
            "time_integration": {"max(du)": 50, "min(dt)": 1e-15, "max(dt)": 1e-12}}


def faces(mesh):
    own = {}
    for ti, t in enumerate(mesh.tets):
        for f in meshgen.faces_of([int(x) for x in t]):
            own.setdefault(tuple(sorted(f)), []).append(ti)
    return own


def add_tri(mesh, tri, name):
    mesh.tris = np.vstack([mesh.tris.reshape(-1, 3), [tri]]).astype(int)
    mesh.sreg = mesh.sreg + [name]


def fault(case, ctx):
    mesh = meshgen.build(case["mesh"])
    own = faces(mesh)
    at, what = case["at"], case["fault"]
    cwd = ctx.fresh_dir()
    named = {tuple(sorted(map(int, t))) for t in mesh.tris}
    over = {}
    done = what in ("none", "missing-surface", "missing-volume")
    bad = what != "none"

    def pick(l):
        l = sorted(l)
        return l[at % len(l)] if l else None

    if what.startswith("duplicate"):
        outer = pick(f for f, o in own.items() if len(o) == 1 and f not in named)
        if len(mesh.tris):
            i = at % len(mesh.tris)
            t, name = [int(x) for x in mesh.tris[i]], mesh.sreg[i]
        else:
            t, name = list(outer), "sA"
            add_tri(mesh, t, name)
        if what == "duplicate":
            t = t[1:] + t[:1]
        if what == "duplicate-flipped":
            t = [t[0], t[2], t[1]]
        if what == "duplicate-other-region":
            name = "sD"
        add_tri(mesh, t, name)
        done = True
    elif what == "detached":
        N = len(mesh.nodes)
        rnd = np.random.RandomState(at)
        for _ in range(50):
            t = sorted(int(x) for x in rnd.choice(N, 3, replace=False))
            p = mesh.nodes[t]
            if tuple(t) not in own and np.linalg.norm(np.cross(p[1] - p[0], p[2] - p[0])) > 1e-6:
                add_tri(mesh, t, "sD")
                done = True
                break
    elif what == "internal":
        t = pick(f for f, o in own.items() if len(o) == 2 and mesh.treg[o[0]] == mesh.treg[o[1]])
        if t:
            add_tri(mesh, t, "sA")
            done = True
    elif what.startswith("three"):
        inner = [f for f, o in own.items() if len(o) == 2 and (what == "three-tetrahedra") == (
            mesh.treg[o[0]] == mesh.treg[o[1]])]
        t = pick(inner)
        if t:
            for n in range(len(mesh.nodes)):
                k = [*t, n]
                if n not in t and sorted(k) not in [sorted(map(int, mesh.tets[o])) for o in own[t]] \
                        and abs(meshgen.signed_vol(mesh.nodes, k)) > 1e-3:
                    mesh.tets = np.vstack([mesh.tets, [k]])
                    mesh.treg = mesh.treg + [mesh.treg[own[t][0]]]
                    if what == "three-tetrahedra-named" and t not in named:
                        add_tri(mesh, t, "sD")
                    done = True
                    break
    elif what == "same-tetrahedron":
        i = at % len(mesh.tets)
        mesh.tets = np.vstack([mesh.tets, [mesh.tets[i][[1, 0, 3, 2]]]])
        mesh.treg = mesh.treg + [mesh.treg[i]]
        done = True
    elif what == "undeclared-bad-triangle":
        # the same faults in a surface that the settings do not mention: not our business
        t = pick(own)
        add_tri(mesh, t, "sX")
        add_tri(mesh, t, "sX")
        over["surfs"] = [s for s in sorted(set(mesh.sreg)) if s != "sX"]
        bad, done = False, True
    if what == "missing-surface":
        over["surfs"] = sorted(set(mesh.sreg)) + ["nosuch"]
    if what == "missing-volume":
        over["vols"] = sorted(set(mesh.treg)) + ["nosuch9"]
    if not done:
        bad = False
    meshgen.write_msh(mesh, os.path.join(cwd, "m.msh"), case["fmt"])
    e2e.write_yaml(settings(mesh, **over), os.path.join(cwd, "s.yml"))
    r = e2e.run(ctx.artefacts["exe"], ["--seed", "3", "s.yml"], cwd)
    if bad:
        require(isinstance(r.rc, int) and r.rc > 0, "a mesh with a fault ({}) is not rejected properly: "
                "{!r}", what, r)
        require(r.err.strip() or "rror" in r.out, "a mesh with a fault ({}) is rejected without a "
                "message", what)
        require(not os.path.exists(os.path.join(cwd, "run_iter0.sol")), "a mesh with a fault ({}) is "
                "used", what)
    else:
        require(r.rc == 0, "a valid mesh is rejected ({}): {!r}", what, r)
    ctx.label(what if done else "not applicable")
    ctx.nontrivial = done and what != "none"


def surface_prm():
    return st.sampled_from([{"suppress_charges": True}, {"Ks": 1e-3, "uk": [0, 0.6, 0.8]},
                            {"Ks": -5e-4, "uk": [1, 0, 0]},
                            {"suppress_charges": False, "Ks": 2e-3, "uk": [0, 0, 1]}])


@st.composite
def subsets(draw):
    m = draw(meshgen.mesh_case(max_n=3, max_cells=4, regions=3, axis=True))
    s = []
    own = draw(st.sampled_from([None, *SIDES[:6]]))   # a side with parameters of its own in both
    for _ in range(2):
        d = {x: draw(st.sampled_from(["sA", "sB", "sC"])) for x in SIDES if draw(st.booleans())}
        if "if" in d:
            d["if"] = "sI"
        if own:
            d[own] = draw(st.sampled_from(["sZ", "a0"]))
        s.append([d, draw(st.integers(0, 2))])
    prm = {}
    if own:
        prm["sZ"] = prm["a0"] = draw(surface_prm())
    if draw(st.booleans()):
        prm["__default__"] = draw(surface_prm())
    return {"mesh": m, "sides": s, "prm": prm, "fmt": draw(st.sampled_from(["22a", "22b", "41a"]))}


def surfaces(case, ctx):
    out = []
    for sides, flip in case["sides"]:
        mesh = meshgen.build(dict(case["mesh"], sides=sides, flip=flip))
        cwd = ctx.fresh_dir()
        meshgen.write_msh(mesh, os.path.join(cwd, "m.msh"), case["fmt"])
        e2e.write_yaml(settings(mesh, prm=case.get("prm")), os.path.join(cwd, "s.yml"))
        r = e2e.run(ctx.artefacts["exe"], ["-v", "--seed", "3", "s.yml"], cwd)
        require(r.rc == 0, "a valid mesh is rejected: {!r}", r)
        n = len(ref.boundary(mesh.p, mesh.tets, mesh.treg))
        f = re.search(r"triangles: +(\d+)", r.out)
        if f:
            require(int(f[1]) == n, "{} surface elements, the body has {} boundary and interface faces",
                    f[1], n)
        cols, rows = e2e.read_evol(os.path.join(cwd, "run.evol"))
        # node numbering differs between the two (the permutation also shuffles triangles): compare
        # the position-sorted nodal values
        sols = [e2e.read_sol(os.path.join(cwd, f"run_iter{k}.sol"))[2] for k in (0, 1)]
        key = np.lexsort(np.round(mesh.nodes, 6).T)
        out.append((sim.rows(cols, rows), [s[key] for s in sols]))
    (ra, sa), (rb, sb) = out
    for k, (a, b) in enumerate(zip(ra, rb)):
        es = sum(abs(a[q]) for q in sim.ENERGY_COLS) + 1e-300
        for q in sim.M_COLS + sim.ENERGY_COLS:
            tol = 1e-7 * (1 if q in sim.M_COLS else es)
            require(abs(a[q] - b[q]) <= tol, "row {}: {} is {} or {} depending on which surfaces are "
                    "named", k, q, a[q], b[q])
        ps = np.abs(sa[k][:, 4]).max()
        require(np.abs(sa[k][:, 1:4] - sb[k][:, 1:4]).max() < 1e-6
                and np.abs(sa[k][:, 4] - sb[k][:, 4]).max() <= 1e-6 * ps,
                "row {}: nodal values depend on which surfaces are named", k)
    ctx.nontrivial = case["sides"][0] != case["sides"][1]


TESTS = [Test("faults", faulty(), fault, 480, 8000), Test("surfaces", subsets(), surfaces, 160, 4000)]
