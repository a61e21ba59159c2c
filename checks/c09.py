"""C09: mesh import keeps every node, element and region of the file."""
import os
import re

import numpy as np
from hypothesis import strategies as st

import e2e
import fgbuild
import meshgen
import ref
from pbt import Test, require

PROPERTY = "C09"
RULE = "a case is non-trivial when the nodes are renumbered and the mesh has at least two tetrahedra"
ASSUMPTIONS = ["node numbers in the file are 1 to N, as the mesh generator writes them",
               "positions are observed through the magnetization given as a function of position, "
               "volumes through energies"]
TARGETS = [(None, {"exe": fgbuild.EXE})]
KS = [1.0e5, 2.3e5, -4.1e5, 7.7e5]


@st.composite
def cases(draw, big=False):
    c = {"mesh": draw(meshgen.mesh_case(max_n=5, max_cells=12, regions=4, axis=True, flip=True,
                                        sides=("x0", "x1", "y0", "z1", "if")))}
    c["mesh"]["scale"] = draw(st.sampled_from([1e-9, 1e-9, 1e-8, 2.5e-10, 1e-6]))
    c["fmt"] = draw(st.sampled_from(["22a", "22b", "41a", "41e"]))
    c["order"] = draw(st.integers(0, 10**6))
    c["low"] = draw(st.booleans())
    c["tags"] = draw(st.sampled_from([[100, 200], [1, 1], [7, 3]]))
    c["drop"] = draw(st.integers(0, 3))
    c["names"] = draw(st.sampled_from([None, ["vol 0", "a", "vol0 b", "x-y"],
                                       ["300", "301", "sA", "sI"]]))
    c["q"] = [draw(st.integers(-9, 9)) for _ in range(6)]
    return c


def check(case, ctx):
    m = dict(case["mesh"])
    if case["names"]:
        m["names"] = case["names"]
    mesh = meshgen.build(m)
    used = [r for i, r in enumerate(mesh.treg) if r not in mesh.treg[:i]]
    dropped = None
    if case["drop"] == 0 and len(used) > 1:
        dropped = used[-1]
        mesh.tris, mesh.sreg = np.zeros((0, 3), int), []
    regs = [r for r in used if r != dropped]
    cwd = ctx.fresh_dir()
    rnd = np.random.RandomState(case["order"])
    N = len(mesh.nodes)
    meshgen.write_msh(mesh, os.path.join(cwd, "m.msh"), case["fmt"], node_order=rnd.permutation(N),
                      low_dim=case["low"], tag0=case["tags"])
    p = mesh.p
    L = np.ptp(p, axis=0).max()
    g = ref.Geo(p, mesh.tets)
    keep = np.array([r != dropped for r in mesh.treg])
    mag = np.zeros(N, bool)
    mag[np.unique(mesh.tets[keep])] = True
    vols = {r: sum(v for v, q in zip(g.vol, mesh.treg) if q == r) for r in regs}
    for run in range(2):
        q = p.mean(axis=0) + (np.array([3, 3, 3]) + np.array(case["q"][3*run:3*run+3]) / 10) * L \
            * np.array([1, -1 if run else 1, 1])
        s = {"outputs": {"file_basename": "run", "evol_time_step": 1e-12, "final_time": 0,
                         "mag_config_every": 1, "evol_columns": ["t", "E_aniso", "<Mx>", "<My>", "<Mz>"]},
             "mesh": {"filename": "m.msh", "length_unit": mesh.scale,
                      "volume_regions": {r: {"K": KS[i], "uk": [1, 2, -1]} for i, r in enumerate(regs)},
                      "surface_regions": {r: {} for r in sorted(set(mesh.sreg))}},
             "demagnetizing_field_solver": {"nb_threads": 1},
             "initial_magnetization": ["%s - %r" % (a, float(b)) for a, b in zip("xyz", q)]}
        e2e.write_yaml(s, os.path.join(cwd, "s.yml"))
        r = e2e.run(ctx.artefacts["exe"], ["-v", "--seed", "1", "s.yml"], cwd)
        require(r.rc == 0, "a valid mesh is not accepted: {!r}", r)
        _, _, sol = e2e.read_sol(os.path.join(cwd, "run_iter0.sol"))
        require(len(sol) == N, "{} nodes in the output, {} in the file", len(sol), N)
        require((sol[:, 0] == np.arange(N)).all(), "node numbers are not 0 to N-1 in order")
        u = p - q
        u /= np.linalg.norm(u, axis=1)[:, None]
        require((np.isfinite(sol[:, 1]) == mag).all(), "magnetization defined at nodes of no region, "
                "or undefined at nodes of a region")
        d = np.abs(sol[:, 1:4] - u)[mag].max()
        require(d < 2e-7, "nodes are not where the file has them (direction off by {})", d)
        cols, rows = e2e.read_evol(os.path.join(cwd, "run.evol"))
        row = dict(zip(cols, rows[0]))
        ax = np.array([1, 2, -1]) / np.sqrt(6)
        M2 = (np.ones((4, 4)) + np.eye(4)) / 20
        E = 0.0
        avg = np.zeros(3)
        for t, reg, v in zip(mesh.tets, mesh.treg, g.vol):
            if reg != dropped:
                a = u[t] @ ax
                E -= KS[regs.index(reg)] * v * (a @ M2 @ a)
                avg += v * u[t].mean(axis=0)
        V = sum(vols.values())
        require(abs(float(row["E_aniso"]) - E) <= 1e-9 * max(abs(k) for k in KS) * V,
                "the anisotropy energy is {}, the file's regions give {}", row["E_aniso"], E)
        for i, a in enumerate("xyz"):
            require(abs(float(row[f"<M{a}>"]) - avg[i] / V) <= 1e-9, "<M{}> is {} instead of {}", a,
                    row[f"<M{a}>"], avg[i] / V)
        f = re.search(r"total volume: *(\S+)", r.out)
        if f:
            require(abs(float(f[1]) - V) <= 1e-5 * V, "total volume {} reported, {} in the file", f[1], V)
        for what, n in (("nodes", N), ("tetraedrons", int(keep.sum()))):
            f = re.search(what + r": +(\d+)", r.out)
            if f:
                require(int(f[1]) == n, "{} {} reported, {} in the file", f[1], what, n)
    ctx.label(case["fmt"])
    ctx.label("undeclared region", dropped is not None)
    ctx.nontrivial = len(mesh.tets) > 1 and case["mesh"]["perm"] != 0


TESTS = [Test("import", cases(), check, 320, 6000)]
