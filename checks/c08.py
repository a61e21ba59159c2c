"""C08: the demagnetizing potential is the magnetostatic potential of the declared charges."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

import e2e
import fgbuild
import sim
from pbt import Test, require

PROPERTY = "C08"
RULE = ("a case is non-trivial when the potential is not zero everywhere; in addition the mesh must "
        "have two regions, a named surface or a non-uniform magnetization")
ASSUMPTIONS = ["ScalFMM is replaced by an exact direct sum with the same interface: its accuracy is "
               "not judged, its use is",
               "the potential is printed with 7 digits"]
TARGETS = [(None, {"exe": fgbuild.EXE})]


def sols(P, exe, cwd):
    r, table, _ = P.run_steps(exe, cwd)
    return [e2e.read_sol(os.path.join(cwd, f"run_iter{k}.sol"))[2] for k in range(len(table))]


def scale_of(P):
    return P.model.Ms.max() * P.L


def potential(case, ctx):
    P = sim.Problem(case)
    out = sols(P, ctx.artefacts["exe"], ctx.fresh_dir())
    m = P.model
    for k, sol in enumerate(out):
        u = np.nan_to_num(P.u0 if k == 0 else sol[:, 1:4])
        phi = m.potential(u)
        d = np.abs(sol[:, 4] - phi)[m.magnode]
        tol = 1e-6 * np.abs(phi) + (1e-7 if k == 0 else 1e-6) * scale_of(P)
        bad = np.nonzero(d > tol[m.magnode])[0]
        if len(bad):
            n = np.nonzero(m.magnode)[0][bad[0]]
            require(False, "step {}: potential at node {} is {}, the charges give {} (scale {})", k, n,
                    sol[n, 4], phi[n], scale_of(P))
    ctx.label("steps", case["steps"])
    ctx.nontrivial = float(np.abs(phi).max()) > 1e-6 * scale_of(P) and (
        len(P.regs) > 1 or bool(P.surf) or any(case["m0"][0][1:] + case["m0"][1][1:]))


@st.composite
def transformed(draw):
    c = draw(sim.problem(steps=(0, 0), regions=3, nonmag=True, kinds=("none",)))
    return {"p": c, "how": draw(st.sampled_from(["reverse", "translate", "rescale", "Ms", "uniform"])),
            "by": [draw(st.integers(-80, 80)) for _ in range(3)]}


def metamorphic(case, ctx):
    c, how, by = case["p"], case["how"], case["by"]
    P = sim.Problem(c)
    a = sols(P, ctx.artefacts["exe"], ctx.fresh_dir())[0]
    d = copy.deepcopy(c)
    factor = 1.0
    if how == "reverse":
        over = dict(initial_magnetization=["-(%s)" % x for x in
                                           P.settings()["initial_magnetization"]])
        factor = -1.0
    else:
        over = {}
    Q = sim.Problem(d)
    if how == "translate":
        # the magnetization is given as a function of position: shift it back
        sh = np.array(by) * 0.5
        Q.mesh.nodes = Q.mesh.nodes + sh
        s = sh * Q.mesh.scale
        over = dict(initial_magnetization="function(x, y, z) { x -= %r; y -= %r; z -= %r; "
                    "return [%s, %s, %s]; }" % (*map(float, s), *P.settings()["initial_magnetization"]))
    if how == "rescale":
        f = [0.5, 2.0, 10.0, 0.01][by[0] % 4]
        factor = f
        over = dict(mesh=dict(length_unit=P.mesh.scale * f),
                    initial_magnetization="function(x, y, z) { x /= %r; y /= %r; z /= %r; return "
                    "[%s, %s, %s]; }" % (f, f, f, *P.settings()["initial_magnetization"]))
    if how == "Ms":
        factor = 1.5
        regs = {k: dict({kk: vv for kk, vv in v.items() if kk != "Js"}, Ms=1.5 * sim.ms_of(v))
                for k, v in P.regs.items()}
        over = dict(mesh=dict(volume_regions=regs))
    if how == "uniform":
        # three regions of one material are one region
        names = sorted(P.regs)
        one = dict(P.regs[names[0]])
        over = dict(mesh=dict(volume_regions={k: one for k in names}))
        a = run_with(P, ctx, over)
        Q.mesh.treg = [names[0]] * len(Q.mesh.treg)
        tris = [(t, r) for t, r in zip(Q.mesh.tris, Q.mesh.sreg) if r != "sI"]
        Q.mesh.tris = np.array([t for t, _ in tris]).reshape(-1, 3).astype(int)
        Q.mesh.sreg = [r for _, r in tris]
        over = dict(mesh=dict(volume_regions={names[0]: one}, surface_regions={
            k: v for k, v in P.surf.items() if k in Q.mesh.sreg}))
    b = run_with(Q, ctx, over)
    ok = np.isfinite(a[:, 1])
    require((ok == np.isfinite(b[:, 1])).all(), "{}: other nodes are magnetic", how)
    tol = 1e-6 * np.abs(factor * a[:, 4]) + 3e-7 * abs(factor) * scale_of(P)
    if how == "translate":
        tol = tol * 10
    d = np.abs(b[:, 4] - factor * a[:, 4])
    bad = np.nonzero(ok & (d > tol))[0]
    require(not len(bad), "{}: potential at node {} is {} instead of {}", how,
            *((bad[0], b[bad[0], 4], factor * a[bad[0], 4]) if len(bad) else (0, 0, 0)))
    ctx.label(how)
    ctx.nontrivial = float(np.abs(a[ok, 4]).max()) > 1e-6 * scale_of(P)


def run_with(P, ctx, over):
    cwd = ctx.fresh_dir()
    r = P.run(ctx.artefacts["exe"], cwd, P.settings(**over))
    sim.must_run(r)
    return e2e.read_sol(os.path.join(cwd, "run_iter0.sol"))[2]


TESTS = [Test("potential", sim.problem(steps=(0, 2), regions=3, max_cells=6), potential, 160, 5000),
         Test("nonmagnetic", sim.problem(steps=(0, 2), regions=4, max_cells=6, max_n=4, nonmag=True),
              potential, 160, 5000),
         Test("metamorphic", transformed(), metamorphic, 120, 3000)]
