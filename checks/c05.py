"""C05: the computed trajectory follows the LLG equation (tangent plane scheme)."""
import os

import numpy as np

import c16
import e2e
import fgbuild
import sim
from pbt import Test, require

PROPERTY = "C05"
RULE = ("a case is non-trivial when at least one time step is taken and the magnetization really "
        "moves (largest |dm/dt| * dt above 1e-6)")
ASSUMPTIONS = ["ScalFMM is replaced by an exact direct sum with the same interface",
               "the reference integrates the same weak form independently, in Cartesian components,"
               " with dense linear algebra",
               "the second-order (velocity) term of the cubic anisotropy is taken as the code has "
               "it, since a unit test of the repository pins it"]
TARGETS = [(None, {"exe": fgbuild.EXE})]


def trajectory(case, ctx):
    P = sim.Problem(case)
    cwd = ctx.fresh_dir()
    r, table, tol = P.run_steps(ctx.artefacts["exe"], cwd)
    if tol > 1e-7:
        ctx.label("looser solver tolerance")
    states = P.reference()
    moved = 0.0
    for k, (row, s) in enumerate(zip(table, states)):
        mag = P.model.magnode
        vmax = np.linalg.norm(s["v"][mag], axis=1).max()
        moved = max(moved, vmax * P.dt)
        U, V = P.model.avg(s["u"]), P.model.avg(s["v"])
        for i, a in enumerate("xyz"):
            require(sim.close(row[f"<M{a}>"], U[i], tol, 1), "row {}: <M{}> is {}, should be {}",
                    k, a, row[f"<M{a}>"], U[i])
            require(sim.close(row[f"<dM{a}/dt>"], V[i], tol, vmax + 1e-30),
                    "row {}: <dM{}/dt> is {}, should be {} (largest {})", k, a,
                    row[f"<dM{a}/dt>"], V[i], vmax)
        require(sim.close(row["max_dm"], vmax * row["dt"] if k else 0.0, 10 * tol, 1e-12),
                "row {}: max_dm is {}, should be {}", k, row["max_dm"], vmax * row["dt"])
        _, _, sol = e2e.read_sol(os.path.join(cwd, f"run_iter{k}.sol"))
        d = np.abs(sol[:, 1:4] - s["u"])[mag]
        require(d.max() < 2e-7 + 3 * tol, "step {}: nodal magnetization off by {}", k, d.max())
    ctx.label("steps", case["steps"])
    ctx.label("space field", case["B"]["k"] == "space")
    ctx.nontrivial = case["steps"] > 0 and moved > 1e-6


TESTS = [Test("adaptive", c16.cases(retries=True), c16.check, 120, 3000),
         Test("trajectory", sim.problem(steps=(1, 4)), trajectory, 240, 6000),
         Test("nonmagnetic", sim.problem(steps=(1, 3), regions=3, nonmag=True), trajectory, 80, 2000)]
