"""C19: spin accumulation solves the diffusion problem for the current magnetization."""
import os

import numpy as np
from hypothesis import strategies as st

import e2e
import fgbuild
import sim
import spin
from pbt import Test, require

PROPERTY = "C19"
RULE = ("a case is non-trivial when the accumulation is unknown at some node of a magnetic region; for the dynamics, when "
        "at least one step was compared")
ASSUMPTIONS = ["the electrodes do not touch each other, every region conducts and has diffusion lengths",
               "the accuracy to expect is the tolerance of the code's solver (1e-8) times the condition number of the "
               "system; problems with a condition number above 1e4 are not judged"]
TARGETS = [(None, {"exe": fgbuild.EXE})]


def read_sol(path):
    t, cols, a = e2e.read_sol(path)
    require(cols == ["idx", "mx", "my", "mz", "phi", "sx", "sy", "sz"], "columns {}", cols)
    return a[:, 1:4], a[:, 5:8]


def dynamics(case, ctx):
    P = sim.Problem(case)
    m = P.model
    mag = m.magnode
    cwd = ctx.fresh_dir()
    n = case["steps"]
    exe = ctx.artefacts["exe"]
    V, vcond = spin.potential(case, P)[:2]
    for tol in (1e-12, 1e-9, 1e-6):
        s = spin.settings(case, P, finite_element_solver={"tolerance": tol, "max(iter)": 3000})
        r = P.run(exe, cwd, s)
        require(r.rc in (0, 1), "the run neither ended nor reported a problem: {!r}", r)
        if r.rc == 1 and "ABORTED" in r.out:
            continue
        break
    ctx.nontrivial = False
    u = np.nan_to_num(P.u0)
    want, cond = spin.accumulation(case, P, u, V)
    if max(cond, vcond) > 1e4:
        ctx.label("ill-conditioned")
        return
    if r.rc:
        require("ABORTED" in r.out, "the run failed (condition numbers {}, {}): {!r}", vcond, cond, r)
        ctx.label("solver failures")
        return
    cols, raw = e2e.read_evol(os.path.join(cwd, "run.evol"))
    table = sim.rows(cols, raw)
    ctx.label("spin solver failed", "spin accumulation solver:" in r.out)
    if not all(sim.close(x["dt"], P.dt, 1e-6, 0) for x in table[1:]):
        ctx.label("steps of other sizes")
        n = 0
    v = np.zeros_like(u)
    phi, phiv = m.potential(u), np.zeros(len(u))
    t = P.t0
    for k in range(n + 1):
        if k:
            v = m.step(u, v, phi, phiv, P.dt, P.taur, P.H(t), Hst=spin.torque_field(P, want))
            if np.abs(P.dt * v).max() > 0.5:
                ctx.label("large change, not judged")
                return
            u = m.advance(u, v, P.dt)
            t = P.t0 + k * P.dt
            want, cond = spin.accumulation(case, P, u, V)
            if cond > 1e4:
                return
        got_u, got_s = read_sol(os.path.join(cwd, f"run_iter{k}.sol"))
        err = np.abs(got_u - u)[mag].max()
        require(err < 3e-5 * (k + 1), "step {}: the magnetization differs by {} from the reference", k, err)
        require(np.isfinite(got_s).all(), "step {}: undefined accumulation", k)
        scale = np.abs(want).max()
        err = np.abs(got_s - want).max()
        require(err <= (3e-6 + 1e-7 * (cond + vcond) + 1e-4 * (k > 0)) * scale, "step {}: the accumulation differs by {} from the solution "
                "(largest {}) for the magnetization of that step", k, err, scale)
        # go on from the saved state
        u = np.where(mag[:, None], got_u, 0)
        u[mag] /= np.linalg.norm(u[mag], axis=1)[:, None]
        phi, phiv = m.potential(u), m.potential(v)
        ctx.label("steps compared")
    ctx.label("changed", np.abs(u - np.nan_to_num(P.u0)).max() > 1e-3)
    fixed = set(spin.nodes_of(P.mesh, "in")) | set(spin.nodes_of(P.mesh, "out"))
    ctx.nontrivial = bool(set(np.nonzero(mag)[0]) - fixed)


@st.composite
def fast(draw):
    c = draw(spin.conductor(steps=(1, 4), max_cells=4))
    c["dt"] = draw(st.sampled_from([1e-13, 1e-12, 5e-12]))
    return c


TESTS = [Test("static", spin.conductor(max_cells=8), dynamics, 150, 4000),
         Test("dynamics", fast(), dynamics, 200, 5000)]
