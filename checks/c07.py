"""C07: the energies in the evolution file are those of the saved state at the saved time."""
import os

import numpy as np
from hypothesis import strategies as st

import e2e
import fgbuild
import ref
import sim
from pbt import Test, require

PROPERTY = "C07"
RULE = ("a case is non-trivial when the magnetization is not uniform, or some anisotropy or applied "
        "field is present (the demagnetizing energy is always there)")
ASSUMPTIONS = ["ScalFMM is replaced by an exact direct sum with the same interface",
               "after the first row the state is the one saved with 7 digits: tolerances follow",
               "the anisotropy energy of a surface whose charges are suppressed is not specified"]
TARGETS = [(None, {"exe": fgbuild.EXE})]


@st.composite
def problems(draw, **kw):
    c = draw(sim.problem(**kw))
    c["cols"] = draw(st.lists(st.sampled_from(sim.ENERGY_COLS), min_size=1, max_size=3))
    return c


def energies(case, ctx):
    P = sim.Problem(case)
    cwd = ctx.fresh_dir()
    r, table, stol = P.run_steps(ctx.artefacts["exe"], cwd)
    m, g = P.model, P.model.g
    mags = np.nonzero(m.mag)[0]
    par = [P.regs[m.mesh.treg[t]] for t in mags]
    exmax = sum(q.get("Ae", 1e-11) * g.vol[t] * np.linalg.norm(g.grad[t], axis=1).sum()**2
                for t, q in zip(mags, par))
    Ms = [m.Ms[t] for t in mags]
    scale_d = ref.MU0 * sum(x * x * g.vol[t] for t, x in zip(mags, Ms))
    scale_a = sum((abs(q.get("K", 0)) + abs(q.get("K3", 0))) * g.vol[t] for t, q in zip(mags, par))
    scale_a += sum(abs(s.get("Ks", 0)) * a for s, a in zip(m.sprm, g.area))
    for k, row in enumerate(table):
        t = P.t0 + k * P.dt
        require(sim.close(row["t"], t, 1e-9, P.dt), "row {}: time {} instead of {}", k, row["t"], t)
        if k == 0:
            u, eps = np.nan_to_num(P.u0), 1e-9
        else:
            _, _, sol = e2e.read_sol(os.path.join(cwd, f"run_iter{k}.sol"))
            u, eps = np.nan_to_num(sol[:, 1:4]), 3e-7
        H = P.H(t)
        E = m.energies(u, m.potential(u), H)
        Hmax = max(np.abs(H(x)).max() for q in mags for x in g.tgp[q])
        scale_z = ref.MU0 * sum(x * g.vol[q] for q, x in zip(mags, Ms)) * Hmax * 1.8
        tol = {"ex": eps * (np.sqrt(E["ex"] * exmax) + eps * exmax), "aniso": 3 * eps * scale_a,
               "demag": 10 * eps * scale_d, "zeeman": 3 * eps * scale_z}
        tiny = 1e-300
        for n in ("ex", "aniso", "demag", "zeeman"):
            got = row["E_" + n]
            require(abs(got - E[n]) <= tol[n] + 1e-9 * abs(E[n]) + tiny,
                    "row {} (t = {}): E_{} is {}, the state has {} (tolerance {})", k, t, n, got,
                    E[n], tol[n])
        s = [row["E_" + n] for n in ("ex", "aniso", "demag", "zeeman")]
        require(abs(row["E_tot"] - sum(s)) <= 1e-12 * sum(map(abs, s)), "row {}: E_tot is {}, the "
                "terms sum to {}", k, row["E_tot"], sum(s))
    P.other_columns(ctx.artefacts["exe"], ctx.fresh_dir(), case.get("cols") or ["E_tot"], table, stol)
    ctx.label("rows", len(table))
    ctx.label("time-dependent field", case["B"]["k"] in ("time", "func", "space"))
    ctx.nontrivial = any(case["m0"][0][1:] + case["m0"][1][1:]) or scale_a > 0 \
        or case["B"]["k"] != "none"


TESTS = [Test("energies", problems(steps=(0, 3), regions=2, max_cells=4), energies, 240, 6000),
         Test("nonmagnetic", problems(steps=(0, 2), regions=3, nonmag=True), energies, 80, 2000)]
