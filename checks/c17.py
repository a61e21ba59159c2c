"""C17: averages and the other observables of the evolution file are those of the saved state."""
import os

import numpy as np
from hypothesis import strategies as st

import e2e
import fgbuild
import sim
from pbt import Test, require

PROPERTY = "C17"
RULE = ("a case is non-trivial when the body has at least two regions or a non-uniform magnetization, "
        "and at least one regional column is compared")
ASSUMPTIONS = ["ScalFMM is replaced by an exact direct sum with the same interface",
               "after the first row the state is the one saved with 7 digits: tolerances follow",
               "regional columns of non-magnetic regions are not specified",
               "two nodes joined only by an edge of non-magnetic tetrahedra may or may not count as "
               "neighbours in the maximum angle"]
TARGETS = [(None, {"exe": fgbuild.EXE})]


@st.composite
def observed(draw, **kw):
    c = draw(sim.problem(**kw))
    if draw(st.booleans()):
        # names that need care, as a column is "region:quantity"
        names = draw(st.permutations(["a:b", "reg <Mx>", "<Mx>", "x:<My>", "2", "vol0"]))[:4]
        c["mesh"]["names"] = names
        c["regs"] = {names[int(k[3:])]: v for k, v in c["regs"].items()}
    c["cols"] = draw(st.lists(st.tuples(st.integers(-1, 3), st.sampled_from(
        [*sim.M_COLS, *sim.V_COLS, "Thiele_length"])), max_size=8).map(lambda l: [list(x) for x in l]))
    c["sub"] = draw(st.lists(st.sampled_from(["iter", "t", "dt", "max_dm", "max_angle", *sim.M_COLS, *sim.V_COLS]), min_size=1, max_size=3))
    return c


def max_angle(m, u, tets):
    best = 0.0
    for t in tets:
        for i in range(4):
            for j in range(i):
                a, b = u[t[i]], u[t[j]]
                if np.isfinite(a).all() and np.isfinite(b).all():
                    best = max(best, 2 * np.arctan2(np.linalg.norm(a - b), np.linalg.norm(a + b)))
    return best


def observables(case, ctx):
    P = sim.Problem(case)
    cwd = ctx.fresh_dir()
    m, g, mesh = P.model, P.model.g, P.mesh
    names = sorted(P.regs)
    magnames = [n for n in names if sim.ms_of(P.regs[n]) > 0]
    cols = list(sim.ALL_COLS) + ["Thiele_length"]
    cmp_cols = [(None, q) for q in [*sim.M_COLS, *sim.V_COLS, "Thiele_length"]]
    for j, q in case["cols"]:
        if j < 0:
            continue
        n = magnames[j % len(magnames)]
        cols.append(f"{n}:{q}")
        cmp_cols.append((n, q))
    r, table, tol = P.run_steps(ctx.artefacts["exe"], cwd, outputs=dict(P.settings()["outputs"],
                                                                      evol_columns=cols))
    prev = None
    mag = m.magnode
    for k, row in enumerate(table):
        require(row["iter"] == k, "row {}: iter is {}", k, row["iter"])
        require(sim.close(row["t"], P.t0 + k * P.dt, 1e-9, P.dt), "row {}: t is {} instead of {}", k,
                row["t"], P.t0 + k * P.dt)
        if k == 0:
            u, eps = P.u0, 1e-9
            v, veps = np.zeros_like(u), 0.0
        else:
            _, _, sol = e2e.read_sol(os.path.join(cwd, f"run_iter{k}.sol"))
            u, eps = sol[:, 1:4], 2e-7
            # v is orthogonal to the start u and u' = (u + dt v)/|u + dt v|
            d = np.einsum("nd,nd->n", u, prev)
            v = (u / d[:, None] - prev) / P.dt
            veps = 5e-7 / P.dt / max(1e-3, np.nanmin(np.abs(d)))**2
            vmax = np.linalg.norm(v[mag], axis=1).max()
            require(abs(row["max_dm"] - vmax * P.dt) <= veps * P.dt + 1e-6 * vmax * P.dt,
                    "row {}: max_dm is {}, the nodes moved by {}", k, row["max_dm"], vmax * P.dt)
        require(np.isfinite(u[mag]).all() and np.isnan(u[~mag]).all(), "row {}: magnetization "
                "undefined where it should not be, or defined where it should not be", k)
        prev = u
        w, wv = np.nan_to_num(u), np.nan_to_num(v)
        for n, q in cmp_cols:
            got = row[q if n is None else f"{n}:{q}"]
            if q == "Thiele_length":
                s = vol = mx = 0.0
                for t in np.nonzero(m.mag)[0]:
                    if n is None or mesh.treg[t] == n:
                        dz = w[g.tets[t]].T @ g.grad[t][:, 2]
                        s += g.vol[t] * (dz @ dz)
                        vol += g.vol[t]
                        mx += g.vol[t] * np.abs(g.grad[t][:, 2]).sum()**2
                lz = np.ptp(mesh.p[:, 2])
                if s < 1e-4 * mx:
                    continue            # ill-defined: almost no gradient along z
                want = 2 * vol / lz / s
                require(abs(got - want) <= (1e-9 + 10 * eps * np.sqrt(mx / s)) * want,
                        "row {}: {} of {} is {} instead of {}", k, q, n, got, want)
            elif "dM" in q:
                want = m.avg(wv, n)["xyz".index(q[3])]
                require(abs(got - want) <= veps + 1e-30, "row {}: {} of {} is {} instead of {}", k, q,
                        n, got, want)
            else:
                want = m.avg(w, n)["xyz".index(q[2])]
                require(abs(got - want) <= eps, "row {}: {} of {} is {} instead of {}", k, q, n, got,
                        want)
        lo = max_angle(m, u, [mesh.tets[t] for t in np.nonzero(m.mag)[0]])
        hi = max_angle(m, u, mesh.tets)
        # acos near 0 and pi turns an error e into sqrt(2 e)
        def cos_close(a, b):
            return abs(np.cos(a) - np.cos(b)) <= 4e-16 + 2 * eps * (1 if k else 1e-6)
        require(cos_close(row["max_angle"], lo) or cos_close(row["max_angle"], hi),
                "row {}: max_angle is {}, neighbouring nodes make up to {} (or {})", k,
                row["max_angle"], lo, hi)
    P.other_columns(ctx.artefacts["exe"], ctx.fresh_dir(), case.get("sub") or ["t"], table, tol)
    ctx.label("regional columns", len(cmp_cols) - 7)
    ctx.label("non-magnetic region", len(magnames) < len(names))
    ctx.nontrivial = len(cmp_cols) > 7 and (len(names) > 1 or any(case["m0"][0][1:]
                                                                  + case["m0"][1][1:]))


TESTS = [Test("observables", observed(steps=(0, 2), regions=4, max_cells=10, max_n=5), observables,
              160, 5000),
         Test("nonmagnetic", observed(steps=(0, 2), regions=4, max_cells=8, max_n=5, nonmag=True),
              observables, 160, 5000, flaky=True)]
