"""C16: time stepping hits every output time, respects its limits, and ends."""
import os
import re

import numpy as np
from hypothesis import strategies as st

import e2e
import fgbuild
import meshgen
import ref
import sim
from pbt import Test, require

PROPERTY = "C16"
RULE = ("a case is non-trivial when an output step takes several time steps, or a step was rejected, "
        "failed, or ended the run")
ASSUMPTIONS = ["ScalFMM is replaced by an exact direct sum with the same interface",
               "individual steps are read from the verbose log; when the log cannot be understood, "
               "only the evolution and configuration files are judged",
               "the step sizes in the log have 6 digits: the replayed trajectory is compared to 1e-5"]
TARGETS = [(None, {"exe": fgbuild.EXE})]


@st.composite
def cases(draw, clean=False, retries=False, kinds=("const", "time", "func", "none", "space")):
    c = draw(sim.problem(steps=(1, 5), max_cells=3, kinds=kinds))
    c["stride"] = draw(st.integers(2, 60)) / 10           # output step, in units of the nominal step
    c["min"] = draw(st.sampled_from([2, 3, 5, 10, 30, 200]))
    c["max"] = draw(st.sampled_from([1, 2, 5, 20])) if not clean else draw(st.sampled_from([1, 2]))
    if clean:
        c["du"], c["it"], c["tol"] = 50, 3000, draw(st.sampled_from([1e-6, 1e-9]))
    elif retries:
        c["stride"] = draw(st.integers(5, 80)) / 10
        c["min"] = draw(st.sampled_from([10, 30, 200, 1000]))
        c["du"], c["it"], c["tol"] = draw(st.sampled_from([0.002, 0.005, 0.01, 0.03, 0.1])), 3000, 1e-9
    else:
        c["du"] = draw(st.sampled_from([0.003, 0.01, 0.02, 0.05, 0.2, 50]))
        c["it"] = draw(st.sampled_from([1, 2, 3, 4, 6, 3000, 3000, 3000]))
        c["tol"] = draw(st.sampled_from([1e-6, 1e-6, 1e-9, 1e-12]))
    return c


def parse(out):
    """[(t, dt, outcome)]: outcome is dumax of a solved step, or None. Returns None if not understood"""
    steps, cur = [], None
    for line in out.splitlines():
        f = re.search(r"\bt = (\S+), dt = (\S+)", line)
        if f:
            if cur:
                steps.append(cur)
            cur = [float(f[1]), float(f[2]), None]
        f = re.search(r"dumax = ([^\s,]+)", line)
        if f and cur:
            cur[2] = float(f[1])
    if cur:
        steps.append(cur)
    return steps or None


def check(case, ctx):
    P = sim.Problem(case)
    cwd = ctx.fresh_dir()
    n = case["steps"]
    tau = P.dt * case["stride"]
    dtmax = P.dt * case["max"]
    dtmin = P.dt / case["min"]
    if tau < 2.1 * dtmin:
        tau = 2.1 * dtmin
    P.taur = 100 * dtmax
    du = case["du"]
    s = P.settings(outputs=dict(P.settings()["outputs"], evol_time_step=tau,
                                final_time=P.t0 + n * tau),
                   finite_element_solver={"tolerance": case["tol"], "max(iter)": case["it"]},
                   time_integration={"max(du)": du, "min(dt)": dtmin, "max(dt)": dtmax})
    r = P.run(ctx.artefacts["exe"], cwd, s, args=("-v", "--seed", "5"))
    require(r.rc in (0, 1), "the run neither ended nor reported a problem: {!r}", r)
    cols, raw = e2e.read_evol(os.path.join(cwd, "run.evol"))
    table = sim.rows(cols, raw)
    log = parse(r.out) or []
    require(len(table) <= n + 1, "{} rows for {} output times", len(table), n + 1)
    if r.rc == 0:
        require(len(table) == n + 1, "{} rows for {} output times", len(table), n + 1)
    for k, row in enumerate(table):
        t = P.t0 + k * tau
        require(abs(row["t"] - t) <= 4e-15 * max(abs(t), tau, abs(P.t0)), "row {} is at t = {!r} instead "
                "of {!r}", k, row["t"], t)
        require(row["iter"] == k, "row {} has iter = {}", k, row["iter"])
        if k:
            require(0 < row["dt"] <= dtmax * (1 + 1e-6), "row {}: dt = {} while max(dt) is {}", k,
                    row["dt"], dtmax)
            require(row["dt"] >= dtmin * (1 - 1e-6), "row {}: dt = {} while min(dt) is {}", k, row["dt"],
                    dtmin)
            require(row["max_dm"] <= du * (1 + 1e-9), "row {}: max_dm = {} while max(du) is {}", k,
                    row["max_dm"], du)
    failed = any(s[2] is None or s[2] > du for s in log)
    if r.rc == 1:
        require("ABORT" in r.out or r.err.strip(), "the run failed without a message: {!r}", r)
        if log:
            require(log[-1][1] < dtmin * (1 + 1e-5), "the run was given up although the last step, {}, is not below "
                    "min(dt) = {}", log[-1][1], dtmin)
            # a step can always be found when nothing failed and the limits leave room for it
            small = [s for s in log[:-1] if s[2] and 0.95 * du / (s[2] / s[1]) < 2.1 * dtmin]
            if not any(s[2] is None or s[2] > du * (1 - 1e-5) for s in log[:-1]) and dtmax >= 4 * dtmin \
                    and not small:
                require(False, "the run was given up although no step had failed (output step {}, "
                        "min(dt) {}, max(dt) {}, last step tried {})", tau, dtmin, dtmax, log[-1][1])
    border = any(s[2] is not None and abs(s[2] / du - 1) < 1e-5 for s in log)
    ctx.label("too close to the limit to tell", border)      # the log has 6 digits
    if log and not border:
        replay_log(P, case, ctx, cwd, table, log, tau, dtmin, dtmax, du, r)
    ctx.label("aborted", r.rc == 1)
    ctx.label("steps", len(log))
    ctx.label("solver failures", sum(s[2] is None for s in log) - (r.rc == 1))
    ctx.label("rejected", sum(s[2] is not None and s[2] > du for s in log))
    ctx.nontrivial = len(log) > len(table) - 1 or failed or r.rc == 1


def replay_log(P, case, ctx, cwd, table, log, tau, dtmin, dtmax, du, r):
    m = P.model
    good = [s for s in log if s[2] is not None and s[2] <= du]
    budget = 40 if len(P.mesh.p) < 20 else 15
    with_ref = case["tol"] <= 1e-9
    u = np.nan_to_num(P.u0)
    v = np.zeros_like(u)
    phi, phiv = m.potential(u), np.zeros(len(u))
    t, row = P.t0, 1
    eps = 1e-5 * tau + 6e-6 * (abs(P.t0) + len(table) * tau)   # the log has 6 digits
    prev = None
    for k, (ts, dt, dum) in enumerate(log):
        require(abs(ts - t) <= eps, "step {} starts at t = {}, the accepted steps lead to {}", k, ts, t)
        if prev is not None:
            require(dt < prev * (1 - 1e-9), "step {} is tried again with dt = {} after {}", k, dt, prev)
        if k == len(log) - 1 and r.rc == 1:
            break
        require(dt >= dtmin * (1 - 1e-5), "step {}: dt = {} is below min(dt) = {}", k, dt, dtmin)
        require(dt <= dtmax * (1 + 1e-5), "step {}: dt = {} is above max(dt) = {}", k, dt, dtmax)
        if dum is None or dum > du:
            prev = dt
            continue
        prev = None
        end = P.t0 + row * tau
        last = abs(t + dt - end) <= 1e-5 * tau
        if with_ref and budget > 0:
            v = m.step(u, v, phi, phiv, dt, P.taur, P.H(t))
            vmax = np.linalg.norm(v[m.magnode], axis=1).max()
            require(abs(vmax * dt - dum) <= 1e-4 * dum + 1e-9, "step {} (t = {}, dt = {}): the "
                    "magnetization changed by {}, from this state it should by {}", k, t, dt, dum,
                    vmax * dt)
            u = m.advance(u, v, dt)
            phi, phiv = m.potential(u), m.potential(v)
            budget -= 1
        elif with_ref:
            with_ref = False
        if last:
            t = end
            if with_ref and row < len(table):
                sol = e2e.read_sol(os.path.join(cwd, f"run_iter{row}.sol"))[2]
                d = np.abs(sol[:, 1:4] - u)[m.magnode].max()
                require(d < 2e-5, "row {}: the saved state differs by {} from the accepted steps", row, d)
                ctx.label("states replayed")
            row += 1
        else:
            t += dt
    require(row >= len(table), "{} rows, but the accepted steps only reach row {}", len(table), row - 1)


@st.composite
def clocks(draw):
    """cheap long runs: only the times matter"""
    return {"tau": draw(st.integers(1, 999983)) * draw(st.sampled_from([1e-17, 1e-18, 3e-19])), "n": draw(st.integers(1, 120)),
            "t0": draw(st.one_of(st.just(None), st.just(0), st.integers(-10 ** 6, 10 ** 6), st.integers(-10 ** 4, 100),
                                                       st.integers(-10 ** 3, 10))), "per": draw(st.integers(3, 60)) / 10,
            "min": draw(st.sampled_from([3, 10, 1000])), "extra": draw(st.sampled_from([0, 0, 0.3, -0.3])), "every": draw(st.sampled_from([0, 1, 7]))}


def clock(c, ctx):
    """rows at exactly the initial time plus a whole number of output steps"""
    cwd = ctx.fresh_dir()
    tau, n = c["tau"], c["n"]
    t0 = 0.0 if c["t0"] is None else c["t0"] * 1e-3 * tau
    meshgen.write_msh(meshgen.build({"n": [1, 1, 1]}), os.path.join(cwd, "m.msh"))
    dtmax = tau / c["per"]
    dtmin = min(dtmax / c["min"], tau / 2.1)
    s = {"outputs": {"file_basename": "run", "evol_time_step": tau, "final_time": t0 + (n + c["extra"]) * tau, "mag_config_every": c["every"],
                     "evol_columns": ["iter", "t", "dt"]},
         "mesh": {"filename": "m.msh", "length_unit": 1e-9, "volume_regions": {"vol0": {}}, "surface_regions": {}},
         "initial_magnetization": [0.6, 0, 0.8], "Bext": [0, 0, 0.1],
         "time_integration": {"max(dt)": dtmax, "min(dt)": dtmin, "max(du)": 50}}
    if c["t0"] is not None:
        s["initial_time"] = t0
    e2e.write_yaml(s, os.path.join(cwd, "s.yml"))
    r = e2e.run(ctx.artefacts["exe"], ["--seed", "1", "s.yml"], cwd)
    f = re.search(r"^ *failed +(\S+)", r.out, re.M)
    if r.rc == 1 and f and float(f[1]) > 0:       # the solver failed: not the subject here
        ctx.nontrivial = False
        return
    require(r.rc == 0, "the run failed: {!r}", r)
    _, raw = e2e.read_evol(os.path.join(cwd, "run.evol"))
    require(len(raw) == n + 1, "{} rows for {} output times", len(raw), n + 1)
    for k, row in enumerate(raw):
        t = t0 + k * tau
        require(abs(float(row[1]) - t) <= 5e-16 * max(abs(t), abs(t0), tau), "row {} is at t = {} instead of {!r}", k, row[1], t)
        require(int(row[0]) == k, "row {} has iter = {}", k, row[0])
        if k:
            require(dtmin * (1 - 1e-9) <= float(row[2]) <= dtmax * (1 + 1e-6), "row {}: dt = {} for limits {} and {}", k, row[2],
                    dtmin, dtmax)
    every = c["every"]
    want = {f"run_iter{k}.sol" for k in range(n + 1) if every and k % every == 0}
    got = {f for f in os.listdir(cwd) if f.endswith(".sol")}
    require(got == want, "configurations {} instead of {}", sorted(got), sorted(want))
    ctx.nontrivial = c["per"] > 1 or bool(t0)


TESTS = [Test("clock", clocks(), clock, 320, 6000), Test("stepping", cases(), check, 320, 6000), Test("clean", cases(clean=True), check, 160, 3000)]
