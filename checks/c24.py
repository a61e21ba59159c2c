"""C24: run statistics are the statistics of the steps that were made."""
import ctypes
import math
import os
import re

import numpy as np
from hypothesis import strategies as st

import c16
import c17
import e2e
import fgbuild
import sim
from pbt import Test, require

PROPERTY = "C24"
RULE = ("a case is non-trivial when it has at least two different samples; for runs, when the run has "
        "at least two steps, or a failed one, or (angles) when the largest angle is between two output times")
ASSUMPTIONS = ["the steps of a run are read from its verbose log (6 digits), the summary has 3 digits",
               "the spread is the standard deviation of the logarithms, with the number of samples as "
               "divisor, as the repository's unit test has it"]
TARGETS = [(None, {"stats": {"shims": ["stats", "exit_throw"], "libs": []}, "exe": fgbuild.EXE})]


def ptr(a):
    return a.ctypes.data_as(ctypes.c_void_p)


@st.composite
def samples(draw):
    base = draw(st.integers(-280, 280))
    spread = draw(st.sampled_from([0, 1e-9, 1e-3, 1, 10]))
    e = draw(st.lists(st.integers(-1000, 1000), min_size=1, max_size=60))
    return {"base": base, "spread": spread, "e": e}


def moments(c, ctx):
    x = np.array([10.0 ** (c["base"] + max(-25, min(25, c["spread"] * k / 400))) for k in c["e"]])
    out = np.zeros((len(x), 3))
    ctx.lib("stats").st_run(len(x), ptr(x), ptr(out))
    logs = np.array([math.log(v) for v in x])
    for n in range(1, len(x) + 1):
        m = math.fsum(logs[:n]) / n
        s = math.sqrt(math.fsum((v - m) ** 2 for v in logs[:n]) / n)
        require(out[n - 1, 0] == n, "{} samples counted as {}", n, out[n - 1, 0])
        require(abs(math.log(out[n - 1, 1]) - m) <= 1e-12 * (1 + abs(m)), "geometric mean of {}: {}",
                x[:n], out[n - 1, 1])
        eps = 1e-13 * (1 + abs(m))
        require(abs(out[n - 1, 2] - s) <= 1e-9 * s + eps, "spread of {}: {} instead of {}", x[:n],
                out[n - 1, 2], s)
    ctx.nontrivial = len(set(c["e"])) > 1 and c["spread"] > 0


def summary(out):
    r = {}
    f = r"(\d\.\d+e[-+]\d+) ± (\d+\.\d+|-?nan)"
    m = re.search(r"successful +([0-9.e+]+)(?: +%s +%s)?" % (f, f), out)
    if not m:
        return None
    r["good"] = float(m[1]), m[2] and float(m[2]), m[3] and float(m[3]), m[4] and float(m[4]), \
        m[5] and float(m[5])
    m = re.search(r"failed +([0-9.e+]+)(?: +%s)?" % f, out)
    if not m:
        return None
    r["bad"] = float(m[1]), m[2] and float(m[2]), m[3] and float(m[3])
    m = re.search(r"angle: ([-0-9.e+]+|nan)°", out)
    r["angle"] = m and float(m[1])
    return r


def geo(xs):
    logs = [math.log(x) for x in xs]
    m = math.fsum(logs) / len(logs)
    return math.exp(m), math.sqrt(math.fsum((v - m) ** 2 for v in logs) / len(logs))


def run_summary(case, ctx):
    P = sim.Problem(case)
    cwd = ctx.fresh_dir()
    dtmax, dtmin = P.dt * case["max"], P.dt / case["min"]
    tau = max(P.dt * case["stride"], 2.1 * dtmin)
    P.taur = 100 * dtmax
    s = P.settings(outputs=dict(P.settings()["outputs"], evol_time_step=tau,
                                final_time=P.t0 + case["steps"] * tau),
                   finite_element_solver={"tolerance": case["tol"], "max(iter)": case["it"]},
                   time_integration={"max(du)": case["du"], "min(dt)": dtmin, "max(dt)": dtmax})
    r = P.run(ctx.artefacts["exe"], cwd, s, args=("-v", "--seed", "5"))
    require(r.rc in (0, 1), "the run neither ended nor reported a problem: {!r}", r)
    log = c16.parse(r.out)
    if log is None:             # no step, or a log of another format
        ctx.nontrivial = False
        return
    if r.rc == 1:
        log = log[:-1]          # a step below the minimum: not made
    if any(x[2] is not None and abs(x[2] / case["du"] - 1) < 1e-5 for x in log):
        ctx.label("too close to the limit to tell")     # the log has 6 digits
        ctx.nontrivial = False
        return
    good = [x for x in log if x[2] is not None and x[2] <= case["du"]]
    bad = [x for x in log if x[2] is None or x[2] > case["du"]]
    S = summary(r.out)
    require(S is not None, "no summary: {!r}", r)
    what = f"{len(good)} steps accepted, {len(bad)} failed or rejected"
    require(S["good"][0] == len(good), "{}, but {:g} successful in the summary", what, S["good"][0])
    require(S["bad"][0] == len(bad), "{}, but {:g} failed in the summary", what, S["bad"][0])

    def same(got, xs, name):
        if not xs or any(x <= 0 for x in xs):
            return
        m, sd = geo(xs)
        require(got[0] is not None and abs(got[0] / m - 1) < 6e-3, "{}: geometric mean {} instead of {}",
                name, got[0], m)
        require(abs(got[1] - sd) < 6e-3, "{}: spread {} instead of {}", name, got[1], sd)
    same(S["good"][1:3], [x[1] for x in good], "accepted steps")
    if all(x[2] > 1e-300 for x in good):
        same(S["good"][3:5], [x[2] for x in good], "magnetization changes")
    same(S["bad"][1:3], [x[1] for x in bad], "failed steps")
    cols, raw = e2e.read_evol(os.path.join(cwd, "run.evol"))
    angle = math.degrees(max([row["max_angle"] for row in sim.rows(cols, raw)], default=0)) if raw else 0
    require(S["angle"] is not None and S["angle"] >= angle * (1 - 6e-3) - 1e-5,
            "largest angle {} while a row has {}", S["angle"], angle)
    if len(good) == len(raw) - 1:
        require(abs(S["angle"] - angle) <= 6e-3 * angle + 1e-5, "largest angle {} while the rows have {}",
                S["angle"], angle)
        ctx.label("angles compared")
    ctx.label("accepted", len(good))
    ctx.label("failed", len(bad))
    ctx.nontrivial = len(good) > 1 or len(bad) > 0


@st.composite
def dephasing(draw):
    """uncoupled moments in a nonuniform field: the angles grow and shrink between the output times"""
    c = draw(sim.problem(steps=(1, 2), max_cells=2, max_n=2, regions=1, ks=False, cubic=False, kinds=("space",)))
    for r in c["regs"].values():
        r["Ae"], r["alpha_LLG"] = draw(st.sampled_from([0, 1e-13])), draw(st.sampled_from([0.01, 0.1, 0.5]))
    c["B"]["b"] = [draw(st.integers(-40, 40)) for _ in range(3)]
    c["B"]["g"] = [draw(st.integers(-40, 40)) for _ in range(3)]
    c["dt"] = draw(st.sampled_from([5e-13, 1e-12, 2e-12]))
    c["n"] = draw(st.integers(4, 20))
    return c


def angles(c, ctx):
    P = sim.Problem(c)
    m = P.model
    cwd = ctx.fresh_dir()
    tau = P.dt * c["n"]
    P.taur = 100 * P.dt
    s = P.settings(outputs=dict(P.settings()["outputs"], evol_time_step=tau, final_time=P.t0 + c["steps"] * tau),
                   finite_element_solver={"tolerance": 1e-9, "max(iter)": 3000},
                   time_integration={"max(du)": 50, "min(dt)": P.dt / 20, "max(dt)": P.dt})
    r = P.run(ctx.artefacts["exe"], cwd, s, args=("-v", "--seed", "5"))
    log = c16.parse(r.out)
    ctx.nontrivial = False
    if r.rc != 0 or not log or any(x[2] is None for x in log):
        ctx.label("the solver failed")
        return
    tets = m.mesh.tets
    u = np.nan_to_num(P.u0)
    v = np.zeros_like(u)
    phi, phiv = m.potential(u), np.zeros(len(u))
    t, best, at_rows, row = P.t0, c17.max_angle(m, u, tets), 0.0, 1
    for ts, dt, dum in log:
        v = m.step(u, v, phi, phiv, dt, P.taur, P.H(t))
        u = m.advance(u, v, dt)
        phi, phiv = m.potential(u), m.potential(v)
        t += dt
        a = c17.max_angle(m, u, tets)
        best = max(best, a)
        if abs(t - P.t0 - row * tau) < 1e-4 * tau:
            at_rows, t, row = max(at_rows, a), P.t0 + row * tau, row + 1
    sol = e2e.read_sol(os.path.join(cwd, f"run_iter{c['steps']}.sol"))[2]
    d = np.abs(sol[:, 1:4] - u)[m.magnode].max()
    if d > 1e-4:
        ctx.label("trajectory not followed")        # not the subject here
        return
    S = summary(r.out)
    require(S is not None and S["angle"] is not None, "no summary: {!r}", r)
    want = math.degrees(best)
    require(abs(S["angle"] - want) <= 6e-3 * want + 0.03, "largest angle {}, the steps went through {}", S["angle"], want)
    ctx.nontrivial = math.degrees(best - max(at_rows, c17.max_angle(m, np.nan_to_num(P.u0), tets))) > 6e-3 * want + 0.06
    ctx.label("largest between the rows", ctx.nontrivial)


TESTS = [Test("moments", samples(), moments, 1500, 40000),
         Test("summary", c16.cases(), run_summary, 300, 5000), Test("angles", dephasing(), angles, 120, 2500)]
