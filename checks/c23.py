"""C23: recentering acts along the configured direction, only past its threshold."""
import math
import os

import numpy as np
from hypothesis import strategies as st

import e2e
import fgbuild
import sim
from pbt import Test, require

PROPERTY = "C23"
RULE = "a case is non-trivial when the threshold was passed at least once, and a wall was translated or reported missing"
ASSUMPTIONS = ["each step is computed by the reference model from the state saved at the previous one (7 digits)",
               "when several nodes are equally near, any of them may be used; an average within 1e-5 of the "
               "threshold, and ends whose nearest nodes disagree, are not judged"]
TARGETS = [(None, {"exe": fgbuild.EXE})]


@st.composite
def walls(draw):
    c = draw(sim.problem(max_n=6, max_cells=6, regions=2, nonmag=True, steps=(1, 3), kinds=("none", "const", "time", "space")))
    c["dir"] = draw(st.sampled_from("XYZ"))
    c["thr"] = draw(st.sampled_from([0.02, 0.05, 0.1, 0.3, 0.6, 0.9, -0.1]))
    c["given"] = draw(st.sampled_from(["all", "all", "all", "no threshold", "no direction"]))
    c["pos"] = draw(st.integers(-12, 12))
    c["width"] = draw(st.integers(1, 12))
    c["sgn"] = draw(st.sampled_from([1, -1]))
    c["phi"] = draw(st.integers(0, 15))
    if draw(st.integers(0, 3)) == 0:
        c["kind"] = "any"           # an arbitrary texture, with or without a wall
    return c


def setup(case):
    P = sim.Problem(case)
    if case.get("kind") != "any":
        d = "XYZ".index(case["dir"])
        lo, hi = P.mesh.p.min(axis=0), P.mesh.p.max(axis=0)
        c = float((lo + hi)[d] / 2 + (hi - lo)[d] / 2 * case["pos"] / 10)
        w = float((hi - lo)[d] / 2 * case["width"] / 12)
        s = "((%s - (%r))/%r)" % ("xyz"[d], c, w)
        e = [None] * 3
        f = case["phi"] * 0.4
        e[d] = f"({case['sgn']})*{s}/sqrt(1 + {s}*{s})"
        e[(d + 1) % 3] = f"({math.cos(f)!r})/sqrt(1 + {s}*{s})"
        e[(d + 2) % 3] = f"({math.sin(f)!r})/sqrt(1 + {s}*{s})"
        P.m0 = e
        x = (P.mesh.p[:, d] - c) / w
        u = np.zeros_like(P.mesh.p)
        u[:, d] = case["sgn"] * x / np.sqrt(1 + x * x)
        u[:, (d + 1) % 3] = math.cos(f) / np.sqrt(1 + x * x)
        u[:, (d + 2) % 3] = math.sin(f) / np.sqrt(1 + x * x)
        u[~P.model.magnode] = np.nan
        P.u0 = u
    else:
        P.m0 = sim.texture_expr(case["m0"], P.L)
    return P


def nearest(p, q, l):
    """indices of the points of p which may be taken for the nearest to q"""
    d = np.linalg.norm(p - q, axis=1)
    return np.nonzero(d <= d.min() + 1e-7 * l)[0]


def translated(P, u, d):
    """None: no wall; [] if unclear; else the list of possible states, each given as the list of candidate
    nodes of every magnetic node"""
    mag = np.nonzero(P.model.magnode)[0]
    p = P.mesh.p[mag]
    um = u[mag]
    lo, hi = p.min(axis=0), p.max(axis=0)
    c, l = (lo + hi) / 2, (hi - lo)[d]
    e = np.eye(3)[d]
    L, R = nearest(p, c - e * l / 2, l), nearest(p, c + e * l / 2, l)
    prod = np.array([um[a, d] * um[b, d] for a in L for b in R])
    if np.abs(prod).min() < 1e-9 or prod.min() * prod.max() < 0:
        return []
    if prod.min() > 0:
        return None
    avg = P.model.avg(u)[d]
    out = []
    for D in sorted({avg * l / 2 * um[a, d] for a in L}):
        cand = []
        for q in p:
            q = q + D * e
            # a point at the very end may be taken as inside or outside
            x = q[d] - c[d]
            opts = set()
            if abs(x) <= l / 2 * (1 + 1e-9):
                opts.update(nearest(p, q, l))
            if x >= l / 2 * (1 - 1e-9):
                opts.update(nearest(p, c + e * l / 2, l))
            if x <= -l / 2 * (1 - 1e-9):
                opts.update(nearest(p, c - e * l / 2, l))
            cand.append(sorted(opts))
        out.append(cand)
    return out


def check(case, ctx):
    P = setup(case)
    m = P.model
    mag = m.magnode
    d = "XYZ".index(case["dir"])
    thr = abs(case["thr"])
    rec = {"enable": True, "direction": case["dir"], "threshold": case["thr"]}
    if case["given"] == "no threshold":
        del rec["threshold"]
        thr = 0.1
    if case["given"] == "no direction":
        del rec["direction"]
        d = 2
    cwd = ctx.fresh_dir()
    ref_cwd = os.path.join(cwd, "without")
    os.mkdir(ref_cwd)
    exe = ctx.artefacts["exe"]
    n = case["steps"]
    for tol in (1e-12, 1e-9, 1e-6):
        fes = {"tolerance": tol, "max(iter)": 3000}
        r = P.run(exe, cwd, P.settings(initial_magnetization=P.m0, recentering=rec, finite_element_solver=fes))
        require(r.rc in (0, 1), "the run neither ended nor reported a problem: {!r}", r)
        cols, raw = e2e.read_evol(os.path.join(cwd, "run.evol"))
        table = sim.rows(cols, raw)
        if all(sim.close(x["dt"], P.dt, 1e-6, 0) for x in table[1:]) and "ABORTED" not in r.out:
            break
    else:
        ctx.nontrivial = False
        ctx.label("solver failures")
        return
    # the run without recentering
    s0 = P.settings(initial_magnetization=P.m0, finite_element_solver=fes,
                    recentering={"enable": False, "direction": case["dir"], "threshold": case["thr"]})
    r0 = P.run(exe, ref_cwd, s0)
    sim.must_run(r0, "the run without recentering")
    u = e2e.read_sol(os.path.join(cwd, "run_iter0.sol"))[2][:, 1:4]
    require(np.abs(u - P.u0)[mag].max() < 2e-6, "the initial state is not the requested one")
    u = np.nan_to_num(u)
    v = np.zeros_like(u)
    phi, phiv = m.potential(u), np.zeros(len(u))
    fired = 0
    ctx.nontrivial = False
    t = P.t0
    names = ["<Mx>", "<My>", "<Mz>"]
    for k in range(1, n + 1):
        v = m.step(u, v, phi, phiv, P.dt, P.taur, P.H(t))
        unext = m.advance(u, v, P.dt)
        if np.abs(P.dt * v).max() > 0.5:
            ctx.label("large change, not judged")
            return
        t = P.t0 + k * P.dt
        a = abs(m.avg(unext)[d])
        if abs(a - thr) < 1e-5:
            ctx.label("too close to the threshold to tell")
            return
        states = [[[i] for i in range(int(mag.sum()))]]
        what = "no recentering"
        if a > thr:
            fired += 1
            ctx.nontrivial = True
            ctx.label("fired along " + "XYZ"[d])
            states = translated(P, unext, d)
            what = "recentering"
            if states is None:
                require(r.rc == 1 and "wall" in (r.err + r.out).lower(),
                        "step {}: threshold passed without a wall, the run did not report it: {!r}", k, r)
                require(len(table) <= k, "rows after the failure")
                ctx.label("no wall reported")
                return
            if not states:
                ctx.label("ends unclear")
                return
        require(k < len(table), "step {} ({}): the run failed: {!r}", k, what, r)
        new = e2e.read_sol(os.path.join(cwd, f"run_iter{k}.sol"))[2][:, 1:4]
        require(np.isnan(new[~mag]).all(), "step {}: non-magnetic nodes have a magnetization", k)
        new = new[mag]
        require(np.isfinite(new).all(), "step {} ({}): a magnetic node is undefined", k, what)
        require(np.abs(np.linalg.norm(new, axis=1) - 1).max() < 1e-6, "step {} ({}): not of unit length", k, what)
        um = unext[mag]
        best = min(max(min(np.abs(new[i] - um[j]).max() for j in js) for i, js in enumerate(cand)) for cand in states)
        require(best < 3e-5, "step {} ({}, |<M{}>| = {}, threshold {}): a node differs by {} from the expected value", k,
                what, "xyz"[d], a, thr, best)
        u = np.zeros_like(u)
        u[mag] = new
        avg = m.avg(u)
        for i in range(3):
            require(abs(table[k][names[i]] - avg[i]) < 2e-6, "row {}: {} is {}, the saved state has {}", k, names[i],
                    table[k][names[i]], avg[i])
        phi, phiv = m.potential(u), m.potential(v)
        E = m.energies(u, phi, P.H(t))
        scale = sum(abs(x) for x in E.values()) if isinstance(E, dict) else float(np.abs(E).sum())
        ed = E["demag"] if isinstance(E, dict) else E[2]
        require(abs(table[k]["E_demag"] - ed) < 1e-4 * scale + 1e-26, "row {}: E_demag is {}, the saved state has {}", k,
                table[k]["E_demag"], ed)
        if what == "recentering":
            v = np.zeros_like(v)
            phiv = np.zeros(len(u))
            ctx.label("moved")
            if case.get("kind") != "any" and case["width"] <= 4 and abs(case["pos"]) <= 7:
                was = abs(m.avg(unext)[d])
                ctx.label("closer to the middle", abs(avg[d]) < was)
    require(r.rc == 0, "the run failed: {!r}", r)
    if not fired:
        c0, raw0 = e2e.read_evol(os.path.join(ref_cwd, "run.evol"))
        for k, (x, y) in enumerate(zip(table, sim.rows(c0, raw0))):
            for q in cols:
                if not (x[q] == y[q] or (math.isnan(x[q]) and math.isnan(y[q]))):
                    lim = 1e-7 * (abs(y["E_ex"]) + abs(y["E_demag"]) + abs(y["E_zeeman"]) + abs(y["E_aniso"])) if q[0] == "E" \
                        else 1e-6 * max(abs(y[q]), y["max_dm"] / y["dt"] if q[:2] == "<d" and y["dt"] else 0, 1e-6)
                    require(abs(x[q] - y[q]) <= lim, "row {}: below the threshold, {} is {} with and {} without recentering",
                            k, q, x[q], y[q])
    ctx.label("below the threshold", not fired)


TESTS = [Test("wall", walls(), check, 250, 6000)]
