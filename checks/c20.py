"""C20: results do not depend on numbering, file format, seed, threads or frame."""
import math
import os
import re
import shutil

import numpy as np
from hypothesis import strategies as st

import e2e
import fgbuild
import meshgen
import sim
from pbt import Test, require

PROPERTY = "C20"
RULE = "a case is non-trivial when both runs made at least one step in which the magnetization changed by more than 1e-6"
ASSUMPTIONS = ["the two descriptions are compared to 1e-6 of the natural scale of each quantity, with a linear solver tolerance of "
               "1e-12 or 1e-9; when only a looser tolerance converges the comparison is as much looser",
               "the number of threads of the parallel loops is limited through the CPU affinity of the process"]
TARGETS = [(None, {"exe": fgbuild.EXE})]
KINDS = ["perm", "fmt", "unit", "shift", "seed", "threads", "rotate", "rotate", "perm"]


@st.composite
def pairs(draw, kinds=KINDS):
    c = draw(sim.problem(max_cells=6, regions=3, nonmag=True, steps=(1, 3)))
    c["how"] = draw(st.sampled_from(kinds))
    c["arg"] = [draw(st.integers(-9, 9)) for _ in range(3)]
    c["seed"] = [draw(st.integers(0, 2**31 - 1)), draw(st.integers(0, 2**31 - 1))]
    if c["how"] == "rotate":
        # with a cubic anisotropy the scheme's second order term depends on the frame: known finding
        for r in c["regs"].values():
            for k in ("K3", "ex", "ey", "ez"):
                r.pop(k, None)
    return c


def js_vec(expr, pre):
    return "function (x, y, z) { %s return [%s]; }" % (pre, ", ".join(expr))


def transform(case):
    """(problem, settings, mesh, A, b, args, env prefix): the points of the second problem are A p + b"""
    P = sim.Problem(case)
    s = P.settings()
    how, arg = case["how"], case["arg"]
    mesh = meshgen.build(case["mesh"])
    A, b = np.eye(3), np.zeros(3)
    fmt, pre, seed = case["fmt"], [], case["seed"][0]
    if how == "perm":
        mesh = meshgen.build(dict(case["mesh"], perm=case["mesh"].get("perm", 0) + 7 + abs(arg[0])))
    elif how == "fmt":
        fmt = {"22a": "41a", "22b": "22a", "41a": "22b"}[fmt]
    elif how == "unit":
        f = 10.0 ** arg[0] if arg[0] else 3.0
        mesh.nodes = mesh.nodes * f
        mesh.scale = mesh.scale / f
        s["mesh"]["length_unit"] = mesh.scale
    elif how == "seed":
        seed = case["seed"][1]
    elif how == "threads":
        s["demagnetizing_field_solver"] = {"nb_threads": 1 + abs(arg[0]) % 4}
        if arg[1] > 0 and shutil.which("taskset"):
            cpus = sorted(os.sched_getaffinity(0))
            pre = ["taskset", "-c", ",".join(map(str, cpus[:1 + arg[1] % 2]))]
    elif how in ("shift", "rotate"):
        if how == "shift":
            b = np.array(arg) * P.L / 3
        else:
            A = sim.rotation(*arg)
        nodes = (mesh.nodes * mesh.scale) @ A.T + b
        mesh.nodes = nodes / mesh.scale
        inv = "var X = x - (%r), Y = y - (%r), Z = z - (%r); " % tuple(map(float, b))
        inv += "x = %s; y = %s; z = %s; " % tuple(
            "(%r)*X + (%r)*Y + (%r)*Z" % tuple(map(float, A[:, i])) for i in range(3))

        def turned(expr, pre):
            v = "var a = %s, b = %s, c = %s; " % tuple(expr)
            out = ["(%r)*a + (%r)*b + (%r)*c" % tuple(map(float, A[i])) for i in range(3)]
            return pre + v + "return [%s];" % ", ".join(out)
        s["initial_magnetization"] = "function (x, y, z) { %s }" % turned(s["initial_magnetization"], inv)
        B = s.get("Bext")
        if isinstance(B, list):
            s["Bext"] = "function (t) { %s }" % turned([str(x) for x in B], "")
        elif isinstance(B, str):
            body = re.search(r"return \[(.*)\];", B)[1].split(", ")
            s["Bext"] = "function (t) { %s }" % turned(body, "")
        elif isinstance(B, dict):
            body = re.search(r"return \[(.*)\];", B["space"])[1].split(", ")
            s["Bext"] = dict(B, space="function (x, y, z) { %s }" % turned(body, inv))
        vols = {}
        for k, r in P.regs.items():
            r = vols[k] = dict(r)
            if r.get("K"):
                r["uk"] = [float(x) for x in A @ np.array(r.get("uk", [0, 0, 1]), float)]
            if r.get("K3"):
                for q, d in (("ex", [1, 0, 0]), ("ey", [0, 1, 0]), ("ez", [0, 0, 1])):
                    r[q] = [float(x) for x in A @ np.array(r.get(q, d), float)]
        surf = {}
        for k, r in P.surf.items():
            r = surf[k] = dict(r)
            if r.get("Ks"):
                r["uk"] = [float(x) for x in A @ np.array(r.get("uk", [0, 0, 1]), float)]
        s["mesh"] = dict(s["mesh"], volume_regions=vols, surface_regions=surf)
    return P, s, mesh, A, b, fmt, pre, seed


def check(case, ctx):
    P, s2, mesh2, A, b, fmt2, pre, seed2 = transform(case)
    exe = ctx.artefacts["exe"]
    cwd = ctx.fresh_dir()
    n = case["steps"]
    both = []
    for tol in (1e-12, 1e-9, 1e-6):
        both = []
        for name, s, mesh, fmt, seed, prefix in (("one", P.settings(), P.mesh, case["fmt"], case["seed"][0], []),
                                                 ("two", s2, mesh2, fmt2, seed2, pre)):
            d = os.path.join(cwd, name)
            shutil.rmtree(d, ignore_errors=True)
            os.mkdir(d)
            s["finite_element_solver"] = {"tolerance": tol, "max(iter)": 3000}
            meshgen.write_msh(mesh, os.path.join(d, "m.msh"), fmt)
            e2e.write_yaml(s, os.path.join(d, "s.yml"))
            if prefix:
                r = e2e.run(prefix[0], [*prefix[1:], exe, "--seed", str(seed), "s.yml"], d)
            else:
                r = e2e.run(exe, ["--seed", str(seed), "s.yml"], d)
            require(r.rc in (0, 1), "{}: the run neither ended nor reported a problem: {!r}", name, r)
            if r.rc:
                require("ABORTED" in r.out, "{}: a valid problem failed: {!r}", name, r)
                break
            cols, raw = e2e.read_evol(os.path.join(d, "run.evol"))
            t = sim.rows(cols, raw)
            require(len(t) == n + 1, "{}: {} rows", name, len(t))
            if not all(sim.close(x["dt"], P.dt, 1e-6, 0) for x in t[1:]):
                break
            both.append((t, [e2e.read_sol(os.path.join(d, f"run_iter{k}.sol")) for k in range(n + 1)]))
        if len(both) == 2:
            break
    else:
        ctx.nontrivial = False
        ctx.label("solver failures")
        return
    (ta, sa), (tb, sb) = both
    # node of the second mesh at the position of each node of the first
    pa, pb = P.mesh.p @ A.T + b, mesh2.p
    if case["how"] == "perm":
        dist = np.linalg.norm(pa[:, None] - pb[None], axis=2)
        to = dist.argmin(axis=1)
        require(dist[np.arange(len(pa)), to].max() < 1e-9 * P.L, "harness: nodes do not match")
    else:
        to = np.arange(len(pa))
    eps = 1e-6 + 1e3 * (tol if tol > 1e-9 else 0)
    m = P.model
    moved = 0.0
    scale_phi = P.L * max(m.Ms)
    for k in range(n + 1):
        a, c = sa[k][2], sb[k][2][to]
        ua, uc = a[:, 1:4] @ A.T, c[:, 1:4]
        require((np.isnan(ua) == np.isnan(uc)).all(), "step {}: not the same magnetic nodes", k)
        step = max(x["max_dm"] for x in ta[:k + 1])
        grow = (1 + step) ** 2
        e = np.abs(ua - uc)[m.magnode].max()
        require(e < 3 * eps * (1 + 10 * k) * grow, "step {}: magnetization differs by {} ({})", k, e, case["how"])
        e = np.abs(a[:, 4] - c[:, 4]).max()
        require(e < 10 * eps * (1 + k) * grow * scale_phi, "step {}: potential differs by {} ({})", k, e, case["how"])
        x, y = ta[k], tb[k]
        moved = max(moved, step)
        vmax = x["max_dm"] / x["dt"] if k else 0.0
        for cols in (sim.M_COLS, sim.V_COLS, ["Hx", "Hy", "Hz"]):
            if math.isnan(x[cols[0]]):
                continue
            va, vb = A @ np.array([x[q] for q in cols]), np.array([y[q] for q in cols])
            lim = {"<M": 3 * eps * (1 + 10 * k) * grow, "<d": 1e2 * eps * (1 + k) * vmax * grow + 1e-30, "Hx": 1e-9 * np.abs(va).max()}[cols[0][:2]]
            require(np.abs(va - vb).max() <= lim, "row {}: {} are {} and {} ({})", k, cols, va, vb, case["how"])
        exmax = sum(q.get("Ae", 1e-11) * m.g.vol[t] * np.linalg.norm(m.g.grad[t], axis=1).sum()**2
                    for t in np.nonzero(m.mag)[0] for q in [m.reg[m.mesh.treg[t]]])
        scale = abs(x["E_aniso"]) + abs(x["E_zeeman"]) + abs(x["E_demag"]) + abs(x["E_ex"]) + exmax + 4e-7 * math.pi * float(
            np.dot(m.Ms**2, m.g.vol))
        kv = sum(m.g.vol[t] * (abs(q.get("K", 0)) + abs(q.get("K3", 0))) for t in np.nonzero(m.mag)[0]
                 for q in [m.reg[m.mesh.treg[t]]])
        for q in sim.ENERGY_COLS:
            require(abs(x[q] - y[q]) <= 10 * eps * (1 + 10 * k) * grow * (scale + kv), "row {}: {} is {} and {} ({})", k, q, x[q], y[q],
                    case["how"])
        require(abs(x["max_angle"] - y["max_angle"]) <= 1e-4 * (1 + k) * grow + (1e-2 if eps > 1e-5 else 0), "row {}: max_angle is {} and {} ({})", k,
                x["max_angle"], y["max_angle"], case["how"])
        require(sim.close(x["t"], y["t"], 1e-12, P.dt) and x["iter"] == y["iter"], "row {}: time", k)
    ctx.label(case["how"])
    ctx.nontrivial = moved > 1e-6


TESTS = [Test("pairs", pairs(), check, 300, 8000)]
