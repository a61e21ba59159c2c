"""C01: magnetization keeps unit length, moves in its tangent plane, only where magnetic."""
import ctypes
import math
import os

import numpy as np
from hypothesis import strategies as st

import c04
import e2e
import fgbuild
import sim
from pbt import Test, require

PROPERTY = "C01"
RULE = ("a case is non-trivial when the magnetization moved; for runs, when at least one step was made "
        "(a share of the runs has non-magnetic regions, counted by label)")
ASSUMPTIONS = ["ScalFMM is replaced by an exact direct sum with the same interface",
               "saved configurations have 7 digits"]
TARGETS = [(None, {"elem": c04.ELEM, "exe": fgbuild.EXE})]


def ptr(a):
    return a.ctypes.data_as(ctypes.c_void_p)


@st.composite
def walks(draw):
    kind = draw(st.sampled_from(["int", "axis", "near"]))
    if kind == "int":
        u = draw(sim.AXIS)
    else:
        u = [0.0, 0.0, 0.0]
        u[draw(st.integers(0, 2))] = draw(st.sampled_from([1.0, -1.0]))
        if kind == "near":
            i = draw(st.integers(0, 2))
            u[i] += draw(st.sampled_from([1, -1])) * 10.0 ** -draw(st.integers(1, 17))
    steps = draw(st.lists(st.tuples(st.integers(-400, 400), st.integers(-30, 30), st.integers(-30, 30),
                                    st.integers(-6, 16)).map(list), min_size=1, max_size=12))
    return {"u": u, "steps": steps}


def node(c, ctx):
    u = np.array(c["u"], float)
    u /= np.linalg.norm(u)
    prm = np.array([[s[0] / 50, s[1] * 1e10, s[2] * 1e10, 10.0 ** (s[3] / 2 - 16)] for s in c["steps"]])
    out = np.zeros((len(prm), 14))
    ctx.lib("elem").el_node(ptr(u), len(prm), ptr(prm), ptr(out))
    moved = False
    for k, (p, o) in enumerate(zip(prm, out)):
        ep, eq, v, w = o[0:3], o[3:6], o[6:9], o[9:12]
        B = np.array([u, ep, eq])
        require(np.abs(B @ B.T - np.eye(3)).max() < 1e-14 * 20, "step {}: basis {} at {} not orthonormal", k,
                [ep, eq], u)
        require(abs(np.linalg.det(B) - 1) < 1e-12, "step {}: basis not right-handed", k)
        speed = math.hypot(p[1], p[2])
        require(abs(v @ u) <= 1e-13 * speed, "step {}: velocity {} along {}", k, v, u)
        require(np.abs(v - p[1] * ep - p[2] * eq).max() <= 1e-13 * speed, "step {}: velocity {}", k, v)
        require(abs(o[12] - p[1]) <= 1e-13 * speed and abs(o[13] - p[2]) <= 1e-13 * speed,
                "step {}: components {} of the velocity {}", k, o[12:], p[1:3])
        new = u + p[3] * v
        new = new / np.linalg.norm(new)
        require(abs(np.linalg.norm(w) - 1) < 2e-15, "step {}: length {}", k, np.linalg.norm(w))
        require(np.abs(w - new).max() < 1e-13, "step {}: {} instead of {}", k, w, new)
        moved |= bool(np.abs(w - u).max() > 1e-12)
        u = w
    ctx.nontrivial = moved


def runs(case, ctx):
    P = sim.Problem(case)
    cwd = ctx.fresh_dir()
    r, table, tol = P.run_steps(ctx.artefacts["exe"], cwd)
    m = P.model
    old = None
    for k, row in enumerate(table):
        sol = e2e.read_sol(os.path.join(cwd, f"run_iter{k}.sol"))[2]
        u = sol[:, 1:4]
        require(len(u) == len(m.magnode), "{} nodes in the file instead of {}", len(u), len(m.magnode))
        require(np.isnan(u[~m.magnode]).all(), "step {}: non-magnetic nodes have a magnetization", k)
        u = u[m.magnode]
        require(np.isfinite(u).all(), "step {}: a magnetic node is undefined", k)
        d = np.abs(np.linalg.norm(u, axis=1) - 1).max()
        require(d < 4e-7, "step {}: length off by {}", k, d)
        require(all(np.isfinite(v) for n, v in row.items() if n not in ("Hx", "Hy", "Hz")), "row {}: {}", k,
                row)        # the field columns are undefined for a field that depends on the position
        if k:
            # moved in the tangent plane: u' = (u + dt v)/|u + dt v| and v.u = 0 give dt v below
            c = np.einsum("ij,ij->i", u, old)
            require(c.min() > -1e-6, "step {}: a node turned by more than 90 degrees", k)
            if c.min() < 1e-3:      # too close to 90 degrees for the digits of the file
                ctx.label("90 degrees")
                old = u
                continue
            dv = u / c[:, None] - old
            big = np.linalg.norm(dv, axis=1).max()
            err = 4e-7 * (1 + big) ** 2
            require(abs(big - row["max_dm"]) < err, "step {}: largest move in the tangent plane is {}, "
                    "max_dm is {}", k, big, row["max_dm"])
            full = np.zeros((len(m.magnode), 3))
            full[m.magnode] = dv
            avg = m.avg(full)
            for i, a in enumerate("xyz"):
                require(abs(row[f"<dM{a}/dt>"] * row["dt"] - avg[i]) < err, "step {}: average move along {} "
                        "is {}, <dM/dt> dt is {}", k, a, avg[i], row[f"<dM{a}/dt>"] * row["dt"])
        old = u
    ctx.label("non-magnetic nodes", bool((~m.magnode).any()))
    ctx.nontrivial = case["steps"] > 0


@st.composite
def wild(draw):
    """long steps: large changes of direction"""
    c = draw(sim.problem(steps=(1, 6), max_cells=3, regions=3, nonmag=True))
    c["dt"] = draw(st.sampled_from([1e-12, 5e-12, 2e-11]))
    return c


TESTS = [Test("node", walks(), node, 2500, 80000),
         Test("runs", sim.problem(steps=(1, 4), regions=3, nonmag=True), runs, 200, 4000),
         Test("long steps", wild(), runs, 200, 4000)]
