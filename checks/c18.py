"""C18: the electrostatic potential solves the conduction problem."""
import os

import numpy as np
from hypothesis import strategies as st

import e2e
import fgbuild
import sim
import spin
from pbt import Test, require

PROPERTY = "C18"
RULE = "a case is non-trivial when the problem was solved and has a node where the potential is not prescribed"
ASSUMPTIONS = ["the electrodes do not touch each other, every region conducts",
               "the accuracy to expect is the tolerance of the code's solver (1e-8) times the condition number of the "
               "system; problems with a condition number above 1e4 are not judged"]
TARGETS = [(None, {"exe": fgbuild.EXE})]


def run(case, ctx, P, outdir=".", **over):
    cwd = ctx.fresh_dir()
    s = spin.settings(case, P, **over)
    s["outputs"]["directory"] = outdir
    return P.run(ctx.artefacts["exe"], cwd, s), cwd


def read_v(path):
    head, rows = e2e.read_table(path)
    require(e2e.header_value(head, "## columns:").split("\t") == ["index", "V"], "columns of the potential file: {}", head)
    idx = [int(r[0]) for r in rows]
    require(idx == list(range(len(idx))), "indices of the potential file: {}", idx)
    return np.array([float(r[1]) for r in rows])


@st.composite
def fields(draw):
    c = draw(spin.conductor(max_cells=8))
    c["outdir"] = draw(st.sampled_from([".", "out", "out dir"]))
    return c


def solved(case, ctx):
    P = sim.Problem(case)
    V, cond, total, K, L, fix, free = spin.potential(case, P)
    r, cwd = run(case, ctx, P, case["outdir"])
    require(r.rc in (0, 1), "the run neither ended nor reported a problem: {!r}", r)
    path = os.path.join(cwd, case["outdir"], "run_V.sol")
    if not os.path.exists(path):
        require(r.rc != 0, "no potential file in the output directory: {}", [f for _, _, fs in os.walk(cwd) for f in fs])
        require(cond > 1e4, "the conduction problem was not solved (condition number {}): {!r}", cond, r)
        ctx.nontrivial = False
        return
    require(os.path.exists(os.path.join(cwd, "run_V.sol")) == (case["outdir"] == "."), "potential file outside of the output "
            "directory")
    got = read_v(path)
    require(len(got) == len(V), "{} nodes instead of {}", len(got), len(V))
    require(np.isfinite(got).all(), "undefined potentials: {}", got)
    require(np.abs(got[fix] - case["V"]).max() <= 1e-8 * abs(case["V"]), "potential {} prescribed, {} found", case["V"], got[fix])
    if cond > 1e4:
        ctx.nontrivial = False
        return
    scale = np.abs(V).max()
    err = np.abs(got - V).max()
    require(err <= (1e-7 + 3e-8 * cond) * scale, "the potential differs by {} from the solution (largest {})", err,
            scale)
    if scale < 100 * np.ptp(V):
        # current through the other electrode
        out = (K @ got - L)[fix].sum()
        require(abs(out - total) <= 1e-4 * (1 + cond * 1e-2) * abs(total), "{} A enter, {} A leave", total, out)
    ctx.nontrivial = len(free) > 0
    ctx.label("regions", len(P.regs))


@st.composite
def bars(draw):
    c = draw(spin.conductor(max_cells=6, regions=1))
    m = c["mesh"]
    m["jit"] = 0
    m["shear"] = [0, 0, 0]
    return c


def affine(case, ctx):
    P = sim.Problem(case)
    r, cwd = run(case, ctx, P)
    require(r.rc in (0, 1), "the run neither ended nor reported a problem: {!r}", r)
    path = os.path.join(cwd, "run_V.sol")
    if not os.path.exists(path):
        require(False, "conduction through a uniform bar not solved: {!r}", r)
    got = read_v(path)
    sides = {v: k for k, v in case["mesh"]["sides"].items()}
    d = "xyz".index(sides["in"][0])
    x = P.mesh.p[:, d]
    x_out = x[spin.nodes_of(P.mesh, "out")].mean()
    sigma = P.regs["vol0"]["sigma"]
    # j.n = jn out of the body through "in"
    n_in = -1 if sides["in"][1] == "0" else 1
    want = case["V"] - case["jn"] * n_in / sigma * (x - x_out)
    require(np.abs(got - want).max() <= 1e-5 * np.abs(want).max(), "potential {} instead of {}", got, want)


@st.composite
def conditions(draw):
    c = draw(spin.conductor(max_cells=2, regions=2))
    c["mesh"]["sides"].setdefault("y1", "third")
    c["surf"].setdefault("third", {})
    c["mut"] = draw(st.sampled_from(["none", "no V", "no jn", "no s", "two V", "two jn", "two s", "no N0", "no P", "P of 1", "P of 1.5", "negative P", "split", "no uP",
                                     "both", "none", "off"]))
    return c


def boundary(case, ctx):
    """exactly one electrode with a current, one with a potential, one with a spin accumulation"""
    P = sim.Problem(case)
    if "third" not in P.surf:
        ctx.nontrivial = False
        return
    s = spin.settings(case, P)
    surf = s["mesh"]["surface_regions"]
    vols = s["mesh"]["volume_regions"] = {k: dict(v) for k, v in s["mesh"]["volume_regions"].items()}
    any_vol = vols[sorted(vols)[0]]
    mut = case["mut"]
    ok = mut in ("none", "split", "off")
    if mut == "no V":
        del surf["out"]["V"]
    if mut == "no jn":
        del surf["in"]["jn"]
    if mut == "no s":
        del surf["out"]["s"]
    if mut == "two V":
        surf["third"]["V"] = 1.0
    if mut == "two jn":
        surf["third"]["jn"] = 1e5
    if mut == "two s":
        surf["third"]["s"] = [0, 0, 0]
    if mut == "no N0":
        del any_vol["dens_state"]
    if mut == "no P":
        any_vol["P"] = float("nan")
    if mut == "P of 1":
        any_vol["P"] = 1.0
    if mut == "P of 1.5":
        any_vol["P"] = 1.5
    if mut == "negative P":
        any_vol["P"] = -0.1
    if mut == "no uP":
        surf["in"]["uP"] = None
    if mut == "both":
        surf["in"]["V"] = 0.0
    if mut == "split":          # the spin accumulation may be given on another surface than the potential
        surf["third"]["s"] = surf["out"].pop("s")
    if mut == "off":
        s["spin_accumulation"] = {"enable": False}
        for x in surf.values():
            for k in ("jn", "V", "s", "uP"):
                x.pop(k, None)
    cwd = ctx.fresh_dir()
    r = P.run(ctx.artefacts["exe"], cwd, s)
    if ok:
        if r.rc == 1:
            require("boundary condition" not in r.err, "valid boundary conditions rejected: {!r}", r)
            ctx.nontrivial = False
        else:
            require(r.rc == 0, "crash: {!r}", r)
            require(os.path.exists(os.path.join(cwd, "run_V.sol")) == (mut != "off"), "potential file")
    else:
        require(r.rc == 1 and r.err.strip(), "{}: not rejected: {!r}", mut, r)
        require(not os.path.exists(os.path.join(cwd, "run.evol")), "{}: rejected, but there is an evolution file", mut)
    ctx.label(mut)


TESTS = [Test("solved", fields(), solved, 200, 6000), Test("affine", bars(), affine, 60, 1500),
         Test("boundary", conditions(), boundary, 150, 2500)]
