"""C21: energy decays under damping; a single-domain body follows the analytic law."""
import math
import os

import numpy as np
from hypothesis import strategies as st

import e2e
import fgbuild
import meshgen
import ref
import sim
from pbt import Test, require

PROPERTY = "C21"
RULE = ("macrospin: a case is non-trivial when the magnetization turned by more than 0.05 rad; decay: when the energy decreased by "
        "more than a thousandth of the energies at stake")
ASSUMPTIONS = ["the accuracy to expect is set by the largest change of the magnetization in one time step, chosen by max(du)",
               "the balance of energy and damping is judged where the demagnetizing field is a small part of the field; with a "
               "full demagnetizing field on a coarse mesh only the decay is judged", "one saturation magnetization per body in the energy balance"]
TARGETS = [(None, {"exe": fgbuild.EXE})]
SIDES = ["x0", "x1", "y0", "y1", "z0", "z1"]


def unit(v):
    v = np.array(v, float)
    return v / np.linalg.norm(v)


@st.composite
def macrospin(draw):
    c = {"mesh": draw(meshgen.mesh_case(max_n=3, max_cells=3, regions=1, sides=(), flip=True, axis=True))}
    c["mesh"]["sides"] = {s: "skin" for s in SIDES}
    c["Ms"] = draw(st.sampled_from([8e5, 1.4e6, 2e5]))
    c["alpha"] = draw(st.sampled_from([0.02, 0.05, 0.1, 0.3, 1.0]))
    c["m0"] = draw(sim.AXIS)
    c["B"] = [draw(st.integers(-10, 10)) for _ in range(3)]
    c["K"] = draw(st.sampled_from([0, 0, 0.3, -0.4, 0.8]))     # anisotropy field (T)
    c["uk"] = draw(sim.AXIS)
    c["K3"] = draw(st.sampled_from([0, 0, 0, 0.3, -0.3]))
    c["rot"] = [draw(st.integers(-3, 3)) for _ in range(3)]
    c["turns"] = draw(st.integers(1, 20))
    c["rows"] = draw(st.integers(2, 12))
    c["du"] = draw(st.sampled_from([0.02, 0.01, 0.05]))
    c["fmt"] = draw(st.sampled_from(["22a", "22b", "41a"]))
    return c


def law(c):
    """right hand side of the Landau-Lifshitz-Gilbert equation, largest angular speed"""
    b = np.array(c["B"]) / 10
    uk, R = unit(c["uk"]), sim.rotation(*c["rot"])
    g, al = ref.GAMMA0 / ref.MU0, c["alpha"]

    def speed(m):
        x = R @ m
        f = b + c["K"] * (uk @ m) * uk - c["K3"] * (x * (1 - x * x)) @ R
        p = np.cross(m, f)
        return -g / (1 + al * al) * (p + al * np.cross(m, p))
    wmax = g * (np.linalg.norm(b) + abs(c["K"]) + abs(c["K3"]))
    return speed, wmax


def trajectory(c, T, rows):
    f, w = law(c)
    m = unit(c["m0"])
    n = max(1, math.ceil(w * T / rows / 0.02))
    h = T / rows / n
    out, path = [m], 0.0
    for _ in range(rows):
        for _ in range(n):
            k1 = f(m)
            k2 = f(m + h / 2 * k1)
            k3 = f(m + h / 2 * k2)
            k4 = f(m + h * k3)
            d = h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
            path += np.linalg.norm(d)
            m = m + d
            m = m / np.linalg.norm(m)
        out.append(m)
    return np.array(out), path


def precession(c, ctx):
    mesh = meshgen.build(c["mesh"])
    f, w = law(c)
    if w == 0:
        w = 1e11
    T = c["turns"] * 0.3 / w
    region = {"Ms": c["Ms"], "alpha_LLG": c["alpha"]}
    if c["K"]:
        region["K"] = c["K"] * c["Ms"] / 2
        region["uk"] = c["uk"]
    if c["K3"]:
        region["K3"] = c["K3"] * c["Ms"] / 2
        region.update({k: [float(x) for x in row] for k, row in zip(("ex", "ey", "ez"), sim.rotation(*c["rot"]))})
    dt = c["du"] / w
    s = {"outputs": {"file_basename": "run", "evol_time_step": T / c["rows"], "final_time": T, "mag_config_every": False,
                     "evol_columns": ["t", "<Mx>", "<My>", "<Mz>", "max_angle", "E_tot", "max_dm"]},
         "mesh": {"filename": "m.msh", "length_unit": mesh.scale, "volume_regions": {"vol0": region},
                  "surface_regions": {"skin": {"suppress_charges": True}}},
         "initial_magnetization": c["m0"], "Bext": [x / 10 for x in c["B"]],
         "demagnetizing_field_solver": {"nb_threads": 1},
         "finite_element_solver": {"tolerance": 1e-9, "max(iter)": 3000},
         "time_integration": {"max(du)": c["du"], "min(dt)": dt * 1e-6, "max(dt)": dt}}
    cwd = ctx.fresh_dir()
    meshgen.write_msh(mesh, os.path.join(cwd, "m.msh"), c["fmt"])
    e2e.write_yaml(s, os.path.join(cwd, "s.yml"))
    r = e2e.run(ctx.artefacts["exe"], ["--seed", "3", "s.yml"], cwd)
    if r.rc == 1 and "ABORTED" in r.out:
        ctx.label("solver failures")
        ctx.nontrivial = False
        return
    sim.must_run(r)
    t = sim.rows(*e2e.read_evol(os.path.join(cwd, "run.evol")))
    want, path = trajectory(c, T, c["rows"])
    require(len(t) == c["rows"] + 1, "{} rows", len(t))
    order = 1.0 if c["K3"] else min(1.0, 3 * c["du"] / c["alpha"])    # second order once the steps are small compared to the damping
    for k, x in enumerate(t):
        got = np.array([x[q] for q in sim.M_COLS])
        tol = 1e-5 + 0.8 * c["du"] * order * w * T * k / len(t) * (0.1 + np.linalg.norm(f(want[0])) / w)
        e = np.abs(got - want[k]).max()
        require(abs(np.linalg.norm(got) - 1) < 1e-6, "row {}: the average magnetization {} of a single domain is not of unit length", k, got)
        require(e <= tol, "row {}: magnetization {}, the Landau-Lifshitz-Gilbert equation gives {} (accuracy {})", k, got, want[k], tol)
    ctx.nontrivial = path > 0.05


@st.composite
def relaxing(draw, strong=False):
    c = {"mesh": draw(meshgen.mesh_case(max_n=3, max_cells=4, regions=2, sides=("x0", "z1", "y0"), flip=True, axis=True))}
    c["strong"] = strong
    c["regs"] = {}
    # one Ms: the scheme does not weight the equation of a node shared by two regions with their Ms, which costs energy balance there
    Ms = draw(st.sampled_from([8e5, 1.4e6] if strong else [1e3, 2e3, 500]))
    for r in sorted(set(c["mesh"].get("reg") or [0])):
        q = c["regs"][f"vol{r}"] = {"Ms": Ms}
        q["alpha"] = draw(st.sampled_from([0.1, 0.3, 1.0, 0.05]))
        q["K"] = draw(st.sampled_from([0, 0.3, -0.4, 0.8]))     # anisotropy and exchange fields (T)
        q["uk"] = draw(sim.AXIS)
        q["K3"] = draw(st.sampled_from([0, 0, 0.3, -0.3]))
        q["rot"] = [draw(st.integers(-3, 3)) for _ in range(3)]
        q["A"] = draw(st.sampled_from([0.1, 0.5, 0]))
    c["surf"] = {}
    for x in sorted(set((c["mesh"].get("sides") or {}).values())):
        c["surf"][x] = {"Ks": draw(st.sampled_from([0, 0.1, -0.1])), "uk": draw(sim.AXIS)}
    c["m0"] = draw(sim.texture())
    c["B"] = [draw(st.integers(-10, 10)) for _ in range(3)]
    c["steps"] = draw(st.integers(2, 40))
    c["du"] = draw(st.sampled_from([0.01, 0.02]))
    c["fmt"] = draw(st.sampled_from(["22a", "22b", "41a"]))
    return c


def decay(c, ctx):
    mesh = meshgen.build(c["mesh"])
    g = ref.Geo(mesh.p, mesh.tets)
    h = (g.vol.sum() / len(mesh.tets)) ** (1 / 3)
    names, snames = set(mesh.treg), set(mesh.sreg)
    regs, w = {}, 0.0
    gmax = max(np.einsum("id,id->i", g.grad[t], g.grad[t]).max() for t in range(len(mesh.tets)))
    msmin = min(q["Ms"] for k, q in c["regs"].items() if k in names)
    surf = {k: {"Ks": q["Ks"] * msmin * h, "uk": q["uk"]} for k, q in c["surf"].items() if k in snames}
    for k, q in c["regs"].items():
        if k not in names:
            continue
        regs[k] = {"Ms": q["Ms"], "alpha_LLG": q["alpha"], "Ae": q["A"] * q["Ms"] / gmax}
        if q["K"]:
            regs[k].update(K=q["K"] * q["Ms"] / 2, uk=q["uk"])
        if q["K3"]:
            regs[k].update(K3=q["K3"] * q["Ms"] / 2, **{a: [float(x) for x in row] for a, row in zip(
                ("ex", "ey", "ez"), sim.rotation(*q["rot"]))})
        w = max(w, 2 * q["A"] * 4 + abs(q["K"]) + abs(q["K3"]) + (4e-7 * math.pi * q["Ms"] if c["strong"] else 0))
    b = np.array(c["B"]) / 10
    w = ref.GAMMA0 / ref.MU0 * (w + np.linalg.norm(b) + (3.0 if any(q["Ks"] for q in surf.values()) else 0))
    if w == 0:
        w = 1e11
    dt, n = c["du"] / w, c["steps"]
    L = float(np.ptp(mesh.p, axis=0).max())
    s = {"outputs": {"file_basename": "run", "evol_time_step": dt, "final_time": n * dt, "mag_config_every": 1,
                     "evol_columns": ["t", "dt", "max_dm", "max_angle", *sim.ENERGY_COLS]},
         "mesh": {"filename": "m.msh", "length_unit": mesh.scale, "volume_regions": regs, "surface_regions": surf},
         "initial_magnetization": sim.texture_expr(c["m0"], L), "Bext": [float(x) for x in b],
         "demagnetizing_field_solver": {"nb_threads": 1},
         "finite_element_solver": {"tolerance": 1e-9, "max(iter)": 3000},
         "time_integration": {"max(du)": 10 * c["du"], "min(dt)": dt / 5, "max(dt)": 10 * dt}}
    cwd = ctx.fresh_dir()
    meshgen.write_msh(mesh, os.path.join(cwd, "m.msh"), c["fmt"])
    e2e.write_yaml(s, os.path.join(cwd, "s.yml"))
    r = e2e.run(ctx.artefacts["exe"], ["--seed", "3", "s.yml"], cwd)
    if r.rc == 1 and "ABORTED" in r.out:
        ctx.label("solver failures")
        ctx.nontrivial = False
        return
    sim.must_run(r)
    t = sim.rows(*e2e.read_evol(os.path.join(cwd, "run.evol")))
    require(len(t) == n + 1, "{} rows", len(t))
    if not all(sim.close(x["dt"], dt, 1e-6, 0) for x in t[1:]):
        ctx.label("other steps")
        ctx.nontrivial = False
        return
    weight = np.zeros(len(mesh.p))
    bound = 0.0
    for i, tet in enumerate(mesh.tets):
        q = regs[mesh.treg[i]]
        weight[tet] += q["alpha_LLG"] * q["Ms"] * g.vol[i] / 4
        bound += q["Ms"] * g.vol[i]
    weight *= ref.MU0 / ref.GAMMA0
    bound_field = w / ref.GAMMA0
    bound *= w * ref.MU0 / ref.GAMMA0           # energy of the largest field
    u = [e2e.read_sol(os.path.join(cwd, f"run_iter{k}.sol"))[2][:, 1:4] for k in range(n + 1)]
    lost = moved = 0.0
    # on a coarse mesh the demagnetizing field and, where the texture turns, the cubic anisotropy field are not exactly the gradients of
    # their energies: accuracy of these fields, as an energy
    angle = max(x["max_angle"] for x in t)
    demag = bound / bound_field * max(0.1 * q["Ms"] + abs(q.get("K3", 0)) / q["Ms"] / ref.MU0 * angle**2 for q in regs.values())
    for k in range(1, n + 1):
        de = t[k]["E_tot"] - t[k - 1]["E_tot"]
        d = float(weight @ ((u[k] - u[k - 1]) ** 2).sum(axis=1)) / dt
        lost += d
        move = float(weight @ np.linalg.norm(u[k] - u[k - 1], axis=1) / weight.sum())
        moved += move
        require(de <= (0.5 if c["strong"] else 0.2) * d + demag * move + 1e-9 * bound, "step {}: the energy increases by {}, with damping and a constant field", k, de)
    change = t[-1]["E_tot"] - t[0]["E_tot"]
    if not c["strong"]:
        cubic = any(q.get("K3") for q in regs.values())
        tol = (0.02 + c["du"] * (1 + 0.2 / min(q["alpha_LLG"] for q in regs.values())) + (20 * c["du"] if cubic else 0)) * lost + demag * moved + 1e-9 * bound
        require(abs(change + lost) <= tol, "the energy changed by {}, the damping dissipated {}", change, lost)
    ctx.nontrivial = t[0]["E_tot"] - t[-1]["E_tot"] > 1e-3 * bound


TESTS = [Test("macrospin", macrospin(), precession, 150, 4000), Test("decay", relaxing(), decay, 300, 6000),
         Test("strong", relaxing(strong=True), decay, 150, 3000)]
