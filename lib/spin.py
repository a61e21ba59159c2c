"""Conduction and spin diffusion: strategies and a dense reference."""
import numpy as np
from hypothesis import strategies as st

import meshgen
import ref
import sim

E_CH = 1.602176634e-19
HBAR = 6.62607015e-34 / (2 * np.pi)
M_E = 9.1093837015e-31
MUB = E_CH * HBAR / (2 * M_E)


@st.composite
def conductor(draw, magnetic=None, steps=(0, 0), max_cells=4, max_n=4, regions=3):
    """a problem with an electrode "in" (current density), one "out" (potential, spin accumulation)"""
    c = draw(sim.problem(max_cells=max_cells, max_n=max_n, regions=regions, nonmag=True, ks=False, steps=steps,
                         sides=("y0", "if"), kinds=("none", "const", "time")))
    ax = draw(st.sampled_from("xz"))
    ends = [ax + "0", ax + "1"]
    if draw(st.booleans()):
        ends.reverse()
    c["mesh"]["sides"] = dict(c["mesh"].get("sides") or {}, **{ends[0]: "in", ends[1]: "out"})
    for k in [k for k, v in c["mesh"]["sides"].items() if k == "y0"]:
        c["mesh"]["sides"][k] = "side"
    c["surf"] = {s: {"suppress_charges": True} if draw(st.booleans()) else {} for s in
                 sorted(set(c["mesh"]["sides"].values()))}
    size = np.ptp(meshgen.build(c["mesh"]).p, axis=0).max()
    for r in c["regs"].values():
        r["sigma"] = draw(st.sampled_from([1e7, 1.7e7, 3e6, 6e7]))
        r["dens_state"] = draw(st.sampled_from([1.34e47, 5e46, 3e47]))
        r["P"] = draw(st.sampled_from([0, 0.35, 0.7]))
        r["l_sf"] = float(size * draw(st.sampled_from([0.2, 1, 3])))
        r["l_sd"] = float(size * draw(st.sampled_from([0.3, 1, 4])))
    c["jn"] = draw(st.sampled_from([1e10, -3e9, 1e11, -2e11])) * 1e-3
    # in units of the potential drop: the solver's accuracy is relative to the largest of the two
    c["V"] = float(draw(st.sampled_from([0, 0.5, -2, 30])) * abs(c["jn"]) * size / 1e7)
    c["s"] = [draw(st.integers(-2, 2)) for _ in range(3)]
    if draw(st.integers(0, 3)):
        c["uP"] = draw(sim.AXIS)
    return c


def surfaces(c, P):
    """surface parameters of the settings file"""
    surf = {k: dict(v) for k, v in P.surf.items()}
    surf["in"]["jn"] = c["jn"]
    if "uP" in c:
        surf["in"]["uP"] = c["uP"]
    surf["out"]["V"] = c["V"]
    surf["out"]["s"] = s_out(c)
    return surf


def s_out(c):
    return [float(x) * abs(c["jn"]) * 1e-5 for x in c["s"]]


def settings(c, P, **over):
    d = P.settings(**over)
    d["mesh"] = dict(d["mesh"], surface_regions=surfaces(c, P))
    d["spin_accumulation"] = dict({"enable": True, "V_file": True}, **over.get("spin_accumulation", {}))
    return d


def nodes_of(mesh, name):
    return np.unique(mesh.tris[[i for i, s in enumerate(mesh.sreg) if s == name]])


def potential(c, P):
    """(V, condition number, current through the electrode out)"""
    m = P.model
    g, mesh = m.g, P.mesh
    N = len(mesh.p)
    K = np.zeros((N, N))
    for t, ind in enumerate(mesh.tets):
        K[np.ix_(ind, ind)] += P.regs[mesh.treg[t]]["sigma"] * g.vol[t] * g.grad[t] @ g.grad[t].T
    L = np.zeros(N)
    total = 0.0
    for f, s in zip(mesh.tris, mesh.sreg):
        if s == "in":
            a, b, d = mesh.p[f]
            area = np.linalg.norm(np.cross(b - a, d - a)) / 2
            L[f] -= c["jn"] * area / 3
            total += c["jn"] * area
    fix = nodes_of(mesh, "out")
    free = np.setdiff1d(np.arange(N), fix)
    V = np.zeros(N)
    V[fix] = c["V"]
    A = K[np.ix_(free, free)]
    V[free] = np.linalg.solve(A, L[free] - K[np.ix_(free, fix)] @ V[fix])
    return V, jcond(A), total, K, L, fix, free


def jcond(A):
    """condition number after diagonal scaling"""
    d = 1 / np.sqrt(np.abs(np.diag(A)))
    return np.linalg.cond(A * d[:, None] * d[None, :])


def accumulation(c, P, u, V):
    """nodal spin accumulation for the magnetization u, and the condition number of the system"""
    m = P.model
    g, mesh = m.g, P.mesh
    N = len(mesh.p)
    K = np.zeros((3 * N, 3 * N))
    L = np.zeros((N, 3))
    for t, ind in enumerate(mesh.tets):
        r = P.regs[mesh.treg[t]]
        D0 = 2 * r["sigma"] / (E_CH**2 * r["dens_state"])
        vol, G = g.vol[t], g.grad[t]
        S = D0 * vol * G @ G.T
        for i in range(4):
            for j in range(4):
                K[3*ind[i]:3*ind[i]+3, 3*ind[j]:3*ind[j]+3] += S[i, j] * np.eye(3)
            B = np.eye(3) * D0 / r["l_sf"]**2
            if m.mag[t]:
                x, y, z = u[ind[i]]
                # s x m
                B += D0 / r["l_sd"]**2 * np.array([[0, z, -y], [-z, 0, x], [y, -x, 0]])
            K[3*ind[i]:3*ind[i]+3, 3*ind[i]:3*ind[i]+3] += vol / 4 * B
        if m.mag[t]:
            gv = V[ind] @ G
            L[ind] += MUB * r["P"] * r["sigma"] / E_CH * vol * (G @ gv)[:, None] * u[ind]
    s = np.zeros((N, 3))
    fix = []
    up = ref.unit(c.get("uP", [0, 0, 1]))
    for name, val in (("in", -c["jn"] * MUB / E_CH * up), ("out", np.array(s_out(c)))):
        n = nodes_of(mesh, name)
        s[n] = val
        fix.extend(n)
    free = np.setdiff1d(np.arange(N), fix)
    fi = (3 * free[:, None] + np.arange(3)).ravel()
    if len(fi):
        A = K[np.ix_(fi, fi)]
        s.reshape(-1)[fi] = np.linalg.solve(A, L.reshape(-1)[fi] - (K @ s.reshape(-1))[fi])
        return s, jcond(A)
    return s, 1.0


def torque_field(P, s):
    """nodal values, per tetrahedron, of the field of the spin accumulation"""
    m = P.model
    H = np.zeros((len(P.mesh.tets), 4, 3))
    for t, ind in enumerate(P.mesh.tets):
        if m.mag[t]:
            r = P.regs[P.mesh.treg[t]]
            D0 = 2 * r["sigma"] / (E_CH**2 * r["dens_state"])
            H[t] = D0 / (r["l_sd"]**2 * ref.GAMMA0 * m.Ms[t]) * s[ind]
    return H
