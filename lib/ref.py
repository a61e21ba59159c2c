"""Independent numpy reference of the finite element model (P1 tetrahedra, tangent plane scheme).

Written from the weak form, not from the code: everything is expressed with 3-component nodal
vectors, polynomial integrals are exact, dense linear algebra is used for the solves.
"""
import math

import numpy as np

MU0 = 1.25663706127e-6
GAMMA0 = 1.76085962784e11 * MU0
E_CHARGE = 1.602176634e-19
HBAR = 6.62607015e-34 / (2 * math.pi)
MUB = E_CHARGE * HBAR / (2 * 9.1093837139e-31)
THETA = 0.5

# 5-point degree 3 rule on the tetrahedron (Stroud T3:3-1): centroid and 4 points
TET_B = np.array([[1 / 4] * 4] + [[1 / 2 if i == j else 1 / 6 for i in range(4)] for j in range(4)])
TET_W = np.array([-4 / 5] + [9 / 20] * 4)        # fractions of the volume
# 4-point degree 3 rule on the triangle (Stroud T2:3-1)
TRI_B = np.array([[1 / 3] * 3] + [[3 / 5 if i == j else 1 / 5 for i in range(3)] for j in range(3)])
TRI_W = np.array([-27 / 48] + [25 / 48] * 3)     # fractions of the area


def use_one_point():
    global TET_B, TET_W, TRI_B, TRI_W
    TET_B, TET_W = np.array([[1 / 4] * 4]), np.array([1.0])
    TRI_B, TRI_W = np.array([[1 / 3] * 3]), np.array([1.0])


def unit(v):
    v = np.asarray(v, float)
    return v / np.linalg.norm(v)


class Geo:
    """Geometry of a mesh (nodes in metres, file order)."""
    def __init__(self, p, tets, tris=()):
        self.p = np.asarray(p, float)
        self.tets = np.asarray(tets, int).reshape(-1, 4)
        T = self.p[self.tets]
        E = T[:, 1:] - T[:, :1]                     # rows: edges
        det = np.linalg.det(E)
        self.vol = np.abs(det) / 6
        inv = np.linalg.inv(E)                      # columns: gradients of lambda_1..3
        g = np.transpose(inv, (0, 2, 1))
        self.grad = np.concatenate([-g.sum(axis=1, keepdims=True), g], axis=1)   # (nt, 4, 3)
        self.tgp = np.einsum("gi,tid->tgd", TET_B, T)
        self.set_tris(tris)

    def set_tris(self, tris):
        self.tris = np.asarray(tris, int).reshape(-1, 3)
        F = self.p[self.tris]
        cr = np.cross(F[:, 1] - F[:, 0], F[:, 2] - F[:, 0]).reshape(-1, 3)
        nrm = np.linalg.norm(cr, axis=1)
        self.area = nrm / 2
        self.nrm = cr / nrm[:, None] if len(cr) else cr
        self.fgp = np.einsum("gi,tid->tgd", TRI_B, F)


def boundary(p, tets, treg):
    """All faces that belong to one tetrahedron, or separate two regions:
    list of (face oriented out of the first owner, [(region, +1), (region, -1)])"""
    owner = {}
    for ti, t in enumerate(tets):
        t = [int(x) for x in t]
        for k in range(4):
            owner.setdefault(tuple(sorted(t[:k] + t[k + 1:])), []).append(ti)
    out = []
    for f, own in owner.items():
        if len(own) == 1 or treg[own[0]] != treg[own[1]]:
            t = tets[own[0]]
            d = next(int(x) for x in t if x not in f)
            a, b, c = f
            n = np.cross(p[b] - p[a], p[c] - p[a])
            if np.dot(n, p[d] - p[a]) > 0:
                a, b, c = a, c, b
            out.append(((a, b, c), [treg[o] for o in own]))
    return out


def tri_vertex_potential(p, tri, i, sig):
    """exact integral over the triangle of sigma/|r - p_i|, sigma linear with vertex values sig.
    In polar coordinates about vertex i, with q(s) = a + s (b - a) on the opposite edge:
    dA = 2 S rho drho ds, r = rho |q(s) - p_i|, sigma = sig_i (1 - rho) + rho (linear in s)."""
    i0, i1, i2 = i, (i + 1) % 3, (i + 2) % 3
    P0, A, B = p[tri[i0]], p[tri[i1]], p[tri[i2]]
    S2 = np.linalg.norm(np.cross(A - P0, B - P0))
    # int_0^1 int_0^1 [s0 (1-rho) + rho (s1 (1-s) + s2 s)] S2 rho / (rho |q(s)-P0|) drho ds
    # = S2 * int_0^1 [s0/2 + (s1 (1-s) + s2 s)/2] / |q(s) - P0| ds
    L = np.linalg.norm(B - A)
    e = (B - A) / L
    x0 = np.dot(A - P0, e)
    h = np.linalg.norm((A - P0) - x0 * e)
    x1 = x0 + L
    # int ds/|q| = (1/L) [asinh(x/h)], int s ds/|q| = (1/L^2) [sqrt(x^2+h^2) - x0 asinh(x/h)]
    I0 = (math.asinh(x1 / h) - math.asinh(x0 / h)) / L
    I1 = ((math.hypot(x1, h) - math.hypot(x0, h)) / L - x0 * I0) / L
    s0, s1, s2 = sig[i0], sig[i1], sig[i2]
    return S2 * 0.5 * ((s0 + s1) * I0 + (s2 - s1) * I1)


class Model:
    """Magnetic problem. regions: dict name -> params; surfs: dict name -> params."""
    def __init__(self, mesh, regions, surfs=None):
        self.mesh = mesh
        self.reg = regions
        self.g = Geo(mesh.p, mesh.tets)
        p = mesh.p
        self.Ms = np.array([max(regions[r].get("Ms", 795774.7), 0) for r in mesh.treg])
        self.mag = self.Ms > 0
        self.magnode = np.zeros(len(p), bool)
        self.magnode[np.unique(mesh.tets[self.mag])] = True
        named = {tuple(sorted(map(int, t))): s for t, s in zip(mesh.tris, mesh.sreg)}
        tris, dMs, prm = [], [], []
        surfs = surfs or {}
        msof = {r: max(regions[r].get("Ms", 795774.7), 0) for r in regions}
        for f, own in boundary(p, mesh.tets, mesh.treg):
            d = msof[own[0]] - (msof[own[1]] if len(own) > 1 else 0)
            if not all(self.magnode[list(f)]):
                continue
            s = surfs.get(named.get(tuple(sorted(f))), {})
            tris.append(f)
            dMs.append(d)
            prm.append(s)
        self.g.set_tris(tris)
        self.dMs = np.array(dMs)
        self.sprm = prm
        self.active = np.array([not s.get("suppress_charges", False) for s in prm], bool)

    # ---- demagnetizing potential ---------------------------------------------------------
    def charges(self, u):
        g = self.g
        qs, pts = [], []
        for t in np.nonzero(self.mag)[0]:
            div = np.einsum("id,id->", g.grad[t], u[g.tets[t]])
            qs.append(-self.Ms[t] * div * g.vol[t] * TET_W)
            pts.append(g.tgp[t])
        return np.array(qs).reshape(-1), np.array(pts).reshape(-1, 3)

    def potential(self, u):
        """potential at the magnetic nodes: Gauss point charges, and exact integrals over the
        triangles that touch the node"""
        g = self.g
        phi = np.zeros(len(g.p))
        q, pts = self.charges(u)
        nodes = np.nonzero(self.magnode)[0]
        for n in nodes:
            phi[n] = np.sum(q / np.linalg.norm(pts - g.p[n], axis=1))
        for k, f in enumerate(g.tris):
            if not self.active[k] or self.dMs[k] == 0:
                continue
            sig = self.dMs[k] * (u[f] @ g.nrm[k])
            qg = TRI_W * g.area[k] * (TRI_B @ sig)
            r = np.linalg.norm(g.p[nodes][:, None] - g.fgp[k][None], axis=2)
            contrib = (qg / r).sum(axis=1)
            for j, n in enumerate(nodes):
                if n in f:
                    i = list(f).index(n)
                    contrib[j] = tri_vertex_potential(g.p, f, i, sig)
            phi[nodes] += contrib
        return phi / (4 * math.pi)

    # ---- energies -------------------------------------------------------------------------
    def energies(self, u, phi, Hext=None):
        """Hext(points) -> field (A/m) at points. Exact integrals, except the quartic cubic
        anisotropy density (Gauss rule)."""
        g = self.g
        E = dict(ex=0.0, aniso=0.0, demag=0.0, zeeman=0.0)
        M2 = (np.ones((4, 4)) + np.eye(4)) / 20
        for t in np.nonzero(self.mag)[0]:
            r = self.reg[self.mesh.treg[t]]
            U, G, V = u[g.tets[t]], g.grad[t], g.vol[t]
            dU = U.T @ G
            E["ex"] += r.get("Ae", 1e-11) * V * np.sum(dU**2)
            if r.get("K", 0):
                a = U @ unit(r.get("uk", [0, 0, 1]))
                E["aniso"] -= r["K"] * V * (a @ M2 @ a)
            if r.get("K3", 0):
                ax = [unit(r.get(k, d)) for k, d in (("ex", [1, 0, 0]), ("ey", [0, 1, 0]),
                                                     ("ez", [0, 0, 1]))]
                c = (TET_B @ U) @ np.array(ax).T
                c2 = c**2
                E["aniso"] += r["K3"] * V * np.dot(
                    TET_W, c2[:, 0] * c2[:, 1] + c2[:, 1] * c2[:, 2] + c2[:, 2] * c2[:, 0])
            E["demag"] -= 0.5 * MU0 * self.Ms[t] * V * np.trace(dU) * phi[g.tets[t]].mean()
            if Hext is not None:
                H = np.array([Hext(x) for x in g.tgp[t]])
                E["zeeman"] -= MU0 * self.Ms[t] * V * np.dot(
                    TET_W, np.einsum("gd,gd->g", TET_B @ U, H))
        M3 = (np.ones((3, 3)) + np.eye(3)) / 12
        for k, f in enumerate(g.tris):
            if not self.active[k]:
                continue
            s = self.sprm[k]
            U = u[f]
            if s.get("Ks", 0) and self.dMs[k] != 0:
                a = U @ unit(s.get("uk", [0, 0, 1]))
                E["aniso"] -= s["Ks"] * g.area[k] * (a @ M3 @ a)
            E["demag"] += 0.5 * MU0 * self.dMs[k] * g.area[k] * ((U @ g.nrm[k]) @ M3 @ phi[f])
        E["tot"] = E["ex"] + E["aniso"] + E["demag"] + E["zeeman"]
        return E

    # ---- observables ----------------------------------------------------------------------
    def avg(self, f, region=None):
        g = self.g
        s = vol = 0.0
        for t in np.nonzero(self.mag)[0]:
            if region is None or self.mesh.treg[t] == region:
                s = s + g.vol[t] * f[g.tets[t]].mean(axis=0)
                vol += g.vol[t]
        return s / vol

    # ---- one step of the tangent plane scheme ---------------------------------------------
    def step(self, u, v, phi, phiv, dt, taur, Hext, Hst=None, drift=None):
        """Returns the new velocity (rad/s). Hext(points) -> field; Hst: nodal field of the spin
        accumulation, per tetrahedron, or None."""
        g = self.g
        N = len(u)
        tau = dt / taur
        pref = 1 + tau * abs(math.log(tau))
        th = THETA * dt                       # theta dt (s)
        s_dt = th * GAMMA0
        A = np.zeros((3 * N, 3 * N))
        B = np.zeros((N, 3))
        for t in np.nonzero(self.mag)[0]:
            r = self.reg[self.mesh.treg[t]]
            ind = g.tets[t]
            U, Vn, G, vol, Ms = u[ind], v[ind], g.grad[t], g.vol[t], self.Ms[t]
            alpha = r.get("alpha_LLG", 0.5)
            Abis = 2 * r.get("Ae", 1e-11) / (MU0 * Ms)
            w = TET_W * vol
            Ug, Vg = TET_B @ U, TET_B @ Vn
            dU = U.T @ G                      # dU[c, d] = d u_c / d x_d
            Hd = -(phi[ind] @ G)
            Hv = -(phiv[ind] @ G)
            He = np.array([Hext(x) for x in g.tgp[t]])
            Hs = np.zeros_like(Ug) if Hst is None else TET_B @ Hst[t]
            uH = -Abis * np.sum(dU**2) * np.ones(len(w))
            Ha = np.zeros_like(Ug)
            if r.get("K", 0):
                kb, ax = 2 * r["K"] / (MU0 * Ms), unit(r.get("uk", [0, 0, 1]))
                Ha += kb * np.outer((Ug + th * Vg) @ ax, ax)
                uH += kb * (Ug @ ax) ** 2
            if r.get("K3", 0):
                kb = 2 * r["K3"] / (MU0 * Ms)
                R = np.array([unit(r.get(k, d)) for k, d in (
                    ("ex", [1, 0, 0]), ("ey", [0, 1, 0]), ("ez", [0, 0, 1]))])
                c, cv = Ug @ R.T, Vg @ R.T
                Ha -= kb * ((c * (1 - c**2)) @ R)
                Ha -= kb * th * self.cubic_second(c, cv, R)
                uH -= kb * np.sum(c * c * (1 - c**2), axis=1)
            uH = uH + np.einsum("gd,gd->g", Ug, Hd[None] + He + Hs)
            # stabilised damping
            rdt = GAMMA0 * dt
            M = 2 * alpha * 0.1 / rdt
            hc = np.clip(uH, -M, M)
            aeff = np.where(uH > 0, alpha + rdt / 2 * hc, alpha / (1 - rdt / (2 * alpha) * hc))
            lump = TET_B.T @ (w * aeff)
            aw = TET_B.T @ w
            stiff = pref * s_dt * Abis * vol * (G @ G.T)
            for i in range(4):
                for j in range(4):
                    A[3*ind[i]:3*ind[i]+3, 3*ind[j]:3*ind[j]+3] += stiff[i, j] * np.eye(3)
                ux, uy, uz = U[i]
                A[3*ind[i]:3*ind[i]+3, 3*ind[i]:3*ind[i]+3] += lump[i] * np.eye(3) + aw[i] * \
                    np.array([[0, -uz, uy], [uz, 0, -ux], [-uy, ux, 0]])
            H = Hd[None] + He + Hs + Ha + th * Hv[None]
            H = H - (np.einsum("gd,gd->g", Hs, Ug) * th)[:, None] * Vg
            B[ind] += TET_B.T @ (w[:, None] * H)
            B[ind] -= vol * Abis * (G @ dU.T)
            if drift is not None:
                ax, Vd = drift
                du, dv = dU[:, ax], Vn.T @ G[:, ax]
                for k in range(len(w)):
                    b = alpha * du + np.cross(Ug[k], du) + s_dt * (
                        alpha * dv + np.cross(Ug[k], dv) + np.cross(Vg[k], du))
                    B[ind] += Vd * w[k] * np.outer(TET_B[k], b)
        for k, f in enumerate(g.tris):
            s = self.sprm[k]
            if not self.active[k] or not s.get("Ks", 0) or self.dMs[k] == 0:
                continue
            kb, ax = 2 * s["Ks"] / (MU0 * abs(self.dMs[k])), unit(s.get("uk", [0, 0, 1]))
            Ug = TRI_B @ u[f]
            B[f] += TRI_B.T @ ((TRI_W * g.area[k] * kb * (Ug @ ax))[:, None] * ax[None])
        # tangent basis at each magnetic node
        mags = np.nonzero(self.magnode)[0]
        Q = np.zeros((3 * N, 2 * len(mags)))
        for j, n in enumerate(mags):
            a = np.eye(3)[np.argmin(np.abs(u[n]))]
            e1 = unit(np.cross(u[n], a))
            e2 = np.cross(u[n], e1)
            Q[3*n:3*n+3, 2*j], Q[3*n:3*n+3, 2*j+1] = e1, e2
        x = np.linalg.solve(Q.T @ A @ Q, Q.T @ B.reshape(-1))
        return GAMMA0 * (Q @ x).reshape(N, 3)

    @staticmethod
    def cubic_second(c, cv, R):
        """second order term of the cubic anisotropy: see DESIGN.md, finding F-cubic"""
        return (cv * R[0][None]) * (1 - 3 * c**2)

    def advance(self, u, vnew, dt):
        out = u.copy()
        m = self.magnode
        w = u[m] + dt * vnew[m]
        out[m] = w / np.linalg.norm(w, axis=1)[:, None]
        return out
