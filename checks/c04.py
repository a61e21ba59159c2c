"""C04: finite element geometry, interpolation and quadrature are exact on linear data."""
import ctypes
import itertools
import os

import numpy as np
from hypothesis import assume, strategies as st

import e2e
import fgbuild
import meshgen
from pbt import Test, require

PROPERTY = "C04"
RULE = ("a case is non-trivial when the element is not degenerate and the affine field is not constant, "
        "or, for degenerate elements, when the element is flat")
ASSUMPTIONS = ["vertices on an integer grid of 19 points per axis, scaled by 1e-9 to 1, plus an offset"]
ELEM = {"repo": ["tetra", "triangle"], "shims": ["elem", "exit_throw"], "libs": ["-ltbb"]}
TARGETS = [(None, {"elem": ELEM, "exe": fgbuild.EXE})]
P3 = st.tuples(*[st.integers(-9, 9)] * 3).map(list)
C = ctypes.c_double
GL = np.polynomial.legendre.leggauss(200)


@st.composite
def element(draw, n):
    return {"p": [draw(P3) for _ in range(n)], "scale": draw(st.sampled_from([1e-9, 1e-8, 1e-6, 1e-3, 1.0])),
            "off": draw(st.tuples(*[st.integers(-50, 50)] * 3).map(list)) if draw(st.booleans()) else [0, 0, 0],
            "order": draw(st.permutations(range(n))),
            "a": draw(P3), "G": [draw(P3) for _ in range(3)],
            "poly": [draw(st.tuples(*[st.integers(-3, 3)] * 4).map(list)) for _ in range(3)],
            "Ms": draw(st.sampled_from([1.0, 8e5, -4e5, 0.0]))}


def arr(n):
    return np.zeros(n), None


def ptr(a):
    return a.ctypes.data_as(ctypes.c_void_p)


def setup(c):
    p = np.array(c["p"], float)
    x = (p + np.array(c["off"], float)) * c["scale"]
    G = np.array(c["G"], float) / c["scale"]
    u = np.array(c["a"], float) + (x - x[0]) @ G.T
    return p, x, G, u


def close(a, b, tol, what, *args):
    a, b = np.asarray(a, float), np.asarray(b, float)
    d = np.abs(a - b).max()
    require(d <= tol, what + ": {} instead of {}", *args, a.tolist(), b.tolist())


def cubic(c, x, deg):
    """product of affine functions of the position, values at the points x"""
    v = np.ones(len(x))
    for k in c["poly"][:deg]:
        v = v * (k[3] + x @ np.array(k[:3], float))
    return v


def exact_integral(c, verts, size, deg):
    """of the product of affine functions given at the vertices, over a simplex"""
    n = len(verts)
    F = [k[3] + verts @ np.array(k[:3], float) for k in c["poly"][:deg]]
    total = 0.0
    fact = [1, 1, 2, 6, 24, 120, 720]
    for idx in itertools.product(range(n), repeat=deg):
        w = fact[n - 1]
        for i in range(n):
            w *= fact[idx.count(i)]
        w /= fact[n - 1 + deg]
        total += w * np.prod([F[k][i] for k, i in enumerate(idx)])
    return total * size


def tetra(c, ctx):
    L = ctx.lib("elem")
    p, x, G, u = setup(c)
    det = np.linalg.det(p[1:] - p[0])
    assume(abs(det) > 0.5)
    npi = L.el_tet_npi()
    w, phi, chg, vol = np.zeros(npi), np.zeros(npi), np.zeros(npi), np.zeros(1)
    gauss, val, gx, gy, gz, field = [np.zeros((npi, 3)) for _ in range(6)]
    da, ind = np.zeros((4, 3)), np.zeros(4, np.int32)
    order = np.array(c["order"], np.int32)
    rc = L.el_tet(ptr(x), ptr(u), ptr(order), C(c["Ms"]), ptr(w), ptr(gauss), ptr(val), ptr(gx), ptr(gy),
                  ptr(gz), ptr(phi), ptr(field), ptr(chg), ptr(da), ptr(ind), ptr(vol))
    require(rc == 0, "tetrahedron of volume {} refused", abs(det) / 6 * c["scale"]**3)
    s = c["scale"]
    V = abs(det) / 6 * s**3
    far = 1 + np.abs(c["off"]).max()
    e = 1e-13 * far * 2e4 / abs(det)          # rounding of the coordinates, thin elements
    close(w.sum(), V, (e + 1e-12) * V, "weights sum")
    close(vol, V, (e + 1e-12) * V, "volume")
    require(sorted(ind) == [0, 1, 2, 3], "indices {}", ind)
    o = x[ind]
    require(np.dot(o[1] - o[0], np.cross(o[2] - o[0], o[3] - o[0])) > 0, "vertices {} not oriented", ind)
    lam = np.linalg.solve(np.vstack([p.T, np.ones(4)]), np.vstack([(gauss / s - np.array(c["off"])).T,
                                                                  np.ones(npi)]))
    require(lam.min() > 0 and lam.max() < 1, "integration points outside of the element")
    U = np.abs(u).max() + 1e-30
    close(val, np.array(c["a"], float) + (gauss - x[0]) @ G.T, (e + 1e-12) * U * 10, "interpolated vector field")
    close(phi, val[:, 0], (e + 1e-12) * U * 10, "interpolated scalar field")
    g = np.abs(G).max() + U / s
    for k, t in enumerate((gx, gy, gz)):
        close(t, np.tile(G[:, k], (npi, 1)), (e + 1e-11) * g * 100, "derivative along {}", "xyz"[k])
    close(field, np.tile(-G[0], (npi, 1)), (e + 1e-11) * g * 100, "gradient field of a scalar")
    close(da.sum(0), 0, (e + 1e-11) * 100 / s, "sum of the shape function gradients")
    close(chg.sum(), -c["Ms"] * np.trace(G) * V, (e + 1e-11) * 100 * abs(c["Ms"]) * g * V,
          "integral of the volume charges")
    y = gauss / s - np.array(c["off"])
    for deg in range(1, 4 if npi > 1 else 2):
        m = np.abs(w).sum() * np.prod([abs(k[3]) + 9 * np.abs(k[:3]).sum() + 1 for k in c["poly"][:deg]])
        close(w @ cubic(c, y, deg), exact_integral(c, p, V, deg), (e + 1e-12) * m * 10,
              "integral of a polynomial of degree {}", deg)
    ctx.nontrivial = any(map(any, c["G"]))
    ctx.label("thin", abs(det) < 20)


def edge_potential(x, sig, i):
    """integral of sigma / |r - x_i| over the triangle, sigma linear"""
    t, wt = GL
    a, b = x[(i + 1) % 3], x[(i + 2) % 3]
    t, wt = (t + 1) / 2, wt / 2
    e = a + t[:, None] * (b - a) - x[i]
    S = np.linalg.norm(np.cross(a - x[i], b - x[i])) / 2
    se = sig[(i + 1) % 3] * (1 - t) + sig[(i + 2) % 3] * t
    return np.sum(wt * S * (sig[i] + se) / np.linalg.norm(e, axis=1))


def triangle(c, ctx):
    L = ctx.lib("elem")
    p, x, G, u = setup(c)
    nn = np.cross(p[1] - p[0], p[2] - p[0])
    A2 = np.linalg.norm(nn)
    assume(A2 > 0.5)
    npi = L.el_tri_npi()
    w, phi, chg, surf, pot, corr = np.zeros(npi), np.zeros(npi), np.zeros(npi), np.zeros(2), np.zeros(3), np.zeros(3)
    gauss, val, n = np.zeros((npi, 3)), np.zeros((npi, 3)), np.zeros((2, 3))
    order = np.array(c["order"], np.int32)
    rc = L.el_tri(ptr(x), ptr(u), ptr(order), C(c["Ms"]), ptr(w), ptr(gauss), ptr(val), ptr(phi), ptr(chg),
                  ptr(n), ptr(surf), ptr(pot), ptr(corr))
    require(rc == 0, "triangle refused")
    s = c["scale"]
    S = A2 / 2 * s**2
    odd = c["order"] in ([0, 2, 1], [1, 0, 2], [2, 1, 0])
    normal = (-1 if odd else 1) * nn / A2
    far = 1 + np.abs(c["off"]).max()
    e = 1e-13 * far * 1e3 / A2
    close(w.sum(), S, (e + 1e-12) * S, "weights sum")
    close(surf, S, (e + 1e-12) * S, "surface")
    close(n, np.tile(normal, (2, 1)), e + 1e-12, "normal")
    U = np.abs(u).max() + 1e-30
    close(val, np.array(c["a"], float) + (gauss - x[0]) @ G.T, (e + 1e-12) * U * 10, "interpolated vector field")
    close(phi, val[:, 0], (e + 1e-12) * U * 10, "interpolated scalar field")
    sig = c["Ms"] * (u @ normal)
    close(chg.sum(), sig.mean() * S, (e + 1e-11) * 100 * abs(c["Ms"]) * U * S, "integral of the surface charges")
    y = gauss / s - np.array(c["off"])
    q = np.linalg.lstsq(np.vstack([p.T, np.ones(3)]), np.vstack([y.T, np.ones(npi)]), rcond=None)[0]
    require(q.min() > 0 and q.max() < 1, "integration points outside of the triangle")
    for deg in range(1, 4 if npi > 1 else 2):
        m = np.abs(w).sum() * np.prod([abs(k[3]) + 9 * np.abs(k[:3]).sum() + 1 for k in c["poly"][:deg]])
        close(w @ cubic(c, y, deg), exact_integral(c, p, S, deg), (e + 1e-12) * m * 10,
              "integral of a polynomial of degree {}", deg)
    edges = [np.linalg.norm(p[i] - p[j]) for i, j in ((0, 1), (1, 2), (0, 2))]
    if A2 > 0.02 * max(edges)**2:
        xo, so = x[c["order"]], sig[c["order"]]
        for i in range(3):
            close(pot[i], edge_potential(xo, so, i), 1e-7 * (np.abs(so).max() + 1e-30) * max(edges) * s,
                  "potential at vertex {} of its own surface charge", i)
        ctx.label("potentials", 3)
    ctx.nontrivial = any(map(any, c["G"]))


@st.composite
def flat_case(draw):
    return {"e": [draw(P3) for _ in range(2)], "k": [draw(st.integers(-2, 2)) for _ in range(4)],
            "pow": draw(st.integers(24, 34)), "order": draw(st.permutations(range(4))),
            "dup": draw(st.integers(0, 5)) == 0}


def flat(c, ctx):
    """four coplanar vertices, exactly: coordinates are small integers times a power of two"""
    L = ctx.lib("elem")
    a, b = np.array(c["e"], float)
    p = np.array([np.zeros(3), a, b, c["k"][0] * a + c["k"][1] * b])
    if c["dup"]:
        p[3] = p[2] + 0
    x = p * 2.0 ** -c["pow"]
    npi = L.el_tet_npi()
    z = [np.zeros((npi, 3)) for _ in range(12)]
    order = np.array(c["order"], np.int32)
    ind = np.zeros(4, np.int32)
    rc = L.el_tet(ptr(x), ptr(x), ptr(order), C(1.0), *[ptr(t) for t in z[:9]], ptr(np.zeros((4, 3))), ptr(ind),
                  ptr(np.zeros(1)))
    require(rc == 1, "flat tetrahedron {} accepted", p.tolist())
    ctx.nontrivial = True


def flat_file(c, ctx):
    """a mesh file with one flat tetrahedron among good ones"""
    mesh = meshgen.build({"n": [1, 1, 1], "h": [4, 4, 4]})
    t = list(mesh.tets)
    f = mesh.tets[c["t"] % len(t)]
    kind = c["kind"]
    if kind == "face":                      # four corners of one side of the cube
        quad = [i for i in range(len(mesh.nodes)) if mesh.nodes[i][c["axis"]] == mesh.nodes[:, c["axis"]].min()]
        bad = [quad[i] for i in c["order"]]
    else:                                   # a vertex used twice
        bad = list(f)
        bad[c["order"][0]] = bad[c["order"][1]]
    mesh.tets = np.array(t + [bad], int)
    mesh.treg = mesh.treg + [mesh.treg[0]]
    cwd = ctx.fresh_dir()
    meshgen.write_msh(mesh, os.path.join(cwd, "m.msh"), c["fmt"])
    e2e.write_yaml({"outputs": {"file_basename": "run", "evol_time_step": 1e-13, "final_time": 1e-13},
                    "mesh": {"filename": "m.msh", "length_unit": 1e-9, "volume_regions": {mesh.treg[0]: {}}},
                    "initial_magnetization": [0, 0, 1], "demagnetizing_field_solver": {"nb_threads": 1}},
                   os.path.join(cwd, "s.yml"))
    r = e2e.run(ctx.artefacts["exe"], ["s.yml"], cwd)
    require(isinstance(r.rc, int) and r.rc > 0 and r.err.strip(), "mesh with a flat tetrahedron accepted: {!r}", r)
    ctx.nontrivial = True


FILES = st.fixed_dictionaries({"t": st.integers(0, 5), "kind": st.sampled_from(["face", "twice"]),
                               "axis": st.integers(0, 2), "order": st.permutations(range(4)),
                               "fmt": st.sampled_from(["22a", "22b", "41a"])})
TESTS = [Test("tetrahedron", element(4), tetra, 4000, 120000), Test("triangle", element(3), triangle, 3000, 100000),
         Test("flat", flat_case(), flat, 1500, 20000), Test("flat in a file", FILES, flat_file, 60, 400)]
