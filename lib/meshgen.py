"""Mesh model and .msh writers (independent of gmsh), plus Hypothesis strategies for meshes.

A mesh case is a small JSON value; build(case) turns it into a Mesh. Bulk numbers (node jitter,
node permutation) are a pure function of integers of the case."""
import itertools
import random
import struct

import numpy as np
from hypothesis import strategies as st

KUHN = [tuple(p) for p in itertools.permutations(range(3))]


class Mesh:
    def __init__(self, nodes, tets, treg, tris, sreg, scale):
        self.nodes = np.asarray(nodes, float)     # file units, file order (tag = index + 1)
        self.tets = np.asarray(tets, int).reshape(-1, 4)
        self.treg = list(treg)                    # region name of each tetrahedron
        self.tris = np.asarray(tris, int).reshape(-1, 3)
        self.sreg = list(sreg)
        self.scale = scale

    @property
    def p(self):
        return self.nodes * self.scale


def faces_of(tet):
    a, b, c, d = tet
    return [(a, b, c), (a, b, d), (a, c, d), (b, c, d)]


def signed_vol(p, t):
    a, b, c, d = (p[i] for i in t)
    return np.dot(np.cross(b - a, c - a), d - a) / 6


def outward(p, tri, tet):
    """tri's vertices ordered so that the normal points out of tet"""
    a, b, c = tri
    d = next(i for i in tet if i not in tri)
    n = np.cross(p[b] - p[a], p[c] - p[a])
    return tri if np.dot(n, p[d] - p[a]) < 0 else (a, c, b)


def build(m):
    nx, ny, nz = m["n"]
    rnd = random.Random(m.get("js", 0))
    step = np.array(m.get("h", [10, 10, 10]), float)
    idx = lambda i, j, k: (i * (ny + 1) + j) * (nz + 1) + k
    nodes = []
    amp = m.get("jit", 0) / 20.0
    for i in range(nx + 1):
        for j in range(ny + 1):
            for k in range(nz + 1):
                q = np.array([i, j, k], float)
                # moving nodes by less than 0.2 cell keeps every tetrahedron of the Kuhn
                # subdivision positively oriented
                q += amp * np.array([rnd.uniform(-1, 1) for _ in range(3)])
                nodes.append(q * step)
    nodes = np.array(nodes)
    if m.get("shear"):
        s = np.array(m["shear"], float) / 10
        A = np.array([[1, s[0], s[1]], [0, 1, s[2]], [0, 0, 1]])
        nodes = nodes @ A.T
    org = np.array(m.get("org", [0, 0, 0]), float)
    nodes = nodes - nodes.mean(axis=0) * m.get("centred", 0) + org
    slabs = m.get("reg") or [0] * nx
    axis = m.get("axis", 0)
    tets, treg = [], []
    names = m.get("names") or ["vol0", "vol1", "vol2", "vol3"]
    for i in range(nx):
        for j in range(ny):
            for k in range(nz):
                r = slabs[(i, j, k)[axis] % len(slabs)]
                for perm in KUHN:
                    c = [i, j, k]
                    t = [idx(*c)]
                    for ax in perm:
                        c[ax] += 1
                        t.append(idx(*c))
                    tets.append(t)
                    treg.append(names[r])
    tets = np.array(tets)
    # surfaces: outer sides and interfaces
    owner = {}
    for ti, t in enumerate(tets):
        for f in faces_of(t):
            owner.setdefault(tuple(sorted(f)), []).append(ti)
    N = (nx + 1) * (ny + 1) * (nz + 1)
    ijk = np.array([(a // ((ny + 1) * (nz + 1)), (a // (nz + 1)) % (ny + 1), a % (nz + 1))
                    for a in range(N)])
    dims = [nx, ny, nz]
    tris, sreg = [], []
    sides = m.get("sides") or {}      # e.g. {"x0": "left", "x1": "right", "if": "inter"}
    flip = m.get("flip", 0)
    for key in sorted(owner):
        own = owner[key]
        name = None
        if len(own) == 1:
            for ax, a in enumerate("xyz"):
                if all(ijk[v][ax] == 0 for v in key) and f"{a}0" in sides:
                    name = sides[f"{a}0"]
                if all(ijk[v][ax] == dims[ax] for v in key) and f"{a}1" in sides:
                    name = sides[f"{a}1"]
        elif treg[own[0]] != treg[own[1]] and "if" in sides:
            name = sides["if"]
        if name:
            f = outward(nodes, key, tets[own[0]])
            if flip == 1 or (flip == 2 and rnd.random() < 0.5):
                f = (f[0], f[2], f[1])
            tris.append(f)
            sreg.append(name)
    tris = np.array(tris, int).reshape(-1, 3)
    if m.get("perm"):
        r2 = random.Random(m["perm"])
        new = list(range(N))
        r2.shuffle(new)
        new = np.array(new)
        p2 = np.empty_like(nodes)
        p2[new] = nodes
        nodes, tets, tris = p2, new[tets], new[tris]
        order = list(range(len(tets)))
        r2.shuffle(order)
        tets, treg = tets[order], [treg[i] for i in order]
        tets = np.array([r2.sample(list(t), 4) for t in tets])
        order = list(range(len(tris)))
        r2.shuffle(order)
        tris, sreg = tris[order], [sreg[i] for i in order]
        tris = np.array([[t[(i + s) % 3] for i in range(3)] for t, s in
                         zip(tris, [r2.randrange(3) for _ in tris])], int).reshape(-1, 3)
    return Mesh(nodes, tets, treg, tris, sreg, m.get("scale", 1e-9))


def write_msh(mesh, path, fmt="22a", extra_phys=(), node_order=None, low_dim=False, tag0=(100, 200)):
    """fmt: 22a, 22b, 41a, 41e (as 41a, with first entities without elements); low_dim: add a line and a point element (format 22a only)"""
    vols, surfs = [], []
    for r in mesh.treg:
        if r not in vols:
            vols.append(r)
    for r in mesh.sreg:
        if r not in surfs:
            surfs.append(r)
    ptag = {("v", r): tag0[0] + i for i, r in enumerate(vols)}
    ptag.update({("s", r): tag0[1] + i for i, r in enumerate(surfs)})
    N = len(mesh.nodes)
    order = list(node_order) if node_order is not None else list(range(N))
    names = [(2, ptag[("s", r)], r) for r in surfs] + [(3, ptag[("v", r)], r) for r in vols]
    names += list(extra_phys)
    phys = "$PhysicalNames\n%d\n" % len(names)
    phys += "".join(f'{d} {t} "{n}"\n' for d, t, n in names) + "$EndPhysicalNames\n"
    M = len(mesh.tris) + len(mesh.tets)
    if fmt == "22a":
        out = "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n" + phys
        out += "$Nodes\n%d\n" % N
        for i in order:
            out += "%d %r %r %r\n" % (i + 1, *map(float, mesh.nodes[i]))
        low_dim = 2 if low_dim else 0
        out += "$EndNodes\n$Elements\n%d\n" % (M + low_dim)
        e = 1
        if low_dim:
            out += "1 15 2 900 900 1\n2 1 2 901 901 1 2\n"
            e = 3
        for t, r in zip(mesh.tris, mesh.sreg):
            out += "%d 2 2 %d %d %d %d %d\n" % (e, ptag[("s", r)], ptag[("s", r)], *(t + 1))
            e += 1
        for t, r in zip(mesh.tets, mesh.treg):
            out += "%d 4 2 %d %d %d %d %d %d\n" % (e, ptag[("v", r)], ptag[("v", r)], *(t + 1))
            e += 1
        out += "$EndElements\n"
        data = out.encode()
    elif fmt == "22b":
        data = b"$MeshFormat\n2.2 1 8\n" + struct.pack("<i", 1) + b"\n$EndMeshFormat\n"
        data += phys.encode() + b"$Nodes\n%d\n" % N
        for i in order:
            data += struct.pack("<iddd", i + 1, *map(float, mesh.nodes[i]))
        data += b"\n$EndNodes\n$Elements\n%d\n" % M
        e = 1
        if len(mesh.tris):
            data += struct.pack("<iii", 2, len(mesh.tris), 2)
            for t, r in zip(mesh.tris, mesh.sreg):
                data += struct.pack("<6i", e, ptag[("s", r)], ptag[("s", r)], *(int(x) + 1 for x in t))
                e += 1
        data += struct.pack("<iii", 4, len(mesh.tets), 2)
        for t, r in zip(mesh.tets, mesh.treg):
            data += struct.pack("<7i", e, ptag[("v", r)], ptag[("v", r)], *(int(x) + 1 for x in t))
            e += 1
        data += b"\n$EndElements\n"
    elif fmt in ("41a", "41e"):
        e0 = 1 if fmt == "41e" else 0
        out = "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n" + phys
        lo, hi = mesh.nodes.min(axis=0), mesh.nodes.max(axis=0)
        bb = " ".join(repr(float(x)) for x in (*lo, *hi))
        out += "$Entities\n0 0 %d %d\n" % (len(surfs) + e0, len(vols) + e0)
        if e0:
            out += "1 %s 0 0\n" % bb
        for i, r in enumerate(surfs):
            out += "%d %s 1 %d 0\n" % (i + 1 + e0, bb, ptag[("s", r)])
        if e0:
            out += "1 %s 0 0\n" % bb
        for i, r in enumerate(vols):
            out += "%d %s 1 %d 0\n" % (i + 1 + e0, bb, ptag[("v", r)])
        out += "$EndEntities\n$Nodes\n"
        # split the nodes over the volume entities in two blocks
        half = len(order) // 2 if len(vols) > 1 else len(order)
        blocks = [b for b in (order[:half], order[half:]) if len(b)]
        out += "%d %d 1 %d\n" % (len(blocks), N, N)
        for b, blk in enumerate(blocks):
            out += "3 %d 0 %d\n" % (b + 1 + e0, len(blk))
            out += "".join("%d\n" % (i + 1) for i in blk)
            out += "".join("%r %r %r\n" % tuple(map(float, mesh.nodes[i])) for i in blk)
        out += "$EndNodes\n$Elements\n%d %d 1 %d\n" % (len(surfs) + len(vols), M, M)
        e = 1
        for i, r in enumerate(surfs):
            el = [t for t, q in zip(mesh.tris, mesh.sreg) if q == r]
            out += "2 %d 2 %d\n" % (i + 1 + e0, len(el))
            for t in el:
                out += "%d %d %d %d\n" % (e, *(t + 1))
                e += 1
        for i, r in enumerate(vols):
            el = [t for t, q in zip(mesh.tets, mesh.treg) if q == r]
            out += "3 %d 4 %d\n" % (i + 1 + e0, len(el))
            for t in el:
                out += "%d %d %d %d %d\n" % (e, *(t + 1))
                e += 1
        out += "$EndElements\n"
        data = out.encode()
    else:
        raise ValueError(fmt)
    with open(path, "wb") as f:
        f.write(data)


@st.composite
def mesh_case(draw, max_n=3, max_cells=6, regions=1, sides=(), flip=False, scale=True, org=True,
              axis=False):
    n = [draw(st.integers(1, max_n)) for _ in range(3)]
    while n[0] * n[1] * n[2] > max_cells:
        i = n.index(max(n))
        n[i] -= 1
    m = {"n": n, "h": [draw(st.integers(2, 30)) for _ in range(3)]}
    m["jit"] = draw(st.integers(0, 3))
    if m["jit"]:
        m["js"] = draw(st.integers(0, 10**6))
    m["perm"] = draw(st.integers(0, 10**6))
    m["shear"] = [draw(st.integers(-5, 5)) for _ in range(3)]
    if org:
        m["org"] = [draw(st.integers(-60, 60)) for _ in range(3)]
    if regions > 1:
        ax = draw(st.integers(0, 2)) if axis else 0
        m["axis"] = ax
        m["reg"] = [draw(st.integers(0, regions - 1)) for _ in range(n[ax])]
    if scale:
        m["scale"] = draw(st.sampled_from([1e-9, 1e-9, 5e-10, 1e-8]))
    if sides:
        m["sides"] = draw(st.dictionaries(st.sampled_from(list(sides)), st.sampled_from(
            ["sA", "sB", "sC"]), max_size=3))
        if "if" in m["sides"]:
            m["sides"]["if"] = "sI"
        if flip:
            m["flip"] = draw(st.integers(0, 2))
    return m
