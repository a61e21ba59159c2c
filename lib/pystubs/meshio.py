"""Stand-in for meshio.read on gmsh files: consecutive elements of the same type form a block."""
import numpy as np

import _msh

__getattr__ = _msh.missing("meshio")


class CellBlock:
    def __init__(self, t, data):
        self.type, self.data = t, data

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        return iter((self.type, self.data))


class Mesh:
    pass


def read(path, *a, **k):
    m = _msh.Msh(path)
    r = Mesh()
    index = {n[0]: i for i, n in enumerate(m.nodes)}
    r.points = np.array([n[1:4] for n in m.nodes])
    blocks = []
    for e in m.elems:
        t = {15: "vertex", 1: "line", 2: "triangle", 4: "tetra"}[e[0]]
        if not blocks or blocks[-1][0] != (t, e[3]):
            blocks.append(((t, e[3]), [], [], []))
        blocks[-1][1].append([index[v] for v in e[2]])
        blocks[-1][2].append(e[4])
        blocks[-1][3].append(e[3])
    r.cells = [CellBlock(b[0][0], np.array(b[1])) for b in blocks]
    r.cell_data = {"gmsh:physical": [np.array(b[2]) for b in blocks], "gmsh:geometrical": [np.array(b[3]) for b in blocks]}
    r.field_data = {n: np.array([t, d]) for (d, t), n in m.names.items()}
    r.point_data = {}
    return r
