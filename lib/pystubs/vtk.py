"""Stand-in for the part of vtk used by fg-sol2vtk; the writer saves a JSON description of the grid."""
import json

import _msh

__getattr__ = _msh.missing("vtk")
VTK_TETRA = 10


class _Obj:
    def __getattr__(self, n):
        return _msh.missing("vtk." + type(self).__name__)(n)


class vtkFloatArray(_Obj):
    def __init__(self):
        self._n, self._name, self._data = 1, None, []

    def SetNumberOfComponents(self, n):
        self._n = n

    def SetName(self, n):
        self._name = n

    def InsertNextTuple(self, t):
        assert len(t) == self._n
        self._data.append([float(x) for x in t])

    def InsertNextValue(self, x):
        self.InsertNextTuple([x])


class vtkDoubleArray(vtkFloatArray):
    pass


class vtkPoints(_Obj):
    def __init__(self):
        self._p = {}
        self._n = None

    def SetNumberOfPoints(self, n):
        self._n = n

    def InsertPoint(self, i, *p):
        p = p[0] if len(p) == 1 else p
        self._p[int(i)] = [float(x) for x in p]

    SetPoint = InsertPoint

    def InsertNextPoint(self, *p):
        self.InsertPoint(len(self._p), *p)


class _PointData(_Obj):
    def __init__(self):
        self._a = {}

    def SetVectors(self, a):
        assert a._n == 3
        self._a["vectors"] = a

    def SetScalars(self, a):
        self._a["scalars"] = a

    def AddArray(self, a):
        self._a[a._name] = a


class vtkUnstructuredGrid(_Obj):
    def __init__(self):
        self._c, self._d, self._p = [], _PointData(), None

    def SetPoints(self, p):
        self._p = p

    def InsertNextCell(self, t, n, ids):
        assert len(ids) == n
        self._c.append([t, [int(x) for x in ids]])

    def GetPointData(self):
        return self._d


class vtkXMLUnstructuredGridWriter(_Obj):
    def SetFileName(self, n):
        self._n = n

    def SetInputData(self, g):
        self._g = g

    def SetDataModeToBinary(self):
        pass

    SetDataModeToAscii = SetDataModeToAppended = SetDataModeToBinary

    def Write(self):
        g = self._g
        with open(self._n, "w") as f:
            json.dump({"points": [g._p._p[i] for i in sorted(g._p._p)], "cells": g._c,
                       "data": {k: {"name": a._name, "n": a._n, "values": a._data} for k, a in g._d._a.items()}}, f)
        return 1
