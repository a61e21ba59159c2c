import json

import numpy as np

import _msh

__getattr__ = _msh.missing("matplotlib.pyplot")


class _Axes:
    def quiver(self, *a, **k):
        with open("quiver.json", "w") as f:
            json.dump([np.asarray(x, float).tolist() for x in a], f)

    def __getattr__(self, n):
        return lambda *a, **k: None


class _Figure:
    def add_subplot(self, *a, **k):
        return _Axes()


def figure(*a, **k):
    return _Figure()


def show(*a, **k):
    pass
