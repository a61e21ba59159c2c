"""Stand-in for h5py: groups, datasets and attributes kept in a pickle file."""
import atexit
import os
import pickle

import numpy as np

import _msh

__getattr__ = _msh.missing("h5py")


class _Attrs(dict):
    def __setitem__(self, k, v):
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            v = np.asarray(v)[()]
        dict.__setitem__(self, k, v)


class Dataset:
    def __init__(self, data):
        self._data = np.array(data)
        self.attrs = _Attrs()

    def __getattr__(self, n):
        if n in ("shape", "dtype", "ndim", "size"):
            return getattr(self._data, n)
        raise AttributeError(n)

    def __array__(self, dtype=None, copy=None):
        return np.array(self._data, dtype=dtype)

    def __getitem__(self, k):
        return self._data[k]

    def __len__(self):
        return len(self._data)

    def __iter__(self):
        return iter(self._data)

    def __getstate__(self):
        return self.__dict__

    def __setstate__(self, s):
        self.__dict__.update(s)


class Group:
    def __init__(self):
        self._items = {}
        self.attrs = _Attrs()

    def _walk(self, name, create):
        g = self
        parts = [p for p in name.split("/") if p]
        for p in parts[:-1]:
            if p not in g._items:
                if not create:
                    return None, None
                g._items[p] = Group()
            g = g._items[p]
        return g, parts[-1]

    def create_group(self, name):
        return self._put(name, Group())

    def require_group(self, name):
        return self[name] if name in self else self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        return self._put(name, Dataset(np.asarray(data, dtype=dtype)))

    def _put(self, name, x):
        g, n = self._walk(name, True)
        if n in g._items:
            raise ValueError("Unable to create (name already exists)")
        g._items[n] = x
        return x

    def __contains__(self, name):
        g, n = self._walk(name, False)
        return g is not None and n in g._items

    def __getitem__(self, name):
        g, n = self._walk(name, False)
        if g is None or n not in g._items:
            raise KeyError("Unable to open object (object '%s' doesn't exist)" % name)
        return g._items[n]

    def get(self, name, default=None):
        return self[name] if name in self else default

    def keys(self):
        return sorted(self._items)

    def values(self):
        return [self._items[k] for k in self.keys()]

    def items(self):
        return [(k, self._items[k]) for k in self.keys()]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self._items)


class File(Group):
    def __init__(self, name, mode="r", **k):
        Group.__init__(self)
        self._name, self._mode = os.path.abspath(name), mode
        if mode in ("r", "r+") or (mode == "a" and os.path.exists(name)):
            with open(name, "rb") as f:
                self._items, self.attrs = pickle.load(f)
        if mode != "r":
            self.flush()
            atexit.register(self.flush)

    def flush(self):
        if self._mode != "r":
            with open(self._name, "wb") as f:
                pickle.dump((self._items, self.attrs), f)

    def close(self):
        self.flush()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
