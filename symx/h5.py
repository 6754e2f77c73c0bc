"""Model of the parts of h5py the databases use: a tree of named groups and
datasets with attributes, kept in memory.  Names may be symbolic."""
import types

import numpy as np

from . import core, strs, arr
from .core import is_sym
from .strs import SymStr, RealStr
from .times import SUTC, RealUTC
from .loader import deep_sym


def _sorted(items):
    """insertion sort by name (comparisons fork)"""
    out = []
    for n, v in items:
        k = 0
        while k < len(out) and bool(out[k][0] < n):
            k += 1
        out.insert(k, (n, v))
    return out


class Attrs:
    def __init__(self):
        self.d = {}

    def __setitem__(self, k, v):
        if isinstance(v, (SUTC, RealUTC, dict)) or v is None or hasattr(
                v, '__getitem__') and not isinstance(v, (
                    RealStr, SymStr, list, tuple, np.ndarray, np.generic)):
            raise TypeError('Object dtype has no native HDF5 equivalent')
        if isinstance(v, (list, tuple)) and not deep_sym(v):
            a = np.array(v)
            if a.dtype.kind == 'U':
                a = a.astype(object)
            elif a.dtype.kind == 'O':
                raise TypeError('Object dtype has no native HDF5 equivalent')
            v = a
        elif isinstance(v, (list, tuple)):
            if all(isinstance(x, (RealStr, SymStr)) for x in v):
                a = np.empty(len(v), dtype=object)
                a[:] = list(v)
                v = a
            else:
                v = arr.sarr(list(v))
        elif isinstance(v, np.ndarray):
            v = v.copy()
        elif isinstance(v, bool):
            v = np.bool_(v)
        elif isinstance(v, int):
            v = np.int64(v)
        elif isinstance(v, float):
            v = np.float64(v)
        self.d[k] = v

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(sorted(self.d))

    def __contains__(self, k):
        return k in self.d

    def __len__(self):
        return len(self.d)

    def keys(self):
        return sorted(self.d)

    def items(self):
        return [(k, self.d[k]) for k in sorted(self.d)]

    def get(self, k, d=None):
        return self.d.get(k, d)


class Node:
    def __init__(self, name, parent):
        self.own, self.parent = name, parent
        self.attrs = Attrs()

    @property
    def name(self):
        if self.parent is None:
            return '/'
        p = self.parent.name
        return (p if p == '/' else p + '/') + self.own


def parts(path):
    return [p for p in path.split('/') if len(p)]


class Dataset(Node):
    def __init__(self, name, parent, data):
        super().__init__(name, parent)
        d = arr.to_obj(data) if isinstance(data, arr.SArr) else np.array(data)
        self._d = arr.wrap(d.copy()) if d.dtype == object else d.copy()

    def _sx_data(self):
        return self._d.copy()

    shape = property(lambda s: s._d.shape)
    dtype = property(lambda s: s._d.dtype)
    size = property(lambda s: s._d.size)
    ndim = property(lambda s: s._d.ndim)

    def __getitem__(self, k):
        r = self._d if isinstance(k, tuple) and k == () else self._d[k]
        return r.copy() if isinstance(r, np.ndarray) else r

    def __len__(self):
        return len(self._d)

    def __array__(self, dtype=None):
        return np.array(self._d, dtype)


class Group(Node):
    def __init__(self, name='', parent=None):
        super().__init__(name, parent)
        self.ch = []

    def _find(self, n):
        for k, v in self.ch:
            if len(k) == len(n) and bool(k == n):
                return v
        return None

    def _walk(self, path):
        cur = self
        for p in parts(path):
            cur = cur._find(p) if isinstance(cur, Group) else None
            if cur is None:
                raise KeyError("Unable to open object (object doesn't exist)")
        return cur

    def __getitem__(self, path):
        return self._walk(path)

    def get(self, path, d=None):
        try:
            return self._walk(path)
        except KeyError:
            return d

    def __contains__(self, path):
        return self.get(path) is not None

    def __delitem__(self, path):
        ps = parts(path)
        g = self
        for p in ps[:-1]:
            g = g._find(p) if isinstance(g, Group) else None
            if g is None:
                raise KeyError("Couldn't delete link")
        for i, (k, v) in enumerate(g.ch):
            if len(k) == len(ps[-1]) and bool(k == ps[-1]):
                del g.ch[i]
                return
        raise KeyError("Couldn't delete link (name doesn't exist)")

    def create_dataset(self, path, shape=None, dtype=None, data=None, **k):
        self._ro()
        ps = parts(path)
        g = self
        for p in ps[:-1]:
            n = g._find(p)
            if n is None:
                n = Group(p, g)
                g.ch.append((p, n))
            elif not isinstance(n, Group):
                raise ValueError('Unable to create dataset')
            g = n
        if g._find(ps[-1]) is not None:
            raise ValueError('Unable to create dataset (name already exists)')
        d = Dataset(ps[-1], g, data)
        g.ch.append((ps[-1], d))
        return d

    def require_group(self, path):
        g = self
        for p in parts(path):
            n = g._find(p)
            if n is None:
                n = Group(p, g)
                g.ch.append((p, n))
            g = n
        return g

    create_group = require_group

    def _ro(self):
        r = self
        while r.parent is not None:
            r = r.parent
        if getattr(r, 'mode', 'a') == 'r':
            raise ValueError('Unable to create dataset (no write intent)')

    def _items(self):
        return _sorted(self.ch)

    def keys(self):
        return [k for k, v in self._items()]

    def values(self):
        return [v for k, v in self._items()]

    def items(self):
        return self._items()

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.ch)


def make():
    """a fresh h5py module with no files"""
    m = types.ModuleType('h5py')
    m.files = {}

    class File(Group):
        def __init__(self, path, mode='r', **k):
            super().__init__()
            m.opened.append(path)
            if mode == 'w':
                m.files.pop(path, None)
            if path not in m.files:
                if mode in ('r', 'r+'):
                    raise FileNotFoundError(path)
                m.files[path] = Group()
            elif mode in ('x', 'w-'):
                raise FileExistsError(path)
            self.root = m.files[path]
            self.ch, self.attrs = self.root.ch, self.root.attrs
            self.mode = mode
            self.filename = path
            self.open = True

        def close(self):
            self.open = False

        def flush(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def __bool__(self):
            return self.open

    def reset():
        m.files.clear()
        m.opened = []
    m.reset = reset
    m.opened = []
    m.File, m.Group, m.Dataset = File, Group, Dataset
    hl = types.ModuleType('h5py._hl')
    hl.group = types.ModuleType('h5py._hl.group')
    hl.group.Group = Group
    m._hl = hl
    m.__path__ = []
    return m
