"""numpy's .npz files: what is saved is what is loaded."""
import io
from collections.abc import Mapping

import numpy as np

from . import core
from .arr import contains_sym, to_obj, SArr, SMA, sarr
from .core import Unsupported

FILES = {}


def reset():
    FILES.clear()


def _store(v):
    if hasattr(v, '_sx_data'):
        v = v._sx_data()
    if isinstance(v, SMA):
        v = v.data
    if contains_sym(v):
        o = to_obj(v)
        for x in o.reshape(-1):
            if x is None or isinstance(x, (dict, list, tuple)):
                return ('pickled', None)
        r = np.array(o, copy=True).view(SArr)
        r._kind = getattr(v, '_kind', 'f')
        return ('arr', r)
    r = np.array(v, copy=True)
    if r.dtype == object:
        return ('pickled', r)
    return ('arr', sarr(r).copy() if r.dtype.kind == 'f' and r.ndim else r)


def savez(path, *a, **k):
    if a or isinstance(path, core.Sym):
        raise Unsupported('savez')
    path = str(path)
    if not path.endswith('.npz'):
        path += '.npz'
    FILES[path] = {n: _store(v) for n, v in k.items()}


class Npz(Mapping):
    def __init__(self, d):
        self._d = d
        self.files = list(d)

    def __getitem__(self, k):
        kind, v = self._d[k]
        if kind == 'pickled':
            raise ValueError(
                'Object arrays cannot be loaded when allow_pickle=False')
        return v.copy()

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __contains__(self, k):
        return k in self._d

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def load(path, *a, **k):
    if a or k:
        raise Unsupported('np.load with options')
    if path not in FILES:
        raise FileNotFoundError(path)
    if isinstance(FILES[path], bytes):
        return np.load(io.BytesIO(FILES[path]))
    return Npz(FILES[path])
