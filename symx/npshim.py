"""The module object the instrumented code sees as `numpy`."""
import math
import operator
import types
import builtins

import numpy as np
from obspy import UTCDateTime as RealUTC

from . import arr, core
from .arr import (SArr, SMA, sarr, to_obj, wrap, emap, unbox, contains_sym,
                  call_np, IMPL, l_sum, e_mul, e_div)
from .core import (Sym, SymReal, SymInt, SymBool, SymComplex, Unsupported,
                   is_sym, ite, land, lor, lnot, s_eq, s_isnan)


def untype(x):
    return getattr(x, '_real_type', x)


def fix_args(a, k):
    return tuple(untype(x) if isinstance(x, type) else x for x in a), {
        n: (untype(x) if isinstance(x, type) else x) for n, x in k.items()}


class FnShim:
    """a numpy function: symbolic arguments go to the encoding"""

    def __init__(self, name, f):
        self._name, self._f = name, f
        self.__name__ = name

    def __call__(self, *a, **k):
        a, k = fix_args(a, k)
        if any(contains_sym(x) for x in a) or any(
                contains_sym(x) for x in k.values()):
            return call_np(self._name, self._f, a, k)
        return self._f(*a, **k)

    def __getattr__(self, n):
        at = getattr(self._f, n)
        if n in ('reduce', 'accumulate', 'outer', 'at'):
            def g(*a, **k):
                if any(contains_sym(x) for x in a):
                    return arr.ufunc_entry(self._f, n, a, k)
                return at(*a, **k)
            return g
        return at


def _shape(s):
    if isinstance(s, (int, np.integer)):
        return (int(s),)
    if is_sym(s):
        return (operator.index(core.to_int(s)),)
    if isinstance(s, (float,)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if isinstance(s, np.ndarray) and s.ndim == 0:
        return (operator.index(s.item()),)
    return tuple(operator.index(unbox(x)) for x in s)


def _val(v, dtype):
    if dtype is None:
        return float(v)
    dt = np.dtype(untype(dtype))
    if dt == np.dtype(bool):
        return bool(v)
    if np.issubdtype(dt, np.integer):
        return int(v)
    if dt == object:
        return v
    return float(v)


def _full(shape, v, kind='f'):
    out = np.empty(_shape(shape), dtype=object)
    f = out.reshape(-1)
    for i in range(f.shape[0]):
        f[i] = v() if callable(v) else v
    r = out.view(SArr)
    r._kind = kind
    return r


def _kind(dtype):
    if dtype is None:
        return 'f'
    k = np.dtype(untype(dtype)).kind
    return {'i': 'i', 'u': 'i', 'b': 'b', 'c': 'c', 'O': 'O'}.get(k, 'f')


class NP(types.ModuleType):
    """lazily wraps numpy"""

    def __init__(self):
        super().__init__('numpy')
        self.__dict__['__path__'] = []
        self._cache = {}
        self.ma = MA()
        self.fft = FFT()
        self.linalg = LINALG()
        self.r_ = R_()
        self.c_ = np.c_
        self.random = RANDOM()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        c = self.__dict__['_cache']
        if n in c:
            return c[n]
        f = getattr(np, n)
        if isinstance(f, type):
            c[n] = f
            if n in ('float64', 'float32', 'int64', 'int32'):
                c[n] = f
            return f
        if isinstance(f, types.ModuleType) or not callable(f):
            return f
        c[n] = FnShim(n, f)
        return c[n]

    def exp(self, x, *a, **k):
        if a or k or contains_sym(x):
            return FnShim('exp', np.exp)(x, *a, **k)
        r = np.exp(x)
        if np.iscomplexobj(r):
            # rotation factors that are exact up to rounding
            q = np.atleast_1d(r)
            for i, v in np.ndenumerate(q):
                q[i] = complex(arr.snap(v.real), arr.snap(v.imag))
            r = q.reshape(np.shape(r)) if np.ndim(r) else q[0]
        return r

    # ---- creation
    def zeros(self, shape, dtype=None, *a, **k):
        return _full(shape, _val(0, dtype), _kind(dtype))

    def ones(self, shape, dtype=None, *a, **k):
        return _full(shape, _val(1, dtype), _kind(dtype))

    def empty(self, shape, dtype=None, *a, **k):
        # uninitialised memory: arbitrary values
        if dtype is None or np.dtype(untype(dtype)).kind == 'f':
            if core._cur[0] is not None:
                return _full(shape, lambda: SymReal(
                    False, core.cur().fresh_real('uninit')))
        return _full(shape, _val(0, dtype), _kind(dtype))

    def full(self, shape, v, dtype=None, *a, **k):
        if is_sym(v):
            return _full(shape, v)
        if dtype is None and isinstance(v, (bool, np.bool_)):
            return _full(shape, bool(v), 'b')
        if dtype is None and isinstance(v, int):
            return _full(shape, v, 'i')
        return _full(shape, v if dtype is None else _val(v, dtype))

    def eye(self, n, m=None, *a, **k):
        r = np.eye(operator.index(n), m)
        return sarr(r).copy()

    identity = eye

    def array(self, x, dtype=None, *a, **k):
        dtype = untype(dtype) if isinstance(dtype, type) else dtype
        if a:
            k['copy'] = a[0]
        if hasattr(x, '_sx_data'):
            x = x._sx_data()
        if contains_sym(x):
            return IMPL['array'](x, dtype, **k)
        r = np.array(x, dtype=dtype, **k)
        if r.dtype == object and r.size and r.ndim and all(
                isinstance(e, RealUTC) for e in r.reshape(-1)):
            # may be selected by symbolic masks
            return sarr(r)
        return sarr(r) if r.dtype.kind == 'f' and r.ndim else r

    def asarray(self, x, dtype=None, *a, **k):
        dtype = untype(dtype) if isinstance(dtype, type) else dtype
        if isinstance(x, SArr) and dtype is None:
            return x
        if contains_sym(x):
            return IMPL['array'](x, dtype, copy=False)
        if isinstance(x, np.ndarray):
            return np.asarray(x, dtype)
        return self.array(x, dtype)

    asanyarray = ascontiguousarray = asarray

    def require(self, a, dtype=None, requirements=None, **k):
        if contains_sym(a):
            return a if dtype is None else sarr(a).astype(dtype)
        return np.require(a, dtype, requirements)

    def zeros_like(self, a, dtype=None, **k):
        if isinstance(a, SMA):
            return SMA(self.zeros(a.shape, dtype or a.dtype), a.mask.copy())
        dtype = untype(dtype) if isinstance(dtype, type) else dtype
        if contains_sym(a):
            o = to_obj(a)
        else:
            o = np.asarray(a)
            dtype = dtype or o.dtype
        return self.zeros(o.shape, dtype)

    def ones_like(self, a, dtype=None, **k):
        if isinstance(a, SMA):
            return SMA(self.ones(a.shape, dtype or a.dtype), a.mask.copy())
        o = to_obj(a) if contains_sym(a) else np.asarray(a)
        if not contains_sym(a):
            dtype = dtype or o.dtype
        return self.ones(o.shape, dtype)

    def empty_like(self, a, dtype=None, **k):
        return self.zeros_like(a, dtype)

    def full_like(self, a, v, dtype=None, **k):
        o = to_obj(a) if contains_sym(a) else np.asarray(a)
        return self.full(o.shape, v, dtype)

    def isscalar(self, x):
        return is_sym(x) or np.isscalar(x)

    def iterable(self, x):
        return np.iterable(x)

    def may_share_memory(self, a, b):
        return np.may_share_memory(to_obj(a) if contains_sym(a) else a,
                                   to_obj(b) if contains_sym(b) else b)

    def shape(self, x):
        return to_obj(x).shape if contains_sym(x) else np.shape(x)

    def ndim(self, x):
        return to_obj(x).ndim if contains_sym(x) else np.ndim(x)

    def size(self, x, axis=None):
        o = to_obj(x) if contains_sym(x) else np.asarray(x)
        return o.size if axis is None else o.shape[axis]

    def arange(self, *a, **k):
        k.pop('dtype', None)
        if any(contains_sym(x) for x in a):
            return IMPL['arange'](*a, **k)
        return np.arange(*a, **k)

    def linspace(self, *a, **k):
        a, k = fix_args(a, k)
        if any(contains_sym(x) for x in a) or contains_sym(k):
            return IMPL['linspace'](*a, **k)
        # elements may be picked by symbolic positions
        r = np.linspace(*a, **k)
        return sarr(r) if isinstance(r, np.ndarray) else r

    def apply_along_axis(self, f, axis, a, *x, **k):
        o = sarr(a)
        m = np.moveaxis(o.base_view(), axis, -1)
        out = None
        for pos in np.ndindex(*m.shape[:-1]):
            v = f(wrap(m[pos]), *x, **k)
            vo = to_obj(v)
            if out is None:
                out = np.empty(m.shape[:-1] + vo.shape, dtype=object)
            out[pos] = vo if vo.ndim else vo[()]
        if out.ndim == m.ndim:
            out = np.moveaxis(out, -1, axis)
        return wrap(out)

    def vectorize(self, f, *a, **k):
        return lambda *xs: emap(f, *xs)

    def trapz(self, y, x=None, dx=1.0, axis=-1):
        if not contains_sym(y) and not contains_sym(x):
            return np.trapz(y, x, dx, axis)
        o = to_obj(y)
        if o.ndim != 1:
            raise Unsupported('trapz')
        t = []
        for i in range(len(o) - 1):
            d = dx if x is None else to_obj(x)[i + 1] - to_obj(x)[i]
            t.append((o[i + 1] + o[i]) * d / 2.0)
        return l_sum(t)

    def setdiff1d(self, a, b, **k):
        if not contains_sym(a) and not contains_sym(b):
            return np.setdiff1d(a, b, **k)
        bl = list(to_obj(b).reshape(-1))
        u = IMPL['unique'](a).flat_list()
        return sarr([x for x in u if not any(bool(s_eq(x, y))
                                             for y in bl)])

    def polyfit(self, x, y, deg, **k):
        """ordinary least squares; exact rational normal equations"""
        if not contains_sym(x) and not contains_sym(y):
            return np.polyfit(x, y, deg, **k)
        if contains_sym(x) or deg > 1:
            raise Unsupported('polyfit')
        xs, ys = list(np.asarray(x, float)), list(to_obj(y))
        n = len(xs)
        mx = sum(xs) / n
        sxx = sum((v - mx) ** 2 for v in xs)
        if deg == 0:
            return sarr([e_div(l_sum(ys), n)])
        slope = l_sum([y * ((v - mx) / sxx) for v, y in zip(xs, ys)])
        return sarr([slope, e_div(l_sum(ys), n) - slope * mx])

    def polyval(self, p, x):
        r = 0.
        for c in to_obj(p):
            r = x * r + c
        return r

    def isin(self, a, b, **k):
        bl = list(to_obj(b).reshape(-1))
        return emap(lambda x: lor(*[s_eq(x, y) for y in bl]), a)

    in1d = isin

    def load(self, *a, **k):
        from . import npz
        return npz.load(*a, **k)

    def savez_compressed(self, *a, **k):
        from . import npz
        return npz.savez(*a, **k)

    savez = savez_compressed


class RANDOM(types.ModuleType):
    """random numbers are arbitrary values"""

    def __init__(self):
        super().__init__('numpy.random')

    def randn(self, *s):
        return _full(s, lambda: SymReal(
            False, core.cur().fresh_real('rand')))

    random = rand = standard_normal = randn

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(np.random, n)


class R_:
    def __getitem__(self, items):
        if not isinstance(items, tuple):
            items = (items,)
        if not any(contains_sym(i) for i in items):
            return np.r_[items]
        parts = []
        for i in items:
            if isinstance(i, slice):
                parts.append(to_obj(np.r_[i]))
            else:
                parts.append(np.atleast_1d(to_obj(i)))
        return wrap(np.concatenate(parts))


class FFT(types.ModuleType):
    def __init__(self, name='numpy.fft'):
        super().__init__(name)
        self._real = np.fft
        self._of = name

    def _d(self, n, f):
        real = getattr(np.fft, n)

        def g(*a, **k):
            if any(contains_sym(x) for x in a):
                k.pop('workers', None)
                return f(*a, **k)
            k.pop('workers', None)
            return real(*a, **k)
        return g

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in ('rfft', 'irfft', 'fft', 'ifft'):
            return self._d(n, getattr(arr, n))
        if n in ('fftshift', 'ifftshift'):
            def g(a, axes=None):
                if not contains_sym(a):
                    return getattr(np.fft, n)(a, axes)
                return wrap(getattr(np.fft, n)(to_obj(a), axes))
            return g
        if n in ('rfftfreq', 'fftfreq'):
            def h(m, d=1.0):
                if is_sym(d):
                    base = getattr(np.fft, n)(m, 1.0)
                    return emap(lambda x: e_div(x, d), base)
                return getattr(np.fft, n)(m, d)
            return h
        if n == 'next_fast_len':
            import importlib
            return getattr(importlib.import_module(self._of), n)
        f = getattr(np.fft, n, None)
        if f is None:
            import importlib
            f = getattr(importlib.import_module(self._of), n)

        def u(*a, **k):
            if any(contains_sym(x) for x in a):
                raise Unsupported('fft.' + n)
            return f(*a, **k)
        return u


def gauss_inv(a):
    """exact inverse by elimination with symbolic pivots (assumed nonzero
    pivots are chosen by forking)"""
    o = to_obj(a)
    n = o.shape[0]
    M = [[o[i, j] for j in range(n)] +
         [1. if i == j else 0. for j in range(n)] for i in range(n)]
    for c in range(n):
        p = None
        for r in range(c, n):
            if bool(lnot(s_eq(M[r][c], 0.))):
                p = r
                break
        if p is None:
            raise np.linalg.LinAlgError('Singular matrix')
        M[c], M[p] = M[p], M[c]
        d = M[c][c]
        M[c] = [e_div(x, d) for x in M[c]]
        for r in range(n):
            if r != c:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return sarr([row[n:] for row in M])


def const_float(x):
    """value of an entry that does not depend on the input; None if it does"""
    if not is_sym(x):
        return float(x)
    x = core.lift_real(x)
    if x is None or x.nan not in (True, False):
        return None
    if x.nan:
        return math.nan
    t = core.z3.simplify(x.val)
    return float(core.ratval(t)) if core.isconst(t) else None


def const_matrix(a, name):
    o = to_obj(a)
    n = np.array([const_float(x) for x in o.reshape(-1)], dtype=object)
    if any(x is None for x in n):
        raise Unsupported('linalg.' + name)
    return n.astype(float).reshape(o.shape)


class LINALG(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.linalg')
        self.LinAlgError = np.linalg.LinAlgError

    def norm(self, x, ord=None, axis=None, keepdims=False):
        if contains_sym(x):
            return IMPL['norm'](x, ord, axis, keepdims)
        return np.linalg.norm(x, ord, axis, keepdims)

    def inv(self, a):
        if contains_sym(a):
            return gauss_inv(a)
        return np.linalg.inv(a)

    def pinv(self, a, *args, **k):
        if contains_sym(a):
            return sarr(np.linalg.pinv(
                const_matrix(a, 'pinv'), *args, **k).tolist())
        return np.linalg.pinv(a, *args, **k)

    def qr(self, a, *args, **k):
        if contains_sym(a):
            return tuple(sarr(x.tolist()) for x in np.linalg.qr(
                const_matrix(a, 'qr'), *args, **k))
        return np.linalg.qr(a, *args, **k)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        f = getattr(np.linalg, n)
        if not callable(f):
            return f

        def u(*a, **k):
            if any(contains_sym(x) for x in a):
                raise Unsupported('linalg.' + n)
            return f(*a, **k)
        return u


class _MAM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SMA, np.ma.MaskedArray))


class MaskedArrayShim(metaclass=_MAM):
    _real_type = np.ma.MaskedArray

    def __new__(cls, data, mask=False, **k):
        return ma_array(data, mask, **k)


def ma_array(data, mask=False, fill_value=None, **k):
    if contains_sym(data) or contains_sym(mask):
        if mask is np.ma.nomask or mask is None:
            mask = False
        r = SMA(data, mask, fill_value)
        r.hard = k.get('hard_mask', r.hard)
        return r
    return np.ma.masked_array(data, mask, fill_value=fill_value, **k)


class MA(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.ma')
        self.MaskedArray = MaskedArrayShim
        self.masked_array = MaskedArrayShim
        self.array = ma_array
        self.masked = np.ma.masked
        self.nomask = np.ma.nomask

    def masked_invalid(self, a, copy=True):
        if isinstance(a, SMA):
            r = SMA(a.data.copy(), emap(lor, a.mask, emap(s_isnan, a.data)),
                    a._fv)
            r.hard = a.hard
            return r
        if contains_sym(a):
            return SMA(a.copy(), emap(s_isnan, a))
        return np.ma.masked_invalid(a, copy)

    def is_masked(self, x):
        if isinstance(x, SMA):
            return bool(lor(*x.mask.flat_list()))
        if x is np.ma.masked:
            return True
        if contains_sym(x):
            return False
        return np.ma.is_masked(x)

    def isMaskedArray(self, x):
        return isinstance(x, (SMA, np.ma.MaskedArray))

    isMA = isarray = isMaskedArray

    def getmask(self, x):
        return x.mask if isinstance(x, SMA) else np.ma.getmask(x)

    def getmaskarray(self, x):
        return x.mask if isinstance(x, SMA) else np.ma.getmaskarray(x)

    def count_masked(self, x):
        if isinstance(x, SMA):
            return arr.l_count(x.mask.flat_list())
        return np.ma.count_masked(x)

    def getdata(self, x):
        return x.data if isinstance(x, SMA) else np.ma.getdata(x)

    def median(self, x, axis=None, **k):
        if not contains_sym(x):
            return np.ma.median(x, axis, **k)
        if not isinstance(x, SMA) or axis is None or k:
            raise Unsupported('ma.median')
        d = emap(lambda m, v: ite(m, math.nan, v), x.mask, x.data)
        r = arr.along(arr.l_quant(.5, True), d, axis)
        return SMA(r, emap(s_isnan, r))

    def concatenate(self, xs, axis=0):
        if not any(contains_sym(x) for x in xs):
            return np.ma.concatenate(xs, axis)
        ds, ms = [], []
        for x in xs:
            if isinstance(x, SMA):
                d, m = x.data, x.mask
            else:
                d, m = np.ma.getdata(x), np.ma.getmaskarray(x) if not \
                    contains_sym(x) else np.zeros(np.shape(x), dtype=bool)
            ds.append(to_obj(d))
            ms.append(to_obj(m))
        return SMA(arr.wrap(np.concatenate(ds, axis)),
                   arr.wrap(np.concatenate(ms, axis)))

    def filled(self, x, v=None):
        return x.filled(v) if isinstance(x, SMA) else x

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        f = getattr(np.ma, n)

        def u(*a, **k):
            if any(contains_sym(x) for x in a):
                if hasattr(SMA, n):
                    return getattr(SMA, n)(*a, **k)
                if n in ('average',):
                    raise Unsupported('ma.' + n)
                raise Unsupported('ma.' + n)
            return f(*a, **k)
        return u
