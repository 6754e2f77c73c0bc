"""Arrays of symbolic values: an ndarray subclass with dtype object.

Structural numpy functions run natively on the object array; numeric ones are
re-implemented over the elements (`IMPL`, `ELEM`).
"""
import math
import operator
import builtins

import numpy as np
import z3

from . import core
from .core import (Sym, SymBool, SymReal, SymInt, SymComplex, Unsupported,
                   is_sym, ite, land, lor, lnot, s_eq, s_isnan, lift_real,
                   truth, mkbool)


class SArr(np.ndarray):
    _kind = 'f'

    def __array_finalize__(self, obj):
        self._kind = getattr(obj, '_kind', 'f')

    # ---- numpy protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_entry(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return function_entry(func, args, kwargs)

    @property
    def dtype(self):
        for x in self.base_view().flat:
            if isinstance(x, (SymComplex, complex)):
                return np.dtype('complex128')
            if isinstance(x, (SymBool, bool, np.bool_)):
                return np.dtype(bool)
            if isinstance(x, (SymInt, int, np.integer)):
                continue
            return np.dtype('float64')
        return np.dtype({'f': 'float64', 'i': 'int64', 'b': 'bool',
                         'c': 'complex128', 'O': 'object'}[self._kind])

    def base_view(self):
        return self.view(np.ndarray)

    # ---- indexing
    def __getitem__(self, idx):
        idx, special = norm_index(self, idx, False)
        if special is not None:
            return special
        r = self.base_view()[idx]
        return wrap(r)

    def __setitem__(self, idx, value):
        if has_symmask(idx):
            if mask_assign(self, idx, value):
                return
        if has_symint(idx):
            if int_assign(self, idx, value):
                return
        idx, special = norm_index(self, idx, True)
        v = value
        if isinstance(v, SMA):
            v = v.data
        if isinstance(v, SArr):
            v = v.base_view()
        bv = self.base_view()
        if not isinstance(v, np.ndarray) and is_scalar(v):
            tgt = bv[idx]
            if isinstance(tgt, np.ndarray):
                vv = np.empty((), dtype=object)
                vv[()] = v
                bv[idx] = vv
            else:
                bv[idx] = v
            return
        if isinstance(v, (list, tuple)):
            v = to_obj(v)
        bv[idx] = v

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one '
                             'element is ambiguous.')
        return bool(self.base_view().reshape(-1)[0])

    def __contains__(self, x):
        return bool(lor(*[s_eq(e, x) for e in self.flat_list()]))

    def __float__(self):
        return self.item().__float__()

    def __int__(self):
        return int(self.item())

    def __index__(self):
        return operator.index(self.item())

    def __repr__(self):
        return 'SArr' + np.array2string(self.base_view(), threshold=20)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        raise TypeError('unhashable')

    def __reduce__(self):
        raise Unsupported('pickling a symbolic array')

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def copy(self, order='C'):
        return wrap(np.array(self.base_view(), copy=True))

    def flat_list(self):
        return list(self.base_view().reshape(-1))

    def item(self, *a):
        return self.base_view().item(*a)

    def tolist(self):
        return self.base_view().tolist()

    def newbyteorder(self, *a):
        return self

    def astype(self, t, *a, **k):
        dt = np.dtype(t)
        if np.issubdtype(dt, np.integer):
            r = emap(lambda x: core.to_int(x) if is_sym(x) else int(x), self)
            r._kind = 'i'
            return r
        if dt == np.dtype(bool):
            return emap(lambda x: truth(x), self)
        if np.issubdtype(dt, np.complexfloating) or dt == np.dtype(object):
            return self.copy()
        r = emap(lambda x: (lift_real(x) if is_sym(x) and not
                            isinstance(x, SymComplex) else
                            (float(x) if not is_sym(x) else x)), self)
        r._kind = 'f'
        return r

    def fill(self, v):
        b = self.base_view()
        vv = np.empty((), dtype=object)
        vv[()] = v
        b[...] = vv

    real = property(lambda s: emap(lambda x: x.real, s))
    imag = property(lambda s: emap(lambda x: x.imag, s))

    def conj(self):
        return emap(lambda x: x.conjugate(), self)
    conjugate = conj

    def sum(self, axis=None, dtype=None, out=None, **k):
        return IMPL['sum'](self, axis=axis, **k)

    def mean(self, axis=None, dtype=None, out=None, **k):
        return IMPL['mean'](self, axis=axis, **k)

    def std(self, axis=None, dtype=None, out=None, **k):
        return IMPL['std'](self, axis=axis, **k)

    def var(self, axis=None, dtype=None, out=None, **k):
        return IMPL['var'](self, axis=axis, **k)

    def max(self, axis=None, out=None, **k):
        return IMPL['max'](self, axis=axis, **k)

    def min(self, axis=None, out=None, **k):
        return IMPL['min'](self, axis=axis, **k)

    def argmax(self, axis=None, out=None, **k):
        return IMPL['argmax'](self, axis=axis, **k)

    def argmin(self, axis=None, out=None, **k):
        return IMPL['argmin'](self, axis=axis, **k)

    def argsort(self, axis=-1, **k):
        return IMPL['argsort'](self, axis=axis)

    def sort(self, axis=-1, **k):
        self[...] = IMPL['sort'](self, axis=axis)

    def any(self, axis=None, out=None, **k):
        return IMPL['any'](self, axis=axis)

    def all(self, axis=None, out=None, **k):
        return IMPL['all'](self, axis=axis)

    def dot(self, b, out=None):
        return IMPL['dot'](self, b)

    def cumsum(self, axis=None, **k):
        return IMPL['cumsum'](self, axis=axis)

    def prod(self, axis=None, **k):
        return IMPL['prod'](self, axis=axis)

    def clip(self, a_min=None, a_max=None, out=None, **k):
        return IMPL['clip'](self, a_min, a_max, out=out)

    def nonzero(self):
        return IMPL['nonzero'](self)

    def take(self, idx, axis=None, **k):
        return IMPL['take'](self, idx, axis)

    def round(self, decimals=0, out=None):
        return IMPL['round'](self, decimals)

    def squeeze(self, axis=None):
        return wrap(self.base_view().squeeze(axis))

    def searchsorted(self, v, side='left', sorter=None):
        return IMPL['searchsorted'](self, v, side)


def is_scalar(v):
    return is_sym(v) or np.isscalar(v) or v is None or not hasattr(
        v, '__len__')


def wrap(r, kind=None):
    """object ndarray -> SArr; everything else unchanged"""
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r)
    if type(r) is list:
        return [wrap(x) for x in r]
    if isinstance(r, np.ndarray) and not isinstance(r, SArr) and \
            np.ndarray.dtype.__get__(r) == object:
        r = r.view(SArr)
    if isinstance(r, SArr) and kind:
        r._kind = kind
    return r


def to_obj(x):
    """anything array like -> plain object ndarray"""
    if isinstance(x, SMA):
        raise Unsupported('masked array used as a plain one')
    if isinstance(x, SArr):
        return x.base_view()
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        if x.dtype.kind == 'M':
            raise Unsupported('datetime array')
        r = np.empty(x.shape, dtype=object)
        if x.size:
            r.reshape(-1)[:] = list(x.reshape(-1).tolist())
        return r
    if is_sym(x) or np.isscalar(x) or x is None:
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    if isinstance(x, (range,)) or hasattr(x, '__next__'):
        x = list(x)
    if isinstance(x, (list, tuple)):
        parts = [to_obj(e) for e in x]
        if not parts:
            return np.empty((0,), dtype=object)
        s0 = parts[0].shape
        if all(p.shape == s0 for p in parts):
            r = np.empty((len(parts),) + s0, dtype=object)
            for i, p in enumerate(parts):
                if s0 == ():
                    r[i] = p[()]
                else:
                    r[i, ...] = p
            return r
        raise ValueError('setting an array element with a sequence. '
                         'inhomogeneous shape')
    r = np.empty((), dtype=object)
    r[()] = x
    return r


def sarr(x):
    if isinstance(x, SArr):
        return x
    return to_obj(x).view(SArr)


def emap(f, *arrs):
    obs = [to_obj(a) for a in arrs]
    if len(obs) > 1:
        obs = np.broadcast_arrays(*obs)
    shape = obs[0].shape
    out = np.empty(shape, dtype=object)
    o = out.reshape(-1)
    fl = [b.reshape(-1) for b in obs]
    for i in range(o.shape[0]):
        o[i] = f(*[b[i] for b in fl])
    return out.reshape(shape).view(SArr)


def unbox(a):
    """0-d SArr -> scalar"""
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return a.item() if isinstance(a, SArr) else a[()]
    return a


def contains_sym(x, depth=0):
    if is_sym(x) or isinstance(x, (SArr, SMA)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return any(contains_sym(e) for e in x.reshape(-1))
        return False
    if isinstance(x, (list, tuple)) and depth < 5:
        return any(contains_sym(e, depth + 1) for e in x)
    if isinstance(x, dict) and depth < 5:
        return any(contains_sym(e, depth + 1) for e in x.values())
    return False


# ---------------------------------------------------------------- indices
def _is_boolish(a):
    if isinstance(a, SArr):
        fl = a.flat_list()
        return len(fl) > 0 and all(
            isinstance(e, (bool, np.bool_, SymBool)) for e in fl)
    return False


def has_symmask(idx):
    ii = idx if isinstance(idx, tuple) else (idx,)
    return any(isinstance(i, SymBool) or (_is_boolish(i) and any(
        is_sym(e) for e in i.flat_list())) for i in ii)


def has_symint(idx):
    ii = idx if isinstance(idx, tuple) else (idx,)
    return any(isinstance(i, SymInt) or (
        isinstance(i, SArr) and any(
            isinstance(e, SymInt) for e in i.flat_list())) for i in ii)


def mask_assign(a, idx, value):
    """a[mask] = scalar by merging; True if handled"""
    ii = idx if isinstance(idx, tuple) else (idx,)
    if isinstance(value, np.ndarray) and value.size == 1:
        value = value.reshape(-1)[0]
    if not is_scalar(value):
        return False
    bv = a.base_view()
    if len(ii) == 1 and isinstance(ii[0], SArr):
        m = ii[0].base_view()
        if m.ndim > bv.ndim or m.shape != bv.shape[:m.ndim]:
            raise IndexError('boolean index did not match indexed array')
        mm = m.reshape(m.shape + (1,) * (bv.ndim - m.ndim))
        r = emap(lambda c, x: ite(c, value, x), mm, bv)
        bv[...] = r.base_view()
        return True
    sp = [k for k, i in enumerate(ii)
          if _is_boolish(i) and any(is_sym(e) for e in i.flat_list())]
    if len(sp) == 1 and all(
            isinstance(i, (slice, int, np.integer))
            for k, i in enumerate(ii) if k != sp[0]) and \
            ii[sp[0]].ndim == 1:
        k = sp[0]
        m = ii[k].flat_list()
        if len(m) != bv.shape[k]:
            raise IndexError('boolean index did not match indexed array')
        for j, c in enumerate(m):
            sub = list(ii)
            sub[k] = j
            sub = tuple(sub)
            cur = bv[sub]
            if isinstance(cur, np.ndarray):
                bv[sub] = emap(
                    lambda x: ite(c, value, x), cur).base_view()
            else:
                bv[sub] = ite(c, value, cur)
        return True
    return False


def int_assign(a, idx, value):
    ii = idx if isinstance(idx, tuple) else (idx,)
    if not all(isinstance(i, (SymInt, int, np.integer)) for i in ii):
        return False
    if len(ii) != a.ndim or not is_scalar(value):
        return False
    bv = a.base_view()
    conds = []
    for i, n in zip(ii, bv.shape):
        if isinstance(i, SymInt):
            ok = land(i >= -n, i < n)
            if not bool(ok):
                raise IndexError('index out of bounds')
            conds.append([lor(i == k, i == k - n) for k in range(n)])
        else:
            if not -n <= i < n:
                raise IndexError('index out of bounds')
            conds.append([k == i % n for k in range(n)])
    for pos in np.ndindex(*bv.shape):
        c = land(*[cc[p] for cc, p in zip(conds, pos)])
        bv[pos] = ite(c, value, bv[pos])
    return True


def pick(a, i):
    """a[i] along the first axis for a symbolic integer i (no forking)"""
    n = a.shape[0]
    ok = land(i >= -n, i < n)
    if not bool(ok):
        raise IndexError('index out of bounds')
    bv = a.base_view()
    # feasible range only
    r = bv[n - 1]
    for k in range(n - 2, -1, -1):
        c = lor(i == k, i == k - n)
        if isinstance(r, np.ndarray):
            r = emap(lambda x, y: ite(c, x, y), bv[k], r).base_view()
        else:
            r = ite(c, bv[k], r)
    return wrap(r)


def item(x, i):
    """x[i] of the instrumented code"""
    if type(x) is np.ndarray and isinstance(i, SArr):
        i = conc_idx(i)
    return x[i]


def conc_idx(i):
    if isinstance(i, (SymInt, SymReal)):
        return operator.index(core.to_int(i))
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, slice):
        return slice(*[None if s is None else (
            operator.index(unbox(s))) for s in (i.start, i.stop, i.step)])
    if isinstance(i, (list,)) and contains_sym(i):
        i = sarr(i)
    if isinstance(i, SArr):
        fl = i.flat_list()
        if fl and all(isinstance(e, (bool, np.bool_, SymBool)) for e in fl):
            return np.array([bool(e) for e in fl], dtype=bool).reshape(
                i.shape)
        if not fl:
            return np.zeros(i.shape, dtype=bool if i._kind == 'b' else int)
        if all(isinstance(e, (int, np.integer, SymInt)) for e in fl):
            return np.array(
                [operator.index(e) for e in fl], dtype=int).reshape(i.shape)
        raise IndexError('arrays used as indices must be of integer type')
    if isinstance(i, np.ndarray) and i.dtype == object and i.size:
        return conc_idx(wrap(i))
    return i


def norm_index(a, idx, setting):
    if not setting:
        if isinstance(idx, SymInt) and a.ndim >= 1:
            return None, pick(a, idx)
        if isinstance(idx, SArr) and idx.size and a.ndim == 1 and all(
                isinstance(e, (int, np.integer, SymInt))
                for e in idx.flat_list()) and has_symint(idx):
            return None, emap(lambda i: pick(a, i) if is_sym(i)
                              else a.base_view()[i], idx)
        if isinstance(idx, tuple) and has_symint(idx) and len(
                idx) == a.ndim and all(
                isinstance(i, (SymInt, int, np.integer)) or (
                    isinstance(i, np.ndarray) and all(
                        isinstance(e, (int, np.integer, SymInt))
                        and not isinstance(e, bool)
                        for e in to_obj(i).reshape(-1)))
                for i in idx):
            def p(*ks):
                r = a
                for k in ks:
                    r = pick(r, k) if is_sym(k) else wrap(
                        r.base_view()[k])
                return r
            return None, unbox(emap(p, *idx))
        if isinstance(idx, tuple) and sum(
                isinstance(i, SymInt) for i in idx) == 1 and all(
                isinstance(i, (SymInt, int, np.integer, slice))
                for i in idx):
            k = [isinstance(i, SymInt) for i in idx].index(True)
            n = a.shape[k]
            rs = [a[tuple(idx[:k]) + (j,) + tuple(idx[k + 1:])]
                  for j in range(n)]
            return None, pick(sarr(rs), idx[k])
    if isinstance(idx, tuple):
        return tuple(conc_idx(i) for i in idx), None
    return conc_idx(idx), None


# ---------------------------------------------------------------- scalars
BOOLS = (bool, np.bool_, SymBool)


def _num(x):
    """bool arithmetic like numpy's"""
    return x


def e_add(a, b):
    if isinstance(a, BOOLS) and isinstance(b, BOOLS):
        return lor(a, b)
    return a + b


def e_mul(a, b):
    if isinstance(a, BOOLS) and isinstance(b, BOOLS):
        return land(a, b)
    return a * b


def e_sub(a, b):
    return a - b


def e_div(a, b):
    if not is_sym(a) and not is_sym(b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if b == 0:
                with np.errstate(all='ignore'):
                    return float(np.float64(a) / np.float64(b))
            return a / b
        return a / b
    if is_sym(b) and not is_sym(a) and core.conc_num(a):
        return lift_real(a) / b if not isinstance(b, SymComplex) else a / b
    return a / b


def e_floordiv(a, b):
    return a // b


def e_mod(a, b):
    return a % b


def e_pow(a, b):
    return a ** b


def e_max(a, b):
    """np.maximum: nan wins"""
    return ite(s_isnan(a), a, ite(s_isnan(b), b, ite(b > a, b, a)))


def e_min(a, b):
    return ite(s_isnan(a), a, ite(s_isnan(b), b, ite(b < a, b, a)))


def e_fmax(a, b):
    return ite(s_isnan(a), b, ite(s_isnan(b), a, ite(b > a, b, a)))


def e_fmin(a, b):
    return ite(s_isnan(a), b, ite(s_isnan(b), a, ite(b < a, b, a)))


def e_isnan(a):
    return s_isnan(a)


def e_isfinite(a):
    if is_sym(a):
        return lnot(s_isnan(a))
    return bool(np.isfinite(a))


def e_isinf(a):
    if is_sym(a):
        return False
    return bool(np.isinf(a))


def e_abs(a):
    return abs(a)


def e_sign(a):
    if not is_sym(a):
        return float(np.sign(a))
    r = ite(a > 0, 1., ite(a < 0, -1., 0.))
    return ite(s_isnan(a), a, r)


def e_sqrt(a):
    if is_sym(a):
        return core.r_sqrt(a)
    with np.errstate(all='ignore'):
        return float(np.sqrt(a))


def e_eq(a, b):
    if is_sym(a) or is_sym(b):
        return a == b if is_sym(a) else b == a
    r = (a == b)
    return r if isinstance(r, np.ndarray) else bool(r)


def e_ne(a, b):
    return lnot(e_eq(a, b))


def e_and(a, b):
    if isinstance(a, BOOLS) and isinstance(b, BOOLS):
        return land(a, b)
    return a & b


def e_or(a, b):
    if isinstance(a, BOOLS) and isinstance(b, BOOLS):
        return lor(a, b)
    return a | b


def e_xor(a, b):
    return lnot(s_eq(a, b))


def e_invert(a):
    if isinstance(a, BOOLS):
        return lnot(a)
    return ~a


def e_floor(a):
    if is_sym(a):
        return a if isinstance(a, SymInt) else core.r_floor(lift_real(a))
    return float(np.floor(a))


def e_ceil(a):
    if is_sym(a):
        return a if isinstance(a, SymInt) else -core.r_floor(-lift_real(a))
    return float(np.ceil(a))


def e_rint(a):
    if is_sym(a):
        return a if isinstance(a, SymInt) else core.r_rint(lift_real(a))
    return float(np.rint(a))


def e_trunc(a):
    if is_sym(a):
        if isinstance(a, SymInt):
            return a
        return ite(a >= 0, e_floor(a), e_ceil(a))
    return float(np.trunc(a))


def e_conj(a):
    return a.conjugate()


def e_heaviside(a, b):
    return ite(s_isnan(a), a, ite(a > 0, 1., ite(e_eq(a, 0), b, 0.)))


def _uf(name):
    def f(a):
        if is_sym(a):
            if isinstance(a, SymComplex):
                raise Unsupported(name + ' of a complex value')
            v = core.determined(a)
            if v is None:
                return core.uf(name, a)
            a = v
        with np.errstate(all='ignore'):
            return getattr(np, name)(a).item()
    return f


def e_lt(a, b):
    return a < b


ELEM = {
    'add': e_add, 'subtract': e_sub, 'multiply': e_mul, 'divide': e_div,
    'true_divide': e_div, 'floor_divide': e_floordiv, 'remainder': e_mod,
    'mod': e_mod, 'fmod': None, 'power': e_pow, 'float_power': e_pow,
    'negative': lambda a: -a, 'positive': lambda a: a,
    'absolute': e_abs, 'fabs': e_abs, 'abs': e_abs,
    'maximum': e_max, 'minimum': e_min, 'fmax': e_fmax, 'fmin': e_fmin,
    'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b,
    'greater': lambda a, b: a > b, 'greater_equal': lambda a, b: a >= b,
    'equal': e_eq, 'not_equal': e_ne,
    'logical_and': land, 'logical_or': lor, 'logical_not': lnot,
    'logical_xor': lambda a, b: lnot(s_eq(truth(a), truth(b))),
    'bitwise_and': e_and, 'bitwise_or': e_or, 'bitwise_xor': e_xor,
    'invert': e_invert, 'isnan': e_isnan, 'isfinite': e_isfinite,
    'isinf': e_isinf, 'sign': e_sign, 'sqrt': e_sqrt,
    'square': lambda a: a * a, 'floor': e_floor, 'ceil': e_ceil,
    'rint': e_rint, 'trunc': e_trunc, 'fix': e_trunc,
    'conjugate': e_conj, 'conj': e_conj,
    'heaviside': e_heaviside, 'reciprocal': lambda a: e_div(1., a),
    'exp': _uf('exp'), 'log': _uf('log'), 'log10': _uf('log10'),
    'log2': _uf('log2'), 'sin': _uf('sin'), 'cos': _uf('cos'),
    'tan': _uf('tan'), 'arctan': _uf('arctan'), 'tanh': _uf('tanh'),
    'arcsin': _uf('arcsin'), 'arccos': _uf('arccos'),
    'expm1': _uf('expm1'), 'log1p': _uf('log1p'), 'sinh': _uf('sinh'),
    'cosh': _uf('cosh'), 'cbrt': _uf('cbrt'),
    'arctan2': lambda a, b: core.uf('arctan2', a, b),
    'hypot': lambda a, b: e_sqrt(a * a + b * b),
    'deg2rad': lambda a: a * (math.pi / 180),
    'radians': lambda a: a * (math.pi / 180),
    'rad2deg': lambda a: a * (180 / math.pi),
    'degrees': lambda a: a * (180 / math.pi),
    'copysign': lambda a, b: ite(b >= 0, abs(a), -abs(a)),
    'real': lambda a: a.real, 'imag': lambda a: a.imag,
}


def e_spacing(a):
    if is_sym(a):
        raise Unsupported('spacing')
    return np.spacing(a)


def ufunc_entry(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    if isinstance(out, tuple):
        out = out[0]
    if any(isinstance(i, SMA) for i in inputs):
        return sma_ufunc(name, inputs)
    if name == 'matmul':
        r = IMPL['matmul'](*inputs)
        return store(out, r)
    if method == '__call__':
        f = ELEM.get(name)
        if f is None:
            raise Unsupported('ufunc ' + name)
        where = kw.pop('where', True)
        kw.pop('dtype', None)
        kw.pop('casting', None)
        if kw:
            raise Unsupported(f'ufunc {name} with {list(kw)}')
        r = emap(f, *inputs)
        if where is not True:
            if out is None:
                raise Unsupported('ufunc where without out')
            r = emap(lambda c, x, y: ite(c, x, y), where, r, sarr(out))
        return store(out, r)
    if method == 'reduce':
        m = {'add': 'sum', 'multiply': 'prod', 'maximum': 'max',
             'minimum': 'min', 'logical_and': 'all', 'logical_or': 'any',
             'fmax': 'nanmax', 'fmin': 'nanmin'}.get(name)
        if m is None:
            raise Unsupported('reduce of ' + name)
        axis = kw.get('axis', 0)
        if len(inputs) > 1:
            axis = inputs[1]
        return store(out, IMPL[m](
            inputs[0], axis=axis, keepdims=kw.get('keepdims', False)))
    if method == 'accumulate':
        if name == 'add':
            return IMPL['cumsum'](inputs[0], axis=kw.get('axis', 0))
        f = ELEM[name]
        a = to_obj(inputs[0])
        ax = kw.get('axis', 0)
        a = np.moveaxis(a, ax, 0).copy()
        for i in range(1, len(a)):
            a[i] = emap(f, a[i - 1], a[i]).base_view()
        return wrap(np.moveaxis(a, 0, ax))
    if method == 'outer':
        a, b = to_obj(inputs[0]), to_obj(inputs[1])
        return emap(ELEM[name], a.reshape(a.shape + (1,) * b.ndim), b)
    if method == 'at':
        a, i, b = inputs
        bb = to_obj(b)
        ii = np.atleast_1d(conc_idx(i))
        bb = np.broadcast_to(bb, ii.shape)
        for k, j in enumerate(ii):
            a[j] = ELEM[name](a[j], bb[k])
        return None
    raise Unsupported('ufunc method ' + method)


def store(out, r):
    if out is None:
        return unbox(r)
    if isinstance(out, SArr):
        ob = out.base_view()
        rb = to_obj(r)
        if np.broadcast_shapes(ob.shape, rb.shape) != ob.shape:
            raise ValueError('non-broadcastable output operand')
        ob[...] = rb
        return out
    raise Unsupported('in-place result into a native array')


# ---------------------------------------------------------------- IMPL
IMPL = {}


def impl(*names):
    def d(f):
        for n in names:
            IMPL[n] = f
        return f
    return d


def along(f, a, axis, keepdims=False, extra=None):
    """apply f(list)->scalar along the axis"""
    if isinstance(a, SMA):
        raise Unsupported('masked reduction')
    o = to_obj(a)
    if isinstance(axis, tuple):
        if len(axis) == 1:
            axis = axis[0]
        elif len({x % o.ndim for x in axis}) == o.ndim:
            axis = None
        else:
            keep = [i for i in range(o.ndim)
                    if i not in {x % o.ndim for x in axis}]
            m = np.transpose(o, keep + [x % o.ndim for x in axis])
            o = m.reshape([o.shape[i] for i in keep] + [-1])
            if keepdims:
                raise Unsupported('keepdims with several axes')
            axis = -1
    if axis is None:
        r = f(list(o.reshape(-1)))
        if keepdims:
            z = np.empty((1,) * o.ndim, dtype=object)
            z.reshape(-1)[0] = r
            return z.view(SArr)
        return r
    axis = operator.index(axis)
    if not -o.ndim <= axis < o.ndim:
        raise np.AxisError(axis, o.ndim)
    m = np.moveaxis(o, axis, -1)
    shp = m.shape[:-1]
    out = np.empty(shp, dtype=object)
    for pos in np.ndindex(*shp):
        out[pos] = f(list(m[pos]))
    if keepdims:
        out = np.expand_dims(out, axis)
    return unbox(out.view(SArr)) if out.ndim == 0 else out.view(SArr)


def l_sum(xs):
    if not xs:
        return 0.0
    if all(isinstance(x, BOOLS) for x in xs):
        xs = [x.toint() if is_sym(x) else int(x) for x in xs]
    # balanced sums keep terms shallow and canonical
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


def nan0(x, v=0.0):
    return ite(s_isnan(x), v, x)


def l_mean(xs):
    if not xs:
        return math.nan
    return e_div(l_sum(xs), len(xs))


def l_count(bs):
    return l_sum([b.toint() if is_sym(b) else int(b) for b in bs])


def l_nanmean(xs):
    n = l_count([lnot(s_isnan(x)) for x in xs]) if xs else 0
    s = l_sum([nan0(x) for x in xs])
    if not is_sym(n):
        return e_div(s, n) if n else math.nan
    # case split on the count keeps the division linear
    r = math.nan
    for k in range(1, len(xs) + 1):
        r = ite(n == k, e_div(s, k), r)
    return r


def l_var(xs, ddof=0):
    m = l_mean(xs)
    return e_div(l_sum([(x - m) * (x - m) for x in xs]), len(xs) - ddof)


def l_nanvar(xs):
    m = l_nanmean(xs)
    return l_nanmean([ite(s_isnan(x), math.nan, (x - m) * (x - m))
                      for x in xs])


def l_max(xs):
    if not xs:
        raise ValueError('zero-size array to reduction operation maximum')
    r = xs[0]
    for x in xs[1:]:
        r = e_max(r, x)
    return r


def l_min(xs):
    if not xs:
        raise ValueError('zero-size array to reduction operation minimum')
    r = xs[0]
    for x in xs[1:]:
        r = e_min(r, x)
    return r


def l_fold(f):
    def g(xs):
        if not xs:
            raise ValueError('zero-size array to reduction operation')
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r
    return g


def l_arg(better):
    """argmax/argmin: first extreme value, nan beats everything"""
    def g(xs):
        if not xs:
            raise ValueError('attempt to get argmax of an empty sequence')
        bi, bv = 0, xs[0]
        for i, x in enumerate(xs[1:], 1):
            c = land(lnot(s_isnan(bv)), lor(s_isnan(x), better(x, bv)))
            bi = ite(c, i, bi)
            bv = ite(c, x, bv)
        return bi
    return g


def l_nanarg(better):
    def g(xs):
        allnan = land(*[s_isnan(x) for x in xs])
        if bool(allnan):
            raise ValueError('All-NaN slice encountered')
        bi, bv = 0, xs[0]
        for i, x in enumerate(xs[1:], 1):
            c = land(lnot(s_isnan(x)), lor(s_isnan(bv), better(x, bv)))
            bi = ite(c, i, bi)
            bv = ite(c, x, bv)
        return bi
    return g


def gt(a, b):
    return a > b


def lt(a, b):
    return a < b


def l_sort(xs):
    """sorting network by merging (nan last)"""
    xs = list(xs)
    n = len(xs)
    if not any(is_sym(x) for x in xs):
        return sorted(xs, key=lambda x: (x != x, x))
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            c = lor(b < a, land(s_isnan(a), lnot(s_isnan(b))))
            xs[j], xs[j + 1] = ite(c, b, a), ite(c, a, b)
    return xs


def l_argsort(xs):
    idx = list(range(len(xs)))
    # stable insertion sort, forking on comparisons
    for i in range(1, len(idx)):
        j = i
        while j > 0 and bool(lor(
                xs[idx[j]] < xs[idx[j - 1]],
                land(s_isnan(xs[idx[j - 1]]), lnot(s_isnan(xs[idx[j]]))))):
            idx[j], idx[j - 1] = idx[j - 1], idx[j]
            j -= 1
    return idx


def along_vec(f, a, axis):
    o = to_obj(a)
    if axis is None:
        return sarr(f(list(o.reshape(-1))))
    m = np.moveaxis(o, axis, -1)
    out = None
    for pos in np.ndindex(*m.shape[:-1]):
        v = f(list(m[pos]))
        if out is None:
            out = np.empty(m.shape[:-1] + (len(v),), dtype=object)
        out[pos] = to_obj(v)
    if out is None:
        return o.view(SArr)
    return np.moveaxis(out, -1, axis).view(SArr)


def _ckw(k, *ok):
    for n, v in k.items():
        if n in ok or v is None or v is np._NoValue or v is False:
            continue
        if n in ('out', 'where', 'initial', 'weights', 'ddof'):
            raise Unsupported(f'argument {n}')


def red(name, lf, where_ok=False):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, **k):
        w = k.pop('where', True)
        if w is True or w is np._NoValue:
            w = None
        if k.get('initial') is np._NoValue:
            k.pop('initial')
        _ckw(k)
        if w is not None:
            raise Unsupported('where')
        if keepdims is np._NoValue:
            keepdims = False
        r = along(lf, a, axis, keepdims)
        return store(out, r) if out is not None else r
    IMPL[name] = f


red('sum', l_sum)
red('nansum', lambda xs: l_sum([nan0(x) for x in xs]))
red('mean', l_mean)
red('nanmean', l_nanmean)
red('max', l_max)
red('amax', l_max)
red('min', l_min)
red('amin', l_min)
red('nanmax', l_fold(e_fmax))
red('nanmin', l_fold(e_fmin))
red('argmax', l_arg(gt))
red('argmin', l_arg(lt))
red('nanargmax', l_nanarg(gt))
red('nanargmin', l_nanarg(lt))
red('prod', l_fold(e_mul))
red('any', lambda xs: lor(*xs) if xs else False)
red('all', lambda xs: land(*xs) if xs else True)
red('ptp', lambda xs: l_max(xs) - l_min(xs))
red('nanvar', l_nanvar)
red('nanstd', lambda xs: e_sqrt(l_nanvar(xs)))


@impl('count_nonzero')
def _count_nonzero(a, axis=None, keepdims=False):
    return along(lambda xs: l_count([truth(x) for x in xs]), a, axis,
                 keepdims)


@impl('var')
def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return along(lambda xs: l_var(xs, ddof), a, axis, keepdims is True)


@impl('std')
def _std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return along(lambda xs: e_sqrt(l_var(xs, ddof)), a, axis,
                 keepdims is True)


@impl('average')
def _average(a, axis=None, weights=None, returned=False, **k):
    if returned:
        raise Unsupported('average returned')
    if weights is None:
        return IMPL['mean'](a, axis=axis)
    o, w = to_obj(a), to_obj(weights)
    if o.shape != w.shape:
        if axis is None or w.ndim != 1:
            raise TypeError('Axis must be specified')
        shp = [1] * o.ndim
        shp[axis] = w.shape[0]
        w = np.broadcast_to(w.reshape(shp), o.shape)
    num = IMPL['sum'](emap(e_mul, o, w), axis=axis)
    den = IMPL['sum'](sarr(np.array(w)), axis=axis)
    return unbox(emap(e_div, num, den))


def l_quant(q, nan=False):
    def at(xs, n):
        s = xs[:n]
        pos = q * (n - 1)
        lo = int(math.floor(pos))
        hi = min(lo + 1, n - 1)
        fr = pos - lo
        return s[lo] + (s[hi] - s[lo]) * fr if fr else s[lo]

    def g(xs):
        if not xs:
            return math.nan
        s = l_sort(xs)
        if not nan:
            bad = lor(*[s_isnan(x) for x in xs])
            return ite(bad, math.nan, at(s, len(s)))
        n = l_count([lnot(s_isnan(x)) for x in xs])
        r = math.nan
        for k in range(1, len(xs) + 1):
            r = ite(n == k, at(s, k), r)
        return r
    return g


@impl('median')
def _median(a, axis=None, **k):
    return along(l_quant(.5), a, axis, k.get('keepdims', False))


@impl('nanmedian')
def _nanmedian(a, axis=None, **k):
    return along(l_quant(.5, True), a, axis)


def _perc(nan, scale):
    def f(a, q, axis=None, **k):
        if is_sym(q):
            raise Unsupported('symbolic percentile')
        if np.ndim(q):
            return sarr([along(l_quant(x / scale, nan), a, axis)
                         for x in q])
        return along(l_quant(q / scale, nan), a, axis)
    return f


IMPL['percentile'] = _perc(False, 100)
IMPL['nanpercentile'] = _perc(True, 100)
IMPL['quantile'] = _perc(False, 1)
IMPL['nanquantile'] = _perc(True, 1)


@impl('sort')
def _sort(a, axis=-1, **k):
    return along_vec(l_sort, a, axis)


@impl('argsort')
def _argsort(a, axis=-1, **k):
    r = along_vec(l_argsort, a, axis)
    return np.array(r.tolist(), dtype=int).reshape(r.shape)


@impl('cumsum')
def _cumsum(a, axis=None, **k):
    def f(xs):
        o, r = [], None
        for x in xs:
            r = x if r is None else r + x
            o.append(r)
        return o
    return along_vec(f, a, axis)


@impl('cumprod')
def _cumprod(a, axis=None, **k):
    def f(xs):
        o, r = [], None
        for x in xs:
            r = x if r is None else r * x
            o.append(r)
        return o
    return along_vec(f, a, axis)


@impl('diff')
def _diff(a, n=1, axis=-1, **k):
    if n != 1 or k:
        raise Unsupported('diff')
    return along_vec(
        lambda xs: [e_sub(y, x) for x, y in zip(xs[:-1], xs[1:])], a, axis)


@impl('where')
def _where(c, *ab):
    if not ab:
        return IMPL['nonzero'](c)
    return emap(ite, emap(truth, c), *ab)


@impl('nonzero')
def _nonzero(a):
    o = to_obj(a)
    b = np.array([bool(truth(x)) for x in o.reshape(-1)],
                 dtype=bool).reshape(o.shape)
    return np.nonzero(b)


@impl('argwhere')
def _argwhere(a):
    return np.transpose(IMPL['nonzero'](a))


@impl('flatnonzero')
def _flatnonzero(a):
    return IMPL['nonzero'](to_obj(a).reshape(-1))[0]


@impl('clip')
def _clip(a, a_min=None, a_max=None, out=None, **k):
    r = sarr(a)
    a_min = k.get('min', a_min)
    a_max = k.get('max', a_max)
    if a_min is not None:
        r = emap(e_max, r, a_min)
    if a_max is not None:
        r = emap(e_min, r, a_max)
    return store(out, r)


@impl('nan_to_num')
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    r = emap(lambda v: ite(s_isnan(v), nan, v), x)
    if not copy:
        if not isinstance(x, SArr):
            raise Unsupported('nan_to_num in place on native data')
        x[...] = r
        return x
    return unbox(r)


@impl('isclose')
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if not is_sym(x) and not is_sym(y):
            return bool(np.isclose(x, y, rtol, atol, equal_nan))
        c = abs(x - y) <= atol + rtol * abs(y)
        if equal_nan:
            c = lor(c, land(s_isnan(x), s_isnan(y)))
        return c
    return unbox(emap(f, a, b))


@impl('allclose')
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return IMPL['all'](sarr(IMPL['isclose'](a, b, rtol, atol, equal_nan)))


@impl('array_equal')
def _array_equal(a, b, equal_nan=False):
    a, b = to_obj(a), to_obj(b)
    if a.shape != b.shape:
        return False
    f = s_eq if equal_nan else e_eq
    return land(*[f(x, y) for x, y in zip(a.reshape(-1), b.reshape(-1))])


@impl('array_equiv')
def _array_equiv(a, b):
    return land(*emap(e_eq, a, b).flat_list())


@impl('isreal')
def _isreal(a):
    return emap(lambda x: not isinstance(x, (SymComplex, complex)), a)


@impl('iscomplexobj')
def _iscomplexobj(a):
    return any(isinstance(x, (SymComplex, complex))
               for x in to_obj(a).reshape(-1))


@impl('isrealobj')
def _isrealobj(a):
    return not IMPL['iscomplexobj'](a)


def _dot2(a, b):
    """matrix product of 1/2-d object arrays"""
    a, b = to_obj(a), to_obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return emap(e_mul, a, b)
    if a.shape[-1] != b.shape[0 if b.ndim == 1 else -2]:
        raise ValueError('shapes not aligned')
    if a.ndim == 1 and b.ndim == 1:
        return l_sum([e_mul(x, y) for x, y in zip(a, b)])
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported('dot of more than two dimensions')
    A = a.reshape(1, -1) if a.ndim == 1 else a
    B = b.reshape(-1, 1) if b.ndim == 1 else b
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            out[i, j] = l_sum([
                e_mul(x, y) for x, y in zip(A[i], B[:, j])])
    if a.ndim == 1:
        out = out[0]
    elif b.ndim == 1:
        out = out[:, 0]
    return wrap(out)


def _e_mul_sparse(x, y):
    return x * y


IMPL['dot'] = lambda a, b, out=None: _dot2(a, b)
IMPL['matmul'] = lambda a, b, out=None: _dot2(a, b)
IMPL['inner'] = lambda a, b: _dot2(a, np.transpose(to_obj(b)))
IMPL['vdot'] = lambda a, b: _dot2(to_obj(a).reshape(-1),
                                  to_obj(b).reshape(-1))


@impl('outer')
def _outer(a, b, out=None):
    a, b = to_obj(a).reshape(-1, 1), to_obj(b).reshape(1, -1)
    return emap(e_mul, a, b)


@impl('trace')
def _trace(a, **k):
    o = to_obj(a)
    return l_sum([o[i, i] for i in range(min(o.shape))])


@impl('convolve')
def _convolve(a, v, mode='full'):
    a, v = list(to_obj(a)), list(to_obj(v))
    if len(v) > len(a):
        a, v = v, a
    if not a or not v:
        raise ValueError('v cannot be empty')
    n, m = len(a), len(v)
    full = [l_sum([e_mul(a[j], v[i - j]) for j in range(n)
                   if 0 <= i - j < m]) for i in range(n + m - 1)]
    if mode == 'full':
        return sarr(full)
    if mode == 'same':
        s = (m - 1) // 2
        return sarr(full[s:s + n])
    return sarr(full[m - 1:n])


@impl('correlate')
def _correlate(a, v, mode='valid'):
    v = [x.conjugate() if isinstance(x, SymComplex) else x
         for x in to_obj(v)]
    # numpy: full correlation, c[k] = sum a[n+k] v[n]
    a = list(to_obj(a))
    n, m = len(a), len(v)
    full = [l_sum([e_mul(a[i + k], v[i]) for i in range(m)
                   if 0 <= i + k < n]) for k in range(-(m - 1), n)]
    if mode == 'full':
        return sarr(full)
    L, S = max(n, m), min(n, m)
    if mode == 'same':
        s = (len(full) - L) // 2
        if n < m and (len(full) - L) % 2:
            s += 0
        return sarr(full[s:s + L])
    return sarr(full[S - 1:len(full) - S + 1])


@impl('interp')
def _interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('periodic interp')
    xs, fs = list(to_obj(xp)), list(to_obj(fp))

    def f(v):
        r = fs[-1] if right is None else right
        for k in range(len(xs) - 2, -1, -1):
            x0, x1 = xs[k], xs[k + 1]
            val = fs[k] + (v - x0) * e_div(fs[k + 1] - fs[k], x1 - x0)
            r = ite(v < x1, val, r) if k < len(xs) - 2 else ite(
                v < x1, val, ite(e_eq(v, x1), fs[k + 1], r))
        r = ite(v < xs[0], fs[0] if left is None else left, r)
        return ite(s_isnan(v), v, r)
    return unbox(emap(f, x))


@impl('searchsorted')
def _searchsorted(a, v, side='left', sorter=None):
    xs = list(to_obj(a))

    def f(q):
        return l_count([(x < q) if side == 'left' else (x <= q)
                        for x in xs]) if xs else 0
    return unbox(emap(f, v))


@impl('digitize')
def _digitize(x, bins, right=False):
    return IMPL['searchsorted'](bins, x, 'left' if right else 'right')


@impl('around', 'round', 'round_')
def _round(a, decimals=0, out=None):
    if decimals:
        f = 10. ** decimals
        return unbox(emap(lambda x: e_div(e_rint(x * f), f) if is_sym(x)
                          else round(x, decimals), a))
    return unbox(emap(e_rint, a))


@impl('take')
def _take(a, idx, axis=None, **k):
    if axis is None:
        return sarr(to_obj(a).reshape(-1))[idx]
    return wrap(np.take(to_obj(a), conc_idx(idx), axis))


@impl('unique')
def _unique(a, return_index=False, return_inverse=False,
            return_counts=False, axis=None, **k):
    if k.get('equal_nan') is False:
        raise Unsupported('unique with nan')
    a = to_obj(a)
    from .strs import SymStr
    text = any(isinstance(x, (str, SymStr)) for x in a.reshape(-1))
    if axis is None or a.ndim == 1:
        if not text and not (return_index or return_inverse
                             or return_counts):
            out = []
            for x in l_sort(list(a.reshape(-1))):
                if not out or not bool(s_eq(out[-1], x)):
                    out.append(x)
            return sarr(out)
        rows = [(x,) for x in a.reshape(-1)]
    elif axis == 0:
        rows = [tuple(r.reshape(-1)) for r in a]
    else:
        raise Unsupported('unique along axis %s' % axis)

    def cmp(x, y):
        for u, v in zip(x, y):
            if bool(u == v) or (not text and bool(land(
                    s_isnan(u), s_isnan(v)))):
                continue
            if text:
                return -1 if bool(u < v) else 1
            return -1 if bool(lor(u < v, land(
                s_isnan(v), lnot(s_isnan(u))))) else 1
        return 0
    groups = []           # sorted lists of equal positions
    for i, r in enumerate(rows):
        for g, ps in enumerate(groups):
            c = cmp(r, rows[ps[0]])
            if c == 0:
                ps.append(i)
                break
            if c < 0:
                groups.insert(g, [i])
                break
        else:
            groups.append([i])
    first = [g[0] for g in groups]
    if axis is None or a.ndim == 1:
        res = [sarr([rows[i][0] for i in first])]
    else:
        res = [wrap(a[first])]
    inv = np.zeros(len(rows), int)
    for g, ps in enumerate(groups):
        inv[ps] = g
    for on, v in ((return_index, np.array(first, int)),
                  (return_inverse, inv),
                  (return_counts, np.array([len(g) for g in groups], int))):
        if on:
            res.append(v)
    return res[0] if len(res) == 1 else tuple(res)


@impl('gradient')
def _gradient(f, *va, axis=None, **k):
    raise Unsupported('gradient')


@impl('linalg_norm', 'norm')
def _norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported('norm order')
    return along(lambda xs: e_sqrt(l_sum([
        (v * v if not isinstance(v, SymComplex)
         else v.re * v.re + v.im * v.im) for v in xs])), x, axis, keepdims)


@impl('ones_like')
def _ones_like(a, dtype=None, **k):
    return emap(lambda x: 1. if dtype is None else np.dtype(dtype).type(
        1).item(), np.zeros(np.shape(to_obj(a))))


@impl('zeros_like')
def _zeros_like(a, dtype=None, **k):
    v = False if (dtype is not None and np.dtype(dtype) == bool) else 0.
    if dtype is not None and np.issubdtype(np.dtype(dtype), np.integer):
        v = 0
    return emap(lambda x: v, np.zeros(np.shape(to_obj(a))))


@impl('empty_like')
def _empty_like(a, dtype=None, **k):
    return IMPL['zeros_like'](a, dtype)


@impl('full_like')
def _full_like(a, fill_value, dtype=None, **k):
    return emap(lambda x: fill_value, np.zeros(np.shape(to_obj(a))))


@impl('copy')
def _copy(a, *x, **k):
    return sarr(a).copy()


@impl('may_share_memory', 'shares_memory')
def _share(a, b, *x):
    return np.may_share_memory(to_obj(a), to_obj(b))


@impl('pad')
def _pad(a, pad_width, mode='constant', **k):
    o = to_obj(a)
    if mode == 'constant':
        cv = k.get('constant_values', 0.)
        idx = np.pad(np.arange(o.size).reshape(o.shape), pad_width,
                     constant_values=-1)
        f = o.reshape(-1)
        return emap(lambda i: f[i] if i >= 0 else cv, idx)
    idx = np.pad(np.arange(o.size).reshape(o.shape), pad_width, mode, **k)
    f = o.reshape(-1)
    return emap(lambda i: f[i], idx)


@impl('array2string', 'array_repr', 'array_str')
def _a2s(a, *x, **k):
    return 'SArr'


@impl('result_type')
def _rt(*a):
    return np.dtype('float64')


@impl('can_cast')
def _cc(*a, **k):
    return True


@impl('tensordot')
def _tensordot(a, b, axes=2):
    a, b = to_obj(a), to_obj(b)
    if axes == 1 and a.ndim <= 2 and b.ndim <= 2:
        return _dot2(a, b)
    raise Unsupported('tensordot')


@impl('einsum')
def _einsum(*a, **k):
    raise Unsupported('einsum')


@impl('asarray', 'array', 'asanyarray', 'ascontiguousarray')
def _array(a, dtype=None, copy=True, **k):
    if isinstance(a, SMA):
        return a
    r = sarr(a)
    if copy:
        r = r.copy()
    if dtype is not None and np.dtype(dtype) != object:
        r = r.astype(dtype)
    nd = k.get('ndmin', 0)
    if nd > r.ndim:
        r = wrap(r.base_view().reshape((1,) * (nd - r.ndim) + r.shape))
    return r


@impl('linspace')
def _linspace(start, stop, num=50, endpoint=True, retstep=False, **k):
    num = operator.index(num)
    div = num - 1 if endpoint else num
    step = e_div(stop - start, div) if div > 0 else math.nan
    r = sarr([start + step * i for i in range(num)])
    if endpoint and num > 1:
        r[num - 1] = stop
    return (r, step) if retstep else r


@impl('arange')
def _arange(*a, **k):
    start, step = 0, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a[:3]
    step = k.get('step', step)
    n = core.to_int_ceil(e_div(stop - start, step))
    n = max(0, operator.index(n))
    if isinstance(start, SymInt) and isinstance(stop, SymInt):
        # a range of positions
        start = operator.index(start)
    return sarr([start + step * i for i in range(n)])


def to_int_ceil(x):
    if not is_sym(x):
        return int(math.ceil(x))
    return core.to_int(e_ceil(x))


core.to_int_ceil = to_int_ceil

# DFTs; exact for lengths whose roots of unity are rational (1, 2, 4),
# otherwise the twiddle factors are the rationals of the double values
def snap(x):
    """floats that stand for 0, +-1/2, +-1 up to rounding"""
    for r in (0., 1., -1., .5, -.5):
        if abs(x - r) < 1e-14:
            return r
    return x


def _root(n, r):
    return (snap(math.cos(2 * math.pi * r / n)),
            snap(-math.sin(2 * math.pi * r / n)))


def dft(xs, sign=1):
    n = len(xs)
    if n > 40:
        raise Unsupported(f'DFT of length {n}')
    roots = [_root(n, r) for r in range(n)]
    out = []
    for k in range(n):
        re, im = 0., 0.
        for j, x in enumerate(xs):
            a, b = roots[(k * j) % n]
            b = b * sign
            xr = x.real if isinstance(x, (SymComplex, complex)) else x
            xi = x.imag if isinstance(x, (SymComplex, complex)) else 0.
            if a:
                re, im = re + xr * a, im + xi * a
            if b:
                re, im = re - xi * b, im + xr * b
        out.append(SymComplex(re, im))
    return out


def _fitlen(xs, n):
    if n is None:
        return xs
    n = operator.index(n)
    return (xs + [0.] * max(0, n - len(xs)))[:n]


def rfft(a, n=None, axis=-1, **k):
    def f(xs):
        xs = _fitlen(xs, n)
        return dft(xs)[:len(xs) // 2 + 1]
    return along_vec(f, a, axis)


def fft(a, n=None, axis=-1, **k):
    return along_vec(lambda xs: dft(_fitlen(xs, n)), a, axis)


def ifft(a, n=None, axis=-1, **k):
    def f(xs):
        r = dft(_fitlen(xs, n), -1)
        return [SymComplex(e_div(x.re, len(r)), e_div(x.im, len(r)))
                for x in r]
    return along_vec(f, a, axis)


def irfft(a, n=None, axis=-1, **k):
    def f(xs):
        m = n if n is not None else 2 * (len(xs) - 1)
        h = _fitlen(xs, m // 2 + 1)
        h = [SymComplex.lift(x) for x in h]
        # numpy ignores the imaginary part of bin 0 and the Nyquist bin
        h[0] = SymComplex(h[0].re, 0.)
        if m % 2 == 0:
            h[-1] = SymComplex(h[-1].re, 0.)
        full = h + [x.conjugate() for x in reversed(
            h[1:(m + 1) // 2])]
        r = dft(full, -1)
        return [e_div(x.re, m) for x in r]
    return along_vec(f, a, axis)


def rfftfreq(n, d=1.0):
    return sarr([e_div(k, n * d) for k in range(n // 2 + 1)])


STRUCT = {
    'reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'moveaxis',
    'rollaxis', 'expand_dims', 'concatenate', 'stack', 'vstack', 'hstack',
    'dstack', 'column_stack', 'row_stack', 'append', 'delete', 'insert',
    'roll', 'flip', 'flipud', 'fliplr', 'tile', 'repeat', 'broadcast_to',
    'broadcast_arrays', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'split',
    'array_split', 'hsplit', 'vsplit', 'meshgrid', 'shape', 'ndim', 'size',
    'diag', 'diagonal', 'triu', 'tril', 'rot90', 'block', 'resize',
    'take_along_axis', 'trim_zeros', 'ix_', 'full', 'copyto', 'put',
    'apply_along_axis', 'kron',
}


def strip(x, depth=0):
    """SArr -> object ndarray, recursively through lists"""
    if isinstance(x, SArr):
        return x.base_view()
    if is_sym(x):
        return to_obj(x)
    if isinstance(x, (list, tuple)) and depth < 4 and contains_sym(x):
        return type(x)(strip(e, depth + 1) for e in x) if type(x) in (
            list, tuple) else x
    return x


def function_entry(func, args, kwargs):
    return call_np(func.__name__, func, args, kwargs)


def call_np(name, func, args, kwargs):
    for a in list(args) + list(kwargs.values()):
        if isinstance(a, SMA):
            return sma_func(name, args, kwargs)
    kwargs = {k: v for k, v in kwargs.items() if v is not np._NoValue}
    if name in IMPL:
        return IMPL[name](*args, **kwargs)
    if name in ELEM and isinstance(func, np.ufunc):
        return ufunc_entry(func, '__call__', args, dict(kwargs))
    if name in ELEM:
        return unbox(emap(ELEM[name], *args))
    if name in STRUCT:
        if name in ('copyto',):
            args[0][...] = args[1]
            return None
        kwargs = {k: strip(v) for k, v in kwargs.items()}
        if name in ('delete', 'insert', 'repeat', 'roll', 'tile', 'split',
                    'array_split'):
            args = (strip(args[0]),) + tuple(
                conc_idx(a) if isinstance(a, (SArr, SymInt, list)) and i == 0
                else strip(a) for i, a in enumerate(args[1:]))
        elif name in ('shape', 'ndim', 'size'):
            args = tuple(to_obj(a) if contains_sym(a) else a for a in args)
        else:
            args = tuple(strip(a) for a in args)
        r = func(*args, **kwargs)
        return wrap(r)
    raise Unsupported('numpy function ' + name)


# ---------------------------------------------------------------- masked
class SMA:
    """a small masked array: data plus a (symbolic) boolean mask"""

    def __init__(self, data, mask=False, fill_value=None):
        if isinstance(data, SMA):
            mask = emap(lor, data.mask, mask)
            data_hard = data.hard
            data = data.data
            self.hard = data_hard
        else:
            self.hard = False
        self.data = sarr(data)
        m = sarr(mask)
        if m.shape != self.data.shape:
            m = sarr(np.broadcast_to(
                m.base_view(), self.data.shape).copy())
        self.mask = m
        self._fv = fill_value

    fill_value = property(lambda s: s._fv)
    shape = property(lambda s: s.data.shape)
    ndim = property(lambda s: s.data.ndim)
    size = property(lambda s: s.data.size)
    dtype = property(lambda s: s.data.dtype)
    T = property(lambda s: SMA(s.data.T, s.mask.T))

    def __len__(self):
        return len(self.data)

    def __getitem__(self, i):
        if isinstance(i, SMA):
            # numpy selects by the data of a masked index
            i = i.data
        if has_symmask(i):
            i = conc_idx(i)
        d, m = self.data[i], self.mask[i]
        if isinstance(d, np.ndarray):
            return SMA(d, m)
        if bool(m):
            return np.ma.masked
        return d

    def __setitem__(self, i, v):
        if v is np.ma.masked:
            self.mask[i] = True
            return
        d = self.data.copy()
        d[i] = v.data if isinstance(v, SMA) else v
        m = self.mask.copy()
        m[i] = v.mask if isinstance(v, SMA) else False
        if self.hard:
            # masked samples remain as they are
            d = emap(lambda q, a, b: ite(q, a, b), self.mask, self.data, d)
            m = emap(lor, self.mask, m)
        self.data[...] = d
        self.mask[...] = m

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def filled(self, v=None):
        if v is None:
            v = self._fv if self._fv is not None else 1e20
        return emap(lambda m, d: ite(m, v, d), self.mask, self.data)

    def mean(self, axis=None):
        def f(pairs):
            n = l_count([lnot(m) for m, d in pairs])
            s = l_sum([ite(m, 0., d) for m, d in pairs])
            r = 0.
            for k in range(1, len(pairs) + 1):
                r = ite(n == k, e_div(s, k), r)
            return r, n == 0
        return self._red(f, axis)

    def _red(self, f, axis):
        d, m = self.data.base_view(), self.mask.base_view()
        if axis is None:
            r, mm = f(list(zip(m.reshape(-1), d.reshape(-1))))
            return np.ma.masked if bool(mm) else r
        d, m = np.moveaxis(d, axis, -1), np.moveaxis(m, axis, -1)
        od = np.empty(d.shape[:-1], dtype=object)
        om = np.empty(d.shape[:-1], dtype=object)
        for p in np.ndindex(*od.shape):
            od[p], om[p] = f(list(zip(m[p], d[p])))
        return SMA(wrap(od), wrap(om))

    def sum(self, axis=None):
        return self._red(lambda ps: (
            l_sum([ite(m, 0., d) for m, d in ps]),
            land(*[m for m, d in ps])), axis)

    def std(self, axis=None):
        def f(ps):
            n = l_count([lnot(m) for m, d in ps])
            v = l_nanvar([ite(m, math.nan, d) for m, d in ps])
            return e_sqrt(nan0(v)), n == 0
        return self._red(f, axis)

    def max(self, axis=None):
        return self._red(lambda ps: (
            nan0(l_fold(e_fmax)([ite(m, math.nan, d) for m, d in ps])),
            land(*[m for m, d in ps])), axis)

    def min(self, axis=None):
        return self._red(lambda ps: (
            nan0(l_fold(e_fmin)([ite(m, math.nan, d) for m, d in ps])),
            land(*[m for m, d in ps])), axis)

    def copy(self):
        return self.like(self.data.copy())

    def like(self, data):
        r = SMA(data, self.mask.copy(), self._fv)
        r.hard = self.hard
        return r

    def astype(self, t, *a, **k):
        return self.like(self.data.astype(t, *a, **k))

    def _b(self, o, name, rev=False):
        return sma_ufunc(name, (o, self) if rev else (self, o))

    def __add__(self, o):
        return self._b(o, 'add')

    def __radd__(self, o):
        return self._b(o, 'add', True)

    def __sub__(self, o):
        return self._b(o, 'subtract')

    def __rsub__(self, o):
        return self._b(o, 'subtract', True)

    def __mul__(self, o):
        return self._b(o, 'multiply')

    def __rmul__(self, o):
        return self._b(o, 'multiply', True)

    def __truediv__(self, o):
        return self._b(o, 'divide')

    def __rtruediv__(self, o):
        return self._b(o, 'divide', True)

    def __pow__(self, o):
        return self._b(o, 'power')

    def __gt__(self, o):
        return self._b(o, 'greater')

    def __ge__(self, o):
        return self._b(o, 'greater_equal')

    def __lt__(self, o):
        return self._b(o, 'less')

    def __le__(self, o):
        return self._b(o, 'less_equal')

    def __and__(self, o):
        return self._b(o, 'bitwise_and')

    def __or__(self, o):
        return self._b(o, 'bitwise_or')

    def __invert__(self):
        return SMA(~self.data, self.mask)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != '__call__':
            raise Unsupported('masked ' + method)
        return sma_ufunc(ufunc.__name__, inputs)

    def __array_function__(self, func, types, args, kwargs):
        return sma_func(func.__name__, args, kwargs)


def sma_ufunc(name, inputs):
    ds = [i.data if isinstance(i, SMA) else i for i in inputs]
    d = emap(ELEM[name], *ds)
    m = emap(lor, *[i.mask if isinstance(i, SMA) else
                    np.zeros(np.shape(to_obj(i)), bool) for i in inputs]) \
        if len(inputs) > 1 else inputs[0].mask
    m = sarr(np.broadcast_to(to_obj(m), d.shape).copy())
    if name == 'divide':
        # division by zero is masked
        m = emap(lambda mm, v, q: lor(mm, s_isnan(v), s_eq(q, 0)), m, d,
                 ds[1])
    return SMA(d, m)


def sma_func(name, args, kwargs):
    a = args[0]
    if name in ('mean', 'sum', 'max', 'amax', 'min', 'amin', 'std') and \
            isinstance(a, SMA):
        name = {'amax': 'max', 'amin': 'min'}.get(name, name)
        return getattr(a, name)(*args[1:], **kwargs)
    if name == 'argmax' and isinstance(a, SMA):
        return IMPL['argmax'](emap(lambda m, d: ite(m, -1e300, d), a.mask,
                                   a.data), *args[1:], **kwargs)
    if name == 'median' and isinstance(a, SMA):
        # np.median partitions the data and leaves the mask where it is
        axis = kwargs.get('axis', args[1] if len(args) > 1 else None)
        if axis is None:
            raise Unsupported('masked median')
        d = along_vec(l_sort, a.data, axis)
        n = d.shape[axis]
        idx = [(n - 1) // 2, n // 2] if n % 2 == 0 else [n // 2]
        s = SMA(d, a.mask)
        return SMA(wrap(np.take(to_obj(s.data), idx, axis)),
                   wrap(np.take(to_obj(s.mask), idx, axis))).mean(axis)
    if name == 'array_equal':
        a, b = [x if isinstance(x, SMA) else SMA(x) for x in args[:2]]
        if a.shape != b.shape:
            return False
        pairs = [(lor(p, q), x, y) for p, q, x, y in zip(
            a.mask.flat_list(), b.mask.flat_list(), a.data.flat_list(),
            b.data.flat_list())]
        # no common value: the masked constant, which is false
        return land(lor(*[lnot(m) for m, x, y in pairs]),
                    *[lor(m, s_eq(x, y)) for m, x, y in pairs])
    if name in ('interp', 'where'):
        # plain functions use the data alone
        return getattr(np, name)(*[
            x.data if isinstance(x, SMA) else x for x in args], **kwargs)
    if name in ELEM:
        return sma_ufunc(name, args)
    raise Unsupported('masked function ' + name)
