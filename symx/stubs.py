"""Models of library functions whose contract (not code) is assumed."""
import math
import types

import numpy as np

from . import core, arr
from .core import (SymReal, SymInt, SymBool, Unsupported, is_sym, ite, land,
                   lor, lnot, s_eq, s_isnan)
from .arr import SArr, sarr, to_obj, wrap, emap, unbox, contains_sym, e_div


class Interp1d:
    """scipy.interpolate.interp1d, kind='linear' (exact)"""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True,
                 bounds_error=None, fill_value=math.nan,
                 assume_sorted=False):
        if kind != 'linear':
            raise Unsupported('interp1d kind ' + str(kind))
        self.x, self.y = to_obj(x), to_obj(y)
        self.axis = axis
        if self.x.shape[0] != self.y.shape[axis]:
            raise ValueError('x and y arrays must be equal in length along '
                             'interpolation axis.')
        self.be = bounds_error
        self.extra = isinstance(fill_value, str)
        self.fv = fill_value
        if self.be is None and not self.extra and isinstance(
                fill_value, float) and math.isnan(fill_value):
            self.be = True

    def __call__(self, q):
        xs = list(self.x)
        y = np.moveaxis(self.y, self.axis, -1)

        def one(v, ys):
            lo, hi = v < xs[0], v > xs[-1]
            n = len(xs)
            r = None
            for k in range(n - 2, -1, -1):
                val = ys[k] + (v - xs[k]) * e_div(
                    ys[k + 1] - ys[k], xs[k + 1] - xs[k])
                r = val if r is None else ite(v <= xs[k + 1], val, r)
            if self.extra:
                return r
            if isinstance(self.fv, tuple):
                return ite(lo, self.fv[0], ite(hi, self.fv[1], r))
            return ite(lor(lo, hi), self.fv, r)
        qo = to_obj(q)
        if self.be:
            for v in qo.reshape(-1):
                if bool(lor(v < xs[0], v > xs[-1])):
                    raise ValueError(
                        'A value in x_new is out of the interpolation range')
        out = np.empty(y.shape[:-1] + qo.shape, dtype=object)
        for p in np.ndindex(*y.shape[:-1]):
            for i, v in np.ndenumerate(qo):
                out[p + i] = one(v, list(y[p]))
        if qo.ndim == 1:
            out = np.moveaxis(out, -1, self.axis)
        return unbox(wrap(out)) if out.ndim == 0 else wrap(out)


def op_apply(M, xs):
    """rows of the (concrete) matrix M times the vector xs"""
    gaps = [bool(s_isnan(x)) for x in xs]
    if len(gaps) and all(gaps):
        return [float('nan') for _ in M]
    if any(gaps):
        raise Unsupported('missing samples in a linear filter')
    out = []
    scale = max([abs(v) for v in M.reshape(-1)], default=0.) or 1.
    for row in M:
        t = []
        for m, x in zip(row, xs):
            if abs(m) < 1e-14 * scale:
                continue
            if isinstance(m, complex) and m.imag == 0:
                m = m.real
            if isinstance(m, complex):
                t.append(core.SymComplex(x * m.real, x * m.imag)
                         if is_sym(x) else x * m)
            else:
                t.append(x * float(m))
        out.append(arr.l_sum(t) if t else 0.)
    return out


_OPS = {}


def linear_op(f, n, key):
    """matrix of a linear function of n samples, from its impulse
    responses"""
    if key not in _OPS:
        cols = [np.asarray(f(e)) for e in np.eye(n)]
        _OPS[key] = np.stack(cols, axis=-1) if cols else np.zeros((0, 0))
    return _OPS[key]


def linear(name, f, axis_default=-1, pos=0, axis_pos=None):
    """models a library function that is linear in its argument number `pos`
    along `axis` and has concrete parameters otherwise"""
    def g(*a, **k):
        data = a[pos]
        rest = a[:pos] + a[pos + 1:]
        if any(contains_sym(x) for x in rest) or any(
                contains_sym(x) for x in k.values()):
            if not all(_conc(x) for x in list(rest) + list(k.values())):
                raise Unsupported('symbolic parameters of ' + name)
            a = tuple(_unsym(x) if i != pos else x for i, x in enumerate(a))
            k = {n: _unsym(v) for n, v in k.items()}
            rest = a[:pos] + a[pos + 1:]
        if not contains_sym(data):
            return f(*a, **k)
        k = dict(k)
        axis = k.pop('axis', axis_default)
        if axis_pos is not None and len(a) > axis_pos:
            axis = a[axis_pos]
            raise Unsupported(name + ' with positional axis')

        def vec(xs):
            def one(e):
                b = a[:pos] + (e,) + a[pos + 1:]
                return f(*b, **k)
            key = (name, len(xs), repr([np.asarray(r).tolist()
                                        for r in rest]),
                   repr(sorted(k.items())))
            return op_apply(linear_op(one, len(xs), key), xs)
        return arr.along_vec(vec, data, axis)
    return g


def _conc(x):
    """all elements are constants"""
    try:
        return all(not is_sym(v) for v in to_obj(x).reshape(-1))
    except Exception:
        return False


def _unsym(x):
    if isinstance(x, SArr):
        return np.array(x.tolist())
    return x


class Spline:
    """scipy.interpolate.UnivariateSpline with s=0: linear in the samples"""

    def __init__(self, x, y, w=None, bbox=None, k=3, s=None, ext=0,
                 check_finite=False):
        import scipy.interpolate as si
        if w is not None or bbox is not None or s != 0:
            raise Unsupported('smoothing spline')
        if not _conc(x):
            raise Unsupported('spline on symbolic positions')
        self.x = np.array(to_obj(x).tolist(), dtype=float)
        self.y = list(to_obj(y))
        if len(self.x) != len(self.y):
            raise ValueError('x and y should have a same length')
        self.k, self.ext = k, ext
        si.UnivariateSpline(self.x, np.zeros(len(self.x)), s=0, k=k, ext=ext)

    def __call__(self, q, nu=0, ext=None):
        import scipy.interpolate as si
        if not _conc(q) or nu or ext is not None:
            raise Unsupported('spline at a symbolic position')
        qo = np.array(to_obj(q).tolist(), dtype=float)

        def f(e):
            return si.UnivariateSpline(self.x, e, s=0, k=self.k,
                                       ext=self.ext)(qo.reshape(-1))
        key = ('spline', self.x.tobytes(), qo.tobytes(), self.k, self.ext)
        out = op_apply(linear_op(f, len(self.x), key), self.y)
        r = np.empty(len(out), dtype=object)
        r[:] = out
        return r.reshape(qo.shape).view(SArr)


def scipy_over(world):
    import scipy
    import scipy.interpolate as si
    import scipy.fft
    import scipy.signal
    from .loader import ModProxy
    o = {}

    def guard(mod, name):
        f = getattr(mod, name)
        if isinstance(f, type) or not callable(f):
            return f

        def g(*a, **k):
            if any(contains_sym(x) for x in a) or any(
                    contains_sym(x) for x in k.values()):
                if not all(_conc(x) for x in list(a) + list(k.values())):
                    raise Unsupported(f'{mod.__name__}.{name}')
                a = [_unsym(x) for x in a]
                k = {n: _unsym(x) for n, x in k.items()}
            return f(*a, **k)
        return g

    class Guarded(types.ModuleType):
        def __init__(self, real, over):
            super().__init__(real.__name__)
            self.__dict__['_r'] = real
            self.__dict__['__path__'] = getattr(real, '__path__', [])
            self.__dict__.update(over)

        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            return guard(self.__dict__['_r'], n)

    def interp1d(x, y, *a, **k):
        if contains_sym(x) or contains_sym(y):
            return Interp1d(x, y, *a, **k)
        f = si.interp1d(x, y, *a, **k)

        def g(q):
            if contains_sym(q):
                return Interp1d(x, y, *a, **k)(q)
            return f(q)
        return g

    def detrend(data, axis=-1, type='linear', bp=0, overwrite_data=False):
        if not np.size(data):
            return scipy.signal.detrend(np.empty(np.shape(data)), axis,
                                        type, bp)
        if not contains_sym(data):
            return scipy.signal.detrend(data, axis, type, bp)

        def lin(xs):
            n = len(xs)
            if type in ('constant', 'c'):
                m = e_div(arr.l_sum(xs), n)
                return [x - m for x in xs]
            t = [core.Fraction(i) - core.Fraction(n - 1, 2)
                 for i in range(n)]
            sxx = sum(v * v for v in t)
            m = e_div(arr.l_sum(xs), n)
            sl = arr.l_sum([x * (v / sxx) for x, v in zip(xs, t)]) \
                if sxx else 0.
            return [x - m - sl * v for x, v in zip(xs, t)]
        return arr.along_vec(lin, data, axis)

    detrend.__module__ = 'scipy.signal'
    o['scipy'] = ModProxy(scipy, {})

    def spline(x, y, *a, **k):
        if contains_sym(x) or contains_sym(y):
            return Spline(x, y, *a, **k)
        return si.UnivariateSpline(x, y, *a, **k)

    ss = scipy.signal
    o['scipy.interpolate'] = Guarded(si, {'interp1d': interp1d,
                                          'UnivariateSpline': spline})
    o['scipy.signal'] = Guarded(scipy.signal, {
        'detrend': detrend,
        'lfilter': linear('lfilter', ss.lfilter, pos=2),
        'filtfilt': linear('filtfilt', ss.filtfilt, pos=2),
        'sosfilt': linear('sosfilt', ss.sosfilt, pos=1),
        'hilbert': linear('hilbert', ss.hilbert),
        'resample': linear('resample', ss.resample, axis_default=0)})
    from .npshim import FFT
    o['scipy.fft'] = FFT('scipy.fft')
    import scipy.fftpack as sf
    # its real transforms have another format
    o['scipy.fftpack'] = FFT('scipy.fftpack')
    for n in ('rfft', 'irfft', 'hilbert'):
        o['scipy.fftpack'].__dict__[n] = linear(
            'fftpack.' + n, getattr(sf, n))
    return o


# ---------------------------------------------------------------- fnmatch
def _pat_tokens(pat):
    from .strs import SymStr
    ch = SymStr.chars(pat)
    toks, i = [], 0
    while i < len(ch):
        c = ch[i]
        if c == '*' if isinstance(c, str) else False:
            toks.append(('*',))
        elif isinstance(c, str) and c == '?':
            toks.append(('?',))
        elif isinstance(c, str) and c == '[' and ']' in ch[i + 2:]:
            j = i + 2
            while ch[j] != ']':
                j += 1
            body = ''.join(ch[i + 1:j])
            toks.append(('[', body))
            i = j
        else:
            toks.append(('c', c))
        i += 1
    return toks


def _in_class(c, body):
    neg = body[0] == '!'
    if neg:
        body = body[1:]
    terms, i = [], 0
    v = ord(c) if isinstance(c, str) else c
    while i < len(body):
        if i + 2 < len(body) and body[i + 1] == '-':
            terms.append(core._and(v >= ord(body[i]),
                                   v <= ord(body[i + 2])))
            i += 3
        else:
            terms.append(v == ord(body[i]))
            i += 1
    r = core._or(*terms)
    return core._not(r) if neg else r


def sym_fnmatch(name, pat):
    """fnmatch on strings with symbolic characters; symbolic characters of
    the pattern are literals"""
    from .strs import SymStr
    import fnmatch
    if isinstance(name, str) and isinstance(pat, str):
        return fnmatch.fnmatch(name, pat)
    s = SymStr.chars(name)
    if s is None or SymStr.chars(pat) is None:
        raise Unsupported('fnmatch of ' + type(name).__name__)
    toks = _pat_tokens(pat)
    # m[i]: the tokens so far match s[:i]
    m = [True] + [False] * len(s)
    for t in toks:
        if t[0] == '*':
            n, acc = [], False
            for i in range(len(s) + 1):
                acc = core._or(acc, m[i])
                n.append(acc)
        else:
            n = [False]
            for i, c in enumerate(s):
                if t[0] == '?':
                    hit = True
                elif t[0] == '[':
                    hit = _in_class(c, t[1])
                else:
                    hit = SymStr.ceq(c, t[1])
                n.append(core._and(m[i], hit))
        m = n
    return core.mkbool(m[-1])


class FNMATCH(types.ModuleType):
    def __init__(self):
        super().__init__('fnmatch')

    @staticmethod
    def fnmatch(name, pat):
        return sym_fnmatch(name, pat)

    fnmatchcase = fnmatch

    @staticmethod
    def filter(names, pat):
        return [n for n in names if sym_fnmatch(n, pat)]

    @staticmethod
    def translate(p):
        import fnmatch
        return fnmatch.translate(p)


def astmod():
    import ast
    from .loader import ModProxy
    from .strs import ReprStr

    def literal_eval(x):
        if isinstance(x, ReprStr):
            import copy
            return copy.deepcopy(x.obj)
        return ast.literal_eval(x)
    return ModProxy(ast, {'literal_eval': literal_eval})
