"""Symbolic values, path exploration and solver access.

The code under test is executed by CPython itself on proxy values.  A proxy
carries a z3 term; a branch on a symbolic condition forks the path (depth first
search by re-execution, infeasible sides pruned by the solver).  Reals stand in
for floats, with a separate not-a-number flag.
"""
import math
import sys
import time
import builtins
from fractions import Fraction

import numpy as np
import z3

sys.set_int_max_str_digits(0)

z3.set_param('auto_config', True)


class EngineStop(BaseException):
    """Base of the engine's control exceptions (never caught by user code)."""


class PathInfeasible(EngineStop):
    pass


class Unsupported(EngineStop):
    """An operation the encoding does not cover was met on symbolic data."""


class BudgetExceeded(EngineStop):
    pass


_cur = [None]          # the running Explorer, if any


def cur():
    if _cur[0] is None:
        raise Unsupported('symbolic operation outside of an exploration')
    return _cur[0]


# ---------------------------------------------------------------- helpers
def is_sym(x):
    return isinstance(x, Sym)


def frac(x):
    """exact rational of a concrete finite number"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    return Fraction(float(x))


def rval(x):
    f = frac(x)
    if f.denominator == 1:
        return z3.RealVal(f.numerator)
    return z3.Q(f.numerator, f.denominator)


def conc_num(x):
    return isinstance(
        x, (bool, int, float, Fraction, np.bool_, np.integer, np.floating))


def _or(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a):
        return True
    if not a:
        return False
    if len(a) == 1:
        return a[0]
    return z3.Or(*a)


def _and(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a):
        return False
    if not a:
        return True
    if len(a) == 1:
        return a[0]
    return z3.And(*a)


def _not(a):
    if a is True:
        return False
    if a is False:
        return True
    return z3.Not(a)


def zb(a):
    """python bool / z3 bool -> z3 bool"""
    if isinstance(a, (bool, np.bool_)):
        return z3.BoolVal(bool(a))
    return a


def mkbool(t):
    """z3 bool or python bool -> SymBool or python bool"""
    if isinstance(t, (bool, np.bool_)):
        return bool(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


class Sym:
    __slots__ = ()

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # numpy scalars / arrays on the left hand side end up here
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        inputs = [x.item() if isinstance(x, np.generic) else x
                  for x in inputs]
        return arr.ufunc_entry(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.function_entry(func, args, kwargs)


# ---------------------------------------------------------------- booleans
class SymBool(Sym):
    __slots__ = ('t',)
    # looks like a numpy bool in a few places
    ndim = 0
    shape = ()
    dtype = np.dtype(bool)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().branch(self.t)

    def __repr__(self):
        return f'SymBool({self.t})'

    def __hash__(self):
        return hash(bool(self))

    def any(self, *a, **k):
        return self

    all = any

    def item(self):
        return self

    def astype(self, t, *a, **k):
        if t in (bool, np.bool_, 'bool'):
            return self
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def _l(self, o):
        if isinstance(o, SymBool):
            return o.t
        if isinstance(o, (bool, np.bool_)):
            return bool(o)
        return None

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        b = self._l(o)
        if b is None:
            return NotImplemented
        return mkbool(_and(self.t, b))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        b = self._l(o)
        if b is None:
            return NotImplemented
        return mkbool(_or(self.t, b))
    __ror__ = __or__

    def __xor__(self, o):
        b = self._l(o)
        if b is None:
            return NotImplemented
        return mkbool(z3.Xor(zb(self.t), zb(b)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(_not(self.t))

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        b = self._l(o)
        if b is not None:
            return mkbool(self.t == zb(b))
        return self.toint() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def toint(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        b = self._l(o)
        if b is not None:
            return mkbool(_and(self.t, b))
        return self.toint() * o
    __rmul__ = __mul__

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return self.toint() + (o.toint() if isinstance(o, SymBool) else o)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return self.toint() - (o.toint() if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return (-self.toint()) + o

    def __truediv__(self, o):
        return self.toint() / o

    def __neg__(self):
        return -self.toint()

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __lt__(self, o):
        return self.toint() < o

    def __gt__(self, o):
        return self.toint() > o

    def __le__(self, o):
        return self.toint() <= o

    def __ge__(self, o):
        return self.toint() >= o


def lnot(b):
    if isinstance(b, SymBool):
        return ~b
    if isinstance(b, Sym):
        return lnot(truth(b))
    return not b


def land(*bs):
    """logical and of python/symbolic booleans without forking"""
    return mkbool(_and(*[truth_t(b) for b in bs]))


def lor(*bs):
    return mkbool(_or(*[truth_t(b) for b in bs]))


def implies(a, b):
    return lor(lnot(a), b)


def truth(x):
    return mkbool(truth_t(x))


def truth_t(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, SymReal):
        return _or(x.nan, x.val != 0)
    if isinstance(x, SymInt):
        return x.t != 0
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return truth_t(x.item())
    return bool(x)


# ---------------------------------------------------------------- numbers
def lift_real(x):
    """-> SymReal, or None"""
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymInt):
        return SymReal(False, z3.ToReal(x.t))
    if isinstance(x, SymBool):
        return SymReal(False, z3.If(x.t, z3.RealVal(1), z3.RealVal(0)))
    if conc_num(x):
        if isinstance(x, (float, np.floating)) and not math.isfinite(x):
            if math.isnan(x):
                return SymReal(True, z3.RealVal(0))
            raise Unsupported('infinity mixed with symbolic values')
        return SymReal(False, rval(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift_real(x.item())
    return None


def isconst(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


def ratval(t):
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    return Fraction(t.numerator_as_long(), t.denominator_as_long())


_z0 = z3.RealVal(0)
_z1 = z3.RealVal(1)


def t_add(a, b):
    if isconst(a):
        if isconst(b):
            return rval(ratval(a) + ratval(b))
        if ratval(a) == 0:
            return b
    elif isconst(b) and ratval(b) == 0:
        return a
    return a + b


def t_sub(a, b):
    if isconst(b):
        if isconst(a):
            return rval(ratval(a) - ratval(b))
        if ratval(b) == 0:
            return a
    if a.eq(b):
        return _z0
    return a - b


def t_mul(a, b):
    if isconst(a):
        fa = ratval(a)
        if isconst(b):
            return rval(fa * ratval(b))
        if fa == 0:
            return _z0
        if fa == 1:
            return b
    elif isconst(b):
        fb = ratval(b)
        if fb == 0:
            return _z0
        if fb == 1:
            return a
    return a * b


def t_div(a, b):
    if isconst(b):
        fb = ratval(b)
        if fb != 0:
            return t_mul(a, rval(1 / fb))
    return a / b


def isinf_c(o):
    return isinstance(o, (float, np.floating)) and math.isinf(o)


class SymReal(Sym):
    __slots__ = ('nan', 'val')
    ndim = 0
    shape = ()
    size = 1
    dtype = np.dtype('float64')
    real = property(lambda s: s)
    imag = property(lambda s: 0.)
    T = property(lambda s: s)

    def __init__(self, nan, val):
        if not isinstance(nan, bool):
            if z3.is_true(nan):
                nan = True
            elif z3.is_false(nan):
                nan = False
        self.nan = nan
        self.val = val

    def __repr__(self):
        return f'SymReal({self.val})'

    def conj(self):
        return self
    conjugate = conj

    def item(self):
        return self

    def copy(self):
        return self

    def tolist(self):
        return self

    def astype(self, t, *a, **k):
        if np.issubdtype(np.dtype(t), np.integer):
            return to_int(self)
        if np.dtype(t) == np.dtype(bool):
            return truth(self)
        return self

    def _bin(self, o, f, rev=False):
        if isinstance(o, (np.ndarray, SymComplex)) and not (
                isinstance(o, np.ndarray) and o.ndim == 0
                and type(o) is np.ndarray):
            return NotImplemented
        b = lift_real(o)
        if b is None:
            return NotImplemented
        a = self
        if rev:
            a, b = b, a
        return f(a, b)

    def __add__(self, o):
        return self._bin(o, r_add)

    def __radd__(self, o):
        return self._bin(o, r_add, True)

    def __sub__(self, o):
        return self._bin(o, r_sub)

    def __rsub__(self, o):
        return self._bin(o, r_sub, True)

    def __mul__(self, o):
        return self._bin(o, r_mul)

    def __rmul__(self, o):
        return self._bin(o, r_mul, True)

    def __truediv__(self, o):
        return self._bin(o, r_div)

    def __rtruediv__(self, o):
        return self._bin(o, r_div, True)

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: r_floor(r_div(a, b)))

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: r_floor(r_div(a, b)), True)

    def __mod__(self, o):
        return self._bin(
            o, lambda a, b: r_sub(a, r_mul(b, r_floor(r_div(a, b)))))

    def __rmod__(self, o):
        return self._bin(
            o, lambda a, b: r_sub(a, r_mul(b, r_floor(r_div(a, b)))), True)

    def __neg__(self):
        return SymReal(self.nan, t_sub(_z0, self.val))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(
            self.nan, z3.If(self.val >= 0, self.val, -self.val))

    def __pow__(self, o):
        if isinstance(o, np.ndarray) and o.ndim == 0:
            o = o.item()
        if conc_num(o):
            f = frac(o)
            if f.denominator == 1 and 0 <= f <= 8:
                r = SymReal(self.nan, _z1)
                for _ in range(int(f)):
                    r = r * self
                return r
            if f.denominator == 1 and -8 <= f < 0:
                return 1 / (self ** (-int(f)))
            if f == Fraction(1, 2):
                return r_sqrt(self)
            if f == Fraction(-1, 2):
                return 1 / r_sqrt(self)
        return uf('pow', self, o)

    def __rpow__(self, o):
        return uf('pow', o, self)

    def _cmp(self, o, op):
        if isinstance(o, np.ndarray) and not (
                o.ndim == 0 and type(o) is np.ndarray):
            return NotImplemented
        if o is None:
            return NotImplemented
        if isinf_c(o):
            pos = o > 0
            r = {'lt': pos, 'le': pos, 'gt': not pos, 'ge': not pos,
                 'eq': False, 'ne': True}[op]
            return mkbool(_and(_not(self.nan), r)) if op != 'ne' else True
        b = lift_real(o)
        if b is None:
            return NotImplemented
        x, y = self.val, b.val
        if x.eq(y):
            t = op in ('le', 'ge', 'eq')
        elif isconst(x) and isconst(y):
            x, y = ratval(x), ratval(y)
            t = {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y,
                 'eq': x == y, 'ne': x != y}[op]
        else:
            t = {'lt': lambda: x < y, 'le': lambda: x <= y,
                 'gt': lambda: x > y, 'ge': lambda: x >= y,
                 'eq': lambda: x == y, 'ne': lambda: x != y}[op]()
        nn = _or(self.nan, b.nan)
        if op == 'ne':
            return mkbool(_or(nn, t))
        return mkbool(_and(_not(nn), t))

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __eq__(self, o):
        r = self._cmp(o, 'eq')
        return False if (r is NotImplemented
                         and not isinstance(o, np.ndarray)) else r

    def __ne__(self, o):
        r = self._cmp(o, 'ne')
        return True if (r is NotImplemented
                        and not isinstance(o, np.ndarray)) else r

    def __hash__(self):
        # equal terms hash alike; everything else relies on __eq__ forking
        return 7

    def __bool__(self):
        t = truth_t(self)
        return t if isinstance(t, bool) else cur().branch(t)

    def __floor__(self):
        return to_int(r_floor(self))

    def __ceil__(self):
        return to_int(-r_floor(-self))

    def __trunc__(self):
        return to_int(self)

    def __round__(self, n=None):
        if n and n > 5:
            # guards against the rounding errors of floats; there are none
            return self
        if n:
            f = 10 ** int(n)
            return r_rint(self * f) / f
        r = r_rint(self)
        return to_int(r) if n is None else r

    def rint(self):
        return r_rint(self)

    def floor(self):
        return r_floor(self)

    def ceil(self):
        return -r_floor(-self)

    def sqrt(self):
        return r_sqrt(self)

    def __int__(self):
        return to_int(self).__index__()

    def is_integer(self):
        return mkbool(_and(_not(self.nan), z3.IsInt(self.val)))

    def __float__(self):
        # only reachable through uninstrumented native code
        if isconst(self.val) and self.nan in (True, False):
            return math.nan if self.nan else float(ratval(self.val))
        raise Unsupported('native float() of a symbolic real')


def r_add(a, b):
    return SymReal(_or(a.nan, b.nan), t_add(a.val, b.val))


def r_sub(a, b):
    return SymReal(_or(a.nan, b.nan), t_sub(a.val, b.val))


def r_mul(a, b):
    return SymReal(_or(a.nan, b.nan), t_mul(a.val, b.val))


def r_div(a, b):
    """division; every non-finite result is represented by the nan flag"""
    if isconst(b.val):
        if ratval(b.val) == 0:
            return SymReal(True, _z0)
        return SymReal(_or(a.nan, b.nan), t_div(a.val, b.val))
    c = cur()
    q = c.quotient(a.val, b.val)
    return SymReal(_or(a.nan, b.nan, b.val == 0), q)


def r_floor(a):
    if isconst(a.val):
        return SymReal(a.nan, rval(math.floor(ratval(a.val))))
    return SymReal(a.nan, z3.ToReal(z3.ToInt(a.val)))


def r_rint(a):
    """round half to even"""
    f = z3.ToInt(a.val)
    d = a.val - z3.ToReal(f)
    half = z3.Q(1, 2)
    r = z3.If(d < half, f, z3.If(
        d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    return SymReal(a.nan, z3.ToReal(r))


def r_sqrt(a):
    if isinstance(a, SymComplex):
        re, im = lift_real(a.re), lift_real(a.im)
        t = z3.simplify(im.val, som=True)
        if not (isconst(t) and ratval(t) == 0):
            raise Unsupported('sqrt of a complex number')
        pos = re >= 0
        z = SymReal(re.nan, z3.RealVal(0))
        return SymComplex(ite(pos, r_sqrt(ite(pos, re, z)), z),
                          ite(pos, z, r_sqrt(ite(pos, z, -re))))
    a = lift_real(a)
    return cur().sqrt(a)


def to_int(a):
    """int(): truncation towards zero; raises on nan like python"""
    if isinstance(a, SymInt):
        return a
    if isinstance(a, SymBool):
        return a.toint()
    if a.nan is not False:
        if a.nan is True or cur().branch(a.nan):
            raise ValueError('cannot convert float NaN to integer')
    v = a.val
    if isconst(v):
        return math.trunc(ratval(v))
    if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
        return SymInt(v.arg(0))
    return SymInt(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))


def _has_int(t, lim=400):
    todo, seen = [t], set()
    while todo and len(seen) < lim:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_to_real(x):
            return True
        todo.extend(x.children())
    return False


def determined(x):
    """value of a term over integers that the path leaves no choice for
    (an index that was enumerated); else None"""
    x = lift_real(x)
    if x is None or x.nan is True or not _has_int(x.val):
        return None
    c = cur()
    r, m = c._check(None, c.feas_ms)
    if r != z3.sat:
        return None
    v = m.eval(x.val, model_completion=True)
    if not z3.is_rational_value(v):
        return None
    r, _ = c._check(z3.Or(x.val != v, zb(x.nan)), c.feas_ms)
    return float(ratval(v)) if r == z3.unsat else None


def uf(name, *args):
    """uninterpreted function of reals (same arguments, same value)"""
    xs = [lift_real(a) for a in args]
    if any(x is None for x in xs):
        raise Unsupported(f'{name} of {args}')
    f = z3.Function('uf_' + name, *([z3.RealSort()] * (len(xs) + 1)))
    v = f(*[x.val for x in xs])
    c = cur()
    if name in ('exp',):
        c.define(v > 0)
    if name in ('exp', 'log') and c.monotone:
        # strictly increasing
        a, old = xs[0].val, c.apps.setdefault(name, [])
        if len(old) < 8 and not any(a.eq(o) for o, _ in old):
            for o, w in old:
                m = z3.And((a > o) == (v > w), (a < o) == (v < w))
                if name == 'log':
                    m = z3.Implies(z3.And(a > 0, o > 0), m)
                c.define(m)
            old.append((a, v))
    if name in ('sin', 'cos', 'tanh'):
        c.define(z3.And(v <= 1, v >= -1))
    return SymReal(_or(*[x.nan for x in xs]), v)


class SymInt(Sym):
    __slots__ = ('t',)
    ndim = 0
    shape = ()
    size = 1
    dtype = np.dtype('int64')

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SymInt({self.t})'

    def item(self):
        return self

    def astype(self, t, *a, **k):
        if np.issubdtype(np.dtype(t), np.floating):
            return lift_real(self)
        return self

    @staticmethod
    def _i(o):
        if isinstance(o, SymInt):
            return o.t
        if isinstance(o, SymBool):
            return o.toint().t
        if isinstance(o, (bool, int, np.bool_, np.integer)):
            return z3.IntVal(int(o))
        return None

    def _bin(self, o, fi, fr, rev=False):
        b = self._i(o)
        if b is not None:
            return mkint(fi(b, self.t) if rev else fi(self.t, b))
        if isinstance(o, np.ndarray) and not (
                o.ndim == 0 and type(o) is np.ndarray):
            return NotImplemented
        r = lift_real(o)
        if r is None:
            return NotImplemented
        s = lift_real(self)
        return fr(r, s) if rev else fr(s, r)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, r_add)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, r_add, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, r_sub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, r_sub, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, r_mul)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, r_mul, True)

    def __truediv__(self, o):
        return lift_real(self) / o

    def __rtruediv__(self, o):
        return o / lift_real(self)

    @staticmethod
    def _fdiv(a, b):
        # python floor division (z3 div rounds so that the rest is >= 0)
        if z3.is_int_value(b) and b.as_long() > 0:
            return a / b
        return z3.If(b > 0, a / b, (-a) / (-b))

    @staticmethod
    def _fmod(a, b):
        if z3.is_int_value(b) and b.as_long() > 0:
            return a % b
        return a - b * SymInt._fdiv(a, b)

    def __floordiv__(self, o):
        return self._bin(o, self._fdiv,
                         lambda a, b: r_floor(r_div(a, b)))

    def __rfloordiv__(self, o):
        return self._bin(o, self._fdiv,
                         lambda a, b: r_floor(r_div(a, b)), True)

    def __mod__(self, o):
        return self._bin(o, self._fmod, lambda a, b: r_sub(
            a, r_mul(b, r_floor(r_div(a, b)))))

    def __rmod__(self, o):
        return self._bin(o, self._fmod, lambda a, b: r_sub(
            a, r_mul(b, r_floor(r_div(a, b)))), True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        return to_int_if(lift_real(self) ** o)

    def __neg__(self):
        return SymInt(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.t >= 0, self.t, -self.t))

    def _cmp(self, o, op):
        b = self._i(o)
        if b is None:
            return getattr(lift_real(self), f'__{op}__')(o)
        x, y = self.t, b
        return mkbool(z3.simplify({
            'lt': lambda: x < y, 'le': lambda: x <= y,
            'gt': lambda: x > y, 'ge': lambda: x >= y,
            'eq': lambda: x == y, 'ne': lambda: x != y}[op]()))

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __hash__(self):
        return hash(self.__index__())

    def __bool__(self):
        return cur().branch(self.t != 0)

    def __index__(self):
        return cur().enumerate_value(self.t)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __floor__(self):
        return self
    __ceil__ = __trunc__ = __floor__

    def __round__(self, n=None):
        return self

    def is_integer(self):
        return True


def mkint(t):
    if z3.is_int_value(t):
        return t.as_long()
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def to_int_if(x):
    return x


# ---------------------------------------------------------------- complex
class SymComplex(Sym):
    __slots__ = ('re', 'im')
    ndim = 0
    shape = ()
    dtype = np.dtype('complex128')

    def __init__(self, re, im):
        self.re = re
        self.im = im

    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)

    def __repr__(self):
        return f'SymComplex({self.re},{self.im})'

    @staticmethod
    def lift(o):
        if isinstance(o, SymComplex):
            return o
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex(float(o.real), float(o.imag))
        if isinstance(o, np.ndarray) and o.ndim == 0:
            return SymComplex.lift(o.item())
        if isinstance(o, np.ndarray):
            return None
        if conc_num(o) or isinstance(o, (SymReal, SymInt, SymBool)):
            return SymComplex(o, 0)
        return None

    def _b(self, o, f, rev=False):
        b = self.lift(o)
        if b is None:
            return NotImplemented
        return f(b, self) if rev else f(self, b)

    @staticmethod
    def _mul(a, b):
        return SymComplex(a.re * b.re - a.im * b.im,
                          a.re * b.im + a.im * b.re)

    @staticmethod
    def _div(a, b):
        if not is_sym(b.im) and b.im == 0:
            return SymComplex(sdiv(a.re, b.re), sdiv(a.im, b.re))
        d = b.re * b.re + b.im * b.im
        n = SymComplex._mul(a, SymComplex(b.re, -b.im))
        return SymComplex(sdiv(n.re, d), sdiv(n.im, d))

    def __add__(self, o):
        return self._b(o, lambda a, b: SymComplex(a.re + b.re, a.im + b.im))
    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: SymComplex(a.re - b.re, a.im - b.im))

    def __rsub__(self, o):
        return self._b(
            o, lambda a, b: SymComplex(a.re - b.re, a.im - b.im), True)

    def __mul__(self, o):
        return self._b(o, self._mul)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, self._div)

    def __rtruediv__(self, o):
        return self._b(o, self._div, True)

    def __neg__(self):
        return SymComplex(-self.re, -self.im)

    def conjugate(self):
        return SymComplex(self.re, -self.im)
    conj = conjugate

    def __abs__(self):
        if not is_sym(self.im) and self.im == 0:
            return abs(self.re)
        return r_sqrt(self.re * self.re + self.im * self.im)

    def __pow__(self, o):
        if o == 2:
            return self * self
        raise Unsupported('complex power')

    def __eq__(self, o):
        b = self.lift(o)
        if b is None:
            return False
        return land(s_eq(self.re, b.re), s_eq(self.im, b.im))

    def __ne__(self, o):
        return lnot(self == o)

    def __hash__(self):
        return 11


def _with_complex(f, name):
    def g(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return getattr(SymComplex(self, 0), name)(o)
        return f(self, o)
    return g


for _c in (SymReal, SymInt):
    for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv',
               'rtruediv'):
        _n = '__' + _n + '__'
        setattr(_c, _n, _with_complex(getattr(_c, _n), _n))


def sdiv(a, b):
    """a/b for concrete or symbolic scalars, nan where b is zero"""
    if not is_sym(a) and not is_sym(b):
        if b == 0:
            return math.nan
        return a / b
    if not is_sym(a) and isinstance(a, (float, np.floating)) \
            and math.isnan(a):
        return math.nan
    return a / b if is_sym(a) else lift_real(a) / b


# ---------------------------------------------------------------- generic
def s_eq(a, b):
    """equality as a (symbolic) boolean; nan == nan counts as equal"""
    if isinstance(a, SymComplex) or isinstance(b, SymComplex):
        a, b = SymComplex.lift(a), SymComplex.lift(b)
        return land(s_eq(a.re, b.re), s_eq(a.im, b.im))
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(
                b, (bool, np.bool_, SymBool)):
            return mkbool(zb(truth_t(a)) == zb(truth_t(b)))
    if isinstance(a, (SymReal, SymInt, SymBool)) or isinstance(
            b, (SymReal, SymInt, SymBool)):
        if isinstance(a, SymInt) and SymInt._i(b) is not None:
            return a == b
        if isinstance(b, SymInt) and SymInt._i(a) is not None:
            return b == a
        x, y = lift_real(a), lift_real(b)
        if x is None or y is None:
            return False
        if x.val.eq(y.val):
            v = True
        else:
            v = x.val == y.val
        if x.nan is False and y.nan is False:
            return mkbool(v)
        xn, yn = zb(x.nan), zb(y.nan)
        return mkbool(z3.And(xn == yn, z3.Or(xn, zb(v))))
    if is_sym(a) or is_sym(b):
        r = (a == b)
        return r
    if isinstance(a, (float, np.floating)) and isinstance(
            b, (float, np.floating)) and math.isnan(a) and math.isnan(b):
        return True
    return bool(a == b)


def s_isnan(a):
    if isinstance(a, SymReal):
        return mkbool(a.nan)
    if isinstance(a, SymComplex):
        return lor(s_isnan(a.re), s_isnan(a.im))
    if is_sym(a):
        return False
    if isinstance(a, (complex, np.complexfloating)):
        return bool(np.isnan(a))
    try:
        return math.isnan(a)
    except TypeError:
        raise TypeError('isnan of ' + str(type(a)))


def ite(c, a, b):
    """if-then-else without forking wherever the values can be merged"""
    c = truth(c)
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    num = (SymReal, SymInt, SymBool)

    def isn(x):
        return isinstance(x, num) or conc_num(x)
    if isn(a) and isn(b):
        if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(
                b, (bool, np.bool_, SymBool)):
            return mkbool(z3.If(c.t, zb(truth_t(a)), zb(truth_t(b))))
        ia, ib = SymInt._i(a), SymInt._i(b)
        if ia is not None and ib is not None and not isinstance(
                a, (bool, SymBool)) and not isinstance(b, (bool, SymBool)):
            return SymInt(z3.If(c.t, ia, ib))
        if isinf_c(a) or isinf_c(b):
            return a if bool(c) else b
        x, y = lift_real(a), lift_real(b)
        if x.nan is y.nan and isinstance(x.nan, bool):
            nn = x.nan
        else:
            nn = z3.If(c.t, zb(x.nan), zb(y.nan))
        v = x.val if x.val.eq(y.val) else z3.If(c.t, x.val, y.val)
        return SymReal(nn, v)
    if isinstance(a, SymComplex) or isinstance(b, SymComplex):
        x, y = SymComplex.lift(a), SymComplex.lift(b)
        if x is not None and y is not None:
            return SymComplex(ite(c, x.re, y.re), ite(c, x.im, y.im))
    from .times import SUTC
    if isinstance(a, SUTC) and isinstance(b, SUTC):
        return SUTC._mk(ite(c, a._t, b._t))
    return a if bool(c) else b


def smax(a, b):
    """python max(a, b) (first wins ties)"""
    if not is_sym(a) and not is_sym(b):
        return b if b > a else a
    return ite(b > a, b, a)


def smin(a, b):
    if not is_sym(a) and not is_sym(b):
        return b if b < a else a
    return ite(b < a, b, a)


# ---------------------------------------------------------------- explorer
class Candidate:
    def __init__(self, label, kind, detail=''):
        self.label = label
        self.kind = kind
        self.detail = detail
        self.models = []


class Explorer:
    """Explores every feasible path of fn(ctx) by re-execution."""

    def __init__(self, feas_ms=8000, check_ms=60000, max_paths=4000,
                 deadline=None, seed=0, max_values=64):
        self.feas_ms = feas_ms
        self.check_ms = check_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.seed = seed
        self.max_values = max_values
        # statistics
        self.paths = 0
        self.queries = 0
        self.solver_s = 0.
        self.branches = 0
        self.checks_unsat = 0
        self.checks_trivial = 0
        self.unknown = []
        self.reached = {}
        self.covered = {}
        self.path_models = 0

    # ---- per path state
    def _start(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set('random_seed', self.seed)
        self.pc = []
        self.sqrt_cache = {}
        self.div_cache = {}
        self.apps = {}
        self.monotone = False
        self.names = 0
        self.inputs = {}

    def _check(self, extra, ms):
        t0 = time.time()
        self.queries += 1
        self.solver.set('timeout', ms)
        if extra is not None:
            self.solver.push()
            self.solver.add(extra)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra is not None:
            self.solver.pop()
        self.solver_s += time.time() - t0
        if self.deadline and time.time() > self.deadline:
            raise BudgetExceeded('time budget')
        return r, m

    def add(self, t):
        t = zb(t)
        if z3.is_true(t):
            return
        self.pc.append(t)
        self.solver.add(t)

    def define(self, t):
        """definitional constraint (always satisfiable)"""
        self.add(t)

    def assume(self, c):
        c = truth(c)
        if c is True:
            return
        if c is False:
            raise PathInfeasible('assume')
        self.add(c.t)

    def fresh_real(self, hint='k'):
        self.names += 1
        return z3.Real(f'!{hint}{self.names}')

    def sqrt(self, a):
        if isconst(a.val):
            f = ratval(a.val)
            if f >= 0:
                n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
                if n * n == f.numerator and d * d == f.denominator:
                    return SymReal(a.nan, rval(Fraction(n, d)))
        key = a.val.get_id()
        if key not in self.sqrt_cache:
            s = self.fresh_real('sqrt')
            self.define(z3.Implies(a.val >= 0, z3.And(
                s >= 0, s * s == a.val)))
            self.sqrt_cache[key] = (s, a.val)
        s = self.sqrt_cache[key][0]
        return SymReal(_or(a.nan, a.val < 0), s)

    def quotient(self, a, b):
        """a/b for a non constant divisor: q with q*b == a"""
        key = (a.get_id(), b.get_id())
        if key not in self.div_cache:
            self.div_cache[key] = (a / b, a, b)
        return self.div_cache[key][0]

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            if d[0] not in 'bf':
                raise Unsupported('non-deterministic re-execution')
            self.add(cond if d[1] else z3.Not(cond))
            return d[1]
        self.branches += 1
        r1, _ = self._check(cond, self.feas_ms)
        if r1 == z3.unsat:
            self._rec(('f', False))
            self.add(z3.Not(cond))
            return False
        r0, _ = self._check(z3.Not(cond), self.feas_ms)
        if r0 == z3.unsat:
            self._rec(('f', True))
            self.add(cond)
            return True
        self.work.append(self.trace + [('b', False)])
        self._rec(('b', True))
        self.add(cond)
        return True

    def _rec(self, d):
        self.trace.append(d)
        self.pos += 1

    def enumerate_value(self, t):
        """fork over all feasible values of an integer term"""
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        tried = 0
        while True:
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                self.trace.append(d)
                if d[0] != 'v':
                    raise Unsupported('non-deterministic re-execution')
                if d[2]:
                    self.add(t == d[1])
                    return d[1]
                self.add(t != d[1])
                tried += 1
                continue
            r, m = self._check(None, self.feas_ms)
            if r == z3.unsat:
                raise PathInfeasible('enumerate')
            if r != z3.sat:
                raise Unsupported('unknown while enumerating an index')
            v = m.eval(t, model_completion=True)
            if not z3.is_int_value(v):
                # algebraic numbers in the model
                n = z3.Int(f'_n{self.pos}_{tried}_{len(self.trace)}')
                r, m = self._check(n == t, self.feas_ms)
                if r != z3.sat:
                    raise Unsupported('unknown while enumerating an index')
                v = m.eval(n, model_completion=True)
            v = v.as_long()
            # prefer small absolute values for readability: not needed
            tried += 1
            if tried > self.max_values:
                raise Unsupported('too many values for an index')
            r0, _ = self._check(t != v, self.feas_ms)
            if r0 != z3.unsat:
                self.work.append(self.trace + [('v', v, False)])
            self._rec(('v', v, True))
            self.add(t == v)
            return v

    # ---- obligations
    def check(self, cond, label, prefer=None):
        """prove cond on this path; returns None, or a z3 model"""
        self.reached[label] = self.reached.get(label, 0) + 1
        c = truth(cond)
        if c is True:
            self.checks_trivial += 1
            return None
        neg = z3.BoolVal(True) if c is False else z3.simplify(z3.Not(c.t))
        if z3.is_false(neg):
            self.checks_trivial += 1
            return None
        r, m = self._check(neg, self.check_ms)
        if r == z3.unsat:
            self.checks_unsat += 1
            return None
        if r == z3.unknown:
            r, m = self._retry(neg)
            if r == z3.unsat:
                self.checks_unsat += 1
                return None
            if r == z3.unknown:
                self.unknown.append(label)
                return None
        return self.nice_models(neg, m, prefer)

    def _retry(self, neg):
        """a second, non-incremental attempt with the nonlinear tactic"""
        t0 = time.time()
        self.queries += 1
        s = z3.Then('simplify', 'solve-eqs', 'smt').solver()
        s.set('timeout', self.check_ms)
        for c in self.pc:
            s.add(c)
        s.add(neg)
        r = s.check()
        m = s.model() if r == z3.sat else None
        self.solver_s += time.time() - t0
        return r, m

    def nice_models(self, neg, m, prefer):
        """several models of the violation, readable ones first"""
        out = []
        reals = [v.val for v in self.inputs.values()
                 if isinstance(v, SymReal)]
        for den in (1, 2, 8):
            cs = [neg] + [z3.IsInt(den * v) for v in reals]
            if prefer is not None:
                cs.append(prefer)
            r, mm = self._try(cs)
            if r == z3.sat:
                out.append(mm)
                break
        if prefer is not None:
            r, mm = self._try([neg, prefer])
            if r == z3.sat:
                out.append(mm)
        out.append(m)
        # diversified models
        for k in range(3):
            cs = [neg]
            for i, v in enumerate(reals):
                cs.append(v > (k + 1) if (i + k) % 2 else v < -(k + 1))
            r, mm = self._try(cs[:1 + max(1, len(cs) // (k + 2))])
            if r == z3.sat:
                out.append(mm)
        return out

    def _try(self, cs):
        self.solver.push()
        self.solver.set('timeout', 3000)
        for c in cs:
            self.solver.add(c)
        self.queries += 1
        t0 = time.time()
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.solver_s += time.time() - t0
        return r, m

    def path_model(self, nice=True):
        cs = []
        if nice:
            for den in (1, 4):
                r, m = self._try([z3.IsInt(den * v.val) for v in
                                  self.inputs.values()
                                  if isinstance(v, SymReal)])
                if r == z3.sat:
                    return m
        r, m = self._check(None, self.feas_ms)
        return m if r == z3.sat else None

    # ---- driving
    def explore(self, fn, on_path=None):
        """fn() is run once per path.  on_path(outcome, exc) after each."""
        self.work = [[]]
        prev = _cur[0]
        _cur[0] = self
        try:
            while self.work:
                if self.paths >= self.max_paths:
                    raise BudgetExceeded('path budget')
                if self.deadline and time.time() > self.deadline:
                    raise BudgetExceeded('time budget')
                prefix = self.work.pop()
                self._start(prefix)
                self.paths += 1
                try:
                    fn()
                except PathInfeasible:
                    if on_path:
                        on_path('infeasible', None)
                    continue
                except BudgetExceeded:
                    raise
                except Unsupported as e:
                    if on_path and on_path('unsupported', e) == 'stop':
                        return
                    continue
                except Exception as e:
                    if on_path and on_path('exception', e) == 'stop':
                        return
                    continue
                if on_path and on_path('ok', None) == 'stop':
                    return
        finally:
            _cur[0] = prev
