"""Symbolic points in time with the interface of obspy's UTCDateTime."""
import datetime

import numpy as np
from obspy import UTCDateTime as RealUTC

from . import core
from .core import Sym, SymReal, SymInt, Unsupported, is_sym, lift_real, s_eq


class _M(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SUTC, RealUTC))

    def __subclasscheck__(cls, c):
        return type.__subclasscheck__(cls, c) or issubclass(c, RealUTC)


class SUTC(Sym):
    """seconds since the epoch, as a real"""
    __slots__ = ('_t',)

    @staticmethod
    def _mk(t):
        s = object.__new__(SUTC)
        object.__setattr__(s, '_t', lift_real(t))
        return s

    def __repr__(self):
        return f'SUTC({self._t.val})'

    timestamp = property(lambda s: s._t)

    @staticmethod
    def sec(o):
        if isinstance(o, SUTC):
            return o._t
        if isinstance(o, RealUTC):
            return lift_real(core.Fraction(o._ns, 10 ** 9))
        return None

    def __add__(self, o):
        if isinstance(o, (SUTC, RealUTC)):
            raise TypeError('unsupported operand type(s) for +')
        if isinstance(o, np.timedelta64):
            o = float(o / np.timedelta64(1, 's'))
        if hasattr(o, 'total_seconds'):
            o = o.total_seconds()
        r = lift_real(o)
        if r is None:
            return NotImplemented
        return SUTC._mk(self._t + r)
    __radd__ = __add__

    def __sub__(self, o):
        s = SUTC.sec(o)
        if s is not None:
            return self._t - s
        if hasattr(o, 'total_seconds'):
            o = o.total_seconds()
        r = lift_real(o)
        if r is None:
            return NotImplemented
        return SUTC._mk(self._t - r)

    def __rsub__(self, o):
        s = SUTC.sec(o)
        if s is not None:
            return s - self._t
        return NotImplemented

    def _c(self, o, op):
        s = SUTC.sec(o)
        if s is None:
            if core.conc_num(o) or isinstance(o, (SymReal, SymInt)):
                s = lift_real(o)
            else:
                return NotImplemented
        return self._t._cmp(s, op)

    def __lt__(self, o):
        return self._c(o, 'lt')

    def __le__(self, o):
        return self._c(o, 'le')

    def __gt__(self, o):
        return self._c(o, 'gt')

    def __ge__(self, o):
        return self._c(o, 'ge')

    def __eq__(self, o):
        r = self._c(o, 'eq')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, 'ne')
        return True if r is NotImplemented else r

    def __hash__(self):
        return 13

    def __float__(self):
        raise Unsupported('float() of a symbolic time')

    def format_fissures(self):
        from .strs import timestr
        return timestr(self)

    def isoformat(self, sep='T'):
        from .strs import timestr
        return timestr(self, 'iso')

    def strftime(self, f):
        from .strs import timestr
        has = {c for c in f.replace('%-', '%').split('%')[1:] for c in c[:1]}
        if 'T' in has:
            has |= set('HMS')
        if 'Y' not in has or not ('j' in has or {'m', 'd'} <= has) or \
                not set('HMS') <= has:
            raise Unsupported('UTCDateTime.strftime of a symbolic time')
        # text of the time down to the last digit given
        g = 10 ** 6 if 'f' in has else 1
        return timestr(SUTC._mk(lift_real((self._t * g).__floor__()) / g),
                       'iso' if 'f' not in has else f)

    def __str__(self):
        return f'<t:{self._t.val}>'

    def _day(self):
        """midnight of the (enumerated) day, and the seconds since"""
        d = RealUTC(int((self._t / 86400).__floor__()) * 86400)
        return d, self._t - SUTC.sec(d)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in ('year', 'julday', 'month', 'day', 'weekday', 'date'):
            return getattr(self._day()[0], n)
        if n == 'hour':
            return int((self._day()[1] / 3600).__floor__())
        if n == 'datetime':
            return SDate._mk(self._t)
        if n == 'time':
            return SymTOD(self._day()[1])
        raise Unsupported('UTCDateTime.' + n + ' of a symbolic time')


class _DM(type):
    def __instancecheck__(cls, x):
        return type.__instancecheck__(cls, x) or isinstance(
            x, datetime.datetime)


class SDate(Sym, metaclass=_DM):
    """symbolic datetime.datetime; the month is enumerated when it is asked
    for, other elements stay symbolic"""
    __slots__ = ('_t', '_m')
    RANGE = (2014, 2018)
    # text of symbolic dates stays symbolic
    TOKENS = True

    def __new__(cls, year, month=1, day=1, hour=0, minute=0, second=0,
                microsecond=0, tzinfo=None):
        args = (year, month, day, hour, minute, second, microsecond)
        if not any(is_sym(a) for a in args):
            return datetime.datetime(*args)
        y, m = int(year), int(month)
        t0 = RealUTC(y, m, 1)
        if not (1 <= day) or not (day <= SDate._len(y, m)):
            raise ValueError('day is out of range for month')
        return SDate._mk(SUTC.sec(t0) + (day - 1) * 86400 + hour * 3600
                         + minute * 60 + second
                         + microsecond * core.Fraction(1, 10 ** 6))

    @staticmethod
    def _len(y, m):
        import calendar
        return calendar.monthrange(y, m)[1]

    @staticmethod
    def _mk(t):
        s = object.__new__(SDate)
        object.__setattr__(s, '_t', lift_real(t))
        object.__setattr__(s, '_m', None)
        return s

    @staticmethod
    def sec(o):
        if isinstance(o, datetime.datetime):
            return SUTC.sec(RealUTC(o))
        if type.__instancecheck__(SDate, o):
            return o._t
        return None

    def month_(self):
        """year, month, seconds since the start of the month"""
        if self._m is None:
            ms = [(y, m) for y in range(*SDate.RANGE) for m in range(1, 13)]
            ms.append((SDate.RANGE[1], 1))
            st = [RealUTC(y, m, 1).timestamp for y, m in ms]
            if self._t < st[0] or self._t >= st[-1]:
                raise Unsupported('date outside of the years %s' % (
                    SDate.RANGE,))
            lo, hi = 0, len(ms) - 1
            while hi - lo > 1:
                k = (lo + hi) // 2
                if self._t < st[k]:
                    hi = k
                else:
                    lo = k
            object.__setattr__(self, '_m', ms[lo] + (
                self._t - lift_real(core.Fraction(st[lo])),))
        return self._m

    year = property(lambda s: s.month_()[0])
    month = property(lambda s: s.month_()[1])
    day = property(lambda s: (s.month_()[2] / 86400).__floor__() + 1)

    @property
    def _tod(self):
        d = self.month_()[2]
        return d - (d / 86400).__floor__() * 86400
    hour = property(lambda s: (s._tod / 3600).__floor__())
    minute = property(lambda s: (
        (s._tod - s.hour * 3600) / 60).__floor__())
    second = property(lambda s: (
        s._tod - s.hour * 3600 - s.minute * 60).__floor__())
    microsecond = property(lambda s: (
        (s._tod - s._tod.__floor__()) * 10 ** 6).__floor__())

    def replace(self, **k):
        d = dict(year=self.year, month=self.month, day=self.day)
        if any(n not in d for n in k):
            raise Unsupported('replace of the time of day')
        tod = self._tod
        d.update(k)
        if not any(is_sym(v) for v in d.values()):
            return SDate._mk(SUTC.sec(RealUTC(**d)) + tod)
        return SDate._mk(SDate(**d)._t + tod)

    def strftime(self, f):
        # as text of this very value, unless it is known
        if core.isconst(self._t.val):
            return RealUTC(float(core.ratval(self._t.val))).strftime(f)
        import re
        if SDate.TOKENS:
            return re.sub('%-?[a-zA-Z]', lambda m: '<%s of %s>' % (
                m.group(0)[1:], str(self._t.val).replace(
                    '/', ':').replace('\n', '')), f)
        if '%' not in f:
            return f
        k = dict(year=self.year, month=self.month, day=int(self.day))
        if re.search('%-?[HIpMSTXcfs]', f):
            k['hour'] = int(self.hour)
        if re.search('%-?[MSTXcfs]', f):
            raise Unsupported('text of the minutes of a symbolic date')
        return datetime.datetime(**k).strftime(f)

    def timestamp(self):
        return self._t

    def __hash__(self):
        return 17

    def __repr__(self):
        return f'SDate({self._t.val})'

    def __add__(self, o):
        if not hasattr(o, 'total_seconds'):
            return NotImplemented
        return SDate._mk(self._t + lift_real(
            core.Fraction(o // datetime.timedelta(microseconds=1),
                          10 ** 6)))
    __radd__ = __add__

    def __sub__(self, o):
        s = SDate.sec(o)
        if s is not None:
            return SDelta(self._t - s)
        if not hasattr(o, 'total_seconds'):
            return NotImplemented
        return self + -o

    def __rsub__(self, o):
        s = SDate.sec(o)
        if s is None:
            return NotImplemented
        return SDelta(s - self._t)

    def _c(self, o, op):
        s = SDate.sec(o)
        if s is None:
            return NotImplemented
        return self._t._cmp(s, op)

    def __lt__(self, o):
        return self._c(o, 'lt')

    def __le__(self, o):
        return self._c(o, 'le')

    def __gt__(self, o):
        return self._c(o, 'gt')

    def __ge__(self, o):
        return self._c(o, 'ge')

    def __eq__(self, o):
        r = self._c(o, 'eq')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, 'ne')
        return True if r is NotImplemented else r


class SDelta(Sym):
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def total_seconds(self):
        return self.s

    def __hash__(self):
        return 19


class SymTOD(Sym):
    """time of day"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __hash__(self):
        return 23

    @staticmethod
    def sec(o):
        if isinstance(o, SymTOD):
            return o.s
        if isinstance(o, datetime.time):
            return lift_real(
                o.hour * 3600 + o.minute * 60 + o.second
                + core.Fraction(o.microsecond, 10 ** 6))
        return None

    def _c(self, o, op):
        s = SymTOD.sec(o)
        if s is None:
            return NotImplemented
        return self.s._cmp(s, op)

    def __lt__(self, o):
        return self._c(o, 'lt')

    def __le__(self, o):
        return self._c(o, 'le')

    def __gt__(self, o):
        return self._c(o, 'gt')

    def __ge__(self, o):
        return self._c(o, 'ge')

    def __eq__(self, o):
        return self._c(o, 'eq')

    def __ne__(self, o):
        return self._c(o, 'ne')


class UTCShim(metaclass=_M):
    """what the code under test sees as UTCDateTime"""
    DEFAULT_PRECISION = 6

    def __new__(cls, *a, **k):
        if a and isinstance(a[0], SUTC):
            return a[0]
        if a and type.__instancecheck__(SDate, a[0]):
            return SUTC._mk(a[0]._t)
        if is_sym(k.get('julday')) and set(k) == {'year', 'julday'}:
            from .loader import SInt
            return RealUTC(int(k['year']), 1, 1) + (
                SInt(k['julday']) - 1) * 86400
        if a and isinstance(a[0], np.ndarray) and a[0].ndim == 0:
            a = (a[0].item(),) + a[1:]
        if a and isinstance(a[0], (SymReal, SymInt)):
            return SUTC._mk(a[0])
        from .strs import SymStr, TimeChar
        if a and isinstance(a[0], SymStr) and len(a[0].ch) == 1 and \
                isinstance(a[0].ch[0], TimeChar):
            return a[0].ch[0].time
        if a and is_sym(a[0]):
            raise Unsupported('UTCDateTime of ' + type(a[0]).__name__)
        return RealUTC(*a, **k)

    now = RealUTC.now
    utcnow = RealUTC.utcnow
    strptime = RealUTC.strptime


def _patch():
    """concrete times accept symbolic operands"""
    for n in ('__add__', '__sub__', '__lt__', '__le__', '__gt__', '__ge__',
              '__eq__', '__ne__', '__radd__', '__rsub__'):
        orig = getattr(RealUTC, n, None)
        if orig is None:
            continue

        def f(self, o, _n=n, _orig=orig):
            if isinstance(o, np.ndarray) and o.ndim == 0 and \
                    o.dtype == object:
                o = o.reshape(-1)[0]
            if isinstance(o, (SUTC, SymReal, SymInt)):
                return getattr(SUTC._mk(SUTC.sec(self)), _n)(o)
            return _orig(self, o)
        f.__name__ = n
        setattr(RealUTC, n, f)


_patch()
