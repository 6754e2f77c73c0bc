"""Strings with symbolic characters (fixed length per path)."""
import z3

from . import core
from .core import Sym, SymInt, Unsupported, is_sym, mkbool, _and, _or

RealStr = str


class SymStr(Sym):
    """tuple of characters, each a one-letter str or a z3 Int code point"""
    __slots__ = ('ch',)

    def __init__(self, ch):
        self.ch = tuple(ch)

    @staticmethod
    def chars(o):
        if isinstance(o, SymStr):
            return o.ch
        if isinstance(o, RealStr):
            return tuple(o)
        return None

    def __repr__(self):
        return 'SymStr(' + ''.join(
            c if isinstance(c, RealStr) else '?' for c in self.ch) + ')'

    def __str__(self):
        raise Unsupported('native formatting of a symbolic string')

    def __format__(self, spec):
        raise Unsupported('native formatting of a symbolic string')

    def __len__(self):
        return len(self.ch)

    def __iter__(self):
        for c in self.ch:
            yield mk([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk(self.ch[core.slice_idx(i)])
        return mk([self.ch[int(i)]])

    def __add__(self, o):
        c = self.chars(o)
        if c is None:
            return NotImplemented
        return mk(self.ch + c)

    def __radd__(self, o):
        c = self.chars(o)
        if c is None:
            return NotImplemented
        return mk(c + self.ch)

    def __mul__(self, n):
        return mk(self.ch * n)

    @staticmethod
    def ceq(a, b):
        if isinstance(a, RealStr) and isinstance(b, RealStr):
            return a == b
        if isinstance(a, TimeChar) or isinstance(b, TimeChar):
            if isinstance(a, TimeChar) and isinstance(b, TimeChar) and \
                    a.kind == b.kind:
                return _t(a.time == b.time)
            return False
        a = ord(a) if isinstance(a, RealStr) else a
        b = ord(b) if isinstance(b, RealStr) else b
        return a == b

    @staticmethod
    def clt(a, b):
        if isinstance(a, RealStr) and isinstance(b, RealStr):
            return a < b
        if isinstance(a, TimeChar) or isinstance(b, TimeChar):
            if isinstance(a, TimeChar) and isinstance(b, TimeChar) and \
                    a.kind == b.kind:
                return _t(a.time < b.time)
            raise Unsupported('order of a time and a character')
        a = ord(a) if isinstance(a, RealStr) else a
        b = ord(b) if isinstance(b, RealStr) else b
        return a < b

    def _eqt(self, o):
        c = self.chars(o)
        if c is None or len(c) != len(self.ch):
            return False
        return _and(*[self.ceq(a, b) for a, b in zip(self.ch, c)])

    def __eq__(self, o):
        return mkbool(self._eqt(o))

    def __ne__(self, o):
        return mkbool(core._not(self._eqt(o)))

    def _ltt(self, a, b, strict):
        n = min(len(a), len(b))
        # value if all n characters agree
        r = (len(a) < len(b)) if strict else (len(a) <= len(b))
        for i in range(n - 1, -1, -1):
            r = _or(self.clt(a[i], b[i]), _and(self.ceq(a[i], b[i]), r))
        return r

    def __lt__(self, o):
        c = self.chars(o)
        if c is None:
            return NotImplemented
        return mkbool(self._ltt(self.ch, c, True))

    def __le__(self, o):
        c = self.chars(o)
        if c is None:
            return NotImplemented
        return mkbool(self._ltt(self.ch, c, False))

    def __gt__(self, o):
        c = self.chars(o)
        if c is None:
            return NotImplemented
        return mkbool(self._ltt(c, self.ch, True))

    def __ge__(self, o):
        c = self.chars(o)
        if c is None:
            return NotImplemented
        return mkbool(self._ltt(c, self.ch, False))

    def isdigit(self):
        if not self.ch:
            return False
        return all(bool(mkbool(z3.And(c >= 48, c <= 57)))
                   if not isinstance(c, str) else c.isdigit()
                   for c in self.ch)

    def toint(self):
        if not self.isdigit():
            raise ValueError('invalid literal for int()')
        v = 0
        for c in self.ch:
            v = 10 * v + (SymInt(c) - 48 if not isinstance(c, str)
                          else int(c))
        return v

    def __hash__(self):
        # containers of symbolic strings need a value: fork over it
        return hash(self.concrete())

    def concrete(self):
        out = []
        for c in self.ch:
            if isinstance(c, TimeChar):
                raise Unsupported('hash of the text of a time')
            out.append(c if isinstance(c, RealStr)
                       else chr(core.cur().enumerate_value(c)))
        return ''.join(out)

    def __bool__(self):
        return len(self.ch) > 0

    def __contains__(self, o):
        c = self.chars(o)
        n = len(c)
        return bool(mkbool(_or(*[
            _and(*[self.ceq(a, b) for a, b in zip(self.ch[i:i + n], c)])
            for i in range(len(self.ch) - n + 1)])))

    def split(self, sep=None, maxsplit=-1):
        if sep is None or len(sep) != 1 or is_sym(sep):
            raise Unsupported('split')
        parts, part = [], []
        for c in self.ch:
            hit = self.ceq(c, sep)
            if not isinstance(hit, bool):
                hit = core.cur().branch(hit)
            if hit and (maxsplit < 0 or len(parts) < maxsplit):
                parts.append(mk(part))
                part = []
            else:
                part.append(c)
        parts.append(mk(part))
        return parts

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return core.lor(*[self.startswith(x) for x in p])
        c = self.chars(p)
        if len(c) > len(self.ch):
            return False
        return mkbool(_and(*[self.ceq(a, b) for a, b in zip(self.ch, c)]))

    def endswith(self, p):
        c = self.chars(p)
        if len(c) > len(self.ch):
            return False
        return mkbool(_and(*[
            self.ceq(a, b) for a, b in zip(self.ch[len(self.ch) - len(c):],
                                           c)]))

    def join(self, xs):
        return join(self, xs)

    def replace(self, a, b, n=-1):
        ca, cb = self.chars(a), self.chars(b)
        k = len(ca)
        if not k:
            raise Unsupported('replace')
        out, i = [], 0
        while i < len(self.ch):
            hit = False
            if i + k <= len(self.ch):
                hit = _and(*[self.ceq(x, y) for x, y in zip(
                    self.ch[i:i + k], ca)])
                if not isinstance(hit, bool):
                    hit = core.cur().branch(hit)
            if hit:
                out.extend(cb)
                i += k
            else:
                out.append(self.ch[i])
                i += 1
        return mk(out)

    def find(self, p, *a):
        c = self.chars(p)
        n = len(c)
        for i in range(len(self.ch) - n + 1):
            t = _and(*[self.ceq(a, b)
                       for a, b in zip(self.ch[i:i + n], c)])
            if bool(mkbool(t)):
                return i
        return -1

    def rfind(self, p, *a):
        c = self.chars(p)
        n = len(c)
        for i in range(len(self.ch) - n, -1, -1):
            t = _and(*[self.ceq(a, b)
                       for a, b in zip(self.ch[i:i + n], c)])
            if bool(mkbool(t)):
                return i
        return -1

    def partition(self, p):
        i = self.find(p)
        if i < 0:
            return self, '', ''
        return mk(self.ch[:i]), p, mk(self.ch[i + len(p):])

    def rpartition(self, p):
        i = self.rfind(p)
        if i < 0:
            return '', '', self
        return mk(self.ch[:i]), p, mk(self.ch[i + len(p):])

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        ps = self.split(sep)
        k = max(0, len(ps) - maxsplit - 1)
        return [join(sep, ps[:k + 1])] + ps[k + 1:]

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if self.endswith(p) else self

    def index(self, p):
        r = self.find(p)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, p):
        c = self.chars(p)
        if len(c) != 1:
            raise Unsupported('count')
        return sum(1 for x in self.ch if bool(mkbool(self.ceq(x, c[0]))))

    def strip(self, *a):
        return self
    lstrip = rstrip = strip

    def upper(self):
        return mk([c.upper() if isinstance(c, RealStr) else z3.If(
            z3.And(c >= 97, c <= 122), c - 32, c) for c in self.ch])

    def lower(self):
        return mk([c.lower() if isinstance(c, RealStr) else z3.If(
            z3.And(c >= 65, c <= 90), c + 32, c) for c in self.ch])

    def encode(self, *a):
        return self

    def decode(self, *a):
        return self

    def isnumeric(self):
        return False

    def ljust(self, n):
        return mk(self.ch + (' ',) * max(0, n - len(self.ch)))


def mk(ch):
    ch = tuple(ch)
    if all(isinstance(c, RealStr) for c in ch):
        return ''.join(ch)
    return SymStr(ch)


class TimeChar:
    """stands for the (injective) text form of a symbolic time"""
    __slots__ = ('time', 'kind')

    def __init__(self, time, kind=''):
        self.time, self.kind = time, kind

    def __repr__(self):
        return f'<{self.time}>'


def _t(r):
    return r.t if isinstance(r, core.SymBool) else bool(r)


def timestr(t, kind=''):
    return SymStr((TimeChar(t, kind),))


class ReprStr(Sym):
    """injective text form of a container with symbolic entries"""
    __slots__ = ('obj',)

    def __init__(self, obj):
        self.obj = obj

    def __hash__(self):
        return 31

    def __eq__(self, o):
        return isinstance(o, ReprStr) and self.obj == o.obj

    def __ne__(self, o):
        return not self == o


def contains(a, b):
    if isinstance(a, SymStr) and isinstance(b, RealStr):
        return a in SymStr(tuple(b))
    return a in b


def concat(parts):
    out = ''
    for p in parts:
        out = out + p
    return out


def join(sep, xs):
    xs = list(xs)
    parts = []
    for i, x in enumerate(xs):
        if i:
            parts.append(sep)
        if not isinstance(x, (RealStr, SymStr)):
            raise TypeError('sequence item: expected str instance')
        parts.append(x)
    return concat(parts)


def slice_idx(i):
    return slice(*[None if v is None else int(v)
                   for v in (i.start, i.stop, i.step)])


core.slice_idx = slice_idx


def fstr_part(v, conv, spec):
    if isinstance(v, SymStr):
        if spec:
            raise Unsupported('format spec on symbolic string')
        return v
    from .times import SUTC
    if isinstance(v, SUTC):
        return timestr(v, 'iso')
    if is_sym(v):
        # numbers and times only enter messages: keep them opaque
        return '<sym>'
    if conv == 115 and isinstance(v, RealStr):
        pass
    elif conv == 115:
        v = RealStr(v)
    elif conv == 114:
        v = repr(v)
    elif conv == 97:
        v = ascii(v)
    try:
        return format(v, spec)
    except TypeError:
        return '<obj>'


def fstr(*parts):
    """parts: str constants or (value, conversion, spec)"""
    out = []
    for p in parts:
        out.append(p if isinstance(p, RealStr) else fstr_part(*p))
    return concat(out)


def strmod(fmt, args):
    """fmt % args for string formats, anything else is a plain modulo"""
    if not isinstance(fmt, RealStr):
        return fmt % args
    import re
    if '%(' in fmt and hasattr(args, 'keys'):
        out = []
        for t in re.split(r'(%\(\w+\)s)', fmt):
            g = re.fullmatch(r'%\((\w+)\)s', t)
            if g:
                out.append(fstr_part(args[g.group(1)], 115, ''))
            elif '%' in t:
                return fmt % args
            elif t:
                out.append(t)
        return concat(out)
    tup = args if isinstance(args, tuple) else (args,)
    if isinstance(args, dict) or not any(is_sym(a) or isinstance(
            a, list) and any(is_sym(x) for x in a) for a in tup):
        try:
            return fmt % args
        except core.EngineStop:
            return '<msg>'
    toks = re.split(r'(%[-0-9.]*[sdrfg%])', fmt)
    out, k = [], 0
    for t in toks:
        if re.fullmatch(r'%[-0-9.]*[sdrfg]', t):
            a = tup[k]
            k += 1
            out.append(fstr_part(a, -1, '') if is_sym(a) else t % (a,))
        elif t == '%%':
            out.append('%')
        elif t:
            out.append(t)
    return concat(out)


def meth(obj, name, args, kw):
    """str methods called with symbolic arguments"""
    if isinstance(obj, RealStr):
        if name == 'join':
            xs = list(args[0])
            if any(is_sym(x) for x in xs):
                return join(obj, xs)
            return obj.join(xs)
        if name == 'format' and any(
                is_sym(a) for a in list(args) + list(kw.values())):
            import string
            out, auto = [], 0
            for lit, field, spec, conv in string.Formatter().parse(obj):
                if lit:
                    out.append(lit)
                if field is not None:
                    if field == '':
                        v = args[auto]
                        auto += 1
                    elif field.isdigit():
                        v = args[int(field)]
                    else:
                        v = kw[field]
                    out.append(fstr_part(v, -1, spec or ''))
            return concat(out)
        if name in ('startswith', 'endswith', 'split', 'replace', 'find',
                    'index', 'count', 'rfind', 'rsplit', 'partition',
                    'rpartition', 'removeprefix', 'removesuffix') and any(is_sym(a) for a in args):
            return getattr(SymStr(tuple(obj)), name)(*args, **kw)
    return getattr(obj, name)(*args, **kw)


def ospath():
    """os.path whose functions of plain text accept symbolic text"""
    import posixpath
    import types

    def join(a, *ps):
        if not any(isinstance(p, SymStr) for p in (a,) + ps):
            return posixpath.join(a, *ps)
        for p in ps:
            if bool(p[:1] == '/'):
                a = p
            elif len(a) == 0 or bool(a[-1:] == '/'):
                a = a + p
            else:
                a = a + '/' + p
        return a

    def split(p):
        if not isinstance(p, SymStr):
            return posixpath.split(p)
        i = len(p)
        while i and not bool(p[i - 1:i] == '/'):
            i -= 1
        head, tail = p[:i], p[i:]
        while len(head) > 1 and bool(head[-1:] == '/'):
            head = head[:-1]
        return head, tail

    m = types.ModuleType('posixpath')
    m.__dict__.update({k: v for k, v in vars(posixpath).items()
                       if not k.startswith('__')})
    m.join, m.split = join, split
    m.basename = lambda p: split(p)[1]
    m.dirname = lambda p: split(p)[0]
    return m
