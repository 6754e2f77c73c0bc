"""Loads the modules of the code under test from /repo's working tree.

Each module is read from source, a few AST nodes are redirected (string
formatting and string methods, so that symbolic strings survive) and the
result is executed in a fresh namespace whose imports and builtins are
replaced by the shims.  The logic itself is executed unchanged by CPython.
"""
import ast
import copy
import builtins
import hashlib
import importlib
import importlib.util
import math
import operator
import os
import sys
import types

import numpy as np

from . import core, strs, arr
from .core import (Sym, SymReal, SymInt, SymBool, SymComplex, Unsupported,
                   is_sym, lift_real)
from .times import UTCShim, SUTC
from .npshim import NP, FFT

SRC = os.environ.get('SEISMIC_SRC', '/repo/src')

# obspy modules whose source is executed symbolically as well
OBSPY = {'obspy.core.trace', 'obspy.core.stream', 'obspy.signal.filter',
         'obspy.signal.detrend', 'obspy.signal.invsim'}

STR_METHODS = {'join', 'format', 'startswith', 'endswith', 'split',
               'replace', 'find', 'index', 'count', 'rfind', 'rsplit',
               'partition', 'rpartition', 'removeprefix', 'removesuffix'}


class Instrument(ast.NodeTransformer):
    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant('')
                if v.format_spec is not None:
                    spec = self.visit(v.format_spec)
                parts.append(ast.Tuple(
                    [self.visit(v.value), ast.Constant(v.conversion), spec],
                    ast.Load()))
        return ast.copy_location(ast.Call(
            ast.Name('_sx_fstr', ast.Load()), parts, []), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(
                ast.Name('_sx_mod', ast.Load()),
                [node.left, node.right], []), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In,
                                                           ast.NotIn)):
            r = ast.Call(ast.Name('_sx_in', ast.Load()),
                         [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.UnaryOp(ast.Not(), r)
            return ast.copy_location(r, node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(
                node.slice, (ast.Constant, ast.Slice, ast.Tuple)):
            return ast.copy_location(ast.Call(
                ast.Name('_sx_item', ast.Load()),
                [node.value, node.slice], []), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in STR_METHODS and not \
                any(isinstance(a, ast.Starred) for a in node.args):
            return ast.copy_location(ast.Call(
                ast.Name('_sx_meth', ast.Load()),
                [f.value, ast.Constant(f.attr),
                 ast.Tuple(node.args, ast.Load()),
                 ast.Dict([ast.Constant(k.arg) if k.arg else None
                           for k in node.keywords],
                          [k.value for k in node.keywords])], []), node)
        return node


# ---------------------------------------------------------------- builtins
def _meta(real, syms):
    class M(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real) or isinstance(x, syms)

        def __subclasscheck__(cls, c):
            return issubclass(c, real) or type.__subclasscheck__(cls, c)

        def __eq__(cls, o):
            return o is cls or o is real

        def __hash__(cls):
            return hash(real)

        def __getattr__(cls, n):
            return getattr(real, n)

        def __or__(cls, o):
            return real
    return M


def unwrap0(x):
    if isinstance(x, np.ndarray) and x.size == 1 and (
            isinstance(x, arr.SArr) or x.dtype == object):
        return x.reshape(-1)[0] if not isinstance(x, arr.SArr) else \
            x.flat_list()[0]
    return x


class SFloat(metaclass=_meta(float, (SymReal,))):
    _real_type = float
    dtype = np.dtype(float)

    def __new__(cls, x=0.):
        x = unwrap0(x)
        if isinstance(x, (SymReal, SymInt, SymBool)):
            return lift_real(x)
        if isinstance(x, SUTC):
            return x._t
        return float(x)


class SInt(metaclass=_meta(int, (SymInt,))):
    _real_type = int
    dtype = np.dtype(int)

    def __new__(cls, x=0, *a):
        x = unwrap0(x)
        if isinstance(x, (SymReal, SymInt, SymBool)):
            return core.to_int(x)
        if isinstance(x, strs.SymStr) and not a:
            return x.toint()
        return int(x, *a)


def deep_sym(x):
    if isinstance(x, dict):
        return any(deep_sym(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return any(deep_sym(v) for v in x)
    return is_sym(x)


class SStr(metaclass=_meta(str, (strs.SymStr, strs.ReprStr))):
    _real_type = str
    dtype = np.dtype(str)

    def __new__(cls, *x, **k):
        if x and isinstance(x[0], (strs.SymStr, strs.ReprStr)):
            return x[0]
        if x and isinstance(x[0], SUTC):
            return strs.timestr(x[0], 'iso')
        if x and isinstance(x[0], (dict, list, tuple)) and deep_sym(x[0]):
            return strs.ReprStr(copy.deepcopy(x[0]))
        if x and is_sym(x[0]):
            return '<sym>'
        return str(*x, **k)


class SBool(metaclass=_meta(bool, (SymBool,))):
    _real_type = bool
    dtype = np.dtype(bool)

    def __new__(cls, x=False):
        return bool(x)


class SComplex(metaclass=_meta(complex, (SymComplex,))):
    _real_type = complex

    def __new__(cls, *x):
        if any(is_sym(v) for v in x):
            return SymComplex(*x) if len(x) == 2 else SymComplex.lift(x[0])
        return complex(*x)


_BACK = {}


def s_type(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    if isinstance(x, bool):
        return SBool
    for real, shim in ((float, SFloat), (int, SInt), (str, SStr),
                       (complex, SComplex)):
        if type(x) is real:
            return shim
    if isinstance(x, SymReal):
        return SFloat
    if isinstance(x, SymInt):
        return SInt
    if isinstance(x, strs.SymStr):
        return SStr
    if isinstance(x, SUTC):
        return UTCShim
    return type(x)


def s_isinstance(x, t):
    if isinstance(t, tuple):
        return any(s_isinstance(x, u) for u in t)
    if t is s_type:
        t = type
    if t is np.ndarray and isinstance(x, arr.SMA):
        return True
    return isinstance(x, t)


def _merge(args):
    return all(core.conc_num(a) or isinstance(a, (SymReal, SymInt))
               for a in args) and any(is_sym(a) for a in args)


def s_max(*a, **k):
    if not k:
        xs = list(a[0]) if len(a) == 1 else list(a)
        if xs and _merge(xs):
            r = xs[0]
            for x in xs[1:]:
                r = core.smax(r, x)
            return r
        return max(xs) if len(a) == 1 else max(*xs)
    return max(*a, **k)


def s_min(*a, **k):
    if not k:
        xs = list(a[0]) if len(a) == 1 else list(a)
        if xs and _merge(xs):
            r = xs[0]
            for x in xs[1:]:
                r = core.smin(r, x)
            return r
        return min(xs) if len(a) == 1 else min(*xs)
    return min(*a, **k)


def s_print(*a, **k):
    pass


def s_range(*a):
    return range(*[operator.index(unwrap0(x)) for x in a])


def s_round(x, n=None):
    return round(x) if n is None else round(x, n)


class ModProxy(types.ModuleType):
    """a real module with some attributes replaced"""

    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(over)
        self.__dict__.setdefault('__path__', getattr(real, '__path__', []))

    def __getattr__(self, n):
        return getattr(self.__dict__['_real'], n)


class Dummy:
    """stands in for plotting and logging objects: every use is a no-op"""

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return self

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return self

    def __iter__(self):
        return iter((self, self))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class DummyModule(types.ModuleType):
    def __init__(self, name):
        super().__init__(name)
        self.__dict__['__path__'] = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Dummy()


class World:
    """one set of loaded modules.  `over` maps dotted import names to
    replacement modules, e.g. {'h5py': stub}."""

    def __init__(self, over=None, src=None):
        self.src = src or SRC
        self.mods = {}
        self.np = NP()
        self.over = dict(default_over(self))
        self.over.update(over or {})
        self.functions = {}
        b = dict(vars(builtins))
        b.update({
            '__import__': self._import, 'float': SFloat, 'int': SInt,
            'str': SStr, 'bool': SBool, 'complex': SComplex,
            'type': s_type, 'isinstance': s_isinstance, 'max': s_max,
            'min': s_min, 'print': s_print, 'range': s_range})
        self.builtins = b
        self.sources = {}

    # ---- imports
    def _import(self, name, globals=None, locals=None, fromlist=(),
                level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = f'{pkg}.{name}' if name else pkg
        if name in OBSPY:
            m = self.load(name)
            return m if fromlist else self.over['obspy']
        if name == 'seismic' or name.startswith('seismic.'):
            m = self.load(name)
            for f in fromlist or ():
                if f != '*' and not hasattr(m, f):
                    try:
                        setattr(m, f, self.load(name + '.' + f))
                    except ModuleNotFoundError:
                        pass
            return m if fromlist else self.mods['seismic']
        if name in self.over:
            m = self.over[name]
            if fromlist or '.' not in name:
                return m
            top = name.split('.')[0]
            t = self.over.get(top)
            if t is None:
                t = ModProxy(importlib.import_module(top), {})
                self.over[top] = t
            cur = t
            parts = name.split('.')
            for i in range(1, len(parts)):
                full = '.'.join(parts[:i + 1])
                nxt = self.over.get(full)
                if nxt is None:
                    nxt = ModProxy(importlib.import_module(full), {})
                cur.__dict__[parts[i]] = nxt
                cur = nxt
            return t
        top = name.split('.')[0]
        if top in ('matplotlib', 'tqdm', 'cartopy', 'mpl_toolkits'):
            if top == 'tqdm':
                m = types.ModuleType('tqdm')
                m.tqdm = lambda x=None, *a, **k: x
                m.__path__ = []
                return m
            return DummyModule(name)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def path_of(self, name):
        if name in OBSPY:
            return importlib.util.find_spec(name).origin, False
        p = os.path.join(self.src, *name.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.isdir(p):
            return None, True
        raise ModuleNotFoundError(name)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name.startswith('seismic.plot'):
            m = DummyModule(name)
            self.mods[name] = m
            return m
        path, pkg = self.path_of(name)
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.builtins
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.join(self.src, *name.split('.'))]
        self.mods[name] = m
        parent = name.rpartition('.')[0]
        if parent and name not in OBSPY:
            pm = self.load(parent)
            setattr(pm, name.rpartition('.')[2], m)
        if path is None:
            return m
        m.__file__ = path
        with open(path) as f:
            text = f.read()
        if name not in OBSPY:
            self.sources[os.path.relpath(path, self.src)] = \
                hashlib.sha256(text.encode()).hexdigest()[:16]
        tree = ast.parse(text, path)
        tree = ast.fix_missing_locations(Instrument().visit(tree))
        m.__dict__.update({'_sx_fstr': strs.fstr, '_sx_mod': strs.strmod,
                           '_sx_meth': strs.meth, '_sx_item': arr.item, '_sx_in': strs.contains})
        exec(compile(tree, path, 'exec'), m.__dict__)
        return m


class LazyObspy(ModProxy):
    """obspy package whose Trace, Stream and Stats are the world's own"""

    def __init__(self, real, over, world):
        super().__init__(real, over)
        self.__dict__['_w'] = world

    def __getattr__(self, n):
        full = self.__dict__['_real'].__name__ + '.' + n
        if full in OBSPY:
            return self._w.load(full)
        if n in ('Trace', 'Stats', 'trace'):
            m = self._w.load('obspy.core.trace')
            return m if n == 'trace' else getattr(m, n)
        if n in ('Stream', 'stream'):
            m = self._w.load('obspy.core.stream')
            return m if n == 'stream' else getattr(m, n)
        return getattr(self.__dict__['_real'], n)


def default_over(world):
    import obspy
    import obspy.core
    import obspy.core.utcdatetime
    import obspy.geodetics
    from . import stubs
    o = {'numpy': world.np, 'numpy.fft': world.np.fft,
         'numpy.linalg': world.np.linalg}
    ut = {'UTCDateTime': UTCShim}
    o['obspy'] = LazyObspy(obspy, ut, world)
    o['obspy.core'] = LazyObspy(obspy.core, ut, world)
    import obspy.core.util.misc as um

    def flat_not_masked_contiguous(a):
        if not isinstance(a, arr.SMA):
            return um.flat_not_masked_contiguous(a)
        out, i = [], 0
        m = [bool(x) for x in a.mask.flat_list()]
        while i < len(m):
            if m[i]:
                i += 1
                continue
            e = i
            while e < len(m) and not m[e]:
                e += 1
            out.append(slice(i, e))
            i = e
        return out
    o['obspy.core.util.misc'] = ModProxy(um, {
        'flat_not_masked_contiguous': flat_not_masked_contiguous})
    import obspy.core.util.base as ub

    def from_entry_point(group, kind):
        f = ub._get_function_from_entry_point(group, kind)
        name = f.__module__
        if name in OBSPY:
            return getattr(world.load(name), f.__name__)
        if name.startswith('scipy.signal'):
            return getattr(world.over['scipy.signal'], f.__name__)
        return f
    o['obspy.core.util.base'] = ModProxy(ub, {
        '_get_function_from_entry_point': from_entry_point})
    o['obspy.signal'] = LazyObspy(
        importlib.import_module('obspy.signal'), {}, world)
    o['obspy.core.utcdatetime'] = ModProxy(obspy.core.utcdatetime, ut)

    def gps2dist_azimuth(*a):
        if any(is_sym(x) for x in a):
            return tuple(core.uf('gps_' + n, *a)
                         for n in ('dist', 'az', 'baz'))
        return obspy.geodetics.gps2dist_azimuth(*a)

    def locations2degrees(*a):
        b = [stubs._unsym(x) if stubs._conc(x) else x for x in a]
        return obspy.geodetics.locations2degrees(*b)
    geo = {'gps2dist_azimuth': gps2dist_azimuth,
           'locations2degrees': locations2degrees}
    o['obspy.geodetics'] = ModProxy(obspy.geodetics, geo)
    o['obspy.geodetics.base'] = ModProxy(obspy.geodetics.base, geo)
    o['fnmatch'] = stubs.FNMATCH()
    o['os.path'] = strs.ospath()
    o['os'] = ModProxy(os, {'path': o['os.path']})
    o['ast'] = stubs.astmod()
    o.update(stubs.scipy_over(world))
    return o
