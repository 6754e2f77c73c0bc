"""Harness registry, symbolic/concrete contexts, parallel driver, evidence."""
import argparse
import importlib
import json
import math
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np
import z3

from . import core, arr, loader, strs
from .core import (SymReal, SymInt, SymBool, SymComplex, is_sym, ite, land,
                   lor, lnot, implies, s_eq, s_isnan, Explorer, Unsupported,
                   PathInfeasible, BudgetExceeded, EngineStop)
from .times import SUTC

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOL = 1e-6


class Harness:
    def __init__(self, prop, name, fn, quick, thorough, over, opts):
        self.prop, self.name, self.fn = prop, name, fn
        self.quick, self.thorough = quick, thorough
        self.over, self.opts = over, opts


REG = {}


def harness(prop, name, quick=({},), thorough=(), over=None, **opts):
    """thorough parameter sets are run in addition to the quick ones"""
    def d(fn):
        REG[(prop, name)] = Harness(
            prop, name, fn, list(quick), list(thorough), over, opts)
        return fn
    return d


class Violation(BaseException):
    def __init__(self, label, detail=''):
        super().__init__(label)
        self.label = label
        self.detail = detail


class ReplaySkip(BaseException):
    pass


class Expected(Exception):
    pass


# ---------------------------------------------------------------- contexts
class Base:
    ite = staticmethod(ite)
    land = staticmethod(land)
    lor = staticmethod(lor)
    lnot = staticmethod(lnot)
    implies = staticmethod(implies)
    isnan = staticmethod(s_isnan)

    @staticmethod
    def count(bs):
        return arr.l_count(list(bs))

    def check(self, label, cond):
        raise NotImplementedError

    def raises(self, label, exc, f, *a, **k):
        """f(*a) must raise one of exc"""
        try:
            f(*a, **k)
        except exc:
            self.check(label, True)
            return True
        self.check(label, False)
        return False

    def reals(self, name, n, lo=-100, hi=100, nan=False):
        return [self.real(f'{name}{i}', lo, hi, nan) for i in range(n)]

    def flat(self, a):
        if isinstance(a, arr.SMA):
            a = a.filled(math.nan)
        if isinstance(a, np.ma.MaskedArray):
            a = a.filled(np.nan)
        if isinstance(a, np.ndarray):
            return list(arr.to_obj(a).reshape(-1))
        if isinstance(a, (list, tuple)):
            out = []
            for x in a:
                out.extend(self.flat(x))
            return out
        return [a]

    def shape(self, a):
        return tuple(np.shape(arr.to_obj(a) if not isinstance(
            a, (np.ndarray,)) else a))

    def eqs(self, label, a, b, shape=True):
        """elementwise equality of arrays / lists / scalars (nan == nan)"""
        if shape and isinstance(a, np.ndarray) and isinstance(
                b, np.ndarray) and a.shape != b.shape:
            self.check(label, False)
            return
        x, y = self.flat(a), self.flat(b)
        if len(x) != len(y):
            self.check(label, False)
            return
        self.check(label, land(*[self.eq(p, q) for p, q in zip(x, y)]))

    def close(self, label, a, b, tol=1e-4):
        """elementwise |a - b| <= tol (used where the encoding carries
        rounded constants)"""
        x, y = self.flat(a), self.flat(b)
        if len(x) != len(y):
            self.check(label, False)
            return
        self.check(label, land(*[
            land(lnot(s_isnan(p)), lnot(s_isnan(q)), p - q <= tol,
                 q - p <= tol) for p, q in zip(x, y)]))

    def near(self, a, b, tol=1e-4):
        return land(lnot(s_isnan(a)), lnot(s_isnan(b)), a - b <= tol,
                    b - a <= tol)

    def dotp(self, a, b):
        return arr.l_sum([p * q for p, q in zip(self.flat(a),
                                                self.flat(b))])


class SymCtx(Base):
    symbolic = True

    def __init__(self, ex, world, params):
        self.ex, self.world, self.params = ex, world, params
        self.np = world.np

    def mod(self, name):
        return self.world.load(name)

    def scratch(self):
        """an empty directory (modelled files are forgotten)"""
        for m in self.world.over.values():
            if callable(m.__dict__.get('reset')):
                m.reset()
        from . import npz
        npz.reset()
        return '/scratch'

    def write(self, path, content):
        """a file that was written by something else"""
        from . import npz
        npz.FILES[path] = content

    def eq(self, a, b):
        return s_eq(a, b)

    def lt(self, a, b):
        return a < b

    def le(self, a, b):
        return a <= b

    def check(self, label, cond):
        self.ex.harness_check(label, cond)

    def assume(self, c):
        self.ex.assume(c)

    def monotone(self):
        """use that exp and log increase"""
        self.ex.monotone = True

    def cover(self, label, cond=True):
        if self.ex.covered.get(label):
            return
        c = core.truth(cond)
        if c is False:
            return
        r, _ = self.ex._check(None if c is True else c.t, self.ex.feas_ms)
        if r == z3.sat:
            self.ex.covered[label] = True

    def _reg(self, name, v):
        if name in self.ex.inputs:
            raise RuntimeError('duplicate input ' + name)
        self.ex.inputs[name] = v
        return v

    def real(self, name, lo=-100, hi=100, nan=False):
        v = z3.Real(name)
        if lo is not None:
            self.ex.add(v >= core.rval(lo))
        if hi is not None:
            self.ex.add(v <= core.rval(hi))
        n = z3.Bool(name + '#nan') if nan else False
        return self._reg(name, SymReal(n, v))

    def int(self, name, lo, hi):
        v = z3.Int(name)
        self.ex.add(z3.And(v >= lo, v <= hi))
        return self._reg(name, SymInt(v))

    def bool(self, name):
        return self._reg(name, SymBool(z3.Bool(name)))

    def pick(self, name, options):
        """a concrete member of options, chosen by the explorer"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[i.__index__()]

    def arr(self, name, shape, lo=-100, hi=100, nan=False):
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object)
        for p in np.ndindex(*shape):
            out[p] = self.real(
                name + '_' + '_'.join(map(str, p)), lo, hi, nan)
        return out.view(arr.SArr)

    def barr(self, name, n):
        return arr.sarr([self.bool(f'{name}{i}') for i in range(n)])

    def string(self, name, n, alphabet='AB'):
        """string of exactly n characters from the alphabet range"""
        lo, hi = min(map(ord, alphabet)), max(map(ord, alphabet))
        cs = []
        for i in range(n):
            v = z3.Int(f'{name}${i}')
            if hi - lo + 1 == len(set(alphabet)):
                self.ex.add(z3.And(v >= lo, v <= hi))
            else:
                self.ex.add(z3.Or(*[v == ord(c) for c in set(alphabet)]))
            cs.append(v)
        return self._reg(name, strs.SymStr(cs)) if n else ''

    def time(self, name, lo=0, hi=1e6):
        return SUTC._mk(self.real(name, lo, hi))

    def utc(self, x):
        from .times import UTCShim
        return UTCShim(x)

    def date(self, x):
        from .times import SDate
        return SDate._mk(x)

    def tovals(self, a):
        return arr.sarr(a)


class ConcCtx(Base):
    symbolic = False
    np = np

    def __init__(self, inputs, params, rng=None):
        self.inputs, self.params, self.rng = inputs, params, rng
        self.used = {}
        self.labels = []
        self.tmp = None

    def mod(self, name):
        return importlib.import_module(name)

    def scratch(self):
        import tempfile
        self.tmp = tempfile.mkdtemp(prefix='symx')
        return self.tmp

    def write(self, path, content):
        with open(path, 'wb') as f:
            f.write(content)

    def eq(self, a, b):
        return conc_eq(a, b)

    def lt(self, a, b):
        return a < b

    def le(self, a, b):
        try:
            return bool(a <= b) or conc_eq(a, b)
        except TypeError:
            return bool(a <= b)

    def check(self, label, cond):
        self.labels.append(label)
        if isinstance(cond, np.ndarray):
            cond = cond.all()
        if not cond:
            raise Violation(label)

    def assume(self, c):
        if not c:
            raise ReplaySkip('assume')

    def monotone(self):
        pass

    def cover(self, label, cond=True):
        pass

    def _get(self, name, draw):
        if name in self.used:
            raise RuntimeError('duplicate input ' + name)
        if self.rng is not None:
            v = draw(self.rng)
        else:
            v = self.inputs.get(name)
            if v is None:
                v = draw(random.Random(0))
        self.used[name] = v
        return v

    def real(self, name, lo=-100, hi=100, nan=False):
        def draw(r):
            if nan and r.random() < .25:
                return math.nan
            a = -1000 if lo is None else lo
            b = 1000 if hi is None else hi
            c = r.random()
            if c < .5:
                # few distinct small values make ties likely
                a2, b2 = max(a, -3), min(b, 3)
                if a2 <= b2:
                    a, b = a2, b2
            x = Fraction(r.randint(math.ceil(a * 4), math.floor(b * 4)), 4) \
                if math.ceil(a * 4) <= math.floor(b * 4) else Fraction(a)
            return float(x)
        return float(self._get(name, draw))

    def int(self, name, lo, hi):
        return int(self._get(name, lambda r: r.randint(lo, hi)))

    def bool(self, name):
        return bool(self._get(name, lambda r: r.random() < .5))

    def pick(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    def arr(self, name, shape, lo=-100, hi=100, nan=False):
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape)
        for p in np.ndindex(*shape):
            out[p] = self.real(
                name + '_' + '_'.join(map(str, p)), lo, hi, nan)
        return out

    def barr(self, name, n):
        return np.array([self.bool(f'{name}{i}') for i in range(n)],
                        dtype=bool)

    def string(self, name, n, alphabet='AB'):
        if not n:
            return ''
        return self._get(name, lambda r: ''.join(
            r.choice(alphabet) for _ in range(n)))

    def time(self, name, lo=0, hi=1e6):
        from obspy import UTCDateTime
        return UTCDateTime(self.real(name, lo, hi))

    def utc(self, x):
        from obspy import UTCDateTime
        return UTCDateTime(x)

    def date(self, x):
        from obspy import UTCDateTime
        return UTCDateTime(x).datetime

    def tovals(self, a):
        return np.array(a)


def conc_eq(a, b, tol=TOL):
    if a is None or b is None:
        return a is b
    from obspy import UTCDateTime
    if isinstance(a, UTCDateTime) and isinstance(b, UTCDateTime):
        return abs(a - b) < 2e-6
    num = (int, float, complex, np.number, bool, np.bool_)
    if isinstance(a, num) and isinstance(b, num):
        if np.isnan(a) or np.isnan(b):
            return bool(np.isnan(a) and np.isnan(b))
        if a == b:
            return True
        return bool(abs(a - b) <= tol * (1 + max(abs(a), abs(b))))
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return conc_eq(a.item(), b)
    if isinstance(b, np.ndarray) and b.ndim == 0:
        return conc_eq(a, b.item())
    r = (a == b)
    if isinstance(r, np.ndarray):
        return r.shape != (0,) and bool(r.all())
    return bool(r)


# ---------------------------------------------------------------- models
def model_value(m, v):
    if isinstance(v, SymReal):
        if v.nan is not False and z3.is_true(
                m.eval(core.zb(v.nan), model_completion=True)):
            return math.nan
        t = m.eval(v.val, model_completion=True)
        if z3.is_algebraic_value(t):
            t = t.approx(30)
        return float(Fraction(t.numerator_as_long(),
                              t.denominator_as_long()))
    if isinstance(v, SymInt):
        return m.eval(v.t, model_completion=True).as_long()
    if isinstance(v, SymBool):
        return bool(z3.is_true(m.eval(v.t, model_completion=True)))
    if isinstance(v, strs.SymStr):
        return ''.join(c if isinstance(c, str) else chr(
            m.eval(c, model_completion=True).as_long()) for c in v.ch)
    raise TypeError(type(v))


def model_inputs(m, inputs):
    return {n: model_value(m, v) for n, v in inputs.items()}


# ---------------------------------------------------------------- tracing
TOOL = 3


class FuncTrace:
    """names of the functions of the code under test that were entered"""

    def __init__(self, src):
        self.src, self.seen = src, set()

    def __enter__(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(TOOL, 'symx')
        except ValueError:
            return self

        def start(code, off):
            if code.co_filename.startswith(self.src):
                rel = os.path.relpath(code.co_filename, self.src)
                self.seen.add(rel[:-3].replace('/', '.') + ':'
                              + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(TOOL, mon.events.PY_START, start)
        mon.set_events(TOOL, mon.events.PY_START)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        if mon.get_tool(TOOL) == 'symx':
            mon.set_events(TOOL, 0)
            mon.free_tool_id(TOOL)


# ---------------------------------------------------------------- running
def misfit(e):
    """The exception only says that a stand-in of the harness does not offer
    what the code asks of the real object (e.g. after a refactoring)"""
    if isinstance(e, AttributeError):
        o = getattr(e, 'obj', None)
        mod = getattr(o, '__module__', None) or type(o).__module__
        return str(mod).startswith('props.')
    return isinstance(e, TypeError) and '<locals>' in str(e) and \
        'argument' in str(e)


def run_concrete(h, inputs, params, rng=None):
    """-> ('ok'|'skip'|'violation', label, detail, inputs used)"""
    cx = ConcCtx(inputs, params, rng)
    import io
    import contextlib
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'), \
                contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            warnings.simplefilter('ignore')
            h.fn(cx, **params)
    except Violation as v:
        return 'violation', v.label, v.detail, cx
    except ReplaySkip:
        return 'skip', '', '', cx
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = any('/seismic/' in f.filename for f in tb)
        d = f'{type(e).__name__}: {e} at {tb[-1].filename}:{tb[-1].lineno}'
        if not inside or misfit(e):
            # raised by the harness itself: never reported as a violation
            # unless the code under test returned something unusable
            return 'error', 'exception:' + type(e).__name__, d, cx
        return 'violation', 'exception:' + type(e).__name__, d, cx
    finally:
        if cx.tmp:
            import shutil
            shutil.rmtree(cx.tmp, ignore_errors=True)
    return 'ok', '', '', cx


def run_task(key, params, tier, seed, deadline):
    h = REG[key]
    t0 = time.time()
    quick = tier == 'quick'
    res = {'harness': h.name, 'params': params, 'violations': [],
           'undecided': [], 'unsupported': [], 'samples': [],
           'validated': 0, 'validate_skips': 0, 'witness_paths': 0,
           'spurious': [], 'outcomes': {}}
    core._cur[0] = None
    ex = Explorer(feas_ms=h.opts.get('feas_ms', 10000),
                  check_ms=h.opts.get('check_ms', 60000 if quick
                                      else 300000),
                  max_paths=h.opts.get('max_paths', 3000 if quick
                                       else 60000),
                  deadline=deadline, seed=seed)
    confirmed = {}
    spurious = {}

    def confirm(label, models):
        """replay candidate models on the real code"""
        if label in confirmed:
            return
        save = core._cur[0]
        core._cur[0] = None
        try:
            for m in models:
                inp = model_inputs(m, ex.inputs)
                st, lab, det, cx = run_concrete(h, inp, params)
                if st == 'violation':
                    confirmed.setdefault(lab, {
                        'label': lab, 'detail': det, 'inputs': inp,
                        'harness': h.name, 'params': params,
                        'found_at': label})
                    confirmed[label] = confirmed[lab]
                    return
            spurious[label] = spurious.get(label, 0) + 1
            if os.environ.get('SYMX_TB') and spurious[label] == 1:
                print('spurious', label, st, det, clean(inp), flush=True)
        finally:
            core._cur[0] = save

    def hcheck(label, cond):
        r = ex.check(cond, label)
        if r is not None:
            confirm(label, r)
    ex.harness_check = hcheck

    world_cache = []
    real_warn = warnings.warn

    def warn(message, *a, **k):
        # the registry of warnings would need the value of the text
        if not isinstance(message, (str, Warning)):
            message = 'text of symbolic values'
        real_warn(message, *a, **k)

    def once():
        if not world_cache or h.opts.get('fresh_world'):
            over = h.over() if h.over else None
            world_cache[:] = [loader.World(over)]
        cx = SymCtx(ex, world_cache[0], params)
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            warnings.warn, save = warn, warnings.warn
            try:
                h.fn(cx, **params)
            finally:
                warnings.warn = save

    rng = random.Random(seed * 7919 + 13)
    maxval = h.opts.get('validate', 6 if quick else 12)

    def on_path(outcome, exc):
        res['outcomes'][outcome] = res['outcomes'].get(outcome, 0) + 1
        if outcome == 'infeasible':
            return
        if outcome in ('exception', 'unsupported'):
            if outcome == 'exception':
                lab = 'exception:' + type(exc).__name__
                tb = traceback.extract_tb(exc.__traceback__)
                det = f'{exc!r} at {tb[-1].filename}:{tb[-1].lineno}'
                if os.environ.get('SYMX_TB'):
                    traceback.print_exception(exc)
            else:
                lab = 'unsupported'
                det = str(exc)
                if os.environ.get('SYMX_TB'):
                    traceback.print_exception(exc)
            m = []
            try:
                if ex._check(None, ex.feas_ms)[0] == z3.unsat:
                    # no input gets here
                    res['outcomes'][outcome] -= 1
                    res['outcomes']['infeasible'] = res['outcomes'].get(
                        'infeasible', 0) + 1
                    return
                m1 = ex.path_model()
                if m1 is not None:
                    m.append(m1)
                m2 = ex.path_model(nice=False)
                if m2 is not None:
                    m.append(m2)
            except BudgetExceeded:
                pass
            before = len(confirmed)
            if m and not ex.inputs.get('__never__'):
                confirm(lab, m)
            if len(confirmed) == before and lab not in confirmed:
                res['unsupported'].append(det)
            if len(confirmed) > 8 or len(res['unsupported']) > 40:
                return 'stop'
            return
        # ordinary end of a path: witness that it is feasible, and push a
        # few models through the real code as validation of the encoding
        if res['validated'] < maxval and (
                ex.paths <= 3 or rng.random() < .3):
            m = ex.path_model()
            if m is not None:
                res['witness_paths'] += 1
                inp = model_inputs(m, ex.inputs)
                save = core._cur[0]
                core._cur[0] = None
                try:
                    st, lab, det, cx = run_concrete(h, inp, params)
                finally:
                    core._cur[0] = save
                if st == 'violation':
                    # the real code fails where the encoding passed
                    confirmed.setdefault(lab, {
                        'label': lab, 'detail': det, 'inputs': inp,
                        'harness': h.name, 'params': params,
                        'found_at': 'validation'})
                elif st == 'ok':
                    res['validated'] += 1
                    if len(res['samples']) < 2:
                        res['samples'].append(clean(inp))
                else:
                    res['validate_skips'] += 1
                    if st == 'error':
                        res['unsupported'].append('replay: ' + det)
        if len(confirmed) > 8:
            return 'stop'

    budget = None
    with FuncTrace(loader.SRC) as ft:
        try:
            ex.explore(once, on_path)
        except BudgetExceeded as e:
            budget = str(e)
        except Exception as e:       # defensive: an engine error
            budget = 'engine: ' + repr(e)
            if os.environ.get('SYMX_TB'):
                traceback.print_exc()
    core._cur[0] = None
    if budget:
        res['undecided'].append('budget: ' + budget)
    for u in sorted(set(ex.unknown)):
        res['undecided'].append('solver unknown: ' + u)
    for u in sorted(set(res['unsupported'])):
        res['undecided'].append('not encoded: ' + u)
    for lab, n in spurious.items():
        if lab not in confirmed:
            res['spurious'].append(lab)
            res['undecided'].append(
                f'counterexample for {lab} did not reproduce')
    missing = [c for c in h.opts.get('covers', ())
               if not ex.covered.get(c)]
    if missing and not confirmed:
        res['undecided'].append('never reached: ' + ', '.join(missing))
    if not ex.reached and not confirmed:
        res['undecided'].append('no assertion reached')
    # what the solver could not decide is at least executed
    res['concrete_runs'] = 0
    if res['undecided'] and not confirmed:
        end = time.time() + (20 if quick else 60)
        n = 0
        rr = random.Random(seed * 31 + 7)
        while n < h.opts.get('fallback', 400) and time.time() < end:
            n += 1
            st, lab, det, cx = run_concrete(h, {}, params, rr)
            if st == 'ok':
                res['concrete_runs'] += 1
            if st == 'violation':
                confirmed[lab] = {
                    'label': lab, 'detail': det, 'inputs': dict(cx.used),
                    'harness': h.name, 'params': params,
                    'found_at': 'concrete fallback'}
                break
    seen = set()
    for v in confirmed.values():
        if v['label'] not in seen:
            seen.add(v['label'])
            res['violations'].append(v)
    res.update(paths=ex.paths, branches=ex.branches, queries=ex.queries,
               solver_s=round(ex.solver_s, 3), unsat=ex.checks_unsat,
               trivial=ex.checks_trivial, labels=dict(ex.reached),
               covered=sorted(ex.covered), functions=sorted(ft.seen),
               wall_s=round(time.time() - t0, 2))
    if world_cache:
        res['sources'] = world_cache[0].sources
    return res


def clean(o):
    if isinstance(o, dict):
        return {str(k): clean(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [clean(v) for v in o]
    if isinstance(o, (float, np.floating)):
        return float(o) if math.isfinite(o) else str(float(o))
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    return o


def unclean(o):
    if isinstance(o, dict):
        return {k: unclean(v) for k, v in o.items()}
    if o in ('nan', 'inf', '-inf'):
        return float(o)
    return o


def _task(a):
    import faulthandler
    faulthandler.disable()
    try:
        return run_task(*a)
    except BaseException as e:
        return {'harness': a[0][1], 'params': a[1], 'crash':
                f'{type(e).__name__}: {e}\n' + traceback.format_exc()}


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                # known: property=C01 harness=x label=y :: text
                head, _, text = line[6:].partition('::')
                kv = dict(t.split('=', 1) for t in head.split())
                kv['text'] = text.strip()
                out.append(kv)
    return out


def main(prop, tier, seed, only=None, jobs=8):
    t0 = time.time()
    meta = json.load(open(os.path.join(VERIF, 'props', 'meta.json')))
    info = meta.get(prop, {})
    limit = info.get('limit_' + tier, 420 if tier == 'quick' else 3000)
    limit = float(os.environ.get('SYMX_LIMIT', limit))
    deadline = t0 + limit
    tasks = []
    for key, h in REG.items():
        if key[0] != prop or (only and h.name != only):
            continue
        ps = list(h.quick)
        if tier == 'thorough':
            ps += [p for p in h.thorough if p not in ps]
        for p in ps:
            tasks.append((key, p, tier, seed, deadline))
    if not tasks:
        print('no harness for', prop, file=sys.stderr)
        return 2
    tasks.sort(key=lambda t: -REG[t[0]].opts.get('cost', 1))
    if jobs == 1:
        results = [_task(t) for t in tasks]
    else:
        ctx = mp.get_context('fork')
        results = []
        with ctx.Pool(min(jobs, len(tasks)), maxtasksperchild=1) as pool:
            its = [pool.apply_async(_task, (t,)) for t in tasks]
            for t, it in zip(tasks, its):
                left = max(5., deadline + 120 - time.time())
                try:
                    results.append(it.get(left))
                except mp.TimeoutError:
                    results.append({'harness': t[0][1], 'params': t[1],
                                    'crash': 'timed out'})
                except Exception as e:
                    results.append({'harness': t[0][1], 'params': t[1],
                                    'crash': repr(e)})
            pool.terminate()
    return report(prop, tier, seed, results, info, time.time() - t0)


def report(prop, tier, seed, results, info, wall):
    os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    known = [k for k in load_known() if k.get('property') == prop]
    new, old = [], {}
    undecided = []
    for r in results:
        if 'crash' in r:
            undecided.append(f"{r['harness']}{r['params']}: {r['crash']}")
            continue
        for u in r['undecided']:
            undecided.append(f"{r['harness']}{r['params']}: {u}")
        for v in r['violations']:
            hit = [k for k in known if k['harness'] == v['harness']
                   and k['label'] == v['label']]
            if hit:
                old[(v['harness'], v['label'])] = hit[0]
            else:
                new.append(v)
    for k in known:
        key = (k['harness'], k['label'])
        if key in old:
            print(f"KNOWN-FINDING: property={prop} {k['text']}")
    seen = set()
    n = 0
    for v in new:
        sig = (v['harness'], v['label'])
        if sig in seen:
            continue
        seen.add(sig)
        path = os.path.join(VERIF, 'out', f'{prop}-{n}.json')
        n += 1
        with open(path, 'w') as f:
            json.dump({'property': prop, 'harness': v['harness'],
                       'params': v['params'], 'inputs': clean(v['inputs']),
                       'label': v['label'], 'detail': v['detail']},
                      f, indent=1)
        print(f"  {v['harness']} {v['params']}: {v['label']} {v['detail']}")
        print(f'VIOLATION property={prop} replay={path}')
    ok = [r for r in results if 'crash' not in r]
    tot = {k: sum(r[k] for r in ok) for k in (
        'paths', 'branches', 'queries', 'unsat', 'trivial', 'validated',
        'concrete_runs')}
    for u in undecided[:20]:
        print('UNDECIDED', u)
    funcs = sorted(set().union(*[set(r['functions']) for r in ok])
                   if ok else [])
    srcs = {}
    for r in ok:
        srcs.update(r.get('sources', {}))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': info.get('level', 'model_checking'),
        'coverage': {
            'states': tot['paths'],
            'transitions': tot['branches'],
            'traces_validated_against_impl': tot['validated'],
            'samples': [{'harness': r['harness'], 'params': clean(
                r['params']), 'inputs': s} for r in ok
                for s in r['samples'][:1]][:12] or [{'none': True}],
            'exhaustive': False,
            'explanation':
                'states = symbolic paths of the real code explored (each '
                'covers every input satisfying its path condition), '
                'transitions = symbolic branch decisions put to the solver; '
                'traces_validated = solver models of paths pushed through '
                'the unmodified code with the same assertions.',
            'obligations_unsat_by_solver': tot['unsat'],
            'obligations_closed_by_simplification': tot['trivial'],
            'solver_queries': tot['queries'],
            'solver_s': round(sum(r['solver_s'] for r in ok), 2),
            'functions_encoded': funcs,
            'source_sha256_prefix': srcs,
            'bounds': info.get('bounds', ''),
            'outside': info.get('outside', ''),
            'undecided': undecided,
            'concrete_fallback_runs': tot['concrete_runs'],
            'harnesses': [{
                'harness': r['harness'], 'params': clean(r['params']),
                'paths': r['paths'], 'queries': r['queries'],
                'unsat': r['unsat'], 'trivial': r['trivial'],
                'solver_s': r['solver_s'], 'wall_s': r['wall_s'],
                'assertions': r['labels'], 'covers': r['covered'],
                'outcomes': r['outcomes'],
            } for r in ok],
        },
        'assumptions': info.get('assumptions', []) + BASE_ASSUMPTIONS,
        'wall_s': round(wall, 2),
        'violations': len(seen),
    }
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: paths={tot['paths']} queries={tot['queries']} "
          f"unsat={tot['unsat']} trivial={tot['trivial']} "
          f"validated={tot['validated']} undecided={len(undecided)} "
          f"violations={len(seen)} wall={wall:.1f}s")
    if seen:
        return 1
    if undecided and os.environ.get('VERIF_STRICT'):
        return 3
    return 0


BASE_ASSUMPTIONS = [
    'floating point numbers are modelled as exact reals plus a '
    'not-a-number flag; infinities are folded into not-a-number; rounding, '
    'overflow and integer dtypes of arrays are outside the claim',
    'numpy/scipy/obspy primitives used by the code are replaced by models '
    'of their documented behaviour (symx/arr.py, npshim.py, stubs.py); '
    'the models are validated by replaying path models on the real code',
]


def replay(path):
    d = json.load(open(path))
    load_props(d['property'])
    h = REG[(d['property'], d['harness'])]
    st, lab, det, cx = run_concrete(
        h, unclean(d['inputs']), d['params'])
    print('replay:', st, lab, det)
    print('inputs:', json.dumps(clean(dict(cx.used))))
    return 1 if st == 'violation' else 0


def load_props(prop=None):
    d = os.path.join(VERIF, 'props')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            if prop and not f.startswith(prop.lower()) and \
                    not f.startswith('x'):
                continue
            importlib.import_module('props.' + f[:-3])


def cli():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get(
        'VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--replay')
    ap.add_argument('--self-test', action='store_true')
    a = ap.parse_args()
    if a.self_test:
        x = z3.Real('x')
        s = z3.Solver()
        s.add(x * x == 2)
        assert s.check() == z3.sat
        loader.World().load('seismic.correlate.stats')
        print('engine ready: z3', z3.get_version_string())
        return 0
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if a.replay:
        return replay(a.replay)
    load_props(a.prop)
    return main(a.prop, a.tier, seed, a.only, a.jobs)
