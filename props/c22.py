"""From stored correlations to saved measurements."""
import inspect
import math
import numpy as np
from symx.run import harness
from .common import NoLog, patched


class Stats(dict):
    __getattr__ = dict.__getitem__

    def __deepcopy__(self, memo):
        return Stats(self)


class Bulk:
    """Stands for a correlation matrix: knows what was done to the data and
    has the interface (and in-place behaviour) of the real one."""

    def __init__(self, world, ops, stats):
        self.w, self.ops, self.stats = world, list(ops), stats

    @property
    def data(self):
        class D:
            pass
        d = D()
        t = [o for o in self.ops if o[0] == 'trim']
        d.shape = (2, self.w['width'](t[-1][1:] if t else None))
        return d

    def _args(self, name, a, k):
        f = getattr(self.w['real'], name)
        b = inspect.signature(f).bind(self, *a, **k)
        b.apply_defaults()
        b = dict(b.arguments)
        b.pop('self')
        return b

    def copy(self):
        return Bulk(self.w, self.ops, Stats(self.stats))

    def _do(self, name, a, k):
        self.ops.append((name, *self._args(name, a, k).values()))
        return self

    def normalize(self, *a, **k):
        return self._do('normalize', a, k)

    def filter(self, *a, **k):
        return self._do('filter', a, k)

    def smooth(self, *a, **k):
        return self._do('smooth', a, k)

    def mirror(self, *a, **k):
        return self._do('mirror', a, k)

    def trim(self, *a, **k):
        return self._do('trim', a, k)

    def resample(self, *a, **k):
        b = self._args('resample', a, k)
        self.ops.append(('resample', b['starttimes'], b['endtimes']))
        return self

    def extract_multi_trace(self, *a, **k):
        b = self._args('extract_multi_trace', a, k)
        return ('reference', list(self.ops), b)

    def extract_trace(self, *a, **k):
        b = self._args('extract_trace', a, k)
        return ('trace', list(self.ops), b)

    def stretch(self, *a, **k):
        b = self._args('stretch', a, k)
        dv = DV(self.w, len(self.w['measured']))
        self.w['measured'].append((list(self.ops), b, dv))
        return dv

    def correct_stretch(self, dv):
        self.ops.append(('corrected', dv.n))
        return self

    def wfc(self, *a, **k):
        b = self._args('wfc', a, k)
        if b['freq_max'] == self.w.get('bad'):
            raise ValueError('bad')
        x = W(self.w, list(self.ops), b)
        self.w['measured'].append(x)
        return x


class DV:
    def __init__(self, w, n):
        self.w, self.n, self.ops = w, n, []
        self.stats = Stats(network='N', station='S', channel='C')

    def smooth_sim_mat(self, **k):
        self.ops.append(('smooth_sim_mat', k))
        return self

    def save(self, f):
        self.w['saved'].append((f, self.n, list(self.ops)))

    def plot(self, **k):
        self.w['plotted'].append(self.n)


class W:
    def __init__(self, w, ops, args):
        self.w, self.ops, self.args, self.mean = w, ops, args, False

    def compute_average(self):
        self.mean = True

    def save(self, f):
        self.w['saved'].append((f, self))


class Corrs:
    def __init__(self, w, ops, stats):
        self.w, self.ops, self.stats = w, ops, stats

    def __getitem__(self, i):
        class T:
            pass
        t = T()
        t.stats = self.stats
        return t

    def pop_at_utcs(self, **k):
        return Corrs(self.w, self.ops + [('pop_at_utcs', k)], self.stats)

    def select_time(self, **k):
        return Corrs(self.w, self.ops + [('select_time', k)], self.stats)

    def create_corr_bulk(self, network=None, station=None, channel=None,
                         location=None, times=None, inplace=False):
        cst = Stats(sampling_rate=self.w['sr'], start_lag=-self.w['lag'],
                    end_lag=self.w['lag'])
        return Bulk(self.w, self.ops, cst)


def mkmon(cx, m, w, opts, lts, stats):
    class CDB:
        def __init__(self, f, *a, **k):
            w['file'] = f

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def get_data(self, network, station, channel, tag, *a, **k):
            w['read'] = (w['file'], tag, network, station, channel)
            return Corrs(w, [], stats)

        def get_corr_options(self):
            return {'corr_args': {'lengthToSave': lts}}
    o = object.__new__(m.Monitor)
    o.logger = NoLog()
    o.options, o.outdir, o.rank = opts, 'out', 0
    o.starttimes, o.endtimes = ('starts',), ('ends',)
    return o, CDB


class TStats:
    pass


PRE = {'none': None,
       'select': [{'function': 'select_time', 'args': {'start': 1}}],
       'all': [{'function': 'smooth', 'args': {'wsize': 3}},
               {'function': 'pop_at_utcs', 'args': {'utcs': 2}},
               {'function': 'mirror', 'args': {}}]}


def same(cx, a, b):
    if len(a) != len(b):
        return False
    r = []
    for x, y in zip(a, b):
        if isinstance(x, (tuple, list)):
            if not isinstance(y, (tuple, list)):
                return False
            r.append(same(cx, x, y))
        else:
            r.append(cx.eq(x, y) if not isinstance(x, (str, dict, bool))
                     and x is not None and y is not None else x == y)
    return cx.land(*r) if r else True


@harness('C22', 'velocity', cost=3, quick=[
    dict(tt=tt, coda=c) for tt in ('off', 'on', 'no distance')
    for c in (False, True)])
def velocity(cx, tt, coda):
    """the whole measurement of one correlation"""
    m = cx.mod('seismic.monitor.monitor')
    ms = cx.mod('seismic.correlate.stream')
    on = tt == 'on'
    sr = cx.pick('sr', [1., 2.][:1 if on else 2])
    t0 = cx.real('tw_start', 0, 4)
    tl = None if coda else cx.real('tw_len', .5, 2)
    lag = cx.pick('lag', [4., 2.][:1 if on else 2])
    lts = lag
    stats = TStats()
    tr_t = 0
    if tt != 'no distance':
        stats.dist = cx.real('dist', 0, 3)
        stats.stel, stats.evel = cx.real('stel', -2000, 4000), 1000.
    v = cx.pick('velocity', [1., 2.])
    wide = cx.int('width', 0, 40)
    w = dict(real=ms.CorrBulk, measured=[], saved=[], plotted=[], sr=sr,
             lag=lag, width=lambda t: wide)
    pre = cx.pick('preprocessing', ['none', 'select', 'all'][:1 if on else 3])
    post = cx.pick('postprocessing', [False, True][on:])
    plot = cx.pick('plot', [False, True][on:])
    dvo = dict(tw_start=t0, tw_len=tl, compute_tt=tt != 'off',
               rayleigh_wave_velocity=v, freq_min=.1, freq_max=.2,
               dt_ref={'win_inc': 0, 'method': 'mean', 'percentile': 50},
               stretch_steps=11, stretch_range=.2, sides='left',
               return_sim_mat=True, plot_vel_change=plot)
    if pre != 'none':
        dvo['preprocessing'] = PRE[pre]
    if post:
        dvo['postprocessing'] = [{'function': 'smooth_sim_mat',
                                  'args': {'win_len': 3}}]
    custom = cx.pick('own reference', [False, True][:2 - on])
    o, CDB = mkmon(cx, m, w, dict(dv=dvo, proj_dir='p', fig_subdir='f'),
                   lts, stats)
    ref = ('own',) if custom else None
    # the start of the window
    start = t0
    if tt == 'on':
        d2 = stats.dist * stats.dist + ((stats.stel - 1000.) / 1000.) * (
            (stats.stel - 1000.) / 1000.)
        k = cx.int('travel', 0, 5)
        # k seconds, rounded
        cx.assume(cx.lt(d2, ((k + .499) * v) * ((k + .499) * v)))
        cx.assume(cx.lor(k == 0, cx.lt(
            ((k - .499) * v) * ((k - .499) * v), d2)))
        start = t0 + k
    try:
        with patched(m, CorrelationDataBase=CDB):
            if custom:
                o.compute_velocity_change('file', 'subdivision', 'n-n', 's-s',
                                          'c-c', ref)
            else:
                o.compute_velocity_change('file', 'subdivision', 'n-n', 's-s',
                                          'c-c')
        ok = True
    except ValueError:
        ok = False
    end = lag if coda else start + tl
    fits = cx.land(cx.le(end, lts), wide > 20)
    if coda:
        fits = cx.land(cx.le(start, lts), wide > 20)
    cx.check('refused if it does not fit', fits if ok else cx.lnot(fits))
    cx.check('settings untouched', same(cx, [dvo['tw_start'], dvo['tw_len']],
                                        [t0, tl]))
    if not ok:
        cx.check('nothing saved', not w['saved'] and not w['plotted'])
        return
    cx.check('read', w['read'] == ('file', 'subdivision', 'n-n', 's-s',
                                   'c-c'))
    base = [('normalize', 'absmax'), ('resample', ('starts',), ('ends',)),
            ('filter', (.1, .2))]
    steps = PRE[pre] or []
    first = [(s['function'], s['args']) for s in steps
             if s['function'] in ('pop_at_utcs', 'select_time')]
    later = [s['function'] for s in steps
             if s['function'] in ('smooth', 'mirror')]
    cx.check('two measurements', len(w['measured']) == 2)
    for i, (ops, b, dv) in enumerate(w['measured']):
        names = [x[0] for x in ops]
        trims = [x for x in ops if x[0] == 'trim']
        cx.check('uncorrected data measured', 'corrected' not in names)
        cx.check('steps', [n for n in names if n != 'trim'] == [
            f[0] for f in first] + [x[0] for x in base] + later)
        k = len(first)
        cx.check('arguments', cx.land(
            ops[:k] == first, 'absmax' in ops[k], ops[k + 1] == base[1],
            tuple(ops[k + 2][1]) == (.1, .2)))
        if not coda:
            cx.check('trimmed', len(trims) == 1)
            cx.check('trim', same(cx, trims[0][1:3], (-end, end)))
        else:
            for t in trims:
                cx.check('trim', same(cx, t[1:3], (-lag, lag)))
        cx.check('reference trimmed alike',
                 same(cx, b['ref_tr_trim'], (-end, end)))
        cx.check('settings', b['stretch_steps'] == 11
                 and b['stretch_range'] == .2 and b['sides'] == 'left')
        tw = b['tw'][0]
        # window samples: first at the start, last before the end
        n = len(tw)
        cx.check('window', cx.land(*[
            cx.eq(tw[j], start * sr + j) for j in range(n)]))
        cx.check('window end', cx.land(
            cx.lor(n == 0, cx.lt(start * sr + n - 1, end * sr)),
            cx.le(end * sr, start * sr + n)))
        r = b['ref_trc']
        if custom:
            cx.check('own reference', r == ref)
        else:
            cx.check('reference', r[0] == 'reference')
            rn = [x[0] for x in r[1]]
            cx.check('reference before trimming', 'trim' not in rn)
            cx.check('reference data', rn == [
                f[0] for f in first] + [x[0] for x in base] + later + (
                    ['corrected'] if i else []))
            if i:
                cx.check('corrected by the first', r[1][-1][1] == 0)
            cx.check('reference settings', all(
                r[2][x] == y for x, y in dvo['dt_ref'].items()))
    cx.check('similarity matrix', w['measured'][1][1]['return_sim_mat'])
    want = [('smooth_sim_mat', {'win_len': 3})] * post
    cx.check('saved', w['saved'] == [('out/DV-n-n.s-s.c-c', 1, want)])
    cx.check('plotted', w['plotted'] == [1] * plot)


@harness('C22', 'coherence', cost=2, quick=[
    dict(bands=1, wins=1), dict(bands=2, wins=2), dict(bands=1, wins=2),
    dict(bands=3, wins=1)],
    thorough=[dict(bands=3, wins=3)])
def coherence(cx, bands, wins):
    """each frequency band and lapse time window is evaluated on its own"""
    m = cx.mod('seismic.monitor.monitor')
    ms = cx.mod('seismic.correlate.stream')
    sr = cx.pick('sr', [1., 4.])
    save = cx.pick('save', [False, True])

    def num(name, lo, hi, v):
        # the names of the files are texts
        return v if save else cx.real(name, lo, hi)
    fl = [num(f'f{i}', 0, 1, .5) for i in range(bands)]
    fh = [num(f'g{i}', 0, 1, .6 + .1 * i) for i in range(bands)]
    ts = [num(f'start{i}', 0, 2, .5 * i) for i in range(wins)]
    same_len = cx.pick('one length', [False, True])
    ls = [num(f'len{i}', .25, 1.5, 1.5 - .25 * i) for i in range(
        1 if same_len else wins)]
    lens = ls * wins if same_len else ls
    pre = cx.pick('preprocessing', ['none', 'all'])
    scal = cx.pick('scalars', [False, True]) if bands * wins == 1 else False
    short = cx.pick('too short', range(-1, wins))
    bad = cx.pick('fails', range(-1, bands)) if bands > 1 else -1
    # different bands and windows
    for i in range(bands):
        for j in range(i):
            cx.assume(cx.lnot(cx.eq(fh[i], fh[j])))
    for i in range(wins):
        for j in range(i):
            cx.assume(cx.lnot(cx.eq(ts[i], ts[j])))
    for i in range(wins):
        if short >= 0 and i != short:
            cx.assume(cx.lnot(cx.eq(ts[i] + lens[i],
                                    ts[short] + lens[short])))

    def width(t):
        if short >= 0 and cx.eq(t[1], ts[short] + lens[short]):
            return 20
        return 21
    w = dict(real=ms.CorrBulk, measured=[], saved=[], sr=sr, lag=9.,
             width=width, bad=fh[bad] if bad >= 0 else None)
    o = dict(subdir='wfc', start_date='s', end_date='e', date_inc=1,
             win_len=2, freq_min=fl[0] if scal else fl,
             freq_max=fh[0] if scal else fh, tw_start=ts[0] if scal else ts,
             tw_len=ls[0] if same_len else ls, save_comps=save,
             dt_ref={'win_inc': 0, 'method': 'mean', 'percentile': 50})
    if pre != 'none':
        o['preprocessing'] = PRE[pre]
    mon, CDB = mkmon(cx, m, w, dict(wfc=o, proj_dir='p'), 9., TStats())
    mon.rank = 1
    got = []
    try:
        with patched(m, CorrelationDataBase=CDB, make_time_list=lambda *a: (
                ('starts',) + a, ('ends',) + a)):
            for x in mon.compute_waveform_coherence(
                    'file', 'subdivision', 'n-n', 's-s', 'c-c'):
                got.append(x)
        ok = True
    except ValueError:
        ok = False
    good = cx.land(*[cx.lt(a, b) for a, b in zip(fl, fh)])
    cx.check('bands', good if ok else cx.lnot(good))
    if not ok:
        return
    cx.check('read', w['read'] == ('file', 'subdivision', 'n-n', 's-s',
                                   'c-c'))
    want = [(i, j) for i in range(bands) if i != bad
            for j in range(wins) if j != short]
    cx.check('all combinations', len(got) == len(want))
    cx.check('saved', [x for _, x in w['saved']] == (got if save else []))
    cx.check('one file each', len({f for f, _ in w['saved']}) == len(
        w['saved']))
    steps = PRE[pre] or []
    first = [(s['function'], s['args']) for s in steps
             if s['function'] in ('pop_at_utcs', 'select_time')]
    later = [s['function'] for s in steps
             if s['function'] in ('smooth', 'mirror')]
    k = len(first)
    for x, (i, j) in zip(got, want):
        names = [a[0] for a in x.ops]
        cx.check('averaged', x.mean)
        cx.check('steps', names == [f[0] for f in first] + [
            'normalize', 'resample', 'filter'] + later + ['trim'])
        end = ts[j] + lens[j]
        dates = ('s', 'e', 1, 2)
        cx.check('arguments', cx.land(
            x.ops[:k] == first, 'absmax' in x.ops[k],
            x.ops[k + 1] == ('resample', ('starts',) + dates,
                             ('ends',) + dates),
            same(cx, x.ops[k + 2][1], (fl[i], fh[i])),
            same(cx, x.ops[-1][1:3], (-end, end))))
        b = x.args
        cx.check('reference', b['ref_trc'][1] == x.ops and all(
            b['ref_trc'][2][y] == z for y, z in o['dt_ref'].items()))
        cx.check('labels', same(cx, [b['tw_start'], b['tw_len'],
                                     b['freq_min'], b['freq_max']],
                                [ts[j], lens[j], fl[i], fh[i]]))
        tw = b['time_window'][0]
        n = len(tw)
        cx.check('window', cx.land(*[
            cx.eq(tw[q], ts[j] * sr + q) for q in range(n)]))
        cx.check('window end', cx.land(
            cx.lor(n == 0, cx.lt(ts[j] * sr + n - 1, end * sr)),
            cx.le(end * sr, ts[j] * sr + n)))


@harness('C22', 'times', quick=[dict(n=4)], thorough=[dict(n=9)])
def times(cx, n):
    """windows from the first to the last date"""
    m = cx.mod('seismic.monitor.monitor')
    a, b = cx.time('start', 0, 50), cx.time('end', 0, 50)
    inc, win = cx.real('inc', -2, 50), cx.real('win', -2, 50)
    cx.assume(cx.lor(cx.le(inc, 0.), cx.le(
        float(1) * (b.timestamp - a.timestamp), n * inc)))
    bad = cx.lor(cx.le(inc, 0.), cx.le(win, 0.),
                 cx.le(b.timestamp, a.timestamp))
    try:
        s, e = m.make_time_list(a, b, inc, win)
        ok = True
    except ValueError:
        ok = False
    cx.check('refused', cx.lnot(bad) if ok else bad)
    if not ok:
        return
    k = len(s)
    cx.check('number', k >= 1 and len(e) == k)
    t0 = a.timestamp
    cx.close('starts', list(s), [t0 + i * inc for i in range(k)], 1e-5)
    cx.close('ends', list(e), [t0 + i * inc + win for i in range(k)], 1e-5)
    cx.check('last', cx.land(
        cx.le(t0 + (k - 1) * inc, b.timestamp + 1e-5),
        cx.le(b.timestamp - 1e-5, t0 + k * inc)))
