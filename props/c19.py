"""Aligning curves of velocity change at a given time."""
import math
from symx.run import harness
from .common import mkstats, patched
from .c15 import KEYS


def curve(cx, name, rows, t0, miss=(), proc=None, corr=None, shift=0.):
    """one value per hour"""
    DV = cx.mod('seismic.monitor.dv').DV
    v, c = cx.np.zeros(rows), cx.np.zeros(rows)
    for r in range(rows):
        if r in miss:
            v[r] = c[r] = math.nan
        else:
            v[r] = cx.real(f'{name}v{r}', -1, 1)
            c[r] = cx.real(f'{name}c{r}', .2, .9) if corr is None else corr[r]
    st = mkstats(cx, 5, **dict(zip(KEYS, ('N-N', name, 'Z-Z'))))
    st['corr_start'] = [cx.utc(t0 + 3600. * r + shift) for r in range(rows)]
    st['corr_end'] = [cx.utc(t0 + 3600. * r + 3600.) for r in range(rows)]
    kw = {} if proc is None else dict(dv_processing=proc)
    return DV(c, v, 'stretch', cx.np.zeros((rows, 1)), cx.np.zeros(1), 'm',
              st, **kw)


def nearest(cx, dv, u):
    """point whose start is closest, the earlier of two"""
    best, dist = 0, None
    for r, t in enumerate(dv.stats.corr_start):
        d = t - u
        d = cx.ite(d < 0, -d, d)
        if dist is None or bool(d < dist):
            best, dist = r, d
    return best


def level(cx, v, c, i, steps):
    """mean around a point, weighted by similarity: (sum, weights)"""
    num, den = 0., 0.
    for r in range(max(0, i - steps), min(len(v), i + steps + 1)):
        if not bool(cx.isnan(v[r])):
            num, den = num + v[r] * c[r], den + c[r]
    return num, den


@harness('C19', 'curve', cost=2, quick=[
    dict(rows=3, steps=0), dict(rows=4, steps=1), dict(rows=5, steps=2),
    dict(rows=2, steps=3)],
    thorough=[dict(rows=7, steps=2), dict(rows=6, steps=3)])
def one(cx, rows, steps):
    """the curve is moved so that its level at the time is the target"""
    m = cx.mod('seismic.monitor.spatial')
    miss = cx.pick('missing', [(), (0,), (rows - 1,), tuple(range(1, rows)),
                               tuple(range(rows))])
    proc = {'freq_min': 1., 'tw_len': 4.}
    free = cx.pick('weights', [0, 1])
    dv = curve(cx, 'A', rows, 0., miss, proc,
               None if free else [[.9, .5, .25][r % 3] for r in range(rows)])
    v, c = cx.flat(dv.value.copy()), cx.flat(dv.corr.copy())
    u = cx.utc(cx.real('t', -1800, 3600. * rows))
    i = nearest(cx, dv, u)
    target = cx.real('target', -1, 1)
    if i in miss:
        cx.raises('nothing there', ValueError,
                  lambda: m.align_dv_curves(dv, u, steps, target))
        return
    m.align_dv_curves(dv, u, steps, target)
    num, den = level(cx, v, c, i, steps)
    for r in range(rows):
        if r in miss:
            cx.check('missing', cx.isnan(dv.value[r]))
        else:
            cx.close('moved', (dv.value[r] - v[r] - target) * den, -num,
                     1e-7)
    cx.eqs('similarity', dv.corr, c)
    cx.check('noted', cx.eq(dv.dv_processing['aligned'], target)
             and dv.dv_processing['freq_min'] == 1.)
    cx.check('others', proc == {'freq_min': 1., 'tw_len': 4.})


@harness('C19', 'starts', cost=2, quick=[dict(rows=6), dict(rows=5),
                                         dict(rows=8)])
def starts(cx, rows):
    """is there a usable measurement at this time"""
    m = cx.mod('seismic.monitor.spatial')
    miss = cx.pick('missing', [(), (1,), (0, rows - 1)])
    dv = curve(cx, 'A', rows, 0., miss, {})
    u = cx.utc(cx.real('t', -4000, 3600. * rows + 4000))
    i = cx.pick('free', list(range(rows)))
    if i not in miss:
        dv.corr[i] = cx.real('c', -1, 1)
    thr = cx.real('thr', 0, 1)
    got = m.dv_starts(dv, u, thr)
    if rows - len(miss) < 6:
        cx.check('too short', not got)
        return
    if not (0 <= u - cx.utc(0) and u - cx.utc(0) <= 3600. * rows):
        cx.check('outside', not got)
        return
    j = nearest(cx, dv, u)
    cx.check('available', bool(got) == (j not in miss and bool(cx.land(
        dv.corr[j] >= thr, dv.corr[j] > 1e-3, dv.corr[j] < 1))))


@harness('C19', 'several', cost=3, quick=[dict(first=1), dict(first=0)])
def several(cx, first):
    """each curve to its own value of the grid, once"""
    m = cx.mod('seismic.monitor.spatial')
    rows = 6
    proc = cx.pick('settings', ['own', 'shared', 'none'])
    shared = dict(tw_start=1., tw_len=2., freq_min=1., freq_max=2.)
    dvs, state = [], []
    for i in range(3):
        s = cx.pick(f's{i}', ['ok', ['late', 'aligned', 'one'][i]])
        state.append(s)
        p = {'own': dict(shared), 'shared': shared, 'none': None}[proc]
        if s == 'aligned':
            p = dict(shared, aligned=0.)
        c = [.5] * rows
        if s == 'one':
            # no noise: cannot be used on the grid
            c[2] = 1.
        dv = curve(cx, f'A{i}', rows, 86400. if s == 'late' else 0., (), p, c)
        dvs.append(dv)
    vals = [cx.flat(d.value.copy()) for d in dvs]
    u = cx.utc(3600. * 2 + 100.)
    g = object.__new__(m.DVGrid)
    grid = [cx.real(f'g{i}', -1, 1) for i in range(4)]
    seen = []

    def forward(model, use, utc):
        cx.check('time', utc == u and model == 'model')
        # what has no usable value gets none
        use = [d for d in use if .001 < float(d.corr[2]) < 1.]
        seen.append(use)
        return [grid[int(d.stats.station[1:])] for d in use]
    if not first:
        g.vel_change = 'model'
        g.forward_model = forward
    saved = []
    m_save = cx.mod('seismic.monitor.dv').DV
    with patched(m_save, save=lambda self, f: saved.append((self, f))):
        out = g.align_dvs_to_grid(dvs, u, 1, .3, save=cx.pick(
            'save', [False, '/dir']))
    exp = [d for d, s in zip(dvs, state) if s == 'ok']
    cx.check('aligned', [id(d) for d in out] == [id(d) for d in exp])
    cx.check('saved', saved in ([], [
        (d, f'/dir/DV-{d.stats.id}.npz') for d in exp]))
    for i, d in enumerate(dvs):
        if state[i] != 'ok':
            cx.eqs('others', d.value, vals[i])
            cx.check('others are not aligned', state[i] == 'aligned' or
                     d.dv_processing.get('aligned', False) is False)
            continue
        target = 0. if first else grid[i]
        num, den = level(cx, vals[i], [.5] * rows, 2, 1)
        for r in range(rows):
            cx.close('moved', d.value[r], vals[i][r] + target - num / den,
                     1e-7)
    v2 = [cx.flat(d.value.copy()) for d in dvs]
    again = g.align_dvs_to_grid(dvs, u, 1, .3)
    cx.check('only once', again == [])
    for d, v in zip(dvs, v2):
        cx.eqs('once', d.value, v)
    # a new one is not affected by earlier ones
    if proc == 'none':
        n = curve(cx, 'A3', rows, 0., (), None, [.5] * rows, 1.)
        cx.check('new one', len(g.align_dvs_to_grid([n], u, 1, .3)) == 1)
