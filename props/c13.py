"""Measurements on correlation matrices."""
import math
import numpy as np
from symx.run import harness
from .common import mkstats, seq_sum
from .c12 import window, similarity, check_sim, check_best, spline


def mkbulk(cx, data, sl):
    m = cx.mod('seismic.correlate.stream')
    rows, n = data.shape
    ts = [cx.utc(3600. * i) for i in range(rows)]
    st = mkstats(cx, n, 1., sl, ntrcs=rows, network='A-B', station='C-D',
                 channel='Z-Z', location='-')
    st['corr_start'] = list(ts)
    st['corr_end'] = [t + 3600. for t in ts]
    return m.CorrBulk(data, stats=st), ts


def untouched(cx, cb, orig, sl, ts):
    cx.eqs('data unchanged', cb.data, orig)
    rows, n = orig.shape
    st = cb.stats
    cx.check('axis unchanged', st['npts'] == n and bool(
        cx.eq(st['start_lag'], sl)))
    cx.check('rows unchanged', len(st['corr_start']) == rows and len(
        st['corr_end']) == rows and all(
        bool(cx.eq(a, b)) for a, b in zip(st['corr_start'], ts)))


def belongs(cx, dv, rows, ts):
    cx.check('number of values', cx.shape(dv.value) == (rows,)
             and cx.shape(dv.corr) == (rows,))
    st = dv.stats
    cx.check('codes', (st['network'], st['station'], st['channel']) == (
        'A-B', 'C-D', 'Z-Z'))
    cx.check('times', len(st['corr_start']) == rows and len(
        st['corr_end']) == rows and all(
        bool(cx.land(cx.eq(a, t), cx.eq(b, t + 3600.)))
        for a, b, t in zip(st['corr_start'], st['corr_end'], ts)))
    for i in range(rows):
        cx.check('available', dv.avail[i] == cx.lnot(cx.isnan(dv.corr[i])))


@harness('C13', 'stretch', cost=3, quick=[
    dict(rows=r, n=n, zero=z, sides=s, ref=f) for r, n, z, s, f in (
        (1, 5, 2, 'both', 'full'), (2, 6, 2, 'both', 'full'),
        (1, 6, 3, 'right', 'full'), (1, 7, 3, 'single', 'full'),
        (2, 5, 2, 'left', 'kept'), (1, 7, 3, 'single', 'own'),
        (1, 6, 2, 'both', 'own'))],
    thorough=[dict(rows=2, n=9, zero=z, sides=s, ref='full')
              for z, s in ((4, 'both'), (3, 'both'), (5, 'left'),
                           (2, 'single'))])
def stretch(cx, rows, n, zero, sides, ref):
    """change of each correlation with respect to the reference, on the
    symmetric (or positive) part of the lag axis"""
    A = cx.arr('A', (rows, n), lo=-4, hi=4)
    if ref == 'own':
        A = cx.np.zeros((rows, n))
        A[0, cx.pick('at', list(range(n)))] = 1.
        amp = cx.real('amp', .5, 4)
        A = A * amp
    if rows > 1 and cx.pick('gap', [0, 1]):
        A[1] = float('nan')
    orig = A.copy()
    sl = -float(zero)
    cb, ts = mkbulk(cx, A, sl)
    kw = {}
    if ref != 'own':
        R = cx.np.zeros(n)
        R[cx.pick('at', list(range(n)))] = 1.
        if ref == 'full':
            kw['ref_trc'] = R
        else:
            cb.ref_trc = R
    dv = cb.stretch(stretch_range=.25, stretch_steps=3, sides=sides,
                    return_sim_mat=True, **kw)
    untouched(cx, cb, orig, sl, ts)
    belongs(cx, dv, rows, ts)
    cx.check('type', dv.value_type == 'stretch')
    # part that is used
    if sides == 'single':
        i0, i1 = zero, n
    else:
        h = min(zero, n - 1 - zero)
        i0, i1 = zero - h, zero + h + 1
    w = i1 - i0
    if ref == 'own':
        # mean of the used part
        R = orig[0, i0:i1]
        off = 0
    else:
        off = i0
    m = len(cx.flat(R))
    # lag axis of the stretched reference: zero lag stays where it is
    if sides == 'single':
        t = np.arange(m) - 0.
    else:
        t = np.arange(m) - (m - 1) / 2
    idx = window(w, range(w if sides == 'single' else w // 2), sides)
    axis = cx.flat(dv.second_axis)
    for r in range(rows):
        a = [cx.ite(cx.isnan(v), 0., v) for v in cx.flat(orig[r, i0:i1])]
        for j, x in enumerate((-.25, 0., .25)):
            cx.check('axis', cx.near(axis[j], x, 1e-12))
            M = spline(m, t, t * np.exp(-x), 'zeros')[off:off + w]
            b = [seq_sum([float(M[i, q]) * R[q] for q in range(m)])
                 for i in range(w)]
            check_sim(cx, dv.sim_mat[r][j], *similarity(cx, a, b, idx),
                      small=.01)
        if rows == 1 and ref == 'full':
            check_best(cx, 'change', cx.flat(dv.sim_mat[r]), dv.corr[r],
                       dv.value[r], axis)


@harness('C13', 'shift', cost=3, quick=[
    dict(rows=r, n=n, zero=z, sides=s, tw=t) for r, n, z, s, t in (
        (1, 9, 4, 'both', [[0, 3]]), (1, 9, 4, 'both', [[1, 3]]),
        (2, 8, 3, 'single', [[-1, 2]]), (1, 7, 0, 'single', None),
        (1, 9, 4, 'single', [[0, 2], [-2, 1]]), (1, 9, 4, 'both', [[.5, 3]]),
        (1, 9, 4, 'single', [[-2, 2], [-1.5, 1.25]]))],
    thorough=[dict(rows=2, n=11, zero=5, sides='both', tw=[[0, 2], [2, 4]]),
              dict(rows=1, n=12, zero=2, sides='single', tw=None)])
def shift(cx, rows, n, zero, sides, tw):
    """time shift of each correlation with respect to the reference"""
    A = cx.arr('A', (rows, n), lo=-4, hi=4)
    orig = A.copy()
    sl = -float(zero)
    cb, ts = mkbulk(cx, A, sl)
    R = cx.np.zeros(n)
    R[cx.pick('at', list(range(n)))] = 1.
    dt = cb.measure_shift(ref_trc=R, tw=tw, shift_range=1., shift_steps=3,
                          sides=sides, return_sim_mat=True)
    untouched(cx, cb, orig, sl, ts)
    cx.eqs('reference unchanged', R, R * 1.)
    belongs(cx, dt, rows, ts)
    cx.check('type', dt.value_type[0] == 'shift')
    if tw is None:
        tw = [[sl + 1, sl + n - 2]]
    hi = max(b for a, b in tw) + 1
    lo = -hi if sides == 'both' else min(a for a, b in tw) - 1
    i0, i1 = int(lo + zero), int(hi + zero) + 1
    x = np.arange(lo, hi + 1)
    axis = [-1., 0., 1.]
    for j in range(3):
        cx.check('axis', cx.near(cx.flat(dt.second_axis)[j], axis[j], 1e-12))
    wins = []
    for a, b in tw:
        w = set(range(math.ceil(a), math.floor(b)))
        if sides == 'both':
            w |= {-v for v in w}
        wins.append(sorted(v + zero - i0 for v in w))
    for r in range(rows):
        a = cx.flat(orig[r, i0:i1])
        for j in range(3):
            M = spline(len(x), x, x + axis[j], 0)
            b = [seq_sum([float(M[i, q]) * R[i0 + q] for q in range(len(x))])
                 for i in range(len(x))]
            sims = []
            for idx in wins:
                d, f, g = similarity(cx, a, b, idx)
                if bool(cx.lor(f < .01, g < .01)):
                    break
                sims.append((d, cx.np.sqrt(f * g)))
            if len(sims) < len(wins):
                continue
            cx.check('defined', cx.lnot(cx.isnan(dt.sim_mat[r][j])))
            cx.check('similarity', cx.near(
                dt.sim_mat[r][j],
                seq_sum([d / s for d, s in sims]) / len(wins), 1e-6))
        if rows == 1 and len(wins) == 1:
            check_best(cx, 'shift', cx.flat(dt.sim_mat[r]), dt.corr[r],
                       dt.value[r], cx.flat(dt.second_axis))
