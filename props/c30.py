"""Filtering, envelope and decay of correlation matrices."""
import numpy as np
from symx.run import harness
from .common import seq_sum
from .c13 import mkbulk


def data(cx, rows, n):
    """a matrix and which rows have data"""
    A = cx.arr('A', (rows, n), lo=-4, hi=4)
    gap = cx.pick('row without data', [None] + list(range(rows))
                  if rows > 1 else [None])
    if gap is not None:
        A[gap] = float('nan')
    return A, A.copy(), gap


def header(cx, cb, ts, sr, sl, n):
    st = cb.stats
    cx.check('axis', cx.land(
        cx.eq(st['start_lag'], sl), cx.eq(st['sampling_rate'], sr),
        st['npts'] == n, cx.near(st['end_lag'], sl + (n - 1) / sr, 1e-9)))
    cx.check('times', len(st['corr_start']) == len(ts) and all(
        bool(cx.land(cx.eq(a, t), cx.eq(b, t + 3600.))) for a, b, t in zip(
            st['corr_start'], st['corr_end'], ts)))
    cx.check('codes', (st['network'], st['station']) == ('A-B', 'C-D'))


def product(cx, tag, out, M, x, tol=1e-9):
    for j in range(len(M)):
        cx.check(tag, cx.near(out[j], seq_sum(
            [float(M[j, i]) * x[i] for i in range(len(x))]), tol))


def gaps(cx, row):
    for v in cx.flat(row):
        cx.check('missing', cx.isnan(v))


@harness('C30', 'band', quick=[
    dict(n=n, sr=s, freqs=f, order=o) for n, s, f, o in (
        (5, 1., (.1, .2), None), (6, 4., (.5, 1.5), 2),
        (4, 10., (1., 4.), 1))],
    thorough=[dict(n=n, sr=4., freqs=f, order=o) for n in (9, 12)
              for f in ((.2, 1.), (.5, 1.9)) for o in (None, 4)])
def band(cx, n, sr, freqs, order):
    """Butterworth filter forward and backward"""
    import scipy.signal as ss
    A, orig, gap = data(cx, 2, n)
    sl = cx.int('sl', -8, 0) / sr
    cb, ts = mkbulk(cx, A, sl)
    cb.stats['sampling_rate'] = sr
    cx.raises('one frequency', ValueError, lambda: cb.filter((.1,)))
    c2 = cb.copy()
    res = cb.filter(freqs, **({} if order is None else {'order': order}))
    cx.check('returned', res is cb)
    header(cx, cb, ts, sr, sl, n)
    L = ss.lfilter(*ss.butter(order or 3, [f / (sr / 2) for f in freqs],
                              btype='band'), np.eye(n), axis=0)
    M = L.T @ L
    for r in range(2):
        if r == gap:
            gaps(cx, cb.data[r])
        else:
            product(cx, 'filtered', cx.flat(cb.data[r]), M,
                    cx.flat(orig[r]))
    cx.eqs('copy', c2.data, orig)
    p = [s for s in cb.stats.processing_bulk if 'filter' in s]
    cx.check('noted', len(p) == 1 and str(freqs) in p[0]
             and 'order: %d' % (order or 3) in p[0])
    cx.check('copy not noted', not any(
        'filter' in s for s in c2.stats.processing_bulk))


def hilbert(n):
    """imaginary part of the analytic signal"""
    j = np.arange(n)
    H = np.zeros((n, n))
    for k in range(1, (n + 1) // 2):
        H += 2 / n * np.sin(2 * np.pi * k * (j[:, None] - j) / n)
    return np.where(np.abs(H) < 1e-14, 0, H)


@harness('C30', 'envelope', quick=[dict(n=n) for n in (1, 4, 5, 6)],
         thorough=[dict(n=n) for n in (8, 9, 12)])
def envelope(cx, n):
    """magnitude of the analytic signal of each correlation"""
    A, orig, gap = data(cx, 2, n)
    if n > 4:
        # two samples that are not zero
        at = cx.pick('at', [0, 1])
        for r in range(2):
            for j in range(n):
                if r != gap and j not in (at, at + 2):
                    A[r, j] = 0.
        orig = A.copy()
    sl = cx.real('sl', -8, 8)
    cb, ts = mkbulk(cx, A, sl)
    res = cb.envelope()
    cx.check('returned', res is cb)
    header(cx, cb, ts, 1., sl, n)
    H = hilbert(n)
    for r in range(2):
        if r == gap:
            gaps(cx, cb.data[r])
            continue
        x, out = cx.flat(orig[r]), cx.flat(cb.data[r])
        for j in range(n):
            h = seq_sum([float(H[j, i]) * x[i] for i in range(n)])
            cx.check('positive', out[j] >= 0)
            cx.check('envelope', cx.near(
                out[j] * out[j], x[j] * x[j] + h * h, 1e-7))


SHAPES = [[1., -2., .5, 3., -1.], [.5, 1., 2., 1., -.5],
          [1., 3., 4., 3., 1.], [4., 2., 1., .5, .25],
          [1., 2., 4., 8., 4.]]


@harness('C30', 'decay', cost=2, quick=[
    dict(n=n, zero=z, rows=r) for n, z, r in (
        (3, 1, 1), (5, 2, 2), (5, 1, 1), (6, 3, 1), (4, 0, 1))],
    thorough=[dict(n=n, zero=z, rows=r) for n, z, r in (
        (7, 3, 2), (8, 5, 2), (6, 0, 2))])
def decay(cx, n, zero, rows):
    """division by the exponential that fits the mean envelope"""
    A = cx.np.zeros((rows, n))
    for r in range(rows):
        # any amplitude, one of two shapes
        amp = cx.real('amp%d' % r, .5, 4)
        shape = cx.pick('shape%d' % r, SHAPES[:2])
        for j in range(n):
            A[r, j] = amp * shape[j % 5]
    gap = cx.pick('row without data', [None] + list(range(rows))
                  if rows > 1 else [None])
    if gap is not None:
        A[gap] = float('nan')
    orig = A.copy()
    cb, ts = mkbulk(cx, A, -float(zero))
    res = cb.correct_decay()
    cx.check('returned', res is cb)
    header(cx, cb, ts, 1., -float(zero), n)
    # one factor for all correlations that is the same on both sides
    for r in range(rows):
        if r == gap:
            gaps(cx, cb.data[r])
            continue
        x, y = cx.flat(orig[r]), cx.flat(cb.data[r])
        for j in range(n):
            k = 2 * zero - j
            if 0 <= k < n:
                cx.check('both sides', cx.near(x[j] * y[k], x[k] * y[j]))
            cx.check('sign', cx.implies(x[j] > 0, y[j] > 0))
            cx.check('zero', cx.implies(cx.eq(x[j], 0), cx.eq(y[j], 0)))
            for q in range(r):
                if q != gap:
                    cx.check('all rows', cx.near(
                        x[j] * cb.data[q, j], orig[q, j] * y[j]))


@harness('C30', 'raised', quick=[dict(n=3, zero=1)])
def raised(cx, n, zero):
    """later parts are raised if the envelope falls"""
    cx.monotone()
    shape = np.array(cx.pick('shape', SHAPES))[np.arange(n) % 5]
    amp = cx.real('amp', .5, 4)
    A = cx.np.zeros((1, n))
    for j in range(n):
        A[0, j] = amp * float(shape[j])
    e = np.sqrt(shape ** 2 + (hilbert(n) @ shape) ** 2)
    e = [np.mean([e[zero + k] for k in {-t, t} if 0 <= zero + k < n])
         for t in range(max(zero, n - 1 - zero) + 1)]
    d = np.diff(e)
    if not (np.all(d < -1e-6) or np.all(d > 1e-6)):
        return
    cb, ts = mkbulk(cx, A, -float(zero))
    x = cx.flat(cb.data[0].copy())
    cb.correct_decay()
    y = cx.flat(cb.data[0])
    for j in range(n):
        if j != zero:
            a, b = abs(x[j] * y[zero]), abs(y[j] * x[zero])
            cx.check('raised', cx.lt(a, b) if d[0] < 0 else cx.lt(b, a))
