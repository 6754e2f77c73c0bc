"""Normalising, clipping, smoothing and tapering of correlation matrices."""
import numpy as np

from symx.run import harness
from .common import mkstats, seq_sum


def mod(cx):
    return cx.mod('seismic.monitor.post_corr_process')


def absv(cx, x):
    return cx.ite(x < 0, -x, x)


def maxv(cx, xs):
    m = xs[0]
    for x in xs[1:]:
        m = cx.ite(x > m, x, m)
    return m


@harness('C09', 'normalize', cost=2, quick=[
    dict(kind=k, rows=r, npts=3, win=w) for k, r in (
        ('energy', 1), ('max', 2), ('absmax', 2), ('abssum', 2))
    for w in ('all', 'win')], thorough=[
    dict(kind=k, rows=2, npts=4, win='win') for k in (
        'energy', 'max', 'absmax', 'abssum')])
def normalize(cx, kind, rows, npts, win):
    f = mod(cx).corr_mat_normalize
    sr = cx.pick('sr', [.5, 4.])
    sl = cx.int('sl', -8, 8) / 4
    st = mkstats(cx, npts, sr, sl)
    # the second row might be missing
    data = cx.arr('d', (rows, npts))
    if rows > 1:
        if cx.pick('gap', [0, 1]):
            data[1] = float('nan')
    orig = data.copy()
    if win == 'all':
        out = f(data, st, normtype=kind)
        i, j = 0, npts
    else:
        i = int(cx.int('i', -1, npts - 1))
        j = int(cx.int('j', -1, npts))
        cx.assume(i < j)
        if i < 0:
            cx.assume(j > 0)
        out = f(data, st, sl + i / sr, sl + j / sr, kind)
        if i < 0 or j >= npts:
            cx.eqs('window outside of the trace', out, orig)
            return
    for r in range(rows):
        x = cx.flat(orig[r])
        y = cx.flat(out[r])
        w = x[i:j]
        if r == 1 and bool(cx.isnan(x[0])):
            cx.check('gaps stay', cx.land(*[cx.isnan(v) for v in y]))
            continue
        if kind == 'energy':
            q = seq_sum([v * v for v in w]) / len(w)
            if cx.eq(q, 0.):
                cx.eqs('silent', y, x)
            else:
                cx.check('sign', cx.land(*[a * b >= 0 for a, b in zip(
                    x, y)]))
                for a, b in zip(x, y):
                    cx.check('scaled', cx.eq(b * b * q, a * a))
                cx.check('unit energy', cx.eq(seq_sum(
                    [v * v for v in y[i:j]]), len(w)))
            continue
        if kind == 'max':
            q = maxv(cx, w)
        elif kind == 'absmax':
            q = maxv(cx, [absv(cx, v) for v in w])
        else:
            q = seq_sum([absv(cx, v) for v in w]) / len(w)
        if cx.eq(q, 0.):
            cx.eqs('silent', y, x)
        else:
            cx.check('scaled', cx.land(*[cx.eq(b * q, a)
                                         for a, b in zip(x, y)]))


@harness('C09', 'clip', cost=2, quick=[
    dict(rows=1, npts=2, axis=1), dict(rows=2, npts=2, axis=1),
    dict(rows=2, npts=2, axis=0), dict(rows=1, npts=3, axis=None)],
    thorough=[dict(rows=2, npts=3, axis=a) for a in (0, 1, None)])
def clip(cx, rows, npts, axis):
    f = mod(cx).corr_mat_clip
    data = cx.arr('d', (rows, npts))
    orig = data.copy()
    th = cx.pick('thres', [.5, 1., 2.])
    out = f(data, th, axis)
    cx.check('shape', out.shape == orig.shape)
    for r in [cx.pick('r', range(rows))]:
        for c in [cx.pick('c', range(npts))]:
            x, y = orig[r, c], out[r, c]
            g = cx.flat(orig if axis is None else
                        (orig[r] if axis == 1 else orig[:, c]))
            m = seq_sum(g) / len(g)
            var = seq_sum([(v - m) * (v - m) for v in g]) / len(g)
            lim2 = var * (th * th)
            if x * x < lim2:
                cx.check('kept', cx.eq(y, x))
            else:
                cx.check('limit', cx.eq(y * y, lim2))
                cx.check('sign', x * y >= 0)


def windows(win, n):
    return np.ones(n) if win == 'flat' else getattr(np, win)(n)


@harness('C09', 'smooth', cost=1, quick=[
    dict(n=n, w=w, win=win) for n, w, win in (
        (3, 3, 'flat'), (5, 3, 'hanning'), (6, 4, 'flat'), (5, 5, 'bartlett'),
        (6, 5, 'hamming'), (4, 2, 'flat'), (3, 4, 'flat'))],
    thorough=[dict(n=n, w=w, win=win) for n in (8, 11) for w in (3, 4, 7, 8)
              for win in ('flat', 'hanning', 'blackman')])
def smooth(cx, n, w, win):
    """weighted mean around each sample; point reflection at the ends"""
    f = mod(cx).corr_mat_smooth
    ax = cx.pick('axis', [0, 1, None])
    rows = 1 if ax is None else 2
    data = cx.arr('d', n) if ax is None else cx.arr(
        'd', (rows, n) if ax == 0 else (n, rows))
    if ax is not None and cx.pick('gap', [0, 1]):
        data[0, 1] = float('nan')
    orig = data.copy()
    if n < w:
        cx.raises('window too long', ValueError,
                  lambda: f(data, w, win, **({} if ax is None else
                                             dict(axis=ax))))
        return
    out = f(data, w, win, **({} if ax is None else dict(axis=ax)))
    cx.check('shape', out.shape == orig.shape)
    k = windows(win, w)
    k = k / k.sum()
    for r in range(rows):
        x = cx.flat(orig if ax is None else (
            orig[r] if ax == 0 else orig[:, r]))
        x = [cx.ite(cx.isnan(v), 0., v) for v in x]
        y = cx.flat(out if ax is None else (
            out[r] if ax == 0 else out[:, r]))
        if w < 3:
            cx.eqs('not smoothed', y, x)
            continue

        def val(i):
            if i < 0:
                return 2 * x[0] - x[-i]
            if i >= n:
                return 2 * x[-1] - x[2 * (n - 1) - i]
            return x[i]
        # window of even length: half a sample earlier
        h = (w - 1) - (w - 1) // 2
        for i in range(n):
            s = seq_sum([float(k[j]) * val(i - h + j) for j in range(w)])
            cx.check('weighted mean', cx.near(y[i], s))


@harness('C09', 'taper', quick=[dict(npts=n, w=w) for n, w in (
    (6, 0), (6, 1), (7, 2), (8, 3), (5, 6))], thorough=[
    dict(npts=n, w=w) for n in (9, 12, 15) for w in (1, 2, 3, 4)])
def taper(cx, npts, w):
    f = mod(cx).corr_mat_taper
    sr = cx.pick('sr', [.5, 1., 4.])
    st = mkstats(cx, npts, sr, -1.)
    data = cx.arr('d', (2, npts))
    orig = data.copy()
    if w > npts:
        cx.raises('longer than the trace', ValueError,
                  lambda: f(data, st, w / sr))
        cx.eqs('unchanged', data, orig)
        return
    out = f(data, st, w / sr)
    ones = cx.np.ones((1, npts))
    g = [float(v) for v in f(ones, st, w / sr)[0]]
    for i in range(npts):
        cx.check('factor', cx.land(*[
            cx.near(out[r, i], orig[r, i] * g[i]) for r in (0, 1)]))
        cx.check('symmetric', abs(g[i] - g[npts - 1 - i]) < 1e-9)
        cx.check('between 0 and 1', -1e-9 <= g[i] <= 1 + 1e-9)
        if w <= i <= npts - 1 - w:
            cx.check('middle kept', abs(g[i] - 1) < 1e-9)
        if i and i <= (npts - 1) / 2:
            cx.check('rises', g[i] >= g[i - 1] - 1e-9)
    if w:
        cx.check('ends', abs(g[0]) < 1e-9)


@harness('C09', 'taper_center', quick=[
    dict(npts=n, w=w, frac=fr) for n, w, fr in (
        (9, 4, .05), (8, 3, .05), (9, 6, 1.), (9, 4, 0), (6, 7, .05),
        (6, 0, .05))], thorough=[
    dict(npts=n, w=w, frac=fr) for n in (12, 15) for w in (2, 3, 5, 8)
    for fr in (0, .05, .5, 1.)])
def taper_center(cx, npts, w, frac):
    f = mod(cx).corr_mat_taper_center
    sr = cx.pick('sr', [.5, 1., 4.])
    k = int(cx.int('zero', -npts, 2 * npts))
    st = mkstats(cx, npts, sr, -k / sr)
    data = cx.arr('d', (2, npts))
    orig = data.copy()
    if w > npts:
        cx.raises('longer than the trace', ValueError,
                  lambda: f(data, st, w / sr, frac))
        return
    out = f(data, st, w / sr, frac)
    cx.check('shape', out.shape == orig.shape)
    # the factors, on a trace that is centred on zero lag
    h = (w + 1) // 2
    c = 2 * npts
    s2 = mkstats(cx, 2 * c + 1, sr, -c / sr)
    g = [float(v) for v in f(cx.np.ones((1, 2 * c + 1)), s2, w / sr, frac)[0]]
    for i in range(npts):
        lag = i - k
        gi = g[c + lag] if abs(lag) <= c else 1.
        cx.check('factor', cx.land(*[
            cx.near(out[r, i], orig[r, i] * gi) for r in (0, 1)]))
        cx.check('symmetric', abs(gi - (g[c - lag] if abs(lag) <= c
                                        else 1.)) < 1e-9)
        cx.check('between 0 and 1', -1e-9 <= gi <= 1 + 1e-9)
        if abs(lag) > h or not w:
            cx.check('outside kept', abs(gi - 1) < 1e-9)
        elif abs(lag) < h * (1 - frac) - 1:
            cx.check('centre removed', abs(gi) < 1e-9)
    if w:
        cx.check('zero lag', abs(g[c]) < 1e-9 or frac == 1.)


@harness('C09', 'bulk', quick=[dict()])
def bulk(cx):
    """the methods of the matrix do the same, in place"""
    m = cx.mod('seismic.correlate.stream')
    p = mod(cx)
    n = 5
    st = mkstats(cx, n, 2., -1.)
    A = cx.arr('A', (1, n))
    w = cx.pick('what', ['normalize', 'clip', 'smooth', 'taper',
                         'taper_center'])
    if w in ('normalize', 'clip'):
        A = A[:, :3]
        st = mkstats(cx, 3, 2., -1.)
    cb = m.CorrBulk(A.copy(), stats=st.copy())
    c2 = cb.copy()
    if w == 'normalize':
        r = cb.normalize(-.5, 0., 'absmax')
        exp = p.corr_mat_normalize(A, st, -.5, 0., 'absmax')
    elif w == 'clip':
        cx.assume(A[0, 1] == 0)
        r = cb.clip(1.)
        cb.clip(2.)
        exp = p.corr_mat_clip(p.corr_mat_clip(A, 1., 1), 2., 1)
    elif w == 'smooth':
        r = cb.smooth(3, 'hanning', 0)
        exp = p.corr_mat_smooth(A, 3, 'hanning', 0)
    elif w == 'taper':
        r = cb.taper(1.)
        exp = p.corr_mat_taper(A, st, 1.)
    else:
        r = cb.taper_center(1., .5)
        exp = p.corr_mat_taper_center(A, st, 1., .5)
    cx.eqs('same', cb.data, exp)
    cx.check('logged', len(cb.stats.processing_bulk) == (
        2 if w == 'clip' else 1))
    cx.check('copy', len(c2.stats.processing_bulk) == 0)
    for k in ('npts', 'start_lag', 'sampling_rate'):
        cx.check('axis', cx.eq(cb.stats[k], st[k]))
