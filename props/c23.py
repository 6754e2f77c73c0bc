"""Preparation of records in time domain."""
import math
import numpy as np
from symx.run import harness
from .common import seq_sum, where

SHAPES = [(1, 3), (2, 3)]


def data(cx, r, n, lim=4):
    A = cx.arr('a', (r, n), -lim, lim)
    return A, [[A[i, j] for j in range(n)] for i in range(r)]


def mean(xs):
    return seq_sum(xs) / len(xs)


def var(xs):
    m = mean(xs)
    return mean([(x - m) * (x - m) for x in xs])


def absv(cx, x):
    return cx.ite(cx.lt(x, 0.), -x, x)


def big(cx, xs):
    b = xs[0]
    for x in xs[1:]:
        b = cx.ite(cx.lt(b, x), x, b)
    return b


@harness('C23', 'clip', cost=2, quick=[
    dict(r=2, n=2), dict(r=1, n=3), dict(r=1, n=3, gaps=True)],
    thorough=[dict(r=3, n=3)])
def clip(cx, r, n, gaps=False):
    m = cx.mod('seismic.correlate.preprocessing_td')
    A, x = data(cx, r, n)
    f = cx.pick('factor', [1., .5, 2.5])
    if n == 3 and not gaps:
        # two free samples
        for i in range(r):
            A[i, 1] = x[i][1] = cx.pick('sample', [0., 3.])
    gap = cx.pick('gap', [0, n - 1]) if gaps else None
    if gap is not None:
        for i in range(r):
            A[i, gap] = math.nan
    out = m.clip(A, {'std_factor': f}, {})
    cx.check('shape', tuple(out.shape) == (r, n))
    idx = [j for j in range(n) if j != gap]
    for i in range(r):
        v = var([x[i][j] for j in idx]) * (f * f)
        if gap is not None:
            cx.check('gap', cx.isnan(out[i, gap]))
        for j in idx:
            q, o = x[i][j] * x[i][j], out[i, j]
            cx.check('below', cx.implies(cx.lt(q, v), cx.eq(o, x[i][j])))
            cx.check('above', cx.implies(cx.lt(v, q), cx.land(
                cx.near(o * o, v, 1e-6), cx.le(-1e-9, o * x[i][j]))))


@harness('C23', 'trend', cost=2, quick=[
    dict(r=1, n=2), dict(r=2, n=3), dict(r=1, n=6)],
    thorough=[dict(r=2, n=12)])
def trend(cx, r, n):
    """the result differs by a line and has none"""
    m = cx.mod('seismic.correlate.preprocessing_td')
    A, x = data(cx, r, n)
    how = cx.pick('method', [{}, {'method': 'scipy'}, {'method': 'qr'}])
    const = cx.pick('constant', [False, True])
    args = dict(how, type='constant') if const else dict(how)
    if not const and cx.pick('explicit', [False, True]):
        args['type'] = 'linear'
    gap = cx.pick('gap', [None, 0, n - 1]) if n > 3 and (
        const or how.get('method') == 'scipy') else None
    if gap is not None:
        for i in range(r):
            A[i, gap] = math.nan
    lost = cx.pick('record without data', [None, 0, r - 1]) if r > 1 and (
        const or how.get('method') == 'scipy') else None
    if lost is not None:
        for j in range(n):
            A[lost, j] = math.nan
    keep = dict(args)
    out = m.detrend(A, args, {})
    cx.check('settings', args == keep)
    cx.check('shape', tuple(out.shape) == (r, n))
    idx = [j for j in range(n) if j != gap]
    for i in range(r):
        o = [out[i, j] for j in idx]
        if i == lost:
            cx.check('no data', cx.land(*[cx.isnan(v) for v in o]))
            continue
        if gap is not None:
            cx.check('gap', cx.isnan(out[i, gap]))
        cx.close('mean', [mean(o)], [0.], 1e-6)
        d = [x[i][j] - y for j, y in zip(idx, o)]
        if const:
            cx.close('same offset', d, [d[0]] * len(d), 1e-6)
        else:
            cx.close('slope', [seq_sum([
                y * k for k, y in enumerate(o)])], [0.], 1e-5)
            for k in range(1, len(d) - 1):
                cx.close('line', [d[k - 1] - 2 * d[k] + d[k + 1]], [0.],
                         1e-5)


@harness('C23', 'deviation', cost=2, quick=[dict(r=2, n=2)],
         thorough=[dict(r=3, n=2), dict(r=1, n=3)])
def deviation(cx, r, n):
    """unit standard deviation; constant records are kept"""
    m = cx.mod('seismic.correlate.preprocessing_td')
    A, x = data(cx, r, n)
    flat = cx.pick('constant', [False, True])
    if flat:
        for j in range(n):
            A[0, j] = 2.
            x[0][j] = 2.
    # the units do not matter
    unit = cx.pick('unit', [1., 1e-9, 1e6])
    for i in range(r):
        for j in range(n):
            A[i, j] = A[i, j] * unit
    out = m.normalizeStandardDeviation(A, {}, {})
    for i in range(r):
        if flat and i == 0:
            cx.eqs('constant', [out[i, j] for j in range(n)],
                   [y * unit for y in x[i]])
            continue
        v = var(x[i])
        cx.assume(cx.le(.01, v))
        for j in range(n):
            o = out[i, j]
            cx.check('scaled', cx.land(
                cx.near(o * o * v, x[i][j] * x[i][j], 1e-6),
                cx.le(-1e-9, o * x[i][j])))


@harness('C23', 'sign', quick=[dict(r=2, n=3)])
def sign(cx, r, n):
    m = cx.mod('seismic.correlate.preprocessing_td')
    A, x = data(cx, r, n)
    out = m.signBitNormalization(A, {}, {})
    for i in range(r):
        cx.eqs('sign', [out[i, j] for j in range(n)], [
            cx.ite(cx.lt(v, 0.), -1., cx.ite(cx.lt(0., v), 1., 0.))
            for v in x[i]])


@harness('C23', 'taper', quick=[dict(r=2, n=5), dict(r=1, n=8)])
def taper(cx, r, n):
    m = cx.mod('seismic.correlate.preprocessing_td')
    A, x = data(cx, r, n)
    kind = cx.pick('kind', ['cosine', 'hann'])
    args = {'type': 'cosine_taper', 'p': cx.pick('p', [.4, .5, 1.])} if \
        kind == 'cosine' else {'type': 'hann'}
    keep = dict(args)
    out = m.taper(A, args, {})
    cx.check('settings', args == keep)
    if kind == 'hann':
        w = [.5 - .5 * math.cos(2 * math.pi * j / (n - 1)) for j in range(n)]
    else:
        # cosine over half the fraction on both sides
        k = int(n * keep['p'] / 2)
        w = [None] * n
        for j in range(n):
            e = min(j, n - 1 - j)
            if keep['p'] == 1.:
                w[j] = None
            elif e >= k:
                w[j] = 1.
        w[0] = w[-1] = 0.
    for i in range(r):
        for j in range(n):
            if w[j] is not None:
                cx.close('value', [out[i, j]], [x[i][j] * w[j]], 1e-6)
            else:
                cx.check('reduced', cx.land(
                    cx.le(absv(cx, out[i, j]),
                          absv(cx, x[i][j]) + 1e-9),
                    cx.le(-1e-9, out[i, j] * x[i][j])))
                cx.check('symmetric', cx.near(
                    out[i, j] * x[i][n - 1 - j],
                    out[i, n - 1 - j] * x[i][j], 1e-6))


def smooth(xs, w):
    """moving sum of w samples / w, centred by applying it from both ends"""
    n = len(xs)

    def once(a):
        c = (w - 1) // 2
        return [seq_sum([a[k] for k in range(max(0, j + c - w + 1),
                                             min(n, j + c + 1))]) / w
                for j in range(n)]
    return once(once(xs)[::-1])[::-1]


@harness('C23', 'envelope', cost=3, quick=[
    dict(r=1, n=2, w=1), dict(r=2, n=2, w=2)],
    thorough=[dict(r=3, n=2, w=2)])
def envelope(cx, r, n, w):
    """division by the smoothed amplitudes"""
    m = cx.mod('seismic.correlate.preprocessing_td')
    A, x = data(cx, r, n)
    sr = cx.pick('sr', [1., 2.])
    dead = cx.pick('dead', [False, True])
    one = cx.pick('one dimension', [False, True]) if r == 1 else False
    if dead:
        for j in range(n):
            A[0, j] = 0.
            x[0][j] = 0.
    out = m.TDnormalization(A[0] if one else A, {
        'windowLength': (w - .25) / sr, 'filter': cx.pick('no filter', [
            False, None, {}])}, {'sampling_rate': sr})
    for i in range(r):
        o = [out[j] if one else out[i, j] for j in range(n)]
        if dead and i == 0:
            cx.eqs('dead', o, [0.] * n)
            continue
        e = smooth([v * v for v in x[i]], w)
        top = big(cx, e)
        cx.assume(cx.le(.01, top))
        for j in range(n):
            b = e[j] + 1e-6 * top
            cx.check('scaled', cx.land(
                cx.near(o[j] * o[j] * b, x[i][j] * x[i][j], 1e-6),
                cx.le(-1e-9, o[j] * x[i][j])))


@harness('C23', 'mute', cost=3, quick=[
    dict(n=6, tap=2), dict(n=7, tap=3), dict(n=7, tap=4), dict(n=13, tap=6)],
    thorough=[dict(n=11, tap=5), dict(n=9, tap=2), dict(n=15, tap=7)])
def mute(cx, n, tap):
    """samples above the threshold vanish, others far from it are kept"""
    m = cx.mod('seismic.correlate.preprocessing_td')
    r = cx.pick('rows', [1, 2])
    quiet = r - 1
    A, x = data(cx, 1, n)
    if n > 9:
        loud = cx.pick('loud', [None, 0, n // 2])
        for j in range(n):
            A[0, j] = x[0][j] = 3. if j == loud else .1
    if quiet:
        B = cx.np.zeros((2, n))
        B[0] = A[0]
        B[1] = .5
        A = B
        x = x + [[.5] * n]
    sr = cx.pick('sr', [1., 2.])
    thr = cx.pick('threshold', [1., 2.])
    ext = cx.pick('extend', [True, False])
    out = m.mute(A, {'taper_len': tap / sr, 'threshold': thr,
                     'extend_gaps': ext}, {'sampling_rate': sr})
    for i in range(r):
        over = [cx.lt(thr, absv(cx, v)) for v in x[i]]
        for j in range(n):
            o = out[i, j]
            cx.check('not amplified', cx.land(
                cx.le(absv(cx, o), absv(cx, x[i][j]) + 1e-9),
                cx.le(-1e-9, o * x[i][j])))
            if ext:
                cx.check('muted', cx.implies(over[j], cx.near(o, 0., 1e-9)))
            if tap <= j < n - tap:
                near = cx.lor(*[over[k] for k in range(j - tap,
                                                       j + tap + 1)])
                cx.check('kept', cx.lor(near, cx.near(o, x[i][j], 1e-9)))


@harness('C23', 'mute_level', cost=2, quick=[dict(n=3, tap=1)])
def mute_level(cx, n, tap):
    """threshold as a multiple of the standard deviation; short records"""
    m = cx.mod('seismic.correlate.preprocessing_td')
    A, x = data(cx, 1, n)
    f = cx.pick('factor', [None, 1., 1.3])
    args = {'taper_len': tap, 'extend_gaps': True}
    if f is not None:
        args['std_factor'] = f
    short = cx.pick('short', [False, True])
    if short:
        args['taper_len'] = n
    out = m.mute(A, args, {'sampling_rate': 1.})
    if short:
        cx.eqs('short', [out[0, j] for j in range(n)], [0.] * n)
        return
    v = var(x[0]) * (f or 1.) ** 2
    for j in range(n):
        q = x[0][j] * x[0][j]
        cx.check('muted', cx.implies(cx.lt(v + 1e-6, q),
                                     cx.near(out[0, j], 0., 1e-9)))
    cx.raises('no taper', ValueError, lambda: m.mute(
        A, dict(args, taper_len=0), {'sampling_rate': 1.}))


@harness('C23', 'mute_filtered', cost=2, quick=[dict(n=3)])
def mute_filtered(cx, n):
    """the level is taken from the filtered record, the record is muted"""
    m = cx.mod('seismic.correlate.preprocessing_td')
    import obspy.signal.filter as of
    # records of one parameter
    q, w = cx.real('q', -4, 4), cx.pick('w', [.3, 1., -2.])
    x = [[q, w] + [.5] * (n - 2)]
    A = cx.np.zeros((1, n))
    for j in range(n):
        A[0, j] = x[0][j]
    kind = cx.pick('kind', ['highpass', 'lowpass'])
    M = np.array([getattr(of, kind)(e, df=1., **FILTERS[kind])
                  for e in np.eye(n)])
    c = [seq_sum([x[0][k] * float(M[k, j]) for k in range(n)])
         for j in range(n)]
    thr = cx.pick('threshold', [None, 1.])
    args = {'taper_len': 2, 'extend_gaps': True,
            'filter': dict(FILTERS[kind], type=kind)}
    if thr is None:
        args['std_factor'] = 1.3
        v = var(c) * 1.69
    else:
        args['threshold'], v = thr, thr * thr
    # the case of one sample above the level
    lo = cx.pick('loud', [None] + list(range(n)))
    for j in range(n):
        e = c[j] * c[j]
        cx.assume(cx.lt(v + 1e-3, e) if j == lo else cx.lt(e, v - 1e-3))
    out = m.mute(A, args, {'sampling_rate': 1.})
    for j in range(n):
        if j == lo:
            cx.close('muted', [out[0, j]], [0.], 1e-9)
        elif lo is None and 2 <= j < n - 1:
            cx.close('kept', [out[0, j]], [x[0][j]], 1e-9)


FILTERS = {'bandpass': dict(freqmin=.1, freqmax=.3),
           'highpass': dict(freq=.1), 'lowpass': dict(freq=.2),
           'bandstop': dict(freqmin=.1, freqmax=.3)}


@harness('C23', 'filter', quick=[dict(n=4), dict(n=7)])
def tdfilter(cx, n):
    """each record is filtered on its own, along time"""
    m = cx.mod('seismic.correlate.preprocessing_td')
    import obspy.signal.filter as of
    kind = cx.pick('kind', list(FILTERS))
    zp = cx.pick('zerophase', [None, False, True])
    sr = cx.pick('sr', [1., 2.])
    args = dict(FILTERS[kind])
    if zp is not None:
        args['zerophase'] = zp
    one = cx.pick('one dimension', [False, True])
    A, x = data(cx, 2, n)
    full = dict(args, type=kind)
    out = m.TDfilter(A[0] if one else A, full, {'sampling_rate': sr})
    cx.check('settings', full == dict(args, type=kind))
    cx.check('shape', tuple(out.shape) == ((n,) if one else (2, n)))
    # impulse responses
    M = np.array([getattr(of, kind)(e, df=sr, **args) for e in np.eye(n)])
    for i in range(1 if one else 2):
        o = [out[j] if one else out[i, j] for j in range(n)]
        cx.close('filtered', o, [
            seq_sum([x[i][k] * float(M[k, j]) for k in range(n)])
            for j in range(n)], 1e-6)


@harness('C23', 'padding', quick=[dict()])
def padding(cx):
    m = cx.mod('seismic.correlate.preprocessing_td')
    r, n = cx.pick('shape', [(1, 3), (2, 4), (3, 7)])
    A, x = data(cx, r, n)
    kind = cx.pick('kind', ['nextFastLen', 'avoidWrapAround',
                            'avoidWrapFastLen'])
    sr, keep = cx.pick('sr', [1., 2.]), cx.pick('keep', [1., 2.4, 5.])
    axis = cx.pick('axis', [0, 1])
    out = m.zeroPadding(A.T if axis == 0 else A, {'type': kind}, {
        'sampling_rate': sr, 'lengthToSave': keep}, axis=axis)
    if axis == 0:
        out = out.T
    N = out.shape[1]
    need = n if kind == 'nextFastLen' else n + math.ceil(sr * keep)
    cx.check('length', out.shape[0] == r and N >= need)
    if kind == 'avoidWrapAround':
        cx.check('exact length', N == need)
    else:
        from scipy.fftpack import next_fast_len
        cx.check('fast length', N == next_fast_len(need))
    for i in range(r):
        cx.eqs('padded', [out[i, j] for j in range(N)],
               x[i] + [0.] * (N - n))
    cx.raises('unknown', ValueError, lambda: m.zeroPadding(
        A, {'type': 'x'}, {}))
