"""Trimming and mirroring: data and lag axis stay aligned."""
from symx.run import harness
from .common import mkstats


def mkbulk(cx, data, st):
    m = cx.mod('seismic.correlate.stream')
    return m.CorrBulk(data, stats=st)


@harness('C08', 'trim', quick=[
    dict(rows=r, npts=n, via=v) for r, n, v in (
        (0, 5, 'f'), (1, 6, 'f'), (2, 5, 'bulk'))],
    thorough=[dict(rows=r, npts=n, via=v) for r, n, v in (
        (0, 12, 'f'), (1, 12, 'f'), (2, 12, 'bulk'))])
def trim(cx, rows, npts, via):
    # multiples of 1/8 s or samples: exact in floating point
    sl = cx.int('start_lag', -400, 400) / 8
    sr = cx.pick('sr', [.5, 1., 32.])
    st = mkstats(cx, npts, sr, sl)
    data = cx.arr('d', (rows, npts) if rows else npts)
    orig = data.copy()
    a = sl + cx.int('a', -16, 8 * (npts + 2)) / 8 / sr
    b = sl + cx.int('b', -16, 8 * (npts + 2)) / 8 / sr
    cx.assume(a <= b)
    el = sl + (npts - 1) / sr
    if via == 'f':
        f = cx.mod('seismic.monitor.trim').corr_mat_trim
        out, so = f(data, st, a, b)
    else:
        cb = mkbulk(cx, data, st)
        cb.trim(a, b)
        out, so = cb.data, cb.stats
    n = out.shape[-1]
    cx.check('npts', so['npts'] == n)
    cx.check('rate', cx.eq(so['sampling_rate'], sr))
    cx.check('end of the axis', cx.eq(
        so['end_lag'], so['start_lag'] + (n - 1) / sr))
    if a < sl or b >= sl + npts / sr:
        cx.eqs('unchanged', out, orig)
        cx.check('axis unchanged', cx.eq(so['start_lag'], sl))
        return
    # the first sample is the one at or just before the start
    i = int((so['start_lag'] - sl) * sr)
    cx.check('on samples', cx.eq(so['start_lag'], sl + i / sr))
    cx.check('first', cx.land(so['start_lag'] <= a,
                              so['start_lag'] + 1 / sr > a))
    cx.check('last', cx.land(so['end_lag'] <= b,
                             so['end_lag'] + 1 / sr > b))
    cx.check('shape', out.shape[:-1] == orig.shape[:-1])
    # each sample has the lag it had before
    cx.eqs('aligned', out, orig[..., i:i + n])


@harness('C08', 'mirror', quick=[
    dict(rows=r, npts=n, via=v) for r, n, v in (
        (1, 4, 'f'), (2, 5, 'f'), (1, 6, 'f'), (2, 4, 'bulk'))],
    thorough=[dict(rows=2, npts=n, via=v) for n, v in (
        (9, 'f'), (12, 'f'), (12, 'bulk'))])
def mirror(cx, rows, npts, via):
    sr = cx.pick('sr', [.5, 1., 32.])
    k = int(cx.int('zero', -2, npts + 1))
    st = mkstats(cx, npts, sr, -k / sr)
    data = cx.arr('d', (rows, npts))
    orig = data.copy()
    if via == 'f':
        f = cx.mod('seismic.monitor.post_corr_process').corr_mat_mirror
        out, so = f(data, st)
        cx.eqs('input', data, orig)
        cx.check('input axis', cx.eq(st['start_lag'], -k / sr))
    else:
        cb = mkbulk(cx, data, st)
        cb.mirror()
        out, so = cb.data, cb.stats
    cx.check('npts', so['npts'] == out.shape[1])
    cx.check('rate', cx.eq(so['sampling_rate'], sr))
    if k <= 0 or k >= npts - 1:
        # zero lag is not inside of the trace
        cx.eqs('unchanged', out, orig)
        cx.check('axis unchanged', cx.eq(so['start_lag'], -k / sr))
        return
    cx.check('starts at zero', cx.eq(so['start_lag'], 0))
    n = max(k, npts - 1 - k) + 1
    cx.check('length', out.shape == (rows, n))
    cx.check('end', cx.eq(so['end_lag'], (n - 1) / sr))
    for r in range(rows):
        for j in range(n):
            v = [orig[r, i] for i in {k - j, k + j} if 0 <= i < npts]
            cx.check('mean of both sides', cx.eq(
                out[r, j], sum(v[1:], v[0]) / len(v)))
