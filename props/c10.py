"""Resampling of correlation matrices in time and lag."""
import numpy as np

from symx.run import harness
from .common import mkstats, seq_sum


def mod(cx):
    return cx.mod('seismic.monitor.post_corr_process')


@harness('C10', 'bins', cost=2, quick=[
    dict(n=n, k=k, ends=e) for n, k, e in (
        (1, 1, 0), (2, 1, 1), (2, 2, 0), (2, 2, 1), (3, 2, 0))],
    thorough=[dict(n=3, k=3, ends=e) for e in (0, 1)])
def bins(cx, n, k, ends):
    """each new row is the mean of the correlations that start in its bin"""
    m = cx.mod('seismic.correlate.stream')
    st = mkstats(cx, 2, 4., -1.)
    ts = [cx.utc(cx.int(f't{i}', 0, 400) / 4) for i in range(n)]
    loc = ['00-00', '01-00', '00-02'][:n]
    st['corr_start'] = list(ts)
    st['corr_end'] = [t + 10 for t in ts]
    st['location'] = list(loc)
    st['channel'] = 'Z-Z'
    st['ntrcs'] = n
    A = cx.arr('A', (n, 2), nan=True)
    orig = A.copy()
    new = [cx.utc(cx.int(f'b{i}', -8, 400) / 4) for i in range(k)]
    kw = {}
    if ends:
        en = [s + cx.int(f'l{i}', 1, 200) / 4 for i, s in enumerate(new)]
        kw['endtimes'] = list(en)
    elif k == 1:
        en = [ts[-1] + 10]
    else:
        cx.assume(new[0] < new[1])
        en = [s + (new[1] - new[0]) for s in new]
    cb = m.CorrBulk(A, stats=st)
    cb.resample(list(new), **kw)
    cx.check('shape', cb.data.shape == (k, 2))
    cx.check('count', len(cb.stats.corr_start) == k and
             len(cb.stats.corr_end) == k and cb.stats.ntrcs == k)
    for b in range(k):
        cx.check('start', cx.eq(cb.stats.corr_start[b], new[b]))
        cx.check('end', cx.eq(cb.stats.corr_end[b], en[b]))
        sel = [i for i in range(n) if cx.land(
            ts[i] >= new[b], ts[i] < en[b])]
        for j in range(2):
            v = [orig[i, j] for i in sel]
            v = [x for x in v if not bool(cx.isnan(x))]
            if v:
                cx.check('mean', cx.eq(cb.data[b, j],
                                       seq_sum(v) / len(v)))
            else:
                cx.check('empty', cx.isnan(cb.data[b, j]))
    # still a usable matrix
    s2 = cb.create_corr_stream()
    cx.check('stream', len(s2) == k)
    for b, tr in enumerate(s2):
        cx.eqs('stream data', tr.data, cb.data[b])
        cx.check('stream start', cx.eq(tr.stats.corr_start, new[b]))
        sel = [i for i in range(n) if cx.land(
            ts[i] >= new[b], ts[i] < en[b])]
        if sel:
            cx.check('location', tr.stats.location in [
                loc[i] for i in sel])
        cx.check('location is one', isinstance(tr.stats.location, str))


@harness('C10', 'lag', cost=1, quick=[
    dict(n=n, sr=s, f=f) for n, s, f in (
        (8, 4., 2.), (9, 4., 2.), (10, 4., 1.), (8, 4., 4.), (9, 2., 1.5),
        (8, 4., 8.), (7, 3., 1.))], thorough=[
    dict(n=n, sr=4., f=f) for n in (12, 13, 16) for f in (1., 2., 3.)])
def lag(cx, n, sr, f):
    """lag axis and samples of downsampled correlations"""
    p = mod(cx)
    sl = cx.int('sl', -40, 40) / 4
    st = mkstats(cx, n, sr, sl)
    A = cx.arr('A', (2, n))
    orig = A.copy()
    if f > sr:
        cx.raises('upsampling', ValueError,
                  lambda: p.corr_mat_resample_or_decimate(A, st, f))
        return
    out, so = p.corr_mat_resample_or_decimate(A, st, f)
    k = out.shape[1]
    cx.check('rate', cx.eq(so['sampling_rate'], f))
    cx.check('npts', so['npts'] == k)
    cx.check('start', cx.eq(so['start_lag'], sl))
    cx.check('end', cx.near(so['end_lag'], sl + (k - 1) / f, 1e-9))
    # covers the lags of the input, up to one new sample at the end
    cx.check('inside', (k - 1) / f <= (n - 1) / sr + 1e-9)
    cx.check('span', k / f >= (n - 1) / sr - 1 / f - 1e-9)
    if f == sr:
        cx.eqs('unchanged', out, orig)
    # the samples are those of the filtered trace at these lags
    import scipy.signal as ss
    e = np.eye(n)

    def zero_phase(b, a):
        y = ss.lfilter(b, a, e, axis=1)
        return ss.lfilter(b, a, y[:, ::-1], axis=1)[:, ::-1].T
    if f == sr:
        M = e
    elif sr % f == 0:
        M = zero_phase(*ss.butter(4, f / sr, btype='lowpass'))
        M = M[::int(sr / f)]
    else:
        M = zero_phase(*ss.butter(
            3, np.array([.001, .4 * f]) / (sr / 2), btype='band'))
        L = n
        while L * f % sr:
            L += 1
        M = ss.resample(np.concatenate((M, np.zeros((2 * L - n, n)))),
                        int(2 * L * f / sr), axis=0)
    for r in (0, 1):
        for j in range(k):
            cx.check('samples', cx.near(out[r, j], seq_sum(
                [float(M[j, i]) * orig[r, i] for i in range(n)])))
