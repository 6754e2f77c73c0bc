"""Masks, gaps, tapers and filters of recorded streams."""
import math
import numpy as np
from symx.run import harness
from .common import seq_sum

T0 = 1e9
# masked samples; the record has 9
GAPS = {'none': [], 'middle': [4], 'two': [2, 3, 6], 'start': [0, 1],
        'end': [7, 8], 'both ends': [0, 5, 8], 'all': list(range(9))}
N = 9


def trace(cx, name, n, t0=T0, sr=1., gap=(), lim=4):
    tm = cx.mod('obspy.core.trace')
    a = cx.arr(name, n, -lim, lim)
    x = [a[j] for j in range(n)]
    if len(gap):
        mask = np.zeros(n, dtype=bool)
        mask[list(gap)] = True
        a = cx.np.ma.array(a, mask=mask)
    tr = tm.Trace(a)
    tr.stats.network, tr.stats.station, tr.stats.channel = 'N', 'S', 'Z'
    tr.stats.sampling_rate = sr
    tr.stats.starttime = cx.utc(t0)
    return tr, x


def masked(cx, data, j):
    """sample j is missing"""
    if isinstance(data, np.ma.MaskedArray) or hasattr(data, 'mask'):
        return cx.np.ma.getmaskarray(data)[j]
    return False


def segments(n, gap):
    out, cur = [], []
    for j in range(n):
        if j in gap:
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(j)
    return out + ([cur] if cur else [])


def same_frame(cx, tr, n, t0=T0, sr=1.):
    cx.check('frame', cx.land(
        tr.stats.npts == n, len(tr.data) == n,
        cx.eq(tr.stats.starttime, cx.utc(t0)),
        tr.stats.sampling_rate == sr))


@harness('C25', 'mask', cost=2, quick=[dict(k=1), dict(k=2, n=4)],
         thorough=[dict(k=2, n=6), dict(k=1, n=11)])
def mask(cx, k, n=6):
    """samples between the given times are masked"""
    m = cx.mod('seismic.correlate.preprocessing_stream')
    sr = cx.pick('sr', [1., 2.])
    tr, x = trace(cx, 'a', n, sr=sr)
    how = cx.pick('length', ['ends', 'masklen'])
    last = (n - 1) / sr
    ss = [cx.real('s%d' % i, -3., last + 2.) for i in range(k)]
    if how == 'ends':
        es = [cx.real('e%d' % i, -2., last + 3.) for i in range(k)]
        for s, e in zip(ss, es):
            cx.assume(cx.lt(s, e))
    else:
        ml = cx.pick('masklen', [.5, 2., 30.])
        es = [s + ml for s in ss]
    for s in ss + es:
        # no decision by the rounding of times
        for j in range(-1, n + 1):
            cx.assume(cx.lor(cx.le(s, j / sr - 1e-5),
                             cx.le(j / sr + 1e-5, s)))
    rev = cx.pick('reverse', [False, True])
    base = cx.utc(T0)
    st = cx.mod('obspy.core.stream').Stream([tr])
    kw = {'reverse': True} if rev else {}
    if how == 'ends':
        kw['ends'] = [base + e for e in es]
    else:
        kw['masklen'] = ml
    out = m.stream_mask_at_utc(st, [base + s for s in ss], **kw)
    cx.check('stream', len(out) == 1 and out[0] is tr)
    same_frame(cx, tr, n, sr=sr)
    for j in range(n):
        t = j / sr
        inside = cx.lor(*[cx.land(cx.le(s, t), cx.le(t, e))
                          for s, e in zip(ss, es)])
        # one sample is lost at either end at most
        near = cx.lor(*[cx.land(cx.le(s, t + 1 / sr), cx.le(t - 1 / sr, e))
                        for s, e in zip(ss, es)])
        is_m = masked(cx, tr.data, j)
        if rev:
            is_m = cx.lnot(is_m)
        cx.check('masked', cx.implies(inside, is_m))
        cx.check('kept', cx.lor(near, cx.lnot(is_m)))
        cx.check('value', cx.eq(cx.np.ma.getdata(tr.data)[j], x[j]))


@harness('C25', 'mask_arguments', quick=[dict()])
def mask_arguments(cx):
    m = cx.mod('seismic.correlate.preprocessing_stream')
    tr, x = trace(cx, 'a', 4)
    st = cx.mod('obspy.core.stream').Stream([tr])
    t = [cx.utc(T0 + 1)]
    for a in [dict(), dict(ends=t, masklen=2.), dict(ends=t * 2)]:
        cx.raises('incompatible', ValueError,
                  lambda: m.stream_mask_at_utc(st, t, **a))
    cx.eqs('unchanged', [tr.data[j] for j in range(4)], x)


def sine(n, w):
    """sides of w samples rise like a sine"""
    f = [1.] * n
    for j in range(w):
        f[j] = f[n - 1 - j] = math.sin(math.pi * j / (2 * w - 1))
    return f


@harness('C25', 'taper', cost=2, quick=[dict()])
def taper(cx):
    """tapered at the ends of the records, and of the parts between gaps"""
    m = cx.mod('seismic.correlate.preprocessing_stream')
    at = cx.pick('at masked', [True, False])
    gap = GAPS[cx.pick('gap', list(GAPS) if at else ['none', 'middle'])]
    sr = cx.pick('sr', [1., 2.])
    w = cx.pick('samples', [1, 2, 4, 5])
    as_trace = cx.pick('trace', [False, True])
    whole = cx.pick('integers', [False, True])
    tr, x = trace(cx, 'a', N, sr=sr, gap=gap)
    tr2, x2 = trace(cx, 'b', 2 * w)
    if whole:
        x = [cx.int('i%d' % j, -3, 3) for j in range(N)]
        if cx.symbolic:
            tr.data = cx.np.ma.array(cx.np.array(x), mask=[
                j in gap for j in range(N)]) if gap else cx.np.array(x)
        else:
            tr.data = np.ma.array(x, mask=[
                j in gap for j in range(N)]) if gap else np.array(x)
    if as_trace:
        out = m.cos_taper_st(tr, w / sr, taper_at_masked=at)
        cx.check('stream', len(out) == 1)
    else:
        st = cx.mod('obspy.core.stream').Stream([tr2, tr])
        out = m.cos_taper_st(st, w / sr, taper_at_masked=at)
        cx.check('stream', len(out) == 2 and out[0] is tr2)
    tr = out[len(out) - 1]
    same_frame(cx, tr, N, sr=sr)
    f = [1.] * N
    for seg in segments(N, gap) if at else [list(range(N))]:
        if 2 * w <= len(seg):
            for j, v in zip(seg, sine(len(seg), w)):
                f[j] = v
    for j in range(N):
        cx.check('gaps', masked(cx, tr.data, j) == (j in gap))
        if j not in gap:
            cx.close('tapered', [cx.np.ma.getdata(tr.data)[j]],
                     [x[j] * f[j]], 1e-9)


@harness('C25', 'detrend', cost=2, quick=[dict()])
def detrend(cx):
    """the parts between gaps are detrended, at their time"""
    m = cx.mod('seismic.correlate.preprocessing_stream')
    name = cx.pick('gap', list(GAPS))
    gap = GAPS[name]
    kind = cx.pick('type', ['constant', 'linear', 'demean'])
    tr, x = trace(cx, 'a', N, gap=gap)
    tr2, x2 = trace(cx, 'b', 3)
    st = cx.mod('obspy.core.stream').Stream([tr, tr2])
    out = m.detrend_st(st, kind)
    cx.check('stream', len(out) == 2 and out[0] is tr and out[1] is tr2)
    same_frame(cx, tr, N)
    for t, xs, n, g in ((tr, x, N, gap), (tr2, x2, 3, [])):
        for j in range(n):
            cx.check('gaps', masked(cx, t.data, j) == (j in g))
        for seg in segments(n, g):
            o = [cx.np.ma.getdata(t.data)[j] for j in seg]
            d = [xs[j] - v for j, v in zip(seg, o)]
            cx.close('mean', [seq_sum(o)], [0.], 1e-6)
            if kind != 'linear':
                cx.close('offset', d, [d[0]] * len(d), 1e-6)
                continue
            cx.close('slope', [seq_sum([
                v * k for k, v in enumerate(o)])], [0.], 1e-5)
            for k in range(1, len(d) - 1):
                cx.close('line', [d[k - 1] - 2 * d[k] + d[k + 1]], [0.],
                         1e-5)


FILT = {'bandpass': dict(freqmin=.1, freqmax=.3),
        'lowpass': dict(freq=.2, zerophase=True),
        'highpass': dict(freq=.1, corners=2)}


@harness('C25', 'filter', quick=[dict()])
def stfilter(cx):
    """the parts between gaps are filtered each on their own"""
    m = cx.mod('seismic.correlate.preprocessing_stream')
    import obspy.signal.filter as of
    gap = GAPS[cx.pick('gap', list(GAPS))]
    kind = cx.pick('filter', list(FILT))
    tr, x = trace(cx, 'a', N, gap=gap)
    tr2, x2 = trace(cx, 'b', 4, t0=T0 + 3)
    tr2.stats.station = 'T'
    args = dict(FILT[kind])
    st = tr if cx.pick('one trace', [False, True]) else cx.mod(
        'obspy.core.stream').Stream([tr, tr2])
    one = st is tr
    out = m.stream_filter(st, kind, args)
    cx.check('settings', args == FILT[kind])
    want = [(x, N, gap, T0, 'S')] + ([] if one else [
        (x2, 4, [], T0 + 3, 'T')])
    want = [w for w in want if segments(w[1], w[2])]
    cx.check('traces', [t.stats.station for t in out] == [
        w[4] for w in want])
    for t, (xs, n, g, t0, _) in zip(out, want):
        lag = t.stats.starttime - cx.utc(t0)
        seg = segments(n, g)
        first = seg[0][0]
        cx.close('start', [lag], [float(first)], 1e-6)
        cx.check('length', len(t.data) == seg[-1][-1] - first + 1)
        for j in range(len(t.data)):
            cx.check('gaps', masked(cx, t.data, j) == (j + first in g))
        for s in seg:
            M = [getattr(of, kind)(e, df=1., **args) for e in np.eye(len(s))]
            for j in s:
                cx.close('filtered', [cx.np.ma.getdata(t.data)[j - first]], [
                    seq_sum([xs[i] * float(M[i - s[0]][j - s[0]])
                             for i in s])], 1e-6)
    cx.raises('no stream', TypeError,
              lambda: m.stream_filter([1.], kind, args))


@harness('C25', 'interpolate', cost=2, quick=[dict(n=5), dict(n=7)],
         thorough=[dict(n=9)])
def interpolate(cx, n):
    """gaps up to the given length are filled linearly, others stay"""
    m = cx.mod('seismic.utils.miic_utils')
    gaps = [cx.pick('gap%d' % j, [False, True]) for j in range(n)]
    lim = cx.pick('longest', [-1, 1, 2, 0])
    how = cx.pick('missing', ['nan', 'mask'])
    a = cx.arr('a', n, -4, 4)
    x = [a[j] for j in range(n)]
    if how == 'nan':
        for j in range(n):
            if gaps[j]:
                a[j] = math.nan
    else:
        a = cx.np.ma.array(a, mask=gaps)
    out = m.interpolate_gaps(a, lim)
    cx.check('length', len(out) == n)
    j = 0
    while j < n:
        if not gaps[j]:
            cx.check('kept', cx.lnot(masked(cx, out, j)))
            cx.check('value', cx.eq(cx.np.ma.getdata(out)[j], x[j]))
            j += 1
            continue
        e = j
        while e < n and gaps[e]:
            e += 1
        fill = j > 0 and e < n and (lim == -1 or e - j <= lim)
        for i in range(j, e):
            if not fill:
                cx.check('gap', masked(cx, out, i))
                continue
            cx.check('filled', cx.lnot(masked(cx, out, i)))
            w = (i - j + 1) / (e - j + 1)
            cx.close('line', [cx.np.ma.getdata(out)[i]],
                     [x[j - 1] * (1 - w) + x[e] * w], 1e-9)
        j = e


@harness('C25', 'gaps', cost=3, quick=[dict()])
def gaps(cx):
    """short gaps are filled, short snippets left out, parts tapered"""
    m = cx.mod('seismic.utils.miic_utils')
    sr = cx.pick('sr', [1., 2.])
    # start and number of samples of the parts
    parts = cx.pick('parts', [
        [(0, 12)], [(0, 5), (6, 6)], [(0, 5), (9, 5)], [(6, 6), (0, 5)],
        [(0, 2), (5, 6)], [(0, 5), (3, 6)], [(0, 1), (4, 1)]])
    long = cx.pick('longest', [1, 3])
    keep = cx.pick('retain', [0, 2]) / sr
    w = cx.pick('taper', [1, 2])
    full = {}
    trs = []
    for i, (s, n) in enumerate(parts):
        tr, x = trace(cx, 'a%d' % i, n, t0=T0 + s / sr, sr=sr)
        for j in range(n):
            if s + j in full:
                # overlaps agree
                tr.data[j] = full[s + j]
            else:
                full[s + j] = x[j]
        trs.append(tr)
    st = cx.mod('obspy.core.stream').Stream(trs)
    out = m.gap_handler(st, long, keep, w / sr)
    # expected samples
    n = max(full) + 1
    val = [full.get(j) for j in range(n)]
    j = 0
    while j < n:
        if val[j] is None:
            e = j
            while val[e] is None:
                e += 1
            if e - j <= long:
                lo, hi = val[j - 1], val[e]
                for i in range(j, e):
                    f = (i - j + 1) / (e - j + 1)
                    val[i] = lo * (1 - f) + hi * f
            j = e
        j += 1
    want = [None] * n
    for seg in segments(n, [j for j in range(n) if val[j] is None]):
        if len(seg) / sr <= keep:
            continue
        f = sine(len(seg), w) if 2 * w <= len(seg) else [1.] * len(seg)
        for j, v in zip(seg, f):
            want[j] = val[j] * v
    left = [j for j in range(n) if want[j] is not None]
    cx.check('traces', len(out) == (1 if left else 0))
    if not left:
        return
    t = out[0]
    cx.check('span', cx.land(
        cx.eq(t.stats.starttime, cx.utc(T0 + left[0] / sr)),
        t.stats.npts == left[-1] - left[0] + 1,
        t.stats.sampling_rate == sr))
    for j in range(left[0], left[-1] + 1):
        i = j - left[0]
        cx.check('gap', masked(cx, t.data, i) == (want[j] is None))
        if want[j] is not None:
            cx.close('value', [cx.np.ma.getdata(t.data)[i]], [want[j]],
                     1e-9)
