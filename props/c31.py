"""Spectral time series of a station."""
import numpy as np
from symx.run import harness
from .common import Ranks, patched, seq_sum
from . import c27

T0 = 1577836800.

# what a reading window holds: (offset, samples) of its pieces
KINDS = {'full': [(0, 9)], 'none': [], 'late': [(2, 7)], 'gap': [
    (0, 3), (5, 4)], 'short': [(1, 2)], 'early': [(0, 5)],
    'fails': [(0, 9)]}
LEN = 8         # of a reading window, s


def expected(kind, xs, W):
    """windows of a reading window: (offset, samples)"""
    out = []
    if kind in ('none', 'fails'):
        return out
    off = KINDS[kind][0][0]
    have = {}
    for (o, n), x in zip(KINDS[kind], xs):
        for j in range(n):
            have[o + j] = x[j]
    last = max(have)
    while off + W <= last:
        smp = [have.get(off + j) for j in range(W + 1)]
        if None not in smp:
            out.append((off, smp))
        off += W
    return out


def spectrum(cx, x):
    """stands for the spectrum: tells which samples it was given"""
    v = list(np.ma.filled(x, np.nan)) if not cx.symbolic \
        else cx.tovals(x.filled(np.nan) if hasattr(x, 'filled') else x)
    for y in v:
        if isinstance(y, float) and y != y:
            raise ValueError('not finite')
    return np.array([0., .5]), [seq_sum(v), v[0], v[-1], len(v)]


def keep(cx):
    def interp(f, S, f2, *a, **k):
        return cx.np.array(S)
    return interp


@harness('C31', 'series', cost=2, quick=[
    dict(n=1, P=1, W=2), dict(n=3, P=1, W=4), dict(n=2, P=2, W=4),
    dict(n=3, P=2, W=2), dict(n=3, P=3, W=8)],
    thorough=[dict(n=3, P=1, W=2), dict(n=4, P=2, W=4),
              dict(n=4, P=3, W=2)])
def series(cx, n, P, W):
    """one column per complete window, in order, for any number of
    processes"""
    m = cx.mod('seismic.utils.raw_analysis')
    mt = cx.mod('obspy.core.trace')
    ms = cx.mod('obspy.core.stream')
    kinds = [cx.pick(f'record {i}', list(KINDS)) for i in range(n)]
    xs = [[cx.arr(f'x{i}_{j}_', k[1], -3, 3)
           for j, k in enumerate(KINDS[kinds[i]])] for i in range(n)]
    order = cx.pick('order', ['ascending', 'descending'])
    bad = cx.pick('window without spectrum', [None, 0, 1])

    def streams():
        r = list(range(n))
        for i in r if order == 'ascending' else r[::-1]:
            st = ms.Stream()
            for (o, k), x in zip(KINDS[kinds[i]], xs[i]):
                tr = mt.Trace(x.copy())
                tr.stats.sampling_rate = 1.
                tr.stats.starttime = cx.utc(T0 + i * LEN + o)
                tr.stats.network = 'F' if kinds[i] == 'fails' else 'N'
                st.append(tr)
            st.merge()
            yield st

    def prep(tr, freqmax, remove_response):
        assert (freqmax, remove_response) == (.5, False)
        if tr.stats.network == 'F':
            raise ValueError('no response')
        return tr

    def welch(x, fs=1., **kw):
        res = spectrum(cx, x)
        if bad is not None and calls[0] == bad and rank_[0] == 0:
            calls[0] += 1
            raise ValueError('no spectrum')
        calls[0] += 1
        return res
    calls, rank_ = [0], [0]
    rk = Ranks(P)

    def rank(r, comm):
        calls[0], rank_[0] = 0, r

        class MPI:
            COMM_WORLD = comm
        with patched(m, MPI=MPI, welch=welch, pchip_interpolate=keep(cx),
                     preprocess=prep):
            try:
                return m.spct_series_welch(streams(), W, .5, False)
            except ValueError as e:
                return e
    res = rk.run(rank)
    cx.check('collective calls match', rk.mismatch is None)
    if rk.mismatch is not None:
        return
    exp, cnt = [], 0
    seq = range(n) if order == 'ascending' else range(n)[::-1]
    for place, i in enumerate(seq):
        for off, smp in expected(kinds[i], xs[i], W):
            if place % P == 0:
                cnt += 1
                if bad == cnt - 1:
                    continue        # this one could not be computed
            exp.append((i * LEN + off, smp))
    exp.sort(key=lambda e: e[0])
    for r in res[1:]:
        cx.check('only the first process has the result',
                 isinstance(r, tuple) and r == (None, None, None))
    if not exp:
        # nothing at all: told, or an empty series
        cx.check('nothing', isinstance(res[0], ValueError) or
                 len(res[0][1]) == 0)
        return
    cx.check('result', isinstance(res[0], tuple))
    if not isinstance(res[0], tuple):
        return
    f, t, S = res[0]
    cx.check('number', len(t) == len(exp) and S.shape[1] == len(exp))
    cx.check('frequencies', len(f) == 512 and abs(f[-1] - .5) < 1e-9 and
             abs(f[0] - .001) < 1e-9)
    for j, (t0, smp) in enumerate(exp):
        cx.check('time', cx.eq(float(t[j].timestamp), T0 + t0))
        cx.check('samples', cx.land(
            cx.near(S[0, j], seq_sum(smp), 1e-9), cx.eq(S[1, j], smp[0]),
            cx.eq(S[2, j], smp[-1]), S[3, j] == W + 1))


@harness('C31', 'spectrogram', over=c27.over, cost=2, quick=[
    dict(W=4, P=1), dict(W=2, P=2)], thorough=[
    dict(W=2, P=1), dict(W=4, P=3)])
def spectrogram(cx, W, P):
    """from the archive; how much is read at once does not matter"""
    m = cx.mod('seismic.trace_data.waveform')
    ra = cx.mod('seismic.utils.raw_analysis')
    ms = cx.mod('obspy.core.stream')
    mt = cx.mod('obspy.core.trace')
    d = cx.scratch()
    N = 16
    a = cx.pick('first piece until', [0, W, N // 2])
    b = cx.pick('second piece from', [N // 2, N - W])
    x = cx.arr('x', N + 1, -3, 3)
    inc = cx.pick('read increment', [W, 2 * W, N])
    end = cx.pick('end', [N, N // 2])
    cx.assume(end % inc == 0)
    seen = []
    disk = c27.Disk(cx, m)
    with disk:
        disk.folder(d)

        def rank(r, comm):
            sc = c27.store(cx, m, d)

            class Local:
                @staticmethod
                def get_waveforms(net, sta, loc, cha, start, stop):
                    seen.append((net, sta, cha))
                    st = ms.Stream()
                    for i, j in ((0, a), (b, N)):
                        if j > i:
                            tr = mt.Trace(x[i:j + 1].copy())
                            tr.stats.network, tr.stats.station = net, sta
                            tr.stats.channel = cha
                            tr.stats.starttime = cx.utc(T0 + i)
                            st.append(tr)
                    return st.trim(start, stop)
            sc.lclient = Local()

            class MPI:
                COMM_WORLD = comm
            with patched(ra, MPI=MPI, pchip_interpolate=keep(cx),
                         welch=lambda x, fs=1., **k: spectrum(cx, x),
                         preprocess=lambda tr, *a, **k: tr):
                try:
                    return sc.compute_spectrogram(
                        'N', 'S', 'Z', cx.utc(T0), cx.utc(T0 + end), W,
                        freq_max=.5, read_increment=inc,
                        remove_response=False)
                except ValueError as e:
                    return e
        rk = Ranks(P)
        res = rk.run(rank)[0]
        cx.check('collective calls match', rk.mismatch is None)
        if rk.mismatch is not None:
            return
        cx.check('codes', all(s == ('N', 'S', 'Z') for s in seen))
        cx.raises('increment shorter than the window', ValueError, lambda: (
            c27.store(cx, m, d).compute_spectrogram(
                'N', 'S', 'Z', cx.utc(T0), cx.utc(T0 + N), W,
                read_increment=W - 1)))
    exp = [o for o in range(0, end, W)
           if o + W <= a or b <= o]
    if not exp:
        cx.check('nothing', isinstance(res, ValueError))
        return
    cx.check('result', isinstance(res, tuple))
    if not isinstance(res, tuple):
        return
    f, t, S = res
    cx.check('number', len(t) == len(exp) and S.shape[1] == len(exp))
    for j, o in enumerate(exp):
        cx.check('time', cx.eq(float(t[j].timestamp), T0 + o))
        cx.check('samples', cx.land(
            cx.near(S[0, j], seq_sum([x[o + i] for i in range(W + 1)]),
                    1e-9),
            cx.eq(S[1, j], x[o]), cx.eq(S[2, j], x[o + W])))
