"""Correlation functions of the noise records."""
import numpy as np

from symx.run import harness
from .common import NoLog, Ranks, seq_sum


def corr(cx, A, starts, combis, sr, S, psize=1, center=False, norm=False,
         td=(), fd=()):
    """runs the real correlation kernel on psize simulated ranks"""
    m = cx.mod('seismic.correlate.correlate')

    def rank(r, comm):
        c = object.__new__(m.Correlator)
        c.comm, c.psize, c.rank = comm, psize, r
        c.logger = NoLog()
        c.sampling_rate = sr
        c.options = {
            'combinations': list(combis), 'starttime': list(starts),
            'sampling_rate': sr,
            'corr_args': {
                'TDpreProcessing': list(td), 'FDpreProcessing': list(fd),
                'lengthToSave': S / sr, 'center_correlation': center,
                'normalize_correlation': norm, 'combinations': []}}
        return c._pxcorr_matrix(A.copy())
    rk = Ranks(psize)
    out = rk.run(rank)
    cx.check('collective calls match', rk.mismatch is None)
    return out


def oracle(a, b, lag):
    """sum of products of samples whose distance is lag samples"""
    n = len(a)
    return seq_sum([a[i] * b[i + lag] for i in range(n)
                    if 0 <= i + lag < n])


def TOL(cx):
    """exact in the encoding, single precision in the real code"""
    return cx.eqs if cx.symbolic else cx.close


def expect(cx, tag, out, lags, a, b, ta, tb, sr, S, center, cmp, scale=1.):
    """out[k] must belong to the reported lag lags + k/sr in real time"""
    off = int(round((ta - tb) * sr))        # start difference in samples
    # lag (in samples of real time) of the first value
    first = lags * sr
    f = int(round(float(first)))
    cx.check(tag + ' first lag', cx.eq(first, float(f)))
    exp = [oracle(a, b, f + k + off) * scale for k in range(2 * S + 1)]
    cmp(tag + ' values', list(out), exp)


@harness('C03', 'kernel', cost=3, quick=[
    dict(psize=1, n=2, T=2, S=2), dict(psize=2, n=2, T=2, S=2),
    dict(psize=1, n=3, T=2, S=1), dict(psize=1, n=1, T=2, S=3),
], thorough=[dict(psize=3, n=2, T=3, S=2), dict(psize=1, n=1, T=2, S=1),
             dict(psize=2, n=3, T=3, S=1)])
def kernel(cx, psize, n, T, S):
    sr = cx.pick('sr', [1., 4.])
    center = cx.pick('center', [False, True])
    m = cx.pick('offset', [0, 1, -1, 3] if not center else [0])
    A = cx.arr('a', (T, n), -8, 8)
    combis = cx.pick('combis', [[(0, 1)], [(1, 0)], [(0, 0), (0, 1)],
                                [(i, j) for i in range(T)
                                 for j in range(T)]])
    t0 = [cx.utc(0) + (m / sr if i else 0.) for i in range(T)]
    res = corr(cx, A, t0, combis, sr, S, psize, center)
    C, lags = res[0]
    cx.check('shape', tuple(C.shape) == (len(combis), 2 * S + 1))
    for i, (p, q) in enumerate(combis):
        ta, tb = (m / sr if p else 0.), (m / sr if q else 0.)
        expect(cx, 'pair', C[i], lags[i], list(A[p]), list(A[q]), ta, tb,
               sr, S, center, TOL(cx))
    for C2, l2 in res[1:]:
        TOL(cx)('all ranks', C2, C)
        cx.eqs('all ranks lags', list(l2), list(lags))


@harness('C03', 'linear', cost=4, quick=[
    dict(n=3, S=2), dict(n=4, S=3), dict(n=7, S=8), dict(n=6, S=2),
], thorough=[dict(n=8, S=7), dict(n=12, S=3), dict(n=9, S=9),
             dict(n=5, S=1)])
def linear(cx, n, S):
    """one record symbolic, the other a unit impulse: the kernel is bilinear,
    so impulses at every position span the second argument"""
    sr = 2.
    center = cx.pick('center', [False, True])
    m = cx.pick('offset', [0, 2, -3, 1] if not center else [0])
    pos = cx.pick('pos', sorted({0, 1, n // 2, n - 1}))
    a = cx.arr('a', n, -1, 1)
    b = np.zeros(n)
    b[pos] = 1.
    A = cx.np.vstack([a, b]) if cx.symbolic else np.vstack([a, b])
    t0 = [cx.utc(0), cx.utc(m / sr)]
    combis = cx.pick('combis', [[(0, 1)], [(1, 0)]])
    C, lags = corr(cx, A, t0, combis, sr, S, 1, center)[0]
    p, q = combis[0]
    ta, tb = (m / sr if p else 0.), (m / sr if q else 0.)
    expect(cx, 'pair', C[0], lags[0], list(A[p]), list(A[q]), ta, tb, sr, S,
           center, cx.close)


@harness('C03', 'fractional_length', quick=[
    dict(n=6, S=2.5), dict(n=5, S=2.5), dict(n=3, S=.5)])
def fractional_length(cx, n, S):
    """a saved length that is no multiple of the sample distance"""
    k = int(np.ceil(S))
    a = cx.arr('a', n, -1, 1)
    pos = cx.pick('pos', range(n))
    b = np.zeros(n)
    b[pos] = 1.
    A = cx.np.vstack([a, b]) if cx.symbolic else np.vstack([a, b])
    combis = cx.pick('combis', [[(0, 1)], [(1, 0)]])
    C, lags = corr(cx, A, [cx.utc(0)] * 2, combis, 1., S)[0]
    p, q = combis[0]
    cx.check('first lag', cx.eq(lags[0], float(-k)))
    cx.close('values', list(C[0]), [
        oracle(list(A[p]), list(A[q]), i - k) for i in range(2 * k + 1)])


@harness('C03', 'normalised', cost=2, quick=[
    dict(n=3, S=1), dict(n=2, S=2)])
def normalised(cx, n, S):
    """dividing by the root of the product of the energies"""
    a = cx.arr('a', n, -8, 8)
    e = seq_sum([x * x for x in a])
    cx.assume(e > .01)
    b = cx.pick('b', [[1., 0., 0.], [0., 2., 0.], [3., -4., 0.],
                      [1., 2., 2.] if n == 3 else [-4., 3.]])[:n]
    eb = float(np.sqrt(np.sum(np.square(b))))
    A = (cx.np if cx.symbolic else np).vstack([a, b])
    combis = cx.pick('combis', [[(0, 0), (0, 1)], [(1, 0), (1, 1)]])
    C, lags = corr(cx, A, [cx.utc(0)] * 2, combis, 1., S, norm=True)[0]
    (p, q) = combis[0] if combis[0][0] != combis[0][1] else combis[1]
    i = combis.index((p, q))
    TOL(cx)('autocorrelation peak', [C[1 - i][S]], [1.])
    for k in range(2 * S + 1):
        o = oracle(list(A[p]), list(A[q]), k - S)
        if cx.symbolic and abs(eb - round(eb)) < 1e-9:
            eb = round(eb)
            cx.check('size', cx.eq(
                C[i][k] * C[i][k] * e * eb * eb, o * o))
            cx.check('sign', cx.land(
                cx.implies(o > 0, C[i][k] > 0),
                cx.implies(o < 0, C[i][k] < 0)))
        elif not cx.symbolic:
            cx.close('size', [C[i][k]], [o / np.sqrt(e) / eb])


@harness('C03', 'masked', quick=[dict(n=2)])
def masked(cx, n):
    """masked samples and missing ends count as zeros"""
    m = cx.mod('seismic.correlate.correlate')
    A = cx.arr('a', (2, n), -8, 8, nan=True)
    clean = [[cx.ite(cx.isnan(x), 0., x) for x in A[i]] for i in range(2)]
    C, lags = corr(cx, A, [cx.utc(0)] * 2, [(0, 1)], 1., 2)[0]
    TOL(cx)('values', list(C[0]), [
        oracle(clean[0], clean[1], k - 2) for k in range(5)])


@harness('C03', 'matrix', quick=[dict()])
def matrix(cx):
    m = cx.mod('seismic.correlate.correlate')
    T = cx.mod('obspy.core.trace').Trace
    S = cx.mod('obspy.core.stream').Stream
    lens = [cx.pick('n0', [1, 2, 3]), cx.pick('n1', [1, 3])]
    d = [cx.arr(f'd{i}', lens[i]) for i in range(2)]
    st = S([T(x.copy()) for x in d])
    A, out = m.st_to_np_array(st, 3)
    cx.check('shape', tuple(A.shape) == (2, 3))
    for i in range(2):
        cx.eqs('row', list(A[i]), list(d[i]) + [0.] * (3 - lens[i]))


@harness('C03', 'steps', quick=[dict(psize=1), dict(psize=2)])
def steps(cx, psize):
    """the requested processing is applied once to every record"""
    n = 2
    A = cx.arr('a', (3, n))
    td = [{'function': 'seismic.correlate.preprocessing_td.'
           'signBitNormalization', 'args': []}]
    combis = [(0, 1), (1, 2), (0, 2)]
    sgn = [[cx.ite(x > 0, 1., cx.ite(x < 0, -1., 0.)) for x in A[i]]
           for i in range(3)]
    C, lags = corr(cx, A, [cx.utc(0)] * 3, combis, 1., 2, psize, td=td)[0]
    for i, (p, q) in enumerate(combis):
        TOL(cx)('values', list(C[i]), [
            oracle(sgn[p], sgn[q], k - 2) for k in range(5)])


@harness('C03', 'inner', cost=3, quick=[dict(psize=1), dict(psize=2)])
def inner(cx, psize):
    """from records to correlation traces: header and data agree, whatever
    the order of the pair"""
    m = cx.mod('seismic.correlate.correlate')
    T = cx.mod('obspy.core.trace').Trace
    St = cx.mod('obspy.core.stream').Stream
    n, S = 2, 2
    sr = cx.pick('sr', [1., 4.])
    off = cx.pick('offset', [0, 1, -1])
    center = cx.pick('center', [False, True]) if off == 0 else False
    d = [cx.arr(f'd{i}', n, -8, 8) for i in range(2)]
    stas = cx.pick('stas', [('A', 'B'), ('B', 'A'), ('AB', 'A'),
                            ('A', 'AB')])
    combis = cx.pick('combis', [[(0, 1)], [(1, 0)], [(0, 1), (1, 0)]])
    t0 = cx.utc(1e6)
    t = [t0, t0 + off / sr]

    def rank(r, comm):
        c = object.__new__(m.Correlator)
        c.comm, c.psize, c.rank = comm, psize, r
        c.logger = NoLog()
        c.sampling_rate = sr
        c.options = {
            'combinations': list(combis), 'sampling_rate': sr,
            'corr_args': {
                'TDpreProcessing': [], 'FDpreProcessing': [],
                'lengthToSave': S / sr, 'center_correlation': center,
                'normalize_correlation': False}}
        st = St([T(d[i].copy(), header=dict(
            network='X', station=stas[i], channel='HHZ', sampling_rate=sr,
            starttime=t[i])) for i in range(2)])
        return c._pxcorr_inner(st, None)
    rk = Ranks(psize)
    res = rk.run(rank)
    cx.check('collective calls match', rk.mismatch is None)
    p, q = (0, 1) if stas[0] < stas[1] else (1, 0)
    for cst in res:
        cx.check('number', len(cst) == len(combis))
        for tr in cst:
            s = tr.stats
            cx.check('name', s.station == stas[p] + '-' + stas[q])
            cx.check('npts', s.npts == 2 * S + 1)
            cx.check('sampling', cx.eq(s.sampling_rate, sr))
            ta, tb = (off / sr if p else 0.), (off / sr if q else 0.)
            expect(cx, 'trace', tr.data, s.start_lag, list(d[p]),
                   list(d[q]), ta, tb, sr, S, center, TOL(cx))
            cx.check('end_lag', cx.eq(s.end_lag, s.start_lag + 2 * S / sr))
            lo, hi = min(t), max(t)
            cx.check('start', cx.eq(s.corr_start, hi))
            cx.check('end', cx.eq(s.corr_end, lo + (n - 1) / sr))
