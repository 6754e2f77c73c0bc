"""Preparation of raw records before they are cut to windows."""
import math
import numpy as np
from symx.run import harness
from .common import seq_sum, patched
from .c25 import trace, masked, segments, sine, same_frame, T0


def stream(cx, trs):
    return cx.mod('obspy.core.stream').Stream(trs)


def impulse(f, n):
    """matrix of a linear function of a trace, from the library itself"""
    import obspy
    out = []
    for e in np.eye(n):
        tr = obspy.Trace(e)
        out.append(np.asarray(f(tr).data))
    return np.array(out)


@harness('C26', 'rate', cost=2, quick=[dict(n=8), dict(n=5)],
         thorough=[dict(n=13)])
def rate(cx, n):
    """low pass, then every k-th sample, from the first one on"""
    m = cx.mod('seismic.utils.miic_utils')
    new = cx.pick('new', [1., 2., 4., 3., .125])
    filt = cx.pick('filter', [True, False])
    how = cx.pick('data', ['trace', 'stream', 'mixed'])
    tr, x = trace(cx, 'a', n, sr=4.)
    tr2, y = trace(cx, 'b', 4, t0=T0 + 3, sr=4. if how == 'stream' else 2.)
    tr2.stats.station = 'T'
    d = tr if how == 'trace' else stream(cx, [tr, tr2])
    kw = {} if filt and cx.pick('default', [False, True]) else {
        'filter': filt}
    out = m.resample_or_decimate(d, new, **kw)
    if how == 'trace':
        cx.check('trace', out is tr)
    else:
        cx.check('stream', len(out) == 2 and out[0] is tr and
                 out[1] is tr2)
    todo = [(tr, x, n, 4., T0)]
    if how != 'trace':
        todo.append((tr2, y, 4, 4. if how == 'stream' else 2., T0 + 3))

    for t, xs, k, sr, t0 in todo:
        cx.check('start', cx.eq(t.stats.starttime, cx.utc(t0)))
        if sr <= new:
            # nothing to do, or not possible
            cx.check('unchanged', cx.land(t.stats.sampling_rate == sr,
                                          t.stats.npts == k))
            cx.eqs('samples', [t.data[j] for j in range(k)], xs)
            continue

        def lib(tr):
            tr.stats.sampling_rate = sr
            f = sr / new
            if filt:
                tr.filter('lowpass_cheby_2', maxorder=12, freq=sr * (
                    .5 if f <= 16 else .45) / f)
            if f == int(f):
                tr.data = tr.data[::int(f)]
            else:
                tr.resample(new)
            return tr
        M = impulse(lib, k)
        cx.close('rate', [t.stats.sampling_rate], [new], 1e-9)
        cx.check('number', t.stats.npts == M.shape[1] == len(t.data))
        for j in range(M.shape[1]):
            cx.close('sample', [t.data[j]], [seq_sum([
                xs[i] * float(M[i, j]) for i in range(k)])], 1e-6)


@harness('C26', 'rate_refused', quick=[dict()])
def rate_refused(cx):
    m = cx.mod('seismic.utils.miic_utils')
    tr, x = trace(cx, 'a', 4, sr=2.)
    for d in (tr, stream(cx, [tr])):
        cx.raises('higher', ValueError,
                  lambda: m.resample_or_decimate(d, 2.5))
    cx.raises('type', TypeError, lambda: m.resample_or_decimate(x, 1.))
    e = stream(cx, [])
    cx.check('empty', m.resample_or_decimate(e, 1.) is e)
    cx.eqs('unchanged', [tr.data[j] for j in range(4)], x)


@harness('C26', 'cut', cost=2, quick=[dict(n=5)], thorough=[dict(n=8)])
def cut(cx, n):
    """time is cut off both ends, to the nearest sample"""
    m = cx.mod('seismic.utils.miic_utils')
    sr = cx.pick('sr', [1., 2.])
    tr, x = trace(cx, 'a', n, sr=sr)
    tr2, y = trace(cx, 'b', n + 2, t0=T0 + 7, sr=sr)
    a = cx.real('start', 0., (n - 1) / 2 / sr)
    b = cx.real('end', 0., (n - 1) / 2 / sr)
    cx.assume(cx.le(a + b, (n - 1.2) / sr))
    for v in (a, b):
        for j in range(n):
            cx.assume(cx.lor(cx.le(v, (j + .5) / sr - 1e-4),
                             cx.le((j + .5) / sr + 1e-4, v)))
    st = stream(cx, [tr, tr2])
    out = m.trim_stream_delta(st, a, b)
    cx.check('stream', len(out) == 2 and out[0] is tr and out[1] is tr2)
    for t, xs, k, t0 in ((tr, x, n, T0), (tr2, y, n + 2, T0 + 7)):
        for j in range(k):
            keep = cx.land(cx.le(a - .5 / sr, j / sr),
                           cx.le(j / sr, (k - 1) / sr - b + .5 / sr))
            # position in the result
            at = j / sr - (t.stats.starttime - cx.utc(t0))
            found = cx.lor(*[cx.land(
                cx.near(at, i / sr, 1e-5), cx.eq(t.data[i], xs[j]))
                for i in range(len(t.data))])
            cx.check('kept', cx.implies(keep, found))
        num = cx.count([cx.land(
            cx.le(a - .5 / sr, j / sr),
            cx.le(j / sr, (k - 1) / sr - b + .5 / sr)) for j in range(k)])
        cx.check('number', cx.eq(len(t.data), num))


@harness('C26', 'discard', quick=[dict()])
def discard(cx):
    """traces that are too short or have no data are left out"""
    m = cx.mod('seismic.utils.miic_utils')
    ns = [cx.pick('n%d' % i, [1, 3, 4]) for i in range(3)]
    trs = [trace(cx, 'a%d' % i, n, sr=s)[0]
           for i, (n, s) in enumerate(zip(ns, [1., 2., 1.]))]
    if cx.pick('same', [False, True]):
        trs[2] = trs[0].copy()
    length = cx.real('length', 0., 5.)
    st = stream(cx, trs)
    m.discard_short_traces(st, length)
    left = list(st)
    for i, t in enumerate(trs):
        keep = cx.lt(length, t.stats.npts / t.stats.sampling_rate)
        cx.check('kept', cx.eq(keep, any(t is q for q in left)))
    cx.check('order', [id(t) for t in left] == [
        id(t) for t in trs if any(t is q for q in left)])


@harness('C26', 'valid', quick=[dict()])
def valid(cx):
    m = cx.mod('seismic.utils.miic_utils')
    gs = [cx.pick('gap%d' % i, [(), (1,), (0, 1, 2)]) for i in range(3)]
    trs = []
    for i, g in enumerate(gs):
        trs.append(trace(cx, 'a%d' % i, 3, gap=g)[0])
        trs[-1].stats.station = 'S%d' % i
    st = stream(cx, trs)
    m.get_valid_traces(st)
    cx.check('kept', [t.stats.station for t in st] == [
        'S%d' % i for i, g in enumerate(gs) if len(g) < 3])


class Inv:
    """orientation of the sensors, and for which stations there is a
    response"""

    def __init__(self, dip, stations=('S', 'T')):
        self.dip, self.stations, self.asked = dip, list(stations), []

    def get_orientation(self, seed_id, datetime=None):
        self.asked.append((seed_id, datetime))
        return {'dip': self.dip[seed_id.split('.')[1]], 'azimuth': 0.}

    def __iadd__(self, o):
        self.stations += o.stations
        return self

    def __add__(self, o):
        return Inv(self.dip, self.stations + o.stations)


@harness('C26', 'polarity', quick=[dict()])
def polarity(cx):
    """only vertical components that point down are reversed"""
    m = cx.mod('seismic.utils.miic_utils')
    dip = {s: cx.real('dip' + s, -90., 90.) for s in 'STU'}
    chas = [cx.pick('cha%d' % i, ['HHZ', 'HHN', 'BHZ']) for i in range(3)]
    trs, xs = [], []
    for i, (s, c) in enumerate(zip('STU', chas)):
        t, x = trace(cx, 'a%d' % i, 3)
        t.stats.station, t.stats.channel = s, c
        trs.append(t)
        xs.append(x)
        t.stats.starttime = cx.utc(T0 + 1000 * i)
    inv = Inv(dip)
    m.correct_polarity(stream(cx, trs), inv)
    for t, x, s, c in zip(trs, xs, 'STU', chas):
        f = cx.ite(cx.lt(0., dip[s]), -1., 1.) if c[-1] == 'Z' else 1.
        cx.eqs('sign', [t.data[j] for j in range(3)], [v * f for v in x])
    # the orientation of the time of the record
    for i, d in inv.asked:
        k = 'STU'.index(i.split('.')[1])
        cx.check('asked', cx.land(cx.le(cx.utc(T0 + 1000 * k), d), cx.le(
            d, trs[k].stats.endtime)))


def line(n):
    """matrix that removes the best line"""
    if n == 1:
        return np.zeros((1, 1))
    X = np.array([[1., k] for k in range(n)])
    return np.eye(n) - X @ np.linalg.pinv(X)


PARTS = {'full': [(0, 12)], 'gap': [(0, 5), (7, 5)],
         'short gap': [(0, 5), (6, 6)], 'late': [(4, 8)],
         'snippet': [(0, 1), (4, 8)], 'early': [(0, 6)], 'long': [(-2, 17)],
         'short': [(3, 1)], 'none': []}


@harness('C26', 'prepare', cost=3, quick=[dict()])
def prepare(cx):
    """detrended, tapered, corrected and processed at its own time"""
    m = cx.mod('seismic.correlate.correlate')
    parts = PARTS[cx.pick('parts', list(PARTS))]
    w = cx.pick('taper', [0, 1])
    steps = cx.pick('steps', ['none', 'mask', 'old', 'filter'])
    response = cx.pick('response', [False, True, 'remote'])
    dip = cx.pick('dip', [-90., 90., None])
    # corr_len / 20: shorter records are of no use
    clen = cx.pick('corr_len', [20., 100.])
    trs, xs = [], []
    for i, (s, n) in enumerate(parts):
        t, x = trace(cx, 'a%d' % i, n, t0=T0 + s)
        trs.append(t)
        xs.append(x)
    trs.reverse()
    log = []

    class Store:
        inventory = None if dip is None and not response else Inv(
            {'S': dip}, ['S'] if response != 'remote' else ['X'])

        class rclient:
            @staticmethod
            def get_stations(**k):
                log.append(('remote', k))
                return Inv({}, ['S'])

        def _write_inventory(self, ninv):
            log.append(('written', ninv.stations))

    def remove_response(self, inventory=None, taper=True, **k):
        if 'S' not in inventory.stations:
            raise ValueError('no response')
        for t in self:
            t.data = t.data * 3.
        log.append(('removed', len(self), taper))

    pre = {'none': None, 'mask': [{
        'function': 'seismic.correlate.preprocessing_stream.'
                    'stream_mask_at_utc',
        'args': {'starts': [cx.utc(T0 + 7.5)], 'ends': [
            cx.utc(T0 + 8.5)]}}],
        'old': [{'function': 'seismic.correlate.preprocessing_stream.'
                 'cos_taper_st', 'args': {'taper_len': 3}}],
        'filter': [{'function': 'seismic.correlate.preprocessing_stream.'
                    'stream_filter', 'args': {
                        'ftype': 'lowpass', 'filter_option': {
                            'freq': .2}}}]}[steps]
    S = cx.mod('obspy.core.stream').Stream
    with patched(S, remove_response=remove_response):
        out = m.preprocess_stream(
            stream(cx, trs), Store(), cx.utc(T0), cx.utc(T0 + 11),
            float(w), bool(response), {'corr_len': clen}, pre)
    # expected
    off = 2
    val = [None] * 20
    for (s, n), x in zip(parts, xs):
        M = line(n)
        for j in range(n):
            val[s + j + off] = seq_sum([
                x[k] * float(M[j, k]) for k in range(n)])
    for j in range(1, 19):
        if val[j] is None and val[j - 1] is not None and val[j + 1] \
                is not None:
            val[j] = (val[j - 1] + val[j + 1]) / 2
    want = [None] * 20
    sgn = (3. if response else 1.) * (-1. if dip == 90. else 1.)
    import obspy.signal.filter as of
    for seg in segments(20, [j for j in range(20) if val[j] is None]):
        if len(seg) <= 4 * w or len(seg) <= clen / 20:
            continue
        f = sine(len(seg), w) if 2 * w <= len(seg) else [1.] * len(seg)
        v = [val[j] * (c * sgn) for j, c in zip(seg, f)]
        if steps == 'filter':
            M = [of.lowpass(e, df=1., freq=.2) for e in np.eye(len(seg))]
            v = [seq_sum([v[i] * float(M[i][j]) for i in range(len(v))])
                 for j in range(len(v))]
        for j, c in zip(seg, v):
            want[j] = c
    if steps == 'mask' and any(v is not None for v in want):
        for j in (7, 8, 9):
            want[j + off] = None
    have = [j for j in range(20) if want[j] is not None]
    # records are refused also if too short after padding: never here
    # (12 samples), so a record is returned if there are samples
    # before cutting
    cx.check('records', len(out) == (1 if have and 12 > clen / 20 else 0))
    if not len(out):
        return
    t = out[0]
    same_frame(cx, t, 12)
    for j in range(12):
        v = want[j + off]
        cx.check('missing', masked(cx, t.data, j) == (v is None))
        if v is not None:
            cx.close('sample', [cx.np.ma.getdata(t.data)[j]], [v], 1e-6)
    if response == 'remote':
        cx.check('response loaded', [e[0] for e in log] == [
            'remote', 'removed', 'written'] and log[2][1] == ['S'])
    elif response:
        cx.check('response', [e[0] for e in log] == ['removed'])
    else:
        cx.check('no response', log == [])
