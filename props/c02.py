"""Pair order independence and the combined header."""
from symx.run import harness

CODES = ['network', 'station', 'location', 'channel']


def mkhdr(cx, i, lens, geo, t, npts, sr, extra):
    T = cx.mod('obspy.core.trace')
    h = T.Stats()
    h.sampling_rate = sr
    h.npts = npts
    h.starttime = t
    for k, n in zip(CODES, lens):
        h[k] = cx.string(f'{k}{i}', n) if f'{k}{i}' not in extra \
            else extra[f'{k}{i}']
    if geo is not None:
        h['stla'], h['stlo'], h['stel'] = geo
    return h


def clone(cx, h):
    return h.copy()


SYM = ['start_lag', 'end_lag', 'corr_start', 'corr_end', 'stla', 'stlo',
       'stel', 'evla', 'evlo', 'evel', 'dist', 'az', 'baz', 'npts',
       'sampling_rate', 'delta']


def less(cx, a, b):
    """a < b for strings or symbolic strings, tuple-wise"""
    r = False
    for x, y in reversed(list(zip(a, b))):
        r = cx.lor(x < y, cx.land(x == y, r))
    return r


@harness('C02', 'swap', cost=5, quick=[
    dict(l1=(1, 1, 0, 1), l2=(1, 1, 0, 1)),
    dict(l1=(1, 1, 1, 1), l2=(1, 2, 0, 1)),
    dict(l1=(1, 1, 1, 1), l2=(1, 1, 1, 1)),
    dict(l1=(1, 2, 0, 1), l2=(2, 1, 0, 1)),
    dict(l1=(1, 1, 0, 2), l2=(1, 2, 0, 1)),
], thorough=[
    dict(l1=(2, 2, 0, 2), l2=(2, 1, 0, 2)),
    dict(l1=(1, 2, 0, 2), l2=(1, 1, 0, 3)),
    dict(l1=(2, 3, 2, 1), l2=(2, 2, 2, 2)),
])
def swap(cx, l1, l2):
    m = cx.mod('seismic.correlate.stream')
    n = cx.pick('n', [3, 4])
    d = cx.arr('d', n)
    sr = cx.real('sr', 0, 100)
    cx.assume(sr > 0)
    geo = cx.pick('geo', ['none', 'coords'])
    g = [None, None]
    if geo == 'coords':
        g = [[cx.real(f'g{i}{k}', -50, 50) for k in range(3)]
             for i in range(2)]
    t = [cx.time('ta'), cx.time('tb')]
    h1 = mkhdr(cx, 1, l1, g[0], t[0], 4, sr, {})
    h2 = mkhdr(cx, 2, l2, g[1], t[1], 5, sr, {})
    codes1 = [h1[k] for k in CODES if k != 'location']
    codes2 = [h2[k] for k in CODES if k != 'location']
    # two different channels (the zero lag identifies the data otherwise)
    cx.assume(cx.lnot(cx.land(*[a == b for a, b in zip(codes1, codes2)])))
    sl = cx.real('sl', -50, 50)
    el = sl + (n - 1) / sr
    c1 = m.CorrTrace(d.copy(), header1=h1.copy(), header2=h2.copy(),
                     start_lag=sl, end_lag=el)
    c2 = m.CorrTrace(cx.tovals(list(d)[::-1]), header1=h2.copy(),
                     header2=h1.copy(), start_lag=-el, end_lag=-sl)
    cx.eqs('data', c1.data, c2.data)
    for k in CODES:
        cx.check(k, c1.stats[k] == c2.stats[k])
    for k in SYM:
        a, b = c1.stats.get(k), c2.stats.get(k)
        cx.check(k, cx.eq(a, b) if a is not None or b is not None
                 else True)
    # the order is the alphabetical one, and lags/data/coordinates follow
    first = less(cx, codes1, codes2)
    fwd = cx.land(*[c1.stats[k] == h1[k] + '-' + h2[k] for k in CODES])
    bwd = cx.land(*[c1.stats[k] == h2[k] + '-' + h1[k] for k in CODES])
    cx.check('sorted', cx.implies(first, fwd))
    cx.check('sorted reversed', cx.implies(cx.lnot(first), bwd))
    for i in range(n):
        cx.check('forward data', cx.implies(first, cx.eq(c1.data[i], d[i])))
        cx.check('reversed data', cx.implies(
            cx.lnot(first), cx.eq(c1.data[i], d[n - 1 - i])))
    cx.check('lags', cx.implies(first, cx.land(
        cx.eq(c1.stats.start_lag, sl), cx.eq(c1.stats.end_lag, el))))
    cx.check('lags reversed', cx.implies(cx.lnot(first), cx.land(
        cx.eq(c1.stats.start_lag, -el), cx.eq(c1.stats.end_lag, -sl))))
    if geo == 'coords':
        for k, j in zip(('la', 'lo', 'el'), range(3)):
            cx.check('st' + k, cx.eq(
                c1.stats['st' + k], cx.ite(first, g[0][j], g[1][j])))
            cx.check('ev' + k, cx.eq(
                c1.stats['ev' + k], cx.ite(first, g[1][j], g[0][j])))


@harness('C02', 'combine', quick=[dict(mode=m) for m in (
    'coords', 'sac', 'inv', 'none')])
def combine(cx, mode):
    m = cx.mod('seismic.correlate.stream')
    u = cx.mod('seismic.utils.miic_utils')
    sr = cx.real('sr', 0, 100)
    cx.assume(sr > 0)
    t = [cx.time('ta'), cx.time('tb')]
    g = [[cx.real(f'g{i}{k}', -50, 50) for k in range(3)]
         for i in range(2)]
    T = cx.mod('obspy.core.trace')
    hs = []
    npts = [cx.pick('na', [1, 4]), cx.pick('nb', [1, 6])]
    inv = None
    x = [cx.real('xa', 0, 2), cx.real('xb', 0, 2)]
    for i in range(2):
        h = T.Stats()
        h.sampling_rate = sr
        h.npts = npts[i]
        h.starttime = t[i]
        h.network, h.station = 'AB'[i], 'CD'[i]
        h.location, h.channel = '01'[i], ['HHZ', 'BHN'][i]
        h['common'] = 5
        h['differ'] = x[i]
        h['only%d' % i] = 3
        if mode == 'coords':
            h['stla'], h['stlo'], h['stel'] = g[i]
        if mode == 'sac':
            h['sac'] = dict(zip(('stla', 'stlo', 'stel'), g[i]))
        hs.append(h)
    if mode == 'inv':
        from obspy.core.inventory import Inventory, Network, Station
        nets = []
        for i in range(2):
            s = Station('CD'[i], 0, 0, 0)
            s._latitude, s._longitude, s._elevation = g[i]
            nets.append(Network('AB'[i], [s]))
        inv = Inventory(nets)
    sl = cx.real('sl', -50, 50)
    cp = [h.copy() for h in hs]
    s = m.combine_stats(hs[0], hs[1], sl, inv=inv)
    cx.check('codes', s['network'] == 'A-B' and s['station'] == 'C-D' and
             s['location'] == '0-1' and s['channel'] == 'HHZ-BHN')
    st = [h.starttime for h in cp]
    en = [h.endtime for h in cp]
    cx.check('corr_start', cx.land(
        s['corr_start'] >= st[0], s['corr_start'] >= st[1],
        cx.lor(cx.eq(s['corr_start'], st[0]),
               cx.eq(s['corr_start'], st[1]))))
    cx.check('corr_end', cx.land(
        s['corr_end'] <= en[0], s['corr_end'] <= en[1],
        cx.lor(cx.eq(s['corr_end'], en[0]), cx.eq(s['corr_end'], en[1]))))
    cx.check('start_lag', cx.eq(s['start_lag'], sl))
    cx.check('sampling_rate', cx.eq(s['sampling_rate'], sr))
    cx.check('common', s.get('common') == 5)
    cx.check('differ', cx.implies(cx.eq(x[0], x[1]), 'differ' in s)
             if 'differ' in s else cx.lnot(cx.eq(x[0], x[1])))
    if 'differ' in s:
        cx.check('differ equal', cx.eq(x[0], x[1]))
    cx.check('only', 'only0' not in s and 'only1' not in s)
    if mode == 'none':
        cx.check('no coords', 'stla' not in s and 'dist' not in s)
        return
    cx.eqs('station coords', [s[k] for k in ('stla', 'stlo', 'stel')], g[0])
    cx.eqs('event coords', [s[k] for k in ('evla', 'evlo', 'evel')], g[1])
    a = [dict(zip(('stla', 'stlo', 'stel'), q)) for q in g]
    from obspy.core.util.attribdict import AttribDict
    az, baz, dist = u.trace_calc_az_baz_dist(*[AttribDict(q) for q in a])
    cx.check('dist', cx.eq(s['dist'] * 1000, dist))
    cx.check('az', cx.eq(s['az'], az))
    cx.check('baz', cx.eq(s['baz'], baz))
