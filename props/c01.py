"""Header invariants of correlations."""
from symx.run import harness

KEYS = ['delta', 'sampling_rate', 'corr_start', 'corr_end', 'npts',
        'start_lag']


def inv(cx, tag, st, exp):
    """st must satisfy the invariants and carry the values in exp"""
    for k, v in exp.items():
        cx.check(f'{tag}:{k}', cx.eq(st[k], v))
    n = int(st['npts'])
    d = st['delta']
    cx.check(f'{tag}:delta*sampling_rate',
             cx.eq(d * st['sampling_rate'], 1))
    cx.check(f'{tag}:end_lag', cx.eq(
        st['end_lag'], st['start_lag'] + (n - 1) * d if n else
        st['start_lag']))
    cx.check(f'{tag}:starttime', cx.eq(st['starttime'], st['corr_start']))
    cx.check(f'{tag}:endtime', cx.eq(st['endtime'], st['corr_end']))
    cx.check(f'{tag}:attr', cx.eq(st.end_lag, st['end_lag']))


def value(cx, key, tag):
    if key in ('delta', 'sampling_rate'):
        v = cx.real(tag, 0, 100)
        cx.assume(v > 0)
        return v
    if key in ('corr_start', 'corr_end'):
        return cx.time(tag)
    if key == 'npts':
        return cx.pick(tag, [0, 1, 2, 7])
    return cx.real(tag, -50, 50)


def put(exp, key, v):
    exp[key] = v
    if key == 'delta':
        exp['sampling_rate'] = 1 / v
    if key == 'sampling_rate':
        exp['delta'] = 1 / v


@harness('C01', 'assign', quick=[dict(steps=3)], thorough=[dict(steps=4)],
         cost=5, max_paths=20000)
def assign(cx, steps):
    CorrStats = cx.mod('seismic.correlate.stats').CorrStats
    st = CorrStats()
    exp = dict(npts=0, start_lag=0, sampling_rate=1., delta=1.,
               corr_start=cx.utc(0), corr_end=cx.utc(0))
    inv(cx, 'default', st, exp)
    for i in range(steps):
        key = cx.pick(f'key{i}', KEYS)
        v = value(cx, key, f'v{i}')
        if i % 2:
            setattr(st, key, v)
        else:
            st[key] = v
        put(exp, key, v)
        inv(cx, 'set', st, exp)
    c = st.copy()
    inv(cx, 'copy', c, exp)
    c['start_lag'] = 999.
    inv(cx, 'original', st, exp)


@harness('C01', 'header', quick=[dict()])
def header(cx):
    """construction from a header, whatever the order of its keys"""
    CorrStats = cx.mod('seismic.correlate.stats').CorrStats
    rot = cx.pick('rot', range(5))
    first = cx.pick('first', ['delta', 'sampling_rate'])
    keys = [first, 'corr_start', 'corr_end', 'npts', 'start_lag']
    keys = keys[rot:] + keys[:rot]
    if cx.pick('rev', [0, 1]):
        keys.reverse()
    h, exp = {}, {}
    for k in keys:
        h[k] = value(cx, k, k)
        put(exp, k, h[k])
    h['network'], h['station'], h['channel'] = 'A-B', 'C-D', 'HHZ-BHN'
    h['dist'] = cx.real('dist')
    st = CorrStats(h)
    inv(cx, 'header', st, exp)
    cx.check('extra', cx.eq(st['dist'], h['dist']))
    cx.check('id', st['id'] == 'A-B.C-D.HHZ-BHN')
    cx.check('component', st['component'] == 'Z-N')
    for ro in ('endtime', 'starttime', 'end_lag'):
        cx.raises('readonly:' + ro, AttributeError,
                  st.__setitem__, ro, 5.)
        cx.raises('readonly attribute:' + ro, AttributeError,
                  setattr, st, ro, 5.)
    inv(cx, 'after rejected assignment', st, exp)
    st['component'] = 'R-T'
    cx.check('component set', st['channel'] == 'HHR-BHT')
    cx.check('component get', st.component == 'R-T')


@harness('C01', 'trace', quick=[dict()])
def trace(cx):
    """a correlation trace keeps its header in step with its data"""
    m = cx.mod('seismic.correlate.stream')
    n = cx.pick('n', [0, 1, 2, 5])
    d = cx.arr('d', n)
    sr = cx.real('sr', 0, 100)
    cx.assume(sr > 0)
    sl = cx.real('sl', -50, 50)
    t0, t1 = cx.time('t0'), cx.time('t1')
    hdr = dict(sampling_rate=sr, start_lag=sl, corr_start=t0, corr_end=t1,
               network='A-B', npts=99)
    how = cx.pick('how', ['_header', 'stats'])
    if how == 'stats':
        hdr = cx.mod('seismic.correlate.stats').CorrStats(hdr)
    tr = m.CorrTrace(d, _header=hdr)
    exp = dict(npts=n, start_lag=sl, sampling_rate=sr, delta=1 / sr,
               corr_start=t0, corr_end=t1, network='A-B')
    inv(cx, 'new', tr.stats, exp)
    cx.eqs('data', tr.data, d)
    cx.eqs('times', list(tr.times()), [sl + i / sr for i in range(n)])
    k = cx.pick('k', [0, 3])
    d2 = cx.arr('e', k)
    tr2 = tr.copy()
    tr.data = d2
    exp2 = dict(exp, npts=k)
    inv(cx, 'reassigned', tr.stats, exp2)
    cx.eqs('times2', list(tr.times()), [sl + i / sr for i in range(k)])
    inv(cx, 'copy', tr2.stats, exp)
    cx.eqs('copy data', tr2.data, d)


@harness('C01', 'trace_lags', quick=[dict()])
def trace_lags(cx):
    """combining two seismogram headers in the constructor"""
    m = cx.mod('seismic.correlate.stream')
    T = cx.mod('obspy.core.trace')
    d = cx.arr('d', 3)
    sr = cx.real('sr', 0, 100)
    cx.assume(sr > 0)
    t = [cx.time(f't{i}') for i in range(2)]
    hs = []
    for i in range(2):
        h = T.Stats()
        h.network, h.station, h.location = 'MN'[i], 'ST'[i], '01'[i]
        h.channel = ['HHZ', 'HHN'][i]
        h.sampling_rate = sr
        h.npts = 4
        h.starttime = t[i]
        hs.append(h)
    sl = cx.real('sl', -50, 50)
    el = sl + 2 / sr
    tr = m.CorrTrace(d, header1=hs[0], header2=hs[1], start_lag=sl,
                     end_lag=el)
    s = tr.stats
    cx.check('corr_start', cx.land(
        s['corr_start'] >= t[0], s['corr_start'] >= t[1],
        cx.lor(cx.eq(s['corr_start'], t[0]), cx.eq(s['corr_start'], t[1]))))
    e = [x + 3 / sr for x in t]
    cx.check('corr_end', cx.land(
        cx.lor(cx.eq(s['corr_end'], e[0]), cx.eq(s['corr_end'], e[1])),
        cx.le(s['corr_end'] - e[0], 0.), cx.le(s['corr_end'] - e[1], 0.)))
    inv(cx, 'combined', s, dict(npts=3, start_lag=sl, sampling_rate=sr))
    cx.check('end', cx.eq(s['end_lag'], el))
    cx.check('id', s['id'] == 'M-N.S-T.HHZ-HHN')
    cx.check('loc', s['location'] == '0-1')
