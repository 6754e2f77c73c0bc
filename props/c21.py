"""Distribution of the work among processes and reading periods."""
import math
import numpy as np
from symx.run import harness
from .common import NoLog, Ranks, Comm, patched, seq_sum


class Tell(Comm):
    """the root's object reaches all ranks"""

    def __init__(self, size, rank, box):
        super().__init__(size, rank, [])
        self.box = box

    def bcast(self, x, root=0):
        if self.rank == root:
            self.box['v'] = x
        return self.box['v']


class CDB:
    """correlation files; name -> {pair of stations: channels}"""
    files = {}

    def __init__(self, f, *a, **k):
        self.f = f

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def get_available_channels(self, tag, n, s):
        assert tag == 'subdivision'
        return list(self.files[self.f][n, s])


def mkmonitor(cx, m, infiles, files, size, rank, comm):
    CDB.files = files
    o = object.__new__(m.Monitor)
    o.infiles = [f for f, _ in infiles]
    o.netlist = [p[0] for _, p in infiles]
    o.statlist = [p[1] for _, p in infiles]
    o.psize, o.rank, o.comm, o.logger = size, rank, comm, NoLog()
    return o


LAYOUT = {
    1: [['ZZ']], 2: [['ZZ', 'EE']], 3: [['ZZ'], ['EE', 'NN']],
    4: [['ZZ', 'EE', 'NN'], ['ZZ']], 5: [['ZZ'], [], ['a', 'b', 'c', 'd']],
    7: [['a', 'b', 'c'], ['a'], ['a', 'b', 'c']]}


def layout(n):
    infiles, files = [], {}
    for i, ch in enumerate(LAYOUT[n]):
        p = (f'N-N{i}', f'S-S{i}')
        infiles.append((f'f{i}', p))
        files[f'f{i}'] = {p: ch}
    todo = [(f, *p, c) for f, p in infiles for c in files[f][p]]
    return infiles, files, todo


@harness('C21', 'velocity_items', quick=[
    dict(n=1, P=3), dict(n=3, P=6), dict(n=4, P=4), dict(n=5, P=5)],
    thorough=[dict(n=7, P=10), dict(n=5, P=12)])
def velocity_items(cx, n, P):
    """any number of processes: each item is done by exactly one"""
    m = cx.mod('seismic.monitor.monitor')
    infiles, files, todo = layout(n)
    size = cx.int('processes', 1, P)
    bad = cx.pick('failing', range(-1, n))
    err = cx.pick('error', [KeyError, ValueError]) if bad >= 0 else None
    done, box = [], {}
    for r in range(P):
        if not r < size:
            break
        o = mkmonitor(cx, m, infiles, files, size, r, Tell(size, r, box))

        def one(f, tag, net, stat, cha, *a):
            done.append((f, net, stat, cha))
            cx.check('tag', tag == 'subdivision')
            if bad >= 0 and (f, net, stat, cha) == todo[bad]:
                raise err('no data')
        o.compute_velocity_change = one
        with patched(m, CorrelationDataBase=CDB):
            o.compute_velocity_change_bulk()
    cx.check('each exactly once', sorted(done) == sorted(todo))


class WFC:
    def __init__(self, key, x):
        class S:
            pass
        self.stats, self.x = S(), x
        self.stats.network, self.stats.station, self.stats.channel = key[:3]
        self.wfc_processing = dict(
            freq_min=key[3], freq_max=key[4], tw_start=key[5], tw_len=key[6])


@harness('C21', 'coherence_items', quick=[
    dict(n=1, P=2), dict(n=3, P=2), dict(n=4, P=3), dict(n=5, P=3)],
    thorough=[dict(n=7, P=4), dict(n=5, P=6)])
def coherence_items(cx, n, P):
    """each item is done once; every group is averaged over all its members,
    whichever process computed them"""
    m = cx.mod('seismic.monitor.monitor')
    infiles, files, todo = layout(n)
    size = cx.pick('processes', range(1, P + 1))
    bad = cx.pick('failing', range(-1, n))
    err = cx.pick('error', [KeyError, ValueError]) if bad >= 0 else None
    cfg = [(1., 2., 0., 5.), (1., 2., 3., 5.)]
    written, done = {}, {}

    def rank(r, comm):
        o = mkmonitor(cx, m, infiles, files, size, r, comm)
        o.options = {'proj_dir': 'p', 'wfc': {'subdir': 'w'}}
        done[r] = []
        written[r] = []

        def one(f, tag, net, stat, cha):
            done[r].append((f, net, stat, cha))
            for k in cfg:
                if bad >= 0 and (f, net, stat, cha) == todo[bad]:
                    raise err('no data')
                yield WFC((net, stat, cha) + k, [(f, net, stat, cha)])

        class Mean(WFC):
            def save(self, outf):
                written[r].append((self, outf))

        def avg(l):
            w = l[0]
            p = w.wfc_processing
            return Mean((w.stats.network, w.stats.station, 'av',
                         p['freq_min'], p['freq_max'], p['tw_start'],
                         p['tw_len']),
                        sorted(x for y in l for x in y.x))
        o.compute_waveform_coherence = one
        with patched(m, CorrelationDataBase=CDB, average_components_wfc=avg):
            o.compute_waveform_coherence_bulk()
    rk = Ranks(size)
    rk.run(rank)
    cx.check('collective calls match', rk.mismatch is None)
    cx.check('each exactly once', sorted(
        x for r in done for x in done[r]) == sorted(todo))
    want = []
    for f, p in infiles:
        mem = sorted(t for i, t in enumerate(todo)
                     if t[0] == f and i != bad)
        if mem:
            want.extend((p, k, mem) for k in cfg)
    for r in written:
        got = []
        for w, outf in written[r]:
            p = w.wfc_processing
            got.append(((w.stats.network, w.stats.station), tuple(
                p[x] for x in ('freq_min', 'freq_max', 'tw_start', 'tw_len')),
                w.x))
        cx.check('averages', sorted(got) == sorted(want))
        cx.check('one file per average',
                 len({x[1] for x in written[r]}) == len(written[r]))


CO = dict(corr_args={}, subdivision={})


def mkcorr(cx, m, size, rank, comm, **opts):
    c = object.__new__(m.Correlator)
    c.psize, c.rank, c.comm, c.logger = size, rank, comm, NoLog()
    c.options = opts
    c.rcombis = None
    return c


@harness('C21', 'writing', cost=2, quick=[
    dict(pairs=2, chans=1, P=3), dict(pairs=3, chans=2, P=4),
    dict(pairs=1, chans=2, P=3)], thorough=[dict(pairs=5, chans=2, P=8)])
def writing(cx, pairs, chans, P):
    """each correlation goes once into the file of its pair"""
    m = cx.mod('seismic.correlate.correlate')
    ms = cx.mod('seismic.correlate.stream')
    size = cx.int('processes', 1, P)
    sep = cx.pick('separate components', [False, True])
    stack = cx.pick('stack', [False, True])
    drop = cx.pick('drop', [False, True])
    n = 2
    cst, what = ms.CorrStream(), {}
    for i in range(n):
        for p in range(pairs):
            for c in range(chans):
                x = cx.arr(f'x{p}{c}{i}', 3, -1, 1)
                h = dict(network=f'A-B{p}', station=f'S-T{p % 2}',
                         location='-', channel=f'Z-C{c}',
                         corr_start=cx.utc(10 * i),
                         corr_end=cx.utc(10 * i + 10), start_lag=-1.,
                         sampling_rate=1., npts=3)
                tr = ms.CorrTrace(x, _header=h)
                cst.append(tr)
                f = f'A-B{p}.S-T{p % 2}' + (f'.Z-C{c}' if sep else '')
                what.setdefault(f'dir/{f}.h5', []).append((tr, i, c, x))
    added = []

    class DB(CDB):
        def __init__(self, f, *a, **k):
            self.f = f

        def add_correlation(self, st, tag):
            added.append((self.f, tag, [tr for tr in st]))
    for r in range(P):
        if not r < size:
            break
        o = mkcorr(cx, m, size, r, None, read_len=20, subdivision=dict(
            recombine_subdivision=stack, delete_subdivision=drop))
        o.corr_dir, o.save_comps_separately = 'dir', sep
        o._allow_different_params = False
        with patched(m, CorrelationDataBase=DB):
            o._write(cst)
    exp = sorted((f, t) for f in what for t in (
        ['subdivision'] * (not drop) + ['stack_20'] * stack))
    cx.check('files', sorted(a[:2] for a in added) == exp)
    for f, tag, trs in added:
        if tag == 'subdivision':
            cx.check('windows', len(trs) == len(what[f]) and {
                id(t) for t in trs} == {id(w[0]) for w in what[f]})
            continue
        cs = sorted({w[2] for w in what[f]})
        cx.check('stacks', sorted(t.stats.channel for t in trs) == [
            f'Z-C{c}' for c in cs])
        for t in trs:
            xs = [w[3] for w in what[f]
                  if f'Z-C{w[2]}' == t.stats.channel]
            cx.check('members', len(xs) == n)
            # normalised by the maximum
            tot = [seq_sum([x[k] for x in xs]) for k in range(3)]
            big = tot[0] * 0.
            for v in tot:
                a = cx.ite(cx.lt(v, 0.), -v, v)
                big = cx.ite(cx.lt(big, a), a, big)
            cx.assume(cx.le(.01, big))
            cx.close('stack', [v * big for v in t.data], tot, 1e-9)


@harness('C21', 'periods', quick=[dict(P=1), dict(P=2)])
def periods(cx, P):
    """what is written together belongs to one reading period"""
    m = cx.mod('seismic.correlate.correlate')
    ms = cx.mod('seismic.correlate.stream')
    nper = 3
    wins = [cx.pick(f'windows{i}', [0, 1, 2, 3]) for i in range(nper)]
    empty = cx.pick('no result', [None, (0, 0), (1, 1), (2, 0)])
    log = {}

    def rank(r, comm):
        o = mkcorr(cx, m, P, r, comm, remove_response=False)
        log[r] = []

        class SC:
            def read_inventory(self):
                return None
        o.store_client = SC()

        def gen():
            for i, w in enumerate(wins):
                flag = True
                for j in range(w):
                    yield (i, j), flag
                    flag = False

        def inner(st, inv):
            cst = ms.CorrStream()
            if st != empty:
                cst.append(ms.CorrTrace(np.zeros(3), _header=dict(
                    network='A-A', station='S-S', location='-',
                    channel='%d-%d' % st)))
            return cst
        o._generate_data, o._pxcorr_inner = gen, inner
        o._write = lambda cst: log[r].append(
            [tuple(map(int, tr.stats.channel.split('-'))) for tr in cst])
        o.pxcorr()
    rk = Ranks(P)
    rk.run(rank)
    cx.check('collective calls match', rk.mismatch is None)
    want = [[(i, j) for j in range(w) if (i, j) != empty]
            for i, w in enumerate(wins)]
    want = [w for w in want if w]
    for r in log:
        cx.check('batches', log[r] == want)


def mktrace(cx, name, code, t0, n, sr):
    tm = cx.mod('obspy.core.trace')
    tr = tm.Trace(cx.arr(name, n, -1, 1))
    tr.stats.network, tr.stats.station, tr.stats.channel = code
    tr.stats.sampling_rate = sr
    tr.stats.starttime = cx.utc(t0)
    return tr


def sample(tr, t0, k, sr):
    """value of the trace k samples after t0, None where there is none"""
    j = int(round(t0 * sr)) + k - int(round(
        float(tr.stats.starttime.timestamp) * sr))
    if not 0 <= j < tr.stats.npts:
        return None
    if isinstance(tr.data, np.ma.MaskedArray) and tr.data.mask[j]:
        return None
    return tr.data[j]


ARR = {'full': [(0, 9)], 'late': [(3, 6)], 'early': [(0, 4)],
       'late early': [(2, 3)], 'gap': [(0, 2), (5, 4)],
       'wide gap': [(0, 1), (7, 2)], 'gap, other order': [(5, 4), (0, 3)],
       'none': [], 'low rate': None}


@harness('C21', 'windows', cost=3, quick=[
    dict(P=1, n=2, L=4, inc=4, sub=True), dict(P=2, n=2, L=4, inc=4, sub=True),
    dict(P=2, n=2, L=4, inc=4, sub=False), dict(P=1, n=1, L=4, inc=2, sub=True),
    dict(P=2, n=2, L=3, inc=3, sub=False), dict(P=3, n=2, L=8, inc=8, sub=True),
    dict(P=2, n=1, L=4, inc=4, sub=True),
    dict(P=1, n=1, L=3, inc=5, sub=True),
    dict(P=2, n=2, L=3, inc=5, sub=False)],
    thorough=[dict(P=2, n=3, L=4, inc=4, sub=True),
              dict(P=3, n=3, L=4, inc=4, sub=False),
              dict(P=2, n=2, L=2, inc=1, sub=True)])
def windows(cx, P, n, L, inc, sub):
    """the k-th window of all stations is the same time span and holds the
    records of that span, on every process"""
    m = cx.mod('seismic.correlate.correlate')
    ms = cx.mod('obspy.core.stream')
    R = 8                       # length of a reading period
    sr = 1.
    first = cx.pick('station 0', list(ARR)) if n < 3 else 'late'
    kinds = [first] + [cx.pick(f'station {i}', [
        'full', 'late early', 'gap', 'none', 'low rate'])
        for i in range(1, n)]
    trs = {}
    for i, k in enumerate(kinds):
        code = ('N', f'S{i}', 'Z')
        trs[code] = [mktrace(cx, f'x{i}{j}', code, t0, npts, sr)
                     for j, (t0, npts) in enumerate(ARR[k] or [(0, 5)])]
        if ARR[k] is None:
            for tr in trs[code]:
                tr.stats.sampling_rate = .5
    periods = 2 if n == 1 else 1
    out = {}

    def prep(st, sc, startt, endt, *a, **k):
        """what the preparation of a span returns"""
        st.merge()
        st.trim(startt, endt, pad=True)
        return st

    def rank(r, comm):
        o = mkcorr(cx, m, P, r, comm, read_start=cx.utc(0),
                   read_end=cx.utc(R * periods), read_len=R, read_inc=R,
                   sampling_rate=sr, preprocess_subdiv=sub,
                   combination_method='allCombinations',
                   subdivision=dict(corr_len=L, corr_inc=inc))
        o.find_existing_times = lambda *a, **k: {'X.Y': {}}
        o.avail_raw_data = [list(c) for c in trs]

        class SC:
            inventory = None

            def _load_local(self, net, stat, loc, cha, t0, t1, *a):
                st = ms.Stream([tr.copy() for tr in trs[net, stat, cha]])
                return st.trim(t0, t1)
        o.store_client = SC()
        with patched(m, preprocess_stream=prep):
            out[r] = [w.copy() for w, _ in o._generate_data()]
    rk = Ranks(P)
    rk.run(rank)
    cx.check('collective calls match', rk.mismatch is None)
    if rk.mismatch is not None:
        return
    for r in range(P):
        cx.check('same windows everywhere', len(out[r]) == len(out[0]))
        seen = {}
        for win in out[r]:
            ids = [tr.id for tr in win]
            cx.check('one trace per channel', len(set(ids)) == len(ids))
            for tr in win:
                t0 = float(tr.stats.starttime.timestamp)
                cx.check('on the window grid', t0 % R % inc == 0 and
                         0 <= t0 < R * periods)
                key = (t0, tr.stats.station)
                cx.check('one window per span', key not in seen)
                seen[key] = True
                code = ('N', tr.stats.station, 'Z')
                cx.check('rate', tr.stats.sampling_rate == sr)
                cx.check('length', tr.stats.npts in (L, L + 1))
                for k in range(L):
                    if t0 + k > R * (t0 // R + 1):
                        continue        # beyond what was read
                    v = [sample(x, t0, k, sr) for x in trs[code]]
                    v = [x for x in v if x is not None]
                    g = sample(tr, t0, k, sr)
                    if not v:
                        cx.check('missing', g is None or cx.isnan(g))
                    else:
                        cx.check('present', g is not None)
                        cx.check('sample', cx.eq(g, v[0]))
        for st0 in [p * R + s for p in range(periods)
                    for s in range(0, R, inc)]:
            for i, kind in enumerate(kinds):
                data = any(sample(x, st0, j, sr) is not None
                           for x in trs['N', f'S{i}', 'Z']
                           for j in range(L)) and kind != 'low rate'
                if data:
                    cx.check('nothing left out',
                             (float(st0), f'S{i}') in seen)
                elif not any(sample(x, st0, L, sr) is not None
                             for x in trs['N', f'S{i}', 'Z']):
                    cx.check('nothing invented',
                             (float(st0), f'S{i}') not in seen)


@harness('C21', 'batches', cost=2, quick=[
    dict(P=1, L=4, sub=True), dict(P=2, L=4, sub=True),
    dict(P=1, L=8, sub=False), dict(P=2, L=2, sub=False)],
    thorough=[dict(P=3, L=4, sub=False), dict(P=2, L=2, sub=True)])
def batches(cx, P, L, sub):
    """what is written together are the new correlations of one reading
    period, whichever windows of it have data or are known already"""
    m = cx.mod('seismic.correlate.correlate')
    ms = cx.mod('seismic.correlate.stream')
    mo = cx.mod('obspy.core.stream')
    R, sr = 8, 1.
    cand = [(t, e) for t in range(0, 3 * R, L) for e in [t + L]]
    state = {}
    for i in range(3):
        w = [t for t, _ in cand if t // R == i]
        k = cx.pick(f'period {i}', [
            'all', 'none', 'known', 'start missing', 'start known',
            'end known'] if i < 2 else ['all', 'end known'])
        for t in w:
            state[t] = {'all': 'new', 'none': 'no', 'known': 'known',
                        'start missing': 'no' if t == w[0] else 'new',
                        'start known': 'known' if t == w[0] else 'new',
                        'end known': 'known' if t == w[-1] else 'new'}[k]
    x = cx.arr('x', L, -1, 1)
    trs = []
    for t, _ in cand:
        if state[t] != 'no':
            tr = mktrace(cx, f'w{t}', ('N', 'S', 'Z'), t, L, sr)
            trs.append(tr)
    known = [cx.utc(t).format_fissures() for t in state
             if state[t] == 'known']
    log = {}

    def prep(st, sc, startt, endt, *a, **k):
        st.merge()
        st.trim(startt, endt, pad=True)
        return st

    def rank(r, comm):
        o = mkcorr(cx, m, P, r, comm, read_start=cx.utc(0),
                   read_end=cx.utc(3 * R), read_len=R, read_inc=R,
                   sampling_rate=sr, preprocess_subdiv=sub,
                   remove_response=False,
                   combination_method='autoComponents',
                   subdivision=dict(corr_len=L, corr_inc=L))
        o.find_existing_times = lambda *a, **k: {
            'N.S': {'N.S': {'Z-Z': list(known)}}}
        o.avail_raw_data = [['N', 'S', 'Z']]
        log[r] = []

        class SC:
            inventory = None

            def read_inventory(self):
                return None

            def _load_local(self, net, stat, loc, cha, t0, t1, *a):
                st = mo.Stream([tr.copy() for tr in trs])
                return st.trim(t0, t1)

        def inner(st, inv):
            t = int(float(st[0].stats.starttime.timestamp))
            return ms.CorrStream([ms.CorrTrace(x.copy(), _header=dict(
                network='N-N', station='S-S', location='-',
                channel=str(t)))])
        o.store_client, o._pxcorr_inner = SC(), inner
        o._write = lambda cst: log[r].append(
            [int(tr.stats.channel) for tr in cst])
        with patched(m, preprocess_stream=prep):
            o.pxcorr()
    rk = Ranks(P)
    rk.run(rank)
    cx.check('collective calls match', rk.mismatch is None)
    if rk.mismatch is not None:
        return
    want = [[t for t in state if t // R == i and state[t] == 'new']
            for i in range(3)]
    for r in log:
        cx.check('batches', log[r] == [w for w in want if w])


@harness('C21', 'chosen', cost=2, quick=[
    dict(P=1, n=3), dict(P=2, n=3), dict(P=1, n=4)],
    thorough=[dict(P=3, n=4)])
def chosen(cx, P, n):
    """each window comes with the new pairs of its stations, all of them
    and no others, and holds no other stations"""
    m = cx.mod('seismic.correlate.correlate')
    ms = cx.mod('obspy.core.stream')
    L, sr = 4, 1.
    names = 'ABCD'[:n]
    have = [q for q in names if q == 'A' or cx.pick(q, [True, False])]
    sub = cx.pick('preprocess windows', [False, True])
    # pairs that are asked for
    ask = cx.pick('asked for', [None, ['N-N.B-C'], ['N-N.A-B', 'N-N.C-A']]
                  if n < 4 else [['N-N.B-D'], ['N-N.A-*']])
    known = cx.pick('known', [None, 'BC', 'AB'] if n < 4 else [None, 'AD'])
    ex = {'X.Y': {}}
    if known:
        ex[f'N.{known[0]}'] = {f'N.{known[1]}': {
            'Z-Z': [cx.utc(0).format_fissures()]}}
    trs = {q: mktrace(cx, f'x{q}', ('N', q, 'Z'), 0, 2 * L, sr)
           for q in have}
    out = {}

    def prep(st, sc, startt, endt, *a, **k):
        st.merge()
        st.trim(startt, endt, pad=True)
        return st

    def rank(r, comm):
        o = mkcorr(cx, m, P, r, comm, read_start=cx.utc(0),
                   read_end=cx.utc(2 * L), read_len=2 * L, read_inc=2 * L,
                   sampling_rate=sr, preprocess_subdiv=sub,
                   combination_method='betweenStations',
                   subdivision=dict(corr_len=L, corr_inc=L))
        o.rcombis = ask
        o.find_existing_times = lambda *a, **k: ex
        o.avail_raw_data = [['N', q, 'Z'] for q in names]

        class SC:
            inventory = None

            def _load_local(self, net, stat, loc, cha, t0, t1, *a):
                st = ms.Stream([trs[stat].copy()] if stat in trs else [])
                return st.trim(t0, t1)
        o.store_client = SC()
        with patched(m, preprocess_stream=prep):
            out[r] = [(int(float(w[0].stats.starttime.timestamp)),
                       [tr.stats.station for tr in w],
                       [tuple(map(int, c)) for c in
                        o.options['combinations']])
                      for w, _ in o._generate_data()]
    rk = Ranks(P)
    rk.run(rank)
    cx.check('collective calls match', rk.mismatch is None)
    if rk.mismatch is not None:
        return

    def asked(a, b):
        if ask is None:
            return True
        for q in ask:
            c, d = q.split('.')[1].split('-')
            if (c, d) in ((a, b), (b, a)) or (d == '*' and c in (a, b)):
                return True
        return False
    want = []
    for k in range(2):
        w = [(a, b) for i, a in enumerate(have) for b in have[i + 1:]
             if asked(a, b) and not (known == a + b and k == 0)]
        if w:
            want.append((k * L, sorted({q for p in w for q in p}), w))
    for r in range(P):
        cx.check('windows', [x[0] for x in out[r]] == [
            x[0] for x in want])
        for (t, sts, cs), (_, s0, w0) in zip(out[r], want):
            cx.check('stations', sts == s0)
            cx.check('pairs', all(
                i < len(sts) and j < len(sts) for i, j in cs) and sorted(
                (sts[i], sts[j]) for i, j in cs) == w0)
