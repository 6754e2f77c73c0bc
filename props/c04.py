"""Which records are correlated with each other."""
from symx.run import harness
from .common import NoLog

METHODS = ['betweenStations', 'betweenComponents', 'autoComponents',
           'allSimpleCombinations', 'allCombinations']


class Map:
    """mapping whose keys may be symbolic strings"""

    def __init__(self, items):
        self.items_ = items

    def __getitem__(self, k):
        for q, v in self.items_:
            if q == k:
                return v
        raise KeyError(k)

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def __contains__(self, k):
        return any(bool(q == k) for q, v in self.items_)


def before(cx, a, b):
    """code-by-code alphabetical a < b"""
    for x, y in zip(a, b):
        if not (x == y):
            return bool(x < y)
    return False


def mkst(cx, codes, times=None):
    T = cx.mod('obspy.core.trace').Trace
    S = cx.mod('obspy.core.stream').Stream
    out = []
    for i, (n, s, c) in enumerate(codes):
        tr = T(cx.np.zeros(2))
        tr.stats.network, tr.stats.station, tr.stats.channel = n, s, c
        tr.stats['uid'] = i
        if times:
            tr.stats.starttime = times[i]
        out.append(tr)
    return S(out)


def expected(cx, method, a, b, i, j):
    same = (a[0] == b[0]) and (a[1] == b[1])
    if method == 'betweenStations':
        return i != j and not same
    if method == 'betweenComponents':
        return i != j and same and bool(a[2][-1] != b[2][-1])
    if method == 'autoComponents':
        return i == j
    return True


def observed(cx, st, combis):
    """list of pairs of input numbers; indices must refer to st as sorted"""
    return [(st[a].stats['uid'], st[b].stats['uid']) for a, b in combis]


def compare(cx, tag, pairs, exp, ordered):
    """exp: list of (i, j, wanted)"""
    for i, j, w in exp:
        if ordered:
            n = pairs.count((i, j))
        else:
            n = pairs.count((i, j)) + (pairs.count((j, i)) if i != j else 0)
        cx.check(tag, n == (1 if w else 0))


@harness('C04', 'methods', cost=4, quick=[
    dict(method=m, lens=((1, 1, 1), (1, 1, 1), (1, 1, 1))) for m in METHODS
] + [dict(method=m, lens=((1, 2, 1), (2, 1, 1))) for m in METHODS
     ] + [dict(method=m, lens=((1, 1, 2), (1, 1, 2))) for m in METHODS],
    thorough=[dict(method=m, lens=((1, 1, 1), (1, 2, 1), (1, 1, 2)))
              for m in METHODS])
def methods(cx, method, lens):
    m = cx.mod('seismic.correlate.correlate')
    codes = [[cx.string(f'{k}{i}', n, 'AB') for k, n in zip('nsc', ls)]
             for i, ls in enumerate(lens)]
    # every record of the window has its own id
    for i in range(len(codes)):
        for j in range(i):
            cx.assume(cx.lnot(cx.land(*[
                x == y for x, y in zip(codes[i], codes[j])])))
    st = mkst(cx, codes)
    combis = m.calc_cross_combis(st, Map([]), method)
    pairs = observed(cx, st, combis)
    n = len(codes)
    if method == 'allCombinations':
        exp = [(i, j, True) for i in range(n) for j in range(n)]
        compare(cx, 'pairs', pairs, exp, True)
    else:
        exp = [(i, j, expected(cx, method, codes[i], codes[j], i, j))
               for i in range(n) for j in range(i, n)]
        compare(cx, 'pairs', pairs, exp, False)
    cx.check('no others', len(pairs) == len(set(pairs)))


@harness('C04', 'existing', cost=4, quick=[dict(method=m) for m in METHODS],
         thorough=[dict(method=m, l1=2, l2=1) for m in METHODS])
def existing(cx, method, l1=1, l2=1):
    """stored windows are not computed again, everything else is"""
    m = cx.mod('seismic.correlate.correlate')
    cs = [['A', cx.string('s0', l1), 'Z'], ['A', cx.string('s1', l2), 'N']]
    cx.assume(cx.lnot(cx.land(cs[0][1] == cs[1][1], False)))
    t = [cx.utc(1000.), cx.utc(1000. + cx.pick('dt', [0, 5, -5]))]
    st = mkst(cx, cs, t)
    n = 2
    # what the database knows: some windows of some pairs
    late = max(t)
    known = {}
    items = {}
    for i, j in [(0, 0), (0, 1), (1, 1)]:
        have = cx.pick(f'have{i}{j}', ['no', 'same', 'other'])
        w = [x.format_fissures() for x in (
            t[0] if (i, j) == (0, 0) else t[1] if (i, j) == (1, 1)
            else late, cx.utc(77.))]
        known[(i, j)] = have == 'same'
        if have == 'no':
            continue
        a, b = (cs[j], cs[i]) if before(cx, cs[j], cs[i]) else (
            cs[i], cs[j])
        items.setdefault((0 if a is cs[0] else 1), []).append(
            (b, a[2] + '-' + b[2], [w[0], w[1]] if have == 'same'
             else [w[1]]))
    top = []
    for k, v in items.items():
        sub = []
        for b, ch, ws in v:
            sub.append((b[0] + '.' + b[1], ch, ws))
        top.append((cs[k][0] + '.' + cs[k][1], sub))
    # merge equal keys (both records of one station)
    merged = []
    for key, sub in top:
        for e in merged:
            if e[0] == key:
                e[1].extend(sub)
                break
        else:
            merged.append((key, list(sub)))
    ex = []
    for key, sub in merged:
        inner = []
        for b, ch, ws in sub:
            for e in inner:
                if e[0] == b:
                    e[1].append((ch, ws))
                    break
            else:
                inner.append((b, [(ch, ws)]))
        ex.append((key, Map([(b, Map(c)) for b, c in inner])))
    combis = m.calc_cross_combis(st, Map(ex), method)
    pairs = observed(cx, st, combis)
    if method == 'allCombinations':
        exp = [(i, j, not known[(min(i, j), max(i, j))])
               for i in range(n) for j in range(n)]
        compare(cx, 'pairs', pairs, exp, True)
    else:
        exp = [(i, j, expected(cx, method, cs[i], cs[j], i, j) and
                not known[(i, j)]) for i in range(n) for j in range(i, n)]
        compare(cx, 'pairs', pairs, exp, False)


@harness('C04', 'requested', cost=3, quick=[
    dict(chan=False, l=((1, 1), (1, 1))),
    dict(chan=True, l=((1, 1), (1, 1))),
    dict(chan=False, l=((1, 2), (1, 1)))],
    thorough=[dict(chan=True, l=((1, 2), (1, 1))),
              dict(chan=False, l=((2, 1), (1, 2)))])
def requested(cx, chan, l):
    """only requested pairs, in either order, with or without channels"""
    m = cx.mod('seismic.correlate.correlate')
    codes = [[cx.string(f'{k}{i}', n, 'AB') for k, n in zip('nsc', (
        1, ls[0], 1))] for i, ls in enumerate(l)]
    req = [[cx.string(f'r{k}{i}', n, 'AB') for k, n in zip('nsc', (
        1, ls[1], 1))] for i, ls in enumerate(l)]
    parts = 3 if chan else 2
    fields = [req[0][k] + '-' + req[1][k] for k in range(parts)]
    r = fields[0] + '.' + fields[1] + ('.' + fields[2] if chan else '')
    extra = cx.pick('extra', [[], ['Q-Q.Q-Q']])
    rc = extra + [r]
    st = mkst(cx, codes)
    combis = m.calc_cross_combis(st, Map([]), 'betweenStations', rcombis=rc)

    def match(a, b):
        return cx.land(*[x == y for x, y in zip(
            a[:parts] + b[:parts], req[0][:parts] + req[1][:parts])])
    a, b = codes
    want = cx.land(
        cx.lnot(cx.land(a[0] == b[0], a[1] == b[1])),
        cx.lor(match(a, b), match(b, a)))
    cx.check('requested', cx.eq(want, len(combis) == 1))
    cx.check('at most one', len(combis) <= 1)
    # the stations of the pair survive the selection of the stations
    c = object.__new__(m.Correlator)
    c.logger = NoLog()
    c.options = {'combination_method': 'betweenStations'}
    c.rcombis = rc
    c.station = [[x[0], x[1]] for x in codes]
    c.avail_raw_data = [list(x) for x in codes]
    c._filter_by_rcombis()
    cx.check('stations kept', cx.implies(
        want, len(c.station) == 2 and len(c.avail_raw_data) == 2))


@harness('C04', 'wildcard', quick=[dict()])
def wildcard(cx):
    m = cx.mod('seismic.correlate.correlate')
    s = cx.string('s', 2, 'ABC')
    st = mkst(cx, [['N', 'A', 'Z'], ['N', s, 'Z']])
    cx.assume(cx.lnot(s[0] == 'A'))
    pat = cx.pick('pat', ['N-N.A-B?', 'N-N.A-B*', 'N-N.A-[BC]C', '*.A-B*',
                          'N-N.A-B*.Z-Z', 'N-N.A-B*.Z-N'])
    c = m.calc_cross_combis(st, Map([]), 'betweenStations', rcombis=[pat])
    if pat == 'N-N.A-B*.Z-N':
        want = False
    elif '[' in pat:
        want = s[1] == 'C'
    else:
        want = s[0] == 'B'
    cx.check('pattern', cx.eq(want, len(c) == 1))


@harness('C04', 'names', cost=3, quick=[
    dict(method=m, l=((1, 1), (1, 1), (1, 1))) for m in METHODS] + [
    dict(method=m, l=((1, 2), (2, 1))) for m in METHODS], thorough=[
    dict(method=m, l=((1, 2), (1, 1), (2, 1))) for m in METHODS])
def names(cx, method, l):
    """station pairs looked for in the database are named as they are
    stored, and each expected pair is looked for"""
    m = cx.mod('seismic.correlate.correlate')
    ms = cx.mod('seismic.correlate.stream')
    T = cx.mod('obspy.core.trace')
    cs = [[cx.string(f'{k}{i}', n, 'AB') for k, n in zip('ns', ls)]
          for i, ls in enumerate(l)]
    for i in range(len(cs)):
        for j in range(i):
            cx.assume(cx.lnot(cx.land(cs[i][0] == cs[j][0],
                                      cs[i][1] == cs[j][1])))
    nc, sc = m.compute_network_station_combinations(
        [c[0] for c in cs], [c[1] for c in cs], method, None)
    cx.check('lengths', len(nc) == len(sc))
    n = len(cs)
    wanted = []
    for i in range(n):
        for j in range(i, n):
            if i == j and method == 'betweenStations':
                continue
            if i != j and method in ('betweenComponents', 'autoComponents'):
                continue
            a, b = (cs[j], cs[i]) if before(cx, cs[j], cs[i]) else (
                cs[i], cs[j])
            wanted.append((a[0] + '-' + b[0], a[1] + '-' + b[1]))
    for w in wanted:
        k = cx.count([cx.land(x == w[0], y == w[1])
                      for x, y in zip(nc, sc)])
        cx.check('found', k >= 1)
        if method != 'allCombinations':
            cx.check('once', k <= 1)
    for x, y in zip(nc, sc):
        cx.check('nothing else', cx.lor(*[
            cx.land(x == w[0], y == w[1]) for w in wanted]))
    # names used when storing
    i, j = cx.pick('i', range(n)), cx.pick('j', range(n))
    hs = []
    for k, c in zip((i, j), (cx.string('ca', 1), cx.string('cb', 1))):
        h = T.Stats()
        h.network, h.station, h.channel = cs[k][0], cs[k][1], c
        h.npts = 3
        hs.append(h)
    if i != j and method in ('betweenComponents', 'autoComponents') or \
            i == j and method == 'betweenStations':
        return
    tr = ms.CorrTrace(cx.arr('d', 3), header1=hs[0], header2=hs[1],
                      start_lag=-1., end_lag=1.)
    cx.check('stored name', cx.lor(*[
        cx.land(x == tr.stats.network, y == tr.stats.station)
        for x, y in zip(nc, sc)]))


@harness('C04', 'distance', cost=2, quick=[dict(n=2), dict(n=3)])
def distance(cx, n):
    """pairs restricted by the distance of the stations"""
    m = cx.mod('seismic.correlate.correlate')
    u = cx.mod('seismic.utils.miic_utils')
    from obspy.core.inventory import Inventory, Network, Station
    g = [[cx.real(f'g{i}{k}', -50, 50) for k in range(2)]
         for i in range(n)]
    invs = {}
    for i in range(n):
        s = Station('ABC'[i], 0, 0, 0)
        s._latitude, s._longitude = g[i]
        invs['ABC'[i]] = Inventory([Network('N', [s])])
    dis = cx.real('dis', 0, 10000000)

    class Store:
        def read_inventory(self):
            pass

        def select_inventory_or_load_remote(self, net, sta):
            return invs[sta]
    c = object.__new__(m.Correlator)
    c.options = {'combination_method': 'betweenStations'}
    c.rcombis = None
    c.store_client = Store()
    c.station = [['N', 'ABC'[i]] for i in range(n)]
    c.find_interstat_dist(dis)
    st = mkst(cx, [['N', 'ABC'[i], 'Z'] for i in range(n)])
    combis = m.calc_cross_combis(
        st, Map([]), 'betweenStations', rcombis=c.rcombis)
    for i in range(n):
        for j in range(i + 1, n):
            d = u.inv_calc_az_baz_dist(
                invs['ABC'[i]], invs['ABC'[j]])[2]
            cx.check('close pairs only', cx.eq(
                d <= dis, combis.count((i, j)) == 1))
