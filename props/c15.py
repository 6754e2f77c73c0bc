"""Averaging velocity changes."""
import numpy as np
from symx.run import harness
from .common import NoLog, mkstats, patched, seq_sum

KEYS = ('network', 'station', 'channel')


def mkdv(cx, name, rows, k, codes=('N-N', 'A-A', 'Z-Z'), axis=None,
         method='m', nan=True, **kw):
    """a measurement: similarity with k candidates at each time"""
    DV = cx.mod('seismic.monitor.dv').DV
    S = cx.arr(name, (rows, k), lo=-1, hi=1, nan=nan)
    corr, val = best(cx, S, axis_of(cx, k))
    st = mkstats(cx, 5, 1., -2., **dict(zip(KEYS, codes)), **kw)
    st['corr_start'] = [cx.utc(3600. * i) for i in range(rows)]
    st['corr_end'] = [cx.utc(3600. * i + 3600.) for i in range(rows)]
    ax = axis_of(cx, k) if axis is None else axis
    return DV(corr, val, 'stretch', S.copy(), ax, method, st,
              dv_processing={'freq_min': 1.}), S


def axis_of(cx, k):
    return cx.np.linspace(-.5, .5, k)


def best(cx, S, axis):
    """largest similarity and where it is, per row; missing if there is none"""
    rows, k = cx.shape(S)
    corr, val = cx.np.zeros(rows), cx.np.zeros(rows)
    for r in range(rows):
        c, v = float('nan'), float('nan')
        for j in range(k):
            x = S[r, j]
            up = cx.land(cx.lnot(cx.isnan(x)), cx.lor(cx.isnan(c), x > c))
            c, v = cx.ite(up, x, c), cx.ite(up, axis[j], v)
        corr[r], val[r] = c, v
    return corr, val


def check_best(cx, dv, S):
    """value, similarity and availability belong to the matrix S"""
    corr, val = best(cx, S, dv.second_axis)
    for r in range(cx.shape(S)[0]):
        miss = cx.isnan(corr[r])
        cx.check('missing', cx.land(cx.isnan(dv.corr[r]) == miss,
                                    dv.avail[r] == cx.lnot(miss)))
        cx.check('missing value', cx.isnan(dv.value[r]) == miss)
        cx.check('similarity', cx.lor(miss, cx.near(
            dv.corr[r], corr[r], 1e-9)))
        # the value is a candidate with this similarity
        k = cx.shape(S)[1]
        cx.check('value', cx.lor(miss, *[cx.land(
            cx.eq(dv.value[r], dv.second_axis[j]),
            cx.near(S[r, j], corr[r], 1e-9)) for j in range(k)]))


@harness('C15', 'average', cost=3, quick=[
    dict(mem=m, n=n, rows=r, k=k) for m in (0, 1)
    for n, r, k in ((2, 1, 2), (1, 2, 2), (3, 1, 1))],
    thorough=[dict(mem=m, n=n, rows=r, k=k) for m in (0, 1)
              for n, r, k in ((2, 2, 2), (3, 1, 2), (2, 1, 3))])
def average(cx, mem, n, rows, k):
    """mean of the similarity matrices, and what follows from it"""
    m = cx.mod('seismic.monitor.monitor')
    codes = [('N-N', 'A-A', 'Z-Z')]
    for i in range(1, n):
        codes.append([('N-N', 'A-A', 'N-N'), ('N-N', 'B-B', 'Z-Z'),
                      ('M-N', 'A-A', 'Z-Z')][cx.pick(f'c{i}', [0, 1, 2])])
    dvs, mats = zip(*[mkdv(cx, f'S{i}', rows, k, codes[i])
                      for i in range(n)])
    keep = cx.pick('scatter', [True, False])
    if mem:
        av = m.average_components_mem_save(iter(dvs), save_scatter=keep)
    else:
        av = m.average_components(list(dvs), save_scatter=keep)
    E = cx.np.zeros((rows, k))
    for r in range(rows):
        for j in range(k):
            num = cx.count([cx.lnot(cx.isnan(s[r, j])) for s in mats])
            tot = seq_sum([cx.ite(cx.isnan(s[r, j]), 0., s[r, j])
                           for s in mats])
            cx.check('missing mean', cx.isnan(av.sim_mat[r, j]) == (num == 0))
            cx.check('mean', cx.lor(num == 0, cx.near(
                av.sim_mat[r, j] * num, tot, 1e-9)))
        num = cx.count([cx.lnot(cx.land(*[cx.isnan(x) for x in cx.flat(
            s[r])])) for s in mats])
        cx.check('number', av.n_stat[r] == num)
    check_best(cx, av, av.sim_mat)
    for q, key in enumerate(KEYS):
        same = all(c[q] == codes[0][q] for c in codes)
        cx.check('code', av.stats[key] == (codes[0][q] if same else 'av'))
    cx.check('method', av.method == 'm' and av.value_type == 'stretch'
             and av.dv_processing == {'freq_min': 1.})
    cx.eqs('axis', av.second_axis, axis_of(cx, k))
    cx.check('times', len(av.stats.corr_start) == rows and all(
        bool(cx.eq(a, b)) for a, b in zip(
            av.stats.corr_start, dvs[0].stats.corr_start)))
    for dv, s, c in zip(dvs, mats, codes):
        cx.eqs('input', dv.sim_mat, s)
        check_best(cx, dv, s)
        cx.check('input codes', tuple(dv.stats[x] for x in KEYS) == c)
    if keep:
        cx.check('scatter', cx.shape(av.stretches) == (n, rows)
                 and cx.shape(av.corrs) == (n, rows))
        for i, dv in enumerate(dvs):
            cx.eqs('scatter of values', av.stretches[i], dv.value)
            cx.eqs('scatter of similarity', av.corrs[i], dv.corr)
    else:
        cx.check('no scatter', av.stretches is None and av.corrs is None)


@harness('C15', 'skip', cost=2, quick=[dict(mem=0), dict(mem=1)])
def skip(cx, mem):
    """averages and measurements on another axis do not count"""
    m = cx.mod('seismic.monitor.monitor')
    what = cx.pick('what', ['average', 'axis', 'shape', 'method'])
    first = bool(cx.pick('first', [0, 1]))
    kw, k = {}, 2
    if what == 'average':
        kw = dict(codes=('N-N', 'A-A', 'av'))
    elif what == 'axis':
        kw = dict(axis=cx.np.linspace(-.4, .5, 2))
    elif what == 'shape':
        k = 3
    else:
        kw = dict(method='other')
    a, A = mkdv(cx, 'A', 1, 2, nan=False)
    b, B = mkdv(cx, 'B', 1, 2, codes=('N-N', 'A-A', 'N-N'), nan=False)
    x, X = mkdv(cx, 'X', 1, k, nan=False, **kw)
    dvs = [x, a, b] if first and what == 'average' else [a, x, b]
    f = m.average_components_mem_save if mem else m.average_components
    if what == 'method':
        cx.raises('method', TypeError, lambda: f(dvs))
        return
    av = f(dvs)
    for j in range(2):
        cx.close('mean', av.sim_mat[0, j], (A[0, j] + B[0, j]) / 2, 1e-9)
    check_best(cx, av, av.sim_mat)
    cx.check('number', av.n_stat[0] == 2)
    cx.check('codes', [av.stats[q] for q in KEYS] == ['N-N', 'A-A', 'av'])
    cx.check('scatter', cx.shape(av.stretches) == (2, 1))


@harness('C15', 'coords', cost=2, quick=[dict()])
def coords(cx):
    """both stations have to be inside of the box"""
    m = cx.mod('seismic.monitor.monitor')
    axis = cx.pick('axis', ['lat', 'lon', 'el'])
    box = {k: (-5., 5.) for k in ('lat', 'lon', 'el')}
    box[axis] = (cx.real('lo', -80, 80), cx.real('hi', -80, 80))
    if axis != 'el' and cx.pick('elevation', [True, False]):
        box.pop('el')
    other = cx.pick('other', [None, 'inside', 'stla', 'evlo', 'stel'])
    dvs, mats, ins = [], [], []
    for i in range(2 if other else 1):
        xyz = {k: 0. for k in ('stla', 'stlo', 'stel', 'evla', 'evlo',
                               'evel')}
        if i == 0:
            c = {'lat': 'la', 'lon': 'lo', 'el': 'el'}[axis]
            for p in ('st', 'ev'):
                xyz[p + c] = cx.real(p, -80, 80)
        elif other != 'inside':
            xyz[other] = 100.
        dv, s = mkdv(cx, f'S{i}', 1, 1, codes=('N-N', 'AB'[i] + '-C', 'Z-Z'),
                     nan=False, **xyz)
        dvs.append(dv)
        mats.append(s)
        ins.append(bool(cx.land(*[
            cx.land(box[b][0] <= xyz[p + c], xyz[p + c] <= box[b][1])
            for b, c in (('lat', 'la'), ('lon', 'lo'), ('el', 'el'))
            if b in box for p in ('st', 'ev')])))
    if not any(ins):
        cx.raises('nothing inside', ValueError,
                  lambda: m.average_dvs_by_coords(dvs, **box))
        return
    av = m.average_dvs_by_coords(dvs, **box)
    use = [s[0, 0] for s, i in zip(mats, ins) if i]
    cx.close('mean', av.sim_mat[0, 0], seq_sum(use) / len(use), 1e-9)
    cx.check('number', av.n_stat[0] == len(use))
    s = av.stats
    cx.check('codes', s['network'] == 'geoav' and s['station'] == 'geoav')
    for p in ('st', 'ev'):
        for b, c in (('lat', 'la'), ('lon', 'lo'), ('el', 'el')):
            cx.check('box', cx.land(*[cx.eq(x, y) for x, y in zip(
                s[p + c], box.get(b, (-1e6, 1e6)))]))
    for dv in dvs:
        cx.check('input codes', dv.stats['network'] == 'N-N')


@harness('C15', 'coherence', cost=2, quick=[dict(n=2), dict(n=3)])
def coherence(cx, n):
    """average of waveform coherences"""
    m = cx.mod('seismic.monitor.monitor')
    WFC = cx.mod('seismic.monitor.wfc').WFC
    ws, vals = [], []
    odd = cx.pick('odd', [None, 'tw_start', 'tw_len', 'freq_min',
                          'freq_max'])
    for i in range(n):
        p = dict(tw_start=1., tw_len=2., freq_min=.1, freq_max=.5)
        if odd and i == n - 1:
            p[odd] = 3.
        v = cx.arr(f'W{i}', (2,), lo=0, hi=1, nan=True)
        vals.append(v)
        ws.append(WFC({'reftr_0': v.copy(), 'mean': v * .5},
                      mkstats(cx, 5, channel='Z-' + 'ZNE'[i],
                              station='A-A'), p))
    if odd:
        cx.raises('different ' + odd, ValueError,
                  lambda: m.average_components_wfc(ws))
        return
    av = m.average_components_wfc(ws)
    cx.check('what', sorted(av.keys()) == ['mean', 'reftr_0'])
    for j in range(2):
        num = cx.count([cx.lnot(cx.isnan(v[j])) for v in vals])
        tot = seq_sum([cx.ite(cx.isnan(v[j]), 0., v[j]) for v in vals])
        for key, f in (('reftr_0', 1.), ('mean', .5)):
            cx.check('missing', cx.isnan(av[key][j]) == (num == 0))
            cx.check('mean', cx.lor(num == 0, cx.near(
                av[key][j] * num, tot * f, 1e-9)))
    cx.check('codes', av.stats['channel'] == 'av'
             and av.stats['station'] == 'A-A')
    cx.check('settings', av.wfc_processing == dict(
        tw_start=1., tw_len=2., freq_min=.1, freq_max=.5))
    for w, v, c in zip(ws, vals, 'ZNE'):
        cx.eqs('input', w['reftr_0'], v)
        cx.check('input code', w.stats['channel'] == 'Z-' + c)


def wanted(method, net, sta, cha):
    """documented choice of the averaging method"""
    s, c = sta.split('-'), cha.split('-')
    if method in ('betweenStations', 'CrossStations'):
        return s[0] != s[1]
    if s[0] != s[1]:
        return False
    return method == 'StationWide' or (
        (c[0] == c[1]) == (method == 'AutoComponents'))


@harness('C15', 'groups', cost=3, quick=[
    dict(method=x) for x in ('AutoComponents', 'CrossComponents',
                             'StationWide', 'CrossStations')],
    thorough=[dict(method=x) for x in ('betweenComponents',
                                       'betweenStations')])
def groups(cx, method):
    """what is averaged with what when whole folders are averaged"""
    m = cx.mod('seismic.monitor.monitor')
    folder = cx.pick('folder', ['/d.x/dv', '/data/average/dv'])
    files = []
    for i in range(3):
        sta = cx.pick(f's{i}', [['A-A', 'A-B'], ['A-A', 'A-B', 'A-BC'],
                                ['A-A', 'A-BC']][i])
        cha = cx.pick(f'k{i}', [['E-E'], ['Z-Z', 'N-N', 'Z-N'],
                                ['E-Z', 'N-N']][i])
        f = ('N-N', sta, cha)
        if f not in files:
            files.append(f)
    other = cx.pick('other', [None, 'av', 'av-auto', 'av-xc'])
    if other:
        files.append(('N-N', 'A-A', other))
    names = {f'{folder}/DV-{".".join(f)}.npz': f for f in files}
    mine = {'AutoComponents': 'av-auto', 'CrossComponents': 'av-xc',
            'betweenComponents': 'av-xc'}.get(method, 'av')
    done = []

    class Dv:
        def __init__(self, f):
            self.f = f
            self.stats = NoLog()
            self.stats.network, self.stats.station, self.stats.channel = f

    class Out:
        def __init__(self, dvs):
            done.append([sorted(d.f for d in dvs), None])
            self.stats = dvs[0].stats

        def save(self, path):
            done[-1][1] = path

        def plot(self, *a, **k):
            pass

    mon = object.__new__(m.Monitor)
    mon.outdir = folder
    mon.logger = NoLog()
    mon.options = {'dv': {'plot_vel_change': False}}
    with patched(m, glob=lambda p: list(names),
                 read_dv=lambda f: Dv(names[f]),
                 average_components=lambda dvs, *a, **k: Out(dvs)):
        mon.compute_components_average(method)
    exp = []
    for sta in ('A-A', 'A-B', 'A-BC'):
        if any(f == ('N-N', sta, mine) for f in files):
            continue
        g = sorted(f for f in files if f[1] == sta
                   and not f[2].startswith('av')
                   and wanted(method, *f))
        if len(g) > 1:
            exp.append([g, f'{folder}/DV-N-N.{sta}.{mine}'])
    cx.check('groups', sorted(map(repr, done)) == sorted(map(repr, exp)))
