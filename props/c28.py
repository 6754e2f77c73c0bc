"""The stations and pairs of the settings."""
import copy
import os

from symx.run import harness
from .common import patched
from .c27 import over as fs_over, Disk
from .c06 import mktr

CO = {'corr_args': {}, 'subdivision': {}, 'preProcessing': [],
      'sampling_rate': 1.}


class Quiet:
    def __getattr__(self, n):
        return self

    def __call__(self, *a, **k):
        return self


class One:
    def Get_size(self):
        return 1

    def Get_rank(self):
        return 0

    def bcast(self, x, root=0):
        return x


class MPI:
    COMM_WORLD = One()


class Out:
    """a file to write to"""

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def write(self, *a):
        pass


class Json:
    @staticmethod
    def dumps(*a, **k):
        return ''


def over():
    from symx import h5, vfs
    o = fs_over()
    h = h5.make()

    class Files:
        """of names that can be symbolic text"""

        def __init__(self):
            self.f = []

        def _get(self, k):
            for f in self.f:
                if len(f[0]) == len(k) and bool(f[0] == k):
                    return f

        def __contains__(self, k):
            return self._get(k) is not None

        def __getitem__(self, k):
            return self._get(k)[1]

        def __setitem__(self, k, v):
            self.f.append([k, v])
            vfs.put(k, None)

        def pop(self, k, *a):
            f = self._get(k)
            if f is not None:
                self.f.remove(f)

        def clear(self):
            del self.f[:]
    h.files = Files()
    o['h5py'] = h
    return o


def quiet(m):
    return patched(m, logging=Quiet(), MPI=MPI, json=Json,
                   open=lambda *a, **k: Out())


def options(d, net, co=None):
    return {'proj_dir': d, 'log_subdir': 'log', 'log_level': 'ERROR',
            'co': dict(CO, subdir='corr', combination_method=
                       'betweenStations', **(co or {})),
            'dv': {'subdir': 'dv', 'start_date': '2015-01-01',
                   'end_date': '2015-01-02', 'date_inc': 43200,
                   'win_len': 43200}, 'net': net}


NETS = {  # name: (network, station), patterns or None if refused
    'pair': (('A', 'A'), [('A', 'A')]),
    'all': (('*', '*'), [('*', '*')]),
    'stations of one': (('A', '*'), [('A', '*')]),
    'wildcard': (('?', '*A'), [('*', '*A')]),
    'any network': (('*', 'A'), None),
    'list of stations': (('A', ['A', 'B']), [('A', 'A'), ('A', 'B')]),
    'one in list': (('B', ['A']), [('B', 'A')]),
    'lists': ((['A', 'B'], ['B', 'A']), [('A', 'B'), ('B', 'A')]),
    'one in both': ((['A'], ['*']), [('A', '*')]),
    'networks': ((['A', 'B'], '*'), [('A', '*'), ('B', '*')]),
    'networks and list': ((['A', 'B'], ['*']), [('A', '*'), ('B', '*')]),
    'networks and one': ((['A', 'B'], 'A'), None),
    'lengths': ((['A', 'B', 'C'], ['A', 'B']), None),
    'one of many': ((['A', 'B'], ['A']), None),
}


def match(cx, code, pat):
    """code of one letter"""
    return True if pat in ('*', '?') else bool(code == pat.strip('*'))


@harness('C28', 'stations', over=over, cost=3, quick=[
    dict(form=f) for f in NETS], thorough=[
        dict(form=f, n=3) for f in NETS if NETS[f][1]])
def stations(cx, form, n=2):
    """the records of the archive that are used"""
    m = cx.mod('seismic.correlate.correlate')
    mw = cx.mod('seismic.trace_data.waveform')
    d = cx.scratch()
    disk = Disk(cx, mw)
    (net, sta), pats = NETS[form]
    with disk, quiet(m):
        rec = []
        for i in range(n):
            r = (cx.string('net%d' % i, 1, 'ABC'),
                 cx.string('sta%d' % i, 1, 'AB'),
                 ['HHZ', 'HHN', 'HHZ'][i])
            rec.append(r)
            for y in ('2015', '2016')[:2 - i % 2]:
                disk.folder(d + '/mseed/' + y + '/' + r[0] + '/' + r[1]
                            + '/' + r[2] + '.D')
        comp = cx.pick('component', ['Z', '*', '?', None, 'None'])
        conf = {'network': net, 'station': sta, 'component': comp}
        conf = copy.deepcopy(conf)
        sc = mw.Store_Client(None, d)
        o = options(d, conf)
        if pats is None:
            cx.raises('refused', ValueError, lambda: m.Correlator(sc, o))
            return
        if isinstance(net, list) and sta in ('*', ['*']):
            for a in net:
                cx.assume(cx.lor(*[r[0] == a for r in rec]))
        c = m.Correlator(sc, o)
        hit = [r for r in rec if any(
            match(cx, r[0], a) and match(cx, r[1], b) for a, b in pats)
            and (comp != 'Z' or r[2] == 'HHZ')]
        for nm, out, k in (('channel', c.avail_raw_data, 3),
                           ('station', c.station, 2)):
            def same(x, r):
                return len(x) == k and all(
                    bool(a == b) for a, b in zip(x, r))
            for r in hit:
                cx.check(nm + ' once', sum(same(x, r) for x in out) == 1)
            cx.check('no other ' + nm, all(any(
                same(x, r) for r in hit) for x in out))
        cx.check('settings', o['net'] == {
            'network': net, 'station': sta, 'component': comp})


WILD = [('A', 'A'), ('*', '*'), ('A', ['A', 'B']), (['A', 'B'], 'A'),
        (['A', 'B'], ['A']), (['A'], ['A', 'C']), ('?', 'B*'),
        (['A', 'C'], ['A', 'B']), (['A*', 'B'], ['C', '*B'])]


def anyof(code, pats):
    pats = [pats] if isinstance(pats, str) else pats
    return any('*' == p or '?' == p or bool(code == p.strip('*'))
               for p in pats)


@harness('C28', 'pairs', over=over, cost=3, quick=[dict()],
         thorough=[dict(n=2)])
def pairs(cx, n=1):
    """the stored pairs that are measured"""
    m = cx.mod('seismic.monitor.monitor')
    d = cx.scratch()
    disk = Disk(cx, m)
    disk.ps = []
    with disk, quiet(m):
        rec = []
        for i in range(n):
            r = [cx.string('%s%d' % (k, i), 1, 'ABC')
                 for k in ('net0', 'net1', 'sta0', 'sta1')] if i == 0 \
                else ['A', 'B', 'C', cx.string('sta', 1, 'AB')]
            f = r[0] + '-' + r[1] + '.' + r[2] + '-' + r[3]
            for g in rec:
                cx.assume(cx.lor(*[cx.lnot(a == b)
                                   for a, b in zip(g[0], r)]))
            if i == 0 and cx.bool('separate components'):
                f = f + '.HHZ-HHN'
            disk.put(d + '/corr/' + f + '.h5', None)
            rec.append((r, f))
        disk.put(d + '/corr/notes.txt', None)
        net, sta = cx.pick('settings', WILD)
        o = options(d, {'network': copy.copy(net), 'station':
                        copy.copy(sta), 'component': 'Z'})
        mo = m.Monitor(o)
        hit = [(r, f) for r, f in rec if all(
            anyof(c, net) for c in r[:2]) and all(
            anyof(c, sta) for c in r[2:])]
        out = list(zip(mo.netlist, mo.statlist, mo.infiles))
        cx.check('number', len(out) == len(hit) == len(mo.infiles)
                 == len(mo.netlist))
        for r, f in hit:
            cx.check('pair', sum(
                bool(a == r[0] + '-' + r[1]) and bool(b == r[2] + '-' + r[3])
                and bool(x == d + '/corr/' + f + '.h5')
                for a, b, x in out) == 1)
        cx.check('settings', o['net'] == {
            'network': net, 'station': sta, 'component': 'Z'})


RC = [None, ['A-B.C-D'], ['B-A.D-C'], ['A-B.C-D.HHZ-HHN'], ['*-B.*'],
      ['X-Y.C-D', 'A-?.?-D']]


@harness('C28', 'existing', over=over, cost=3, quick=[
    dict(method=k) for k in ('betweenStations', 'betweenComponents',
                             'allCombinations')],
    thorough=[dict(method=k, n=3) for k in (
        'betweenStations', 'autoComponents', 'allSimpleCombinations')])
def existing(cx, method, n=2):
    """the stored time windows of the pairs"""
    m = cx.mod('seismic.correlate.correlate')
    db = cx.mod('seismic.db.corr_hdf5')
    d = cx.scratch()
    disk = Disk(cx, m)
    disk.ps = []
    rc = cx.pick('requested', RC) if method == 'betweenStations' else None
    co = dict(CO, combination_method=method)
    if rc is not None:
        co['xcombinations'] = rc
    stats = [('A', 'C'), ('A', 'D'), ('B', 'C'), ('B', 'D')]
    rec = []
    disk.folder(d + '/corr')
    for i in range(n):
        p = [('A', 'C'), ('B', 'D')]
        if i == 0 and method == 'betweenStations':
            p[1] = (cx.string('net', 1, 'AB'), cx.string('sta', 1, 'CD'))
        elif i != 1:
            p = [('A', 'D'), ('A', 'D')]
        if i == 0:
            cx.assume(cx.lor(p[0][0] < p[1][0], p[0][1] <= p[1][1]))
        ch = ('HHZ', 'HHZ') if i == 2 else ('HHZ', 'HHN')
        k = cx.int('step%d' % i, 0, 3)
        t = (cx.utc(1451520000. + 60 * k), cx.utc(1451520030. + 60 * k))
        name = p[0][0] + '-' + p[1][0] + '.' + p[0][1] + '-' + p[1][1]
        sep = cx.bool('separate components%d' % i)
        f = d + '/corr/' + name + ('.' + '-'.join(ch) if sep else '') + '.h5'
        tr = mktr(cx, [(a, b) for a, b in zip(
            (p[0][0], p[0][1], '', ch[0]), (p[1][0], p[1][1], '', ch[1]))],
            t, cx.arr('x%d' % i, 2, -4, 4))
        tag = 'subdivision' if i != 1 else cx.pick(
            'tag', ['subdivision', 'stack_5'])
        with db.CorrelationDataBase(f, copy.deepcopy(co)) as c:
            c.add_correlation(tr, tag=tag)
        rec.append((p, ch, k, tag))
    o = object.__new__(m.Correlator)
    o.corr_dir = d + '/corr'
    o.options = co
    o.station = [list(s) for s in stats]
    o.rcombis = rc
    o._allow_different_params = False
    o.logger = Quiet()
    out = o.find_existing_times('subdivision')

    def found(p, ch, k):
        a = out.get('.'.join(p[0]), {}) if isinstance(
            p[0][0], str) else None
        b = [v for q, v in (a or {}).items()
             if bool(q == p[1][0] + '.' + p[1][1])]
        ts = [x for q in b for x in q.get('-'.join(ch), [])]
        want = cx.utc(1451520000. + 60 * k).format_fissures()
        return cx.lor(False, *[x == want for x in ts])

    def wanted(p, ch):
        """by the method and the list of pairs"""
        own = bool(p[0][0] == p[1][0]) and bool(p[0][1] == p[1][1])
        if method in ('betweenComponents', 'autoComponents'):
            return own
        if method != 'betweenStations':
            return True
        if rc is None or own:
            return not own
        return m.is_in_xcombis(
            '.'.join((p[0][0], p[0][1], '', ch[0])),
            cx_join(p[1], ch[1]), rc)
    for p, ch, k, tag in rec:
        if tag == 'subdivision' and wanted(p, ch):
            cx.check('found', found(p, ch, k))
    num = 0
    for a in out.values():
        for b in a.values():
            for ts in b.values():
                num += len(ts)
    cx.check('nothing else', num <= sum(
        r[3] == 'subdivision' for r in rec))


def cx_join(s, ch):
    return s[0] + '.' + s[1] + '..' + ch
