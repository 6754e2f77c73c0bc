"""The local store of waveforms."""
import datetime
import os
import warnings
import numpy as np
from symx.run import harness
from .common import patched

T0 = 1451520000.          # 2015-12-31
DAY = 86400.


def over():
    from symx import vfs
    from symx.loader import ModProxy
    from symx.times import SDate
    import obspy.clients.filesystem.sds as sds

    class Client:
        def __init__(self, root, *a, **k):
            self.root = root
    o = vfs.over()
    o['datetime'] = ModProxy(datetime, {'datetime': SDate})
    o['obspy.clients.filesystem.sds'] = ModProxy(sds, {'Client': Client})
    return o


def tokens(cx, on):
    """in symbolic runs: do dates stay symbolic in text?"""
    if cx.symbolic:
        from symx.times import SDate
        SDate.TOKENS = on


class Disk:
    """writing and reading of waveforms and inventories; in symbolic runs
    without the file formats"""

    def __init__(self, cx, m):
        self.cx = cx
        if not cx.symbolic:
            self.ps = []
            return
        from symx import vfs
        Stream = cx.mod('obspy.core.stream').Stream
        Trace = cx.mod('obspy.core.trace').Trace
        ma = cx.np.ma.MaskedArray
        from symx.arr import SMA

        def write(st, filename, format=None, **k):
            trs = [st] if isinstance(st, Trace) else list(st)
            if any(isinstance(t.data, (SMA, np.ma.MaskedArray))
                   for t in trs):
                raise NotImplementedError('masked')
            vfs.put(filename, Stream([t.copy() for t in trs]))

        def read(name, headonly=False, starttime=None, endtime=None,
                 **k):
            f = vfs.get(name)
            if f is None:
                raise FileNotFoundError(name)
            st = f[1].copy()
            if starttime is not None or endtime is not None:
                st.trim(starttime, endtime)
            return st

        def inv_write(inv, path, format=None, **k):
            vfs.put(path, inv.copy())

        def read_inventory(path, **k):
            got = [vfs.get(f)[1] for f in vfs.glob(path)]
            if not got:
                raise FileNotFoundError(path)
            out = got[0].copy()
            for g in got[1:]:
                out = out + g
            return out
        from obspy import Inventory
        self.ps = [patched(Stream, write=write), patched(Trace, write=write),
                   patched(m, read=read, read_inventory=read_inventory),
                   patched(Inventory, write=inv_write)]

    def __enter__(self):
        for p in self.ps:
            p.__enter__()

    def __exit__(self, *a):
        for p in self.ps:
            p.__exit__()

    def folder(self, path):
        if self.cx.symbolic:
            from symx import vfs
            vfs.makedirs(path)
        else:
            os.makedirs(path, exist_ok=True)

    def files(self, top):
        """all files below"""
        if self.cx.symbolic:
            from symx import vfs
            return [f[0] for f in vfs.FILES]
        return sorted(os.path.join(p, f) for p, _, fs in os.walk(top)
                      for f in fs)

    def put(self, path, tr):
        if self.cx.symbolic:
            from symx import vfs
            S = self.cx.mod('obspy.core.stream').Stream
            vfs.put(path, S([tr]) if tr is not None else None)
        else:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if tr is None:
                open(path, 'w').close()
            else:
                tr.write(path, format='MSEED')


def trace(cx, name, n, t0, sr, net='N', cha='HHZ', val=None):
    Trace = cx.mod('obspy.core.trace').Trace
    a = cx.arr(name, n, -4, 4) if val is None else val
    tr = Trace(a)
    tr.stats.network, tr.stats.station, tr.stats.channel = net, 'S', cha
    tr.stats.sampling_rate = sr
    tr.stats.starttime = cx.utc(t0)
    return tr, [a[j] for j in range(n)]


def store(cx, m, d, client=None, **k):
    return m.Store_Client(client, d, **k)


@harness('C27', 'archive', over=over, cost=3, quick=[
    dict(n=5, parts=1), dict(n=3, parts=2), dict(n=1, parts=1)],
    thorough=[dict(n=9, parts=1), dict(n=4, parts=2), dict(n=2, parts=3)])
def archive(cx, n, parts):
    """all samples are found in the file of their day"""
    m = cx.mod('seismic.trace_data.waveform')
    d = cx.scratch()
    disk = Disk(cx, m)
    with disk:
        disk.folder(d)
        sc = store(cx, m, d)
        dt = DAY / 4
        off = 0. if cx.pick('full hour', [False, True]) else \
            cx.real('offset', 0, DAY)
        # times in the files have a limited resolution
        if not isinstance(off, float) or off:
            for k in range(6):
                cx.assume(cx.lor(cx.le(off + k * dt, 86400. - 5e-3),
                                 cx.le(86400. + 5e-3, off + k * dt)))
        net = cx.string('net', 1)
        want = {}
        for i in range(parts):
            k = 0 if not i else cx.pick('at%d' % i, [
                n, n + 1, n + 2, 1 - n, -n, n - 1])
            k0 = k if not i else max(want) - n + 1 + k
            x = cx.arr('x%d' % i, n, -4, 4)
            for j in range(n):
                if k0 + j in want:
                    # overlaps agree
                    x[j] = want[k0 + j]
                want[k0 + j] = x[j]
            tr, _ = trace(cx, '', n, T0 + off + k0 * dt, 1 / dt, net=net,
                          val=x)
            st = cx.mod('obspy.core.stream').Stream([tr])
            sc._write_local_data(st)
        files = disk.files(d)
        lo = cx.utc(T0)
        found = []
        for f in files:
            for t in m.read(f):
                cx.check('codes', t.stats.network == net
                         and t.stats.station == 'S'
                         and t.stats.channel == 'HHZ')
                for j in range(t.stats.npts):
                    found.append((f, (t.stats.starttime - lo)
                                  + j * dt, t.data[j]))
        exp = {}
        for day in range(-3, 6):
            D = cx.utc(T0 + day * DAY)
            exp[day] = d + '/mseed/%d/' % D.year + net \
                + '/S/HHZ.D/' + net + '.S..HHZ.D.%d.%03d' % (
                    D.year, D.julday)
        for k, v in want.items():
            t = off + k * dt
            cx.check('stored', cx.lor(*[cx.land(
                cx.near(s, t, 1e-3), cx.eq(y, v)) for f, s, y in found]))
        for f, s, y in found:
            day = [q for q, name in exp.items() if bool(f == name)]
            cx.check('file', len(day) == 1)
            day = day[0]
            cx.check('day', cx.land(cx.le(day * DAY - 1e-3, s),
                                    cx.le(s, (day + 1) * DAY + 1e-3)))
            cx.check('only data', cx.lor(*[cx.land(
                cx.near(s, off + k * dt, 1e-3), cx.eq(y, v))
                for k, v in want.items()]))


def inventory(sta, chas):
    from obspy.core.inventory import Inventory, Network, Station, Channel, \
        Response
    r = Response(instrument_sensitivity=None)
    return Inventory([Network('N', [Station(sta, 1., 2., 3., [
        Channel(c, '', 1., 2., 3., 0., response=r) for c in chas])])])


@harness('C27', 'source', over=over, cost=2, quick=[dict()])
def source(cx):
    """read from the archive if it has the time, or else from remote"""
    m = cx.mod('seismic.trace_data.waveform')
    S = cx.mod('obspy.core.stream').Stream
    d = cx.scratch()
    disk = Disk(cx, m)
    log = []
    n = 3
    parts = cx.pick('parts', [0, 1, 2])
    sr = cx.pick('sr', [1., 4.])
    ro = cx.pick('read only', [False, True])
    known = cx.pick('response known', [False, True])
    attach = cx.pick('attach', [True, False])
    empty = cx.pick('remote', ['data', 'no data']) == 'no data'
    check = cx.pick('check times', [True, False])
    a = cx.real('start', 0, 10)
    b = cx.real('end', 0, 20)
    s = [cx.real('s%d' % i, 0, 10) for i in range(parts)]
    cx.assume(cx.lt(a, b))
    for p, q in zip(s, s[1:]):
        cx.assume(cx.lt(p + n / sr, q))
    loc = [trace(cx, 'x%d' % i, n, T0 + p, sr)[0] for i, p in enumerate(s)]
    rem = S([trace(cx, 'r', n, T0 + 1000., sr)[0]])

    class Local:
        @staticmethod
        def get_waveforms(*args):
            log.append(('local',) + args)
            return S(loc[::-1])

    class Remote:
        @staticmethod
        def get_waveforms(*args):
            log.append(('remote',) + args)
            if empty:
                from obspy.clients.fdsn.header import FDSNNoDataException
                raise FDSNNoDataException('nothing')
            return rem

        @staticmethod
        def get_stations(**k):
            log.append(('response', k['network'], k['station'],
                        k['channel'], k['level']))
            return inventory('S', [k['channel']])
    with disk:
        disk.folder(d)
        disk.folder(d + '/mseed')
        if ro and cx.pick('folder', [False, True]):
            disk.folder(d + '/inventory')
        sc = store(cx, m, d, Remote(), read_only=ro)
        sc.lclient = Local()
        if known:
            sc.inventory = inventory('S', ['HHZ'])
        before = disk.files(d)
        args = ('N', 'S', '', 'HHZ', cx.utc(T0 + a), cx.utc(T0 + b))
        st = sc.get_waveforms(*args, attach_response=attach,
                              _check_times=check)
        cx.check('asked', log[0][:5] == ('local',) + args[:4]
                 and bool(cx.eq(log[0][5], args[4]))
                 and bool(cx.eq(log[0][6], args[5])))
        if check:
            here = parts > 0 and cx.land(
                cx.le(s[0] - 1 / sr, a),
                cx.le(b, s[-1] + (n - 1) / sr + 1 / sr))
        else:
            here = True
        far = [e for e in log if e[0] == 'remote']
        cx.check('source', cx.eq(here, not far))
        cx.check('once', len(far) <= 1)
        if far:
            cx.check('request', far[0][1:5] == args[:4]
                     and bool(cx.eq(far[0][5], args[4]))
                     and bool(cx.eq(far[0][6], args[5])))
            cx.check('data', len(st) == (0 if empty else 1))
            if len(st):
                cx.check('same data', st[0] is rem[0])
        else:
            cx.check('data', [id(t) for t in st] == [id(t) for t in loc])
        new = [e for e in log if e[0] == 'response']
        cx.check('response asked', new == (
            [('response', 'N', 'S', 'HHZ', 'response')]
            if far and not empty and not known else []))
        for t in st:
            if attach and (known or far):
                cx.check('attached', 'response' in t.stats)
        files = [f for f in disk.files(d) if f not in before]
        if ro:
            cx.check('not extended', not files)
        elif far and not empty:
            cx.check('archived', sum(
                f.endswith('.D.2015.365') for f in files) == 1)
            cx.check('inventory stored', known or any(
                f.endswith('.xml') for f in files))
        else:
            cx.check('nothing new', not files)


@harness('C27', 'responses', over=over, cost=2, quick=[dict()])
def responses(cx):
    """responses once fetched are known in later sessions"""
    m = cx.mod('seismic.trace_data.waveform')
    d = cx.scratch()
    disk = Disk(cx, m)
    asked = []

    class Remote:
        @staticmethod
        def get_stations(network, station, channel, level, **k):
            asked.append((station, channel))
            return inventory(station, ['HHZ', 'HHN'] if channel == '*'
                             else [channel])

        @staticmethod
        def get_waveforms(net, sta, loc, cha, start, end):
            tr, _ = trace(cx, '', 3, start, 1., cha=cha, val=cx.np.zeros(3))
            tr.stats.station = sta
            return cx.mod('obspy.core.stream').Stream([tr])
    have = set()
    with disk:
        disk.folder(d)
        t = cx.time('t', T0, T0 + 1e5)
        for i in range(3):
            sc = store(cx, m, d, Remote())
            sta = cx.pick('sta%d' % i, ['S', 'T'])
            what = cx.pick('what%d' % i, ['HHZ', 'HHN', 'any'] if i < 2
                           else ['none'])
            got = {(s.code, c.code) for nw in sc.inventory for s in nw
                   for c in s}
            cx.check('kept', got == have)
            del asked[:]
            if what == 'any':
                inv = sc.select_inventory_or_load_remote('N', sta)
                cx.check('selected', len(inv) and all(
                    s.code == sta for nw in inv for s in nw))
                hit = any(q[0] == sta for q in have)
                cx.check('asked once', asked == (
                    [] if hit else [(sta, '*')]))
                if not hit:
                    have |= {(sta, 'HHZ'), (sta, 'HHN')}
            elif what != 'none':
                st = sc._load_remote('N', sta, '', what, t, t + 2, True)
                cx.check('response', 'response' in st[0].stats)
                hit = (sta, what) in have
                cx.check('asked if needed', asked == (
                    [] if hit else [(sta, what)]))
                have.add((sta, what))


@harness('C27', 'stations', over=over, cost=2, quick=[dict(n=2), dict(n=3)])
def stations(cx, n):
    """stations and channels in the archive"""
    m = cx.mod('seismic.trace_data.waveform')
    d = cx.scratch()
    disk = Disk(cx, m)
    with disk:
        disk.folder(d)
        sc = store(cx, m, d)
        cx.raises('nothing', FileNotFoundError, sc.get_available_stations)
        rec = []
        for i in range(n):
            y = cx.pick('folder%d' % i, ['2015', '2016', 'temp'] if i < 2
                        else ['2016'])
            net = cx.string('net%d' % i, 1)
            sta = cx.string('sta%d' % i, 1) if i < 2 else 'A'
            rec.append((y, net, sta, ['HHZ', 'HHN', 'BHZ'][i]))
            disk.folder(d + '/mseed/' + y + '/' + net + '/' + sta + '/'
                        + rec[i][3] + '.D')
        q = cx.pick('network', [None, 'A', '*'])
        hit = [r for r in rec if r[0] != 'temp'
               and (q != 'A' or bool(r[1] == 'A'))]
        if not hit:
            cx.raises('none', FileNotFoundError,
                      lambda: sc.get_available_stations(q))
        else:
            out = sc.get_available_stations(q)
            for r in hit:
                cx.check('station', sum(
                    bool(o[0] == r[1]) and bool(o[1] == r[2])
                    for o in out) == 1)
            cx.check('no other', all(any(
                bool(o[0] == r[1]) and bool(o[1] == r[2]) for r in hit)
                for o in out))
        comp = cx.pick('component', ['?', 'Z', 'N'])
        out = sc._translate_wildcards(q or '*', 'A', comp)
        hit = [r for r in rec if (q != 'A' or bool(r[1] == 'A'))
               and bool(r[2] == 'A') and comp in ('?', r[3][-1])]
        cx.check('channels', len(out) == len(hit) and all(any(
            bool(o[0] == r[1]) and bool(o[1] == r[2])
            and bool(o[2] == r[3]) for o in out) for r in hit))


@harness('C27', 'period', over=over, cost=2, quick=[dict(n=2), dict(n=3)])
def period(cx, n):
    """first and last day in the archive"""
    m = cx.mod('seismic.trace_data.waveform')
    d = cx.scratch()
    disk = Disk(cx, m)
    with disk:
        disk.folder(d)
        sc = store(cx, m, d)
        days = []
        for i in range(n):
            y = cx.pick('year%d' % i, [2015, 2016, None])
            k = cx.string('day%d' % i, 3, '0123')
            if y is None:
                disk.folder(d + '/mseed/2014/N/S/HHZ.D')
                continue
            v = 100 * dig(k, 0) + 10 * dig(k, 1) + dig(k, 2)
            cx.assume(cx.land(cx.le(1, v), cx.le(v, 365)))
            c = ['HHZ', 'HHN', 'HHZ'][i]
            disk.put(d + '/mseed/%d/N/S/%s.D/N.S..%s.D.%d.' % (
                y, c, c, y) + k, None)
            days.append((y - 2015) * 365 + v - 1)
        if cx.symbolic:
            for f in disk.files(d):
                # folders are there as well
                disk.folder(f[:f.rindex('/')] if isinstance(f, str)
                            else f[:len(f) - len(f.split('/')[-1]) - 1])
        out = sc._get_times('N', 'S')
        if not days:
            cx.check('nothing', tuple(out) == (None, None))
            return
        t = cx.utc(1420070400.)
        lo, hi = days[0], days[0]
        for v in days[1:]:
            lo = cx.ite(cx.lt(v, lo), v, lo)
            hi = cx.ite(cx.lt(hi, v), v, hi)
        cx.check('start', cx.eq(out[0], t + DAY * lo))
        cx.check('end', cx.eq(out[1], t + DAY * (hi + 1)))


def dig(s, i):
    from symx.strs import SymStr
    if isinstance(s, str):
        return int(s[i])
    return SymStr(s.ch[i:i + 1]).toint()


@harness('C27', 'windows', over=over, quick=[dict()])
def windows(cx):
    """windows of the increment from start until end"""
    m = cx.mod('seismic.trace_data.waveform')
    d = cx.scratch()
    disk = Disk(cx, m)
    with disk:
        disk.folder(d)
        sc = store(cx, m, d)
        log = []

        class Local:
            @staticmethod
            def get_waveforms(net, sta, loc, cha, start, end):
                log.append((net, sta, cha, start, end))
                return cx.mod('obspy.core.stream').Stream()
        sc.lclient = Local()
        inc = cx.pick('increment', [3600, 86400])
        a = cx.real('start', 0, 86400)
        k = cx.real('length', 0, 3.5)
        for j in range(4):
            cx.assume(cx.lor(cx.le(k, j), cx.le(j + 1e-3, k)))
        out = list(sc._generate_time_windows(
            'N', 'S', 'HHZ', cx.utc(T0 + a), cx.utc(T0 + a + k * inc),
            inc))
        cx.check('number', cx.land(cx.le(k, len(out)),
                                   cx.lt(len(out) - 1, k)))
        cx.check('one each', len(log) == len(out))
        for i, e in enumerate(log):
            cx.check('codes', e[:3] == ('N', 'S', 'HHZ'))
            cx.check('window', cx.land(
                cx.near(e[3] - cx.utc(T0 + a), i * inc, 1e-5),
                cx.near(e[4] - cx.utc(T0 + a), (i + 1) * inc, 1e-5)))


# ------------------------------------------------- other file structures
ID = ['NET', 'STA', 'LOC', 'CHA']
PARTS = {
    'doc': ['b', '%Y', '%b', '%NET', [
        '%j', '_', '%STA', '_T_', "%CHA('BH','')", '.mseed']],
    'lower': ['b', '%net', ['%sta', '%loc', '.', '%cha'], '%j'],
    'plain': ['b', ['%LOC', "%STA('A','xyz')"], 'data (1)', '%H_%M'],
    'dates': ['b', '%m', "%NET('N','')"],
    'month': ['b', '%Y', '%B', ['%STA', '.', '%CHA']],
    'year': ['b', '%STA', ['%Y', '.', '%CHA']],
    'hour': ['b', '%Y', '%d', '%H'],
    'half': ['b', '%j', '%p'],
    'week': ['b', '%Y', ['%W', '%STA']],
    'none': ['b', '%STA', '%CHA'],
    'sds': 'b'}
STEP = {'doc': 'day', 'lower': 'day', 'month': 'month', 'year': 'year',
        'hour': 3600., 'half': 43200., 'week': 7 * DAY, 'none': None,
        'dates': 'month'}


def translate(cx, part, codes, t):
    """text of one part"""
    import re
    rep = re.search(r"\('([^']*)','([^']*)'\)", part)
    if rep:
        part = part.replace(rep.group(0), '')
    out = part
    for n, v in zip(ID, codes):
        if part == '%' + n:
            out = v
        if part == '%' + n.lower():
            out = v.lower()
    if '%' in part and out is part:
        out = t.strftime(part)
    return out.replace(rep.group(1), rep.group(2)) if rep else out


def pattern(cx, fs, codes, t):
    out = ''
    for part in fs:
        name = ''
        for p in part if isinstance(part, list) else [part]:
            name = name + translate(cx, p, codes, t)
        out = out + '/' + name if len(out) else name
    return out


@harness('C27', 'pattern', over=over, quick=[dict()])
def pattern_(cx):
    m = cx.mod('seismic.trace_data.waveform')
    tokens(cx, True)
    kind = cx.pick('structure', [k for k in PARTS if k != 'sds'])
    codes = [cx.string('net', 2, 'NO'), cx.string('sta', 2), '00',
             cx.pick('band', ['BH', 'HH']) + cx.string('cha', 1, 'XYZ')]
    t = cx.date(cx.real('t', T0, T0 + 100 * DAY))
    fs = PARTS[kind]
    ids = codes[0] + '.' + codes[1] + '.' + codes[2] + '.' + codes[3]
    out = m._current_filepattern(ids, t, fs)
    cx.check('name', out == pattern(cx, fs, codes, t))


@harness('C27', 'step', over=over, cost=2, quick=[dict()])
def step(cx):
    """the file before and after"""
    m = cx.mod('seismic.trace_data.waveform')
    tokens(cx, True)
    kind = cx.pick('structure', list(STEP))
    inc = cx.pick('inc', [1, -1])
    fs, unit = PARTS[kind], STEP[kind]
    codes = ['NN', cx.string('sta', 1), '', 'BHZ']
    ids = codes[0] + '.' + codes[1] + '.' + codes[2] + '.' + codes[3]
    # two years, one of them a leap year
    s = cx.int('day', 0, 730) * DAY + cx.real('time', 0, DAY - 1)
    t = cx.date(1420070400. + s)
    out, new = m._adjacent_filepattern(ids, t, fs, inc)
    cx.check('name', out == pattern(cx, fs, codes, new))
    if unit is None:
        cx.check('no time', cx.eq(new, t))
    elif unit == 'month':
        cx.check('month', cx.eq(new.year * 12 + new.month,
                                t.year * 12 + t.month + inc))
    elif unit == 'year':
        cx.check('year', cx.eq(new.year, t.year + inc))
    else:
        u = DAY if unit == 'day' else unit
        cx.check('period', cx.near((new - t).total_seconds(), inc * u,
                                   1e-5))


@harness('C27', 'files', over=over, cost=3, quick=[
    dict(n=2, kind=k) for k in ('sds', 'hour', 'month')],
    thorough=[dict(n=3, kind=k, shift=0) for k in ('sds', 'hour', 'month')])
def files(cx, n, kind, shift=.25):
    """all samples of the requested time, also from neighbouring files"""
    m = cx.mod('seismic.trace_data.waveform')
    d = cx.scratch()
    disk = Disk(cx, m)
    tokens(cx, False)
    fs = {'sds': d, 'hour': [d, ['%Y%j', '_', '%H'], '%CHA'],
          'month': [d, '%Y', '%m', ['%STA', '.', '%CHA']]}[kind]
    full = [d, '%Y', '%NET', '%STA', ['%CHA', '.D'], [
        '%NET', '.', '%STA', '.', '%LOC', '.', '%CHA', '.D.', '%Y', '.',
        '%j']] if kind == 'sds' else fs
    unit = {'sds': DAY, 'hour': 3600., 'month': 31 * DAY}[kind]
    # n samples per file
    dt = unit / n
    shift = shift * dt
    codes = ['N', 'S', '', 'HHZ']
    start = datetime.datetime(2015, 12, 31) if kind != 'month' else \
        datetime.datetime(2015, 12, 1)
    val = []
    gone = cx.pick('missing', [None, 0, 1])
    with disk:
        for i in range(3):
            t = cx.utc(start) + i * unit
            tr, x = trace(cx, 'x%d' % i, n, t + shift, 1 / dt)
            if i == gone:
                val += [None] * n
                continue
            val += x
            disk.put(pattern(cx, full, codes, t.datetime), tr)
        a = cx.real('start', 0, 2 * unit)
        b = cx.real('end', 0, 3 * unit)
        cx.assume(cx.le(a + dt, b))
        for v in (a, b):
            for j in range(3 * n + 1):
                # off the samples and the borders of the files
                cx.assume(cx.lor(cx.le(v, shift + j * dt - .01 * dt),
                                 cx.le(shift + j * dt + .01 * dt, v)))
                cx.assume(cx.lor(cx.le(v, shift + (j + .5) * dt - .01 * dt),
                                 cx.le(shift + (j + .5) * dt + .01 * dt,
                                       v)))
            for j in range(4):
                cx.assume(cx.lor(cx.le(v, j * unit - 1.),
                                 cx.le(j * unit + 1., v)))
        t0 = cx.utc(start)
        c = m.FS_Client(fs)
        st = c.get_waveforms('N', 'S', '', 'HHZ', t0 + a, t0 + b)
        got = []
        for t in st:
            cx.check('id', t.id == 'N.S..HHZ')
            mask = np.ma.getmaskarray(t.data) if not cx.symbolic else \
                cx.np.ma.getmaskarray(t.data)
            for j in range(t.stats.npts):
                if not bool(mask[j]):
                    got.append(((t.stats.starttime - t0) + j * dt,
                                t.data[j]))
        for j, v in enumerate(val):
            if v is None:
                continue
            s = shift + j * dt
            cx.check('read', cx.implies(
                cx.land(cx.le(a, s), cx.le(s, b)),
                cx.lor(*[cx.land(cx.near(p, s, 1e-3), cx.eq(y, v))
                         for p, y in got])))
        for p, y in got:
            cx.check('only data', cx.lor(*[cx.land(
                cx.near(p, shift + j * dt, 1e-3), cx.eq(y, v))
                for j, v in enumerate(val) if v is not None]))
            cx.check('in time', cx.land(cx.le(a - .51 * dt, p),
                                        cx.le(p, b + .51 * dt)))
