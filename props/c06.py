"""Storing correlations and reading them back."""
import numpy as np

from symx.run import harness


def over():
    from symx import h5
    return {'h5py': h5.make()}


CO = {'corr_args': {}, 'subdivision': {}, 'preProcessing': []}


def mktr(cx, codes, t, data, sl=-1., sr=1., **extra):
    """codes: pairs of network, station, location, channel"""
    m = cx.mod('seismic.correlate.stream')
    h = dict(zip(('network', 'station', 'location', 'channel'),
                 [a + '-' + b for a, b in codes]))
    h.update(corr_start=t[0], corr_end=t[1], start_lag=sl,
             sampling_rate=sr, npts=len(data), **extra)
    return m.CorrTrace(data, _header=h)


def same_header(cx, tag, a, b, skip=()):
    ks = set(a.keys()) | set(b.keys())
    for k in sorted(ks - set(skip)):
        cx.check(tag, k in a and k in b)
        x, y = a[k], b[k]
        if isinstance(x, (list, tuple, np.ndarray)) and np.ndim(x):
            cx.eqs(tag + ' ' + k, list(x), list(y))
        else:
            cx.check(tag + ' ' + k, cx.eq(x, y))


def same_trace(cx, tag, a, b):
    cx.eqs(tag + ' data', a.data, b.data)
    same_header(cx, tag, a.stats, b.stats)


def code_pair(cx, name, al='AB'):
    return (cx.string(name + '0', 1, al), cx.string(name + '1', 1, al))


def order(cx, pairs):
    """the pair is in the order it is stored in"""
    r = True
    for a, b in reversed(pairs):
        r = cx.lor(a < b, cx.land(a == b, r))
    cx.assume(r)


def flip(pairs):
    return [(b, a) for a, b in pairs]


def dash(p):
    return p[0] + '-' + p[1]


@harness('C06', 'roundtrip', over=over, cost=3, quick=[
    dict(vary=v, when=w, swap=s) for v in ('sta', 'cha', 'time')
    for w in ('exact', 'start', 'all') for s in (0, 1)
    if s or v == 'time'],
    thorough=[dict(vary=v, when=w, swap=1, n=3) for v in (
        'sta', 'cha', 'time') for w in ('start', 'all')])
def roundtrip(cx, vary, when, swap, n=2):
    m = cx.mod('seismic.db.corr_hdf5')
    d = cx.scratch()
    recs = []
    for i in range(n):
        s = code_pair(cx, f's{i}') if vary == 'sta' else ('A', 'A')
        c = code_pair(cx, f'c{i}') if vary == 'cha' else ('Y', 'Z')
        order(cx, [s, c])
        t = cx.utc(cx.int(f't{i}', 0, 5) * 100 + (
            .25 if vary == 'time' else 0.))
        e = t + 10 * (cx.int(f'e{i}', 1, 2) if vary == 'time' else 1)
        codes = [('N', 'N'), s, ('0', '1'), c]
        recs.append(dict(s=s, c=c, t=t, e=e, tag=cx.pick(f'tag{i}', [
            'subdivision', 'recombined']) if i and vary == 'time' else
            'subdivision',
            tr=mktr(cx, codes, (t, e), cx.arr(f'd{i}', 2),
                    cx.real(f'l{i}', -5, 5),
                    [1., 25., .5][i])))
    p = d + '/x.h5'
    # several sessions
    for r in recs:
        with m.CorrelationDataBase(p, CO) as db:
            db.add_correlation(r['tr'], r['tag'])
    kept = []
    for r in recs:
        if not any(same_key(cx, r, q) for q in kept):
            kept.append(r)
    with m.CorrelationDataBase(p, mode='r') as db:
        # ask for the record k
        k = cx.pick('k', range(n))
        q = recs[k]
        sc = [q['s'], q['c']]
        if swap:
            sc = flip(sc)
        kw = {}
        if when != 'all':
            kw['corr_start'] = q['t']
        if when == 'exact':
            kw['corr_end'] = q['e']
        out = db.get_data('N-N', dash(sc[0]), dash(sc[1]), q['tag'], **kw)
        exp = []
        for r in kept:
            hit = cx.land(r['s'][0] == q['s'][0], r['s'][1] == q['s'][1],
                          r['c'][0] == q['c'][0], r['c'][1] == q['c'][1],
                          r['tag'] == q['tag'])
            if when != 'all':
                hit = cx.land(hit, cx.eq(r['t'], q['t']))
            if when == 'exact':
                hit = cx.land(hit, cx.eq(r['e'], q['e']))
            if hit:
                exp.append(r)
        cx.check('number', len(out) == len(exp))
        for r in exp:
            got = [g for g in out if cx.eq(g.stats.corr_start, r['t'])
                   and cx.eq(g.stats.corr_end, r['e'])]
            cx.check('found', len(got) == 1)
            same_trace(cx, 'as stored', got[0], r['tr'])
        # what is available
        av = db.get_available_starttimes(
            'N-N', dash(q['s']), q['tag'], '*')
        ch = db.get_available_channels(q['tag'], 'N-N', dash(q['s']))
        mine = [r for r in kept if r['tag'] == q['tag'] and r['s'][0] ==
                q['s'][0] and r['s'][1] == q['s'][1]]
        cx.check('channels', len(ch) == len(set(ch)) and len(av) == len(ch))
        for r in mine:
            cx.check('channel listed', any(
                bool(x == dash(r['c'])) for x in ch))
            ts = [v for x, v in av.items() if x == dash(r['c'])]
            cx.check('start listed', len(ts) == 1 and ts[0].count(
                r['t'].format_fissures()) == 1)
        for x in ch:
            cx.check('channel stored', any(
                bool(x == dash(r['c'])) for r in mine))
        nst = sum(len(v) for v in av.values())
        cx.check('nothing else', nst == len({
            i for i, r in enumerate(mine) if not any(
                same_key(cx, r, w, False) for w in mine[:i])}))


def same_key(cx, a, b, end=True):
    return a['tag'] == b['tag'] and bool(cx.land(
        a['s'][0] == b['s'][0], a['s'][1] == b['s'][1],
        a['c'][0] == b['c'][0], a['c'][1] == b['c'][1],
        cx.eq(a['t'], b['t']), not end or cx.eq(a['e'], b['e'])))


HDR = [{}, {'processing': ['a', 'b']}, {'dist': 3.5, 'az': 0.},
       {'flag': True, 'count': 3, 'text': 'x'}, {'none': None},
       {'map': {'a': 1}}, {'vals': [1., 2.5]}, {'when': 'utc'}]


@harness('C06', 'header', over=over, quick=[dict()])
def header(cx):
    """every kind of header entry comes back, or only that entry is lost"""
    m = cx.mod('seismic.db.corr_hdf5')
    d = cx.scratch()
    ex = dict(cx.pick('extra', HDR))
    if 'dist' in ex:
        ex['dist'] = cx.real('dist', 0, 1000)
    if 'vals' in ex:
        ex['vals'] = cx.reals('v', 2)
    t = cx.utc(cx.int('t', 0, 100000) * .25)
    tr = mktr(cx, [('A', 'A'), ('B', 'C'), ('', ''), ('Z', 'Z')],
              (t, t + 20), cx.arr('d', 3), cx.real('l', -5, 5),
              cx.real('sr', 1, 10), **ex)
    with m.CorrelationDataBase(d + '/y', CO, compression=cx.pick(
            'comp', ['gzip3', None, 'gzip12'])) as db:
        db.add_correlation(cx.mod(
            'seismic.correlate.stream').CorrStream([tr]), 't')
    with m.CorrelationDataBase(d + '/y.h5', mode='r') as db:
        out = db.get_data('A-A', 'B-C', 'Z-Z', 't')
    cx.check('number', len(out) == 1)
    cx.eqs('data', out[0].data, tr.data)
    same_header(cx, 'header', out[0].stats, tr.stats,
                skip=('none', 'map', 'when'))
    cx.eqs('lag axis', out[0].times(), tr.times())


@harness('C06', 'wildcards', over=over, cost=2, quick=[
    dict(kind='channel'), dict(kind='station')],
    thorough=[dict(kind='channel', n=3)])
def wildcards(cx, kind, n=2):
    m = cx.mod('seismic.db.corr_hdf5')
    d = cx.scratch()
    recs = []
    for i in range(n):
        if kind == 'channel':
            s = (('A', 'B'), ('A', 'A'))[cx.pick(f'st{i}', [0, 1])
                                         if i else 0]
            c = (cx.string(f'c{i}0', 2, 'ABC'), cx.string(f'c{i}1', 2,
                                                          'ABC'))
        else:
            s = (cx.string(f's{i}0', 2, 'ABC'), cx.string(f's{i}1', 2,
                                                          'ABC'))
            c = ('ZZ', 'ZN')
        order(cx, [s, c])
        t = cx.utc(100 * i)
        recs.append((s, c, mktr(cx, [('N', 'N'), s, ('', ''), c],
                                (t, t + 50), cx.arr(f'd{i}', 1))))
    with m.CorrelationDataBase(d + '/x.h5', CO) as db:
        for s, c, tr in recs:
            db.add_correlation(tr)
        pat = cx.pick('pat', ['*', '*-*', 'B*-A*', '*-AC', 'BA-*', 'B?-?C',
                              '?B-*', 'CA-BB'])
        if kind == 'channel':
            ask = ('N-N', 'A-B', pat)
        else:
            ask = ('N-N', pat, 'ZZ-ZN')

        def ok(s, c):
            p = s if kind == 'station' else c
            if kind == 'channel' and not (s[0] == 'A' and s[1] == 'B'):
                return False
            a, b = p
            if pat == '*' or pat == '*-*':
                return True
            if pat == 'B*-A*':
                return cx.land(a[0] == 'B', b[0] == 'A')
            if pat == '*-AC':
                return b == 'AC'
            if pat == 'BA-*':
                return a == 'BA'
            if pat == 'B?-?C':
                return cx.land(a[0] == 'B', b[1] == 'C')
            if pat == '?B-*':
                return a[1] == 'B'
            if kind == 'station':   # the request is out of order
                return cx.land(a == 'BB', b == 'CA')
            return cx.land(a == 'CA', b == 'BB')
        try:
            out = db.get_data(*ask, 'subdivision')
        except KeyError:
            out = []
        ids = [next(i for i in range(n) if cx.eq(
            tr.stats.corr_start, recs[i][2].stats.corr_start))
            for tr in out]
        if kind == 'station' and pat == 'CA-BB':
            # channels belong to the stations, and follow them
            cx.check('none', not ids)
            return
        for i, (s, c, tr) in enumerate(recs):
            cx.check('matching', cx.eq(ok(s, c), ids.count(i) == 1))
        cx.check('once', len(ids) == len(set(ids)))


@harness('C06', 'remove', over=over, cost=2, quick=[
    dict(how=h) for h in ('time', 'star', 'pattern', 'swapped')])
def remove(cx, how):
    m = cx.mod('seismic.db.corr_hdf5')
    d = cx.scratch()
    recs = []
    for i in range(3):
        c = (('Z', 'Z'), ('N', 'Z'), ('Z', 'Z'))[i]
        t = cx.utc(cx.int(f't{i}', 0, 3) * 100) if how != 'pattern' else \
            cx.utc(86400. * cx.pick(f't{i}', [0, 9, 19, 110]))
        recs.append((('A', 'B'), c, t, mktr(
            cx, [('N', 'N'), ('A', 'B'), ('', ''), c], (t, t + 50),
            cx.arr(f'd{i}', 1))))
    cx.assume(cx.lnot(cx.eq(recs[0][2], recs[2][2])))
    with m.CorrelationDataBase(d + '/x.h5', CO) as db:
        for s, c, t, tr in recs:
            db.add_correlation(tr)
        db.add_correlation(recs[0][3], 'other')
        k = recs[0][2]
        if how == 'time':
            k = cx.utc(cx.int('k', 0, 4) * 100)
            db.remove_data('N-N', 'A-B', 'Z-Z', 'subdivision', k)
        elif how == 'swapped':
            db.remove_data('N-N', 'B-A', 'Z-Z', 'subdivision', k)
        elif how == 'star':
            db.remove_data('N-N', 'A-B', 'Z-Z', 'subdivision', '*')
        else:
            pat = cx.pick('p', ['1970?10*', '197001*', '1970*1T*',
                                '1970?11T*'])
            db.remove_data('N-N', 'A-B', 'Z-Z', 'subdivision', pat)
        for bad in ('*', '*-B'):
            cx.raises('wildcard', ValueError, db.remove_data, 'N-N', bad,
                      'Z-Z', 'subdivision', '*')
    with m.CorrelationDataBase(d + '/x.h5', mode='r') as db:
        left = db.get_data('N-N', 'A-B', '*', 'subdivision')
        oth = db.get_data('N-N', 'A-B', 'Z-Z', 'other')
    cx.check('other tag', len(oth) == 1)
    for i, (s, c, t, tr) in enumerate(recs):
        if c != ('Z', 'Z'):
            gone = False
        elif how in ('time', 'swapped'):
            gone = cx.eq(t, k)
        elif how == 'star':
            gone = True
        else:
            import fnmatch
            gone = fnmatch.fnmatch(t.format_fissures(), pat)
        got = [x for x in left if x.stats.channel == '-'.join(c) and
               cx.eq(x.stats.corr_start, t)]
        cx.check('removed', cx.eq(gone, len(got) == 0))
        if got:
            same_trace(cx, 'kept', got[0], tr)


def options(cx, x, mask=0):
    co = {'subdivision': {'corr_inc': x[0], 'corr_len': 10,
                          'recombine_subdivision': True,
                          'delete_subdivision': False},
          'corr_args': {'TDpreProcessing': [
              {'function': 'f', 'args': {'a': x[1], 'b': [x[2], 'n']}}],
              'FDpreProcessing': [], 'lengthToSave': 5,
              'combinations': [(0, 1)]},
          'preProcessing': [
              {'function': 'seismic.correlate.preprocessing_stream.'
                           'stream_filter', 'args': {'o': x[3]}}],
          'sampling_rate': 25, 'combination_method': 'betweenStations',
          'starttime': 'a', 'subdir': 'b', 'xcombinations': None}
    ms = {'function': 'seismic.correlate.preprocessing_stream.'
                      'stream_mask_at_utc', 'args': {'m': 1}}
    co['preProcessing'] = [ms] * (mask % 3) + co['preProcessing'] + \
        [ms] * (mask // 3)
    return co


@harness('C06', 'options', over=over, cost=2, quick=[dict()])
def options_(cx):
    """a database only takes correlations with the same processing"""
    import copy
    m = cx.mod('seismic.db.corr_hdf5')
    d = cx.scratch()
    x, y = cx.reals('x', 4, -3, 3), cx.reals('y', 4, -3, 3)
    a, b = options(cx, x, cx.pick('m0', [0, 1, 5])), options(
        cx, y, cx.pick('m1', [0, 4]))
    ch = cx.pick('change', ['none', 'selection', 'missing', 'extra', 'step',
                            'order'])
    same = ch in ('none', 'selection', 'order')
    if ch == 'selection':
        b.update(starttime='q', subdir='r', read_len=3, read_inc=4,
                 combination_method='allCombinations',
                 xcombinations=['A-B.C-D'], preprocess_subdiv=True,
                 allow_different_params=True)
        b['corr_args']['combinations'] = []
        b['subdivision']['recombine_subdivision'] = False
    elif ch == 'missing':
        del b['sampling_rate']
    elif ch == 'extra':
        b['remove_response'] = True
    elif ch == 'step':
        b['preProcessing'].append({'function': 'other', 'args': {}})
    elif ch == 'order':
        b = dict(reversed(list(b.items())))
    keep = copy.deepcopy(a)
    p = d + '/x.h5'
    with m.CorrelationDataBase(p, a) as db:
        st = db.get_corr_options()
    cx.check('caller keeps options', keep == a)
    force = cx.pick('force', [False, True])
    want = cx.land(same, *[cx.eq(u, v) for u, v in zip(x, y)])
    want = cx.lor(want, force)
    try:
        with m.CorrelationDataBase(p, b, _force=force) as db:
            after = db.get_corr_options()
        got = True
        cx.check('options kept', after == st)
    except PermissionError:
        got = False
    cx.check('accepted', cx.eq(want, got))
    for k in ('sampling_rate', 'subdivision', 'corr_args',
              'preProcessing'):
        cx.check('stored', k in st)
    cx.check('values', cx.land(
        cx.eq(st['subdivision']['corr_inc'], x[0]),
        cx.eq(st['corr_args']['TDpreProcessing'][0]['args']['a'], x[1]),
        cx.eq(st['preProcessing'][0]['args']['o'], x[3])))


@harness('C06', 'modes', over=over, quick=[dict()])
def modes(cx):
    m = cx.mod('seismic.db.corr_hdf5')
    d = cx.scratch()
    p = d + '/x.h5'
    tr = mktr(cx, [('A', 'A'), ('B', 'B'), ('', ''), ('Z', 'Z')],
              (cx.utc(0.), cx.utc(10.)), cx.arr('d', 2))
    with m.CorrelationDataBase(p, CO) as db:
        db.add_correlation(tr)
    # without options the file is opened read only
    c = m.CorrelationDataBase(p, mode=cx.pick('mode', ['a', 'w', 'r+']))
    cx.check('read only', c.mode == 'r')
    with c as db:
        got = db.get_data('A-A', 'B-B', 'Z-Z', 'subdivision')
    cx.check('still there', len(got) == 1)
    cx.eqs('data', got[0].data, tr.data)
    cx.raises('type', TypeError, lambda: addbad(m, d))


def addbad(m, d):
    with m.CorrelationDataBase(d + '/z.h5', CO) as db:
        db.add_correlation([1, 2])
