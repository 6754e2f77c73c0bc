"""Correlation matrices: conversion, selection of rows, saving."""
import numpy as np

from symx.run import harness
from .c06 import same_header

CODES = ('N-N', 'A-B', '00-00', 'HHZ-HHZ')
KEYS = ('network', 'station', 'location', 'channel')


def mkct(cx, data, t, codes=CODES, sl=-1., sr=1., **kw):
    m = cx.mod('seismic.correlate.stream')
    h = dict(zip(KEYS, codes))
    h.update(corr_start=t[0], corr_end=t[1], start_lag=sl,
             sampling_rate=sr, npts=len(data), stla=1., **kw)
    return m.CorrTrace(data, _header=h)


def times(cx, n, i0=0):
    out = []
    for i in range(n):
        s = cx.utc(cx.real(f't{i+i0}', 0, 90))
        out.append((s, s + cx.real(f'd{i+i0}', 5, 10)))
    return out


def mkbulk(cx, n, p=2, vary=('location',), extra=0):
    """a correlation matrix and, independently, what belongs to its rows"""
    m = cx.mod('seismic.correlate.stream')
    ts = times(cx, n)
    A = cx.arr('A', (n, p))
    rows, trs = [], []
    for i in range(n):
        codes = list(CODES)
        if 'location' in vary:
            codes[2] = cx.pick(f'loc{i}', ['00-00', '01-00'])
        if 'channel' in vary:
            codes[3] = cx.pick(f'cha{i}', ['HHZ-HHZ', 'BHZ-HHZ'])
        if 'fixed' in vary:
            codes[2] = ['00-00', '01-00', '00-02'][i]
            codes[3] = ['HHZ-HHZ', 'HHZ-BHZ', 'BHZ-BHZ'][i]
        kw = dict(processing=['x', 'y', 'z']) if extra else {}
        trs.append(mkct(cx, A[i].copy(), ts[i], codes, **kw))
        rows.append(dict(data=list(cx.flat(A[i])), t=ts[i], codes=codes))
    st = m.CorrStream(trs)
    return m, rows, st


def check_trace(cx, tag, tr, row, sl=-1., sr=1.):
    cx.eqs(tag + ' data', tr.data, row['data'])
    s = tr.stats
    for k, c in zip(KEYS, row['codes']):
        cx.check(f'{tag} {k}', isinstance(s[k], str) and s[k] == c)
    cx.check(tag + ' start', cx.eq(s.corr_start, row['t'][0]))
    cx.check(tag + ' end', cx.eq(s.corr_end, row['t'][1]))
    cx.check(tag + ' lag', cx.land(
        cx.eq(s.start_lag, sl), s.npts == len(row['data']),
        cx.eq(s.sampling_rate, sr)))


def check_bulk(cx, tag, cb, rows, sl=-1., sr=1.):
    """cb has exactly these rows"""
    cx.check(tag + ' shape', cb.data.ndim == 2 and len(cb.data) == len(rows))
    for k in ('corr_start', 'corr_end'):
        cx.check(tag + ' ' + k, len(cb.stats[k]) == len(rows))
    for i, r in enumerate(rows):
        cx.eqs(tag + ' data', cb.data[i], r['data'])
        cx.check(tag + ' start', cx.eq(cb.stats.corr_start[i], r['t'][0]))
        cx.check(tag + ' end', cx.eq(cb.stats.corr_end[i], r['t'][1]))
        for k, c in zip(KEYS, r['codes']):
            v = cb.stats[k]
            if not isinstance(v, str):
                cx.check(tag + ' n ' + k, len(v) == len(rows))
                v = v[i]
            cx.check(tag + ' ' + k, v == c)
    cx.check(tag + ' lag', cx.land(
        cx.eq(cb.stats.start_lag, sl), cx.eq(cb.stats.sampling_rate, sr)))
    # and as single correlations
    st = cb.create_corr_stream()
    cx.check(tag + ' count', len(st) == len(rows))
    for tr, r in zip(st, rows):
        check_trace(cx, tag + ' stream', tr, r, sl, sr)


@harness('C07', 'convert', cost=2, quick=[
    dict(n=n, vary=v, sel=s) for n, v, s in (
        (1, 'l', 'all'), (2, 'lc', 'all'), (2, 'l', 'time'), (3, '', 'time'),
        (2, 'lc', 'cha'), (2, 'lc', 'loc'), (3, '', 'ind'))],
    thorough=[dict(n=3, vary='l' if s == 'time' else 'lc', sel=s) for s in (
        'all', 'time', 'cha', 'loc', 'ind')])
def convert(cx, n, vary, sel):
    """stream -> matrix -> stream"""
    vv = [dict(l='location', c='channel')[c] for c in vary]
    m, rows, st = mkbulk(cx, n, vary=vv)
    kw = {}
    exp = rows
    if sel == 'cha':
        kw = dict(channel='HHZ-HHZ')
        exp = [r for r in rows if r['codes'][3] == 'HHZ-HHZ']
    elif sel == 'loc':
        kw = dict(location='01*', network='N-N', station='A-*')
        exp = [r for r in rows if r['codes'][2][:2] == '01']
    elif sel == 'time':
        a = cx.utc(cx.real('a', 0, 100))
        b = a + cx.real('len', 1, 100)
        kw = dict(times=(a, b))
        exp = [r for r in rows if cx.lor(cx.land(
            r['t'][1] > a, r['t'][1] < b), cx.eq(r['t'][1], b))]
        exp = [(r['t'][0], i, r) for i, r in enumerate(exp)]
        exp = [e[2] for e in sorted(exp, key=lambda e: (e[0], e[1]))]
    if sel != 'ind' and not exp:
        cx.raises('nothing selected', ValueError,
                  lambda: st.create_corr_bulk(**kw))
        return
    inpl = cx.pick('inplace', [True, False])
    cb = st.create_corr_bulk(inplace=inpl, **kw)
    if not inpl:
        for tr, r in zip(sorted(st, key=lambda t: 0), rows):
            cx.check('kept', len(tr.data) == len(r['data']))
    if sel == 'ind':
        i = cx.pick('i', range(n))
        j = cx.pick('j', range(n))
        st2 = cb.create_corr_stream(ind=[i, j])
        cx.check('n ind', len(st2) == 2)
        check_trace(cx, 'ind', st2[0], rows[i])
        check_trace(cx, 'ind', st2[1], rows[j])
    check_bulk(cx, 'bulk', cb, exp)
    cx.check('ntrcs', cb.stats.ntrcs == len(exp))


@harness('C07', 'mixing', cost=2, quick=[dict()])
def mixing(cx):
    """different stations or lag axes never end up in one matrix"""
    m = cx.mod('seismic.correlate.stream')
    ts = times(cx, 2)
    what = cx.pick('what', ['network', 'station', 'start_lag', 'npts',
                            'sampling_rate', 'stla'])
    trs, vals = [], []
    for i in range(2):
        codes = list(CODES)
        n, sl, sr, x = 2, -1., 1., 1.
        if what == 'network':
            v = codes[0] = cx.string('x%d' % i, 1) + '-N'
        elif what == 'station':
            v = codes[1] = cx.string('x%d' % i, 1) + '-B'
        elif what == 'start_lag':
            v = sl = cx.real(f'x{i}', -5, 5)
        elif what == 'npts':
            v = n = cx.pick(f'x{i}', [1, 2])
        elif what == 'sampling_rate':
            v = sr = cx.pick(f'x{i}', [1., 2.])
        else:
            v = x = cx.real(f'x{i}', -5, 5)
        tr = mkct(cx, cx.arr(f'd{i}', n), ts[i], codes, sl, sr)
        tr.stats['stla'] = x
        trs.append(tr)
        vals.append(v)
    d0 = [list(cx.flat(t.data)) for t in trs]
    st = m.CorrStream(trs)
    same = vals[0] == vals[1] if isinstance(vals[0], str) else cx.eq(*vals)
    if same:
        cb = st.create_corr_bulk()
        cx.check('both', len(cb.data) == 2)
    elif what == 'sampling_rate':
        # skipped, with a warning
        cb = st.create_corr_bulk()
        cx.check('one', len(cb.data) == 1 and cb.stats.ntrcs == 1)
        cx.eqs('first', cb.data[0], d0[0])
        cx.check('time', cx.eq(cb.stats.corr_start[0], ts[0][0]))
        cx.check('rate', cx.eq(cb.stats.sampling_rate, vals[0]))
    else:
        cx.raises('refused', ValueError, lambda: st.create_corr_bulk())


@harness('C07', 'getitem', cost=2, quick=[dict(n=3, how=h) for h in (
    'int', 'slice', 'list', 'bool')])
def getitem(cx, n, how):
    m, rows, st = mkbulk(cx, n, vary=('fixed',))
    cb = st.create_corr_bulk()
    keep = [list(cx.flat(r)) for r in cb.data]
    if how == 'int':
        i = cx.pick('i', range(-n, n))
        tr = cb[i]
        check_trace(cx, 'int', tr, rows[i])
        cx.check('header', not [k for k in ('ntrcs', 'processing_bulk')
                                if k in tr.stats])
    else:
        if how == 'slice':
            idx = slice(cx.pick('a', [None, 0, 1, 2]),
                        cx.pick('b', [None, 1, 2, -1]),
                        cx.pick('c', [None, 2]))
            sel = list(range(n))[idx]
        elif how == 'list':
            idx = sel = [cx.pick('i', range(n)), cx.pick('j', range(n))]
        else:
            idx = [cx.pick(f'b{k}', [True, False]) for k in range(n)]
            sel = [k for k in range(n) if idx[k]]
            idx = np.array(idx)
        if sel:
            c2 = cb[idx]
            check_bulk(cx, how, c2, [rows[k] for k in sel])
            cx.check('ntrcs', c2.stats.ntrcs == len(sel))
    # the original is as it was
    for a, r in zip(cb.data, keep):
        cx.eqs('original', a, r)
    check_bulk(cx, 'original', cb, rows)


@harness('C07', 'slice', cost=2, quick=[
    dict(n=1), dict(n=2), dict(n=3, lc=0)], thorough=[dict(n=3)])
def slice_(cx, n, lc=1):
    """selection by time"""
    m, rows, st = mkbulk(cx, n, vary=('location',) if lc else (), extra=1)
    cb = st.create_corr_bulk()
    a = cx.utc(cx.real('a', 0, 100))
    b = a + cx.real('len', -5, 100)
    part = cx.pick('part', [True, False])
    if b <= a:
        cx.raises('order', ValueError, lambda: cb.slice(a, b, part))
        return
    c2 = cb.slice(a, b, part)
    if part:
        exp = [r for r in rows if cx.land(r['t'][1] >= a, r['t'][0] <= b)]
    else:
        exp = [r for r in rows if cx.land(r['t'][0] >= a, r['t'][1] <= b)]
    check_bulk(cx, 'slice', c2, exp)
    cx.check('rest of the header', c2.stats.processing == ['x', 'y', 'z'])
    check_bulk(cx, 'original', cb, rows)
    cx.check('original ntrcs', cb.stats.ntrcs == n)


@harness('C07', 'select', cost=2, quick=[dict(n=2)], thorough=[dict(n=3)])
def select(cx, n):
    m, rows, st = mkbulk(cx, n)
    cb = st.create_corr_bulk()
    a = cx.utc(cx.real('a', 0, 100))
    b = a + cx.real('len', 1, 100)
    part = cx.pick('part', [True, False])
    if part:
        exp = [r for r in rows if cx.lor(cx.land(
            r['t'][1] > a, r['t'][1] < b), cx.eq(r['t'][1], b))]
    else:
        exp = [r for r in rows if cx.land(r['t'][0] >= a, r['t'][1] <= b)]
    if not exp:
        cx.raises('nothing selected', ValueError,
                  lambda: cb.select_corr_time(a, b, part))
        return
    exp = [(r['t'][0], i, r) for i, r in enumerate(exp)]
    exp = [e[2] for e in sorted(exp, key=lambda e: (e[0], e[1]))]
    check_bulk(cx, 'select', cb.select_corr_time(a, b, part), exp)


@harness('C07', 'save', cost=2, quick=[dict(n=1), dict(n=2), dict(n=3)])
def save(cx, n):
    d = cx.scratch()
    m, rows, st = mkbulk(cx, n, vary=('fixed',))
    cb = st.create_corr_bulk()
    cb.save(d + '/x.npz')
    c2 = m.read_corr_bulk(d + '/x.npz')
    check_bulk(cx, 'reloaded', c2, rows)
    for k in ('npts', 'start_lag', 'end_lag', 'sampling_rate', 'ntrcs',
              'stla', 'delta'):
        cx.check('header ' + k, cx.eq(c2.stats[k], cb.stats[k]))
    # still works as a matrix
    a = cx.utc(cx.real('a', 0, 100))
    b = a + 20
    exp = [r for r in rows if cx.land(r['t'][1] >= a, r['t'][0] <= b)]
    check_bulk(cx, 'slice', c2.slice(a, b), exp)
    i = cx.pick('i', range(n))
    check_trace(cx, 'item', c2[i], rows[i])
