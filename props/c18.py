"""Measurements that are saved and read again."""
import math
import os
import numpy as np
from symx.run import harness
from .common import mkstats, patched, seq_sum
from .c15 import mkdv, KEYS


def same(cx, label, a, b):
    """both missing or equal arrays"""
    if b is None:
        cx.check(label, a is None)
        return
    cx.check(label + ' shape', a is not None and cx.shape(a) == cx.shape(b))
    for x, y in zip(cx.flat(a), cx.flat(b)):
        cx.check(label, cx.ite(cx.isnan(y), cx.isnan(x), cx.eq(x, y)))


def same_header(cx, a, b):
    cx.check('header fields', sorted(a) == sorted(b))
    for k in b:
        if k in ('corr_start', 'corr_end', 'starttime', 'endtime'):
            cx.check(k, isinstance(a[k], list) and len(a[k]) == len(b[k])
                     and all(bool(cx.near(x - y, 0., 2e-6))
                             for x, y in zip(a[k], b[k])))
        elif isinstance(b[k], str):
            cx.check(k, a[k] == b[k])
        else:
            cx.check(k, cx.eq(a[k], b[k]))


def header(cx, dv, rows):
    """arbitrary times and coordinates"""
    t = [cx.utc(cx.real(f't{i}', 0, 1e6)) for i in range(rows)]
    dv.stats.corr_start = t
    dv.stats.corr_end = [x + 3600. for x in t]
    dv.stats.stla = cx.real('stla', -90, 90)
    dv.stats.dist = cx.real('dist', 0, 1e3)
    dv.stats.location = '00-10'
    dv.stats.processing_note = 'x'


@harness('C18', 'dv', cost=2, quick=[dict(rows=1, k=2), dict(rows=2, k=2),
                                     dict(rows=3, k=1)],
         thorough=[dict(rows=4, k=3)])
def dv_file(cx, rows, k):
    """everything that was measured comes back"""
    m = cx.mod('seismic.monitor.dv')
    d, S = mkdv(cx, 'S', rows, k)
    header(cx, d, rows)
    d.corr = cx.arr('c', (rows,), lo=-1, hi=1, nan=True)
    d.value = cx.arr('v', (rows,), lo=-1, hi=1, nan=True)
    d.avail = ~cx.np.isnan(d.corr)
    proc = cx.pick('settings', ['none', 'some', 'all', 'aligned'])
    d.dv_processing = {}
    if proc != 'none':
        d.dv_processing = dict(
            freq_min=cx.real('f0', 0, 1), freq_max=cx.real('f1', 1, 5),
            tw_start=cx.real('tw0', 0, 50), tw_len=cx.real('tw1', 1, 50))
        if proc != 'some':
            d.dv_processing.update(sides='left', aligned=proc == 'aligned')
    scatter = cx.pick('scatter', [0, 1])
    if scatter:
        d.stretches = cx.arr('st', (2, rows), lo=-1, hi=1, nan=True)
        d.corrs = cx.arr('co', (2, rows), lo=-1, hi=1, nan=True)
        d.n_stat = cx.np.zeros(rows)
        for r in range(rows):
            d.n_stat[r] = 1. * cx.int(f'n{r}', 0, 2)
    # the similarity matrix is optional when shifts are measured
    mat = cx.pick('matrix', ['full', 'empty', 'none'])
    if mat != 'full':
        d.sim_mat = None if mat == 'none' else cx.np.zeros((0,))
    path = os.path.join(cx.scratch(), 'DV-N-N.A-A.Z-Z')
    d.save(path + cx.pick('ending', ['', '.npz']))
    e = m.read_dv(path + '.npz')
    for key in ('corr', 'value', 'sim_mat', 'second_axis', 'avail',
                'stretches', 'corrs', 'n_stat'):
        same(cx, key, getattr(e, key), getattr(d, key))
    cx.check('kind', e.value_type == 'stretch' and e.method == 'm')
    p = e.dv_processing
    if proc == 'none':
        cx.check('settings', p == {})
    else:
        for key in ('freq_min', 'freq_max', 'tw_start', 'tw_len'):
            cx.check('settings', cx.eq(p[key], d.dv_processing[key]))
        cx.check('sides', p['sides'] == (
            'left' if proc != 'some' else 'unknown'))
        cx.check('aligned', (p['aligned'] is False) == (proc != 'aligned')
                 and (p['aligned'] is True) == (proc == 'aligned'))
    same_header(cx, e.stats, d.stats)
    cx.check('dates', max(e.stats.corr_end) >= min(e.stats.corr_start))
    # and once more
    e.save(path)
    f = m.read_dv(path + '.npz')
    same(cx, 'again', f.sim_mat, d.sim_mat)
    same_header(cx, f.stats, d.stats)


@harness('C18', 'files', quick=[dict()])
def files(cx):
    """several files, some of them broken"""
    m = cx.mod('seismic.monitor.dv')
    d = cx.scratch()
    names, exp = [], []
    for i in range(3):
        f = os.path.join(d, f'DV-{i}.npz')
        names.append(f)
        if cx.pick(f'broken{i}', [0, 1]):
            cx.write(f, b'PK\x03\x04 not complete')
        else:
            dv, S = mkdv(cx, f'S{i}', 1, 2)
            dv.dv_processing = {}
            dv.save(f)
            exp.append(S)
    pat = os.path.join(d, cx.pick('pattern', ['DV-*.npz', 'DV-?.npz']))
    with patched(m, glob=lambda p: list(names) if p == pat else []):
        out = m.read_dv(pat) if exp else None
        cx.raises('none', FileNotFoundError,
                  lambda: m.read_dv(os.path.join(d, 'XX*')))
    if exp:
        cx.check('number', len(out) == len(exp))
        for a, b in zip(out, exp):
            same(cx, 'similarity', a.sim_mat, b)


@harness('C18', 'wfc', cost=2, quick=[dict(rows=1), dict(rows=2)],
         thorough=[dict(rows=4)])
def wfc_file(cx, rows):
    """waveform coherences come back, with their averages"""
    m = cx.mod('seismic.monitor.wfc')
    d, S = mkdv(cx, 'S', rows, 1)
    header(cx, d, rows)
    refs = cx.pick('refs', [1, 2])
    vals = {f'reftr_{i}': cx.arr(f'w{i}', (rows,), lo=-1, hi=1)
            for i in range(refs)}
    gap = cx.pick('gap', [None] + list(range(rows)))
    if gap is not None and rows > 1:
        vals['reftr_0'][gap] = math.nan
    proc = dict(tw_start=cx.real('tw0', 0, 50), tw_len=cx.real('tw1', 1, 50),
                freq_min=cx.real('f0', 0, 1), freq_max=cx.real('f1', 1, 5))
    w = m.WFC({k: v.copy() for k, v in vals.items()}, d.stats, dict(proc))
    cx.check('no average yet', len(w.mean) == 0 and w.av == {})
    if cx.pick('average', [0, 1]):
        w.compute_average()
        av = []
        for i in range(refs):
            x = [v for r, v in enumerate(cx.flat(vals[f'reftr_{i}']))
                 if i or r != gap or rows == 1]
            av.append(seq_sum(x) / len(x))
            cx.close('average', w.av[f'reftr_{i}_av'], av[-1], 1e-9)
        cx.close('mean', w.mean, seq_sum(av) / refs, 1e-9)
    path = os.path.join(cx.scratch(), 'WFC-x')
    w.save(path)
    e = m.read_wfc(path + '.npz')
    cx.check('references', sorted(e) == sorted(w))
    for k in vals:
        same(cx, 'coherence', e[k], vals[k])
        same(cx, 'original', w[k], vals[k])
    cx.check('averages', sorted(e.av) == sorted(w.av))
    for k in w.av:
        cx.check('saved average', cx.eq(e.av[k], w.av[k]))
    cx.check('saved mean', cx.shape(e.mean) == cx.shape(w.mean) and all(
        bool(cx.eq(a, b)) for a, b in zip(cx.flat(e.mean), cx.flat(w.mean))))
    cx.check('settings', sorted(e.wfc_processing) == sorted(proc))
    for k in proc:
        cx.check('setting', cx.eq(e.wfc_processing[k], proc[k]))
    same_header(cx, e.stats, w.stats)


@harness('C18', 'grid', cost=2, quick=[dict(n=2), dict(n=3)],
         thorough=[dict(n=4)])
def grid(cx, n):
    """coherences by centre frequency and lapse time"""
    m = cx.mod('seismic.monitor.wfc')
    ws, mean, at = [], [], []
    for i in range(n):
        f = cx.pick(f'f{i}', [(.1, .3), (1., 2.), (.1, 1.)])
        t = cx.pick(f't{i}', [(10., 20.), (0., 5.), (15., 10.)])
        v = cx.arr(f'w{i}', (2,), lo=-1, hi=1)
        w = m.WFC({'reftr_0': v}, mkstats(cx, 5), dict(
            freq_min=f[0], freq_max=f[1], tw_start=t[0], tw_len=t[1]))
        ws.append(w)
        at.append(((f[0] + f[1]) / 2, t[0] + t[1] / 2))
        mean.append((v[0] + v[1]) / 2)
    if cx.pick('average', [0, 1]):
        for w in ws:
            w.compute_average()
    b = m.WFCBulk(ws)
    fs = sorted({f for f, t in at})
    ts = sorted({t for f, t in at})
    cx.check('axes', list(b.cfreq) == fs and list(b.lw) == ts
             and cx.shape(b.wfc) == (len(fs), len(ts)))
    for i, f in enumerate(fs):
        for j, t in enumerate(ts):
            x = b.wfc[i, j]
            cand = [mean[q] for q in range(n) if at[q] == (f, t)]
            if cand:
                cx.close('coherence', x, cand[-1], 1e-9)
            else:
                cx.check('nothing known', cx.isnan(x))
