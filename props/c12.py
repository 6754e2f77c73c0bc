"""Measuring velocity changes and time shifts."""
import numpy as np
from symx.run import harness
from .common import mkstats, seq_sum


def window(n, tw, sides):
    """samples of a time window given in samples from zero lag"""
    c = (n - 1) // 2
    if sides == 'single':
        s = set(tw)
    elif sides == 'right':
        s = {c + j for j in tw}
    elif sides == 'left':
        s = {c - j for j in tw}
    else:
        s = {c + j for j in tw} | {c - j for j in tw}
    return sorted(s)


def similarity(cx, a, b, idx):
    """normalised product of two records"""
    d = seq_sum([a[i] * b[i] for i in idx])
    f = seq_sum([a[i] * a[i] for i in idx])
    g = seq_sum([b[i] * b[i] for i in idx])
    return d, f, g


def check_best(cx, tag, sims, corr, val, axis):
    """corr is the largest similarity, val its first position"""
    bad = cx.lor(*[cx.isnan(s) for s in sims])
    cx.check(tag + ' missing', cx.implies(
        bad, cx.land(cx.isnan(corr), cx.isnan(val))))
    if not bool(bad):
        cx.check(tag + ' largest', cx.land(*[corr >= s for s in sims]))
        cx.check(tag + ' at its place', cx.lor(*[
            cx.land(cx.eq(val, float(x)), cx.eq(corr, s))
            for s, x in zip(sims, cx.flat(axis) if hasattr(axis, 'shape') else axis)]))


def check_sim(cx, s, d, f, g, small=0.):
    """s = d / sqrt(f g)"""
    if small and bool(cx.lor(f < small, g < small)):
        return
    if bool(cx.lor(cx.eq(f, 0), cx.eq(g, 0))):
        cx.check('no energy', cx.isnan(s))
    else:
        cx.check('defined', cx.lnot(cx.isnan(s)))
        cx.check('similarity', cx.eq(s * cx.np.sqrt(f * g), d))


@harness('C12', 'grid', cost=2, quick=[
    dict(n=n, k=k, sides=s, tws=t) for n, k, s, t in (
        (3, 2, 'both', [[0, 1]]), (3, 2, 'right', [[1]]),
        (4, 2, 'left', [[0, 1]]), (3, 2, 'single', [[0, 2]]),
        (5, 2, 'both', [[1, 2]]), (4, 2, 'both', [[0], [1]]),
        (3, 3, 'single', [[1]]))],
    thorough=[dict(n=n, k=k, sides=s, tws=t) for n, k, s, t in (
        (5, 3, 'both', [[0, 1]]), (6, 2, 'right', [[0, 1, 2]]),
        (7, 2, 'left', [[1, 2], [0]]))])
def grid(cx, n, k, sides, tws):
    """similarity with each stretched reference in each window"""
    m = cx.mod('seismic.monitor.stretch_mod')
    A = cx.arr('A', (1, n), lo=-4, hi=4, nan=True)
    S = cx.arr('S', (k, n), lo=-4, hi=4)
    oa, os_ = A.copy(), S.copy()
    axis = cx.np.linspace(-.1, .1, k)
    if cx.pick('strange', [0, 1]):
        cx.raises('unknown side', ValueError, lambda:
                  m.velocity_change_estimate(
                      A, [np.array(t) for t in tws], S, axis, sides='up'))
        cx.raises('other length', ValueError, lambda:
                  m.velocity_change_estimate(
                      A, [np.array(t) for t in tws], S[:, :-1], axis,
                      sides=sides))
    dv = m.velocity_change_estimate(
        A, [np.array(t) for t in tws], S, axis, sides=sides,
        return_sim_mat=True)
    cx.eqs('data unchanged', A, oa)
    cx.eqs('reference unchanged', S, os_)
    cx.eqs('axis', dv['second_axis'], axis)
    a = [cx.ite(cx.isnan(v), 0., v) for v in cx.flat(oa)]
    for i, t in enumerate(tws):
        if len(tws) == 1:
            sim, corr, val = (dv[x][0] for x in ('sim_mat', 'corr', 'value'))
        else:
            sim = dv['sim_mat'][0, :, i]
            corr, val = dv['corr'][i][0], dv['value'][i][0]
        cx.check('shape', cx.shape(sim) == (k,))
        for j in range(k):
            check_sim(cx, sim[j], *similarity(
                cx, a, cx.flat(os_[j]), window(n, t, sides)))
        check_best(cx, 'change', cx.flat(sim), corr, val, axis)


def spline(n, x, q, ext):
    from scipy.interpolate import UnivariateSpline
    M = np.array([UnivariateSpline(x, e, s=0, ext=ext)(q)
                  for e in np.eye(n)]).T
    return np.where(np.abs(M) < 1e-13, 0, M)


@harness('C12', 'stretch', cost=3, quick=[
    dict(n=n, sides=s, trim=t) for n, s, t in (
        (5, 'both', 0), (4, 'right', 0), (4, 'single', 0), (5, 'left', 0),
        (7, 'both', 1))],
    thorough=[dict(n=n, sides=s, trim=t) for n, s, t in (
        (9, 'both', 2), (8, 'single', 0), (9, 'right', 1))])
def stretch(cx, n, sides, trim):
    """references stretched by exp(-change) around zero lag"""
    m = cx.mod('seismic.monitor.stretch_mod')
    w = n - 2 * trim
    A = cx.arr('A', (1, w), lo=-4, hi=4)
    # every linear operation is determined by what it does to impulses
    R = cx.np.zeros(n)
    R[cx.pick('at', list(range(n)))] = 1.
    orf = R.copy()
    st = mkstats(cx, n, 1., -(n - 1) / 2)
    r = cx.pick('range', [.25, .1])
    kw = {}
    if trim:
        kw = dict(ref_tr_trim=(-(w - 1) / 2, (w - 1) / 2), ref_tr_stats=st)
    dv = m.time_stretch_estimate(
        A, ref_trc=R, stretch_range=r, stretch_steps=3, sides=sides, **kw)
    cx.eqs('reference unchanged', R, orf)
    cx.check('header unchanged', st['npts'] == n and bool(
        cx.eq(st['start_lag'], -(n - 1) / 2)))
    axis = [-r, 0, r]
    for a, b in zip(cx.flat(dv['second_axis']), axis):
        cx.check('axis', cx.near(a, b, 1e-12))
    t = np.arange(n) - (0 if sides == 'single' else (n - 1) / 2)
    tw = range(w if sides == 'single' else w // 2)
    idx = window(w, tw, sides)
    a = cx.flat(A)
    for j, x in enumerate(axis):
        M = spline(n, t, t * np.exp(-x), 'zeros')[trim:trim + w]
        b = [seq_sum([float(M[i, q]) * orf[q] for q in range(n)])
             for i in range(w)]
        check_sim(cx, dv['sim_mat'][0][j], *similarity(cx, a, b, idx),
                  small=.01)


@harness('C12', 'multi', cost=2, quick=[dict(n=4, refs=2, rows=1),
                                        dict(n=4, refs=1, rows=2)],
         thorough=[dict(n=5, refs=3, rows=1)])
def multi(cx, n, refs, rows):
    """one estimate for each reference, in the order of the references"""
    m = cx.mod('seismic.monitor.stretch_mod')
    A = cx.arr('A', (rows, n), lo=-4, hi=4)
    R = cx.np.zeros((refs, n))
    for i in range(refs):
        R[i, cx.pick(f'at{i}', list(range(n)))] = 1.
    tw = [np.arange(n)]
    kw = dict(tw=tw, stretch_range=.25, stretch_steps=2, sides='single')
    out = m.multi_ref_vchange(A, R, **kw)
    cx.check('keys', sorted(out) == [f'reftr_{i}' for i in range(refs)])
    t = np.arange(n)
    for i in range(refs):
        dv = out[f'reftr_{i}']
        for r in range(rows):
            for j, x in enumerate((-.25, .25)):
                M = spline(n, t, t * np.exp(-x), 'zeros')
                b = [seq_sum([float(M[p, q]) * R[i, q] for q in range(n)])
                     for p in range(n)]
                check_sim(cx, dv['sim_mat'][r][j], *similarity(
                    cx, cx.flat(A[r]), b, range(n)), small=.01)
