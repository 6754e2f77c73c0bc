"""Coherence with references and clock shifts."""
import numpy as np
from symx.run import harness
from .common import seq_sum
from .c12 import window, similarity, check_sim, check_best, spline
from .c13 import mkbulk, untouched, belongs


@harness('C29', 'coherence', cost=3, quick=[
    dict(rows=r, n=n, k=k, sides=s, tws=t) for r, n, k, s, t in (
        (1, 3, 1, 'both', [[0, 1]]), (2, 3, 0, 'right', [[1]]),
        (1, 4, 2, 'left', [[0, 1]]), (2, 3, 2, 'single', [[0, 2]]),
        (1, 5, 1, 'both', [[1, 2]]), (1, 5, 0, 'both', [[0], [1, 2]]),
        (1, 5, 2, 'right', [[0, 1], [2]]))],
    thorough=[dict(rows=r, n=n, k=k, sides=s, tws=t)
              for r, n, k, s, t in (
        (1, 7, 2, 'both', [[0, 1], [2, 3]]), (3, 4, 3, 'left', [[0], [1]]),
        (2, 6, 1, 'single', [[1, 2, 3]]))])
def coherence(cx, rows, n, k, sides, tws):
    """normalised product with each reference in each window"""
    A = cx.arr('A', (rows, n), lo=-4, hi=4)
    R = cx.arr('R', (k, n) if k else n, lo=-4, hi=4)
    gap = cx.pick('gap', [None, 'all'] + list(range(n)))
    if gap is not None:
        A[rows - 1, slice(None) if gap == 'all' else gap] = float('nan')
    gap = cx.pick('reference gap', [None, 0, n - 1])
    if gap is not None:
        R[..., gap] = float('nan')
    oa, orf = A.copy(), R.copy()
    sl = -float((n - 1) // 2)
    cb, ts = mkbulk(cx, A, sl)
    tw = [np.array(t) for t in tws]
    if cx.pick('strange', [0, 1]):
        cx.raises('unknown side', ValueError, lambda: cb.wfc(
            R, tw, 'up', 0., 1., .1, .2))
    w = cb.wfc(R, tw, sides, 0., 1., .1, .2)
    untouched(cx, cb, oa, sl, ts)
    cx.eqs('references unchanged', R, orf)
    cx.eqs('windows unchanged', np.concatenate(tw),
           np.concatenate([np.array(t) for t in tws]))
    cx.check('references', sorted(w.keys()) == [
        'reftr_%d' % i for i in range(k or 1)])
    cx.check('settings', w.wfc_processing == {
        'tw_start': 0., 'tw_len': 1., 'freq_min': .1, 'freq_max': .2})

    def zero(x):
        return [cx.ite(cx.isnan(v), 0., v) for v in cx.flat(x)]
    for i in range(k or 1):
        b = zero(orf[i] if k else orf)
        v = w['reftr_%d' % i]
        cx.check('shape', cx.shape(v) == (len(tw), rows))
        for j, t in enumerate(tws):
            idx = window(n, t, sides)
            for r in range(rows):
                check_sim(cx, v[j][r], *similarity(
                    cx, zero(oa[r]), b, idx))


@harness('C29', 'clock', cost=3, quick=[
    dict(rows=r, n=n, zero=z, sides=s, ref=f, tw=t)
    for r, n, z, s, f, t in (
        (1, 7, 3, 'both', 'given', None), (2, 6, 2, 'both', 'given', None),
        (1, 7, 3, 'single', 'given', None),
        (2, 7, 2, 'right', 'kept', [[0, 2]]),
        (1, 7, 3, 'both', 'row', [[1, 2]]),
        (1, 7, 3, 'both', 'own', [[1, 2]]),
        (2, 7, 4, 'both', 'given', [[0, 1], [2]]))],
    thorough=[dict(rows=r, n=n, zero=z, sides=s, ref='given', tw=t)
              for r, n, z, s, t in (
        (2, 11, 5, 'both', None), (1, 12, 4, 'right', [[0, 3], [4, 6]]),
        (3, 9, 4, 'both', [[1, 3]]))])
def clock(cx, rows, n, zero, sides, ref, tw):
    """candidate shift at which the later reference is most similar"""
    A = cx.arr('A', (rows, n), lo=-4, hi=4)
    if ref == 'own':
        A = cx.np.zeros((rows, n))
        A[0, cx.pick('at', list(range(n)))] = 1.
        A = A * cx.real('amp', .5, 4)
    elif rows > 1 and cx.pick('gap', [0, 1]):
        A[1] = float('nan')
    orig = A.copy()
    sl = -float(zero)
    cb, ts = mkbulk(cx, A, sl)
    kw = {}
    if ref != 'own':
        R = cx.np.zeros(n)
        R[cx.pick('at', list(range(n)))] = 1.
        if ref == 'kept':
            cb.ref_trc = R
        else:
            kw['ref_trc'] = R if ref == 'given' else R[None]
        ro = R * 1.
    twl = None if tw is None else [np.arange(a[0], a[-1] + 1) for a in tw]
    dt = cb.find_clock_shift(tw=twl, shift_range=1, shift_steps=3,
                             sides=sides, return_sim_mat=True, **kw)
    untouched(cx, cb, orig, sl, ts)
    if ref != 'own':
        cx.eqs('reference unchanged', R, ro)
    cx.check('type', dt.value_type[0] == 'shift')
    if tw is None or len(tw) == 1:
        belongs(cx, dt, rows, ts)
    if sides == 'both':
        h = min(zero, n - 1 - zero)
        i0, i1 = zero - h, zero + h + 1
    else:
        i0, i1 = zero, n
    w = i1 - i0
    b0 = orig[0, i0:i1] if ref == 'own' else R[i0:i1]
    if twl is None:
        twl = [range(w // 2 if sides == 'both' else w)]
    axis = cx.flat(dt.second_axis)
    for r in range(rows):
        a = [cx.ite(cx.isnan(v), 0., v) for v in cx.flat(orig[r, i0:i1])]
        for j, x in enumerate((-1., 0., 1.)):
            cx.check('axis', cx.near(axis[j], x, 1e-12))
            M = spline(w, np.arange(w), np.arange(w) - x, 'const')
            b = [seq_sum([float(M[i, q]) * b0[q] for q in range(w)])
                 for i in range(w)]
            for t, win in enumerate(twl):
                idx = window(w, win, 'both' if sides == 'both'
                             else 'single')
                s = dt.sim_mat[r][j] if len(twl) == 1 \
                    else dt.sim_mat[r][j][t]
                check_sim(cx, s, *similarity(cx, a, b, idx), small=.01)
        if rows == 1 and len(twl) == 1:
            check_best(cx, 'shift', cx.flat(dt.sim_mat[r]), dt.corr[r],
                       dt.value[r], axis)
