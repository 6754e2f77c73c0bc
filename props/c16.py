"""Smoothing and stitching measured changes."""
import math
import numpy as np
from symx.run import harness
from .common import mkstats, patched, seq_sum
from .c15 import mkdv, check_best, axis_of, KEYS


@harness('C16', 'smooth', cost=2, quick=[
    dict(rows=2, k=2, win=2), dict(rows=3, k=1, win=3),
    dict(rows=4, k=1, win=5), dict(rows=2, k=2, win=1)],
    thorough=[dict(rows=5, k=1, win=3), dict(rows=3, k=2, win=3)])
def smooth(cx, rows, k, win):
    """moving mean in time of what is there"""
    dv, S = mkdv(cx, 'S', rows, k)
    kw = {}
    thr = None
    if cx.pick('threshold', [0, 1]):
        thr = cx.real('thr', -1, 1)
        kw = dict(exclude_corr_below=thr)
    ret = dv.smooth_sim_mat(win, **kw)
    cx.check('in place', ret is dv)
    h = win // 2
    E = cx.np.zeros((rows, k))
    for r in range(rows):
        for j in range(k):
            xs = [S[q, j] for q in range(max(0, r - h),
                                         min(rows, r + h + 1))]
            use = [cx.lnot(cx.isnan(x)) if thr is None else
                   cx.land(cx.lnot(cx.isnan(x)), x >= thr) for x in xs]
            num = cx.count(use)
            tot = seq_sum([cx.ite(u, x, 0.) for u, x in zip(use, xs)])
            cx.check('missing mean', cx.isnan(dv.sim_mat[r, j]) == (num == 0))
            cx.check('mean', cx.lor(num == 0, cx.near(
                dv.sim_mat[r, j] * num, tot, 1e-9)))
    check_best(cx, dv, dv.sim_mat)
    cx.eqs('axis', dv.second_axis, axis_of(cx, k))
    cx.check('times', len(dv.stats.corr_start) == rows)


def peaked(cx, name, avail, k):
    """similarity with known maxima, the rest is arbitrary"""
    DV = cx.mod('seismic.monitor.dv').DV
    rows = len(avail)
    S = cx.np.zeros((rows, k))
    at, co = [], []
    for r, a in enumerate(avail):
        if not a:
            S[r] = float('nan')
            at.append(None)
            co.append(math.nan)
            continue
        at.append(cx.pick(f'{name}at{r}', list(range(1, k - 1))))
        co.append([.9, .6][r % 2])
        for j in range(k):
            S[r, j] = co[-1] if j == at[-1] else cx.real(
                f'{name}{r}_{j}', -1, .5)
    axis = cx.np.linspace(-1., 1., k)
    corr, val = cx.np.zeros(rows), cx.np.zeros(rows)
    for r in range(rows):
        corr[r] = co[r]
        val[r] = math.nan if at[r] is None else axis[at[r]]
    st = mkstats(cx, 5, 1., -2., **dict(zip(KEYS, ('N-N', 'A-A', 'Z-Z'))))
    st['corr_start'] = [cx.utc(3600. * i) for i in range(rows)]
    st['corr_end'] = [cx.utc(3600. * i + 3600.) for i in range(rows)]
    return DV(corr, val, 'stretch', S.copy(), axis, 'm', st), S, at, co


PATTERNS = {'same': ((1, 1), (1, 1)), 'one': ((1, 1, 0), (0, 1, 1)),
            'later': ((0, 0, 1), (1, 1, 0)), 'earlier': ((1, 0), (0, 1)),
            'gap': ((1, 0, 0), (0, 0, 1)), 'hole': ((1, 0, 1), (1, 1, 1))}


@harness('C16', 'stitch', cost=3, quick=[
    dict(pat=p, k=5, over=o) for p, o in (
        ('same', 0), ('one', 0), ('one', 1), ('later', 1), ('earlier', 1),
        ('gap', 1), ('hole', 0))],
    thorough=[dict(pat=p, k=7, over=o) for p, o in (
        ('one', 1), ('hole', 1), ('later', 2), ('gap', 2))])
def stitch(cx, pat, k, over):
    """the first measurement is moved so that both agree where they meet"""
    m = cx.mod('seismic.monitor.monitor')
    a0, a1 = PATTERNS[pat]
    rows = len(a0)
    d0, S0, at0, co0 = peaked(cx, 'A', a0, k)
    d1, S1, at1, co1 = peaked(cx, 'B', a1, k)
    v1, c1 = d1.value.copy(), d1.corr.copy()
    method = cx.pick('method', ['mean', 'median', 'max'])

    def run():
        return m.correct_dv_shift(d0, d1, method=method, n_overlap=over)
    both = [r for r in range(rows) if a0[r] and a1[r]]
    if both:
        lo, hi = min(both), max(both)
    else:
        f0, f1 = a0.index(1), a1.index(1)
        l0 = rows - 1 - a0[::-1].index(1)
        l1 = rows - 1 - a1[::-1].index(1)
        lo, hi = (l1, f0) if f0 > l1 else (l0, f1)
        if hi - lo > over:
            cx.raises('too far apart', ValueError, run)
            return
    if method == 'max':
        cx.raises('unknown method', ValueError, run)
        return
    w = range(max(0, lo - over), min(rows, hi + over + 1))

    def level(at, co):
        x = [(at[r], co[r]) for r in w if at[r] is not None]
        if method == 'median':
            return float(np.median([q for q, _ in x]))
        return sum(q * c for q, c in x) / sum(c for _, c in x)
    d = level(at0, co0) - level(at1, co1)
    if abs(d - round(d)) > .499:
        return
    roll = -round(d)
    run()
    cx.eqs('reference', d1.sim_mat, S1)
    cx.eqs('reference value', d1.value, v1)
    cx.eqs('reference similarity', d1.corr, c1)
    for r in range(rows):
        if not a0[r]:
            cx.check('stays missing', cx.land(
                cx.isnan(d0.value[r]), cx.lnot(d0.avail[r])))
            continue
        for j in range(k):
            if 0 <= j - roll < k:
                cx.eqs('moved', [d0.sim_mat[r, j]], [S0[r, j - roll]])
            else:
                # the neighbouring time is a known finding, nothing else is
                x = d0.sim_mat[r, j]
                y = cx.flat(S0)[(r * k + j - roll) % (rows * k)]
                own = cx.lor(cx.isnan(x), *[
                    cx.eq(x, q) for q in cx.flat(S0[r])])
                cx.check('ends', cx.lor(own, cx.eq(x, y)))
                cx.check('no_similarity_of_other_times', own)
        if 0 <= at0[r] + roll < k:
            cx.check('value', cx.lor(*[cx.land(
                cx.eq(d0.value[r], d0.second_axis[j]), *[
                    cx.lor(cx.isnan(y), d0.sim_mat[r, j] >= y)
                    for y in cx.flat(d0.sim_mat[r])]) for j in range(k)]))
    cx.eqs('axis', d0.second_axis, cx.np.linspace(-1., 1., k))


@harness('C16', 'several', cost=2, quick=[dict(n=2), dict(n=3)])
def several(cx, n):
    """measurements are stitched one after the other in time"""
    m = cx.mod('seismic.monitor.monitor')
    pats = [(1, 0, 0, 0), (1, 1, 0, 0), (0, 1, 1, 0), (0, 0, 1, 1)]
    dvs, mean, mats = [], [], []
    for i in range(n):
        a = pats[cx.pick(f'a{i}', [0, 1, 2, 3])]
        dv, S = mkdv(cx, f'S{i}', 4, 1, codes=('N-N', 'A-A', 'Z-' + 'ZNE'[i]),
                     nan=False)
        dv.avail = np.array([bool(x) for x in a])
        dvs.append(dv)
        mats.append(S)
        mean.append(sum(q for q in range(4) if a[q]) / sum(a))
    bad = cx.pick('bad', [0, 1])
    calls = []

    def shift(d0, d1, method='mean', n_overlap=0):
        calls.append((d0, d1))
        cx.check('options', method == 'median' and n_overlap == 2)
        if bad and d0 is dvs[0]:
            raise ValueError('too far apart')
        d0.sim_mat = d0.sim_mat + 1.
        return d0, d1
    with patched(m, correct_dv_shift=shift):
        av = m.average_components(
            dvs, correct_shift=True, correct_shift_method='median',
            correct_shift_overlap=2)
    steps = sorted(set(mean))
    exp = []
    for a, b in zip(steps, steps[1:]):
        exp += [(i, mean.index(a)) for i in range(n) if mean[i] == b]
    cx.check('order', [(dvs.index(a), dvs.index(b)) for a, b in calls] == exp)
    moved = {i for i, _ in exp} - ({0} if bad else set())
    for r in range(4):
        cx.close('average of the stitched', av.sim_mat[r, 0], seq_sum(
            [s[r, 0] + (1. if i in moved else 0.)
             for i, s in enumerate(mats)]) / n, 1e-9)
