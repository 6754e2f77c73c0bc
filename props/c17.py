"""Combining measurements made with several references."""
import math
import numpy as np
from symx.run import harness
from .common import patched, seq_sum

CORR = [.9, .5, .2, math.nan]


def weights(c1, c2):
    """inverse of the summed variances; missing: none"""
    if math.isnan(c1) or math.isnan(c2):
        return 0.
    return 1. / sum((1 - c * c) / (4 * c * c) for c in (c1, c2))


def wmean(w, xs):
    return seq_sum([a * x for a, x in zip(w, xs) if a]) / sum(w)


def opt(cx, name, miss):
    """a value that is there or not"""
    return math.nan if miss else cx.real(name, -2, 2)


@harness('C17', 'baseline', cost=2, quick=[dict(n=1), dict(n=2), dict(n=3)],
         thorough=[dict(n=4)])
def baseline(cx, n):
    """shift between two curves: weighted mean of their differences"""
    m = cx.mod('seismic.monitor.stretch_mod')
    c = [[cx.pick(f'c{i}{t}', CORR[:4 if t < 2 else 2]) for t in range(n)]
         for i in (0, 1)]
    d = [[opt(cx, f'd{i}{t}', math.isnan(c[i][t])) for t in range(n)]
         for i in (0, 1)]
    D, C = [], []
    for i in (0, 1):
        D.append(cx.np.zeros(n))
        C.append(cx.np.zeros(n))
        for t in range(n):
            D[i][t], C[i][t] = d[i][t], c[i][t]
    keep = [x.copy() for x in D + C]
    cc, s = m.est_shift_from_dt_corr(D[0], D[1], C[0], C[1])
    w = [weights(c[0][t], c[1][t]) for t in range(n)]
    if not sum(w):
        cx.check('no common time', cx.land(cx.isnan(s), cx.isnan(cc)))
    else:
        cx.close('shift', s, wmean(w, [d[0][t] - d[1][t]
                                       for t in range(n)]), 1e-9)
        cx.close('similarity', cc, wmean(w, [c[0][t] + c[1][t]
                                             for t in range(n)]), 1e-9)
    for a, b in zip(D + C, keep):
        cx.eqs('input', a, b)


def panel(cx, sims, vals, corrs, axis):
    p = {}
    for i in range(len(sims)):
        rows = len(vals[i])
        v, c = cx.np.zeros(rows), cx.np.zeros(rows)
        for r in range(rows):
            v[r], c[r] = vals[i][r], corrs[i][r]
        p[f'reftr_{i}'] = dict(value=v, corr=c, sim_mat=sims[i].copy(),
                               second_axis=axis, value_type='stretch',
                               method='single_ref')
    return p


@harness('C17', 'align', cost=3, quick=[
    dict(refs=2, rows=2, k=3, free=1), dict(refs=2, rows=1, k=4, free=1),
    dict(refs=3, rows=2, k=3, free=0), dict(refs=2, rows=3, k=2, free=0)],
    thorough=[dict(refs=3, rows=2, k=5, free=0),
              dict(refs=4, rows=1, k=3, free=0),
              dict(refs=2, rows=3, k=3, free=1)])
def align(cx, refs, rows, k, free):
    """every matrix is moved by its own offset, then they are averaged"""
    m = cx.mod('seismic.monitor.stretch_mod')
    axis = cx.np.linspace(-.5, .5, k)
    step = 1. / (k - 1)
    corrs = [[.9 if r == i % rows else .6 for r in range(rows)]
             for i in range(refs)]
    gap = cx.pick('gap', [None, 0, rows - 1])
    nogap = [r for r in range(rows) if r != gap]
    if gap is not None:
        corrs[0][gap] = math.nan
    if not nogap:
        return
    # vals: a common curve plus an offset of each reference, or anything
    base = [cx.real(f'b{r}', -.5, .5) for r in range(rows)]
    if free:
        other = [cx.real(f'o{r}', -.5, .5) for r in range(rows)]
        vals = [base, other]
        w = [weights(corrs[0][r], corrs[1][r]) for r in range(rows)]
        off = wmean(w, [a - b for a, b in zip(base, other)])
        move = [-off / 2, off / 2]
    else:
        c = [0] + [cx.pick(f'off{i}', [-1, 0, 1]) for i in range(1, refs)]
        vals = [[b + x * step for b in base] for x in c]
        mean = sum(c) / refs
        move = [(mean - x) * step for x in c]
    vals = [[math.nan if math.isnan(q) else v for v, q in zip(a, b)]
            for a, b in zip(vals, corrs)]
    sims = []
    for i in range(refs):
        S = cx.arr(f'S{i}', (rows, k), lo=-1, hi=1)
        if gap is not None and i == 0:
            S[gap] = math.nan
        sims.append(S)
    p = panel(cx, sims, vals, corrs, axis)
    # number of candidates each matrix is moved by
    roll = []
    for x in move:
        q = x / step
        hit = [j for j in range(-k, k + 1)
               if bool(cx.land(q > j - .49, q < j + .49))]
        if not hit:
            # half way: either neighbour is right
            return
        roll.append(hit[0])
    dv = m.estimate_reftr_shifts_from_dt_corr(p, return_sim_mat=True)
    cx.check('kind', dv['value_type'] == 'stretch')
    cx.eqs('axis', dv['second_axis'], axis)
    S = dv['sim_mat']
    cx.check('shape', cx.shape(S) == (rows, k)
             and cx.shape(dv['value']) == (rows,)
             and cx.shape(dv['corr']) == (rows,))
    for r in range(rows):
        for j in range(k):
            src = [(i, j - roll[i]) for i in range(refs)
                   if not math.isnan(corrs[i][r])]
            if any(not 0 <= q < k for i, q in src):
                continue
            cx.close('mean', S[r, j], seq_sum(
                [sims[i][r, q] for i, q in src]) / len(src), 1e-9)
        cx.check('similarity', cx.land(*[
            dv['corr'][r] >= x - 1e-12 for x in cx.flat(S[r])]))
        cx.check('value', cx.lor(*[cx.land(
            cx.eq(dv['value'][r], axis[j]),
            cx.near(S[r, j], dv['corr'][r], 1e-12)) for j in range(k)]))
    for i in range(refs):
        cx.eqs('input', p[f'reftr_{i}']['sim_mat'], sims[i])


@harness('C17', 'missing', cost=1, quick=[dict(refs=2, k=2)],
         thorough=[dict(refs=3, k=2)])
def missing(cx, refs, k):
    """a time without any measurement stays missing"""
    m = cx.mod('seismic.monitor.stretch_mod')
    axis = cx.np.linspace(-.5, .5, k)
    sims = []
    v = cx.real('v', -.5, .5)
    for i in range(refs):
        S = cx.arr(f'S{i}', (2, k), lo=-1, hi=1)
        S[1] = math.nan
        sims.append(S)
    dv = m.estimate_reftr_shifts_from_dt_corr(panel(
        cx, sims, [[v, math.nan]] * refs, [[.8, math.nan]] * refs, axis),
        return_sim_mat=True)
    cx.check('missing', cx.land(
        cx.isnan(dv['value'][1]), cx.isnan(dv['corr'][1]),
        *[cx.isnan(x) for x in cx.flat(dv['sim_mat'][1])]))
    for j in range(k):
        cx.close('mean', dv['sim_mat'][0, j], seq_sum(
            [s[0, j] for s in sims]) / refs, 1e-9)


@harness('C17', 'apart', quick=[dict(k=3)], thorough=[dict(k=5)])
def apart(cx, k):
    """references without common times leave each other where they are"""
    m = cx.mod('seismic.monitor.stretch_mod')
    axis = cx.np.linspace(-.5, .5, k)
    late = cx.pick('late', [0, 1])
    b = [cx.real(f'b{r}', -.5, .5) for r in range(2)]
    have = [[1 - late, late], [late, 1 - late]]
    sims, vals, corrs = [], [], []
    for i in range(2):
        S = cx.arr(f'S{i}', (2, k), lo=-1, hi=1)
        for r in range(2):
            if not have[i][r]:
                S[r] = math.nan
        sims.append(S)
        vals.append([b[r] if have[i][r] else math.nan for r in range(2)])
        corrs.append([.8 if have[i][r] else math.nan for r in range(2)])
    dv = m.estimate_reftr_shifts_from_dt_corr(
        panel(cx, sims, vals, corrs, axis), return_sim_mat=True)
    for r in range(2):
        i = 0 if have[0][r] else 1
        cx.eqs('similarity', dv['sim_mat'][r], sims[i][r])
        cx.check('available', cx.lnot(cx.isnan(dv['corr'][r])))


@harness('C17', 'wiring', quick=[dict()])
def wiring(cx):
    """what is measured and which result is returned"""
    m = cx.mod('seismic.monitor.stretch_mod')
    A = cx.arr('A', (1, 3), lo=-2, hi=2, nan=True)
    R = cx.arr('R', (2, 3), lo=-2, hi=2)
    oa = A.copy()
    nw = cx.pick('windows', [0, 1, 2])
    tw = [np.arange(1, 3), np.arange(2)][:nw] or None
    refs = cx.pick('refs', [1, 2])
    sides = cx.pick('sides', ['both', 'single'])
    seen = []
    one, two = {'x': 1}, {'x': 2}

    def measure(data, ref, **kw):
        seen.append((data, ref, kw))
        return {f'reftr_{i}': one for i in range(refs)}

    def combine(p, return_sim_mat=False):
        seen.append((p, return_sim_mat))
        return two
    with patched(m, multi_ref_vchange=measure,
                 estimate_reftr_shifts_from_dt_corr=combine):
        out = m.multi_ref_vchange_and_align(
            A, R, tw=tw, stretch_range=.2, stretch_steps=7, sides=sides,
            return_sim_mat=True)
    cx.check('result', out is (two if refs > 1 else one))
    cx.check('calls', len(seen) == refs)
    data, ref, kw = seen[0]
    cx.eqs('references', ref, R)
    for x, y in zip(cx.flat(data), cx.flat(oa)):
        cx.check('data', cx.eq(x, cx.ite(cx.isnan(y), 0., y)))
    cx.check('options', kw['stretch_range'] == .2 and kw['sides'] == sides
             and kw['stretch_steps'] == 7)
    t = kw['tw']
    cx.check('window', t is None if nw == 0 else len(t) == 1 and list(
        t[0]) == [1, 2])
    if refs > 1:
        cx.check('matrix asked for', seen[1][1] is True)
