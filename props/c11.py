"""Reference traces."""
from symx.run import harness
from .common import mkstats, seq_sum
from .c09 import absv, maxv


def mean(cx, v):
    return seq_sum(v) / len(v)


def median(cx, v):
    """of up to three values"""
    if len(v) == 1:
        return v[0]
    if len(v) == 2:
        return (v[0] + v[1]) / 2
    a, b, c = v
    lo = cx.ite(a < b, a, b)
    hi = cx.ite(a < b, b, a)
    return cx.ite(c < lo, lo, cx.ite(c > hi, hi, c))


def finite(cx, v):
    return [x for x in v if not bool(cx.isnan(x))]


@harness('C11', 'extract', cost=2, quick=[
    dict(how=h, n=n, p=2) for h in ('mean', 'median') for n in (1, 2, 3)] + [
    dict(how='norm_mean', n=2, p=2), dict(how='norm_mean', n=1, p=2)],
    thorough=[dict(how='mean', n=4, p=2), dict(how='norm_mean', n=3, p=2)])
def extract(cx, how, n, p):
    m = cx.mod('seismic.correlate.stream')
    # normalised: whole correlations are missing
    A = cx.arr('A', (n, p), nan=how != 'norm_mean')
    if how == 'norm_mean' and n > 1 and cx.pick('gap', [0, 1]):
        A[0] = float('nan')
    orig = A.copy()
    cb = m.CorrBulk(A, stats=mkstats(cx, p, 1., 0., ntrcs=n))
    out = cb.extract_trace(how)
    cx.eqs('matrix unchanged', cb.data, orig)
    cx.eqs('kept', cb.ref_trc, out)
    cx.check('shape', cx.shape(out) == (p,))
    rows = [cx.flat(orig[i]) for i in range(n)]
    if how == 'norm_mean':
        q = [maxv(cx, [absv(cx, x) for x in r]) for r in rows]
        rows = [r if cx.eq(a, 0.) else [x / a for x in r]
                for r, a in zip(rows, q)]
    for j in range(p):
        v = finite(cx, [r[j] for r in rows])
        if v:
            e = median(cx, v) if how == 'median' else mean(cx, v)
            cx.check(how, cx.eq(out[j], e))
        else:
            cx.check('missing', cx.isnan(out[j]))


@harness('C11', 'similar', cost=2, quick=[
    dict(n=1, p=2), dict(n=2, p=1), dict(n=3, p=1),
    dict(n=3, p=2, cols=(0, 0, 1))],
    thorough=[dict(n=4, p=1), dict(n=4, p=2, cols=(0, 1, 1, 0))])
def similar(cx, n, p, cols=None):
    """mean of the normalised correlations that are most similar to their
    mean; missing correlations are ignored

    The correlations are impulses at any sample, one of any amplitude.
    """
    f = cx.mod('seismic.monitor.post_corr_process').corr_mat_extract_trace
    st = mkstats(cx, p, 1., 0., ntrcs=n)
    full = cx.arr('A', (n, p), lo=-4, hi=4)
    col, sign = [], []
    for i in range(n):
        c = cols[i] if cols else cx.pick(f'c{i}', list(range(p)))
        for j in range(p):
            if j != c:
                full[i, j] = 0.
        if i:
            full[i, c] = cx.pick(f's{i}', [1, -2.][:2 - bool(cols)])
        else:
            cx.assume(absv(cx, full[i, c]) >= .1)
        col.append(c)
        sign.append(1 if bool(full[i, c] > 0) else -1)
    if cx.pick('gap', [1] if cols else [0, 1]):
        full = cx.np.concatenate((full, cx.np.full((1, p), float('nan'))))
    pc = cx.pick('pc', [25.] if cols else [0., 25., 50.])
    # similarity to the mean, up to a common factor
    m = [sum(s for s, c in zip(sign, col) if c == j) for j in range(p)]
    cx.assume(any(m))
    sim = [s * m[c] for s, c in zip(sign, col)]
    o = sorted(sim)
    k = pc / 100 * (n - 1)
    lim = o[int(k)]
    if k > int(k):
        lim += (k - int(k)) * (o[int(k) + 1] - lim)
    use = [x > lim for x in sim]
    if not any(use):
        use = [x >= lim for x in sim]
    orig = full.copy()
    out = f(full, st, 'similarity_percentile', pc)
    cx.eqs('matrix unchanged', full, orig)
    for j in range(p):
        e = sum(s for s, c, u in zip(sign, col, use) if u and c == j)
        cx.close('mean of the most similar', out[j], e / sum(use), 1e-9)


@harness('C11', 'multi', cost=2, quick=[
    dict(n=n, how=h) for n, h in ((2, 'int'), (2, 'list'), (3, 'int'),
                                  (2, 'zero'))],
    thorough=[dict(n=3, how='list')])
def multi(cx, n, how):
    """one reference per time window, from the correlations that overlap the
    window extended by half its length to either side"""
    m = cx.mod('seismic.correlate.stream')
    day = 86400
    st = mkstats(cx, n, 1., 0., ntrcs=n)
    ts = []
    for i in range(n):
        s = cx.utc(cx.real(f's{i}', 0, 2) * day if i else 0.)
        e = s + cx.real(f'e{i}', .1, 1) * day
        ts.append((s, e))
    st['corr_start'] = [a for a, b in ts]
    st['corr_end'] = [b for a, b in ts]
    # unit vectors: the result tells which rows were averaged
    cb = m.CorrBulk(cx.np.eye(n), stats=st)
    if how == 'zero':
        out = cb.extract_multi_trace(0)
        cx.eqs('single', out, [1. / n] * n)
        return
    if how == 'int':
        inc = cx.pick('inc', [1, 2])
        out = cb.extract_multi_trace(inc)
        k = len(out)
        end = max([b for a, b in ts])
        cx.check('all windows', cx.land(
            ts[0][0] + k * inc * day >= end,
            ts[0][0] + (k - 1) * inc * day < end))
        incs = [inc] * k
    else:
        incs = [cx.pick('i0', [1, 2]), cx.pick('i1', [1, .5])]
        out = cb.extract_multi_trace(list(incs))
        cx.check('number', len(out) == 2)
    cx.eqs('kept', cb.ref_trc, out)
    a = ts[0][0]
    for k, inc in enumerate(incs):
        lo, hi = a - inc * day / 2, a + inc * day * 3 / 2
        a = a + inc * day
        hit = [bool(cx.land(e >= lo, s <= hi)) for s, e in ts]
        c = sum(hit)
        if c:
            cx.eqs('members', out[k], [h / c for h in hit])
        else:
            cx.check('none', cx.land(*[cx.isnan(v) for v in cx.flat(
                out[k])]))
