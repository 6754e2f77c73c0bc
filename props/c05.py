"""Selecting and stacking correlations."""
from symx.run import harness
from .common import seq_sum


def mkct(cx, data, start, end, uid=0, codes=('A-A', 'B-C', '', 'Z-Z'),
         lag=-1.):
    m = cx.mod('seismic.correlate.stream')
    h = dict(network=codes[0], station=codes[1], location=codes[2],
             channel=codes[3], corr_start=start, corr_end=end,
             start_lag=lag, sampling_rate=1., npts=len(data))
    h['uid'] = uid
    return m.CorrTrace(data, _header=h)


def mkcs(cx, trs):
    return cx.mod('seismic.correlate.stream').CorrStream(trs)


def spans(cx, n, overlap=True):
    out = []
    for i in range(n):
        s = cx.real(f's{i}', 0, 1000)
        d = cx.real(f'd{i}', 0, 100)
        cx.assume(d > 0)
        out.append((cx.utc(s), cx.utc(s) + d, d))
    return out


def maxi(cx, xs):
    m = xs[0]
    for x in xs[1:]:
        m = cx.ite(x > m, x, m)
    return m


@harness('C05', 'average', cost=2, quick=[
    dict(n=n, p=2, weight=w, norm=b) for n in (1, 2, 3)
    for w in ('mean', 'by_length') for b in (0, 1) if n * b < 3],
    thorough=[dict(n=3, p=3, weight=w, norm=0)
              for w in ('mean', 'by_length')])
def average(cx, n, p, weight, norm):
    m = cx.mod('seismic.correlate.stream')
    sp = spans(cx, n)
    nan = weight == 'mean'
    A = cx.arr('A', (n, p), nan=nan)
    orig = A.copy()
    st = mkcs(cx, [mkct(cx, A[i], sp[i][0], sp[i][1], i)
                   for i in range(n)])
    out = m.stack_st(st, weight, norm=bool(norm))
    F = [cx.flat(orig[i]) for i in range(n)]
    exp = []
    for j in range(p):
        col = [F[i][j] for i in range(n)]
        if weight == 'mean':
            cx.assume(cx.lor(*[cx.lnot(cx.isnan(x)) for x in col]))
            good = [cx.ite(cx.isnan(x), 0., x) for x in col]
            k = cx.count([cx.lnot(cx.isnan(x)) for x in col])
            exp.append(seq_sum(good) / k)
        else:
            exp.append(seq_sum([x * sp[i][2] for i, x in enumerate(col)])
                       / seq_sum([q[2] for q in sp]))
    got = cx.flat(out.data)
    cx.check('samples', len(got) == p)
    if norm:
        mx = maxi(cx, [cx.ite(e < 0, -e, e) for e in exp])
        cx.assume(mx > 0)
        cx.eqs('normalised mean', [g * mx for g in got], exp)
    else:
        cx.eqs('mean', got, exp)
    cs, ce = out.stats.corr_start, out.stats.corr_end
    cx.check('covers', cx.land(*[
        cx.land(cs <= a, ce >= b) for a, b, d in sp]))
    cx.check('start taken', cx.lor(*[cx.eq(cs, a) for a, b, d in sp]))
    cx.check('end taken', cx.lor(*[cx.eq(ce, b) for a, b, d in sp]))
    cx.check('npts', out.stats.npts == p)
    cx.check('lag', cx.eq(out.stats.start_lag, -1.))


@harness('C05', 'groups', cost=2, quick=[
    dict(n=2, loc=1), dict(n=2, loc=0), dict(n=3, loc=1, one=1),
    dict(n=3, loc=0, one=1)], thorough=[dict(n=3, loc=1), dict(n=3, loc=0)])
def groups(cx, n, loc, one=0):
    """only correlations of one combination are averaged"""
    m = cx.mod('seismic.correlate.stream')
    cs = [[cx.string(f'n{i}', 1), cx.string(f's{i}', 1) if not one else 'S',
           cx.string(f'l{i}', 1), cx.string(f'c{i}', 1)
           if not one else 'Z'] for i in range(n)]
    trs = []
    for i in range(n):
        d = cx.np.zeros(n)
        d[i] = 1.
        trs.append(mkct(cx, d, cx.utc(10. * i), cx.utc(10. * i + 10), i,
                        cs[i]))
    out = m.stack_st_by_group(mkcs(cx, trs), bool(loc), 'mean')
    rows = [[bool(x > 0) for x in cx.flat(t.data)] for t in out]
    for i in range(n):
        cx.check('once', sum(r[i] for r in rows) == 1)
        for j in range(i):
            same = cx.land(*[cs[i][k] == cs[j][k] for k in (
                (0, 1, 2, 3) if loc else (0, 1, 3))])
            cx.check('together', cx.eq(same, any(
                r[i] and r[j] for r in rows)))
    for t, r in zip(out, rows):
        i = r.index(True)
        cx.check('codes', cx.land(
            t.stats.network == cs[i][0], t.stats.station == cs[i][1],
            t.stats.channel == cs[i][3]))
    for i in range(n):
        for j in range(n):
            cx.check('same id', cx.eq(
                m.compare_tr_id(trs[i], trs[j], bool(loc)),
                cx.land(*[cs[i][k] == cs[j][k] for k in (
                    (0, 1, 2, 3) if loc else (0, 1, 3))])))


def units(cx, sp, codes=None):
    n = len(sp)
    trs = []
    for i in range(n):
        d = cx.np.zeros(n)
        d[i] = 1.
        trs.append(mkct(cx, d, sp[i][0], sp[i][1], i))
    return trs


def members(cx, t):
    return [bool(x > 0) for x in cx.flat(t.data)]


@harness('C05', 'windows', cost=4, quick=[
    dict(n=1, k=3), dict(n=2, k=3), dict(n=2, k=3, given=1),
    dict(n=3, k=2)],
    thorough=[dict(n=3, k=3), dict(n=2, k=5), dict(n=3, k=2, given=1)])
def windows(cx, n, k, given=0):
    """every correlation enters exactly one stack"""
    sp = spans(cx, n)
    L = cx.real('L', 0, 200)
    cx.assume(L > 0)
    for a, b, d in sp:
        cx.assume(d <= L)
    t0 = sp[0][0]
    t1 = sp[0][1]
    for a, b, d in sp[1:]:
        t0 = cx.ite(a < t0, a, t0)
        t1 = cx.ite(b > t1, b, t1)
    # the first window end lies between these bounds
    st = mkcs(cx, units(cx, sp))
    kw = {}
    if given:
        e0 = cx.real('e0', 0, 50)
        e1 = cx.real('e1', 0, 50)
        t0, t1 = t0 - e0, t1 + e1
        kw = dict(starttime=t0, endtime=t1)
    cx.assume(t1 - t0 <= k * L)
    out = st.stack('mean', stack_len=L, **kw)
    rows = [members(cx, t) for t in out]
    for i in range(n):
        cx.check('once', sum(r[i] for r in rows) == 1)
    for t, r in zip(out, rows):
        mem = [sp[i] for i in range(n) if r[i]]
        cx.check('start', cx.land(*[
            t.stats.corr_start <= a for a, b, d in mem]))
        cx.check('end', cx.land(*[
            t.stats.corr_end >= b for a, b, d in mem]))
        cx.check('window', cx.lor(*[cx.land(*[
            cx.land(b > t0 + q * L, b <= t0 + (q + 1) * L)
            for a, b, d in mem]) for q in range(k)]))
    for i in range(n):
        for j in range(i):
            same = cx.lor(*[cx.land(*[
                cx.land(b > t0 + q * L, b <= t0 + (q + 1) * L)
                for a, b, d in (sp[i], sp[j])]) for q in range(k)])
            cx.check('together', cx.eq(same, any(
                r[i] and r[j] for r in rows)))


@harness('C05', 'daily', cost=3, quick=[dict(n=2)], thorough=[dict(n=3)])
def daily(cx, n):
    D = 86400
    sp = []
    for i in range(n):
        s = cx.real(f's{i}', 0, 2 * D)
        d = cx.real(f'd{i}', 0, D)
        cx.assume(d > 0)
        cx.assume(s + d <= 2 * D)
        sp.append((cx.utc(s), cx.utc(s) + d, s + d))
    out = mkcs(cx, units(cx, sp)).stack('mean', stack_len='daily')
    rows = [members(cx, t) for t in out]
    for i in range(n):
        cx.check('once', sum(r[i] for r in rows) == 1)
        for j in range(i):
            same = cx.eq(sp[i][2] <= D, sp[j][2] <= D)
            cx.check('by day', cx.eq(same, any(r[i] and r[j]
                                               for r in rows)))


@harness('C05', 'slide', cost=3, quick=[
    dict(n=1, k=3, part=0), dict(n=1, k=3, part=1), dict(n=2, k=2, part=0)],
    thorough=[dict(n=2, k=3, part=0), dict(n=2, k=3, part=1)])
def slide(cx, n, k, part):
    sp = spans(cx, n)
    L = cx.real('L', 0, 200)
    S = cx.real('S', 0, 200)
    cx.assume(S > 0)
    for a, b, d in sp:
        cx.assume(d <= L)
    t0, t1 = sp[0][0], sp[0][1]
    for a, b, d in sp[1:]:
        t0 = cx.ite(a < t0, a, t0)
        t1 = cx.ite(b > t1, b, t1)
    cx.assume(t1 - t0 <= k * S)
    st = mkcs(cx, units(cx, sp))
    out = [[tr.stats['uid'] for tr in w]
           for w in st.slide(L, S, include_partially_selected=bool(part))]
    exp = []
    for q in range(k):
        a = t0 + q * S
        if not a < t1:
            break
        if part:
            w = [i for i in range(n) if sp[i][1] > a and
                 sp[i][1] <= a + L]
        else:
            w = [i for i in range(n) if sp[i][0] >= a and
                 sp[i][1] <= a + L]
        if w:
            exp.append(w)
    cx.check('windows', [sorted(w) for w in out] == exp)
    uid = {i: sp[i][0] for i in range(n)}
    for w in out:
        cx.check('in order', cx.land(*[
            uid[p] <= uid[q] for p, q in zip(w, w[1:])]))
    cx.raises('window too short', ValueError, lambda: list(
        mkcs(cx, units(cx, sp)).slide(sp[0][2] / 2, S)))


@harness('C05', 'select', quick=[dict(n=2, part=0), dict(n=2, part=1)],
         thorough=[dict(n=3, part=0), dict(n=3, part=1)])
def select(cx, n, part):
    sp = spans(cx, n)
    a = cx.utc(cx.real('a', 0, 1000))
    b = a + cx.real('len', 0, 200)
    cx.assume(b > a)
    st = mkcs(cx, units(cx, sp))
    out = st.select_corr_time(a, b, include_partially_selected=bool(part))
    ids = [t.stats['uid'] for t in out]
    for i, (s, e, d) in enumerate(sp):
        want = cx.land(e > a, e <= b) if part else cx.land(s >= a, e <= b)
        cx.check('selected', cx.eq(want, ids.count(i) == 1))
        cx.check('once', ids.count(i) <= 1)
    # removal of correlations that contain a time
    us = [cx.utc(cx.real(f'u{i}', 0, 1000)) for i in range(2)]
    import numpy as np
    st = mkcs(cx, units(cx, sp))
    out = st.pop_at_utcs(cx.tovals(us) if cx.symbolic else np.array(us))
    ids = [t.stats['uid'] for t in out]
    for i, (s, e, d) in enumerate(sp):
        hit = cx.lor(*[cx.land(s < u, u < e) for u in us])
        cx.check('kept', cx.eq(cx.lnot(hit), ids.count(i) == 1))
    cx.check('kept once', len(ids) == len(set(ids)))


@harness('C05', 'clock', cost=3, quick=[dict(excl=0), dict(excl=1)])
def clock(cx, excl):
    s = cx.real('s', 0, 2 * 86400)
    d = cx.real('d', 0, 80000)
    cx.assume(d > 0)
    a, b = cx.utc(s), cx.utc(s + d)
    lo, hi = cx.pick('win', [
        ((0, 0, 0), (23, 59, 59)), ((6, 30, 0), (18, 0, 30)),
        ((12, 0, 0), (12, 0, 0)), ((22, 0, 0), (23, 0, 0))])
    st = mkcs(cx, [mkct(cx, cx.np.ones(2), a, b)])
    out = st.select_time(lo, hi, exclude=bool(excl))
    la, lb = [x[0] * 3600 + x[1] * 60 + x[2] for x in (lo, hi)]

    def tod(x):
        return x - cx.ite(x >= 3 * 86400, 3, cx.ite(
            x >= 2 * 86400, 2, cx.ite(x >= 86400, 1, 0))) * 86400
    inside = cx.land(tod(s) >= la, tod(s + d) <= lb)
    cx.check('selected', cx.eq(
        inside if not excl else cx.lnot(inside), len(out) == 1))


@harness('C05', 'duplicates', quick=[dict(n=2), dict(n=3)])
def duplicates(cx, n):
    A = cx.arr('A', (n, 2), nan=False)
    t = [cx.time(f't{i}') for i in range(n)]
    trs = [mkct(cx, A[i].copy(), t[i], t[i] + 5) for i in range(n)]
    st = mkcs(cx, trs)
    st.remove_duplicates()
    F = [cx.flat(A[i]) for i in range(n)]
    kept = [next(j for j in range(n) if trs[j] is tr) for tr in st]
    for i in range(n):
        dup = cx.lor(*[cx.land(*[cx.eq(x, y) for x, y in zip(F[i], F[j])],
                               cx.eq(t[i], t[j])) for j in range(i)])
        cx.check('kept', cx.eq(cx.lnot(dup), i in kept))
