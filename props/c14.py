"""Correcting measured changes."""
import numpy as np
from symx.run import harness
from .common import seq_sum
from .c12 import spline
from .c13 import mkbulk


def mkdv(cx, cb, value, kind='stretch'):
    DV = cx.mod('seismic.monitor.dv').DV
    rows = len(value)
    v = cx.np.zeros(rows)
    for i, x in enumerate(value):
        v[i] = x
    return DV(cx.np.ones(rows), v, kind, cx.np.zeros((rows, 0)),
              cx.np.linspace(-1., 1., 3), 'm', cb.stats.copy())


def lin(cx, xs, ys, q, out):
    """linear interpolation; out: value outside (None: continue the ends)"""
    n = len(xs)

    def seg(k):
        return ys[k] + (q - xs[k]) * (ys[k + 1] - ys[k]) / (
            xs[k + 1] - xs[k])
    r = seg(n - 2)
    for k in range(n - 3, -1, -1):
        r = cx.ite(q <= xs[k + 1], seg(k), r)
    if out is not None:
        r = cx.ite(cx.lor(q < xs[0], q > xs[-1]), out, r)
    return r


def same_header(cx, cb, ts, n, sl):
    st = cb.stats
    cx.check('axis', st['npts'] == n and bool(cx.eq(st['start_lag'], sl))
             and cx.shape(cb.data) == (len(ts), n))
    cx.check('time windows', len(st['corr_start']) == len(ts) and all(
        bool(cx.land(cx.eq(a, t), cx.eq(b, t + 3600.))) for a, b, t in zip(
            st['corr_start'], st['corr_end'], ts)))


@harness('C14', 'shift', cost=2, quick=[
    dict(rows=1, n=4), dict(rows=2, n=3), dict(rows=1, n=2)],
    thorough=[dict(rows=2, n=7), dict(rows=3, n=5)])
def shift(cx, rows, n):
    """correlations move by the shift that was measured, each by its own"""
    A = cx.arr('A', (rows, n), lo=-4, hi=4)
    orig = A.copy()
    sl = cx.pick('first', [-(n - 1) / 2, 0., -1.])
    cb, ts = mkbulk(cx, A.copy(), sl)
    s = [cx.real(f's{i}', -n, n) for i in range(rows)]
    dv = mkdv(cx, cb, s, 'shift')
    ret = cb.correct_shift(dv)
    cx.check('in place', ret is cb)
    same_header(cx, cb, ts, n, sl)
    cx.check('measured change kept', cx.land(*[
        cx.eq(a, b) for a, b in zip(cx.flat(dv.value), s)]))
    xs = [sl + i for i in range(n)]
    for r in range(rows):
        for i in range(n):
            cx.close('shifted', cb.data[r, i], lin(
                cx, xs, cx.flat(orig[r]), xs[i] - s[r], None), 1e-9)


@harness('C14', 'stretch', cost=2, quick=[
    dict(rows=1, n=5), dict(rows=2, n=4)],
    thorough=[dict(rows=2, n=9), dict(rows=3, n=12)])
def stretch(cx, rows, n):
    """correlations are stretched by the change that was measured"""
    A = cx.arr('A', (rows, n), lo=-4, hi=4)
    orig = A.copy()
    sl = cx.pick('first', [-(n - 1) / 2, 0., -1.])
    cb, ts = mkbulk(cx, A.copy(), sl)
    if cx.pick('kind', ['stretch', 'shift']) == 'shift':
        dv = mkdv(cx, cb, [0.] * rows, 'shift')
        cx.raises('not a stretch', ValueError, lambda:
                  cb.correct_stretch(dv))
        cx.eqs('not touched', cb.data, orig)
        return
    e = [cx.pick(f'e{i}', [-.2, 0., .03, .3]) for i in range(rows)]
    ret = cb.correct_stretch(mkdv(cx, cb, e))
    cx.check('in place', ret is cb)
    same_header(cx, cb, ts, n, sl)
    t = sl + np.arange(n)
    for r in range(rows):
        M = spline(n, t, t * np.exp(e[r]), 'zeros')
        for i in range(n):
            cx.close('stretched', cb.data[r, i], seq_sum(
                [float(M[i, j]) * orig[r, j] for j in range(n)]), 1e-6)


@harness('C14', 'undo', cost=2, quick=[dict(n=8, what='shift'),
                                       dict(n=9, what='stretch')],
         thorough=[dict(n=16, what='shift'), dict(n=17, what='stretch')])
def undo(cx, n, what):
    """a correlation that is the reference, shifted or stretched as the
    measurement defines it, becomes the reference when corrected"""
    sl = cx.pick('first', [-float(n // 2), -2.])
    t = sl + np.arange(n)
    if what == 'shift':
        R = cx.arr('R', (n,), lo=-4, hi=4)
        s = cx.pick('s', [-2, 0, 1, 3])
        st = mkbulk(cx, cx.np.zeros((1, n)), sl)[0].stats
        sm = cx.mod('seismic.monitor.stretch_mod')
        D = sm.create_shifted_ref_mat(R, st, np.array([float(s)]))
    else:
        # cubic polynomials are reproduced by the splines
        c = [cx.real(f'c{i}', -2, 2) for i in range(4)]
        u = t / n
        R = cx.np.zeros(n)
        D = cx.np.zeros((1, n))
        s = cx.pick('s', [-.2, 0., .05])
        for i in range(n):
            R[i] = seq_sum([a * float(u[i] ** p) for p, a in enumerate(c)])
            D[0, i] = seq_sum([
                a * float((u[i] * np.exp(-s)) ** p)
                for p, a in enumerate(c)])
    cb, ts = mkbulk(cx, D, sl)
    dv = mkdv(cx, cb, [float(s)], what)
    (cb.correct_shift if what == 'shift' else cb.correct_stretch)(dv)
    k = 0
    for i in range(n):
        q = t[i] - s if what == 'shift' else t[i] * np.exp(s)
        if t[0] - 1e-9 <= q <= t[-1] + 1e-9:
            cx.close('reference again', cb.data[0, i], R[i], 1e-6)
            k += 1
    cx.cover(k >= 3)


@harness('C14', 'arrays', cost=2, quick=[
    dict(what='shift', rows=1, n=3, cols=1), dict(what='shift', rows=2, n=3,
                                                  cols=0),
    dict(what='shift', rows=1, n=4, cols=4), dict(what='stretch', rows=2,
                                                  n=5, cols=0),
    dict(what='stretch', rows=1, n=4, cols=2),
    dict(what='stretch', rows=1, n=21, cols=0)],
    thorough=[dict(what='shift', rows=3, n=6, cols=0),
              dict(what='shift', rows=2, n=5, cols=5),
              dict(what='stretch', rows=3, n=45, cols=1)])
def arrays(cx, what, rows, n, cols):
    """the functions on plain arrays"""
    m = cx.mod('seismic.monitor.stretch_mod')
    A = cx.arr('A', (rows, n), lo=-4, hi=4)
    orig = A.copy()
    single = bool(cx.pick('single', [0, 1]))
    xs = np.arange(n) - (0. if single else (n - 1) / 2)
    if what == 'shift':
        S = cx.arr('S', (rows, cols) if cols else (rows,), lo=-n, hi=n)
        os_ = S.copy()
        if cx.pick('strange', [0, 1]):
            if cols:
                cx.raises('rows', ValueError, lambda: m.time_shift_apply(
                    A, cx.np.zeros((rows + 1, 1))))
            cx.raises('columns', ValueError, lambda: m.time_shift_apply(
                A, cx.np.zeros((rows, n + 1))))
        out = m.time_shift_apply(A, S, single_sided=single)
        cx.eqs('shifts kept', S, os_)
        S = S.reshape((rows, max(cols, 1)))
        for r in range(rows):
            for i in range(n):
                s = S[r, i if cols == n else 0]
                cx.close('shifted', out[r, i], lin(
                    cx, list(map(float, xs)), cx.flat(orig[r]),
                    float(xs[i]) - s, 0.), 1e-9)
    else:
        from obspy.signal.invsim import cosine_taper
        e = [cx.pick(f'e{i}', [-.1, .02, .2]) for i in range(rows)]
        S = np.array(e)
        if cols:
            S = np.concatenate([S[:, None]] + [
                np.full((rows, 1), .7)] * (cols - 1), axis=1)
            cx.raises('rows', ValueError, lambda: m.time_stretch_apply(
                A.copy(), np.zeros((rows + 1, 1))))
        out = m.time_stretch_apply(A, S, single_sided=single)
        w = cosine_taper(n, .05)
        for r in range(rows):
            M = spline(n, xs, xs * np.exp(e[r]), 0) * w
            for i in range(n):
                cx.close('stretched', out[r, i], seq_sum(
                    [float(M[i, j]) * orig[r, j] for j in range(n)]), 1e-6)
    cx.eqs('correlations kept', A, orig)
