"""Preparation of records in frequency domain."""
import numpy as np
from symx.run import harness
from .common import seq_sum


def spectrum(cx, r, n, lim=3):
    """symbolic spectra, in parts"""
    R = cx.arr('re', (r, n), -lim, lim)
    I = cx.arr('im', (r, n), -lim, lim)
    return R, I, R + 1j * I


def dist(cx, a, b, tol=1e-6):
    """both complex numbers are the same"""
    return cx.land(cx.near(a[0], b[0], tol), cx.near(a[1], b[1], tol))


def parts(cx, B):
    return cx.np.real(B), cx.np.imag(B)


@harness('C24', 'whiten', cost=2, quick=[dict(r=2, n=3), dict(r=1, n=2)],
         thorough=[dict(r=1, n=5)])
def whiten(cx, r, n):
    """unit amplitude and the same phase; zero stays zero"""
    m = cx.mod('seismic.correlate.preprocessing_fd')
    R, I, B = spectrum(cx, r, n)
    dead = cx.pick('no amplitude', [None, (0, 0), (0, n - 1), (r - 1, 1)])
    if dead is not None:
        B[dead] = 0.
        R[dead] = I[dead] = 0.
    out = m.spectralWhitening(B, cx.pick('args', [
        {}, {'joint_norm': False}]), {})
    cx.check('shape', tuple(out.shape) == (r, n))
    oR, oI = parts(cx, out)
    for i in range(r):
        for j in range(n):
            a, b, x, y = R[i, j], I[i, j], oR[i, j], oI[i, j]
            if j == 0 or (i, j) == dead:
                cx.check('zero', dist(cx, (x, y), (0., 0.)))
                continue
            q = a * a + b * b
            big = cx.le(1e-2, q)
            cx.check('amplitude', cx.implies(
                big, cx.near(x * x + y * y, 1., 1e-5)))
            cx.check('phase', cx.implies(big, cx.land(
                cx.near(x * b, y * a, 1e-5), cx.le(-1e-9, x * a),
                cx.le(-1e-9, y * b))))


@harness('C24', 'whiten_joint', cost=2, quick=[
    dict(r=3, n=2), dict(r=6, n=2)], thorough=[dict(r=9, n=2)])
def whiten_joint(cx, r, n):
    """three components share the mean of their amplitudes"""
    m = cx.mod('seismic.correlate.preprocessing_fd')
    # amplitudes: known modulus to keep the arithmetic simple
    A = cx.arr('amp', (r, n), 0. if r == 3 else .1, 3.)
    free = cx.pick('any amplitudes', range(r // 3)) if r > 3 else 0
    for i in range(r):      # records of other stations: not symbolic
        if i // 3 != free:
            for j in range(n):
                A[i, j] = [.5, 2., 1.25][(i + 2 * j + i // 3) % 3]
    ph = cx.pick('phase', [(1., 0.), (0., 1.)][:2 if r == 3 else 1])
    B = A * complex(*ph)
    dead = cx.pick('dead', [None, 0, 'all']) if r == 3 else None
    if dead is not None:
        for i in ([0] if dead == 0 else range(3)):
            B[i, 1] = 0.
            A[i, 1] = 0.
    out = m.spectralWhitening(B, {'joint_norm': True}, {})
    oR, oI = parts(cx, out)
    for i in range(r):
        g = i - i % 3
        for j in range(n):
            if j == 0:
                cx.check('zero', dist(cx, (oR[i, 0], oI[i, 0]), (0., 0.)))
                continue
            s = seq_sum([A[g + k, j] for k in range(3)]) / 3
            if dead == 'all' and g == 0:
                cx.check('dead', dist(cx, (oR[i, j], oI[i, j]), (0., 0.)))
                continue
            cx.assume(cx.le(.05, s))
            cx.check('joint', dist(
                cx, (oR[i, j] * s, oI[i, j] * s),
                (A[i, j] * ph[0], A[i, j] * ph[1])))
    cx.raises('three components', AssertionError, lambda: (
        m.spectralWhitening(B[:2], {'joint_norm': True}, {})))


@harness('C24', 'sign', cost=2, quick=[
    dict(r=1, n=4), dict(r=2, n=3), dict(r=1, n=7)], thorough=[
        dict(r=1, n=8), dict(r=1, n=9)])
def sign(cx, r, n):
    """spectrum of the signs of the samples, also for odd numbers"""
    m = cx.mod('seismic.correlate.preprocessing_fd')
    A = cx.arr('a', (r, n), -3., 3.)
    for i in range(r):
        for j in range(n):
            cx.assume(cx.lor(cx.le(.01, A[i, j]), cx.le(A[i, j], -.01)))
    sr = cx.pick('sr', [1., 2.5])
    out = m.FDsignBitNormalization(cx.np.fft.rfft(A), {}, {
        'freqs': np.fft.rfftfreq(n, 1 / sr), 'sampling_rate': sr})
    ref = cx.np.fft.rfft(cx.np.sign(A))
    cx.check('shape', tuple(out.shape) == tuple(ref.shape))
    a, b = parts(cx, out), parts(cx, ref)
    for k in range(2):
        cx.close('signs', cx.flat(a[k]), cx.flat(b[k]), 1e-6)


@harness('C24', 'band', cost=3, quick=[dict(r=2, n=6), dict(r=1, n=7)],
         thorough=[dict(r=1, n=10), dict(r=1, n=13)])
def band(cx, r, n):
    """a band pass of factors between 0 and 1, the same for all records"""
    m = cx.mod('seismic.correlate.preprocessing_fd')
    nt = n // 2 + 1
    sr = cx.pick('sr', [1., 20.])
    f = np.fft.rfftfreq(n, 1 / sr)
    df = sr / n
    lim = [cx.real('f%d' % k, 0., .5 * sr) for k in range(1, 5)]
    for p, q in zip(lim, lim[1:]):
        cx.assume(cx.le(p, q))
    cx.assume(cx.le(lim[1] + 2 * df, lim[2]))
    # the same factor for each part of all spectra
    B = cx.np.zeros((r, nt), dtype=complex)
    amp = [cx.real('amp%d' % i, .5, 2.) for i in range(r)]
    for i in range(r):
        for j in range(nt):
            B[i, j] = amp[i] * (1. - 2.j)
    args = {'flimit': lim}
    out = m.FDfilter(B, args, {'freqs': f, 'sampling_rate': sr})
    cx.check('settings', list(args) == ['flimit'] and args['flimit'] is lim)
    oR, oI = parts(cx, out)
    for i in range(r):
        last = None
        for j in range(nt):
            x, y = oR[i, j], oI[i, j]
            cx.check('phase', cx.near(y, -2 * x, 1e-9))
            cx.check('factor', cx.land(cx.le(-1e-9, x),
                                       cx.le(x, amp[i] + 1e-9)))
            out_of = cx.lor(cx.le(f[j], lim[0] - .51 * df),
                            cx.le(lim[3] + .51 * df, f[j]))
            cx.check('outside', cx.implies(out_of, cx.near(x, 0., 1e-9)))
            ins = cx.land(cx.le(lim[1] + 1.01 * df, f[j]),
                          cx.le(f[j], lim[2] - 1.01 * df))
            cx.check('inside', cx.implies(ins, cx.near(x, amp[i], 1e-9)))
            if last is not None:
                cx.check('rising', cx.implies(
                    cx.le(f[j], lim[1]), cx.le(last, x + 1e-9)))
                cx.check('falling', cx.implies(
                    cx.le(lim[2], f[j - 1]), cx.le(x, last + 1e-9)))
            last = x
