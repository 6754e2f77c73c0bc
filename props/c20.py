"""Imaging velocity changes in space."""
import math
import numpy as np
from symx.run import harness
from .common import mkstats, seq_sum
from .c15 import KEYS

R = 6371.  # km


def near(a, b):
    return abs(a - b) < 1e-12


def prob(d, t, v, l, tol):
    """2D radiative transfer, smeared over a sample; see Paasschens (1997)"""
    out = 0.
    if abs(d - v * t) <= tol + 1e-5 * v * t:
        out += 1. if d == 0 else math.exp(-v * t / l) / (2 * math.pi * d)
    if v * t - d - tol > 0:
        s = math.sqrt(v * v * t * t - d * d)
        out += math.exp((s - v * t) / l) / (2 * math.pi * l * s)
    return out


def kernel(s1, s2, cells, t, dt, v, l):
    """sensitivity of the coda at time t to changes in each cell"""
    tol = v * dt / 2
    den = prob(math.dist(s1, s2), t, v, l, tol)
    if den == 0:
        return [0.] * len(cells)
    out = []
    for c in cells:
        n = round(t / dt)
        f = [prob(math.dist(s1, c), i * dt, v, l, tol) * prob(
            math.dist(s2, c), t - i * dt, v, l, tol) for i in range(n + 1)]
        out.append((sum(f) - (f[0] + f[-1]) / 2) * dt / den)
    return out


def cart(lat, lon, lat0, lon0):
    a = math.cos(math.radians(lat0)) * math.sin(
        math.radians(lon - lon0) / 2)
    return (2 * math.asin(a) * R, math.radians(lat - lat0) * R)


def mkgrid(cx, size):
    m = cx.mod('seismic.monitor.spatial')
    lat0, lon0 = cx.pick('origin', [(0., 0.), (45., 10.)])
    res, x, y = size
    v, l, dt = 1.5, 3., .25
    g = m.DVGrid(lat0, lon0, res, x, y, dt, v, l)
    nx, ny = round(x / res) + 1, round(y / res) + 1
    cells = [(i * res, j * res) for j in range(ny) for i in range(nx)]
    cx.check('grid', cx.shape(g.xgrid) == (ny, nx) and all(
        near(a, b[0]) and near(c, b[1]) for a, c, b in zip(
            np.ravel(g.xgrid), np.ravel(g.ygrid), cells)))
    return m, g, (lat0, lon0), cells, (res, dt, v, l)


PLACES = [(.003, .004), (.021, .013), (.011, .031)]


def pairs(cx, n, origin):
    """positions of both stations of each pair, from the origin, degrees"""
    out = []
    for i in range(n):
        a, b = cx.pick(f'pair{i}', [[(0, 1), (2, 2), (1, 2)],
                                    [(2, 0), (1, 1)]][i % 2])
        out.append(tuple((origin[0] + PLACES[q][0], origin[1] + PLACES[q][1])
                         for q in (a, b)))
    return out


def matrix(ps, origin, cells, par, t):
    res, dt, v, l = par
    return np.array([[res ** 2 / t * k for k in kernel(
        cart(*a, *origin), cart(*b, *origin), cells, t, dt, v, l)]
        for a, b in ps])


SMALL, WIDE = (2., 2., 2.), (2., 4., 2.)


@harness('C20', 'forward', cost=2, quick=[
    dict(n=1, size=SMALL), dict(n=2, size=WIDE)],
    thorough=[dict(n=2, size=(1., 3., 2.))])
def forward(cx, n, size):
    """changes seen by each pair: the grid weighted with the sensitivity"""
    m, g, origin, cells, par = mkgrid(cx, size)
    ps = pairs(cx, n, origin)
    V = cx.arr('V', cx.shape(g.xgrid), lo=-1, hi=1)
    keep = V.copy()
    tws = [(3., 6.), (2., 8.), (1., 4.)]
    first = cx.pick('first', [0, 1, 2])
    for tw in (tws[first], tws[(first + 1) % 3], tws[first]):
        out = g.forward_model(V, tw=tw, stat0=[a for a, b in ps],
                              stat1=[b for a, b in ps])
        G = matrix(ps, origin, cells, par, (tw[0] + tw[1]) / 2)
        cx.check('shape', cx.shape(out) == (n,))
        for i in range(n):
            cx.close('change', out[i], seq_sum(
                [float(k) * x for k, x in zip(G[i], cx.flat(keep))]), 1e-6)
    cx.eqs('model', V, keep)
    cx.raises('other grid', ValueError, lambda: g.forward_model(
        V[:1], tw=(1., 2.), stat0=[ps[0][0]], stat1=[ps[0][1]]))
    cx.cover(float(abs(G).max()) > 0)


def mkdvs(cx, ps, vals, corrs, proc, odd=None):
    """measurements around 01:30; odd: (pair, what)"""
    DV = cx.mod('seismic.monitor.dv').DV
    dvs = []
    for i, (p, q) in enumerate(ps):
        t0 = 0.
        v, c = [.3, .7, -.2], [.5, .5, .5]
        v[1], c[1] = vals[i], corrs[i]
        if odd and odd[0] == i:
            if odd[1] == 'late':
                t0 = 1e6
            elif odd[1] == 'early':
                t0 = -1e6
            elif odd[1] == 'missing':
                v[1] = c[1] = math.nan
            else:
                c[1] = odd[1]
        value, corr = cx.np.zeros(3), cx.np.zeros(3)
        for r in range(3):
            value[r], corr[r] = v[r], c[r]
        st = mkstats(cx, 5, stla=p[0], stlo=p[1], evla=q[0], evlo=q[1],
                     **dict(zip(KEYS, ('N-N', f'A-{i}', 'Z-Z'))))
        st['corr_start'] = [cx.utc(t0 + 3600. * r) for r in range(3)]
        st['corr_end'] = [cx.utc(t0 + 3600. * r + 3600.) for r in range(3)]
        dvs.append(DV(corr, value, 'stretch', cx.np.zeros((3, 1)),
                      cx.np.zeros(1), 'm', st, dv_processing=proc and dict(
                          proc)))
    return dvs


def cov_model(cells, scal, length, std):
    return np.array([[(std * scal / length) ** 2 * math.exp(
        -math.dist(a, b) / length) for b in cells] for a in cells])


def var_data(f0, f1, tw):
    """factor of (1 - c^2) / 4c^2"""
    return 6 * math.sqrt(math.pi / 2) / (f1 - f0) / (
        (math.pi * (f0 + f1)) ** 2 * (tw[1] ** 3 - tw[0] ** 3))


PROC = dict(tw_start=3., tw_len=3., freq_min=.5, freq_max=1.)


@harness('C20', 'inversion', cost=3, quick=[
    dict(n=1, free=1), dict(n=2, free=0), dict(n=3, free=0)],
    thorough=[dict(n=4, free=0)])
def inversion(cx, n, free):
    """least squares image of what is available at a time"""
    m, g, origin, cells, par = mkgrid(cx, SMALL)
    ps = pairs(cx, n, origin) if n < 3 else [
        tuple((origin[0] + PLACES[q][0], origin[1] + PLACES[q][1])
              for q in ab) for ab in ((0, 1), (2, 0), (1, 1), (1, 2))[:n]]
    vals = [cx.real(f'v{i}', -1, 1) for i in range(n)]
    if free:
        corrs = [cx.real(f'c{i}', .01, .99) for i in range(n)]
    else:
        corrs = [.9, .5, .7, .2][:n]
    odd = (0, cx.pick('odd', ['late', 'early', 'missing', 1., 1e-3, -.2])
           ) if n > 2 or (n > 1 and cx.pick('without', [0, 1])) else None
    how = cx.pick('settings', ['measured', 'given', 'no'])
    kw, tw, f = {}, (3., 6.), (.5, 1.)
    if how != 'measured':
        kw = dict(tw=(2., 5.), freq0=.6, freq1=1.4)
        tw, f = kw['tw'], (.6, 1.4)
    proc = cx.pick('without settings', [None, {}]) if how == 'no' else PROC
    dvs = mkdvs(cx, ps, vals, corrs, proc, odd)
    u = cx.utc(4000.)
    use = [i for i in range(n) if not odd or i != odd[0]]
    scal, length, std = 1.5, 2.5, .1
    if how == 'no':
        cx.raises('settings needed', AttributeError,
                  lambda: g.compute_dv_grid(dvs, u, scal, length, std))
    if odd:
        cx.raises('none', IndexError, lambda: g.compute_dv_grid(
            dvs[:1], u, scal, length, std, **kw))
    what = cx.pick('what', ['image', 'both', 'resolution'])
    if what == 'resolution':
        g.compute_resolution(dvs, u, scal, length, std, **kw)
        M = None
    else:
        M = g.compute_dv_grid(iter(dvs), u, scal, length, std,
                              compute_resolution=what == 'both', **kw)
        cx.check('kept', g.vel_change is M)
    G = matrix([ps[i] for i in use], origin, cells, par, sum(tw) / 2)
    C = cov_model(cells, scal, length, std)
    A, S = C @ G.T, G @ C @ G.T
    fac = var_data(*f, tw)
    if free:
        # one pair
        c, v = corrs[0], vals[0]
        d = fac * (1 - c * c)
        den = float(S[0, 0]) * 4 * c * c + d
        X = [[float(a) * 4 * c * c] for a in A[:, 0]]
    else:
        D = np.diag([fac * (1 - corrs[i] ** 2) / (4 * corrs[i] ** 2)
                     for i in use])
        X = (A @ np.linalg.inv(S + D)).tolist()
        den = 1.
    if M is not None:
        cx.check('shape', cx.shape(M) == (2, 2))
        for j, x in enumerate(cx.flat(M)):
            cx.close('image', x * den, seq_sum(
                [X[j][q] * vals[i] for q, i in enumerate(use)]), 1e-7)
    if what != 'image':
        cx.check('resolution shape', cx.shape(g.resolution) == (2, 2))
        for j, x in enumerate(cx.flat(g.resolution)):
            cx.close('resolution', x * den, seq_sum(
                [X[j][q] * float(G[q].sum()) for q in range(len(use))]), 1e-7)
    # stations that were used, once
    pos = {p for i in use for p in ps[i]}
    cx.check('stations', sorted(zip(
        map(float, g.statlat), map(float, g.statlon))) == sorted(pos))
    xy = sorted(cart(*p, *origin) for p in pos)
    cx.check('positions', len(g.statx) == len(pos) and all(
        abs(a - c) < 1e-6 and abs(b - d) < 1e-6 for (a, b), (c, d) in zip(
            sorted(zip(map(float, g.statx), map(float, g.staty))), xy)))
    # predicted values for the same pairs
    if M is not None and how == 'measured' and not free:
        # from the window of the measurements or another one
        for kw, H in (({}, G), (dict(tw=(2., 9.)), matrix(
                [ps[i] for i in use], origin, cells, par, 5.5))):
            F = g.forward_model(M, dvs, u, **kw)
            cx.check('number of predictions', cx.shape(F) == (len(use),))
            for q in range(len(use)):
                cx.close('prediction', F[q], seq_sum(
                    [float(k) * x for k, x in zip(H[q], cx.flat(M))]), 1e-6)


@harness('C20', 'posterior', cost=2, quick=[dict(n=1), dict(n=2)],
         thorough=[dict(n=3)])
def posterior(cx, n):
    """covariance of the image; image without smoothing"""
    m, g, origin, cells, par = mkgrid(cx, SMALL)
    ps = [tuple((origin[0] + PLACES[q][0], origin[1] + PLACES[q][1])
                for q in ab) for ab in ((0, 1), (2, 0), (1, 1))[:n]]
    vals = [cx.real(f'v{i}', -1, 1) for i in range(n)]
    corrs = [.9, .5, .7][:n]
    dvs = mkdvs(cx, ps, vals, corrs, PROC)
    # between the middles of the windows before and after the second one
    # (which is the last one in the list, if there are two)
    cut = cx.pick('last', [False, True])
    if cut:
        for d in dvs:
            d.corr, d.value = d.corr[:2], d.value[:2]
            d.sim_mat = d.sim_mat[:2]
            for k in ('corr_start', 'corr_end'):
                d.stats[k] = d.stats[k][:2]
    u = cx.utc(cx.pick('t', [1801., 3600., 5399., 7100.][:3 + cut]))
    tw, f, kw = (3., 6.), (.5, 1.), {}
    if cx.pick('given', [False, True]):
        tw, f = (2., 5.), (.6, 1.4)
        kw = dict(tw=tw, freq0=.6, freq1=1.4)
    G = matrix(ps, origin, cells, par, sum(tw) / 2)
    C = cov_model(cells, 1.5, 2.5, .1)
    fac = var_data(*f, tw)
    D = np.diag([fac * (1 - c ** 2) / (4 * c ** 2) for c in corrs])
    P = g.compute_posterior_covariance(dvs, u, 1.5, 2.5, .1, **kw)
    E = np.linalg.inv(G.T @ np.linalg.inv(D) @ G + np.linalg.inv(C))
    for a, b in zip(cx.flat(P), E.ravel()):
        cx.close('covariance', a, float(b), 1e-7)
    cut = cx.pick('cutoff', [.05, .9])
    M = g.compute_dv_tsvd(dvs, u, cutoff=cut, **kw)
    U, s, V = np.linalg.svd(G, full_matrices=False)
    inv = (V.T * [1 / x if x > cut * s[0] else 0. for x in s]) @ U.T
    for j, x in enumerate(cx.flat(M)):
        cx.close('image', x, seq_sum(
            [float(inv[j, i]) * v for i, v in enumerate(vals)]), 1e-6)
    cx.check('kept', g.vel_change is M)


@harness('C20', 'places', cost=1, quick=[dict()])
def places(cx):
    """cells of coordinates"""
    m = cx.mod('seismic.monitor.spatial')
    g = m.DVGrid(0., 0., 2., 4., 2., .25, 1.5, 3.)
    # metres on a sphere: one degree
    deg = math.radians(1) * R
    y = cx.real('y', 0., 8.)
    x = cx.pick('x', [0., 1.3, 3.4, 5.9, 6.5, 90.])
    many = cx.pick('many', [0, 1])
    lat = y / deg
    if many:
        la = cx.np.zeros(2)
        la[0], la[1] = lat, 1. / deg
        args = (la, np.array([x, 2.1]) / deg)
    else:
        args = (lat, x / deg)
    ok = bool(cx.land(y <= 3.999, x <= 6.))
    if bool(cx.land(y > 3.999, y < 4.001)):
        return
    if not ok:
        cx.raises('outside', ValueError, lambda: g._find_coord(*args))
        return
    i = g._find_coord(*args)
    i = int(i[0]) if many else int(i)
    px, py = float(g.xf[i]), float(g.yf[i])
    d = (px - x) ** 2 + (py - y) * (py - y)
    for qx, qy in zip(map(float, g.xf), map(float, g.yf)):
        cx.check('nearest', d <= (qx - x) ** 2 + (qy - y) * (qy - y) + 1e-6)


@harness('C20', 'limits', cost=1, quick=[dict()])
def limits(cx):
    """inputs that make no sense are refused; variance of a measurement"""
    m = cx.mod('seismic.monitor.spatial')
    t0 = cx.pick('t0', [-1., 0., 2.])
    t1 = cx.pick('t1', [-1., 2., 3.])
    b, f = cx.pick('b', [-1., 0., .5]), cx.pick('f', [0., 1.])
    c = cx.real('c', .01, .99)
    if t0 < 0 or t1 <= t0 or b <= 0 or f <= 0:
        cx.raises('refused', ValueError,
                  lambda: m.data_variance(c, b, (t0, t1), f))
        return
    s = m.data_variance(c, b, (t0, t1), f)
    e = 6 * math.sqrt(math.pi / 2) / b / (
        (2 * math.pi * f) ** 2 * (t1 ** 3 - t0 ** 3))
    cx.check('positive', s >= 0)
    cx.close('variance', s * s * 4 * c * c, (1 - c * c) * e, 1e-9)
    x = cx.np.array([c, .3])
    s2 = m.data_variance(x, b, (t0, t1), f)
    cx.close('several', s2[0], s, 1e-9)
