import numpy as np
from common import *
from importlib import import_module
N = 150
RULE = '1-9 profiles x 1-10 levels, unsorted/with gaps and missing profiles, errors, diagonal or correlated covariance, break limits -1..3'


def gen(rng, k):
    P = int(rng.integers(1, 10)); L = int(rng.integers(1, 11))
    if k % 3 == 0: P, L = int(rng.integers(4, 10)), 10
    px = np.cumsum(rng.integers(1, 4, P)).astype(float)
    shape = k % 4
    y = np.ones((L, P)) + rng.normal(0, 1e-3, (L, P))
    if shape == 1: y += 2e-3 * px
    if shape == 2: y += 1e-2 * np.maximum(px - np.median(px), 0)
    if shape == 3: y += 1e-2 * np.maximum(px - px[len(px) // 3], 0) - 2e-2 * np.maximum(px - px[2 * len(px) // 3], 0)
    err = rng.uniform(2e-4, 3e-3, (L, P))
    if k % 2: y[rng.random((L, P)) < .2] = np.nan
    if k % 5 == 0 and P > 2: y[:, 0] = np.nan
    if k % 7 == 0 and P > 2: y[:, -1] = np.nan
    if k % 19 == 0: y[:] = np.where(np.isnan(y), np.nan, 1.001)
    n = L * P
    cov = np.eye(n)
    if k % 3 == 1:
        d = np.abs(np.subtract.outer(np.arange(n), np.arange(n)))
        cov = np.exp(-d / float(rng.choice([.3, .8])))
    mb = int([-1, 0, 0, 1, 0, 2, 0, -1, 3][k % 9])
    return dict(px=px, y=y, err=err, cov=cov, mb=mb, perm=rng.permutation(P), a=float(rng.choice([-2., .5, 3.])), b=float(rng.choice([0., 5.])), seed=int(rng.integers(0, 1000)))


def norm(px, y, err, cov, mb, nl=2):
    S = import_module('pyowc.core.stats')
    x = np.tile(px, (y.shape[0], 1))
    args = [x, y.copy(), err.copy(), cov.copy()]
    keep = [z.copy() for z in args]
    np.random.seed(7)
    r = call(S.fit_cond, *args, 'max_no_breaks', mb, 'nloops', nl)
    need(all(same(p, q) for p, q in zip(args, keep)), 'arguments altered')
    return [np.asarray(r[0], float).ravel()] + [np.asarray(z, float).ravel() for z in r[1:5]] + [r[7], np.asarray(r[8], float).ravel(), np.asarray(r[9], float).ravel()]


def line(x, y, w):
    E = np.column_stack([np.ones(len(x)), x - x.mean()])
    c = np.linalg.solve(E.T @ (w[:, None] * E), E.T @ (w * y))
    return c[0] - c[1] * x.mean(), c[1]


def check(i):
    px, y, err, cov, mb = i['px'], i['y'], i['err'], i['cov'], int(i['mb'])
    L, P = y.shape
    xx = np.tile(px, (L, 1)).T.ravel(); yy = y.T.ravel(); ee = err.T.ravel()
    g = np.isfinite(yy) & np.isfinite(xx)
    if not g.any() or len(np.unique(px)) != P or np.any(ee <= 0): raise Skip()
    x, v, e = xx[g], yy[g], ee[g]
    C = cov[np.ix_(g, g)]
    ndf = np.sum(1 / C.sum(axis=1))
    if not np.isfinite(ndf) or ndf < 2 * (max(mb, 0) + 2) + 1.01: raise Skip('degrees of freedom')
    xf, c, ce, td, tde, nd, coef, brk = norm(px, y, err, cov, mb)
    o = np.argsort(px); u = px[o]
    need(close(xf, u, 1e-9, 1e-7), f'one value per profile: {xf.tolist()} for {u.tolist()}')
    need(len(c) == P and len(ce) == P and len(td) == P and len(tde) == P, 'one value, slope and error per profile')
    need(np.all(np.isfinite(c)) and np.all(np.isfinite(td)), 'values or slopes missing')
    need(np.isclose(nd, ndf, 1e-8), f'degrees of freedom {nd}, expected {ndf}')
    w = 1 / e ** 2
    sc = np.std(v) or 1.
    mean = np.sum(w * v) / np.sum(w)
    npts = len(v)
    nb = len(coef) - 2
    need(nb <= max(mb, -1) and len(brk) == max(nb, 0), f'{nb} breaks with limit {mb} ({len(brk)} positions)')
    en = e / sc
    def aic(rss, p): return ndf * np.log(rss / npts) + ndf * (ndf + p) / (ndf - p - 2)
    r0 = np.sum(((v - mean) / sc / en) ** 2)
    tol = 1e-7 * sc + 1e-9
    if mb == -1:
        need(nb == -1, 'break limit -1 must give the mean')
    many = len(np.unique(x)) > 1
    a1, b1 = line(x, v, w) if many else (mean, 0.)
    r1 = np.sum(((v - a1 - b1 * x) / sc / en) ** 2) if many else np.inf
    if mb == 0 and npts > 2 and many and np.std(v) > 1e-10 * abs(mean) and r0 > 0 and r1 > 1e-12 * r0:
        q0, q1 = aic(r0, 1), aic(r1, 2)
        if abs(q0 - q1) > 1e-4 * (1 + abs(q0)):
            need((nb == -1) == (q0 < q1), f'criterion prefers {"mean" if q0 < q1 else "line"} ({q0}, {q1}) but {nb + 1 and "line" or "mean"} was returned')
    if nb == -1:
        need(np.allclose(c, mean, rtol=0, atol=tol), f'curve {c.tolist()}, expected the weighted mean {mean}')
        need(np.all(td == 0), 'slope of a constant')
    elif nb == 0:
        need(many, 'line through one abscissa')
        need(np.allclose(c, a1 + b1 * u, rtol=0, atol=10 * tol), f'curve {c.tolist()}, expected the weighted line {(a1 + b1 * u).tolist()}')
        need(np.allclose(td, b1, rtol=1e-6, atol=1e-9), f'slope {td.tolist()}, expected {b1}')
    else:
        need(np.all(np.diff(brk) >= -1e-9) and brk.min() >= u[0] - 1e-6 and brk.max() <= u[-1] + 1e-3, f'breaks {brk.tolist()} outside {u.tolist()}')
        if nb > 1 and np.diff(brk).min() < 1e-5 * (u[-1] - u[0]): raise Skip('coincident breaks: the coefficients are lost to rounding')
        f0 = np.min(x)                                # piecewise linear: value coef[0] at the first observation, slopes coef[1:]
        k = np.concatenate(([-np.inf], brk, [np.inf]))
        def curve(t):
            z = np.full(len(t), coef[0])
            for j in range(nb + 1):
                lo, hi = max(k[j], -1e300), k[j + 1]
                base = f0 if j == 0 else k[j]
                z = z + coef[j + 1] * ((np.minimum(t, hi) - base) if j == 0 else (np.clip(t, k[j], hi) - k[j]))
            return z
        need(np.allclose(c, curve(u), rtol=0, atol=1e-5 * sc), f'curve {c.tolist()} is not the continuous piecewise-linear one {curve(u).tolist()} (breaks {brk.tolist()}, coefficients {coef.tolist()})')
        for q in range(P):
            j = int(np.sum(brk <= u[q])); j2 = int(np.sum(brk < u[q]))
            need(min(abs(td[q] - coef[1 + j]), abs(td[q] - coef[1 + j2])) <= 1e-9 * (1 + abs(td[q])), 'slope is not that of the segment')
        z = np.sum(((v - curve(x)) / sc / en) ** 2)
        need(z <= min(r0, r1) * 1.02, f'the piecewise fit leaves a larger weighted residual ({z}) than a simpler one ({r0}, {r1})')
    # the same observations in another order: same curve
    p = i['perm']
    yp, ep, pp = y[:, p], err[:, p], px[p]
    idx = np.arange(L * P).reshape(P, L)[p].ravel()
    q = norm(pp, yp, ep, cov[np.ix_(idx, idx)], mb)
    t2 = 1e-6 if mb < 1 else 5e-2
    pos = {float(t): j for j, t in enumerate(u)}
    at = np.array([pos[float(t)] for t in x])

    def agree(c2, what):
        """with break points the search is sensitive to rounding: another curve has to fit as well"""
        c2 = np.asarray(c2, float).ravel()
        need(len(c2) == P, f'{what}: {len(c2)} values')
        if np.allclose(c2, c, rtol=0, atol=t2 * sc): return
        if mb >= 1:
            z1, z2 = (np.sum(((v - w[at]) / sc / en) ** 2) for w in (c, c2))
            if abs(z1 - z2) <= .3 * max(z1, z2): return
        raise Bad(f'{what}: {c2.tolist()} / {c.tolist()}')
    agree(q[1], 'curve depends on the order')
    if mb < 1:
        lp = np.random.default_rng(i['seed']).permutation(L)
        idx = np.arange(L * P).reshape(P, L)[:, lp].ravel()
        q = norm(px, y[lp], err[lp], cov[np.ix_(idx, idx)], mb)
        agree(q[1], 'curve depends on the order of the levels')
    # a row of missing observations changes nothing
    y2 = np.vstack([y, np.full((1, P), np.nan)]); e2 = np.vstack([err, np.ones((1, P))])
    n2 = (L + 1) * P; C2 = np.eye(n2) * 3 + .1
    idx = np.arange(n2).reshape(P, L + 1)[:, :L].ravel()
    C2[np.ix_(idx, idx)] = cov
    q = norm(px, y2, e2, C2, mb)
    agree(q[1], 'missing observations are not ignored')
    need(np.isclose(q[5], ndf), f'missing observations change the degrees of freedom: {q[5]} / {ndf}')
    if np.std(v) > 1e-9:
        a, b = (i['a'], i['b']) if mb < 1 else (float(np.sign(i['a'])) * 2., 0.)
        q = norm(px, a * y + b, abs(a) * err, cov, mb)
        agree((np.asarray(q[1], float).ravel() - b) / a, 'curve of rescaled observations')
    need(np.all(np.isfinite(ce)) or nb >= 0, 'error of the mean missing')
