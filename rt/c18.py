import numpy as np
from common import *
from importlib import import_module
N = 4000
RULE = 'vectors of 1-9 salinities/positions on small lattices (coincident and equidistant points) with missing values'


def gen(rng, k):
    n = int(rng.integers(1, 10))
    sal = np.round(rng.normal(35, .3, n), 3)
    if k % 3 == 0: sal[rng.random(n) < .3] = np.nan
    if k % 13 == 0: sal[:] = np.nan
    if k % 11 == 0: sal[:] = 35.
    m = k % 4
    if m == 0: lat, lon = rng.integers(-2, 3, n).astype(float), rng.integers(0, 3, n).astype(float)
    elif m == 1: lat, lon = rng.uniform(-60, 60, n), rng.uniform(0, 360, n)
    elif m == 2: lat, lon = np.full(n, 10.), rng.choice([20., 21., 25.], n)
    else: lat, lon = np.full(n, 5.), np.full(n, 7.)
    if k % 5 == 4: lat = lat + rng.choice([0, 0, 1e-9, -1e-9, 1e-6], n)
    if k % 17 == 0: lat, lon = lat.round().astype(int), lon.round().astype(int)
    return dict(sal=sal, lat=lat, lon=lon)


def check(i):
    S = import_module('pyowc.core.stats')
    sal, lat, lon = i['sal'], i['lat'], i['lon']
    n = len(sal)
    if n == 0: raise Skip()
    k0 = sal.copy(), lat.copy(), lon.copy()
    ok = np.isfinite(sal)
    if not ok.any():
        try:
            with quiet(): r = S.signal_variance(sal)
        except Exception: r = None
        need(r is None, f'signal_variance of no valid salinity returned {r}')
    else:
        r = call(S.signal_variance, sal)
        e = np.mean((sal[ok] - np.mean(sal[ok])) ** 2)
        need(close(r, e, 1e-7, 1e-12), f'signal_variance {r}, expected {e} for {sal.tolist()}')
        r2 = call(S.signal_variance, list(sal)); need(close(r2, e, 1e-7, 1e-12), 'signal_variance of a list')
    D = (lat[:, None] - lat[None, :]).astype(float) ** 2 + (lon[:, None] - lon[None, :]).astype(float) ** 2
    r = call(S.noise_variance, sal, lat, lon)
    need(same(sal, k0[0]) and same(lat, k0[1]) and same(lon, k0[2]), 'arguments altered')
    if np.all(D == 0):
        need(r == 0, f'noise variance {r} where all positions coincide'); return
    # a nearest different position may be a tie: accept any choice among the nearest ones
    opts = []
    for p in range(n):
        d = np.where(D[p] == 0, np.inf, D[p])
        if not np.isfinite(d).any(): raise Skip()
        near = np.argwhere(d <= d.min() * (1 + 1e-12)).ravel()
        opts.append([x for x in sorted({float((sal[p] - sal[q]) ** 2) for q in near}, key=lambda z: (np.isnan(z), z))])
    if np.prod([len(o) for o in opts], dtype=float) > 5000: raise Skip('ties')
    import itertools
    cand = []
    for c in itertools.product(*opts):
        c = np.array(c); c = c[~np.isnan(c)]
        cand.append(np.mean(c) / 2 if len(c) else np.nan)
    need(any(close(r, c, 1e-8, 1e-13) for c in cand), f'noise_variance {r}, expected one of {cand[:4]} for sal {sal.tolist()} lat {lat.tolist()} long {lon.tolist()}')
