import numpy as np
from common import *
from importlib import import_module
N = 4000
RULE = '1-9 casts x 1-4 levels with missing interpolated values, distances at the limit, outlier sets, earlier point lists on a fine lattice'


def gen(rng, k):
    S, L = int(rng.integers(1, 10 if k % 3 else 25)), int(rng.integers(1, 5))
    isal = rng.normal(35, .3, (L, S)).round(3); ip = rng.uniform(0, 2000, (L, S)).round(1)
    fp = rng.uniform(0, 2000, L).round(1)
    if k % 2: ip = fp[:, None] + rng.choice([-250, -249.9, -10, 0, 10, 249.9, 250, 251], (L, S))
    miss = rng.random((L, S)) < .3
    isal[miss] = np.nan; ip[miss] = np.nan
    if k % 11 == 0: isal[0] = np.nan; ip[0] = np.nan
    # lattice of sixtieths so that distances fall on both sides of 1/60
    step = float(rng.choice([1 / 60, 1 / 100, 1 / 45, .5]))
    lon = (20 + step * rng.integers(0, 5, S)); lat = (-50 + step * rng.integers(0, 4, S))
    g = dict(grid_long=lon, grid_lat=lat, grid_dates=rng.uniform(1990, 2020, S), grid_z=rng.uniform(100, 5000, S))
    out = rng.permutation(S)[:int(rng.integers(0, S + 1))]
    e = int(rng.integers(0, 6))
    old = np.column_stack([20 + step * rng.integers(0, 5, e), -50 + step * rng.integers(0, 4, e), rng.integers(1, 50, e)]).astype(float) if k % 3 else np.zeros((0, 3))
    kept = []
    for p in old:
        if not any(abs(p[0] - q[0]) < 1 / 60 + 1e-9 and abs(p[1] - q[1]) < 1 / 60 + 1e-9 for q in kept): kept.append(p)
    return dict(g=g, isal=isal, ip=ip, fp=fp, lev=int(rng.integers(0, L)), pd=250., out=out, old=np.array(kept).reshape(-1, 3), pn=np.arange(1., 4.), pi=int(rng.integers(0, 3)))


def check(i):
    H = import_module('pyowc.helper')
    g = {k: v.copy() for k, v in i['g'].items()}
    isal, ip, fp, n, pd = i['isal'], i['ip'], i['fp'], i['lev'], i['pd']
    a, b, c = isal.copy(), ip.copy(), fp.copy()
    if not np.isfinite(fp[n]): raise Skip()
    d = np.abs(ip[n] - fp[n])
    if np.any(np.abs(d - pd) < 1e-9) and np.any((np.abs(d - pd) < 1e-9) & (d != pd)): raise Skip('rounding')
    sel = [s for s in range(isal.shape[1]) if not np.isnan(isal[n, s]) and d[s] < pd]
    h = call(H.process_profile_hist_variables, g, c, a, b, n, pd)
    need(same(a, isal) and same(b, ip) and same(c, fp) and all(same(g[k], i['g'][k]) for k in g), 'arguments altered')
    want = dict(hist_sal=isal[n, sel], hist_pres=ip[n, sel], hist_long=i['g']['grid_long'][sel], hist_lat=i['g']['grid_lat'][sel], hist_dates=i['g']['grid_dates'][sel], hist_z=i['g']['grid_z'][sel])
    for k, v in want.items():
        need(same(np.asarray(h[k]).ravel(), v), f'{k} is {np.asarray(h[k]).ravel().tolist()}, expected {v.tolist()} (casts {sel})')
    m = len(sel)
    o = np.array([q for q in i['out'] if q < m], dtype=int)
    rest = [q for q in range(m) if q not in set(o.tolist())]
    h2 = call(H.remove_statical_outliers, o, {k: np.array(v) for k, v in h.items()})
    for k, v in want.items():
        need(same(np.asarray(h2[k]).ravel(), v[rest]), f'after removal of {o.tolist()} {k} is {np.asarray(h2[k]).ravel().tolist()}, expected {v[rest].tolist()}')
    if not rest: return
    old = i['old']
    data = dict(selected_hist=old.copy() if len(old) else [], la_profile_no=i['pn'].copy())
    lon, lat = np.asarray(h2['hist_long'], float).ravel(), np.asarray(h2['hist_lat'], float).ravel()
    r = np.asarray(call(H.selected_historical_points, data, h2, i['pi'])['selected_hist'], float)
    need(r.ndim == 2 and r.shape[1] == 3, f'selected points have shape {r.shape}')
    need(len(r) >= len(old) and same(r[:len(old)], old), 'points already stored are not kept')
    lim = 1 / 60; e = 1e-7
    def near(p, q, x): return abs(p[0] - q[0]) < x and abs(p[1] - q[1]) < x
    for x, y in zip(lon, lat):
        need(any(near((x, y), q, lim + e) for q in r), f'position ({x},{y}) has no stored point within a sixtieth of a degree')
    for p in range(len(r)):
        for q in range(p):
            if p < len(old): continue
            need(not near(r[p], r[q], lim - e), f'stored points {r[q].tolist()} and {r[p].tolist()} are closer than a sixtieth of a degree')
    for q in r[len(old):]:
        need(any(abs(q[0] - x) < 1e-12 and abs(q[1] - y) < 1e-12 for x, y in zip(lon, lat)) and q[2] == i['pn'][i['pi']], f'new point {q.tolist()} is not a mapped position with the number of its profile')
