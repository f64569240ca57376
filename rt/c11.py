import numpy as np, math
from common import *
from importlib import import_module
N = 3000
RULE = '1-6 levels x 1-5 profiles of temperatures inside the table (table nodes, missing values), random positions, PV on/off'
TB = [-2, 1, 2.5, 4, 8, 12, 18, 24, 30]
DOWN = [1, 1, 1.5, 1.5, 4, 4, 6, 6, 6]
UP = [1, 1.5, 1.5, 4, 4, 6, 6, 6, 6]


def gen(rng, k):
    L, P = int(rng.integers(1, 7)), int(rng.integers(1, 6))
    t = rng.uniform(-2, 30, (L, P)) if k % 3 == 0 else rng.uniform(-2, 9, (L, P))
    if k % 4 == 1: t = rng.choice(np.array(TB, float), (L, P))
    if k % 4 == 2: t[:, 0] = np.sort(t[:, 0])[::-1]
    if k % 2: t[rng.random((L, P)) < .15] = np.nan
    c = np.column_stack([rng.uniform(-60, 60, P), rng.uniform(0, 360, P), rng.uniform(200, 5000, P)])
    if k % 3: c[:, :2] = c[0, :2] + rng.normal(0, 2, (P, 2))
    if k % 11 == 0: c[:, 0] = 0.
    if k % 11 in (5, 7): c[int(rng.integers(0, P)), 0] = 0.
    return dict(t=t, c=c, lo=float(np.round(rng.uniform(1, 8), 1)), la=float(np.round(rng.uniform(1, 8), 1)), phi=float(rng.choice([.02, .1, .5])), use=int(k % 2))


def check(i):
    S = import_module('pyowc.core.stats')
    t, c, lo, la, phi, use = (i[x] for x in ('t', 'c', 'lo', 'la', 'phi', 'use'))
    if min(lo, la, phi) <= 0 or np.any(c[:, 2] == 0): raise Skip()
    tv = t[~np.isnan(t)]
    if len(tv) and (tv.min() < -2 or tv.max() > 30): raise Skip()
    L, P = t.shape
    kt, kc = t.copy(), c.copy()
    cfg = base_config(MAPSCALE_LONGITUDE_SMALL=lo, MAPSCALE_LATITUDE_SMALL=la, MAPSCALE_PHI_SMALL=phi, MAP_USE_PV=use)
    r = np.asarray(call(S.build_cov, t, c, cfg), float)
    need(r.shape == (L * P, L * P), f'shape {r.shape} for {L} levels, {P} profiles')
    need(same(t, kt) and same(c, kc), 'arguments altered')
    q = [2 * 7.292e-5 * math.sin(x[0] * math.pi / 180) / x[2] for x in c]
    H = np.ones((P, P)); V = np.ones((P, L, L))
    for a in range(P):
        for b in range(P):
            d = ((c[a, 0] - c[b, 0]) / la) ** 2 + ((c[a, 1] - c[b, 1]) / lo) ** 2
            # all-zero vorticities carry no information: the term is left out
            if use and q[a] != 0 and any(x != 0 for x in q): d += ((q[a] - q[b]) / math.sqrt(q[a] ** 2 + q[b] ** 2) / phi) ** 2
            H[a, b] = math.exp(-d)
        for x in range(L):
            for y in range(L):
                if x == y or np.isnan(t[x, a]) or np.isnan(t[y, a]): continue
                sc = np.interp(t[x, a], TB, DOWN if x < y else UP)
                V[a, x, y] = math.exp(-((t[y, a] - t[x, a]) / sc) ** 2)
    e = np.block([[H[a, b] * V[a] for b in range(P)] for a in range(P)])
    w = np.argwhere(~np.isclose(r, e, 1e-8, 1e-13))
    need(len(w) == 0, f'entry {tuple(w[0]) if len(w) else 0} of {L}x{P} is {r[tuple(w[0])] if len(w) else 0}, expected {e[tuple(w[0])] if len(w) else 0}')
    for a in range(P):
        h = np.asarray(call(S.covarxy_pv, c[a], c, lo, la, phi, use), float)
        need(close(h.ravel(), H[a], 1e-8, 1e-13), f'horizontal covariance {h.tolist()}, expected {H[a].tolist()}')
