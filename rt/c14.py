import numpy as np
from common import *
from importlib import import_module
N = 700
RULE = '2-25 levels x 1-6 profiles with missing values, all combinations of temperature/pressure bounds, unmapped observations'


def gen(rng, k):
    L, P = int(rng.integers(3, 26)), int(rng.integers(1, 7))
    if k % 3 == 0: L = int(rng.integers(15, 40))
    pres = np.sort(rng.uniform(0, float(rng.choice([400, 2000])), (L, P)), axis=0).round(1) + np.arange(L)[:, None]
    pt = 18 * np.exp(-pres / 500) + rng.normal(0, .3 if k % 2 else .02, (L, P)) + rng.normal(0, .5, P)
    pt = pt.round(3)
    sal = (34.5 + .05 * pt + rng.normal(0, .02, (L, P))).round(4)
    for a in (pres, pt, sal):
        if k % 4: a[rng.random((L, P)) < .05] = np.nan
    if k % 17 == 8: pt = np.full((L, P), 5.03) + rng.uniform(-.02, .02, (L, P))
    if k % 34 == 9: pt[:] = np.nan
    if k % 5 == 0: j = int(rng.integers(0, L)); pt[j:, 0] = np.nan; sal[j:, 0] = np.nan; pres[j:, 0] = np.nan
    la = pt.copy()
    if k % 3 == 1: la[rng.random((L, P)) < .15] = np.nan
    def b(v, p): return np.array([[float(v)]]) if rng.random() < p else []
    hi, lo = rng.uniform(6, 16), rng.uniform(1, 8)
    tl, tg = b(hi, .4), b(lo, .4)
    pl, pg = b(rng.uniform(800, 1800), .3), b(rng.uniform(10, 900), .3)
    return dict(sal=sal, pt=pt, pres=pres, la=la, tl=tl, tg=tg, pl=pl, pg=pg, pc=float(rng.choice([.5, .3, .9, 1.])))


def excl(v, lt, gt):
    a = len(lt) > 0; b = len(gt) > 0
    with np.errstate(invalid='ignore'):
        if a and not b: return v > lt[0][0]
        if b and not a: return v < gt[0][0]
        if a and b:
            l, g = lt[0][0], gt[0][0]
            return (v > l) & (v < g) if l < g else (v > l) | (v < g)
    return np.zeros(v.shape, bool)


def check(i):
    F = import_module('pyowc.core.finders')
    S, T, Pz = i['sal'].copy(), i['pt'].copy(), i['pres'].copy()
    L, P = T.shape
    bad = np.isnan(i['la']); bad |= excl(T, i['tl'], i['tg'])
    T[bad] = np.nan; S[bad] = np.nan; Pz[bad] = np.nan
    bad = excl(Pz, i['pl'], i['pg'])
    T[bad] = np.nan; S[bad] = np.nan; Pz[bad] = np.nan
    both = np.isfinite(T) & np.isfinite(Pz)
    with quiet():
        mn, mx = np.ceil(np.nanmin(T) * 10) / 10, np.floor(np.nanmax(T) * 10) / 10
        pr = np.nanmax(Pz) - np.nanmin(Pz)
    if not mn < mx:
        a = [i['sal'].copy(), i['pt'].copy(), i['pres'].copy(), i['la'].copy()]
        tl, pl, idx, var, th = call(F.find_10thetas, *a, i['tl'], i['tg'], i['pl'], i['pg'], i['pc'])
        need(np.shape(idx) == (10, P) and np.all(np.isnan(np.asarray(idx, float))) and np.size(tl) == 10 and np.all(np.isnan(np.asarray(tl, float))) and np.size(th) == 0, 'levels chosen without a range of temperatures')
        return
    if not both.any() or not pr >= 20: raise Skip('range')
    for p in range(P):
        q = Pz[both[:, p], p]
        if len(np.unique(q)) != len(q): raise Skip('repeated pressure')
    a = [i['sal'].copy(), i['pt'].copy(), i['pres'].copy(), i['la'].copy()]
    tl, pl, idx, var, th = call(F.find_10thetas, *a, i['tl'], i['tg'], i['pl'], i['pg'], i['pc'])
    tl = np.asarray(tl, float).ravel(); idx = np.asarray(idx, float); var = np.asarray(var, float).ravel(); th = np.asarray(th, float).ravel(); pl = np.asarray(pl, float).ravel()
    need(tl.shape == (10,) and idx.shape == (10, P) and pl.shape == (10,), f'shapes {tl.shape} {idx.shape}')
    need(len(var) == len(th), 'one variance per candidate')
    lo, inc = np.nanmin(Pz), 50
    lev = np.arange(lo, np.nanmax(Pz), inc)
    if len(lev) < 10: lev = np.arange(lo, np.nanmax(Pz), np.floor(pr / 10))
    need(len(lev) == len(th), f'{len(th)} candidate levels, expected {len(lev)}')
    for k, z in enumerate(lev):
        ts = []
        for p in range(P):
            g = both[:, p]
            if g.any() and Pz[g, p].min() < z < Pz[g, p].max(): o = np.argsort(Pz[g, p]); ts.append(np.interp(z, Pz[g, p][o], T[g, p][o]))
        e = np.mean(ts) if ts else np.nan
        need(np.isclose(th[k], e, rtol=1e-9, atol=1e-9, equal_nan=True), f'candidate at {z} dbar is {th[k]}, the mean temperature there is {e}')
    # variance of the salinity at every candidate level, from the allowed observations
    K = len(th)
    near = np.full((K, P), np.nan); st = np.full((K, P), np.nan)
    for k in range(K):
        for p in range(P):
            if np.isnan(th[k]) or not np.isfinite(T[:, p]).any(): continue
            if not np.nanmin(T[:, p]) < th[k] < np.nanmax(T[:, p]): continue
            d = np.abs(T[:, p] - th[k])
            near[k, p] = int(np.argmin(np.where(np.isnan(d), np.inf, d)))
    vi = np.full(K, np.nan); ng = np.zeros(K)
    for k in range(K):
        for p in range(P):
            if np.isnan(near[k, p]): continue
            n = int(near[k, p]); t = T[n, p]
            nb = [m for m in (n - 1, n + 1) if 0 <= m < L and np.isfinite(T[m, p])]
            c = [m for m in nb if (T[m, p] < t if t > th[k] else T[m, p] > t)] if t != th[k] else []
            if c:
                m = min(c, key=lambda z: abs(T[z, p] - t))
                if np.isfinite(S[n, p]) and np.isfinite(S[m, p]):
                    st[k, p] = S[n, p] + (th[k] - t) / (T[m, p] - t) * (S[m, p] - S[n, p]); continue
            st[k, p] = S[n, p]
        z = st[k][np.isfinite(st[k])]; ng[k] = len(z)
        if len(z) > 1: vi[k] = np.var(z, ddof=1)
    if ng.max() > 0: vi[ng / ng.max() < i['pc'] - 1e-12] = np.nan
    need(np.allclose(var, vi, rtol=1e-6, atol=1e-10, equal_nan=True), f'variances {var.tolist()}, expected {vi.tolist()}')
    sel = np.argwhere(~np.isnan(tl)).ravel()
    m = len(sel)
    nv = int(np.sum(~np.isnan(vi)))
    need(m == min(10, nv) and list(sel) == list(range(m)), f'{m} levels chosen, {nv} candidates with a variance')
    used = []
    for r in range(10):
        if r >= m:
            need(np.all(np.isnan(idx[r])) and np.isnan(pl[r]), 'index for an absent level'); continue
        c = [k for k in range(K) if th[k] == tl[r] and k not in used and not np.isnan(vi[k])]
        need(c, f'level {tl[r]} is not a (new) candidate with a variance')
        # candidates of equal temperature: the one whose variance is next
        k = min(c, key=lambda z: vi[z]); used.append(k)
        need(same(idx[r], near[k]), f'indices for level {tl[r]}: {idx[r].tolist()}, nearest allowed observations are {near[k].tolist()}')
    vs = vi[used]
    need(np.all(np.diff(vs) >= -1e-12), 'not in order of increasing variance')
    rest = [vi[k] for k in range(K) if k not in used and not np.isnan(vi[k])]
    if rest and m: need(min(rest) >= max(vs) - 1e-12, f'a candidate of smaller variance was left out')
    # candidate levels: mean over the profiles of the temperature interpolated at pressures 50 dbar (or a tenth of the range) apart
    for r, k in enumerate(used): need(np.isclose(pl[r], lev[k]), f'pressure of level {tl[r]} is {pl[r]}, expected {lev[k]}')
