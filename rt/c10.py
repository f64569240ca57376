import numpy as np
from common import *
from importlib import import_module
N = 5000
RULE = '1-5 casts of 1-8 levels on coarse temperature lattices (repeats, inversions, gaps, infs) and 1-5 float levels'


def gen(rng, k):
    L, S, F = int(rng.integers(1, 9)), int(rng.integers(1, 6)), int(rng.integers(1, 6))
    m = k % 4
    if m == 0: th = np.sort(rng.uniform(0, 20, (L, S)), axis=0)[::-1].copy()
    elif m == 1: th = rng.integers(0, 6, (L, S)).astype(float)
    elif m == 2: th = rng.uniform(0, 10, (L, S))
    else: th = np.round(np.sort(rng.uniform(-2, 6, (L, S)), axis=0)[::-1], 1)
    pr = np.sort(rng.uniform(0, 2000, (L, S)), axis=0).round(1)
    sa = rng.normal(35, .5, (L, S)).round(3)
    if m == 1: pr = np.tile(np.arange(1, L + 1)[:, None] * 100., (1, S))
    if k % 3:
        for a in (th, pr, sa):
            a[rng.random((L, S)) < .12] = np.nan
            if k % 5 == 0: a[rng.random((L, S)) < .06] = np.inf
    if k % 7 == 0: th[:, 0] = np.nan
    if k % 31 == 0: th[:] = np.nan
    ft = rng.uniform(-1, 12, F) if m != 1 else rng.integers(0, 6, F).astype(float)
    if k % 6 == 0 and np.isfinite(th).any(): ft[0] = th[np.isfinite(th)][0]
    fp = rng.uniform(0, 2000, F).round(1); fs = rng.normal(35, .5, F).round(3)
    for a in (ft, fp, fs):
        a[rng.random(F) < .12] = np.nan
        if k % 10 == 0: a[rng.random(F) < .1] = -np.inf
    return dict(gs=sa, gt=th, gp=pr, fs=fs, ft=ft, fp=fp)


def check(i):
    W = import_module('pyowc.data.wrangling')
    gs, gt, gp, fs, ft, fp = (i[x] for x in ('gs', 'gt', 'gp', 'fs', 'ft', 'fp'))
    keep = [x.copy() for x in (gs, gt, gp, fs, ft, fp)]
    rs, rp = call(W.interp_climatology, gs, gt, gp, fs, ft, fp)
    need(all(same(a, b) for a, b in zip(keep, (gs, gt, gp, fs, ft, fp))), 'inputs altered')
    S, F = gs.shape[1], len(fs)
    rs, rp = np.asarray(rs, float), np.asarray(rp, float)
    need(rs.shape == (F, S) and rp.shape == (F, S), f'shapes {rs.shape}, {rp.shape}')
    for s in range(S):
        ok = np.isfinite(gs[:, s]) & np.isfinite(gt[:, s]) & np.isfinite(gp[:, s])
        a, t, p = gs[ok, s], gt[ok, s], gp[ok, s]
        for f in range(F):
            good = np.isfinite(fs[f]) and np.isfinite(ft[f]) and np.isfinite(fp[f])
            pairs = [j for j in range(len(t) - 1) if (t[j] <= ft[f] <= t[j + 1]) or (t[j + 1] <= ft[f] <= t[j])] if good else []
            got = (rp[f, s], rs[f, s])
            if not pairs:
                need(np.isnan(got[0]) and np.isnan(got[1]), f'entry (level {f}, cast {s}) is {got}, expected missing'); continue
            fits = False; exp = None
            for w0 in (0., 1., .5):
                c = []
                for j in pairs:
                    w = w0 if t[j + 1] == t[j] else (ft[f] - t[j]) / (t[j + 1] - t[j])
                    c.append((p[j] + w * (p[j + 1] - p[j]), a[j] + w * (a[j + 1] - a[j])))
                best = min(abs(x[0] - fp[f]) for x in c)
                near = [x for x in c if abs(x[0] - fp[f]) <= best + 1e-6]
                exp = exp or near
                if any(close(got, x, 1e-7, 1e-6) for x in near): fits = True; break
            need(fits, f'entry (level {f}, cast {s}) is (pres {got[0]}, sal {got[1]}), expected one of {exp}')
