import numpy as np, math
from common import *
from importlib import import_module
N = 4000
RULE = '1-9 positions (coincident ones too), random salinities, scales, variances, with/without age and potential vorticity'


def gen(rng, k):
    n = int(rng.integers(1, 10)) if k % 6 else 1
    c = np.array([rng.uniform(-60, 60), rng.uniform(0, 360), rng.uniform(1995, 2020), rng.uniform(500, 4000)])
    sp = float(rng.choice([.5, 3, 10]))
    d = c + rng.normal(0, 1, (n, 4)) * [sp, sp, sp, 200]
    if n > 2 and k % 3 == 0: d[1] = d[0]
    g = c + rng.normal(0, 1, (1, 4)) * [sp, sp, sp, 200]
    if k % 5 == 0: g = d[:1].copy()
    sal = np.round(rng.normal(float(rng.choice([35, 34.5, 0])), float(rng.choice([.01, .3])), n), 4)
    if k % 9 == 0: sal[:] = 35.
    return dict(sal=sal, g=g, d=d, s1=float(np.round(rng.uniform(1, 9), 1)), s2=float(np.round(rng.uniform(1, 9), 1)), age=float(rng.choice([0, 10, 20])),
                sv=float(np.round(rng.uniform(.05, 2), 3)), nv=float(np.round(rng.uniform(.01, .5), 3)), phi=float(rng.choice([.1, .5])), use=int(k % 2))


def check(i):
    W = import_module('pyowc.data.wrangling')
    sal, g, d, s1, s2, age, sv, nv, phi, use = (i[x] for x in ('sal', 'g', 'd', 's1', 's2', 'age', 'sv', 'nv', 'phi', 'use'))
    if min(s1, s2, sv, nv, phi) <= 0 or age < 0 or (use and (np.any(d[:, 3] == 0) or np.any(g[:, 3] == 0))): raise Skip()

    def cov(a, b):
        q = ((a[:, None, 0] - b[None, :, 0]) / s2) ** 2 + ((a[:, None, 1] - b[None, :, 1]) / s1) ** 2
        if age != 0: q = q + ((a[:, None, 2] - b[None, :, 2]) / age) ** 2
        if use:
            pa = np.array([pv(x[0], x[3]) for x in a]); pb = np.array([pv(x[0], x[3]) for x in b])
            q = q + ((pa[:, None] - pb[None, :]) / np.sqrt(pa[:, None] ** 2 + pb[None, :] ** 2) / phi) ** 2
        return np.exp(-q)
    n = len(sal)
    K = sv * cov(d, d); Kg = sv * cov(g, d)
    A = K + nv * np.eye(n)
    if np.linalg.cond(A) > 1e6: raise Skip('ill-conditioned')
    one = np.ones(n)
    Ai1 = np.linalg.solve(A, one); s = one @ Ai1
    m = (one @ np.linalg.solve(A, sal)) / s
    w = np.linalg.solve(A, sal - m)

    def est(C):
        AiC = np.linalg.solve(A, C.T)
        e2 = sv - np.einsum('ij,ji->i', C, AiC) + (1 - AiC.sum(axis=0)) ** 2 / s
        return C @ w + m, e2
    v, e2 = est(Kg); vd, ed2 = est(K)
    keep = [x.copy() for x in (sal, g, d)]
    r = call(W.map_data_grid, sal, g, d, s1, s2, age, sv, nv, phi, use)
    need(all(same(a, b) for a, b in zip(keep, (sal, g, d))), 'arguments altered')
    need(len(r) == 4, 'four results')
    need(close(np.squeeze(r[0]), v[0], 1e-7, 1e-8), f'mapped value {r[0]}, expected {v[0]}')
    need(close(np.squeeze(r[1]) ** 2, e2[0], 1e-6, 1e-9), f'mapping error {r[1]}, expected {math.sqrt(abs(e2[0]))}')
    need(close(r[2], vd, 1e-7, 1e-8), f'values at data {np.asarray(r[2]).tolist()}, expected {vd.tolist()}')
    need(close(np.asarray(r[3]) ** 2, ed2, 1e-6, 1e-9), f'errors at data {np.asarray(r[3]).tolist()}, expected {np.sqrt(abs(ed2)).tolist()}')
