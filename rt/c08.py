import numpy as np
from common import *
from importlib import import_module
N = 3000
RULE = 'two sets of 1-5 positions (single ones as 1-D too), partly coincident, with/without age and potential vorticity'


def gen(rng, k):
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    def pts(n):
        return np.column_stack([np.round(rng.uniform(-60, 60, n), 3), np.round(rng.uniform(0, 380, n), 3),
                                np.round(rng.uniform(1990, 2020, n), 3), np.round(rng.uniform(50, 5000, n), 1)])
    a, b = pts(n), pts(m)
    base = a[0]
    if k % 2:
        b[:] = base + rng.normal(0, 2, b.shape) * [1, 1, 1, 20]; a[:] = base + rng.normal(0, 2, a.shape) * [1, 1, 1, 20]
    if k % 3 == 0: b[0] = a[-1]
    if k % 7 == 0: a[:, 0] = 0.; 
    one1, one2 = bool(n == 1 and k % 2), bool(m == 1 and k % 4 == 1)
    return dict(a=a, b=b, one1=one1, one2=one2, s1=float(np.round(rng.uniform(.5, 9), 2)), s2=float(np.round(rng.uniform(.5, 9), 2)),
                age=float(rng.choice([0, .25, .7, 1, 1.5, 10, 20])), phi=float(rng.choice([.02, .1, .5, 2])), use=int(k % 2))


def check(i):
    S = import_module('pyowc.core.stats')
    a, b, s1, s2, age, phi, use = (i[x] for x in ('a', 'b', 's1', 's2', 'age', 'phi', 'use'))
    if min(s1, s2, phi) <= 0 or age < 0 or (use and (np.any(a[:, 3] == 0) or np.any(b[:, 3] == 0))): raise Skip()
    ka, kb = a.copy(), b.copy()
    # the parameter named lat scales column 1 and the one named long column 0 (the caller passes them swapped)
    def ref(a, b):
        d = ((a[:, None, 0] - b[None, :, 0]) / s2) ** 2 + ((a[:, None, 1] - b[None, :, 1]) / s1) ** 2
        if age != 0: d = d + ((a[:, None, 2] - b[None, :, 2]) / age) ** 2
        if use:
            pa = np.array([pv(x[0], x[3]) for x in a]); pb = np.array([pv(x[0], x[3]) for x in b])
            d = d + ((pa[:, None] - pb[None, :]) / np.sqrt(pa[:, None] ** 2 + pb[None, :] ** 2) / phi) ** 2
        return np.exp(-d)
    A = a[0] if i['one1'] else a; B = b[0] if i['one2'] else b
    if not use and i.get('three'): A, B = A[..., :3], B[..., :3]
    r = np.asarray(call(S.covar_xyt_pv, A, B, s1, s2, age, phi, use), float)
    e = ref(a, b)
    need(r.shape == e.shape, f'shape {r.shape}, expected {e.shape}')
    need(close(r, e, 1e-8, 1e-14), f'covariance {r.tolist()}, expected {e.tolist()}')
    need(same(a, ka) and same(b, kb), 'arguments altered')
