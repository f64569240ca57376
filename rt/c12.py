import numpy as np
from common import *
from importlib import import_module
N = 4000
RULE = '1-14 sorted abscissas (ties), 0-4 sorted breaks (on points, between, repeated, at the ends), weights or none; singular and mismatched cases'


def gen(rng, k):
    n = int(rng.integers(1, 15)); b = int(rng.integers(0, 5))
    x = np.sort(rng.integers(-6, 7, n).astype(float)) if k % 2 else np.sort(rng.uniform(-1, 1, n))
    lo, hi = x[0], x[-1]
    br = np.sort(rng.uniform(lo, hi, b))
    if k % 3 == 0: br = np.sort(rng.choice(x, b))
    if k % 7 == 0 and b > 1: br[1] = br[0]; br = np.sort(br)
    y = np.round(rng.normal(0, 2, n), 3)
    if k % 13 == 0: y = np.append(y, 1.)
    w = np.round(rng.uniform(.1, 3, n), 2)
    m = k % 3
    if k % 17 == 0: x[:] = 2.; br = np.full(b, 2.)
    return dict(x=x, y=y, br=br, w=w, m=int(m), lst=bool(k % 4 == 0))


def check(i):
    S = import_module('pyowc.core.stats')
    x, y, br, w, m = i['x'], i['y'], i['br'], i['w'], i['m']
    n, b = len(x), len(br)
    if n == 0 or np.any(np.diff(x) < 0) or np.any(np.diff(br) < 0) or (b and (br[0] < x[0] or br[-1] > x[-1])) or np.any(w <= 0): raise Skip()
    W = np.diag(w) if m == 0 else (np.eye(n) if m == 1 else [])
    ww = w if m == 0 else np.ones(n)
    keep = x.copy(), y.copy(), br.copy()
    if b == 0 and i.get('lst'): A, r = call(S.brk_pt_fit, x, y, W)
    else: A, r = call(S.brk_pt_fit, x, y, W, br)
    need(same(x, keep[0]) and same(y, keep[1]) and same(br, keep[2]), 'arguments altered')
    A = np.asarray(A, float).ravel(); r = np.asarray(r, float).ravel()
    need(len(A) == b + 2, f'{len(A)} coefficients for {b} breaks')
    if len(y) != n:
        need(np.all(A == 0) and same(r, y), 'mismatched lengths do not give zeros and the data'); return
    knots = np.concatenate(([x[0]], br, [max(x[-1], br[-1] if b else x[-1])]))
    E = np.ones((n, b + 2))
    for j in range(b + 1):
        E[:, j + 1] = np.clip(x, knots[j], knots[j + 1]) - knots[j]
    N_ = E.T @ (ww[:, None] * E)
    if np.any(np.all(E == 0, axis=0)):
        need(np.all(A == 0) and same(r, y), f'singular system gives {A.tolist()}, expected zeros and the data (x {x.tolist()}, breaks {br.tolist()})'); return
    c = np.linalg.cond(N_)
    if not np.isfinite(c) or c > 1e8:
        need((np.all(A == 0) and same(r, y)) or close(r, y - E @ A, 1e-6, 1e-6), 'nearly singular: residual is not data minus curve'); return
    need(close(r, y - E @ A, 1e-8, 1e-8), f'residual is not the data minus the piecewise-linear curve (x {x.tolist()}, breaks {br.tolist()}, A {A.tolist()}, residual {r.tolist()})')
    e = np.linalg.solve(N_, E.T @ (ww * y))
    need(close(A, e, 1e-6, 1e-7 * (1 + np.abs(e).max())), f'coefficients {A.tolist()}, expected {e.tolist()}')
    M = import_module('pyowc.utilities')
    if b:
        p = np.asarray(call(M.sorter, np.concatenate(([x[0]], br)), x)).ravel()
        k = np.concatenate(([x[0]], br))
        lo = np.array([np.sum(k < v) - 1 for v in x]); hi = np.array([np.sum(k <= v) - 1 for v in x])
        need(p.shape == x.shape and np.all(p >= np.minimum(lo, hi)) and np.all(p <= hi), f'sorter gives {p.tolist()} for sites {k.tolist()} and points {x.tolist()}')
