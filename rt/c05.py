import numpy as np
from common import *
from importlib import import_module
N = 2500
RULE = 'random, integer, near-edge and missing positions with a random box table'


def gen(rng, k):
    lo = float(rng.uniform(0, 360)); la = float(rng.uniform(-90, 90))
    if k % 4 == 1: lo = float(rng.integers(0, 36) * 10 + rng.choice([0, -.005, .005, 5, 9.98, 9.985]))
    if k % 4 == 2: la = float(rng.integers(-9, 9) * 10 + rng.choice([0, -.005, .005, 5, 9.98, 9.985]))
    if k % 8 == 3: lo = float(rng.choice([0, .5, 5, 9.5, 10, 15, 19.5, 340, 345, 349.5, 350, 355, 359.5]))
    if k % 8 == 7: la = float(rng.choice([90, 89, 81, 71, 65, -65, -71, -81, -89, -90, 0]))
    if k % 17 == 0: lo = float('nan')
    if k % 19 == 0: la = float('nan')
    if k % 23 == 0: lo = int(rng.integers(0, 360)); la = int(rng.integers(-90, 91))
    t = np.column_stack([rng.permutation(648) + 1000, rng.integers(0, 2, 648), rng.integers(0, 2, 648), rng.integers(0, 2, 648)]).astype(np.uint16)
    return dict(lo=lo, la=la % 1000 if False else la, table=t)


def check(i):
    F = import_module('pyowc.core.finders')
    lo, la, t = i['lo'], i['la'], i['table']
    if lo < 0: lo = lo + 360
    if not np.isnan(lo) and not 0 <= lo < 360: raise Skip()
    if not np.isnan(la) and not -90 <= la <= 90: raise Skip()
    keep = t.copy()
    r = call(F.find_25boxes, lo, la, {'la_wmo_boxes': t})
    r = np.asarray(r, float)
    need(r.shape == (25, 4), f'shape {r.shape}')
    need(same(keep, t), 'table altered')
    if np.isnan(lo) or np.isnan(la):
        need(np.all(np.isnan(r)), 'entries for a missing coordinate'); return
    offs = [.01, 10.01, -9.99, 20.01, -19.99]
    rows = []
    for dy in offs:
        for dx in offs:
            x, y = lo + dx, la + dy
            x %= 360
            fx = x / 10 - np.floor(x / 10); fy = y / 10 - np.floor(y / 10)
            if min(fx, 1 - fx) < 1e-7 or min(fy, 1 - fy) < 1e-7: raise Skip('box edge')
            cx = int(np.floor(x / 10)); cy = int(np.floor((90 - y) / 10)); cy = min(17, max(0, cy))
            rows.append(cx * 18 + cy)
    e = t[rows].astype(float)
    need(same(r[0], e[0]), f'first box for ({lo},{la}) is {r[0].tolist()}, expected {e[0].tolist()}')
    a = sorted(map(tuple, r.tolist())); b = sorted(map(tuple, e.tolist()))
    need(a == b, f'boxes for ({lo},{la}): {sorted(set(a) - set(b))} instead of {sorted(set(b) - set(a))}')
