import numpy as np
from common import *
N = 5000
RULE = 'longitude lists of length 0-12 (ints or reals, sorted or not) around 0, 40, 320, 360; distinct non-empty lists count'
from importlib import import_module


def gen(rng, k):
    n = int(rng.integers(0, 13)) if k % 7 else int(rng.integers(0, 3))
    pool = np.array([-180, -179.5, -40, -1, -1e-6, 0, 1e-6, 39.999, 40, 40.001, 41, 100, 180, 200, 319.999, 320, 320.001, 350, 359.999, 0., -40., 180.])
    mode = k % 4
    if mode == 0: x = rng.choice(pool, n)
    elif mode == 1: x = rng.uniform(-180, 360, n)
    elif mode == 2: x = rng.integers(-180, 360, n).astype(np.int64)
    else: x = np.concatenate([rng.uniform(0, 60, n // 2), rng.uniform(300, 330, n - n // 2)])
    if k % 5 == 0: x = np.sort(x)
    if k % 11 == 0 and mode == 0: x = x[(x < 320)]
    return dict(x=x)


def check(i):
    U = import_module('pyowc.utilities')
    x = np.array(i['x']); src = x.copy()
    r = call(U.wrap_longitude, x)
    e = src.copy()
    e = np.where(e < 0, e + 360, e)
    if np.any(e >= 320):
        e = np.where(e <= 40, e + 360, e)
    r = np.asarray(r)
    need(r.shape == src.shape, f'shape {r.shape} for {src.shape}')
    need(np.allclose(np.asarray(r, float), np.asarray(e, float), rtol=0, atol=1e-9), f'wrap_longitude({src.tolist()}) = {r.tolist()}, expected {e.tolist()}')
