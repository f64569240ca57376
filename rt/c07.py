import numpy as np
from common import *
from importlib import import_module
N = 5000
RULE = 'lists of 0-8 dates in 4 formats as ints/floats/mixed lists, good and bad; distinct lists count'
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def one(rng, bad):
    y = int(rng.choice([1000, 1999, 2000, 2004, 9999])) if rng.random() < .4 else int(rng.integers(1000, 10000))
    m = int(rng.integers(1, 13)); d = int(rng.choice([1, 28, 30, 31])) if rng.random() < .4 else int(rng.integers(1, 32))
    h = int(rng.choice([0, 9, 10, 23])) if rng.random() < .4 else int(rng.integers(0, 24))
    mi = int(rng.choice([0, 9, 30, 59])); s = int(rng.integers(0, 60))
    if bad:
        w = int(rng.integers(0, 4))
        if w == 0: m = int(rng.choice([0, 13, 14, 50, 99]))
        if w == 1: d = int(rng.choice([0, 32, 33, 99]))
        if w == 2: return int(rng.choice([0, 1, 20, 200, 2004, 20041, 200412]))
        if w == 3: m = int(rng.choice([0, 13])); d = int(rng.choice([0, 32]))
    f = int(rng.integers(0, 4))
    t = f'{y:04d}{m:02d}{d:02d}' + ['', f'{h:02d}', f'{h:02d}{mi:02d}', f'{h:02d}{mi:02d}{s:02d}'][f]
    return int(t)


def gen(rng, k):
    n = int(rng.integers(0, 9)) if k % 5 else 1
    v = [one(rng, rng.random() < (.35 if k % 3 else 0)) for _ in range(n)]
    kind = ['int', 'float', 'list', 'flist', 'mixed'][k % 5]
    return dict(v=v, kind=kind)


def expect(v):
    t = str(int(v))
    if len(t) < 7: return 0.
    y, m, d = int(t[:4]), int(t[4:6]), int(t[6:8])
    if not (1 <= m <= 12 and 1 <= d <= 31): return 0.
    h = int(t[8:10]) if len(t) >= 10 else 0
    mi = int(t[10:12]) if len(t) >= 12 else 0
    return y + (CUM[m - 1] + d - 1 + h / 24 + mi / 1440) / 365


def check(i):
    U = import_module('pyowc.utilities')
    v = i['v']
    a = {'int': lambda: np.array(v, dtype=np.int64), 'float': lambda: np.array(v, dtype=float), 'list': lambda: list(v),
         'flist': lambda: [float(x) for x in v], 'mixed': lambda: [float(x) if j % 2 else x for j, x in enumerate(v)]}[i['kind']]()
    r = np.asarray(call(U.change_dates, a), float)
    e = np.array([expect(x) for x in v], float)
    need(r.shape == e.shape, f'length {r.shape} for {e.shape}')
    need(close(r, e, rtol=0, atol=1e-8), f'change_dates({v} as {i["kind"]}) = {r.tolist()}, expected {e.tolist()}')
