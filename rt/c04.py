import numpy as np, os
from common import *
from importlib import import_module
N = 1500
RULE = 'longitude ranges crossing or touching 0, 360, -360 and 720 or none; latitude ranges incl. the poles; hashed file content'
_F = None


def topo_dir():
    """one int16 2160 x 4320 file whose every cell holds a hash of its row and column"""
    global _F
    if _F is None:
        import atexit
        d = tempfile.mkdtemp(prefix='pyowc_vp_'); atexit.register(shutil.rmtree, d, True)
        r = np.arange(2161, dtype=np.int64)[:, None]; c = np.arange(4320, dtype=np.int64)[None, :]
        v = ((r * 7919 + c * 104729 + (r * c) % 65521) % 65536 - 32768).astype(np.int16)
        v.tofile(os.path.join(d, 'tbase.int'))
        _F = (d, v)
    return _F


def gen(rng, k):
    w = float(rng.choice([.2, .5, 1, 2, 4.3]))
    c = float(rng.choice([-359, -180, -90.5, -.5, 0, .5, 2, 20, 179.9, 180, 300, 359.5, 360, 360.7, 361, 500, 715]))
    if k % 3 == 0: c = float(rng.uniform(-358, 714))
    lo, hi = c - w, c + w
    if k % 31 == 5: lo = float(rng.choice([-.02, -1 / 24, 359.98, -.08])) + float(rng.choice([0, 0, 180, -90])); hi = min(lo + float(rng.choice([359.97, 360, 359.9])), 719.9)
    if k % 29 == 0: lo, hi = float(rng.choice([-30, 0, 100])), 0; hi = lo + float(rng.choice([359.5, 200, 360]))
    if k % 7 == 0: lo = round(lo * 12) / 12; hi = round(hi * 12) / 12
    lo, hi = max(lo, -360.), min(hi, 719.9)
    b = float(rng.choice([-91, -90, -89.5, -60.3, -.2, 0, 33.3, 88.5, 89.5])) if k % 2 else float(rng.uniform(-90, 88))
    t = b + float(rng.choice([.1, 1, 2.2]))
    return dict(lo=lo, hi=hi, b=b, t=t)


def check(i):
    F = import_module('pyowc.data.fetchers')
    lo, hi, b, t = i['lo'], i['hi'], i['b'], i['t']
    if not (-360 <= lo <= hi < 720 and hi - lo <= 360 and b <= t and b <= 90 and t >= -89.9): raise Skip()
    if (np.ceil(hi*12)-np.floor(lo*12)) * (t - b) * 12 > 60000: t = max(b, -90.) + .2
    d, v = topo_dir()
    topo, X, Y = call(F.get_topo_grid, lo, hi, b, t, {'CONFIG_DIRECTORY': d})
    topo, X, Y = np.asarray(topo), np.asarray(X), np.asarray(Y)
    need(topo.ndim == 2 and topo.shape == X.shape == Y.shape, f'shapes {topo.shape} {X.shape} {Y.shape}')
    need(np.allclose(X, X[:1]) and np.allclose(Y, Y[:, :1]), 'grid not rectangular')
    need(np.allclose(np.diff(X, axis=1), 1 / 12) and np.allclose(np.diff(Y, axis=0), -1 / 12), 'spacing or order of nodes')
    col = np.round(X * 12).astype(int); row = 1080 - np.round(Y * 12).astype(int)
    need(np.allclose(col / 12, X) and np.allclose(1080 - row, Y * 12), 'nodes not multiples of 1/12 degree')
    e = 1e-9
    need(X.min() <= lo + e and X.max() >= hi - e, f'longitudes {X.min()}..{X.max()} do not cover {lo}..{hi}')
    cb, ct = max(b, -90 + 1 / 12), min(t, 90)
    need(Y.min() <= max(cb, min(cb, ct)) + e and Y.max() >= min(ct, 90) - e, f'latitudes {Y.min()}..{Y.max()} do not cover {cb}..{ct}')
    need(X.min() > lo - 1 / 12 - e and X.max() < hi + 1 / 12 + e, 'nodes beyond the requested longitudes')
    need(row.min() >= 0 and row.max() <= 2160, 'latitude outside the file')
    ex = v[row, col % 4320]
    w = np.argwhere(ex != topo)
    need(len(w) == 0, f'node at long {X[tuple(w[0])] if len(w) else 0}, lat {Y[tuple(w[0])] if len(w) else 0} carries {topo[tuple(w[0])] if len(w) else 0}, file has {ex[tuple(w[0])] if len(w) else 0} (range {lo}..{hi}, {b}..{t})')
