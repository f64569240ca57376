import numpy as np, os
from common import *
from importlib import import_module
import archive as A
import c07
N = 600
RULE = '1-4 boxes x 3 data types (enabled or not, files missing), 2-6 casts per file, random requested numbers in any order'


def gen(rng, k, mess=.1, deep=2000.):
    name = str(rng.choice(['3901960', '390', '7900177']))
    nb = int(rng.integers(1, 5))
    lons = rng.choice([0, 10, 350, 340, 60, 320, -20] if k % 2 else [60, 70, 50], nb)
    boxes, files = [], []
    for b in range(nb):
        num = 1000 + int(rng.integers(0, 9000)) + b * 10000
        row = [float(num)] + [float(x) for x in rng.integers(0, 2, 3)]
        if k % 3 == 0: row[1:] = [1., 0., 1.]
        boxes.append(row)
        for kind in (1, 2, 3):
            if rng.random() < .8:
                files.append([num, kind, A.box(rng, int(rng.integers(2, 7)), int(rng.integers(2, 8)), float(lons[b]), -60., kind, name, mess=mess, deep=deep)])
    if k % 5 == 0 and nb > 1: boxes[1] = list(boxes[0])
    if k % 17 == 0: boxes.append([float('nan')] * 4)
    fp = np.sort(rng.uniform(0, deep, 12)).round(1)
    if k % 2: fp[rng.random(12) < .2] = np.nan
    tot = len(A.offered([b for b in boxes if b[0] == b[0]], files, name))
    idx = rng.permutation(tot)[:int(rng.integers(0, tot + 1))] if tot else np.array([], int)
    return dict(boxes=np.array(boxes), files=files, name=name, idx=idx, fp=fp, pd=float(rng.choice([0, 50, 250])))


def usable(cast, mp):
    p, s, t = cast[3], cast[4], cast[5]
    k = ~np.isnan(p)
    p, s, t = p[k], s[k], t[k]
    k = ~(p > mp)
    p, s, t = p[k].copy(), s[k].copy(), t[k].copy()
    m = np.isnan(p) | np.isnan(s) | np.isnan(t)
    p[m] = s[m] = t[m] = np.nan
    return p, s, t


class World:
    def __init__(self, i):
        self.i = i

    def __enter__(self):
        i = self.i
        if not np.isfinite(i['fp']).any(): raise Skip()
        for b, k, d in i['files']:
            if d['pres'].shape[0] < 2 or d['pres'].shape[1] < 2: raise Skip()
        self.cm = scratch(); d = self.cm.__enter__()
        self.cfg = base_config(HISTORICAL_DIRECTORY=d, MAP_P_DELTA=i['pd'])
        A.write(d, self.cfg, i['files'])
        self.casts = A.offered([r for r in i['boxes'] if not np.isnan(r[0])], i['files'], i['name'])
        # single remaining casts of an argo file stay two-dimensional; fully excluded files contribute nothing
        self.mp = np.nanmax(i['fp']) + i['pd']
        self.F = import_module('pyowc.data.fetchers')
        return self

    def __exit__(self, *a):
        self.cm.__exit__(*a)

    def expect(self, idx):
        sel = [self.casts[j] for j in range(len(self.casts)) if j in set(int(q) for q in idx)]
        lon = A.wrap(np.array([c[1] for c in sel])) if sel else np.zeros(0)
        prof = [usable(c, self.mp) for c in sel]
        keep = [j for j in range(len(sel)) if len(prof[j][0]) and not np.all(np.isnan(prof[j][0]))]
        return sel, lon, prof, keep


def check(i):
    with World(i) as w:
        F, casts = w.F, w.casts
        boxes = i['boxes']
        if not casts:
            try:
                with quiet(): r = F.get_region_hist_locations(boxes.copy(), i['name'], w.cfg)
            except Exception: r = None
            need(r is None or len(r[0]) == 0, f'casts offered from an empty archive: {r}')
            raise Skip('no casts')
        la, lo, da = call(F.get_region_hist_locations, boxes.copy(), i['name'], w.cfg)
        need(len(la) == len(lo) == len(da) == len(casts), f'{len(la)} casts offered, the enabled files hold {len(casts)} of other floats')
        need(close(la, [c[0] for c in casts], 1e-12, 1e-12), 'latitudes offered')
        wl = A.wrap(np.array([c[1] for c in casts]))
        need(close(lo, wl, 1e-12, 1e-9), f'longitudes offered {np.asarray(lo).tolist()}, expected {wl.tolist()}')
        ed = [c07.expect(int(c[2])) for c in casts]
        need(close(da, ed, 1e-12, 1e-8), 'dates offered')
        idx = i['idx']
        if len(idx) and (idx.min() < 0 or idx.max() >= len(casts)): raise Skip()
        sel, lon, prof, keep = w.expect(idx)
        if not keep:
            raise Skip('nothing retrievable')
        for rep in range(2):
            r = call(F.get_region_data, boxes.copy(), i['name'], w.cfg, idx.copy(), i['fp'].copy())
            need(np.asarray(r['grid_lat']).shape == (len(keep),), f'{np.asarray(r["grid_lat"]).shape} casts returned for {len(keep)} requested with data (numbers {np.sort(idx).tolist()})')
            need(close(r['grid_lat'], [sel[j][0] for j in keep], 1e-12, 1e-12), f'latitudes returned {np.asarray(r["grid_lat"]).tolist()}, offered {[sel[j][0] for j in keep]}')
            # a longitude may differ by a whole turn: wrapping looks at the selected casts only
            need(close(np.mod(r['grid_long'], 360), np.mod([sel[j][1] for j in keep], 360), 1e-12, 1e-9), 'longitudes returned')
            need(close(r['grid_dates'], [c07.expect(int(sel[j][2])) for j in keep], 1e-12, 1e-8), 'dates returned')
            for q, j in enumerate(keep):
                p = prof[j][0]
                got = np.asarray(r['grid_pres'])[:, q]
                need(same(got[:len(p)], p) and np.all(np.isnan(got[len(p):])), f'cast {q} returned carries the pressures of another cast')
