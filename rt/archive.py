"""Synthetic historical archives written as .mat files in a scratch directory."""
import os
import numpy as np
from scipy.io import savemat


def date(rng):
    return float(f'{int(rng.integers(1990, 2021))}{int(rng.integers(1, 13)):02d}{int(rng.integers(1, 29)):02d}{int(rng.integers(0, 24)):02d}{int(rng.integers(0, 60)):02d}00')


def box(rng, n, m, lon0, lat0, kind, float_name, deep=2000., mess=.1):
    """n casts of m levels; short casts are padded with NaN at the bottom as in the real archive"""
    pres = np.sort(rng.uniform(0, deep, (m, n)), axis=0).round(1) + np.arange(m)[:, None]
    for j in range(n):
        if rng.random() < .5:
            pres[int(rng.integers(1, m + 1)):, j] = np.nan
    ptmp = (15 * np.exp(-np.nan_to_num(pres, nan=2000.) / 600) + rng.normal(0, .3, (m, n))).round(3)
    sal = rng.normal(34.7, .2, (m, n)).round(3)
    bad = np.isnan(pres); ptmp[bad] = np.nan; sal[bad] = np.nan
    for a in (pres, sal, ptmp):
        a[rng.random((m, n)) < mess] = np.nan
    lon = (lon0 + rng.uniform(0, 10, n)).round(3); lat = (lat0 + rng.uniform(0, 10, n)).round(3)
    d = dict(pres=pres, sal=sal, ptmp=ptmp, temp=ptmp + .01, lat=lat, long=lon, dates=np.array([date(rng) for _ in range(n)]))
    if kind == 3:
        names = [float_name if rng.random() < .3 else str(rng.choice(['3900001', '1' + '0' * 6, '39', '7900177'])) for _ in range(n)]
        d['source'] = [f'{s}_{int(rng.integers(1, 200))}' if rng.random() < .7 else f'coriolis/{s}' for s in names]
    return d


PREFIX = {1: 'HISTORICAL_CTD_PREFIX', 2: 'HISTORICAL_BOTTLE_PREFIX', 3: 'HISTORICAL_ARGO_PREFIX'}


def write(dirname, cfg, files):
    """files: list of [box number, kind, data]"""
    for b, kind, d in files:
        p = os.path.sep.join([dirname, cfg[PREFIX[kind]] + str(int(b)) + '.mat'])
        os.makedirs(os.path.dirname(os.path.normpath(p)), exist_ok=True)
        e = {k: v for k, v in d.items() if k != 'source'}
        for k in ('lat', 'long', 'dates'): e[k] = np.asarray(d[k], float).reshape(1, -1)
        if 'source' in d:
            s = np.empty((1, len(d['source'])), dtype=object)
            for j, x in enumerate(d['source']): s[0, j] = x
            e['source'] = s
        savemat(p, e)


def offered(boxes, files, float_name):
    """The casts in archive order: list of (lat, long, date, pres, sal, ptmp)"""
    has = {(int(b), k): d for b, k, d in files}
    out = []
    for row in boxes:
        for kind in (1, 2, 3):
            if row[kind] != 1 or (int(row[0]), kind) not in has: continue
            d = has[(int(row[0]), kind)]
            for j in range(d['pres'].shape[1]):
                if kind == 3 and float_name in str(d['source'][j]): continue
                out.append((float(d['lat'][j]), float(d['long'][j]), float(d['dates'][j]), d['pres'][:, j], d['sal'][:, j], d['ptmp'][:, j]))
    return out


def wrap(x):
    x = np.where(x < 0, x + 360, x)
    return np.where(x <= 40, x + 360, x) if np.any(x >= 320) else x
