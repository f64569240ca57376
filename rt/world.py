"""A float, its historical archive and a smooth sea floor, for checks that run the whole mapping."""
import os, atexit
import numpy as np
from scipy.io import savemat, loadmat
from common import *
import archive as A
_C = None


def depth(lat, lon):
    return 3000 + 800 * np.sin(np.radians(np.asarray(lon) * 3)) * np.cos(np.radians(np.asarray(lat) * 4))


def const_dir():
    global _C
    if _C is None:
        d = tempfile.mkdtemp(prefix='pyowc_vp_'); atexit.register(shutil.rmtree, d, True)
        la = 90 - np.arange(2161) / 12; lo = np.arange(4320) / 12
        (-depth(la[:, None], lo[None, :])).astype(np.int16).tofile(os.path.join(d, 'tbase.int'))
        t = np.zeros((648, 4), np.uint16); t[:, 0] = np.arange(648) + 1000; t[:, 1] = 1; t[:, 3] = 1
        savemat(os.path.join(d, 'wmo_boxes.mat'), {'la_wmo_boxes': t})
        savemat(os.path.join(d, base_config()['CONFIG_SAF']), {k: v.reshape(1, -1) for k, v in front().items()})
        _C = d
    return _C


def front():
    D = np.arange(0, 2001, 50.); c = lambda v: np.full(41, v)
    return dict(S_meanS=33.9 + D / 2500, S_meanN=34.9 - D / 8000, S_stdS=c(.1), T_stdS=c(2.), S_stdN=c(.4), T_stdN=c(.1), T_meanS=2.5 + D / 4000., T_meanN=9 - D / 350, Deph=D)


def boxno(lat, lon):
    return 1000 + int((lon % 360) // 10) * 18 + min(17, max(0, int((90 - lat) // 10)))


def tfun(p, lat):
    return 12 * np.exp(-p / 500) + 1.5 + .05 * (lat + 50)


def sfun(t, lat, lon, base):
    return base + .06 * t + .01 * (lat + 50) + .005 * np.sin(np.radians(lon * 20))


def make(rng, lon, lat, P, L, C, base=34.3, nos=None, spread=3., one_side=False):
    """source float with P profiles of L levels around (lon, lat) and C historical casts around it"""
    pres = np.sort(rng.uniform(20, 1600, (L, P)), axis=0).round(1)
    flat = (lat + rng.normal(0, .3, P)).round(3); flon = ((lon + rng.normal(0, .3, P)) % 360).round(3)
    temp = (tfun(pres, flat) + rng.normal(0, .05, (L, P))).round(4)
    sal = (sfun(temp, flat, flon, base) + rng.normal(0, .01, (L, P))).round(4)
    for a in (pres, temp, sal): a[rng.random((L, P)) < .06] = np.nan
    nos = np.arange(1, P + 1) if nos is None else np.asarray(nos)
    src = dict(PROFILE_NO=nos.astype(float).reshape(1, -1), LAT=flat.reshape(1, -1), LONG=flon.reshape(1, -1), DATES=rng.uniform(2005, 2008, (1, P)).round(3),
               PRES=pres, TEMP=temp, PTMP=temp - .02, SAL=sal)
    cl = lat + rng.normal(0, spread, C); cn = lon + rng.normal(0, spread, C)
    if one_side: cn = lon - 6 - np.abs(rng.normal(0, 1.2, C))
    groups = {}
    for j in range(C):
        kind = 3 if rng.random() < .3 else 1
        groups.setdefault((boxno(cl[j], cn[j]), kind), []).append(j)
    files = []
    for (b, kind), js in sorted(groups.items()):
        if len(js) < 2: js = js * 2
        m = int(rng.integers(6, 12))
        cp = np.sort(rng.uniform(0, 2200, (m, len(js))), axis=0).round(1)
        la = np.array([cl[j] for j in js]) + rng.normal(0, .02, len(js)); lo = (np.array([cn[j] for j in js]) + rng.normal(0, .02, len(js))) % 360
        # stay inside the box
        ct = (tfun(cp, la) + rng.normal(0, .05, cp.shape)).round(4); cs = (sfun(ct, la, lo, base) + rng.normal(0, .02, cp.shape)).round(4)
        for a in (cp, ct, cs): a[rng.random(a.shape) < .04] = np.nan
        d = dict(pres=cp, sal=cs, ptmp=ct, temp=ct, lat=la.round(3), long=lo.round(3), dates=np.array([A.date(rng) for _ in js]))
        if kind == 3: d['source'] = [('F7' if rng.random() < .2 else '190') + f'_{q}' for q in range(len(js))]
        files.append([b, kind, d])
    return src, files


def config(d, **kw):
    c = base_config(HISTORICAL_DIRECTORY=os.path.join(d, 'h'), FLOAT_SOURCE_DIRECTORY=os.path.join(d, 's'), FLOAT_MAPPED_DIRECTORY=os.path.join(d, 'm'), FLOAT_CALIB_DIRECTORY=os.path.join(d, 'c'),
                    CONFIG_DIRECTORY=const_dir())
    c.update(kw)
    return c


def dirs(d, sub=''):
    for x in 'hsmc':
        os.makedirs(os.path.join(d, x, sub.strip('/')), exist_ok=True)
