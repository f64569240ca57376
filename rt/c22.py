import numpy as np, os, math
from common import *
from importlib import import_module
from scipy.io import savemat, loadmat
import world as W, archive as A, c02, c07, c19
N = 80
RULE = 'whole mappings of 1-2 profiles x 3-6 levels against 12-40 casts, floats either side of the 0/360 meridian, outliers, PV on/off, mapped salinities around the limits 30 and 40, front separation on/off'


def gen(rng, k):
    lon = float(rng.choice([60, 5, 355, .2, 15, 25, 345, 200])); lat = float(rng.choice([-50, -42, 10, 35]))
    saf = k % 5 == 4
    if saf: lat = float(rng.choice([-50, -42]))
    base = float(rng.choice([29.6, 38.4])) if k % 7 == 3 else 34.3
    src, files = W.make(rng, lon, lat, int(rng.integers(1, 3)), int(rng.integers(3, 7)), int(rng.integers(12, 40)) + 20 * saf, base=base, one_side=bool(k % 4 == 3 and not saf))
    if saf:                                                 # casts and float on either side of the front
        for f in files:
            q = rng.random(f[2]['ptmp'].shape[1]) < .4
            for t in ('ptmp', 'temp'): f[2][t][:, q] -= float(rng.choice([3.5, 5.5, 6.5]))
        for t in ('TEMP', 'PTMP'): src[t][:, 0] -= float(rng.choice([0, 0, 4.2, 6.5]))
    if k % 2:
        f = files[int(rng.integers(0, len(files)))][2]; f['sal'][:, 0] += float(rng.choice([1.5, -1.5]))
    if k % 3 == 1: src['PRES'] = np.round(src['PRES'])
    excl = float(rng.choice([0, 100, 400]))
    if k % 3 == 1: excl = float(rng.choice(src['PRES'][np.isfinite(src['PRES'])]))
    if k % 3 == 0:
        for f in files: f[2]['sal'][-2:] = np.nan
    if k % 11 == 6:                                         # a profile with a single level
        excl = 0.
        for t in ('PRES', 'TEMP', 'PTMP', 'SAL'): src[t][1:, 0] = np.nan
        src['PRES'][0, 0] = p = round(float(rng.uniform(200, 900)), 1); src['TEMP'][0, 0] = t = round(float(W.tfun(p, src['LAT'][0, 0])), 4); src['PTMP'][0, 0] = t - .02
        src['SAL'][0, 0] = round(float(W.sfun(t, src['LAT'][0, 0], src['LONG'][0, 0], base)), 4)
    return dict(src=src, files=files, cfg=dict(MAP_USE_SAF=int(saf), MAP_USE_PV=int(k % 2), MAP_P_DELTA=float(rng.choice([100, 250, 500])), MAP_P_EXCLUDE=excl,
                MAPSCALE_LONGITUDE_LARGE=8., MAPSCALE_LONGITUDE_SMALL=4., MAPSCALE_LATITUDE_LARGE=float(rng.choice([4, 6])), MAPSCALE_LATITUDE_SMALL=2., MAPSCALE_PHI_LARGE=.5, MAPSCALE_PHI_SMALL=.2, MAPSCALE_AGE_LARGE=float(rng.choice([20, 5])), MAPSCALE_AGE_SMALL=10.))


def zof(lon, lat):
    """bilinear interpolation of the filed sea floor (whole metres) at the position"""
    lon = (lon + 180) % 360 - 180
    x0, y0 = np.floor(lon * 12), np.floor(lat * 12)
    u, v = lon * 12 - x0, lat * 12 - y0
    f = lambda x, y: float(np.int16(-W.depth(y / 12, (x % 4320) / 12)))
    return -((f(x0, y0) * (1 - u) + f(x0 + 1, y0) * u) * (1 - v) + (f(x0, y0 + 1) * (1 - u) + f(x0 + 1, y0 + 1) * u) * v)


def omap(sal, g, d, s_lon, s_lat, age, sv, nv, phi, use):
    def cov(a, b):
        q = ((a[:, None, 0] - b[None, :, 0]) / s_lat) ** 2 + ((a[:, None, 1] - b[None, :, 1]) / s_lon) ** 2 + ((a[:, None, 2] - b[None, :, 2]) / age) ** 2
        if use:
            pa = np.array([pv(x[0], x[3]) for x in a]); pb = np.array([pv(x[0], x[3]) for x in b])
            q = q + ((pa[:, None] - pb[None, :]) / np.sqrt(pa[:, None] ** 2 + pb[None, :] ** 2) / phi) ** 2
        return np.exp(-q)
    K = sv * cov(d, d); Kg = sv * cov(g, d); M = K + nv * np.eye(len(sal))
    if np.linalg.cond(M) > 1e6: return None
    o = np.linalg.solve(M, np.ones(len(sal))); s = o.sum(); m = (np.linalg.solve(M, sal)).sum() / s
    w = np.linalg.solve(M, sal - m)
    a = np.linalg.solve(M, Kg.T)
    return (Kg @ w + m)[0], (sv - (Kg @ a)[0, 0] + (1 - a.sum()) ** 2 / s), K @ w + m


def expected(i, j, casts, cfg):
    """dict level -> (mapped salinity, error, noise, signal) of source profile j; None: undecided level"""
    s = i['src']; L = s['SAL'].shape[0]
    la, lo, da = s['LAT'][0, j], s['LONG'][0, j], s['DATES'][0, j]
    fz = zof(lo, la)
    use = cfg['MAP_USE_PV']
    near = lambda x: (x - lo + 180) % 360 - 180 + lo
    sel = []
    for c in casts:
        r = 0.
        if use:
            a, b = pv(c[0], zof(c[1], c[0])), pv(la, fz); r = ((b - a) / math.hypot(a, b) / cfg['MAPSCALE_PHI_LARGE']) ** 2
        e = (near(c[1]) - lo) ** 2 / (3 * cfg['MAPSCALE_LONGITUDE_LARGE']) ** 2 + (c[0] - la) ** 2 / (3 * cfg['MAPSCALE_LATITUDE_LARGE']) ** 2 + r
        if abs(e - 1) < 1e-6: raise Skip('on the ellipse')
        if e < 1: sel.append(c)
    if len(sel) > cfg['CONFIG_MAX_CASTS']: raise Skip()
    mp = np.nanmax(s['PRES'][:, j]) + cfg['MAP_P_DELTA']
    prof = [c02.usable(c, mp) for c in sel]
    if cfg.get('MAP_USE_SAF') and la < -30:
        with quiet():
            side = c19.classify(dict(fp=s['PRES'][:, j], ft=s['TEMP'][:, j], fs=s['SAL'][:, j], tab=W.front()))
            if side is None: raise Skip('front boundary')
            if side:
                on = []
                for c, (p, sa, t) in zip(sel, prof):
                    if len(p) == 0: on.append(0); continue
                    cs = []
                    for q in (p, np.append(p, np.nan)):
                        e = [np.nan] * (len(q) - len(p))
                        cs.append(c19.cast_side(dict(grid_pres=q[:, None], grid_ptmp=np.append(t, e)[:, None], grid_sal=np.append(sa, e)[:, None], grid_long=[c[1]], grid_lat=[c[0]]), 0))
                    if None in cs or cs[0] != cs[1]: raise Skip('front boundary')
                    on.append(cs[0])
                if on.count(side) > 5: sel, prof = [c for c, o in zip(sel, on) if o == side], [c for c, o in zip(prof, on) if o == side]
    out = {}
    for n in range(L):
        fs, ft, fp = s['SAL'][n, j], s['PTMP'][n, j], s['PRES'][n, j]
        if np.isnan(fs) or not fp >= cfg['MAP_P_EXCLUDE'] or np.isnan(ft): continue
        rows = []
        for c, (p, sa, t) in zip(sel, prof):
            k = np.isfinite(p) & np.isfinite(sa) & np.isfinite(t); p, sa, t = p[k], sa[k], t[k]
            cand = [(p[q] + w * (p[q + 1] - p[q]), sa[q] + w * (sa[q + 1] - sa[q])) for q in range(len(t) - 1) if (t[q] - ft) * (t[q + 1] - ft) <= 0 and t[q] != t[q + 1] for w in [(ft - t[q]) / (t[q + 1] - t[q])]]
            if not cand: continue
            b = min(cand, key=lambda x: abs(x[0] - fp))
            if abs(abs(b[0] - fp) - cfg['MAP_P_DELTA']) < 1e-6: raise Skip()
            if abs(b[0] - fp) < cfg['MAP_P_DELTA']: rows.append((b[1], c[0], near(c[1]), c07.expect(int(c[2])), zof(c[1], c[0])))
        if len(rows) <= 5: continue
        R = np.array(rows)
        dev = np.abs(R[:, 0] - R[:, 0].mean()) / np.sqrt(R[:, 0].var())
        if np.any(np.abs(dev - 3) < 1e-6): raise Skip()
        R = R[~(dev > 3)]
        D = (R[:, None, 1] - R[None, :, 1]) ** 2 + (R[:, None, 2] - R[None, :, 2]) ** 2
        D[D == 0] = np.inf
        nv = 0. if not np.isfinite(D).any() else np.mean((R[:, 0] - R[D.argmin(axis=1), 0]) ** 2) / 2
        sv = R[:, 0].var()
        g = np.array([[la, lo, da, fz]]); d = R[:, 1:]
        if nv <= 0 or sv <= 0: out[n] = None; continue
        a = omap(R[:, 0], g, d, cfg['MAPSCALE_LONGITUDE_LARGE'], cfg['MAPSCALE_LATITUDE_LARGE'], cfg['MAPSCALE_AGE_LARGE'], sv, nv, cfg['MAPSCALE_PHI_LARGE'], use)
        if a is None: out[n] = None; continue
        res = R[:, 0] - a[2]
        b = omap(res, g, d, cfg['MAPSCALE_LONGITUDE_SMALL'], cfg['MAPSCALE_LATITUDE_SMALL'], cfg['MAPSCALE_AGE_SMALL'], res.var(), nv, cfg['MAPSCALE_PHI_SMALL'], use)
        if b is None: out[n] = None; continue
        out[n] = (a[0] + b[0], math.sqrt(max(a[1], 0) + max(b[1], 0)), nv, sv)
    return out


def check(i):
    C = import_module('pyowc.calibration')
    s = i['src']
    with scratch() as d:
        W.dirs(d)
        cfg = W.config(d, **i['cfg'])
        A.write(cfg['HISTORICAL_DIRECTORY'], cfg, i['files'])
        savemat(os.path.join(d, 's', 'F7.mat'), s)
        call(C.update_salinity_mapping, '', cfg, 'F7')
        m = loadmat(os.path.join(d, 'm', 'map_F7.mat'))
    wmo = loadmat(os.path.join(W.const_dir(), 'wmo_boxes.mat'))
    F = import_module('pyowc.core.finders')
    n = 0
    for j in range(s['SAL'].shape[1]):
        la, lo = s['LAT'][0, j], s['LONG'][0, j]
        cols = {int((lo + a) % 360 // 10) for a in (.01, 10.01, -9.99, 20.01, -19.99)}; rows = {min(17, max(0, int((90 - la - a) // 10))) for a in (.01, 10.01, -9.99, 20.01, -19.99)}
        boxes = [[1000. + c * 18 + r, 1, 0, 1] for c in sorted(cols) for r in sorted(rows)]
        casts = A.offered(boxes, i['files'], 'F7')
        if not casts: raise Skip()
        e = expected(i, j, casts, cfg)
        for lev in range(s['SAL'].shape[0]):
            g = [float(m[q][lev, j]) for q in ('la_mapped_sal', 'la_mapsalerrors', 'la_noise_sal', 'la_signal_sal', 'la_ptmp')]
            if lev not in e:
                need(np.all(np.isnan(g)), f'level {lev} of profile {j} (pressure {s["PRES"][lev, j]}) has values {g}, expected missing: too few historical salinities, no data or too shallow'); continue
            if e[lev] is None: continue
            n += 1
            x = list(e[lev])
            if min(abs(x[0] - 30), abs(x[0] - 40)) < 1e-4: continue
            if not 30 < x[0] < 40: x[0] = np.nan
            need(close(g[:4], x, 1e-5, 1e-6) and g[4] == s['PTMP'][lev, j], f'level {lev} of profile {j} at ({la},{lo}): mapped salinity, error, noise, signal {g[:4]}, expected {x}')
    if n == 0: raise Skip('nothing mapped')
