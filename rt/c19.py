import numpy as np, os
from common import *
from importlib import import_module
N = 2000
RULE = 'floats warm/cold/in between at 300 dbar north or south of 30S, 1-8 casts with missing levels and repeated pressures, real and random front tables'
KEYS = ['S_meanS', 'S_meanN', 'S_stdS', 'T_stdS', 'S_stdN', 'T_stdN', 'T_meanS', 'T_meanN']


def gen(rng, k):
    S, L = int(rng.integers(1, 9)), int(rng.integers(3, 13))
    lat = float(rng.choice([-30.5, -45, -60, -30, -29.9, 10, 60])) if k % 3 else -50.

    def prof(L, base):
        p = np.sort(rng.uniform(0, 1500, L)).round(1) + np.arange(L)
        if rng.random() < .7: p[0] = rng.uniform(0, 200)
        p = np.sort(p)
        t = base + rng.uniform(-1, 3) * (1 - p / 300) * float(rng.choice([0, .5, 1])) + rng.normal(0, .05, L)
        return p, t.round(4), rng.normal(34.3, .2, L).round(3)
    gp, gt, gs = np.zeros((L, S)), np.zeros((L, S)), np.zeros((L, S))
    for s in range(S): gp[:, s], gt[:, s], gs[:, s] = prof(L, float(rng.choice([1, 2.5, 4, 5.5, 8])))
    for a in (gp, gt, gs): a[rng.random((L, S)) < .06] = np.nan
    if k % 5 == 0: gp[1, 0] = gp[0, 0]
    base = float(rng.choice([1, 2, 4, 4, 6, 9]))
    fp, ft, fs = prof(int(rng.integers(3, 15)), base)
    if k % 4 == 0: fp[rng.random(len(fp)) < .15] = np.nan
    if k % 7 == 0: fp[1] = fp[0]
    # a front definition: depths 0..2000 by 50 with temperatures falling with depth
    D = np.arange(0, 2001, 50.)
    tn = 9 - D / 350; ts = 2.5 + D / 4000.
    sn = 34.9 - D / 8000; ss = 33.9 + D / 2500
    w = float(rng.choice([.5, 2., 5.]))
    tab = dict(S_meanS=ss, S_meanN=sn, S_stdS=np.full(41, .2 * w) * 0 + .1, T_stdS=np.full(41, w), S_stdN=np.full(41, .2 * w), T_stdN=np.full(41, .1), T_meanS=ts, T_meanN=tn, Deph=D)
    if k % 6 == 5:
        # a float inside one envelope only
        tt = np.interp(fp, D, tn) if k % 12 == 5 else np.full(len(fp), 4.); ft = np.where(np.isnan(fp), ft, tt).round(4)
    if k % 3 == 1:
        fp = np.arange(0., 1900., 50.)
        q = fp
        if k % 2: ft = np.interp(q, D, 5.2 - D / 900); fs = np.interp(ft, np.flip(tn), np.flip(sn))
        else: fs = np.interp(q, D, ss); ft = np.interp(q, D, np.minimum(4.5, ts + .4 * w))
        ft = ft.round(5); fs = fs.round(5)
    g = dict(grid_sal=gs, grid_ptmp=gt, grid_pres=gp, grid_lat=rng.uniform(-60, -30, S), grid_long=rng.uniform(0, 360, S), grid_dates=rng.uniform(1990, 2020, S), grid_z=rng.uniform(500, 5000, S))
    return dict(g=g, lat=lat, fp=fp, ft=ft, fs=fs, tab=tab)


def interp(x, xp, fp):
    return np.interp(x, xp, fp, left=np.nan, right=np.nan)


def side(t):
    return 1 if t > 5 else (-1 if t < 3 else 0)


def classify(i):
    """1 north, -1 south, 0 not classified, None when a comparison is on its boundary"""
    ok = ~np.isnan(i['fp']) & ~np.isnan(i['ft'])
    p, t, s = i['fp'][ok], i['ft'][ok], i['fs'][ok]
    if len(p) <= 2 or np.any(np.diff(p) == 0) or not p.min() < 300 < p.max(): return 0
    t3 = float(interp(300, p, t))
    if np.isnan(t3): return 0
    if min(abs(t3 - 5), abs(t3 - 3)) < 1e-6: return None
    if side(t3): return side(t3)
    T = {k: np.asarray(v, float).ravel()[2:] for k, v in i['tab'].items()}
    D = T['Deph']
    si, ti = interp(D, p, s), interp(D, p, t)
    ninf = interp(ti, np.flip(T['T_meanN'] - T['T_stdN']), np.flip(T['S_meanN'] - T['S_stdN']))
    nsup = interp(ti, np.flip(T['T_meanN'] + T['T_stdN']), np.flip(T['S_meanN'] + T['S_stdN']))
    sinf = interp(si, T['S_meanS'] - T['S_stdS'], T['T_meanS'] - T['T_stdS'])
    ssup = interp(si, T['S_meanS'] + T['S_stdS'], T['T_meanS'] + T['T_stdS'])
    use = (D > 150) & (D < 1700) & ~np.isnan(si) & ~np.isnan(sinf) & ~np.isnan(ssup) & ~np.isnan(ninf) & ~np.isnan(nsup)
    if not use.any(): return 0
    m = np.concatenate([np.abs(ti - sinf)[use], np.abs(ti - ssup)[use], np.abs(si - ninf)[use], np.abs(si - nsup)[use]])
    if np.nanmin(m) < 1e-7: return None
    south = bool(np.all((ti > sinf)[use] & (ti < ssup)[use])); north = bool(np.all((si > ninf)[use] & (si < nsup)[use]))
    return 0 if south == north else (1 if north else -1)


def cast_side(g, s):
    import gsw
    p, t, a = g['grid_pres'][:, s], g['grid_ptmp'][:, s], g['grid_sal'][:, s]
    sa = gsw.SA_from_SP(a, p, g['grid_long'][s], g['grid_lat'][s])
    tm = gsw.t_from_CT(sa, gsw.CT_from_pt(sa, t), p)
    # levels with data whose next level has another pressure (the last one has no next)
    ok = [j for j in range(len(p) - 1) if not (np.isnan(p[j]) or np.isnan(t[j]) or np.isnan(a[j])) and p[j + 1] != p[j]]
    if len(ok) <= 2 or np.any(np.diff(p[ok]) == 0) or not p[ok].min() < 300 < p[ok].max(): return 0
    t3 = float(interp(300, p[ok], tm[ok]))
    if min(abs(t3 - 5), abs(t3 - 3)) < 1e-6: return None
    return side(t3)


def check(i):
    F = import_module('pyowc.data.fetchers')
    from scipy.io import savemat
    g = i['g']
    S = len(g['grid_long'])
    keep = [s for s in range(S)]
    kind = 'north of 30S'
    if i['lat'] < -30:
        with quiet():
            c = classify(i)
            if c is None: raise Skip('boundary')
            kind = {1: 'north of the front', -1: 'south of the front', 0: 'not classified'}[c]
            if c:
                sd = [cast_side(g, s) for s in range(S)]
                if None in sd: raise Skip('boundary')
                keep = [s for s in range(S) if sd[s] == c]
    with scratch() as d:
        savemat(os.path.join(d, 'saf.mat'), {k: np.asarray(v, float).reshape(1, -1) for k, v in i['tab'].items()})
        cfg = base_config(CONFIG_DIRECTORY=d, CONFIG_SAF='saf.mat')
        gi = {k: v.copy() for k, v in g.items()}
        fl = dict(float_lat=i['lat'], float_pres=i['fp'].copy(), float_tmp=i['ft'].copy(), float_sal=i['fs'].copy())
        r = call(F.frontal_constraint_saf, cfg, gi, fl)
    need(all(same(gi[k], g[k]) for k in g) and same(fl['float_pres'], i['fp']) and same(fl['float_tmp'], i['ft']) and same(fl['float_sal'], i['fs']), 'arguments altered')
    for k in g:
        e = g[k][:, keep] if g[k].ndim == 2 else g[k][keep]
        need(same(r[k], e), f'float at {i["lat"]} {kind}: {k} has shape {np.asarray(r[k]).shape}, expected the casts {keep} of {S}' + ('' if np.asarray(r[k]).shape != e.shape else ' (same number of casts, other values)'))
