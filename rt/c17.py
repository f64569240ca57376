import numpy as np, os
from common import *
from importlib import import_module
from scipy.io import savemat, loadmat
import world as W
N = 60
RULE = '3-14 profiles x 12-25 levels split over 1-3 series with flagged-out profiles and a series without mapped data, bounds, break limits -1..2 (one for all, or a column/row of one per series)'
ERR = []


def gen(rng, k):
    P, L = int(rng.integers(3, 15)), int(rng.integers(12, 26))
    nos = np.cumsum(rng.integers(1, 4, P)).astype(float)
    pres = np.sort(rng.uniform(10, 1900, (L, P)), axis=0).round(1) + np.arange(L)[:, None]
    pt = (15 * np.exp(-pres / 600) + 1.5 + rng.normal(0, .05, (L, P))).round(4)
    sal = (34.3 + .05 * pt + rng.normal(0, .01, (L, P)) + .002 * np.arange(P)).round(4)
    sal += (rng.choice([0, .01, .03]) * np.abs(np.arange(P) - P // 2)).round(4)
    gap = rng.random((L, P)) < .05
    for a in (sal, pt): a[gap] = np.nan
    ms = (34.3 + .05 * pt + rng.normal(0, .01, (L, P)) + (.03 * np.sin(np.arange(P)))).round(4)
    er = rng.uniform(.005, .02, (L, P)).round(5); mp = pt.copy()
    un = (rng.random((L, P)) < .1) | (pres < 150)
    for a in (ms, er, mp): a[un] = np.nan
    S = 1 + k % 3
    cs = rng.integers(0 if rng.random() < .6 else 1, S + 1, P).astype(float)
    if k % 2 == 0: cs = np.sort(cs)
    if not cs.any(): cs[:] = 1
    if k % 5 == 4:
        bad = cs == cs[np.nonzero(cs)[0][0]]
        for a in (ms, er, mp): a[:, bad] = np.nan
    n = len(set(cs[cs > 0]))
    mb = np.array([[int(rng.integers(-1, 3))]]) if rng.random() < .5 else rng.integers(-1, 3, (n, 1))
    if rng.random() < .3: mb = mb.T
    lon = float(rng.choice([60, 5, 200, 340]))
    e = np.zeros((0, 0))
    return dict(src=dict(PROFILE_NO=nos.reshape(1, -1), LAT=(-45 + .1 * np.arange(P) + rng.normal(0, .1, P)).round(3).reshape(1, -1), LONG=(lon + .1 * np.arange(P)).round(3).reshape(1, -1), PRES=pres, PTMP=pt, SAL=sal),
                mp=dict(la_mapped_sal=ms, la_mapsalerrors=er, la_ptmp=mp, selected_hist=np.array([[10., -45., 1.]])),
                cs=dict(calseries=cs.reshape(1, -1), max_breaks=mb, breaks=e, calib_profile_no=nos.reshape(1, -1), use_theta_lt=np.array([[9.]]) if rng.random() < .3 else e, use_theta_gt=np.array([[2.]]) if rng.random() < .3 else e,
                        use_pres_lt=np.array([[1700.]]) if rng.random() < .3 else e, use_pres_gt=np.array([[200.]]) if rng.random() < .3 else e, use_percent_gt=np.array([[.5]])),
                pv=int(k % 4 == 0), scale=float(rng.choice([.02, .02, 4])), sub=str(rng.choice(['', 'sub', '/sub/'])))


def coords(i, C, cfg):
    s = i['src']
    lo = s['LONG'][0]
    l2 = lo - 360 if np.any(lo > 180) else lo
    from c22 import zof
    return np.column_stack((lo, s['LAT'][0], [zof(x, y) for x, y in zip(l2, s['LAT'][0])]))


def series(i, cfg, xyz, v, mb):
    """factor, its error, slopes and profile means of one series by itself"""
    St, F = import_module('pyowc.core.stats'), import_module('pyowc.core.finders')
    from gsw import C_from_SP
    s, m, c = i['src'], i['mp'], i['cs']
    J = np.nonzero(c['calseries'][0] == v)[0]
    sub = lambda a: a[:, J].copy()
    r = call(F.find_10thetas, sub(s['SAL']), sub(s['PTMP']), sub(s['PRES']), sub(m['la_ptmp']), c['use_theta_lt'], c['use_theta_gt'], c['use_pres_lt'], c['use_pres_gt'], c['use_percent_gt'])
    idx = np.asarray(r[2], float)
    T = {q: np.full((10, len(J)), np.nan) for q in 'stme'}
    for a, j in enumerate(J):
        g = [int(x) for x in idx[:, a] if x >= 0]
        for q, M in zip('stme', (s['SAL'], s['PTMP'], m['la_mapped_sal'], m['la_mapsalerrors'])): T[q][:len(g), a] = M[g, j]
    with quiet():
        ic = C_from_SP(T['s'], T['t'], 0); mc = C_from_SP(T['m'], T['t'], 0); m1 = C_from_SP(T['m'] + T['e'] / 100, T['t'], 0)
        y = mc / ic; e = 100 * np.abs(mc - m1) / ic
        cov = call(St.build_cov, T['t'], xyz[J], cfg)
    return J, call(St.fit_cond, np.tile(s['PROFILE_NO'][:, J], (10, 1)), y, e, cov, 'max_no_breaks', mb)


def check(i):
    C = import_module('pyowc.calibration')
    from gsw import C_from_SP, SP_from_C
    s, c = i['src'], i['cs']
    with scratch() as d:
        W.dirs(d); W.dirs(d, i['sub'])
        cfg = W.config(d, MAP_USE_PV=i['pv'], MAPSCALE_LONGITUDE_SMALL=i['scale'], MAPSCALE_LATITUDE_SMALL=i['scale'])
        p = lambda k, pre='': os.path.sep.join([cfg[k], i['sub'], pre + 'F7.mat'])
        savemat(p('FLOAT_SOURCE_DIRECTORY'), s); savemat(p('FLOAT_MAPPED_DIRECTORY', 'map_'), i['mp']); savemat(p('FLOAT_CALIB_DIRECTORY', 'calseries_'), c)
        at = []
        if hasattr(C, 'build_cov'):
            cov0 = C.build_cov
            def cov(*a, **k):
                if len(a) > 1 and not k: at.append(np.array(a[1], float))
                return cov0(*a, **k)
            C.build_cov = cov
        try: call(C.calc_piecewisefit, i['sub'], 'F7', cfg)
        finally:
            if hasattr(C, 'build_cov'): C.build_cov = cov0
        out = p('FLOAT_CALIB_DIRECTORY', 'cal_')
        need(os.path.exists(out), 'no calibration file written')
        m = loadmat(out)
        xyz = coords(i, C, cfg)
        for a in at:
            need(a.ndim != 2 or a.shape[1] != 3 or all(any(close(r, x, 1e-9, 1e-6) for x in xyz) for r in a), f'covariance of the fit for positions {a.tolist()}, the profiles are at {xyz.tolist()}')
        L, P = s['SAL'].shape
        nan = lambda: np.full((1, P), np.nan)
        fac, td, st, rm = nan(), nan(), nan(), nan()
        vals = sorted(set(c['calseries'][0]) - {0.})
        mb = c['max_breaks'].ravel()
        for q, v in enumerate(vals):
            J, f = series(i, cfg, xyz, v, int(mb[0] if len(mb) == 1 else mb[q]))
            for a, b in ((fac, f[1]), (td, f[3]), (st, f[5]), (rm, f[6])): a[0, J] = np.asarray(b, float).ravel()
            fe = np.broadcast_to(np.asarray(f[2], float).ravel(), J.shape) if np.size(f[2]) == 1 else np.asarray(f[2], float).ravel()
            got = m['pcond_factor_err'][0, J]
            need(np.array_equal(np.isnan(got), np.isnan(fe)), f'series {v}: errors of the factor missing where they should not be, or the other way round')
            if not np.any(np.isnan(fe)) and np.size(f[7]) and len(np.unique(np.round(np.diff(np.asarray(f[1]).ravel()), 9))) == 0:
                need(close(got, fe, 1e-6, 1e-12), f'series {v}: error of the factor {got}, expected {fe}')
        for q, a in (('pcond_factor', fac), ('time_deriv', td), ('sta_mean', st), ('sta_rms', rm)):
            need(close(m[q], a, 1e-6, 1e-9), f'{q} is {m[q].tolist()}, the fits of the series by themselves give {a.tolist()}')
        need(np.array_equal(m['PROFILE_NO'], s['PROFILE_NO']), 'profile numbers differ')
        on = c['calseries'][0] > 0
        with quiet():
            cond = C_from_SP(s['SAL'], s['PTMP'], 0)
            cond[:, ~on] = np.nan
            cs = SP_from_C(cond * fac, s['PTMP'], 0); fe = m['pcond_factor_err']
            ce = np.abs(cs - SP_from_C(cond * fac + cond * fe, s['PTMP'], 0))
            ss = SP_from_C(cond * st, s['PTMP'], 0); se = np.abs(ss - SP_from_C(cond * st + cond * rm, s['PTMP'], 0))
        for q, a in (('cal_SAL', cs), ('cal_COND', cond * fac), ('cal_COND_err', cond * fe), ('cal_SAL_err', ce), ('sta_SAL', ss), ('sta_SAL_err', se)):
            g = m[q]
            need(g.shape == a.shape, f'{q} has shape {g.shape}')
            if not close(g, a, 1e-6, 1e-8):
                w = np.argwhere(~((np.abs(g - a) <= 1e-8 + 1e-6 * np.abs(a)) | (np.isnan(g) & np.isnan(a))))[0]
                raise Bad(f'{q} at level {w[0]} of column {w[1]} (series {c["calseries"][0, w[1]]}) is {g[tuple(w)]}, expected {a[tuple(w)]}')
