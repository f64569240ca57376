import numpy as np, os
from common import *
from importlib import import_module
from scipy.io import savemat, loadmat
import world as W, archive as A
N = 28
RULE = 'histories of 1-3 mapping runs with a growing/re-ordered source, more levels, other settings, older file layout, float sub-directory; each column compared with a run of its profile alone'
COLS = ['la_ptmp', 'la_mapped_sal', 'la_mapsalerrors', 'la_noise_sal', 'la_signal_sal']
SC = dict(scale_long_large='MAPSCALE_LONGITUDE_LARGE', scale_lat_large='MAPSCALE_LATITUDE_LARGE', scale_long_small='MAPSCALE_LONGITUDE_SMALL', scale_lat_small='MAPSCALE_LATITUDE_SMALL',
          scale_phi_large='MAPSCALE_PHI_LARGE', scale_phi_small='MAPSCALE_PHI_SMALL', scale_age_large='MAPSCALE_AGE_LARGE', scale_age_small='MAPSCALE_AGE_SMALL', use_pv='MAP_USE_PV', use_saf='MAP_USE_SAF',
          p_delta='MAP_P_DELTA', p_exclude='MAP_P_EXCLUDE')


def gen(rng, k):
    P, L = int(rng.integers(2, 5)), int(rng.integers(3, 6))
    lon = float(rng.choice([60, 5, 355, 0, 120])); lat = float(rng.choice([-50, -42, 10]))
    nos = np.cumsum(rng.integers(1, 4, P))
    if k % 2: nos = nos[rng.permutation(P)]
    src, files = W.make(rng, lon, lat, P, L, int(rng.integers(14, 30)), base=float(rng.choice([34.3, 29.5, 39.7])), nos=nos)
    if k % 4 == 1: src['LAT'][0, -1] = np.nan
    R = int(rng.integers(1, 4)) if k % 3 else 3
    cut = sorted(int(x) for x in rng.integers(1, P + 1, R)); cut[-1] = P
    # source columns in the order of each run: a prefix, re-ordered on odd cases
    runs = []
    for r, c in enumerate(cut):
        cols = list(range(c))
        if k % 3 == 0: cols = [cols[j] for j in rng.permutation(c)]
        lev = L if (r or k % 2 == 0) else L - 1
        kw = dict(MAPSCALE_LONGITUDE_LARGE=float(8 + r), MAPSCALE_LATITUDE_LARGE=float(5 + r), MAPSCALE_LONGITUDE_SMALL=float(4 + r), MAPSCALE_LATITUDE_SMALL=float(3 + r), MAPSCALE_AGE_LARGE=20. + r, MAPSCALE_AGE_SMALL=10. - r,
                  MAPSCALE_PHI_LARGE=.5 + r, MAPSCALE_PHI_SMALL=.1 + r, MAP_P_DELTA=250. + 10 * r, MAP_P_EXCLUDE=100. + r, MAP_USE_PV=int((k + r) % 3 == 0))
        runs.append(dict(cols=cols, lev=lev, cfg=kw))
    old = ['', 'nosaf'][k % 2]
    return dict(src=src, files=files, runs=runs, sub=str(rng.choice(['', 'sub', '/sub/'])), old=old)


def cut_src(src, cols, lev):
    return {q: (v[:, cols] if q in ('PROFILE_NO', 'LAT', 'LONG', 'DATES') else v[:lev][:, cols]) for q, v in src.items()}


def run(d, src, cfg, sub, name='F7'):
    C = import_module('pyowc.calibration')
    savemat(os.path.sep.join([cfg['FLOAT_SOURCE_DIRECTORY'], sub, name + '.mat']), src)
    call(C.update_salinity_mapping, sub, cfg, name)
    p = os.path.sep.join([cfg['FLOAT_MAPPED_DIRECTORY'], sub, 'map_' + name + '.mat'])
    need(os.path.exists(p), 'no mapped file written')
    return loadmat(p), p


def alone(d, i, j, r):
    """mapping of source column j by itself with the settings of run r"""
    e = os.path.join(d, f'alone{j}_{r["cfg"]["MAPSCALE_LONGITUDE_LARGE"]}')
    if not os.path.isdir(e): W.dirs(e)
    cfg = W.config(e, **r['cfg']); cfg['HISTORICAL_DIRECTORY'] = os.path.join(d, 'h')
    m, _ = run(e, cut_src(i['src'], [j], r['lev']), cfg, '')
    return m


def check(i):
    src = i['src']
    sub = i['sub']
    with scratch() as d:
        W.dirs(d, sub)
        cfg0 = W.config(d)
        A.write(cfg0['HISTORICAL_DIRECTORY'], cfg0, i['files'])
        born = {}
        prev = None
        for n, r in enumerate(i['runs']):
            cfg = W.config(d, **r['cfg'])
            if prev is not None and i['old'] == 'nosaf':
                m = loadmat(path); m = {k: v for k, v in m.items() if not k.startswith('__') and k != 'use_saf'}
                savemat(path, m)
            s = cut_src(src, r['cols'], r['lev'])
            m, path = run(d, s, cfg, sub)
            nos = s['PROFILE_NO'].ravel()
            for j in r['cols']:
                born.setdefault(j, (n, r))
            got = m['la_profile_no'].ravel().tolist()
            need(got == sorted(nos.tolist()), f'run {n}: columns of profiles {got}, float has {sorted(nos.tolist())}')
            for q in COLS:
                need(m[q].shape == (r['lev'], len(got)), f'run {n}: {q} has shape {m[q].shape}')
            for q in SC: need(m[q].size == len(got), f'run {n}: {q} has {m[q].size} entries for {len(got)} profiles')
            need(not np.any(m['la_mapped_sal'] < 30) and not np.any(m['la_mapped_sal'] > 40), 'mapped salinity outside 30-40 stored')
            byno = {src['PROFILE_NO'][0, j]: j for j in r['cols']}
            for c, p in enumerate(got):
                j = byno[p]; bn, br = born[j]
                if bn < n:
                    pc = prev['la_profile_no'].ravel().tolist().index(p)
                    for q in COLS:
                        e = np.full(r['lev'], np.nan); o = prev[q][:, pc]; e[:len(o)] = o
                        need(same(m[q][:, c], e), f'run {n}: stored {q} of profile {p} altered from {e.tolist()} to {m[q][:, c].tolist()}')
                    for q in SC:
                        if q == 'use_saf' and i['old'] == 'nosaf': continue
                        need(same(m[q].ravel()[c], prev[q].ravel()[pc]), f'run {n}: stored {q} of profile {p} altered')
                else:
                    a = alone(d, i, j, br)
                    for q in COLS:
                        need(close(m[q][:, c], a[q][:, 0], 1e-9, 1e-10), f'run {n}: {q} of profile {p} is {m[q][:, c].tolist()}, mapping the profile alone gives {a[q][:, 0].tolist()}')
                    mapped = ~np.isnan(m['la_ptmp'][:, c])
                    need(same(m['la_ptmp'][mapped, c], src['PTMP'][:r['lev'], j][mapped]), f'run {n}: la_ptmp of profile {p} is not its own temperature')
                    for q, kk in SC.items():
                        v = float(m[q].ravel()[c]); e = float(cfg[kk]) if mapped.any() else np.nan
                        need(same(v, e), f'run {n}: {q} of profile {p} is {v}, expected {e}')
            if prev is not None and prev['selected_hist'].size:
                a = set(map(tuple, prev['selected_hist'].tolist())); b = set(map(tuple, m['selected_hist'].tolist()))
                need(a <= b, 'stored selected points lost')
            if m['selected_hist'].size:
                need(np.all(np.diff(m['selected_hist'][:, 2]) >= 0), 'selected points not sorted by profile')
            prev = m
        # a further run with nothing to add leaves everything as it is
        m, path = run(d, s, cfg, sub)
        for q in COLS + list(SC) + ['la_profile_no', 'selected_hist']:
            need(same(np.squeeze(m[q]), np.squeeze(prev[q])), f're-running without new profiles alters {q}')
