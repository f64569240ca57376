import numpy as np
from common import *
import archive as A
import c02
N = 600
RULE = 'as C02, with shallow floats, deep casts, many missing values and casts without any usable level; two retrievals per case'


def gen(rng, k):
    i = c02.gen(rng, k + 1000, mess=[.1, .3, .5, 0.][k % 4])
    fp = i['fp']
    m = k % 3
    if m == 0: i['fp'] = fp * .3
    if m == 1 and k % 2: i['fp'] = fp * .02; i['pd'] = 0.
    tot = len(A.offered([b for b in i['boxes'] if b[0] == b[0]], i['files'], i['name']))
    if k % 2: i['idx'] = np.arange(tot)
    i['idx2'] = rng.permutation(tot)[:max(1, tot // 2)] if tot else i['idx']
    if i['files'] and k % 4 == 3:
        d = i['files'][0][2]; d['pres'][:, 0] = np.nan
    if i['files'] and k % 8 == 5:
        d = i['files'][-1][2]; d['sal'][:, -1] = np.nan
    if i['files'] and k % 3 == 2:                       # a level exactly at the cut-off
        for f in i['files']: f[2]['pres'] = np.round(f[2]['pres'])
        p = i['files'][int(rng.integers(0, len(i['files'])))][2]['pres']; p = p[np.isfinite(p)]
        if p.size:
            m = float(rng.choice(p)); i['fp'] = np.minimum(i['fp'], 0.) + np.where(np.isnan(i['fp']), np.nan, 0.); i['fp'][int(rng.integers(0, 12))] = m - i['pd']
    i['shallow'] = float(rng.choice([.2, .5, 1.]))
    return i


def check(i):
    with c02.World(i) as w:
        F = w.F
        if not w.casts: raise Skip()
        boxes = i['boxes']
        n = 0
        for turn, idx in enumerate((i['idx'], i['idx2'], i['idx'])):
            w.mp = np.nanmax(i['fp']) * (i['shallow'] if turn == 0 else 1.) + i['pd']
            if len(idx) == 0 or idx.max() >= len(w.casts) or idx.min() < 0: continue
            sel, lon, prof, keep = w.expect(idx)
            if not keep: continue
            n += 1
            fp = i['fp'] * (i['shallow'] if turn == 0 else 1.); kfp = fp.copy(); ix = idx.copy()
            r = call(F.get_region_data, boxes.copy(), i['name'], w.cfg, ix, fp)
            need(same(fp, kfp) and same(ix, idx), 'arguments altered')
            P, S, T = (np.asarray(r[k], float) for k in ('grid_pres', 'grid_sal', 'grid_ptmp'))
            need(P.shape == S.shape == T.shape and P.shape[1] == len(keep), f'{P.shape[1]} profiles returned, {len(keep)} requested casts have a usable level')
            D = P.shape[0]
            need(D >= max(len(prof[j][0]) for j in keep), 'levels lost')
            for q, j in enumerate(keep):
                for nm, a, e in (('pressure', P, prof[j][0]), ('salinity', S, prof[j][1]), ('potential temperature', T, prof[j][2])):
                    full = np.full(D, np.nan); full[:len(e)] = e
                    need(same(a[:, q], full), f'{nm} of profile {q}: {a[:, q].tolist()}, expected {full.tolist()} (deepest float pressure {np.nanmax(i["fp"])} + {i["pd"]})')
            need(close(r['grid_lat'], [sel[j][0] for j in keep], 1e-12, 1e-12) and close(np.mod(r['grid_long'], 360), np.mod([sel[j][1] for j in keep], 360), 1e-12, 1e-9), 'positions and profiles not paired')
            r['grid_pres'][:] = -1.; r['grid_sal'][:] = -1.; r['grid_ptmp'][:] = -1.; r['grid_lat'][:] = -1; r['grid_long'][:] = -1
        if n == 0: raise Skip()
