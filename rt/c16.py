import numpy as np, os
from common import *
from importlib import import_module
N = 1200
RULE = 'histories of 1-3 runs: no/older settings file with a prefix, subset or permutation of the profiles, growing sources, empty profiles, multi-valued bounds'


def src(rng, nos, L):
    P = len(nos)
    d = {k: rng.normal(10, 1, (L, P)).round(3) for k in ('SAL', 'TEMP', 'PRES')}
    for k in d: d[k][rng.random((L, P)) < .1] = np.nan
    for p in range(P):
        if rng.random() < .2: d[str(rng.choice(['SAL', 'TEMP', 'PRES']))][:, p] = np.nan
    d['PROFILE_NO'] = np.array(nos, float).reshape(1, -1)
    return d


def gen(rng, k):
    nos = np.cumsum(rng.integers(1, 3, int(rng.integers(1, 9)))).astype(int).tolist()
    runs = int(rng.integers(1, 4))
    cut = sorted(set(int(x) for x in rng.integers(1, len(nos) + 1, runs)))
    srcs = []
    L = int(rng.integers(1, 5))
    full = src(rng, nos, L)
    for c in cut:
        srcs.append({q: v[:, :c].copy() for q, v in full.items()})
    old = None
    if k % 3:
        base = nos[:cut[0]]
        sub = [p for p in base if rng.random() < (.7 if k % 2 else 1)] or base[:1]
        if k % 5 == 0: sub = [sub[j] for j in rng.permutation(len(sub))]
        def b(): return np.array([[5.]]) if rng.random() < .5 else (np.zeros((0, 0)) if rng.random() < .6 else np.array([[3.], [6.]]))
        old = dict(breaks=np.zeros((0, 0)) if k % 2 else np.array([[3., 5.]]), max_breaks=np.array([[int(rng.integers(-1, 5))]]), calseries=rng.integers(0, 4, (1, len(sub))).astype(float),
                   calib_profile_no=np.array(sub, float).reshape(1, -1), use_theta_lt=b(), use_theta_gt=b(), use_pres_lt=b(), use_pres_gt=b())
        if k % 4: old['use_percent_gt'] = np.array([[.75]])
    return dict(srcs=srcs, old=old, dir=str(rng.choice(['', 'sub', '/sub/'])))


def check(i):
    C = import_module('pyowc.configuration')
    from scipy.io import savemat, loadmat
    with scratch() as d:
        sd, cd = os.path.join(d, 's'), os.path.join(d, 'c')
        for x in (sd, cd): os.makedirs(os.path.join(x, i['dir'].strip('/')), exist_ok=True)
        cfg = base_config(FLOAT_SOURCE_DIRECTORY=sd, FLOAT_CALIB_DIRECTORY=cd)
        path = os.path.sep.join([cd, i['dir'], 'calseries_F1.mat']); sp = os.path.sep.join([sd, i['dir'], 'F1.mat'])
        st = None
        if i['old'] is not None:
            savemat(path, i['old'])
            o = i['old']
            st = dict(breaks=o['breaks'], max_breaks=o['max_breaks'], use_percent_gt=o.get('use_percent_gt', .5), bounds={q: o[q] for q in ('use_theta_lt', 'use_theta_gt', 'use_pres_lt', 'use_pres_gt')},
                      flags={int(p): float(f) for p, f in zip(o['calib_profile_no'].ravel(), o['calseries'].ravel())})
        for src in i['srcs']:
            savemat(sp, src)
            nos = [int(p) for p in src['PROFILE_NO'].ravel()]
            if st is not None and not set(st['flags']) <= set(nos): raise Skip()
            call(C.set_calseries, i['dir'], 'F1', cfg)
            r = loadmat(path)
            if st is None:
                st = dict(breaks=np.zeros((0, 0)), max_breaks=4, use_percent_gt=.5, bounds={q: np.zeros((0, 0)) for q in ('use_theta_lt', 'use_theta_gt', 'use_pres_lt', 'use_pres_gt')}, flags={p: 1. for p in nos})
            fl = dict(st['flags'])
            had = sorted(fl)
            for j, p in enumerate(nos):
                if p not in fl:
                    if j == 0: fl[p] = None           # nothing before it: any flag of the file
                    else: fl[p] = fl[nos[j - 1]]
            # what a new first profile gets is not stated; the ones after it inherit it
            got_p = [int(p) for p in r['calib_profile_no'].ravel()]; got_f = [float(f) for f in r['calseries'].ravel()]
            need(got_p == nos and len(got_f) == len(nos), f'profiles {got_p} with flags {got_f} for a float with profiles {nos}')
            empty = [bool(np.all(np.isnan(src['SAL'][:, j])) or np.all(np.isnan(src['TEMP'][:, j])) or np.all(np.isnan(src['PRES'][:, j]))) for j in range(len(nos))]
            free = None
            for j, p in enumerate(nos):
                if empty[j]:
                    need(got_f[j] == 0, f'profile {p} without valid data has flag {got_f[j]}'); continue
                e = fl[p]
                if e is None:
                    if free is None: free = got_f[j]
                    need(free == got_f[j] and free in set(st['flags'].values()) | {1.}, f'new profile {p} has flag {got_f[j]}')
                    continue
                need(got_f[j] == e, f'profile {p} has flag {got_f[j]}, expected {e} (file had {st["flags"]})')
            for q in ('breaks', 'max_breaks', 'use_percent_gt'):
                need(np.asarray(st[q]).size == r[q].size and np.allclose(np.ravel(st[q]), np.ravel(r[q])), f'{q} is {r[q].tolist()}, expected {np.asarray(st[q]).tolist()}')
            for q, v in st['bounds'].items():
                v = np.asarray(v)
                e = v if len(v) <= 1 else np.zeros((0, 0))
                need(r[q].size == e.size and np.allclose(np.ravel(r[q]), np.ravel(e)), f'{q} is {r[q].tolist()}, expected {e.tolist()}')
            st = dict(breaks=r['breaks'], max_breaks=r['max_breaks'], use_percent_gt=r['use_percent_gt'], bounds={q: r[q] for q in st['bounds']}, flags={p: f for p, f in zip(got_p, got_f)})
