import numpy as np, math
from common import *
from importlib import import_module
N = 2000
RULE = '1-60 casts (clusters, repeats) around a float, limits 1-40, with/without potential vorticity; 1-2 with many casts'


def gen(rng, k):
    n = int(rng.integers(1, 60)) if k % 4 else int(rng.integers(20, 150))
    la, lo = float(rng.uniform(-60, 60)), float(rng.uniform(0, 360))
    if k % 9 == 0: la = 0.
    X, Y = float(rng.choice([2, 4, 8])), float(rng.choice([1, 2, 4]))
    glat = la + rng.normal(0, 1.2 * Y, n); glon = lo + rng.normal(0, 1.2 * X, n)
    gd = rng.uniform(1995, 2020, n); gz = rng.uniform(1000, 5000, n)
    if k % 3 == 0 and n > 3:
        j = rng.integers(0, n, n // 3); glat[:n // 3], glon[:n // 3] = glat[j], glon[j]
        if k % 2: gd[:n // 3], gz[:n // 3] = gd[j], gz[j]
    M = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 10, 12, 20, 31, 40]))
    two = bool(k % 5 == 0)
    return dict(glat=glat, glon=glon, gd=gd, gz=gz, la=la, lo=lo, d=float(rng.uniform(1995, 2020)), z=float(rng.uniform(1000, 5000)), Y=Y, Ys=Y / 2, X=X, Xs=X / 2,
                phl=float(rng.choice([.1, .5])), phs=.1, al=float(rng.choice([5, 20])), as_=float(rng.choice([2, 10])), use=int(k % 2), M=M, col=two)


def check(i):
    F = import_module('pyowc.core.finders')
    g = i
    glat, glon, gd, gz = g['glat'], g['glon'], g['gd'], g['gz']
    n = len(glat)
    M = int(g['M'])
    if n == 0 or M < 1 or np.any(gz == 0) or g['z'] == 0 or min(g['X'], g['Y'], g['Xs'], g['Ys'], g['phl'], g['phs'], g['al'], g['as_']) <= 0: raise Skip()
    use = g['use']
    pf = pv(g['la'], g['z']) if use else 0
    ph = np.array([pv(a, b) for a, b in zip(glat, gz)]) if use else np.zeros(n)

    def rel(phi):
        return ((pf - ph) / np.sqrt(pf ** 2 + ph ** 2) / phi) ** 2 if use else np.zeros(n)
    ell = (glon - g['lo']) ** 2 / (3 * g['X']) ** 2 + (glat - g['la']) ** 2 / (3 * g['Y']) ** 2 + rel(g['phl'])
    if np.any(np.abs(ell - 1) < 1e-9): raise Skip('on the ellipse')
    inside = np.argwhere(ell < 1).ravel()
    cl = (glon - g['lo']) ** 2 / g['X'] ** 2 + (glat - g['la']) ** 2 / g['Y'] ** 2 + (gd - g['d']) ** 2 / g['al'] ** 2 + rel(g['phl'])
    cs = (glon - g['lo']) ** 2 / g['Xs'] ** 2 + (glat - g['la']) ** 2 / g['Ys'] ** 2 + (gd - g['d']) ** 2 / g['as_'] ** 2 + rel(g['phs'])

    def run(seed):
        np.random.seed(seed)
        a = [glat.copy(), glon.copy(), gd.copy(), gz.copy()]
        if g.get('col'): a = [z.reshape(-1, 1) for z in a]
        kp = [z.copy() for z in a]
        r = call(F.find_besthist, a[0], a[1], a[2], a[3], g['la'], g['lo'], g['d'], g['z'], g['Y'], g['Ys'], g['X'], g['Xs'], g['phl'], g['phs'], g['al'], g['as_'], use, M)
        need(all(same(p, q) for p, q in zip(a, kp)), 'arguments altered')
        return np.asarray(r)
    r = run(1)
    need(same(r, run(12345)), 'selection differs between two identical calls')
    need(r.ndim == 1 and (len(r) == 0 or np.issubdtype(r.dtype, np.integer)), 'indices expected')
    r = r.astype(int).tolist()
    need(len(set(r)) == len(r), f'a cast is selected twice: {r}')
    need(set(r) <= set(inside.tolist()), f'casts {sorted(set(r) - set(inside.tolist()))} are outside the ellipse')
    if len(inside) <= M:
        need(len(r) == len(inside), f'{len(r)} of the {len(inside)} casts inside selected with limit {M}'); return
    need(len(r) == M, f'{len(r)} casts selected with limit {M}')
    third = math.ceil(M / 3)
    tot2 = min(2 * third, M)
    ok = False
    eps = 1e-9
    for nr in range(0, min(third, M) + 1):
        R, Lg, Sm = r[:nr], r[nr:tot2], r[tot2:]
        left = [q for q in inside if q not in set(R)]
        other = [q for q in left if q not in set(Lg)]
        if Lg and other and max(cl[Lg]) > min(cl[other]) * (1 + eps) + 1e-12: continue
        rest = [q for q in other if q not in set(Sm)]
        if Sm and rest and max(cs[Sm]) > min(cs[rest]) * (1 + eps) + 1e-12: continue
        ok = True; nrr = nr; break
    need(ok, f'{M} of {len(inside)} casts: no split of {r} into at most {third} random ones, the closest at large scales up to {tot2} and the closest at small scales')
    # the random third is really drawn: a selection that is the pure ranking for every limit would not be one
    if third >= 8 and len(inside) > 4 * M:
        need(nrr >= 1, 'no cast was drawn at random')
