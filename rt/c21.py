import numpy as np, math
from common import *
from importlib import import_module
N = 4000
RULE = 'random points, scales, depths (coincident and partly coincident included), scalars and arrays'


def num(rng, lo, hi):
    return float(np.round(rng.uniform(lo, hi), int(rng.integers(0, 6))))


def gen(rng, k):
    lo1, la1, d1 = num(rng, -180, 400), num(rng, -90, 90), num(rng, 1990, 2025)
    p = k % 5
    lo2, la2, d2 = (num(rng, -180, 400), num(rng, -90, 90), num(rng, 1990, 2025)) if p else (lo1, la1, d1)
    if p == 1: lo2 = lo1
    if p == 2: la2 = la1; d2 = d1
    if k % 9 == 0: la1 = 0.
    z1 = float(rng.choice([num(rng, 1, 6000), -num(rng, 1, 6000), 1., 5000.])); z2 = num(rng, 1, 6000) if p else z1
    if k % 13 == 0: z2 = 0.5
    sc = [num(rng, .05, 20) + .01 for _ in range(3)]
    phi = num(rng, .01, 1) + .01
    pvm = k % 4
    return dict(lo1=lo1, la1=la1, d1=d1, lo2=lo2, la2=la2, d2=d2, z1=z1, z2=z2, sx=sc[0], sy=sc[1], sa=sc[2], phi=phi, pvm=pvm)


def check(i):
    U = import_module('pyowc.utilities'); F = import_module('pyowc.core.finders')
    g = i.get
    lo1, la1, d1, lo2, la2, d2, z1, z2 = (g(x) for x in ('lo1', 'la1', 'd1', 'lo2', 'la2', 'd2', 'z1', 'z2'))
    sx, sy, sa, phi = g('sx'), g('sy'), g('sa'), g('phi')
    if min(sx, sy, sa, phi) <= 0 or z1 == 0 or z2 == 0: raise Skip('scale')
    p1, p2 = call(U.potential_vorticity, la1, z1), call(U.potential_vorticity, la2, z2)
    need(p1 != 0 and p2 != 0, 'potential vorticity is zero')
    need(close(p1, pv(la1, z1), 1e-10, 0) and close(p2, pv(la2, z2), 1e-10, 0), f'potential_vorticity({la1},{z1}) = {p1}, expected {pv(la1, z1)}')
    P1, P2 = [(0, 0), (pv(la1, z1), pv(la2, z2)), (0, pv(la2, z2)), (pv(la1, z1), 0)][g('pvm')]
    rel = ((P2 - P1) / math.sqrt(P1 ** 2 + P2 ** 2) / phi) ** 2 if P1 != 0 and P2 != 0 else 0
    e = (lo1 - lo2) ** 2 / sx ** 2 + (la1 - la2) ** 2 / sy ** 2 + (d1 - d2) ** 2 / sa ** 2 + rel
    for sw in (0, 1):
        A = (lo1, la1, d1, P1); B = (lo2, la2, d2, P2)
        if sw: A, B = B, A
        r = call(U.spatial_correlation, A[0], B[0], sx, A[1], B[1], sy, A[2], B[2], sa, phi, A[3], B[3]) if g('pvm') or sw else \
            call(U.spatial_correlation, A[0], B[0], sx, A[1], B[1], sy, A[2], B[2], sa, phi)
        need(close(r, e, 1e-9, 1e-12), f'spatial_correlation = {r}, expected {e}')
        q = call(F.find_ellipse, A[0], B[0], sx, A[1], B[1], sy, phi, A[3], B[3]) if g('pvm') or sw else \
            call(F.find_ellipse, A[0], B[0], sx, A[1], B[1], sy, phi)
        eq = math.sqrt((lo1 - lo2) ** 2 / (3 * sx) ** 2 + (la1 - la2) ** 2 / (3 * sy) ** 2 + rel)
        need(close(q, eq, 1e-9, 1e-12), f'find_ellipse = {q}, expected {eq}')
    if g('pvm') == 0:
        X = np.array([lo1, lo2, lo1 + 1]); Y = np.array([la1, la2, la1]); D = np.array([d1, d2, d1 - 2])
        r = call(U.spatial_correlation, X, lo2, sx, Y, la2, sy, D, d2, sa, phi)
        need(close(r, (X - lo2) ** 2 / sx ** 2 + (Y - la2) ** 2 / sy ** 2 + (D - d2) ** 2 / sa ** 2, 1e-9, 1e-12), 'spatial_correlation over arrays')
    v = np.vectorize(U.spatial_correlation)
    r = call(v, np.array([lo1, lo2]), lo2, sx, np.array([la1, la2]), la2, sy, np.array([d1, d2]), d2, sa, phi, np.array([P1, P2]), P2)
    need(close(r, [e, 0], 1e-9, 1e-12), f'element-wise spatial_correlation {r}, expected {[e, 0]}')
