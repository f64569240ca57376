"""C21: contracts of spatial_correlation, find_ellipse and potential_vorticity (scalar; arrays element-wise)."""
from con import *


def dec(names):
    def f(m):
        d = {k: float(v) for k, v in names(m.ev).items()}
        base = dict(lo1=0., la1=0., d1=2000., lo2=0., la2=0., d2=2000., z1=100., z2=100., sx=1., sy=1., sa=1., phi=1., pvm=0)
        base.update(d); return base
    return f


def obligations(c):
    r = c.real
    lo1, lo2, la1, la2, d1, d2, sx, sy, sa, phi, p1, p2 = [r(x) for x in 'lo1 lo2 la1 la2 d1 d2 sx sy sa phi pv1 pv2'.split()]
    pos = [lt(0, s.v) for s in (sx, sy, sa, phi)]
    V = lambda *xs: [x.v for x in xs]
    Z = R(0)

    def rel2(a, b): return div(mul(power(sub(b, a), 2)), mul(add(power(a, 2), power(b, 2)), power(phi.v, 2)))
    def spec(x, y, t, a, b, k):
        s = add(div(power(x, 2), power(mul(k, sx.v), 2)), div(power(y, 2), power(mul(k, sy.v), 2)))
        if t is not None: s = add(s, div(power(t, 2), power(sa.v, 2)))
        return add(s, ite(and_(ne(a, Z), ne(b, Z)), rel2(a, b), Z))
    dx, dy, dt = sub(lo1.v, lo2.v), sub(la1.v, la2.v), sub(d1.v, d2.v)

    def sc(A, B):
        outs = c.run(U, 'spatial_correlation', [A[0], B[0], sx, A[1], B[1], sy, A[2], B[2], sa, phi] + ([A[3], B[3]] if len(A) > 3 else []), pc=pos)
        return c.returns(outs, 'spatial_correlation returns')
    def fe(A, B):
        outs = c.run(FND, 'find_ellipse', [A[0], B[0], sx, A[1], B[1], sy, phi] + ([A[3], B[3]] if len(A) > 3 else []), pc=pos)
        return c.returns(outs, 'find_ellipse returns')

    def corr():
        A, B = (lo1, la1, d1, p1), (lo2, la2, d2, p2)
        for nm, P, Q, a, b in (('with vorticity', A, B, p1.v, p2.v), ('without vorticity', A[:3], B[:3], Z, Z)):
            for v, s in sc(P, Q):
                v = fl(v)
                c.prove(f'spatial_correlation {nm} = documented form', hy(s), and_(not_(v.nan), not_(v.bad), eq(v.v, spec(dx, dy, dt, a, b, 1))))
                c.prove(f'spatial_correlation {nm} >= 0', hy(s), le(Z, v.v))
        # swap: same spec from the swapped call
        for v, s in sc(B, A):
            c.prove('spatial_correlation unchanged when the points swap roles', hy(s), eq(fl(v).v, spec(dx, dy, dt, p1.v, p2.v, 1)))
        for v, s in sc(A, A): c.prove('spatial_correlation of coincident points is zero', hy(s), eq(fl(v).v, Z))
    c.ob('spatial_correlation', corr)

    def ell():
        A, B = (lo1, la1, None, p1), (lo2, la2, None, p2)
        for nm, P, Q, a, b in (('with vorticity', A, B, p1.v, p2.v), ('without vorticity', A[:3], B[:3], Z, Z)):
            for v, s in fe(P, Q):
                v = fl(v); e = spec(dx, dy, None, a, b, 3)
                c.prove(f'find_ellipse {nm} is non-negative', hy(s), and_(not_(v.nan), not_(v.bad), le(Z, v.v)))
                c.prove(f'find_ellipse {nm} squared = documented form', hy(s), eq(mul(v.v, v.v), e))
        for v, s in fe(B, A):
            c.prove('find_ellipse unchanged when the points swap roles', hy(s), eq(power(fl(v).v, 2), spec(dx, dy, None, p1.v, p2.v, 3)))
        for v, s in fe(A, A): c.prove('find_ellipse of coincident points is zero', hy(s), eq(fl(v).v, Z))
    c.ob('find_ellipse', ell)

    def pvort():
        lat, z = r('lat'), r('z'); hyp = [ne(z.v, Z), le(-90, lat.v), le(lat.v, 90)]
        f = div(mul(R(Fr(2 * 7292, 100000000)), sin(mul(lat.v, PI, R(Fr(1, 180))))), z.v)
        for v, s in c.returns(c.run(U, 'potential_vorticity', [lat, z], pc=hyp), 'potential_vorticity returns'):
            v = fl(v)
            c.prove('potential_vorticity = planetary vorticity over depth', hy(s), and_(not_(v.nan), not_(v.bad), implies(ne(f, Z), eq(v.v, f))))
            c.prove('potential_vorticity is never zero', hy(s), ne(v.v, Z))
            c.prove('potential_vorticity at the equator is the documented small constant', hy(s), implies(eq(f, Z), eq(v.v, R(Fr(1, 100000)))))
    c.ob('potential_vorticity', pvort)
    c.sat('positive scales', pos)

    # element-wise over arrays (no vorticity): same contract at an arbitrary index
    def arrs():
        n = c.int('n')
        X, Y, D = c.arr('X', n, nan=False), c.arr('Y', n, nan=False), c.arr('D', n, nan=False)
        outs = c.run(U, 'spatial_correlation', [X, lo2, sx, Y, la2, sy, D, d2, sa, phi], pc=pos + [le(1, n)])
        i = c.int('i')
        for v, s in c.returns(outs, 'spatial_correlation over arrays returns'):
            a = c.last.avs(s, v); e = fl(a.elt(i))
            g = lambda nm, w: sub(uf(nm, [i], 'R'), w.v)
            c.prove('spatial_correlation over arrays keeps the shape', hy(s), B(a.ndim == 1 and True) if a.ndim != 1 else eq(a.shape[0], n))
            c.prove('spatial_correlation over arrays is element-wise', hy(s) + [rng(i, n)], and_(not_(e.nan), not_(e.bad), eq(e.v, spec(g('X', lo2), g('Y', la2), g('D', d2), Z, Z, 1))))
    c.ob('arrays', arrs)
