"""C11: contracts of covarxy_pv and build_cov for any number of levels and profiles."""
from con import *
TB = [-2, 1, Fr(5, 2), 4, 8, 12, 18, 24, 30]
DOWN = [1, 1, Fr(3, 2), Fr(3, 2), 4, 4, 6, 6, 6]
UP = [1, Fr(3, 2), Fr(3, 2), 4, 4, 6, 6, 6, 6]
OM = Fr(2 * 7292, 10 ** 8)


def table(x, ys):
    r = R(ys[0])
    segs = list(zip(TB, TB[1:], ys, ys[1:]))
    out = None
    for a, b, p, q in reversed(segs):
        seg = add(R(p), mul(R(Fr(q - p) / Fr(b - a)), sub(x, R(a))))
        out = seg if out is None else ite(le(x, R(b)), seg, out)
    return out


def obligations(c):
    L, P, i, j, p, q = [c.int(x) for x in 'L P i j p q'.split()]
    lo, la, phi = c.real('lo'), c.real('la'), c.real('phi')
    C = lambda a, b: uf('C', [a, I(b)], 'R')
    pos = [lt(0, lo.v), lt(0, la.v), lt(0, phi.v), le(1, L), le(1, P)]
    k0 = fresh('k', 'I'); depth = [bind('forall', k0, P, ne(C(k0, 2), R(0)))]
    pvt = lambda a: div(mul(R(OM), sin(mul(C(a, 0), PI, R(Fr(1, 180))))), C(a, 2))

    def dist(a, b): return add(power(div(sub(C(a, 0), C(b, 0)), la.v), 2), power(div(sub(C(a, 1), C(b, 1)), lo.v), 2))
    def rel(a, b):
        x, y = pvt(a), pvt(b)
        return div(power(sub(x, y), 2), mul(add(power(x, 2), power(y, 2)), power(phi.v, 2)))

    def horiz(use):
        cm = mk(AV([P, 3], lambda a, b: F(uf('C', [a, b], 'R')), 'f'))
        row = mk(AV([3], lambda b: F(uf('C', [p, b], 'R')), 'f'))
        outs = c.run(ST, 'covarxy_pv', [row, cm, lo, la, phi, I(use)], pc=pos + [rng(p, P)], facts=depth)
        for v, s in c.returns(outs, f'covarxy_pv(use_pv={use}): returns'):
            a = c.last.avs(s, v)
            n = f'covarxy_pv(use_pv={use})'
            if a.ndim != 1: c.add(n + ': one value per profile', 'refuted'); continue
            c.prove(n + ': one value per profile', hy(s), eq(a.shape[0], P))
            e = fl(a.elt(q)); h = hy(s) + [rng(q, P)]
            if not use: c.prove(n + ' = Gaussian of latitude and longitude differences', h, and_(not_(e.nan), not_(e.bad), eq(e.v, exp(neg(dist(p, q))))))
            else:
                c.prove(n + ' = Gaussian with the relative vorticity difference', h + [ne(pvt(p), R(0))], and_(not_(e.nan), not_(e.bad), eq(e.v, exp(neg(add(dist(p, q), rel(p, q)))))), hints=[p, q])
                c.prove(n + ' of a float on the equator has no vorticity term', h + [eq(pvt(p), R(0))], and_(not_(e.nan), not_(e.bad), eq(e.v, exp(neg(dist(p, q))))))
            c.prove(n + ' = 1 on the diagonal', h + [eq(p, q)], and_(not_(e.nan), eq(e.v, R(1))), hints=[p])
    c.ob('covarxy_pv', lambda: horiz(0)); c.ob('covarxy_pv with vorticity', lambda: horiz(1))

    H = lambda a, b: uf('H', [a, b], 'R')
    def h_contract(I_, args, kw):
        """callee contract of covarxy_pv: a vector over the profiles that depends on the float's row and the table only"""
        assert len(args) == 6
        row = I_.av(args[0]); x = fl(row.elt(I(0))).v
        # the row is row a of the coordinate table
        if x.op != 'uf' or x.data != 'C' or x.args[1] is not I(0): raise Unsupported('argument of covarxy_pv')
        a = x.args[0]
        I_.require(and_(*[eq(fl(row.elt(I(m))).v, C(a, m)) for m in range(3)]), 'Contract', 'row of the table')
        t = I_.av(args[1]); z = fresh('z', 'I')
        I_.require(eq(t.shape[0], P), 'Contract', 'table'); 
        for m in range(3):
            if fl(t.elt(z, I(m))).v is not C(z, m): raise Unsupported('table of covarxy_pv')
        for got, w in zip(args[2:5], (lo, la, phi)):
            if fl(got).v is not w.v: raise Unsupported('scales of covarxy_pv')
        return mk(AV([P], lambda b: F(H(a, b)), 'f'))

    TT = lambda a, b: uf('T', [a, b], 'R'); NT = lambda a, b: uf('T.nan', [a, b], 'B')

    def build():
        t = c.arr('T', [L, P]); cm = mk(AV([P, 3], lambda a, b: F(uf('C', [a, b], 'R')), 'f'))
        k1, k2 = fresh('k', 'I'), fresh('k', 'I')
        dom = bind('forall', k1, L, bind('forall', k2, P, or_(NT(k1, k2), and_(le(-2, TT(k1, k2)), le(TT(k1, k2), 30)))))
        cfg = mkdict({'MAPSCALE_LONGITUDE_SMALL': lo, 'MAPSCALE_LATITUDE_SMALL': la, 'MAPSCALE_PHI_SMALL': phi, 'MAP_USE_PV': c.int('use')})
        outs = c.run(ST, 'build_cov', [t, cm, cfg], pc=pos, facts=[dom], over={ST + '.covarxy_pv': h_contract}, budget=20000)
        for v, s in c.returns(outs, 'build_cov: returns'):
            a = c.last.avs(s, v)
            N_ = mul(L, P)
            c.prove('build_cov: square, one row per level and profile', hy(s), and_(eq(a.shape[0], N_), eq(a.shape[1], N_)))
            e = fl(a.elt(add(mul(p, L), i), add(mul(q, L), j)))
            h = hy(s) + [rng(i, L), rng(j, L), rng(p, P), rng(q, P)]
            A, B_ = TT(i, p), TT(j, p)
            miss = or_(NT(i, p), NT(j, p), eq(i, j))
            g = lambda ys: exp(neg(power(div(sub(B_, A), table(A, ys)), 2)))
            ok = and_(not_(e.nan), not_(e.bad))
            rg = [le(-2, A), le(A, 30), le(-2, B_), le(B_, 30)]
            c.prove('build_cov entry: diagonal or missing temperature -> horizontal covariance', h + [miss], and_(ok, eq(e.v, H(p, q))))
            c.prove('build_cov entry: i < j looks down', h + rg + [not_(miss), lt(i, j)], and_(ok, eq(e.v, mul(H(p, q), g(DOWN)))))
            c.prove('build_cov entry: i > j looks up', h + rg + [not_(miss), lt(j, i)], and_(ok, eq(e.v, mul(H(p, q), g(UP)))))
    c.ob('build_cov', build)
    c.sat('positive scales', pos)
