"""C09: contract of map_data_grid for any number of historical positions, with the callee contracts of covar_xyt_pv (C08)
and of numpy.linalg.inv (a matrix W that depends on the argument only)."""
from con import *


def obligations(c):
    n, m, i = c.int('n'), c.int('m'), c.int('i')
    la, lo, age, phi, sv, nv = [c.real(x) for x in ('lat', 'long', 'age', 'phi', 'signal', 'noise')]
    use = c.int('use')
    D = lambda p, q: uf('D', [p, q], 'R'); G = lambda p, q: uf('G', [p, q], 'R')
    S = lambda p: uf('S', [p], 'R'); W = lambda p, q: uf('W~', [p, q], 'R')
    Kdd = lambda p, q: uf('Kdd~', [p, q], 'R'); Kdg = lambda p, q: uf('Kdg', [p, q], 'R')
    base = [le(1, n), le(1, m), lt(R(0), sv.v), lt(R(0), nv.v), lt(R(0), la.v), lt(R(0), lo.v), lt(R(0), phi.v)]
    inverted = []

    def which(I_, a):
        a = I_.av(a); z, w = fresh('z', 'I'), fresh('w', 'I')
        if a.ndim != 2: raise Unsupported('positions')
        e = fl(a.elt(z, w))
        if e.v is D(z, w) and a.shape[0] is n: return 'd'
        if e.v is G(z, w) and a.shape[0] is m: return 'g'
        raise Unsupported('positions of covar_xyt_pv')

    def covar(I_, args, kw):
        """callee contract (C08): entry (i, j) is a function of row i of the first and row j of the second set, symmetric in
        the two"""
        names = ['points1', 'points2', 'lat', 'long', 'age', 'phi', 'map_pv_use']
        a = dict(zip(names, args)); a.update(kw)
        for k, v in (('lat', la), ('long', lo), ('age', age), ('phi', phi)): I_.require(eq(fl(a[k]).v, v.v), 'Contract', k)
        I_.require(eq(a['map_pv_use'], use), 'Contract', 'map_pv_use')
        p, q = which(I_, a['points1']), which(I_, a['points2'])
        if p + q == 'dd': return mk(AV([n, n], lambda x, y: F(Kdd(x, y)), 'f'))
        if p + q == 'dg': return mk(AV([n, m], lambda x, y: F(Kdg(x, y)), 'f'))
        if p + q == 'gd': return mk(AV([m, n], lambda x, y: F(Kdg(y, x)), 'f'))
        raise Unsupported('covariance among grid points')

    def inv_(I_, args, kw):
        a = I_.av(args[0]); inverted.append((a, I_.st))
        if a.ndim != 2: raise Unsupported('inv')
        I_.require(and_(eq(a.shape[0], n), eq(a.shape[1], n)), 'Contract', 'inv of a square matrix')
        return mk(AV([n, n], lambda x, y: F(W(x, y)), 'f'))

    def solve(I_, args, kw):
        w = inv_(I_, args[:1], {})
        import npm; return npm.native(I_, 'np.dot', [w, args[1]], {})
    over = {ST + '.covar_xyt_pv': covar, WR + '.covar_xyt_pv': covar, 'np.linalg.inv': inv_, 'np.linalg.solve': solve}

    def sm(f, k=None):
        v = fresh('k', 'I'); return bind('sum', v, n, f(v))
    tot = sm(lambda p: sm(lambda q: W(p, q)))
    def mean(s): return div(sm(lambda p: sm(lambda q: mul(W(p, q), s(q)))), tot)
    def est(s, k):
        """mean + covariance-weighted residuals, k(q): covariance of the target with historical position q"""
        mu = mean(s)
        return add(mu, sm(lambda q: mul(mul(sv.v, k(q)), sm(lambda r: mul(W(q, r), sub(s(r), mu))))))
    def var_(k):
        kk = lambda q: mul(sv.v, k(q))
        quad = sm(lambda q: mul(kk(q), sm(lambda r: mul(W(q, r), kk(r)))))
        return add(sv.v, neg(quad), div(power(sub(R(1), sm(lambda q: mul(kk(q), sm(lambda r: W(q, r))))), 2), tot))

    def main():
        sal = mk(AV([n], lambda p: F(S(p)), 'f'))
        dp, gp = mk(AV([n, 4], lambda p, q: F(D(p, q)), 'f')), mk(AV([m, 4], lambda p, q: F(G(p, q)), 'f'))
        pd = [lt(R(0), tot)]
        outs = c.run(WR, 'map_data_grid', [sal, gp, dp, la, lo, age, sv, nv, phi, use], pc=base, facts=pd, over=over)
        for v, s in c.returns(outs, 'map_data_grid: returns'):
            if not isinstance(v, tuple) or len(v) != 4: c.add('map_data_grid: four results', 'refuted'); continue
            p, q = c.int('p'), c.int('q'); h = hy(s) + [rng(p, n), rng(q, n)]
            for k, (a, _) in enumerate(inverted):
                e = fl(a.elt(p, q))
                c.prove('the inverted matrix is signal * covariance + noise on the diagonal', h, and_(not_(e.nan), not_(e.bad), eq(e.v, add(mul(sv.v, Kdd(p, q)), ite(eq(p, q), nv.v, R(0))))))
            x = fl(scal(c.last, s, v[0])); g0 = lambda q: Kdg(q, I(0))
            c.prove('value at the float: weighted mean plus covariance-weighted residuals', hy(s), and_(not_(x.nan), not_(x.bad), eq(x.v, est(S, g0))))
            for nm, r, k in (('the float', v[1], g0), ('historical position i', v[3], lambda q: Kdd(i, q))):
                if nm == 'the float': x = fl(scal(c.last, s, r)); h = hy(s)
                else:
                    b = c.last.avs(s, r); h = hy(s) + [rng(i, n)]
                    c.prove(f'one error per historical position', hy(s), eq(b.shape[0], n)); x = fl(b.elt(i))
                # squared error = signal - k W k + (1 - sum k W)^2 / sum W, where that is not negative
                # (the positions' covariance is symmetric: C08)
                w = var_(k)
                u, e = (x.v.args[0], True) if x.v.op == 'uf' and x.v.data == 'sqrt' else (None, False)
                if not e:
                    u = power(x.v, 2); c.prove(f'error at {nm} is not negative', h + [le(R(0), w)], le(R(0), x.v))
                c.prove(f'squared error at {nm}: signal variance less the explained part plus the uncertainty of the mean', h, eq(u, w))
                c.prove(f'error at {nm} is a number when that is not negative', h + [le(R(0), w)], and_(not_(x.nan), not_(x.bad)))
            b = c.last.avs(s, v[2]); h = hy(s) + [rng(i, n)]
            c.prove('one value per historical position', hy(s), eq(b.shape[0], n)); x = fl(b.elt(i))
            c.prove('value at historical position i: weighted mean plus covariance-weighted residuals', h, and_(not_(x.nan), not_(x.bad), eq(x.v, est(S, lambda q: Kdd(i, q)))))
    c.ob('map_data_grid', main)
    # consequences of the contract (the errors do not mention the salinities at all)
    cc, h = var('c', 'R'), [le(1, n), lt(R(0), tot)]
    K = lambda q: uf('K', [q], 'R')
    c.prove('lemma: adding a constant to the salinities adds it to the estimate', h, eq(est(lambda p: add(S(p), cc), K), add(est(S, K), cc)))
    c.prove('lemma: scaling the salinities scales the estimate', h, eq(est(lambda p: mul(cc, S(p)), K), mul(cc, est(S, K))))
    c.assumptions.add('numpy.linalg.inv returns the inverse (a function of its argument) and the sum of the entries of the inverse of the positive definite matrix is positive')
    c.sat('positive scales', base)
