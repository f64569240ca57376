"""C18: contracts of signal_variance and noise_variance for vectors of any length."""
from con import *


def obligations(c):
    n, i, q = c.int('n'), c.int('i'), c.int('q')
    X = lambda k: uf('sal', [k], 'R'); NX = lambda k: uf('sal.nan', [k], 'B')
    LA = lambda k: uf('lat', [k], 'R'); LO = lambda k: uf('lon', [k], 'R')

    def nvar(val, nan):
        cnt = toreal(count(n, lambda k: not_(nan(k))))
        mean = div(sum_(n, lambda k: ite(nan(k), R(0), val(k))), cnt)
        return div(sum_(n, lambda k: ite(nan(k), R(0), power(sub(val(k), mean), 2))), cnt), cnt

    def sv(val, scale=None, shift=None, nm=''):
        want, cnt = nvar(X, NX)
        x = mk(AV([n], lambda k: F(val(k), NX(k)), 'f'))
        outs = c.run(ST, 'signal_variance', [x], pc=[le(1, n)])
        for kd, v, s in outs:
            none = forall(n, NX)
            if kd == 'return':
                v = fl(v); h = hy(s)
                c.prove(f'signal_variance{nm}: a value only where a salinity is valid', h, not_(none))
                c.prove(f'signal_variance{nm}: never missing', h, and_(not_(v.nan), not_(v.bad)))
                w = want if scale is None else mul(want, power(scale, 2))
                c.prove(f'signal_variance{nm} = ' + ('mean squared deviation from the mean of the valid' if not nm else 'as documented'), h + [lt(R(0), cnt)], eq(v.v, w))
                if not nm: c.prove('signal_variance is never negative', h + [lt(R(0), cnt)], le(R(0), v.v))
            else: c.prove(f'signal_variance{nm}: an error only where no salinity is valid', hy(s), none)
        if not any(k == 'raise' for k, _, _ in outs): c.add(f'signal_variance{nm}: no valid salinity is an error', 'refuted', 'no path raises')
    c.ob('signal_variance', lambda: sv(X))
    sh, f = var('shift', 'R'), var('factor', 'R')
    c.ob('signal_variance, shifted', lambda: sv(lambda k: add(X(k), sh), nm=' of shifted salinities'))
    c.ob('signal_variance, scaled', lambda: sv(lambda k: mul(f, X(k)), scale=f, nm=' of scaled salinities'))

    D = lambda a, b: add(power(sub(LA(a), LA(b)), 2), power(sub(LO(a), LO(b)), 2))

    def noise(val=X, scale=None, nm=''):
        sal = mk(AV([n], lambda k: F(val(k), NX(k)), 'f'))
        outs = c.run(ST, 'noise_variance', [sal, c.arr('lat', n, nan=False), c.arr('lon', n, nan=False)], pc=[le(1, n)])
        same = forall(n, lambda a: forall(n, lambda b: eq(D(a, b), R(0))))
        for v, s in c.returns(outs, f'noise_variance{nm}: returns'):
            v = fl(v); h = hy(s)
            # nb(i): the first of the nearest positions that do not coincide with i
            nb = lambda a: argmin(n, lambda b: uf('pair', [ite(eq(D(a, b), R(0)), I(0), I(1)), D(a, b)], 'R'))
            ok = lambda a: and_(not_(NX(a)), not_(NX(nb(a))))
            cnt = toreal(count(n, ok))
            w = div(sum_(n, lambda a: ite(ok(a), power(sub(X(a), X(nb(a))), 2), R(0))), mul(2, cnt))
            if scale is not None: w = mul(w, power(scale, 2))
            c.prove(f'noise_variance{nm} is 0 when all positions coincide', h + [same], and_(eq(v.v, R(0)), not_(v.nan)))
            c.prove(f'noise_variance{nm} = half the mean squared difference to the nearest non-coincident position', h + [not_(same), lt(R(0), cnt)], and_(not_(v.nan), not_(v.bad), eq(v.v, w)))
            if not nm: c.prove('noise_variance is never negative', h + [or_(same, lt(R(0), cnt))], le(R(0), v.v))
    c.ob('noise_variance', noise)
    c.ob('noise_variance, shifted', lambda: noise(lambda k: add(X(k), sh), nm=' of shifted salinities'))
    c.ob('noise_variance, scaled', lambda: noise(lambda k: mul(f, X(k)), f, ' of scaled salinities'))

    # lemma: nb(i) as used above is a nearest non-coincident position
    def lemma():
        nb = argmin(n, lambda b: uf('pair', [ite(eq(D(i, b), R(0)), I(0), I(1)), D(i, b)], 'R'))
        h = [le(1, n), rng(i, n), rng(q, n), ne(D(i, q), R(0))]
        c.prove('lemma: the neighbour does not coincide and none that does not coincide is nearer', h, and_(rng(nb, n), ne(D(i, nb), R(0)), le(D(i, nb), D(i, q))), hints=[q])
    c.ob('lemma', lemma)
    c.sat('non-empty', [le(1, n)])
