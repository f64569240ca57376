"""C08: contract of covar_xyt_pv for two sets of positions of any size (columns: latitude, longitude, date, depth)."""
from con import *


def pvterm(lat, z): return uf('potential_vorticity', [lat, z], 'R')


def pv_contract(I_, args, kw):
    """callee contract (discharged under C21): for a non-zero depth a non-zero function of latitude and depth"""
    lat, z = fl(args[0]), fl(args[1])
    return F(pvterm(lat.v, z.v), or_(lat.nan, z.nan), or_(lat.bad, z.bad))


def obligations(c):
    n, m, i, j = c.int('n'), c.int('m'), c.int('i'), c.int('j')
    s0, s1, age, phi = c.real('scale0'), c.real('scale1'), c.real('age'), c.real('phi')
    A = lambda p, q: uf('A', [p, I(q)], 'R'); Bf = lambda p, q: uf('B', [p, I(q)], 'R')
    base = [le(1, n), le(1, m), lt(0, s0.v), lt(0, s1.v), lt(0, phi.v)]

    def spec(a, b, aged, use):
        d = add(power(div(sub(a(0), b(0)), s0.v), 2), power(div(sub(a(1), b(1)), s1.v), 2))
        if aged: d = add(d, power(div(sub(a(2), b(2)), age.v), 2))
        if use:
            p, q = pvterm(a(0), a(3)), pvterm(b(0), b(3))
            d = add(d, div(power(sub(p, q), 2), mul(add(power(p, 2), power(q, 2)), power(phi.v, 2))))
        return exp(neg(d))

    def one(nm, aged, use, rank1=False, swap=False, same=False):
        def f():
            kz = fresh('k', 'I'); w = 4 if use else 3
            facts = [bind('forall', kz, n, ne(A(kz, 3), R(0))), bind('forall', kz, m, ne(Bf(kz, 3), R(0)))] if use else []
            if rank1: X, Y = mk(AV([w], lambda q: F(uf('A', [I(0), q], 'R')), 'f')), mk(AV([w], lambda q: F(uf('B', [I(0), q], 'R')), 'f')); N_, M_ = I(1), I(1); fx = [ne(A(I(0), 3), R(0)), ne(Bf(I(0), 3), R(0))] if use else []
            else: X, Y = mk(AV([n, w], lambda p, q: F(uf('A', [p, q], 'R')), 'f')), mk(AV([m, w], lambda p, q: F(uf('B', [p, q], 'R')), 'f')); N_, M_ = n, m; fx = facts
            if same: Y, M_ = X, N_
            if swap: X, Y, N_, M_ = Y, X, M_, N_
            pc = base + [eq(age.v, R(0)) if not aged else lt(R(0), age.v)]
            a_ = age if aged else F(R(0))
            outs = c.run(ST, 'covar_xyt_pv', [X, Y, s1, s0, a_, phi, I(1 if use else 0)], pc=pc, facts=fx, over={U + '.potential_vorticity': pv_contract} if use else None)
            for v, s in c.returns(outs, f'{nm}: returns'):
                a = c.last.avs(s, v)
                if a.ndim != 2: c.add(f'{nm}: a matrix', 'refuted'); continue
                c.prove(f'{nm}: one row per first and one column per second position', hy(s), and_(eq(a.shape[0], N_), eq(a.shape[1], M_)))
                ii, jj = (I(0), I(0)) if rank1 else (i, j)
                e = fl(a.elt(ii, jj)); hs = hy(s) + [rng(ii, N_), rng(jj, M_)]
                a1, b1 = (lambda q: A(ii, q)), (lambda q: (A if same else Bf)(jj, q))
                if swap: a1, b1 = (lambda q: A(jj, q)), (lambda q: Bf(ii, q))
                if use: hs = hs + [ne(pvterm(a1(0), a1(3)), R(0)), ne(pvterm(b1(0), b1(3)), R(0))]
                want = spec(a1, b1, aged, use)
                if same:
                    h2 = hs + [eq(a1(q), b1(q)) for q in range(w)]
                    c.prove(f'{nm}: exactly 1 for coincident positions', h2, and_(not_(e.nan), not_(e.bad), eq(e.v, R(1)))); continue
                if swap: c.prove(f'{nm}: unchanged when the sets swap', hs, and_(not_(e.nan), not_(e.bad), eq(e.v, want))); continue
                c.prove(f'{nm}: entry (i, j) = Gaussian of the scaled separations of i and j', hs, and_(not_(e.nan), not_(e.bad), eq(e.v, want)))
                if use: continue                  # the bounds follow from the entry: lemma below
                c.prove(f'{nm}: entries in [0, 1]', hs, and_(le(R(0), e.v), le(e.v, R(1))))
        c.ob(nm, f)
    for aged in (True, False):
        for use in (False, True):
            nm = f"{'with' if aged else 'without'} date term, {'with' if use else 'without'} vorticity"
            one(nm, aged, use); one(nm + ', swapped', aged, use, swap=True); one(nm + ', one set', aged, use, same=True)
    one('single positions (1-D)', True, True, rank1=True)
    # lemma: the Gaussian with vorticity lies in [0, 1]
    t = [var(x, 'R') for x in ('x0', 'x1', 'x2', 'p', 'q', 'f')]
    d = add(power(t[0], 2), power(t[1], 2), power(t[2], 2), power(div(sub(t[3], t[4]), mul(sqrt(add(power(t[3], 2), power(t[4], 2))), t[5])), 2))
    c.prove('lemma: exp(-sum of squares) lies in [0, 1]', [lt(R(0), t[5])], and_(le(R(0), exp(neg(d))), le(exp(neg(d)), R(1))))
    c.sat('positive scales', base)
