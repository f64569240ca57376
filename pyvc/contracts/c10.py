"""C10: contracts of interp_climatology and its helpers, any number of casts, levels and float levels."""
from con import *
from loops import Inv


def obligations(c):
    L, S, FL, M, l, s, f, j = [c.int(x) for x in 'L S FL M l s f j'.split()]

    # ---- the usable levels of each cast, in order, at the top
    def cleaned():
        g = [c.arr(k, [L, S]) for k in ('sal', 'theta', 'pres')]
        good = lambda i, x: and_(*[not_(uf(k + '.nan', [i, x], 'B')) for k in ('sal', 'theta', 'pres')])
        outs = c.run(WR, '_get_cleaned_grid_data', [S] + g, pc=[le(1, L), le(1, S)])
        k = fresh('k', 'I')
        cnt = lambda x: bind('sum', k, L, ite(good(k, x), I(1), I(0)))
        for v, st in c.returns(outs, 'usable levels: returns'):
            if v is None:
                c.prove('usable levels: nothing is returned only if the count is zero for every cast', hy(st) + [rng(s, S)], le(cnt(s), 0), hints=[s])
                c.prove('usable levels: a cast with a usable level has a positive count', [rng(l, L), rng(s, S), good(l, s)], le(1, cnt(s)), hints=[l]); continue
            for nm, a in zip(('sal', 'theta', 'pres'), v):
                a = c.last.avs(st, a); m = a.shape[0]
                c.prove(f'usable levels of {nm}: one column per cast', hy(st), eq(a.shape[1], S))
                c.prove(f'usable levels of {nm}: as many rows as the longest cast needs', hy(st) + [rng(s, S)], and_(le(1, m), le(cnt(s), m)), hints=[s])
                e = fl(a.elt(l, s)); h = hy(st) + [rng(l, m), rng(s, S)]
                c.prove(f'usable levels of {nm}: the l-th row holds the l-th usable level of the cast', h, and_(eq(e.nan, le(cnt(s), l)), not_(e.bad), or_(e.nan, eq(e.v, uf(nm, [bind('sel', k, L, good(k, s), l, sort='I'), s], 'R')))))
    c.ob('usable levels', cleaned)

    # ---- interpolation, over the contract of the cleaned data
    CN = lambda x: uf('cnt', [x], 'I')
    G = lambda nm, i, x: uf('c' + nm, [i, x], 'R')
    TH, PR, SA = (lambda i, x: G('theta', i, x)), (lambda i, x: G('pres', i, x)), (lambda i, x: G('sal', i, x))
    ft, fp = (lambda r: uf('ft', [r], 'R')), (lambda r: uf('fp', [r], 'R'))
    good = lambda r: and_(*[not_(uf(k + '.nan', [r], 'B')) for k in ('fs', 'ft', 'fp')])
    pr_ = lambda r, i, x: and_(lt(add(i, 1), CN(x)), le(mul(sub(TH(add(i, 1), x), ft(r)), sub(TH(i, x), ft(r))), R(0)))
    def wt(r, i, x):
        d = sub(TH(add(i, 1), x), TH(i, x))
        return ite(ne(d, R(0)), div(sub(ft(r), TH(i, x)), d), R(0))
    at = lambda q, r, i, x: add(q(i, x), mul(wt(r, i, x), sub(q(add(i, 1), x), q(i, x))))
    best = lambda r, x: (lambda k: bind('argmin', k, sub(M, 1), uf('pair', [ite(pr_(r, k, x), I(1), I(0)), ite(pr_(r, k, x), absr(sub(at(PR, r, k, x), fp(r))), R(0))], 'R'), sort='I'))(fresh('k', 'I'))
    anyp = lambda r, x: (lambda k: not_(bind('forall', k, sub(M, 1), not_(pr_(r, k, x)))))(fresh('k', 'I'))
    rank = lambda r: (lambda k: bind('sum', k, r, ite(good(k), I(1), I(0))))(fresh('k', 'I'))

    def want(done, q, r, x):
        has = and_(done, anyp(r, x))
        return F(ite(has, at(q, r, best(r, x), x), R(0)), not_(has))

    class Main(Inv):
        fn = WR + '.interp_climatology'
        def arrs(self, st): return [(st.env['interp_sal_final'], SA), (st.env['interp_pres_final'], PR)]
        def covers(self, I_, st0, key):
            return key[0] == 'cell' and key[1] in [a.cell for a, _ in self.arrs(st0)] + [st0.env['output_placeholder'].cell]
        def state(self, I_, st0, st, k):
            done = lambda r: and_(good(r), lt(rank(r), k))
            for a, q in self.arrs(st0): st.heap[a.cell] = AV([FL, S], lambda r, x, q=q: want(done(r), q, r, x), 'f')
            st.heap[st0.env['output_placeholder'].cell] = AV([sub(M, 1), S], lambda i, x: NAN, 'f')
            return []
        def claims(self, I_, st0, st, k):
            done = lambda r: and_(good(r), lt(rank(r), k))
            r, x, i = fresh('r', 'I'), fresh('x', 'I'), fresh('i', 'I')
            p = I_.avs(st, st0.env['output_placeholder'])
            out = [('the work array is all missing', bind('forall', i, sub(M, 1), bind('forall', x, S, fl(p.elt(i, x)).nan)))]
            for (a, q), nm in zip(self.arrs(st0), ('salinity', 'pressure')):
                v = I_.avs(st, a)
                b = fresh('k', 'I')
                out.append((f'{nm} of the levels so far is the interpolation at the nearest bracketing pair', feq(v.elt(r, x), want(done(r), q, r, x)),
                            [rng(r, FL), rng(x, S)], [('the level of this iteration', eq(r, bind('sel', b, FL, good(b), sub(k, 1), sort='I')))]))
            return out

    def interp():
        k1, k2 = fresh('k', 'I'), fresh('k', 'I')
        def cleaned_contract(I_, args, kw):
            return tuple(mk(AV([M, S], lambda i, x, nm=nm: F(G(nm, i, x), le(CN(x), i)), 'f')) for nm in ('sal', 'theta', 'pres'))
        facts = [bind('forall', k1, S, and_(le(0, CN(k1)), le(CN(k1), M)))]
        g = [c.arr('g' + k, [L, S]) for k in ('sal', 'theta', 'pres')]
        fl_ = [c.arr(k, [FL]) for k in ('fs', 'ft', 'fp')]
        outs = c.run(WR, 'interp_climatology', g + fl_, pc=[le(1, L), le(1, S), le(0, FL), le(1, M), le(M, L)], facts=facts, over={WR + '._get_cleaned_grid_data': cleaned_contract}, invs=[Main()])
        for v, st in c.returns(outs, 'interpolation: returns'):
            a, b = [c.last.avs(st, x) for x in v]
            h = hy(st) + [rng(f, FL), rng(s, S)]
            for nm, x, q in (('salinity', a, SA), ('pressure', b, PR)):
                c.prove(f'interpolated {nm}: one row per float level, one column per cast', hy(st), and_(eq(x.shape[0], FL), eq(x.shape[1], S)))
                c.prove(f'interpolated {nm}: the interpolation at the nearest bracketing pair, missing without one', h, feq(x.elt(f, s), want(good(f), q, f, s)))
    c.ob('interpolation', interp)

    def lemma():
        b = best(f, s); h = [le(1, M), rng(s, S), rng(j, sub(M, 1)), pr_(f, j, s)]
        d = lambda i: absr(sub(at(PR, f, i, s), fp(f)))
        c.prove('lemma: the pair used brackets the float temperature and no bracketing pair is nearer in pressure', h, and_(rng(b, sub(M, 1)), pr_(f, b, s), le(d(b), d(j))), hints=[j])
    c.ob('lemma', lemma)
    c.sat('inputs', [le(1, L), le(1, S), le(1, M), le(M, L)])
