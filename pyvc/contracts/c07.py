"""C07: contract of change_dates (and cal2dec): element i of the result depends on date i alone and is the documented value."""
from con import *
import strs
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def cum(m):
    r = R(CUM[11])
    for k in range(10, -1, -1): r = ite(eq(m, k + 1), R(CUM[k]), r)
    return r


def obligations(c):
    n, i = c.int('n'), c.int('i')
    N = lambda k: uf('N', [k], 'I')

    def facts():
        k = fresh('k', 'I'); x = N(k); L = strs.ndig(x)
        return [bind('forall', k, n, and_(le(0, x), lt(x, 10 ** 15), le(1, L), le(L, 15), or_(eq(L, 1), and_(*[])), TRUE) if False else
                     or_(*[and_(eq(L, l), le(10 ** (l - 1) if l > 1 else 0, x), lt(x, 10 ** l)) for l in range(1, 16)]))]
    bounds = [bind('forall', (k := fresh('k', 'I')), n, and_(le(0, N(k)), lt(N(k), 10 ** 15)))]

    def go(kind):
        def f():
            if kind == 'int': x = mk(AV([n], N, 'i'))
            else: x = mk(AV([n], lambda k: F(toreal(N(k))), 'f'))
            outs = c.run(U, 'change_dates', [x], pc=[le(0, n)], facts=bounds + facts())
            for v, s in c.returns(outs, f'{kind} dates: returns'):
                a = c.last.avs(s, v)
                c.prove(f'{kind} dates: one value per date', hy(s), eq(a.shape[0], n))
                e = fl(a.elt(i)); x = N(i); L = strs.ndig(x)
                for l in range(1, 16):
                    h = hy(s) + [rng(i, n), eq(L, l), le(10 ** (l - 1) if l > 1 else 0, x), lt(x, 10 ** l)]
                    if l <= 6:
                        c.prove(f'{kind} dates: {l} digits (too short) -> 0', h, and_(not_(e.nan), not_(e.bad), eq(e.v, R(0)))); continue
                    if l not in (8, 10, 12, 14): continue
                    y = fdiv(x, 10 ** (l - 4)); m = mod(fdiv(x, 10 ** (l - 6)), 100); d = mod(fdiv(x, 10 ** (l - 8)), 100)
                    hh = mod(fdiv(x, 10 ** (l - 10)), 100) if l >= 10 else I(0)
                    mi = mod(fdiv(x, 10 ** (l - 12)), 100) if l >= 12 else I(0)
                    good = and_(le(1, m), le(m, 12), le(1, d), le(d, 31))
                    want = add(toreal(y), mul(R(Fr(1, 365)), add(cum(m), toreal(sub(d, 1)), mul(R(Fr(1, 24)), toreal(hh)), mul(R(Fr(1, 1440)), toreal(mi)))))
                    real = [le(hh, 23), le(mi, 59)]
                    c.prove(f'{kind} dates: {l} digits, month or day out of range -> 0', h + [not_(good)], and_(not_(e.nan), not_(e.bad), eq(e.v, R(0))))
                    c.prove(f'{kind} dates: {l} digits = documented decimal year', h + [good] + real, and_(not_(e.nan), not_(e.bad), eq(e.v, want)))
        c.ob(f'{kind} dates', f)
    go('int'); go('float')
    c.sat('dates have their digits', facts() + [le(1, n)])
