"""C06: contract of wrap_longitude: element-wise result from the shared test 'some longitude (after raising) is >= 320'."""
from con import *


def obligations(c):
    n = c.int('n'); i = c.int('i')
    for dt, nm in (('f', 'real'), ('i', 'integer')):
        def go():
            x = c.av('x', n, dt, nan=False)
            g = (lambda k: uf('x', [k], 'R')) if dt == 'f' else (lambda k: uf('x', [k], 'I'))
            up = lambda k: ite(lt(g(k), 0), add(g(k), 360), g(k))
            top = exists(n, lambda k: le(320, up(k)))
            want = lambda k: ite(and_(top, le(up(k), 40)), add(up(k), 360), up(k))
            h = mk(x)
            for v, s in c.returns(c.run(U, 'wrap_longitude', [h], pc=[le(1, n)]), f'{nm} longitudes: returns'):
                for who, w in (("returned array", v),):
                    a = c.last.avs(s, w)
                    if a.ndim != 1: c.add(f'{nm}: {who} is one-dimensional', 'refuted'); continue
                    c.prove(f'{nm}: {who} has the length of the input', hy(s), eq(a.shape[0], n))
                    e = a.elt(i)
                    val = e.v if isinstance(e, F) else e
                    ok = and_(not_(e.nan), not_(e.bad)) if isinstance(e, F) else TRUE
                    c.prove(f'{nm}: {who}, element i is the documented value', hy(s) + [rng(i, n)], and_(ok, eq(val, want(i))))
                    if who[0] == 'r':
                        if dt == 'i': c.prove(f'{nm}: changed by whole turns only', hy(s) + [rng(i, n)], or_(*[eq(sub(val, g(i)), 360 * k) for k in (0, 1, 2)]))
                        else: c.prove(f'{nm}: changed by whole turns only', hy(s) + [rng(i, n)], or_(*[eq(sub(val, g(i)), R(360 * k)) for k in (0, 1, 2)]))
                        c.prove(f'{nm}: a region on both sides of the meridian comes out contiguous', hy(s) + [rng(i, n), top, le(-360, g(i)), lt(g(i), 360)], lt(40, val))
        c.ob(nm, go)
    c.sat('non-empty list', [le(1, n)])
