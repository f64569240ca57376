"""C05: contract of find_25boxes: row p is the table row of the 10-degree box that holds point p."""
from con import *
OFF = [1, 1001, -999, 2001, -1999]


def obligations(c):
    lo, la = c.real('lo'), c.real('la')
    T_ = lambda r, k: uf('T', [r, k], 'I')
    dom = [le(R(0), lo.v), lt(lo.v, R(360)), le(R(-90), la.v), le(la.v, R(90))]
    k = c.int('k')

    def table(): return mkdict(dict(la_wmo_boxes=mk(AV([648, 4], T_, 'i'))))

    def main():
        outs = c.run(FND, 'find_25boxes', [lo, la, table()], pc=dom, budget=20000)
        for v, s in c.returns(outs, 'returns'):
            a = c.last.avs(s, v)
            c.prove('25 rows of 4 entries', hy(s), and_(eq(a.shape[0], 25), eq(a.shape[1], 4)))
            for p in range(25):
                dx, dy = OFF[p % 5], OFF[p // 5]
                x, y = add(lo.v, R(Fr(dx, 100))), add(la.v, R(Fr(dy, 100)))
                X = ite(lt(x, R(0)), add(x, 360), ite(le(R(360), x), sub(x, 360), x))
                cx, cy = c.int('cx'), c.int('cy')
                # the point lies inside the box (its edges excluded), points beyond a pole count as in the polar boxes
                inx = and_(lt(mul(10, toreal(cx)), X), lt(X, mul(10, toreal(add(cx, 1)))))
                top, bot = sub(90, mul(10, toreal(cy))), sub(80, mul(10, toreal(cy)))
                iny = and_(le(0, cy), le(cy, 17), or_(lt(bot, y), eq(cy, 17)), or_(lt(y, top), eq(cy, 0)))
                e = fl(a.elt(I(p), k))
                c.prove(f'row {p} is the box of the point ({dx / 100:+}, {dy / 100:+})', hy(s) + [rng(k, 4), inx, iny],
                        and_(not_(e.nan), not_(e.bad), eq(e.v, toreal(T_(add(mul(18, cx), cy), k)))), hints=[cx, cy, add(cx, 1)])
    c.ob('find_25boxes', main)

    def missing():
        for nm, x, y in (('longitude', NAN, la), ('latitude', lo, NAN), ('longitude and latitude', NAN, NAN)):
            for v, s in c.returns(c.run(FND, 'find_25boxes', [x, y, table()], pc=dom), f'missing {nm}: returns'):
                a = c.last.avs(s, v)
                c.prove(f'missing {nm}: every entry is missing', hy(s), and_(eq(a.shape[0], 25), eq(a.shape[1], 4), forall(I(25), lambda p: forall(I(4), lambda q: fl(a.elt(p, q)).nan))))
    c.ob('missing', missing)
    c.sat('positions on the globe', dom)
