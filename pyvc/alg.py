"""Normal form of real terms: polynomials over atoms, indicators (idempotent), nested sums as sorted index blocks.
Two terms with the same normal form are equal; cancellations x * 1/x are recorded as side conditions x != 0."""
from ir import *
from ir import _mk, _coef
import itertools as _it, time as _time


class OutOfTime(Exception): pass
class Clock: end = None
def tick():
    if Clock.end is not None and _time.time() > Clock.end: raise OutOfTime('time limit')


class Poly(dict):
    pass


def pconst(c): return Poly({(): Fr(c)}) if c else Poly()


def padd(a, b, k=1):
    r = Poly(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r


class Norm:
    def __init__(self, limit=20000):
        self.side = set(); self.nonneg = set(); self.memo = {}; self.limit = limit

    def mmul(self, m1, m2):
        d = dict(m1)
        for a, e in m2:
            if a in d:
                if a.sort == 'B': continue
                x = d[a]
                if x * e < 0: self.side.add(a)
                if x + e: d[a] = x + e
                else: del d[a]
            else: d[a] = e
        return tuple(sorted(d.items(), key=lambda p: p[0].id))

    def pmul(self, a, b):
        tick()
        if len(a) * len(b) > self.limit: raise OverflowError('polynomial too large')
        r = Poly()
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v: r[m] = v
                else: r.pop(m, None)
        return r

    def ind(self, c):
        if isc(c): return pconst(1 if c.data else 0)
        if c.op == 'not': return padd(pconst(1), self.ind(c.args[0]), -1)
        if c.op == 'and':
            r = pconst(1)
            for x in c.args: r = self.pmul(r, self.ind(x))
            return r
        return Poly({((self.canon_b(c), 1),): Fr(1)})

    def canon_b(self, c):
        if c.op in ('ge0', 'le0', 'eq0') and c.args[0].sort == 'R':
            t = self.term(self.poly(c.args[0]))
            return rebuild(c, [t]) if not isc(t) else c
        return c

    def poly(self, t):
        r = self.memo.get(t)
        if r is None: r = self.memo[t] = self.roots(self._poly(t))
        return r

    def roots(self, p):
        """sqrt(x)^2 -> x (recorded: x >= 0)"""
        if not any(a.op == 'uf' and a.data == 'sqrt' and abs(e) > 1 for m in p for a, e in m): return p
        r = Poly()
        for m, c in p.items():
            q = Poly({tuple((a, e) for a, e in m if not (a.op == 'uf' and a.data == 'sqrt' and abs(e) > 1)): c})
            for a, e in m:
                if a.op == 'uf' and a.data == 'sqrt' and abs(e) > 1:
                    self.nonneg.add(a.args[0]); x = a.args[0]
                    k, odd = abs(e) // 2, abs(e) % 2
                    b = self.poly(x if e > 0 else inv(x))
                    for _ in range(k): q = self.pmul(q, b)
                    if odd: q = self.pmul(q, Poly({((a, 1 if e > 0 else -1),): Fr(1)}))
            r = padd(r, q)
        return r

    def _poly(self, t):
        o, a = t.op, t.args
        if o == 'const': return pconst(t.data)
        if o == 'add':
            r = Poly()
            for x in a: r = padd(r, self.poly(x))
            return r
        if o == 'mul':
            r = pconst(1)
            for x in a: r = self.pmul(r, self.poly(x))
            return r
        if o == 'toreal': return self.poly(a[0])
        if o == 'ite':
            c = self.ind(a[0])
            if len(c) == 1 and () in c: return self.poly(a[1])
            if not c: return self.poly(a[2])
            x, y = self.poly(a[1]), self.poly(a[2])
            return padd(y, self.pmul(c, padd(x, y, -1)))
        if o == 'inv':
            p = self.poly(a[0])
            if len(p) == 0: return pconst(0)
            if len(p) == 1:
                (m, c), = p.items()
                if all(x.sort != 'B' for x, _ in m):
                    return Poly({tuple((x, -e) for x, e in m): 1 / c})
            lead = p[min(p, key=lambda m: tuple((x.id, e) for x, e in m))]
            q = Poly({m: c / lead for m, c in p.items()})
            return Poly({((_mk('inv', (self.term(q),), None, 'R'), 1),): 1 / lead})
        if o == 'uf' and any(x.sort == 'R' for x in a):
            return self.atom(rebuild(t, [self.term(self.poly(x)) if x.sort == 'R' else x for x in a]))
        if o == 'bind' and t.data[0] == 'sum': return self.sum(*open_(t))
        return self.atom(t)

    def atom(self, t):
        if isc(t): return pconst(t.data)
        return Poly({((t, 1),): Fr(1)})

    def sum(self, v, n, body):
        r = Poly()
        for m, c in self.poly(body).items():
            r = padd(r, self.block([(v, n)], m), c)
        return r

    def block(self, bs, m):
        """normal form of the sum over the binders bs of the monomial m"""
        names = {v.data for v, _ in bs}
        # merge inner sums that depend on the binders
        for k, (a, e) in enumerate(m):
            if a.op == 'bind' and a.data[0] == 'sum' and e > 0 and a.fv & names:
                v, n, b = open_(a)
                rest = m[:k] + (((a, e - 1),) if e > 1 else ()) + m[k + 1:]
                r = Poly()
                for m2, c2 in self.poly(b).items():
                    r = padd(r, self.block(bs + [(v, n)], self.mmul(m2, rest)), c2)
                return r
        # delta
        for k, (a, e) in enumerate(m):
            if a.sort == 'B' and a.fv & names:
                for q, (v, n) in enumerate(bs):
                    if v.data not in a.fv or any(v.data in n2.fv for v2, n2 in bs): continue
                    s = solve_eq(a, v)
                    if s is not None and s[1] is TRUE:
                        w = s[0]
                        rest = self.mterm(m[:k] + m[k + 1:])
                        t = ite(and_(le(0, w), lt(w, n)), subst(rest, {v: w}), R(0))
                        bs2 = bs[:q] + bs[q + 1:]
                        p = self.poly(t)
                        if not bs2: return p
                        r = Poly()
                        for m2, c2 in p.items(): r = padd(r, self.block(bs2, m2), c2)
                        return r
        # binders that occur in no factor: multiply by their number
        used = set()
        for a, e in m: used |= a.fv
        for v, n in bs: used |= n.fv
        free = [(v, n) for v, n in bs if v.data not in used]
        if free:
            bs2 = [b for b in bs if b[0].data in used]
            cnt = self.poly(mul(*[toreal(imax(n, I(0))) for v, n in free]))
            inner = self.block(bs2, m) if bs2 else Poly({m: Fr(1)})
            return self.pmul(cnt, inner)
        # pull out factors
        out = tuple((a, e) for a, e in m if not (a.fv & names)); ins = [(a, e) for a, e in m if a.fv & names]
        if not bs: return Poly({m: Fr(1)})
        # split into connected components
        comps = []
        for v, n in bs:
            s = {v.data}; f = []
            comps.append([s, [(v, n)], f])
        def link(fv):
            hit = [c for c in comps if c[0] & fv]
            for c in hit[1:]:
                hit[0][0] |= c[0]; hit[0][1] += c[1]; hit[0][2] += c[2]; comps.remove(c)
            return hit[0]
        for v, n in bs:
            if n.fv & names: link((n.fv & names) | {v.data})
        for a, e in ins: link(a.fv & names)[2].append((a, e))
        r = Poly({out: Fr(1)})
        for s, b, f in comps:
            best = None
            body = self.mterm(tuple(f))
            for perm in _it.permutations(b) if len(b) <= 4 else [b]:
                if any(v.data in n.fv for k, (v, n) in enumerate(perm) for v2, n2 in perm[:k + 1] for v in [v2] if False): continue
                ok = True; seen = set()
                for v, n in perm:
                    if any(v2.data in n.fv for v2, _ in b) and not all(v2.data in seen for v2, _ in b if v2.data in n.fv): ok = False
                    seen.add(v.data)
                if not ok: continue
                t = body
                for v, n in reversed(perm): t = bind('sum', v, n, t)
                if best is None or t.id < best.id: best = t
            if best.op == 'bind': r = self.pmul(r, self.atom(best))
            else: r = self.pmul(r, self.poly(best))
        return r

    def mterm(self, m):
        fs = []
        conds = [a for a, e in m if a.sort == 'B']
        for a, e in m:
            if a.sort == 'B': continue
            fs += [toreal(a) if e > 0 else inv(toreal(a))] * abs(e)
        t = mul(*fs) if fs else R(1)
        return ite(and_(*conds), t, R(0)) if conds else R(t)

    def term(self, p):
        ms = sorted(p.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
        return R(add(*[mul(R(c), self.mterm(m)) for m, c in ms])) if ms else R(0)

    def zero(self, p):
        """is p the zero polynomial once denominators are multiplied out"""
        for _ in range(12):
            if not p: return True
            invs = {}
            for m in p:
                for a, e in m:
                    if a.op == 'inv' or e < 0:
                        invs[a] = max(invs.get(a, 0), e if a.op == 'inv' else -e)
            if not invs: return False
            a = max(invs, key=lambda a: a.id); k = invs[a]
            den = self.poly(a.args[0]) if a.op == 'inv' else None
            self.side.add(a.args[0] if a.op == 'inv' else a)
            r = Poly()
            for m, c in p.items():
                d = dict(m); e = d.pop(a, 0)
                m2 = tuple(sorted(d.items(), key=lambda q: q[0].id))
                if a.op == 'inv':
                    q = Poly({m2: c})
                    for _k in range(k - e): q = self.pmul(q, den)
                else: q = Poly({self.mmul(m2, ((a, e + k),)) if e + k else m2: c})
                r = padd(r, q)
            p = r
        return False


def inds(p):
    return {a for m in p for a, e in m if a.sort == 'B'}
