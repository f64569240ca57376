"""Proof search: algebraic normal form first, then refutation by z3 (cvc5 as second opinion) after ground instantiation of
every quantified fact and of the axioms of the index functions (sel, count, argmin, argsort, sum)."""
import hashlib
import time, sys
import z3
from ir import *
from ir import _mk, _coef, _scale
from alg import Norm, inds, tick, Clock, OutOfTime

STATS = dict(z3_s=0., z3_n=0, alg_n=0, cvc5_n=0, cvc5_s=0.)
DEBUG = False
LIGHT = True


def subterms(ts, seen, out):
    """ground subterms (bodies of binders are not entered)"""
    st = list(ts)
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t); out.append(t)
        if t.op == 'bind':
            st.append(t.args[0]); st.extend(t.args[2:])
            st.extend(inner(t.args[1]) if t.data[0] == 'forall' else [x for x in inner(t.args[1]) if x.op == 'bind'])
        else: st.extend(t.args)


_inner = {}
def inner(t):
    """ground function applications under a binder"""
    r = _inner.get(t)
    if r is None:
        r = set()
        if (t.op == 'uf' or t.op == 'bind' and t.data[0] in ('argmin', 'sel', 'argsort')) and not any(n.startswith('#') for n, _ in t.fv): r.add(t)
        else:
            for a in t.args: r |= inner(a)
        r = _inner[t] = frozenset(r)
    return r


AC = ('and', 'add', 'mul')


def intform(t):
    """integer form of an integer-valued real term, or None"""
    if t.sort == 'I': return t
    if isc(t): return I(int(t.data)) if t.data.denominator == 1 else None
    if t.op == 'toreal': return t.args[0]
    if t.op in ('add', 'mul'):
        xs = [intform(x) for x in t.args]
        return None if any(x is None for x in xs) else (add if t.op == 'add' else mul)(*xs)
    if t.op == 'ite':
        xs = [intform(x) for x in t.args[1:]]
        return None if any(x is None for x in xs) else ite(t.args[0], *xs)
    return None


def lift(t):
    """bind term -> (pattern, parameters): maximal subterms of the body free of the bound variable become parameters"""
    if t.nm is not None: return t.nm
    bv = t.data[1]; params = []; memo = {}

    def shape(x, names):                    # structure of x with the parameters masked; orders the arguments of and/add/mul
        if isc(x): return ('c', str(x.data))
        if not (x.fv & frozenset(names)) and x.sort in 'IRB': return ('@',)
        key = (x, names, 0)
        if key in memo: return memo[key]
        if x.op == 'var': r = ('v', str(len(names) - 1 - names[::-1].index(x.data)) if x.data in names else x.data[0])
        elif x.op == 'bind': r = ('b' + x.data[0], shape(x.args[0], names), shape(x.args[1], names + (x.data[1],))) + tuple(shape(y, names) for y in x.args[2:])
        else:
            r = [shape(y, names) for y in x.args]
            if x.op in AC: r.sort(key=repr)
            r = (x.op, str(x.data)) + tuple(r)
        memo[key] = r = ('h', hashlib.md5(repr(r).encode()).hexdigest())
        return r

    def go(x, names):                       # names: bound variables, outermost first; renamed to their depth
        if isc(x): return x
        if not (x.fv & frozenset(names)) and x.sort in 'IRB':
            if x in params: k = params.index(x)
            else: k = len(params); params.append(x)
            return var(f'@{k}', x.sort)
        if x.op == 'var':
            if x.data in names: return var(f'%{len(names) - 1 - names[::-1].index(x.data)}', x.sort)
            return x
        key = (x, names)
        if key in memo: return memo[key]
        if x.op == 'bind':
            r = _mk('bind', (go(x.args[0], names), go(x.args[1], names + (x.data[1],))) + tuple(go(y, names) for y in x.args[2:]), (x.data[0], (f'%{len(names)}', x.data[1][1])) + tuple(x.data[2:]), x.sort)
        else:
            xs = x.args
            if x.op in AC: xs = sorted(xs, key=lambda y: shape(y, names))
            r = _mk(x.op, tuple(go(y, names) for y in xs), x.data, x.sort)
        memo[key] = r
        return r
    b = go(t.args[1], (bv,))
    t.nm = (t.data[0], b), params
    return t.nm


class Lower:
    def __init__(self): self.memo = {}; self.names = {}; self.decls = {}

    def fn(self, key, name, dom, rng):
        k = (key, tuple(dom), rng)
        f = self.decls.get(k)
        if f is None:
            s = dict(I=z3.IntSort(), R=z3.RealSort(), B=z3.BoolSort())
            f = self.decls[k] = z3.Function(f'{name}_{len(self.decls)}', *[s[d] for d in dom], s[rng])
        return f

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None: r = self.memo[t] = self.go(t)
        return r

    def go(self, t):
        o = t.op; L = self
        if o == 'const':
            if t.sort == 'B': return z3.BoolVal(t.data)
            return z3.IntVal(int(t.data)) if t.sort == 'I' else z3.RealVal(str(t.data))
        if o == 'var':
            s = dict(I=z3.Int, R=z3.Real, B=z3.Bool)[t.sort]
            return s(t.data[0] + '$' + t.sort)
        if o == 'bind':
            if t.data[0] == 'sum' and t.sort == 'R':
                v, n, b = open_(t); b = intform(b)
                if b is not None: return z3.ToReal(L(bind('sum', v, n, b)))
            key, ps = lift(t)
            ex = list(t.args[2:])
            args = [t.args[0]] + ps + ex
            if not args: return L.fn(key, t.data[0], [], t.sort)()
            return L.fn(key, t.data[0], [a.sort for a in args], t.sort)(*[L(a) for a in args])
        a = [L(x) for x in t.args]
        if o == 'add':
            r = a[0]
            for x in a[1:]: r = r + x
            return r
        if o == 'mul':
            r = a[0]
            for x in a[1:]: r = r * x
            return r
        if o == 'toreal': return z3.ToReal(a[0])
        if o == 'inv': return L.fn('inv', 'inv', 'R', 'R')(a[0])
        if o == 'floor': return L.fn('floor', 'floor', 'R', 'I')(a[0])
        if o in ('fdiv', 'mod'):
            if isc(t.args[1]) and t.args[1].data > 0: return a[0] / a[1] if o == 'fdiv' else a[0] % a[1]
            return L.fn(o, o, 'II', 'I')(*a)
        if o == 'ge0': return a[0] >= 0
        if o == 'le0': return a[0] <= 0
        if o == 'eq0': return a[0] == 0
        if o == 'iff': return a[0] == a[1]
        if o == 'not': return z3.Not(a[0])
        if o == 'and': return z3.And(*a)
        if o == 'ite': return z3.If(*a)
        if o == 'uf':
            if not a: return L.fn(t.data, str(t.data), [], t.sort)()
            return L.fn(t.data, str(t.data), [x.sort for x in t.args], t.sort)(*a)
        if o == 'eqo': return L.fn(('eqo', t.id), 'eqo', [], 'B')()
        raise NotImplementedError(o)


LOW = Lower()


class Model:
    def __init__(self, m): self.m = m

    def ev(self, t):
        v = self.m.eval(LOW(t), model_completion=True)
        if z3.is_true(v): return True
        if z3.is_false(v): return False
        if z3.is_int_value(v): return v.as_long()
        if z3.is_rational_value(v): return Fr(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(20); return Fr(a.numerator_as_long(), a.denominator_as_long())
        raise ValueError(str(v))


def triggers(F):
    """(op, data, position, offset, sign) of occurrences of the bound variable of F as an argument"""
    bv = F.data[1]; out = set()
    st = [F.args[1]]; seen = set()
    while st:
        t = st.pop()
        if t in seen or bv not in t.fv: continue
        seen.add(t)
        if t.op == 'uf' or t.op in ('mod', 'fdiv'):
            for p, a in enumerate(t.args):
                k = _off(a, bv)
                if k is not None: out.add((t.op, t.data, p) + k)
        elif t.op == 'bind':
            for p, a in enumerate(t.args):
                if p == 1: continue
                k = _off(a, bv)
                if k is not None: out.add(('bind', t.data[0], p) + k)
        st.extend(t.args)
    return out


def edges(F):
    """values at which comparisons of the bound variable of F switch"""
    bv = F.data[1]; out = {}
    st = [F.args[1]]; seen = set()
    while st:
        t = st.pop()
        if t in seen or bv not in t.fv: continue
        seen.add(t)
        if t.op in ('ge0', 'le0', 'eq0') and t.args[0].sort == 'I':
            k = _off(t.args[0], bv)
            if k is not None:
                x = neg(k[0]) if k[1] == 1 else k[0]
                out[x] = 1
                if t.op != 'eq0': out[sub(x, 1) if (k[1] == 1) == (t.op == 'ge0') else add(x, 1)] = 1
        st.extend(t.args)
    return out


def _off(a, bv):
    """a = sign*bv + rest with rest free of bv -> (rest, sign)"""
    if a.sort != 'I' or bv not in a.fv: return None
    ts = a.args if a.op == 'add' else (a,)
    hit = [x for x in ts if bv in x.fv]
    if len(hit) != 1: return None
    c, r = _coef(hit[0])
    if r.op == 'var' and r.data == bv and abs(c) == 1:
        rest = sub(a, hit[0])
        if any(n.startswith('#') for n, _ in rest.fv): return None
        return rest, int(c)
    return None


class Prover:
    def __init__(self, budget=60.):
        self.cache = {}; self.t_end = None
        self.max_terms = 2500

    # ---- axioms of one ground term
    def axioms(self, t, bykind):
        o, out = t.op, []
        if o == 'inv':
            b = t.args[0]; out.append(or_(eq(b, R(0)), eq(mul(b, t), R(1)))); out.append(or_(ne(b, R(0)), eq(t, R(0))))
            out.append(or_(le(b, R(0)), gt(t, R(0)))); out.append(or_(ge(b, R(0)), lt(t, R(0))))
        elif o == 'floor':
            x = t.args[0]; f = toreal(t); out += [le(f, x), lt(x, add(f, R(1)))]
        elif o in ('fdiv', 'mod') and not isc(t.args[1]):
            a, b = t.args; q, m = fdiv(a, b), mod(a, b)
            out.append(implies(gt(b, 0), and_(eq(a, add(mul(b, q), m)), le(0, m), lt(m, b))))
            X, r = [], []
            for x in (a.args if a.op == 'add' else (a,)):
                if x is b: X.append(I(1))
                elif x.op == 'mul' and b in x.args:
                    fs = list(x.args); fs.remove(b); X.append(mul(*fs))
                else: r.append(x)
            X, r = (add(*X) if X else I(0)), (add(*r) if r else I(0))
            out.append(implies(and_(le(0, r), lt(r, b)), and_(eq(q, X), eq(m, r))))
            out.append(implies(and_(gt(b, 0), le(0, a)), le(0, q)))
        elif o == 'uf':
            a = t.args
            if t.data == 'sqrt':
                out.append(or_(lt(a[0], R(0)), and_(ge(t, R(0)), eq(mul(t, t), a[0]))))
            elif t.data == 'exp':
                out += [gt(t, R(0)), eq(le(a[0], R(0)), le(t, R(1))), eq(ge(a[0], R(0)), ge(t, R(1))), ge(t, add(a[0], R(1)))]
            elif t.data == 'sin': out += [le(t, R(1)), ge(t, R(-1))]
        elif o == 'var' and t is PI: out += [lt(R(Fr(31415, 10000)), PI), lt(PI, R(Fr(31416, 10000)))]
        elif o == 'bind':
            k = t.data[0]; bv, n, body = _mk('var', (), t.data[1], 'I'), t.args[0], t.args[1]
            at = lambda x: subst(body, {bv: I(x)})
            if k == 'sum':
                w = fresh('w', 'I')
                isind = body.op == 'ite' and isc(body.args[1]) and isc(body.args[2]) and body.args[1].data == 1 and body.args[2].data == 0
                isnot = body.op == 'ite' and isc(body.args[1]) and isc(body.args[2]) and body.args[1].data == 0 and body.args[2].data == 1
                z = const(Fr(0), t.sort)
                if isind or isnot:
                    p = body.args[0] if isind else not_(body.args[0])
                    c = t if t.sort == 'I' else None
                    nn = n if t.sort == 'I' else toreal(n)
                    out += [ge(t, z), le(t, ite(ge(n, 0), nn, z))]
                    allnot = rb('forall', bv, n, not_(p))
                    alls = rb('forall', bv, n, p)
                    out.append(eq(eq(t, z), or_(allnot, le(n, 0))))
                    out.append(eq(eq(t, nn), or_(and_(alls, ge(n, 0)), eq(n, 0))))
                    if t.sort == 'I':
                        # least and greatest witnesses through sel
                        s0 = rb('sel', bv, n, p, I(0), sort='I')
                        out.append(implies(gt(t, 0), and_(le(0, s0), lt(s0, n), subst(p, {bv: s0}))))
                        for (n2, t2) in bykind.get(('cnt', lift_key(p, bv)), []):
                            if n2 is not n:
                                # counting up to n2 against counting up to n
                                out.append(implies(and_(le(n2, n), ge(n2, 0)), and_(le(t2, t), le(sub(t, t2), sub(n, n2)))))
                                out.append(implies(and_(le(n, n2), ge(n, 0)), and_(le(t, t2), le(sub(t2, t), sub(n2, n)))))
                                out.append(implies(and_(lt(n2, n), ge(n2, 0), subst(p, {bv: n2})), lt(t2, t)))
                                out.append(implies(and_(lt(n, n2), ge(n, 0), subst(p, {bv: n})), lt(t, t2)))
                                out.append(implies(and_(eq(n, add(n2, 1)), ge(n2, 0)), eq(t, add(t2, ite(subst(p, {bv: n2}), I(1), I(0))))))
                                out.append(implies(and_(eq(n2, add(n, 1)), ge(n, 0)), eq(t2, add(t, ite(subst(p, {bv: n}), I(1), I(0))))))
                        bykind.setdefault(('cnt', lift_key(p, bv)), []).append((n, t))
                        for s in bykind.get(('sel', lift_key(p, bv)), []):
                            self.rank_sel(out, n, t, s, p, bv)
                else:
                    out.append(or_(ge(t, z), and_(le(0, w), lt(w, n), lt(at(w), z))))
                    if not (body.fv - {bv.data}) and False: pass
                    for t2 in bykind.get(('sum', t.sort), []):
                        if len(bykind[('sum', t.sort)]) < 8:
                            w2 = fresh('w', 'I'); b2 = subst1(t2.args[1], t2.data[1], w2)
                            out.append(implies(eq(n, t2.args[0]), or_(eq(t, t2), and_(le(0, w2), lt(w2, n), ne(at(w2), b2)))))
                    bykind.setdefault(('sum', t.sort), []).append(t)
            elif k == 'sel':
                i = t.args[2]; c = rb('sum', bv, n, ite(body, I(1), I(0)))
                ok = and_(le(0, i), lt(i, c))
                rk = rb('sum', bv, t, ite(body, I(1), I(0)))
                bykind.setdefault('sels', {})[(n, body, bv)] = 1
                out.append(implies(ok, and_(le(0, t), lt(t, n), at(t), eq(rk, i), le(i, t))))
                for s in bykind.get(('sel', lift_key(body, bv)), []):
                    if s.args[0] is n:
                        j = s.args[2]
                        ok2 = and_(le(0, j), lt(j, c))
                        out.append(implies(and_(ok, ok2), and_(eq(lt(i, j), lt(t, s)), eq(eq(i, j), eq(t, s)))))
                bykind.setdefault(('sel', lift_key(body, bv)), []).append(t)
                for (n2, t2) in bykind.get(('cnt', lift_key(body, bv)), []): self.rank_sel(out, n2, t2, t, body, bv)
            elif k == 'argmin':
                v = fresh('k', 'I')
                out.append(implies(gt(n, 0), and_(le(0, t), lt(t, n))))
                less, _ = korder(body)
                out.append(implies(gt(n, 0), bind('forall', v, n, and_(not_(less(at(v), at(t))), implies(lt(v, t), less(at(t), at(v)))))))
            elif k == 'argsort':
                i = t.args[2]
                ok = and_(le(0, i), lt(i, n))
                out.append(implies(ok, and_(le(0, t), lt(t, n))))
                ik = ('argsort', lift_key(body, bv))
                for s in bykind.get(ik, []):
                    if s.args[0] is n:
                        j = s.args[2]; ok2 = and_(le(0, j), lt(j, n))
                        less, _ = korder(body)
                        before = lambda x, y: and_(not_(less(at(y), at(x))), or_(less(at(x), at(y)), lt(x, y)))
                        out.append(implies(and_(ok, ok2), and_(eq(eq(i, j), eq(t, s)), implies(lt(i, j), before(t, s)), implies(lt(j, i), before(s, t)))))
                bykind.setdefault(ik, []).append(t)
            elif k == 'argsortinv':
                i = t.args[2]
                p = rb('argsort', bv, n, body, t, sort='I')
                out.append(implies(and_(le(0, i), lt(i, n)), and_(le(0, t), lt(t, n), eq(p, i))))
            elif k == 'forall': pass
            ax = BINDAX.get(k)
            if ax: out += ax(t, n, body, bv, bykind)
        return out

    def rank_sel(self, out, n2, cnt, s, p, bv):
        """cnt counts p up to n2; s = sel(n, p, i): if p(n2) and n2 < n then sel(n, p, cnt) = n2"""
        n, i = s.args[0], s.args[2]
        out.append(implies(and_(eq(cnt, i), le(0, n2), lt(n2, n), subst(p, {bv: n2})), eq(s, n2)))

    # ---- ground instantiation
    def expand(self, facts, rounds=4, hints=(), each=None, cap=None, small=0):
        cap = cap or self.max_terms
        A = []; inA = set()

        def assert_(t):
            if t is TRUE or t in inA: return
            inA.add(t); A.append(t)
        for f in facts: assert_(f)
        pos = set()                                    # foralls asserted true: no witness needed
        for f in A:
            for x in (f.args if f.op == 'and' else (f,)):
                if x.op == 'bind' and x.data[0] == 'forall': pos.add(x)
        seen, done, inst = set(), set(), set()
        bykind = {}
        foralls, cands = [], {}
        idx = {}
        fa_trig = {}; fa_edge = {}
        nA = 0
        for t in hints: idx[t] = 1
        for rnd in range(rounds):
            # close under axioms
            for depth in range(4):
                new = []
                subterms(A[nA:], seen, new); nA = len(A)
                if not new: break
                tick()
                for t in new:
                    if t.sort == 'L': continue
                    if t.op == 'bind' and t.data[0] == 'forall':
                        foralls.append(t); fa_trig[t] = triggers(t); fa_edge[t] = edges(t)
                        if t not in pos:
                            w = fresh('w', 'I'); idx[w] = 1
                            assert_(implies(not_(t), and_(le(0, w), lt(w, t.args[0]), not_(subst1(t.args[1], t.data[1], w)))))
                        continue
                    if t.op in ('uf', 'mod', 'fdiv'):
                        for p, a in enumerate(t.args):
                            if a.sort == 'I': cands.setdefault((t.op, t.data, p), {})[a] = 1; idx.setdefault(a, 1)
                    elif t.op == 'bind':
                        for p, a in enumerate(t.args):
                            if p != 1 and a.sort == 'I':
                                cands.setdefault(('bind', t.data[0], p), {})[a] = 1
                                if p >= 2: idx.setdefault(a, 1)
                        if t.sort == 'I': idx.setdefault(t, 1) if t.data[0] != 'sum' else None
                    if len(A) < cap and (small == 0 or small > 1 and rnd == 0 and depth == 0):
                        for x in self.axioms(t, bykind): assert_(x)
            grew = False
            if rnd == 0: first = dict(idx)
            if each is not None and rnd + 1 < rounds and each(A): return A
            for (n, body, bv) in list(bykind.get('sels', ())):
                for i in list(first):
                    if i.op != 'var' or ('sel', n, body, i) in inst or len(A) > cap: continue
                    inst.add(('sel', n, body, i)); grew = True
                    c = rb('sum', bv, n, ite(body, I(1), I(0))); rk = rb('sum', bv, i, ite(body, I(1), I(0)))
                    assert_(implies(and_(le(0, i), lt(i, n), subst(body, {bv: i})), and_(eq(rb('sel', bv, n, body, rk, sort='I'), i), le(0, rk), lt(rk, c))))
            for F in list(foralls):
                tr = fa_trig[F]
                cs = dict(fa_edge[F])
                for (op, data, p, off, sg) in tr:
                    for g in list(cands.get((op, data, p), ())):
                        c = sub(g, off)
                        cs[c if sg == 1 else neg(c)] = 1
                if small: cs.update({i: 1 for i in idx if i.op in ('var', 'const')}); cs = {x: 1 for x in cs if x.op in ('var', 'const') or x.op == 'uf' and x.h < 3 or small > 1 and x.op == 'bind' or x in fa_edge[F]}
                elif not tr: cs.update(idx if rnd < 2 else first)
                for h in hints: cs[h] = 1
                for c in cs:
                    if (F, c) in inst or len(A) > cap: continue
                    if rnd > 1 and c.h > 3: continue
                    inst.add((F, c)); grew = True
                    b = implies(and_(le(0, c), lt(c, F.args[0])), subst1(F.args[1], F.data[1], c))
                    assert_(b if F in pos else implies(F, b))
            if not grew: break
        return A

    def unsat(self, facts, timeout=4., rounds=4, hints=(), want_model=False, cap=None, small=0):
        """'unsat' | 'sat' | 'unknown', model"""
        for f in facts:
            if f is FALSE: return 'unsat', None
        key = (frozenset(f.id for f in facts), rounds, cap, small, tuple(h.id for h in hints))
        if key in self.cache and not want_model and (self.cache[key][0] == 'unsat' or self.cache[key][1] >= timeout): return self.cache[key][0], None
        def query(A, timeout):
            tick()
            t0 = time.time()
            if Clock.end is not None: timeout = max(.05, min(timeout, Clock.end - t0))
            s = z3.Solver(); s.set('timeout', int(timeout * 1000))
            for a in A: s.add(LOW(a))
            r = str(s.check())
            STATS['z3_s'] += time.time() - t0; STATS['z3_n'] += 1
            return r, s
        early = []

        def each(A):
            if len(A) > 400 or early and len(A) < 1.3 * early[-1]: return False
            early.append(len(A))
            if query(A, min(timeout, .5))[0] == 'unsat': early.append('unsat'); return True
        A = self.expand(facts, rounds, hints, each, cap, small)
        if early and early[-1] == 'unsat': self.cache[key] = ('unsat', timeout); return 'unsat', None
        t0 = time.time()
        r, s = query(A, timeout)
        if DEBUG: print('   z3', r, len(A), round(time.time() - t0, 2), file=sys.stderr)
        self.cache[key] = (r, timeout)
        m = None
        if r == 'sat' and want_model: m = Model(s.model())
        return r, m


BINDAX = {}


def korder(body):
    """strict order of sort keys: numbers, or pair(valid, number) with valid ones first and the others tied"""
    if body.op == 'uf' and body.data == 'pair':
        def less(x, y):
            if x.op != 'uf' or y.op != 'uf': raise Unsupported('pair key')
            (m, a), (o, b) = x.args, y.args
            return or_(lt(o, m), and_(eq(m, 1), eq(o, 1), lt(a, b)))
        return less, None
    return lt, None


def rb(kind, bv, n, body, *ex, sort=None):
    v = fresh('k', 'I'); return bind(kind, v, n, subst(body, {bv: v}), *ex, sort=sort)


def lift_key(p, bv): return p.id


P = Prover()


class Ctx:
    """hypotheses; decides conditions and simplifies terms under them"""
    def __init__(self, hyps=(), memo=None, qt=.6):
        self.hyps = []; self.known = {}; self.memo = {}; self.dmemo = {}; self.qt = qt; self.up = self.own = self.sol = None
        for h in hyps: self.add(h)

    def add(self, h):
        if h.op == 'and':
            for x in h.args: self.add(x)
            return
        if h is TRUE or h in self.known and self.known[h]: return
        self.hyps.append(h)
        if h.op == 'not': self.known[h.args[0]] = False
        else: self.known[h] = True

    def sub(self, *hs):
        c = Ctx((), qt=self.qt); c.hyps = list(self.hyps); c.known = dict(self.known); c.inner = self.inner
        for h in hs: c.add(h)
        return c

    def under(self, v, n):
        """the context of a binder body"""
        c = self.sub(le(0, v), lt(v, n)); c.up, c.own, c.inner = self, v.data, self.inner | {v.data}
        return c

    inner = frozenset()

    def light(self, c):
        """decided by the hypotheses as they are, without instances"""
        if self.sol is None:
            self.sol = z3.Solver(); self.sol.set('timeout', 150); self.sn = 0
        tick()
        for h in self.hyps[self.sn:]: self.sol.add(LOW(h))
        self.sn = len(self.hyps)
        t0 = time.time()
        try:
            for v, g in ((True, not_(c)), (False, c)):
                STATS['z3_n'] += 1
                if self.sol.check(LOW(g)) == z3.unsat: return v
        finally: STATS['z3_s'] += time.time() - t0
        return None

    def decide(self, c, rounds=2):
        c = B(c)
        if isc(c): return c.data
        if c in self.known: return self.known[c]
        if c.op == 'not':
            r = self.decide(c.args[0], rounds); return None if r is None else not r
        if c in self.dmemo: return self.dmemo[c]
        r = None
        if c.op == 'and':
            rs = [self.known.get(x) if x.op != 'not' else (None if self.known.get(x.args[0]) is None else not self.known[x.args[0]]) for x in c.args]
            if any(x is False for x in rs): r = False
        if r is None and self.up is not None and self.own not in c.fv: r = self.dmemo[c] = self.up.decide(c, rounds); return r
        if r is None: r = self.light(c)
        if r is None:
            cap = 500
            if c.fv & self.inner and LIGHT: self.dmemo[c] = None; return None
            if P.unsat(self.hyps + [not_(c)], self.qt, rounds, cap=cap)[0] == 'unsat': r = True
            elif P.unsat(self.hyps + [c], self.qt, rounds, cap=cap)[0] == 'unsat': r = False
        self.dmemo[c] = r
        return r

    def simp(self, t):
        """rewrites conditions that the hypotheses decide"""
        r = self.memo.get(t)
        if r is not None: return r
        if t.op in ('const', 'var'): r = t
        elif t.sort == 'B' and t.op != 'bind':
            d = self.decide(t)
            if d is not None: r = B(d)
            elif t.op == 'and':
                xs = [self.simp(a) for a in t.args]
                if t.fv & self.inner:          # inside a binder: drop what the others imply
                    for x in list(xs):
                        rest = [y for y in xs if y is not x]
                        if len(xs) > 1 and len(rest) < len(xs) and self.sub(*rest).decide(x, 1) is True: xs = rest
                r = and_(*xs)
            else: r = rebuild(t, [self.simp(a) for a in t.args])
        elif t.op == 'ite':
            c = self.simp(t.args[0])
            if isc(c): r = self.simp(t.args[1] if c.data else t.args[2])
            else: r = ite(c, self.sub(c).simp(t.args[1]) if has_cond(t.args[1]) else self.simp(t.args[1]), self.sub(not_(c)).simp(t.args[2]) if has_cond(t.args[2]) else self.simp(t.args[2]))
        elif t.op == 'bind':
            n = self.simp(t.args[0]); ex = [self.simp(a) for a in t.args[2:]]
            if has_cond(t.args[1]) and t.data[0] in ('sum', 'forall', 'sel', 'argmin', 'argsort', 'argsortinv', 'lam', 'inv') :
                v = fresh('k', 'I')
                b = self.under(v, n).simp(subst1(t.args[1], t.data[1], v))
                r = bind(t.data[0], v, n, b, *ex, sort=t.sort)
            else: r = rebuild(t, [n, t.args[1]] + ex)
            if r.sort == 'B' and r is not t and not isc(r):
                d = self.known.get(r)
                if d is not None: r = B(d)
            elif r.sort == 'B' and not isc(r):
                d = self.decide(r)
                if d is not None: r = B(d)
        elif t.op == 'uf' and t.data == 'pair':                       # the value of an invalid pair is irrelevant
            m = self.simp(t.args[0]); w = t.args[1]
            if m.op == 'ite': w = self.sub(m.args[0]).simp(w)
            elif not isc(m) or m.data: w = self.simp(w)
            else: w = R(0)
            r = rebuild(t, [m, w])
        else:
            r = rebuild(t, [self.simp(a) for a in t.args])
        self.memo[t] = r
        return r


_hc = {}
def has_cond(t):
    r = _hc.get(t)
    if r is None:
        r = _hc[t] = (t.sort == 'B' and t.op != 'const') or any(has_cond(a) for a in t.args)
    return r


def eliminate(hyps, goal):
    """substitutes variables defined by equations of the hypotheses"""
    hyps = list(hyps); hs = set(hyps)
    for h in list(hyps):
        # 0 <= x and x <= 0
        a = h.args[0] if h.op in ('ge0', 'le0') else None
        if h.op == 'not' and h.args[0].op == 'ge0' and h.args[0].args[0].sort == 'I': a = add(h.args[0].args[0], 1)
        if a is not None and a.sort == 'I' and not isc(a) and (ge0(a) in hs and (ge0(neg(a)) in hs or not_(ge0(sub(a, 1))) in hs)):
            e = eq(a, 0)
            if e not in hs and not isc(e): hyps.append(e); hs.add(e)
    for _ in range(12):
        hit = None
        for h in hyps:
            if h.op != 'eq0': continue
            d = h.args[0]
            for a in (d.args if d.op == 'add' else (d,)):
                if isc(a): continue
                c, r = _coef(a)
                if r.op == 'var' and r is not PI and (abs(c) == 1 or d.sort == 'R'):
                    rest = sub(d, a)
                    if r.data in rest.fv: continue
                    hit = (h, r, _scale(-1 / c, rest)); break
            if hit: break
        if not hit: break
        h, v, w = hit
        hyps = [subst(x, {v: w}) for x in hyps if x is not h]; goal = subst(goal, {v: w})
    return hyps, goal


_gc = {}
def gconds(t):
    """ground conditions of if-then-else terms in t, outside and inside binders"""
    r = _gc.get(t)
    if r is None:
        r = set()
        if t.op == 'ite' and t.sort != 'B' and not isc(t.args[0]) and not any(n.startswith('#') for n, _ in t.args[0].fv): r.add(t.args[0])
        for a in t.args: r |= gconds(a)
        r = _gc[t] = frozenset(r)
    return r


_hf = {}
def has_forall(fs):
    def go(t):
        r = _hf.get(t)
        if r is None: r = _hf[t] = t.op == 'bind' and t.data[0] == 'forall' or any(go(a) for a in t.args)
        return r
    return any(go(f) for f in fs)


def split_cond(fs):
    """the ground condition to split on: the one most formulas depend on (conditions inside others first)"""
    n = {}
    for f in fs:
        for c in gconds(f):
            while c.op == 'not': c = c.args[0]
            n[c] = n.get(c, 0) + 1
    n = {c: k for c, k in n.items() if c.op != 'and' or True}
    if not n: return None
    big = [c for c in n if c.op != 'bind' and (has_bind(c) or n[c] > 1)]
    if not big: return None
    return max(big, key=lambda c: (has_bind(c), n[c], -c.id))


_hb = {}
def has_bind(t):
    r = _hb.get(t)
    if r is None: r = _hb[t] = t.op == 'bind' or any(has_bind(a) for a in t.args)
    return r


_ns = {}; CANON = {}
def nested_sum(t, inner=False):
    """does t contain a real sum inside another one"""
    k = (t, inner)
    r = _ns.get(k)
    if r is None:
        s = t.op == 'bind' and t.data[0] == 'sum' and t.sort == 'R'
        r = _ns[k] = (s and inner) or any(nested_sum(a, inner or s) for a in t.args)
    return r


def canon_sums(t, memo=None):
    """real comparisons over nested sums brought to the normal form of alg.py"""
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    if t.sort == 'B' and t.op in ('eq0', 'ge0', 'le0') and t.args[0].sort == 'R':
        r = t
        if nested_sum(t):
            try:
                N = Norm(); p = N.poly(t.args[0])
                if not N.side and not N.nonneg: r = rebuild(t, [N.term(p)])
            except OverflowError: pass
    elif t.sort == 'B' and t.op in ('and', 'not', 'iff', 'ite') and t.args: r = rebuild(t, [canon_sums(a, memo) for a in t.args])
    else: r = t
    memo[t] = r
    return r


def flat(hyps):
    out = []
    for h in hyps:
        if h.op == 'and': out += flat(h.args)
        elif h is not TRUE: out.append(h)
    return out


def prove(hyps, goal, timeout=8., rounds=4, hints=(), depth=0, split=5):
    """-> (status, how, model): status proved / refuted (z3 has a model of the ground instances) / unknown"""
    goal = B(goal)
    if isc(goal) and goal.data: return 'proved', 'simplification', None
    if goal.op == 'and':
        how = set(); worst = None
        for g in goal.args:
            r = prove(hyps, g, timeout, rounds, hints, depth, split)
            if r[0] != 'proved':
                if r[0] == 'refuted': return r
                worst = worst or r
            how.add(r[1])
        return worst or ('proved', '+'.join(sorted(how)), None)
    if goal.op == 'bind' and goal.data[0] == 'forall':
        v, n, b = open_(goal)
        return prove(list(hyps) + [le(0, v), lt(v, n)], b, timeout, rounds, hints, depth, split)
    hyps = flat(hyps)
    if goal.op == 'not' and goal.args[0].op == 'and':
        xs = list(goal.args[0].args)
        kinds = (lambda y: y.op == 'eq0' and y.args[0].sort == 'R', lambda y: y.op == 'bind' and y.data[0] == 'forall', lambda y: y.op == 'and')
        for f in kinds:
            for k, x in enumerate(xs):
                if x.op == 'not' and f(x.args[0]): return prove(hyps + xs[:k] + xs[k + 1:], x.args[0], timeout, rounds, hints, depth, split)
        hyps = flat(hyps + xs); goal = FALSE
    hyps, goal = eliminate(hyps, goal)
    if nested_sum(goal) or any(nested_sum(h) for h in hyps):
        if nested_sum(goal) and not (goal.op == 'eq0') and P.unsat(hyps + [not_(goal)], 1., 3, hints, cap=900)[0] == 'unsat': return 'proved', 'z3', None
        g2 = canon_sums(goal, CANON)
        hyps = [canon_sums(h, CANON) for h in hyps]
        if g2 is not goal:
            if g2.op in ('and',) or isc(g2): return prove(hyps, g2, timeout, rounds, hints, depth, split)
            goal = g2
    lits = {}
    for h in hyps:
        if h.op == 'not': lits[h.args[0]] = FALSE
        elif not isc(h): lits[h] = TRUE
    goal = treplace(goal, lits)
    if isc(goal) and goal.data: return 'proved', 'substitution', None
    if goal.op == 'and' or goal.op == 'bind' and goal.data[0] == 'forall': return prove(hyps, goal, timeout, rounds, hints, depth, split)
    if goal.op == 'iff':
        a, b = goal.args
        r = prove(hyps + [a], b, timeout, rounds, hints, depth, split)
        if r[0] != 'proved': return r
        return prove(hyps + [b], a, timeout, rounds, hints, depth, split)
    if goal.op == 'eq0' and goal.args[0].sort == 'R':
        if P.unsat(hyps + [not_(goal)], .5, 2, hints)[0] == 'unsat': return 'proved', 'z3', None
        r = alg_zero(hyps, goal.args[0], timeout, rounds, hints, split)
        if r: return 'proved', r, None
    fs = hyps + [not_(goal)]
    c = split_cond(fs) if depth < 5 else None
    if c is not None:
        if P.unsat(fs, min(timeout, 3.), min(rounds, 3), hints, cap=900)[0] == 'unsat': return 'proved', 'z3', None
        res = None
        for v in (TRUE, FALSE):
            memo = {c: v}
            h2 = [treplace(h, memo) for h in hyps] + [c if v is TRUE else not_(c)]
            res = prove(h2, treplace(goal, memo), timeout, rounds, hints, depth + 1, split)
            if res[0] != 'proved': break
        else: return 'proved', 'case split+z3', None
        return res
    if has_forall(fs):
        for small in (1, 2):
            if P.unsat(fs, min(timeout, 4.), rounds, hints, small=small)[0] == 'unsat': return 'proved', 'z3', None
    st, m = P.unsat(fs, timeout, rounds, hints, want_model=True)
    if st == 'unsat': return 'proved', 'z3', None
    return ('refuted', 'z3', m) if st == 'sat' else ('unknown', 'z3', None)


def alg_zero(hyps, d, timeout, rounds, hints, split):
    ctx = Ctx(hyps)
    if P.unsat(ctx.hyps, 1., 2)[0] == 'unsat': return 'contradictory case'
    try:
        STATS['alg_n'] += 1
        N = Norm()
        p = N.poly(d)
        if p and inds(p) or has_cond(d):
            d2 = ctx.simp(d); N = Norm(); p = N.poly(d2)
        else: d2 = d
        if N.zero(p):
            for s in N.side:
                s = toreal(s)
                if ctx.decide(ne(s, R(0)), rounds) is not True: return None
            for s in N.nonneg:
                if ctx.decide(le(R(0), toreal(s)), rounds) is not True: return None
            return 'algebraic normal form'
        if split > 0:
            a = sorted(inds(p), key=lambda a: a.id)
            if a:
                c = a[0]
                for h in (c, not_(c)):
                    hs, dd = eliminate(flat(hyps + [h]), d2)
                    if isc(dd) and dd.data == 0: continue
                    if not alg_zero(hs, dd, timeout, rounds, hints, split - 1):
                        if P.unsat(hs + [ne(dd, R(0))], timeout, rounds, hints)[0] != 'unsat': return None
                return 'algebraic normal form + case split'
    except OverflowError: pass
    return None
